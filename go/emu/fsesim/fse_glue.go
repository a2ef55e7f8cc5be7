package notify

// #include <CoreServices/CoreServices.h>
import "C"

import "unsafe"

// simStream is a stream the stand-in for FSEvents keeps.
type simStream struct {
	serial  int
	path    string
	since   uint64
	started uint64
	active  bool
	refs    int
}

func simAdvance(n int) uint64 {
	C.verif_advance(C.uint64_t(n))
	return uint64(C.FSEventsGetCurrentEventId())
}

func simFail(create, start int) { C.verif_fail(C.int(create), C.int(start)) }
func simFailed() int            { return int(C.verif_failed()) }
func simReset()                 { C.verif_reset() }
func simBad() string            { return C.GoString(C.verif_bad()) }

func simStreams() (ss []simStream) {
	for i := 0; i < int(C.verif_streams()); i++ {
		var serial, active C.int
		var since, started C.uint64_t
		var path *C.char
		refs := C.verif_info(C.int(i), &serial, &path, &since, &started, &active)
		ss = append(ss, simStream{int(serial), C.GoString(path), uint64(since), uint64(started), active != 0, int(refs)})
	}
	return ss
}

func simCall(serial int, late bool, evs []FSEvent) bool {
	n := len(evs)
	paths := (*[1 << 20]*C.char)(C.malloc(C.size_t(n+1) * C.size_t(unsafe.Sizeof((*C.char)(nil)))))
	flags := (*[1 << 20]C.uint32_t)(C.malloc(C.size_t(n+1) * 4))
	ids := (*[1 << 20]C.uint64_t)(C.malloc(C.size_t(n+1) * 8))
	for i, e := range evs {
		paths[i], flags[i], ids[i] = C.CString(e.Path), C.uint32_t(e.Flags), C.uint64_t(e.ID)
	}
	l := C.int(0)
	if late {
		l = 1
	}
	on := C.verif_call(C.int(serial), l, C.size_t(n), &paths[0], &flags[0], &ids[0])
	for i := range evs {
		paths[i], flags[i], ids[i] = paths[i], 0xdeadbeef, 0
		C.free(unsafe.Pointer(paths[i]))
	}
	C.free(unsafe.Pointer(paths))
	C.free(unsafe.Pointer(flags))
	C.free(unsafe.Pointer(ids))
	return on != 0
}
