#ifndef VERIF_CORESERVICES_H
#define VERIF_CORESERVICES_H
/* Stand-in for FSEvents: streams are kept by fsesim.c, and what happens on them
 * is up to the harness. */
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include "dispatch/dispatch.h"

typedef uintptr_t CFAllocatorRef;
extern const CFAllocatorRef kCFAllocatorDefault;
typedef const struct verif_string *CFStringRef;
typedef const struct verif_array *CFArrayRef;
typedef const void *CFTypeRef;
typedef double CFTimeInterval;
typedef unsigned char Boolean;
typedef uint32_t CFStringEncoding;
typedef long CFIndex;
typedef struct { CFIndex version; } CFArrayCallBacks;
enum { kCFStringEncodingUTF8 = 0x08000100 };
CFStringRef CFStringCreateWithCStringNoCopy(CFAllocatorRef a, const char *s, CFStringEncoding enc, CFAllocatorRef dealloc);
CFArrayRef CFArrayCreate(CFAllocatorRef a, const void **v, CFIndex n, const CFArrayCallBacks *cb);
void CFRelease(CFTypeRef cf);

typedef struct verif_stream *FSEventStreamRef;
typedef const struct verif_stream *ConstFSEventStreamRef;
typedef uint32_t FSEventStreamCreateFlags;
typedef uint32_t FSEventStreamEventFlags;
typedef uint64_t FSEventStreamEventId;
enum {
	kFSEventStreamCreateFlagNoDefer = 0x2,
	kFSEventStreamCreateFlagFileEvents = 0x10,
};
typedef struct {
	CFIndex version;
	void *info;
	const void *(*retain)(const void *);
	void (*release)(const void *);
	CFStringRef (*copyDescription)(const void *);
} FSEventStreamContext;
typedef void (*FSEventStreamCallback)(ConstFSEventStreamRef, void *, size_t, void *, const FSEventStreamEventFlags *, const FSEventStreamEventId *);

FSEventStreamEventId FSEventsGetCurrentEventId(void);
FSEventStreamRef FSEventStreamCreate(void *a, FSEventStreamCallback cb, FSEventStreamContext *ctx, CFArrayRef paths, FSEventStreamEventId since, CFTimeInterval latency, FSEventStreamCreateFlags flags);
void FSEventStreamSetDispatchQueue(FSEventStreamRef s, dispatch_queue_t q);
Boolean FSEventStreamStart(FSEventStreamRef s);
void FSEventStreamStop(FSEventStreamRef s);
void FSEventStreamInvalidate(FSEventStreamRef s);
void FSEventStreamRelease(FSEventStreamRef s);

/* For the harness. */
void verif_advance(uint64_t n);
void verif_fail(int create, int start);
int verif_failed(void);
int verif_streams(void);
int verif_info(int i, int *serial, const char **path, uint64_t *since, uint64_t *started, int *active);
int verif_call(int serial, int late, size_t n, char **paths, uint32_t *flags, uint64_t *ids);
const char *verif_bad(void);
void verif_reset(void);
#endif
