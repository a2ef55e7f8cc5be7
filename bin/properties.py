"""Single source of properties.jsonl; gen.py writes the file."""


def P(id, title, statement, over, text, why, files, mech, observe, state=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                             mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))


T = "tree_nonrecursive.go"
I = "watcher_inotify.go"
WP = "watchpoint.go"

PROPERTIES = [
    P("C01", "Every change a watchpoint asks for is delivered",
      "Once Watch has returned nil, every file system change that the registered path and event set ask for (on the path itself, on its direct "
      "entries, or anywhere in already existing directories below it for a recursive path) is delivered at least once, with the right event and "
      "path, to the channel, whatever other registrations of the same or other channels exist on overlapping paths, as long as the channel has room. "
      "Repeated Watch calls only ever add to what is delivered, until Stop.",
      ["inputs", "histories", "configurations"],
      "all histories of Watch/Stop calls of any number of channels with any event sets (platform independent and inotify ones), recursive or not, on "
      "directories and files, interleaved with any file system operations that leave registered paths themselves in place",
      "The tests replay a few fixed sequences with one or two watchpoints and assert the one event they wait for; how registrations combine (union of "
      "event sets per path, parents, children and leaves) is an unbounded space.",
      [T, I, WP, "node.go", "notify.go"],
      [("merging of event sets per path, dispatch along the path", T + ": Watch, watchrec, dispatch"), ("mask encoding and event decoding", I + ": encode, decode, transform"),
       ("per-channel matching", WP + ": Dispatch")],
      ["user channels", "independent inotify instance watching every inode of the tree"],
      [("watchpoint", "event set per channel on a path", WP)]),
    P("C02", "Nothing is delivered that did not happen or was not asked for",
      "Every value received from a channel describes one event (exactly one event value, with an absolute clean path and system data) that really "
      "happened on that path, that the channel has registered for, and whose path is in the scope of one of the channel's registrations: the path "
      "itself, a direct entry of it, or anything below it for a recursive one. A single change is not delivered more times than "
      "the channel's matching registrations and the objects it is reported for account for.",
      ["inputs", "histories", "configurations"],
      "all histories of Watch/Stop and file system operations as in C01, including sibling names sharing prefixes, symlinks inside trees and odd names",
      "A test waits for the event it expects and ignores or never looks for the ones that should not be there.",
      [T, I, WP, "event.go", "watchpoint_other.go"],
      [("matching of event sets, internal flags kept apart", "watchpoint_other.go: matches"), ("dispatch by path", T + ": dispatch"), ("decode yields single events", I + ": decode")],
      ["user channels", "independent inotify instance"]),
    P("C03", "After Stop returns the channel receives nothing more",
      "When Stop(c) returns, all registrations of c are gone and no value is sent to c ever after (so c may be closed), no matter how many events are in "
      "flight or which Watch and Stop calls of other channels run at the same time, until c is passed to Watch again; c then gets only what is "
      "asked for from there on. Stop of a channel that is not registered does nothing, and Stop never closes the channel nor blocks.",
      ["schedules", "histories"],
      "all interleavings of Stop with event production, dispatch goroutines and concurrent Watch/Stop calls, and all registration histories before it",
      "The tests stop a channel on an idle tree; the guarantee is about events in flight, which only hostile schedules produce.",
      [T, WP],
      [("dispatch sends under the read lock, Stop removes under the write lock", T + ": dispatch, Stop")],
      ["length of a never-read channel right after Stop and for as long as churn goes on"]),
    P("C04", "Channels do not disturb each other",
      "What a channel receives does not depend on other channels: registering, extending and stopping other channels on the same, parent or child paths, "
      "before or while changes happen, never makes the library lose an event the kernel reported for it, and never hands it events it did not ask for.",
      ["schedules", "histories"],
      "all interleavings of other channels' Watch and Stop calls with file system changes observed by a channel whose own registrations stay put",
      "Tests register channels first and generate events later; here sets grow and shrink on shared watches while events flow.",
      [T, I, WP],
      [("changing a mask in place instead of removing and adding a watch", I + ": watch"), ("total event set recomputed from the channels left", WP + ": Del"),
       ("narrowing recursive sets on Stop", T + ": watchDelMin")],
      ["the observer's channel", "list of changes made by the harness"]),
    P("C05", "Recursive watchpoints follow directories as they come and go",
      "A recursive watchpoint covers directories that are created in, moved within, or moved into its tree after the call, at any depth and including whole "
      "trees that appear at once and names that were used before, exactly as it covers the ones that were there at the beginning, once the library "
      "has digested their creation, however quickly directories are created, removed, renamed and created again. Symbolic links inside the tree are not followed.",
      ["histories", "schedules"],
      "all sequences of creating, removing, renaming and re-creating directories and trees under recursive watchpoints of several channels and event sets",
      "Tests create one directory and wait for one event; coverage after long histories of reuse, and of trees created faster than they are watched, is not reachable by them.",
      [T, "node.go", I],
      [("a create event of a directory expands the watchpoint", T + ": internal"), ("watch set before the directory is listed", "node.go: AddDir")],
      ["kernel watch list of the process (fdinfo)", "user channels against the independent inotify instance"]),
    P("C06", "Kernel watches are exactly the ones live registrations need",
      "Whenever the library is at rest, the set of objects it watches in the kernel, and the event mask of each, is what the registrations in force "
      "require: every object needed is watched for all it is needed for, no object nobody needs stays watched, and no mask is wider than asked for "
      "(apart from the creations a recursive watchpoint has to see). When every channel has been stopped no kernel watch is left, and repeating "
      "register/stop cycles keeps descriptors and goroutines constant.",
      ["histories", "configurations"],
      "all histories of Watch/Stop calls and file system operations that leave registered paths in place",
      "The tests never look at what the kernel holds; a leaked or missing watch shows up only after later calls or in production limits.",
      [T, I, WP],
      [("event set differences drive Watch, Rewatch and Unwatch", T + ": watch, stop, watchDelMin"), ("descriptor map", I + ": Unwatch")],
      ["/proc/self/fdinfo of the inotify descriptor", "/proc/self/fd", "goroutine stacks"]),
    P("C07", "A channel nobody reads holds nobody else up",
      "A channel that is full, unbuffered or never read loses its own events only: file system changes keep being delivered to every other channel, and "
      "Watch and Stop of any channel return, no matter how many events are produced. A channel with free capacity n keeps the next n "
      "events that match it: events are dropped only when it is full.",
      ["schedules", "configurations"],
      "any mix of channel capacities (0 and up) and readers, any volume of events, Watch/Stop calls at any time",
      "Existing tests read all their channels; a blocking send shows only once several internal buffers are full at the same time.",
      [WP, T, I],
      [("non-blocking send to user channels", WP + ": Dispatch"), ("a goroutine per event, so internal queues drain", T + ": dispatch")],
      ["user channels", "goroutine stacks (blocked for good)"]),
    P("C08", "Path arguments are resolved like the operating system does",
      "Watch accepts any spelling of an existing path (relative, unclean, through symbolic links at any position, chained, absolute or relative, deep) and "
      "registers the real path: the object watched is the one the operating system would open for the lexically cleaned absolute path, and all events carry the real, absolute, clean path. It "
      "fails with an error, registers nothing and terminates for missing paths, dangling links and link cycles, and a trailing \"...\" element selects "
      "recursion on the path before it.",
      ["inputs"],
      "all symlink forests and all spellings of paths in them, including cycles, self references, dot-dot elements in links, long chains and deep paths",
      "Tests cover a handful of symlinks; the resolver is a loop over arbitrary strings with restarts.",
      ["util.go"],
      [("iterative resolution", "util.go: canonical"), ("recursion suffix", "util.go: cleanpath")],
      ["kernel watch list (inode of the watched object)", "path of a probe event", "oracle: EvalSymlinks and stat(2)"]),
    P("C09", "A Watch call that fails changes nothing",
      "When Watch returns an error, the channel receives nothing because of that call and every registration, event set and kernel watch that existed before "
      "is as it was, for every reason of failure and every point of failure inside a recursive call; a later Watch or Stop works as if the failed call had "
      "not been made. When Watch returns nil, everything it asked for is being watched. A call with no events succeeds and changes nothing.",
      ["fault_sequences", "inputs", "histories"],
      "missing paths, non-directories given recursively, unknown event bits, exhausted descriptors or watches, unreadable directories, with any registrations before and after",
      "Failures of the kernel interface are not produced by the tests at all.",
      [T, I, WP],
      [("roll back of the event set", T + ": watch, watchrec"), ("lazy initialisation cleans up after itself", I + ": lazyinit, epollclose")],
      ["injected faults: failing watcher, RLIMIT_NOFILE", "kernel watch list", "user channels", "/proc/self/fd"]),
    P("C10", "Concurrent use is free of races, crashes and deadlocks",
      "Watch and Stop may be called from any number of goroutines, on the same or different channels and paths, while the file system changes beneath "
      "them in any way: there are no data races, no panics and no deadlocks, and when everything has been stopped the library is at rest with nothing left watched.",
      ["schedules"],
      "all interleavings of concurrent API calls, event production and dispatch",
      "The tests call the API from one goroutine and are not run under the race detector.",
      [T, I, WP, "node.go"],
      [("one lock over the tree", T), ("lock over the descriptor map", I)],
      ["Go race detector", "runtime crash reports", "goroutine stacks", "kernel watch list at the end"]),
    P("C11", "Bursts are delivered in full and overflow does not break delivery",
      "Any burst of changes that fits the kernel queue is delivered completely to channels with enough room, however large it is compared to the library's "
      "own buffers and however slowly it is scheduled. When the kernel queue overflows, only changes lost by the kernel are missing: the library survives, reports "
      "nothing false, and delivers every later change.",
      ["schedules", "histories"],
      "bursts of any size, mix and shape (many files, deep trees, long names that fill the read buffer to the brim), with the process stalled at any point",
      "Tests generate single events; buffer boundaries and queue overflow never happen in them.",
      [I, T],
      [("read buffer walk", I + ": read"), ("overflow marker is skipped", I + ": transform"), ("goroutine per event", T + ": dispatch")],
      ["user channels", "independent inotify instance", "process stopped with SIGSTOP while another process makes changes"]),
    P("C12", "System data identifies the kernel event behind each value",
      "On Linux the system data of every delivered value is the value's own copy of the inotify event it stands for, which never changes: its mask contains the kernel event that the "
      "value's event describes, on the very path reported, and its cookie is the kernel's, so that the two halves of a rename delivered to a channel carry the "
      "same non-zero cookie and no two renames share one. A platform independent event and the inotify event behind it are delivered separately, each iff requested.",
      ["inputs", "histories"],
      "all event kinds and event set mixes, with many renames in flight at the same time",
      "One test pairs one rename.",
      [I, "event_inotify.go"],
      [("event split into independent and inotify value", I + ": decode, transform"), ("buffer is copied before reuse", I + ": read")],
      ["user channels against masks and cookies seen by an independent inotify instance"]),
    P("C13", "The tree honours the contract of native watchers without recursion",
      "Towards a watcher that is not recursive natively, the calls made always name absolute clean paths, never pass an empty or internal event set, announce the "
      "event set really in force as the old one when changing it, and never unwatch what is not watched; after every Watch and Stop each path that "
      "needs to be watched is watched for at least what is needed, and paths nobody needs are not watched.",
      ["histories"],
      "all histories of Watch/Stop by several channels over a directory tree, with directories created and removed in between",
      "Table tests compare recorded calls for a few hand-made sequences.",
      [T, WP, "watcher.go"],
      [("event set differences", WP + ": Add, Del"), ("expansion to directories", T + ": watchrec, recFunc")],
      ["every call made to a stand-in watcher"]),
    P("C14", "The tree honours the contract of natively recursive watchers",
      "With a natively recursive watcher (FSEvents, ReadDirectoryChangesW), after every Watch and Stop each registration in force is covered: its path is watched with at least "
      "its event set by a watch on the path, recursive where it needs to be, or by a recursive watch above it. The calls made never pass empty event sets, "
      "name the watches really in force when changing or relocating them, and never unwatch a path that is not watched; when all channels are stopped no watch is left.",
      ["histories"],
      "all histories of Watch/Stop by several channels on nested and disjoint paths, recursive and not",
      "Table tests compare recorded calls for a few hand-made sequences, and on Linux nothing else runs this code.",
      ["tree_recursive.go", WP, "watcher.go"],
      [("parent takes over its children's watches", "tree_recursive.go: Watch"), ("inactive watchpoints remember what children need", "tree_recursive.go: watchAddInactive, watchCopy"),
       ("shrinking on Stop", "tree_recursive.go: Stop, watchDel")],
      ["every call made to a stand-in recursive watcher"]),
    P("C15", "Dispatch over natively recursive watchers reaches exactly the right channels",
      "With a natively recursive watcher, an event reported on a path is delivered to a channel if and only if the channel has registered for that event on the "
      "path, on its directory, or recursively on any directory above, and once per such registered path, whatever larger area is watched on behalf of "
      "others; after Stop the channel gets nothing.",
      ["histories", "inputs"],
      "all registration histories and all events on paths in, next to and above registered ones",
      "On Linux the tests dispatch a few events through hand-made trees.",
      ["tree_recursive.go", WP, "node.go"],
      [("walk along the path", "tree_recursive.go: dispatch"), ("per-channel matching", WP + ": Dispatch")],
      ["user channels of a tree fed with synthetic events"]),
    P("C16", "Closing a watcher releases everything and silences it",
      "Closing a watcher releases every descriptor and goroutine it acquired and returns, at any moment (idle, with events pending, right after any call) as long "
      "as what it sends is received; no event is sent after that. Closing one that was never used does nothing, and failed initialisation leaves no descriptor behind "
      "and closes none that is not the library's own.",
      ["schedules", "fault_sequences"],
      "all moments of closing with respect to pending events and earlier calls, and a failure of each system call of the initialisation",
      "Tests close idle watchers and do not look at descriptors.",
      [I],
      [("pipe wakes up the poller, which closes descriptors", I + ": Close, loop"), ("wait group for consumers", I + ": send")],
      ["/proc/self/fd", "goroutine stacks", "event channel", "RLIMIT_NOFILE faults"]),
    P("C17", "Watchers that emulate directories report what happens in them",
      "On systems whose kernel only says that a directory changed (the BSDs and, through the same code, Solaris), a watched directory reports the creation of each new entry exactly once and the "
      "removal, change and renaming of its entries for exactly the events asked for, and nothing once it is unwatched; watching a directory and "
      "entries of it separately, in any order, makes neither lose events or report those of the other. Watch, Rewatch and Unwatch report every failure and leave what was watched before alone, and "
      "no descriptor is left when things watched are gone, are unwatched, or the watcher is closed.",
      ["histories", "fault_sequences"],
      "all sequences of Watch, Rewatch and Unwatch (or Watch and Stop) on directories and files, with entries created, removed, replaced, changed and renamed in any number before the notes about it are read",
      "The code is not even compiled on this platform; upstream tests need a real kqueue and wait for one event at a time.",
      ["watcher_trigger.go", "watcher_kqueue.go"],
      [("direct and indirect event sets per path", "watcher_trigger.go: singlewatch, singleunwatch"), ("directory scan on write", "watcher_trigger.go: dir"),
       ("knotes and descriptors", "watcher_kqueue.go: Watch, Unwatch, Del")],
      ["values sent by the watcher over an emulated kqueue", "descriptors and knotes the emulated kernel holds", "user channels of a tree over it"]),
    P("C18", "Event values print as the events they contain",
      "The printed form of any event set names exactly the events it contains, each once, and the printed form of a delivered value shows its event and its path in quotes; "
      "platform independent events are distinct single bits that differ from all platform specific and internal ones.",
      ["inputs"],
      "all event sets",
      "Tests print a few values.",
      ["event.go", "event_inotify.go"],
      [("name tables", "event.go: estr; event_inotify.go: osestr")],
      ["printed strings of all combinations"]),
    P("C19", "FSEvents streams report exactly what was asked for",
      "On macOS a watch reports each flag the system raises for a path in its scope, and which it was asked for, as one value with the system's own event as its data, in the system's order; nothing that happened before the "
      "watch began, nothing out of scope, and no creation or removal the system merely repeats from an earlier event of the path. Changing, relocating and removing watches takes effect as a whole or, when the "
      "system refuses, not at all; a stream runs for exactly the watches in force, and all of it is released when they end.",
      ["histories", "fault_sequences"],
      "all sequences of Watch, Rewatch, Unwatch and relocation, or of Watch and Stop over a tree, with streams failing at any point, and any sequence of system events, with and without history, retained flags and lost events",
      "The code is not even compiled on this platform; upstream's own tests look at one function and one file.",
      ["watcher_fsevents.go", "watcher_fsevents_cgo.go", "tree_recursive.go"],
      [("filtering by scope, event set and retained flags", "watcher_fsevents.go: Dispatch, strip"), ("streams and their callbacks", "watcher_fsevents_cgo.go: Start, Stop, gostream"),
       ("relocation", "watcher_fsevents.go: RecursiveRewatch")],
      ["values sent by the watcher over an emulated FSEvents", "streams the emulated system holds", "user channels of a tree over it"]),
    P("C20", "Windows watches report what was asked for",
      "On Windows a watched directory reports each creation, removal, change and renaming of what is in it, and of everything below when the watch is recursive, for exactly the events asked for: the generic event once, and the file action when a "
      "file-notify filter that covers the change was asked for, with the right path and the right kind. Nothing out of scope is reported, and nothing after Unwatch or Close. Changing event sets, making watches recursive and back, and relocating them takes "
      "effect whole or, when the system refuses, not at all, also when calls follow each other faster than the watcher notices; lost records do not end later reporting; the handles held are exactly those needed, and none after Unwatch or Close.",
      ["histories", "fault_sequences", "schedules"],
      "all sequences of Watch, Rewatch, Unwatch, recursive variants and relocation, or of Watch and Stop over a tree, with calls failing, requests completing late or overflowing, and any sequence of changes",
      "The code is not even compiled on this platform; upstream's own tests for it wait for a handful of events.",
      ["watcher_readdcw.go", "watchpoint_readdcw.go", "event_readdcw.go", "tree_recursive.go"],
      [("change of handles on Rewatch and Unwatch", "watcher_readdcw.go: loopstate, recreate, updateGrip"), ("decoding of records", "watcher_readdcw.go: loopevent, send, gensys, decode"),
       ("filters", "watcher_readdcw.go: encode; event_readdcw.go"), ("one value per event asked for", "watchpoint_readdcw.go: eventmask, matches")],
      ["values sent by the watcher over an emulated ReadDirectoryChangesW", "handles and requests the emulated system holds", "user channels of a tree over it"]),
]
