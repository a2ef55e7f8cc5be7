"""What decides each property: harness stages, limits, and how to read them."""
import os, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def stage(name, kind, harness, quick=60, thorough=600, shards=8, **kw):
    return dict(name=name, kind=kind, harness=harness, limit=dict(quick=quick, thorough=thorough), shards=shards, **kw)


LINUX = "Linux inotify backend on the running kernel; scratch trees on tmpfs; one process."
QUIET = ("Quiescence is read off goroutine stacks and the kernel queue length, not off timeouts; events are compared per settled step.")

WORLD_RULE = ("Random worlds: a scratch tree and 3-6 channels, driven by a seeded random sequence of Watch/Stop calls (random event sets, "
              "recursive or not, directories and files, paths spelled in many ways) and file system operations; after every step the library is "
              "brought to rest and what each channel got is compared with what an independent inotify witness saw. A case is non-trivial when at "
              "least one event had to be delivered; distinct by the set of (event, how registrations relate to the path) shapes it checked.")

NOTE_WORLD = ("Holds on every execution observed; the witness is the same kernel facility, so kernel bugs are out of reach. "
              "Histories are sampled, biased to overlapping paths and reused names.")

NOT_APPLICABLE = {}

CHECKS = {
    "C01": dict(level="exploration", rule=WORLD_RULE, assumptions=[LINUX, QUIET],
                technique="runtime monitor: offline checker of delivered events against an independent inotify witness", note=NOTE_WORLD,
                stages=[stage("worlds", "bb", "completeness"), stage("replaced", "bb", "replaced", quick=20), stage("links", "bb", "known-links", shards=1), stage("replaced-root", "bb", "known-replaced-root", shards=1), stage("late-self", "bb", "known-late-self", shards=1), stage("root", "pkg", "known-root", shards=1)]),
    "C02": dict(level="exploration", rule=WORLD_RULE, assumptions=[LINUX, QUIET],
                technique="runtime monitor: offline checker of delivered events against an independent inotify witness", note=NOTE_WORLD,
                stages=[stage("worlds", "bb", "soundness"), stage("moved-out", "bb", "known-moved-out", shards=1)]),
    "C05": dict(level="exploration", rule=WORLD_RULE, assumptions=[LINUX, QUIET],
                technique="runtime monitor: delivered events and kernel watch list against an independent inotify witness", note=NOTE_WORLD,
                stages=[stage("worlds", "bb", "recursive"), stage("churn", "bb", "churn", quick=15), stage("big", "bb", "big", quick=15)]),
    "C06": dict(level="exploration", rule=WORLD_RULE, assumptions=[LINUX, QUIET],
                technique="runtime monitor: kernel watch list (fdinfo) compared with the registrations in force", note=NOTE_WORLD,
                stages=[stage("worlds", "bb", "kernel"), stage("churn", "bb", "churn-kernel", quick=25), stage("moved-out", "bb", "known-moved-out-watch", shards=1), stage("stale", "bb", "known-stale", shards=1)]),
    "C03": dict(level="exploration", assumptions=[LINUX],
                rule="Directories and files under constant change by several goroutines; several controllers register never-read channels and stop them in full flow. "
                     "The length of each channel when Stop returns must never change again; some are closed, some are registered again. (stopfault) The tree over a stand-in watcher whose calls fail during Stop: events sent afterwards reach none of the stopped channels and the others in full. Non-trivial: some "
                     "channel had got events before it was stopped; distinct by case.",
                technique="runtime monitor: channel length from Stop on, close-after-Stop crash monitor, under churn and concurrent API calls; race detector in the second stage",
                note="Schedules are sampled by churn, also under the race detector's scheduling.",
                stages=[stage("churn", "bb", "stop"), stage("churn-race", "bb-race", "stop-race"), stage("stopfault", "pkg", "stopfault")]),
    "C04": dict(level="exploration", assumptions=[LINUX, "The kernel loses events itself while an inotify mask is being changed (see DESIGN.md); changes "
                                                  "and mask changes exclude each other in three quarters of the cases, else only losses on a larger scale count."],
                rule="(isolation) observers keep registrations on a tree while other goroutines watch and stop channels on the same paths and scribes make changes "
                     "under names never used before: each observer gets exactly what it asked for. (solo) a random world in which a channel got too much or too "
                     "little is replayed with the calls of that channel only. Non-trivial: events had to be delivered while others made calls; distinct by registrations.",
                technique="runtime monitor: per-observer conservation check against a list of changes; differential re-execution without the other channels", note=NOTE_WORLD,
                stages=[stage("isolation", "bb", "isolation"), stage("solo", "bb", "solo")]),
    "C07": dict(level="exploration", assumptions=[LINUX, QUIET],
                rule="Channels of capacity 0 to 500 that nobody reads, each with a twin of ample capacity that has the same registrations: after each burst the twin got "
                     "everything and the small one got min(room, all). Jam: full channels only, unending changes, API calls must return and a new channel must "
                     "work. Non-trivial: a channel was full; distinct by registrations and bursts.",
                technique="runtime monitor: conservation check of full channels against twins, deadlock monitor on goroutine stacks", note=NOTE_WORLD,
                stages=[stage("slow", "bb", "slow")]),
    "C08": dict(level="exploration", assumptions=[LINUX, "filepath.EvalSymlinks of the lexically cleaned absolute path is the oracle; chains of more than 100 links are left out."],
                rule="Random forests of directories, files and symlinks (chains, cycles, dangling, dot-dot behind links, deep paths, odd names); random spellings, "
                     "relative to random working directories. The inodes watched in the kernel and the path of a probe event are compared with the oracle. "
                     "Non-trivial: the argument differs from the real path or is an error; distinct by forest and argument.",
                technique="runtime monitor: kernel watch list and probe events against an independent resolver", note="Paths are sampled.",
                stages=[stage("paths", "bb", "paths")]),
    "C09": dict(level="exploration", assumptions=[LINUX, QUIET, "Faults: missing and unreadable paths, descriptor limit, failing first calls; in the stand-in stages any call of the watcher fails."],
                rule="(failures) random worlds in which some Watch calls must fail; what every channel gets, what the kernel watches and what happens when the same history is run "
                     "without the failed calls are compared. (fault, recfault) the tree over a stand-in watcher that fails at random calls: event sets, watchpoints and watches "
                     "after the failed call are the ones before it. Non-trivial: a call failed while registrations were in force; distinct by shape of the call and the tree.",
                technique="runtime monitor under fault injection: state before and after a failed call, differential re-execution without it", note=NOTE_WORLD,
                stages=[stage("failures", "bb", "failures"), stage("fault", "pkg", "fault"), stage("recfault", "pkg", "recfault")]),
    "C10": dict(level="exploration", assumptions=[LINUX, "The Go race detector reports races between accesses it has seen."],
                rule="Goroutines call Watch and Stop on shared and own channels, read values and tear the watched tree down and up at random, under the race detector; "
                     "crashes, races, blocked goroutines and kernel watches left after the last Stop are violations. Non-trivial: calls, changes and values happened; distinct by case.",
                technique="Go race detector, crash and deadlock monitors over a concurrent stress workload", note="Schedules are sampled.",
                stages=[stage("race", "bb-race", "race"), stage("stress", "bb", "race")]),
    "C11": dict(level="exploration", assumptions=[LINUX, QUIET],
                rule="(burst) hundreds to thousands of changes with names of up to 255 bytes, by several goroutines, also with all processors kept busy; (frozen) the "
                     "process is stopped by SIGSTOP while another one creates files up to and beyond the length of the kernel queue. Non-trivial: more events than "
                     "the library's channel holds had to be delivered; distinct by registrations and burst.",
                technique="runtime monitor: conservation check of bursts under stalls and injected queue overflow", note=NOTE_WORLD,
                stages=[stage("burst", "bb", "burst"), stage("frozen", "bb", "frozen")]),
    "C12": dict(level="exploration", assumptions=[LINUX, QUIET],
                rule="Random worlds with many renames, and rename storms by several goroutines: mask, path and cookie of every value are compared with what an independent "
                     "inotify instance saw, halves of renames are paired, and all values are looked at again at the end. Non-trivial: rename halves were paired; distinct by shapes.",
                technique="runtime monitor: system data of delivered values against an independent inotify witness", note=NOTE_WORLD,
                stages=[stage("worlds", "bb", "sys"), stage("renames", "bb", "renames")]),
    "C13": dict(level="exploration", assumptions=["The watcher below the tree is a stand-in that keeps what is watched; the tree and the file system are real."],
                rule="Random histories of Watch, Stop, and of directories made and removed, over the real tree with a stand-in watcher that checks each call it gets against "
                     "what it has in force; after every step what is watched is compared with what the registrations need. Non-trivial: calls were made; distinct by call history.",
                technique="runtime monitor: online checker of the call protocol, state compared with a reference model after each step", note="Histories are sampled.",
                stages=[stage("nonrec", "pkg", "nonrec")]),
    "C14": dict(level="exploration", assumptions=["The watcher below the tree is a stand-in that keeps what is watched; FSEvents and ReadDirectoryChangesW themselves are not run."],
                rule="Random histories of Watch and Stop, with and without failing calls, over the recursive tree with a stand-in natively recursive watcher that checks each "
                     "call against what it has in force; after every step each registration has to be covered. Non-trivial: watches were in force; distinct by call history.",
                technique="runtime monitor: online checker of the call protocol, state compared with a reference model after each step", note="Histories are sampled.",
                stages=[stage("rectree", "pkg", "rectree")]),
    "C15": dict(level="exploration", assumptions=["Events are synthetic, as FSEvents and ReadDirectoryChangesW would report them."],
                rule="Random registrations over the recursive tree, then synthetic events on paths in, beside and above the registered ones; each channel gets exactly what the reference "
                     "model says. (recrace) Goroutines call Watch and Stop for channels of their own while events arrive, under the race detector: nothing comes after Stop, and a "
                     "channel nobody touches gets everything once. Non-trivial: some channel had to get the event; distinct by how registrations relate to the path.",
                technique="runtime monitor: deliveries compared with a reference model of registrations; race detector and conservation over concurrent calls", note="Histories are sampled.",
                stages=[stage("recdispatch", "pkg", "recdispatch"), stage("recrace", "pkg-race", "recrace")]),
    "C16": dict(level="exploration", assumptions=[LINUX, "The event channel is read or has room, and watcher calls come one after another, as the library itself does."],
                rule="Watchers are used and closed at random moments: idle, with events pending, in the middle of bursts, several at once, twice, unused; descriptors and goroutines before and "
                     "after are compared and the event channel observed. Initialisation fails at every system call by a descriptor limit. Non-trivial: the watcher had been used or failed; distinct by case.",
                technique="runtime monitor: descriptor and goroutine conservation, silence of the event channel, under fault injection", note="Schedules are sampled.",
                stages=[stage("close", "pkg", "close")]),
    "C17": dict(level="exploration", assumptions=["The library's files for FreeBSD are built here over a stand-in for kqueue(2) that keeps knotes per open object and reports what the harness does to a real directory tree "
                "the way kqueue does; the system's own kqueue, and the Solaris half (watcher_fen.go), are not run.", "What is reported is judged for calls made at rest, with changes read in batches or one by one; calls that race with changes are judged by the race detector, by their ending, and by what is held afterwards."],
                rule="(trigger) random histories of Watch, Rewatch, Unwatch and file changes on the watcher alone, one by one and in batches, then Close; directories of files, FIFOs and, at times, over a hundred entries; injected failures of each system call of the initialisation and of Watch and Rewatch, which must report them and leave everything as it was. "
                     "(trigtree) random histories of Watch, Stop and file changes on a tree over that watcher. What is reported is compared with a model of what was asked, and the knotes and descriptors the emulated "
                     "kernel holds with what is needed, after every step. (trgrace) calls from several goroutines while the tree changes and Close comes, under the race detector. Non-trivial: events had to be reported; distinct by (change, how the path is watched) shapes.",
                technique="runtime monitor: trace of reported events and kernel state over an emulated kqueue against a reference model; race detector", note="Histories are sampled; fidelity of the emulated kqueue is an assumption.",
                stages=[stage("trigger", "emu-kq", "trigger", quick=40), stage("trigtree", "emu-kq", "trigtree", quick=40), stage("trgrace", "emu-kq-race", "trgrace", quick=40), stage("together", "emu-kq", "known-together", shards=1), stage("unopenable", "emu-kq", "known-unopenable", shards=1)]),
    "C19": dict(level="exploration", assumptions=["The library's files for macOS, with their C parts, are built here over a stand-in for the FSEvents API that keeps streams and event ids and makes the callbacks; "
                "what the system reports, and when it repeats flags, is up to the harness, after the library's own documentation. The system's own FSEvents is not run.", "Callbacks come one after another, as on a serial queue."],
                rule="(stream) random histories of calls of the watcher, some failing in the system, and of system events; (streamtree) random histories of Watch, Stop and events on a tree over that watcher; (fserace) calls racing with callbacks under the race detector. What is reported is compared with a "
                     "model of what was asked, and the streams with the watches in force. Non-trivial: events had to be reported; distinct by (event, kind of watch) shapes.",
                technique="runtime monitor: trace of reported events and streams held over an emulated FSEvents against a reference model; race detector", note="Histories are sampled; fidelity of the emulated FSEvents is an assumption.",
                stages=[stage("stream", "emu-fse", "stream", quick=60), stage("streamtree", "emu-fse", "streamtree", quick=60), stage("fserace", "emu-fse-race", "fserace", quick=40), stage("rename", "emu-fse", "known-rename", shards=1)]),
    "C20": dict(level="exploration", assumptions=["The library's files for Windows are built here over a stand-in for the Windows API that keeps handles, overlapped requests and a completion port; the system's own ReadDirectoryChangesW is not run. "
                "A renaming within a directory gives the two records the documentation names, a move between directories a removal and a creation, and a change in a directory marks it modified.", "What is reported is judged for changes made while no request is being replaced, and afterwards; calls that race are judged by the race detector, by their results, and by what is reported and held when all is quiet."],
                rule="(rdcw) random histories of calls of the watcher, singly and in rows with completions held back, some failing in the system, of file changes, bursts and overflows; (rdtree) random histories of Watch, Stop and changes on a tree over that watcher; (rdrace) calls racing with changes and completions under the race detector. "
                     "What is reported is compared with a model of what was asked, and the handles and requests held with the watches in force. Non-trivial: events had to be reported; distinct by (change, kind of watch, events asked) shapes.",
                technique="runtime monitor: trace of reported events and of handles and requests held over an emulated ReadDirectoryChangesW against a reference model; race detector", note="Histories are sampled; fidelity of the emulated Windows API is an assumption.",
                stages=[stage("rdcw", "emu-win", "rdcw", quick=50), stage("rdtree", "emu-win", "rdtree", quick=50), stage("rdrace", "emu-win-race", "rdrace", quick=40)]),
    "C18": dict(level="exploration", assumptions=["Linux event tables."],
                rule="All single events, all pairs, and random sets of events are printed and parsed back, values too. Non-trivial: the set is not empty; distinct by set.",
                technique="runtime monitor: printed forms parsed back and compared", note="Single bits and pairs exhaustively, larger sets by sampling.",
                stages=[stage("strings", "pkg", "strings")]),
}


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", ln.strip())
            if m and m.group(1) == prop:
                out.append(dict(id=m.group(2), what=m.group(3)))
    return out
