From 40a4a90caf616954312736b9601a9eb6c292fa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 01/38] fix: Stop no longer leaves recursive watches nobody
 asked for

After Stop(c) a directory kept the event set c had requested on it with a
recursive watchpoint as long as any other channel was registered there, since
only the part of the set that left the total was removed from the t.rec key.
Recompute the key from what the remaining recursive watchpoints require.
---
 tree_nonrecursive.go | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index 6e23340..f414d25 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -130,28 +130,26 @@ func (t *nonrecursiveTree) watchAdd(nd node, c chan<- EventInfo, e Event) eventD
 
 // watchDelMin TODO(rjeczalik)
 func (t *nonrecursiveTree) watchDelMin(min Event, nd node, c chan<- EventInfo, e Event) eventDiff {
+	total := nd.Watch.Total()
 	old, ok := nd.Watch[t.rec]
+	delete(nd.Watch, t.rec)
+	nd.Watch.Del(c, e)
 	if ok {
-		nd.Watch[t.rec] = min
-	}
-	diff := nd.Watch.Del(c, e)
-	if ok {
-		switch old &^= diff[0] &^ diff[1]; {
-		case old|internal == internal:
-			delete(nd.Watch, t.rec)
-			if set, ok := nd.Watch[nil]; ok && len(nd.Watch) == 1 && set == 0 {
-				delete(nd.Watch, nil)
-			}
-		default:
-			nd.Watch.Add(t.rec, old|Create)
-			switch {
-			case diff == none:
-			case diff[1]|Create == diff[0]:
-				diff = none
-			default:
-				diff[1] |= Create
+		// Keep only what is still required by the recursive watchpoints that
+		// are left, either on this node or on one of the nodes above it.
+		set := min
+		for ch, e := range nd.Watch {
+			if ch != nil && e&recursive != 0 {
+				set |= e
 			}
 		}
+		if set &= old; set&^internal != 0 {
+			nd.Watch.Add(t.rec, set|Create|omit)
+		}
+	}
+	diff := eventDiff{total, nd.Watch.Total()}
+	if diff[0] == diff[1] {
+		return none
 	}
 	return diff
 }
-- 
2.43.0


From 4e4d9d0f1ea0ccf4bbd9d484777fea73da315f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 02/38] fix: extending a recursive watchpoint lists directories
 again

The tree may hold nodes of files and of paths that are gone (leftovers of
stopped watchpoints); walking it gave every one of them a watch of its own,
thus events on files were reported twice.
---
 tree_nonrecursive.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index f414d25..1ed5117 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -219,7 +219,6 @@ func (t *nonrecursiveTree) recFunc(e Event) walkFunc {
 }
 
 func (t *nonrecursiveTree) watchrec(nd node, c chan<- EventInfo, e Event) error {
-	var traverse func(walkFunc) error
 	// Non-recursive tree listens on Create event for every recursive
 	// watchpoint in order to automagically set a watch for every
 	// created directory.
@@ -231,16 +230,16 @@ func (t *nonrecursiveTree) watchrec(nd node, c chan<- EventInfo, e Event) error
 	case diff[1] == 0:
 		// TODO(rjeczalik): cleanup this panic after implementation is stable
 		panic("eset is empty: " + nd.Name)
-	case diff[0] == 0:
-		// TODO(rjeczalik): BFS into directories and skip subtree as soon as first
-		// recursive watchpoint is encountered.
-		traverse = nd.AddDir
-	default:
-		traverse = nd.Walk
 	}
+	// TODO(rjeczalik): BFS into directories and skip subtree as soon as first
+	// recursive watchpoint is encountered.
+	//
+	// The tree may hold nodes which describe files or directories that are
+	// already gone, so list the directories even if nd is already watched.
+	//
 	// TODO(rjeczalik): account every path that failed to be (re)watched
 	// and retry.
-	if err := traverse(t.recFunc(e)); err != nil {
+	if err := nd.AddDir(t.recFunc(e)); err != nil {
 		return err
 	}
 	t.watchAdd(nd, c, e)
-- 
2.43.0


From 90c917c6a178416ebb0e4611d701ddb6b3e59ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:30 +0000
Subject: [PATCH 03/38] fix: Unwatch removes the live watch of a path that was
 recreated

The map keeps entries of removed objects; Unwatch used to pick any entry with
a given path, thus it could leave the watch of the living object in the kernel.
---
 watcher_inotify.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/watcher_inotify.go b/watcher_inotify.go
index 02b4328..eb9fb61 100644
--- a/watcher_inotify.go
+++ b/watcher_inotify.go
@@ -340,26 +340,30 @@ func decode(mask Event, e *event) (syse *event) {
 // This method is allowed to return EINVAL error when concurrently requested to
 // delete identical path.
 func (i *inotify) Unwatch(path string) (err error) {
-	iwd := int32(invalidDescriptor)
+	// A path removed and created again has an entry for every object that has
+	// been watched under that name, so look for all of them.
+	var iwds []int32
 	i.RLock()
-	for iwdkey, wd := range i.m {
+	for iwd, wd := range i.m {
 		if wd.path == path {
-			iwd = iwdkey
-			break
+			iwds = append(iwds, iwd)
 		}
 	}
 	i.RUnlock()
-	if iwd == invalidDescriptor {
+	if len(iwds) == 0 {
 		return errors.New("notify: path " + path + " is already watched")
 	}
 	fd := atomic.LoadInt32(&i.fd)
-	if err = removeInotifyWatch(fd, iwd); err != nil {
-		return
+	for _, iwd := range iwds {
+		if e := removeInotifyWatch(fd, iwd); e != nil {
+			err = e
+			continue
+		}
+		i.Lock()
+		delete(i.m, iwd)
+		i.Unlock()
 	}
-	i.Lock()
-	delete(i.m, iwd)
-	i.Unlock()
-	return nil
+	return err
 }
 
 // Close implements notify.watcher interface. It removes all existing watch
-- 
2.43.0


From 45007b63756610c3083234f4b670a15e5b78b88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:04 +0000
Subject: [PATCH 04/38] fix: a recreated directory is watched again by
 recursive watchpoints

When a directory was moved away, or removed while Remove was not requested,
its node kept the recursive watchpoint, so a directory later created with the
same name was considered to be watched already and its events were lost.
---
 tree_nonrecursive.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index 1ed5117..43c321c 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -110,7 +110,16 @@ func (t *nonrecursiveTree) internal(rec <-chan EventInfo) {
 		if ei.Path() != nd.Name {
 			nd = nd.Add(ei.Path())
 		}
-		err := nd.AddDir(t.recFunc(eset))
+		// A watchpoint that is already there may have been set for a directory
+		// which used to have the same name, so set it once again.
+		recfn := t.recFunc(eset)
+		err := nd.AddDir(func(nd node) error {
+			if nd.Watch.dryAdd(t.rec, eset|Create) == none {
+				t.w.Watch(nd.Name, nd.Watch.Total())
+				return nil
+			}
+			return recfn(nd)
+		})
 		t.rw.Unlock()
 		if err != nil {
 			dbgprintf("internal(%p) error: %v", rec, err)
-- 
2.43.0


From fb323fbf48811b090a3bb996326b8e2ba3414c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 05/38] fix: Watch reports watcher errors and leaves nothing
 behind on failure

A failed Watch removed only the part of the event set that was new to the
path, so c kept events some other channel had requested before. A recursive
one ignored watcher errors and kept watches of directories visited so far.
---
 tree_nonrecursive.go | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index 43c321c..e214ed6 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -118,7 +118,8 @@ func (t *nonrecursiveTree) internal(rec <-chan EventInfo) {
 				t.w.Watch(nd.Name, nd.Watch.Total())
 				return nil
 			}
-			return recfn(nd)
+			recfn(nd)
+			return nil
 		})
 		t.rw.Unlock()
 		if err != nil {
@@ -192,6 +193,7 @@ func (t *nonrecursiveTree) Watch(path string, c chan<- EventInfo, events ...Even
 }
 
 func (t *nonrecursiveTree) watch(nd node, c chan<- EventInfo, e Event) (err error) {
+	old := nd.Watch[c]
 	diff := nd.Watch.Add(c, e)
 	switch {
 	case diff == none:
@@ -205,25 +207,29 @@ func (t *nonrecursiveTree) watch(nd node, c chan<- EventInfo, e Event) (err erro
 		err = t.w.Rewatch(nd.Name, diff[0], diff[1])
 	}
 	if err != nil {
-		nd.Watch.Del(c, diff.Event())
+		nd.Watch.Del(c, e&^old)
 		return err
 	}
 	return nil
 }
 
 func (t *nonrecursiveTree) recFunc(e Event) walkFunc {
-	return func(nd node) error {
+	return func(nd node) (err error) {
+		old := nd.Watch[t.rec]
 		switch diff := nd.Watch.Add(t.rec, e|omit|Create); {
 		case diff == none:
 		case diff[1] == 0:
 			// TODO(rjeczalik): cleanup this panic after implementation is stable
 			panic("eset is empty: " + nd.Name)
 		case diff[0] == 0:
-			t.w.Watch(nd.Name, diff[1])
+			err = t.w.Watch(nd.Name, diff[1])
 		default:
-			t.w.Rewatch(nd.Name, diff[0], diff[1])
+			err = t.w.Rewatch(nd.Name, diff[0], diff[1])
 		}
-		return nil
+		if err != nil {
+			nd.Watch.Del(t.rec, (e|omit|Create)&^old)
+		}
+		return err
 	}
 }
 
@@ -249,6 +255,8 @@ func (t *nonrecursiveTree) watchrec(nd node, c chan<- EventInfo, e Event) error
 	// TODO(rjeczalik): account every path that failed to be (re)watched
 	// and retry.
 	if err := nd.AddDir(t.recFunc(e)); err != nil {
+		// Shrink watches of the nodes that were visited so far.
+		t.stop(c, 0)
 		return err
 	}
 	t.watchAdd(nd, c, e)
@@ -286,12 +294,13 @@ Traverse:
 	return nil
 }
 
-// Stop TODO(rjeczalik)
-func (t *nonrecursiveTree) Stop(c chan<- EventInfo) {
+// stop removes event set e from all watchpoints registered for c and shrinks
+// every watch, which is wider than needed by the watchpoints left.
+func (t *nonrecursiveTree) stop(c chan<- EventInfo, e Event) error {
 	fn := func(min Event, nd node) error {
 		// TODO(rjeczalik): aggregate watcher errors and retry; in worst case
 		// forward to the user.
-		switch diff := t.watchDelMin(min, nd, c, all); {
+		switch diff := t.watchDelMin(min, nd, c, e); {
 		case diff == none:
 			return nil
 		case diff[1] == 0:
@@ -301,8 +310,13 @@ func (t *nonrecursiveTree) Stop(c chan<- EventInfo) {
 		}
 		return nil
 	}
+	return t.walkWatchpoint(t.root.nd, fn) // TODO(rjeczalik): store max root per c
+}
+
+// Stop TODO(rjeczalik)
+func (t *nonrecursiveTree) Stop(c chan<- EventInfo) {
 	t.rw.Lock()
-	err := t.walkWatchpoint(t.root.nd, fn) // TODO(rjeczalik): store max root per c
+	err := t.stop(c, all)
 	t.rw.Unlock()
 	dbgprintf("Stop(%p) error: %v\n", c, err)
 }
-- 
2.43.0


From 9abb27ae575e0d4c3eaf991b8905025bfbe403af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 06/38] fix: do not close file descriptor 0 when pipe(2) fails

---
 watcher_inotify.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/watcher_inotify.go b/watcher_inotify.go
index eb9fb61..1020d54 100644
--- a/watcher_inotify.go
+++ b/watcher_inotify.go
@@ -145,6 +145,8 @@ func (i *inotify) epollinit() (err error) {
 		return
 	}
 	if err = unix.Pipe(i.pipefd); err != nil {
+		// Pipe clears the slice, do not close the standard input.
+		i.pipefd[0], i.pipefd[1] = invalidDescriptor, invalidDescriptor
 		return
 	}
 	i.epes = []unix.EpollEvent{
-- 
2.43.0


From 7fb0b4a3283e143b23b687e9ed9dba0c54cecc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:53 +0000
Subject: [PATCH 07/38] fix: long paths are not circular symlinks

The limit meant for circular symlinks counted path elements, so watching a
deep directory failed, the sooner the more symlinks its path had.
---
 util.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/util.go b/util.go
index 7b50b0c..030ec40 100644
--- a/util.go
+++ b/util.go
@@ -63,16 +63,13 @@ func cleanpath(path string) (realpath string, isrec bool, err error) {
 
 // canonical resolves any symlink in the given path and returns it in a clean form.
 // It expects the path to be absolute. It fails to resolve circular symlinks by
-// maintaining a simple iteration limit.
+// limiting the number of symlinks it follows.
 func canonical(p string) (string, error) {
 	p, err := filepath.Abs(p)
 	if err != nil {
 		return "", err
 	}
-	for i, j, depth := 1, 0, 1; i < len(p); i, depth = i+1, depth+1 {
-		if depth > 128 {
-			return "", &os.PathError{Op: "canonical", Path: p, Err: errDepth}
-		}
+	for i, j, depth := 1, 0, 1; i < len(p); i++ {
 		if j = strings.IndexRune(p[i:], '/'); j == -1 {
 			j, i = i, len(p)
 		} else {
@@ -83,6 +80,9 @@ func canonical(p string) (string, error) {
 			return "", err
 		}
 		if fi.Mode()&os.ModeSymlink == os.ModeSymlink {
+			if depth++; depth > 128 {
+				return "", &os.PathError{Op: "canonical", Path: p, Err: errDepth}
+			}
 			s, err := os.Readlink(p[:i])
 			if err != nil {
 				return "", err
-- 
2.43.0


From 21fcd0f66054efe02e7ecdf8007ba271ba826950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:52 +0000
Subject: [PATCH 08/38] fix: do not lose events of a directory tree that is
 being removed

Two consumers could process batches of events out of order; Remove event of
a directory handled first made the watcher forget the directory and drop the
events read before, e.g. the ones on files removed by rm -r.
---
 watcher_inotify.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/watcher_inotify.go b/watcher_inotify.go
index 1020d54..69e9330 100644
--- a/watcher_inotify.go
+++ b/watcher_inotify.go
@@ -26,8 +26,10 @@ const eventBufferSize = 64 * (unix.SizeofInotifyEvent + unix.PathMax + 1)
 
 // consumersCount defines the number of consumers in producer-consumer based
 // implementation. Each consumer is run in a separate goroutine and has read
-// access to watched files map.
-const consumersCount = 2
+// access to watched files map. There is only one, since events must be processed
+// in order: when a directory is removed its watch is forgotten as soon as Remove
+// gets dispatched, while events that preceded it still need the watch.
+const consumersCount = 1
 
 const invalidDescriptor = -1
 
-- 
2.43.0


From bcab4e136831f497a337265df75a913af9c60a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:18 +0000
Subject: [PATCH 09/38] fix: a failed recursive Watch restores the event sets
 it has changed

A channel with both kinds of watchpoints on a path could keep part of the
event set of the failed call, so that repeating the call was a nop.
---
 tree_nonrecursive.go | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index e214ed6..f18701f 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -254,15 +254,40 @@ func (t *nonrecursiveTree) watchrec(nd node, c chan<- EventInfo, e Event) error
 	//
 	// TODO(rjeczalik): account every path that failed to be (re)watched
 	// and retry.
-	if err := nd.AddDir(t.recFunc(e)); err != nil {
+	var undo []func()
+	recfn := t.recFunc(e)
+	err := nd.AddDir(func(nd node) error {
+		old := nd.Watch[t.rec]
+		if err := recfn(nd); err != nil {
+			return err
+		}
+		if set := nd.Watch[t.rec] &^ old; set != 0 {
+			undo = append(undo, func() { t.unwatch(nd, t.rec, set) })
+		}
+		return nil
+	})
+	if err != nil {
 		// Shrink watches of the nodes that were visited so far.
-		t.stop(c, 0)
+		for _, fn := range undo {
+			fn()
+		}
 		return err
 	}
 	t.watchAdd(nd, c, e)
 	return nil
 }
 
+// unwatch removes event set e of c from the node and shrinks its watch.
+func (t *nonrecursiveTree) unwatch(nd node, c chan<- EventInfo, e Event) {
+	switch diff := nd.Watch.Del(c, e); {
+	case diff == none:
+	case diff[1] == 0:
+		t.w.Unwatch(nd.Name)
+	default:
+		t.w.Rewatch(nd.Name, diff[0], diff[1])
+	}
+}
+
 type walkWatchpointFunc func(Event, node) error
 
 func (t *nonrecursiveTree) walkWatchpoint(nd node, fn walkWatchpointFunc) error {
@@ -294,13 +319,12 @@ Traverse:
 	return nil
 }
 
-// stop removes event set e from all watchpoints registered for c and shrinks
-// every watch, which is wider than needed by the watchpoints left.
-func (t *nonrecursiveTree) stop(c chan<- EventInfo, e Event) error {
+// Stop TODO(rjeczalik)
+func (t *nonrecursiveTree) Stop(c chan<- EventInfo) {
 	fn := func(min Event, nd node) error {
 		// TODO(rjeczalik): aggregate watcher errors and retry; in worst case
 		// forward to the user.
-		switch diff := t.watchDelMin(min, nd, c, e); {
+		switch diff := t.watchDelMin(min, nd, c, all); {
 		case diff == none:
 			return nil
 		case diff[1] == 0:
@@ -310,13 +334,8 @@ func (t *nonrecursiveTree) stop(c chan<- EventInfo, e Event) error {
 		}
 		return nil
 	}
-	return t.walkWatchpoint(t.root.nd, fn) // TODO(rjeczalik): store max root per c
-}
-
-// Stop TODO(rjeczalik)
-func (t *nonrecursiveTree) Stop(c chan<- EventInfo) {
 	t.rw.Lock()
-	err := t.stop(c, all)
+	err := t.walkWatchpoint(t.root.nd, fn) // TODO(rjeczalik): store max root per c
 	t.rw.Unlock()
 	dbgprintf("Stop(%p) error: %v\n", c, err)
 }
-- 
2.43.0


From 39394c433769c22fb4ff3c2b0ca1dc60ea9e4060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:27 +0000
Subject: [PATCH 10/38] fix: Stop passes the event set really watched to
 recursive watchers

When c was removed from the inactive watchpoints of a node only, the old event
set did not account for the active ones, and the whole watch could be removed
although other channels needed it.
---
 tree_recursive.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/tree_recursive.go b/tree_recursive.go
index 7f00dfe..389cdf1 100644
--- a/tree_recursive.go
+++ b/tree_recursive.go
@@ -58,16 +58,13 @@ func watchCopy(src, dst node) {
 
 // watchDel TODO(rjeczalik)
 func watchDel(nd node, c chan<- EventInfo, e Event) eventDiff {
-	diff := nd.Watch.Del(c, e)
+	diff := eventDiff{watchTotal(nd)}
+	nd.Watch.Del(c, e)
 	if wp := nd.Child[""].Watch; len(wp) != 0 {
-		diffInactive := wp.Del(c, e)
-		e = wp.Total()
-		// TODO(rjeczalik): add e if e != all?
-		diff[0] |= diffInactive[0] | e
-		diff[1] |= diffInactive[1] | e
-		if diff[0] == diff[1] {
-			return none
-		}
+		wp.Del(c, e)
+	}
+	if diff[1] = watchTotal(nd); diff[0] == diff[1] {
+		return none
 	}
 	return diff
 }
-- 
2.43.0


From d17c589849b9d7da46fb0043ab29057af81cd644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:58 +0000
Subject: [PATCH 11/38] fix: new parent takes over watches without active
 watchpoints

A watch left with nothing but inactive watchpoints was not found by Watch on a
path above, which tried to take over the ones below it, and copying its
watchpoints to a new parent could write to a nil map.
---
 tree_recursive.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tree_recursive.go b/tree_recursive.go
index 389cdf1..57824d0 100644
--- a/tree_recursive.go
+++ b/tree_recursive.go
@@ -46,12 +46,11 @@ func watchCopy(src, dst node) {
 		watchAddInactive(dst, c, e)
 	}
 	if wpsrc := src.Child[""].Watch; len(wpsrc) != 0 {
-		wpdst := dst.Child[""].Watch
 		for c, e := range wpsrc {
 			if c == nil {
 				continue
 			}
-			wpdst.Add(c, e)
+			watchAddInactive(dst, c, e)
 		}
 	}
 }
@@ -223,7 +222,8 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 	// Look for children nodes, unwatch n-1 of them and rewatch the last one.
 	var children []node
 	fn := func(nd node) error {
-		if len(nd.Watch) == 0 {
+		// A node may hold nothing but inactive watchpoints.
+		if watchTotal(nd) == 0 {
 			return nil
 		}
 		children = append(children, nd)
-- 
2.43.0


From c5625255ee7b39845b5231817feec2a1db1b5f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:24 +0000
Subject: [PATCH 12/38] fix: a watch becomes recursive even if its event set
 stays the same

Watch with a recursive path, or one below a path watched already, was a nop
when the event set requested was in force on the path, although the watch was
not recursive and did not report anything from below.
---
 tree_recursive.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tree_recursive.go b/tree_recursive.go
index 57824d0..e8f272a 100644
--- a/tree_recursive.go
+++ b/tree_recursive.go
@@ -186,11 +186,17 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 		// information to shrink the eventset on eventual Stop.
 		// return t.resetwatchpoint(parent, parent, c, eventset|inactive)
 		var diff eventDiff
+		wasrec := watchIsRecursive(parent)
 		if self {
 			diff = watchAdd(cur, c, eventset)
 		} else {
 			diff = watchAddInactive(parent, c, eventset)
 		}
+		if diff == none && !wasrec && watchIsRecursive(parent) {
+			// Same event set, but the watch has to become a recursive one.
+			e := watchTotal(parent)
+			diff = eventDiff{e, e}
+		}
 		switch {
 		case diff == none:
 			// the parent watchpoint already covers requested subtree with its
-- 
2.43.0


From 2b92290341d985eb1349f91f8dddb89989a382f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:04 +0000
Subject: [PATCH 13/38] fix: a failed Watch leaves recursive watchpoints as
 they were

After a failing call of a recursive watcher the channel lost event sets it had
requested before, kept ones it had not, or the path kept a total event set which
made later calls refer to a watch that does not exist.
---
 tree_recursive.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/tree_recursive.go b/tree_recursive.go
index e8f272a..296b979 100644
--- a/tree_recursive.go
+++ b/tree_recursive.go
@@ -68,6 +68,14 @@ func watchDel(nd node, c chan<- EventInfo, e Event) eventDiff {
 	return diff
 }
 
+// watchClean removes all watchpoints of the node.
+func watchClean(nd node) {
+	delete(nd.Child, "")
+	for c := range nd.Watch {
+		delete(nd.Watch, c)
+	}
+}
+
 // watchTotal TODO(rjeczalik)
 func watchTotal(nd node) Event {
 	e := nd.Watch.Total()
@@ -186,10 +194,13 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 		// information to shrink the eventset on eventual Stop.
 		// return t.resetwatchpoint(parent, parent, c, eventset|inactive)
 		var diff eventDiff
+		var old Event
 		wasrec := watchIsRecursive(parent)
 		if self {
+			old = cur.Watch[c]
 			diff = watchAdd(cur, c, eventset)
 		} else {
+			old = parent.Child[""].Watch[c]
 			diff = watchAddInactive(parent, c, eventset)
 		}
 		if diff == none && !wasrec && watchIsRecursive(parent) {
@@ -211,7 +222,11 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 				err = t.w.Rewatch(parent.Name, diff[0], diff[1])
 			}
 			if err != nil {
-				watchDel(parent, c, diff.Event())
+				if self {
+					cur.Watch.Del(c, eventset&^old)
+				} else {
+					parent.Child[""].Watch.Del(c, eventset&^old)
+				}
 				return err
 			}
 			watchAdd(cur, c, eventset)
@@ -244,9 +259,8 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 		err = t.w.RecursiveRewatch(children[0].Name, cur.Name, watchTotal(children[0]),
 			watchTotal(cur))
 		if err != nil {
-			// Clean inactive watchpoint. The c chan did not exist before.
-			cur.Child[""] = node{}
-			delete(cur.Watch, c)
+			// Clean watchpoints. There were none before.
+			watchClean(cur)
 			return err
 		}
 		return nil
@@ -258,9 +272,8 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 		}
 		// Watch parent subtree.
 		if err = t.w.RecursiveWatch(cur.Name, watchTotal(cur)); err != nil {
-			// Clean inactive watchpoint. The c chan did not exist before.
-			cur.Child[""] = node{}
-			delete(cur.Watch, c)
+			// Clean watchpoints. There were none before.
+			watchClean(cur)
 			return err
 		}
 		// Unwatch children subtrees.
@@ -291,7 +304,7 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 			err = t.w.Watch(cur.Name, diff[1])
 		}
 		if err != nil {
-			watchDel(cur, c, diff.Event())
+			watchClean(cur)
 			return err
 		}
 	default:
-- 
2.43.0


From 072af4f96ec9b72a7ba0c4e64b167f6562f8ccfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:13 +0000
Subject: [PATCH 14/38] fix: keep watching a directory that is removed and
 created again quickly

The Remove event of a directory may be processed after the Create event of the
one which has taken its place, and it dropped the watch for good.
---
 tree_nonrecursive.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index f18701f..4b94c9a 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -4,7 +4,10 @@
 
 package notify
 
-import "sync"
+import (
+	"os"
+	"sync"
+)
 
 // nonrecursiveTree TODO(rjeczalik)
 type nonrecursiveTree struct {
@@ -80,7 +83,9 @@ func (t *nonrecursiveTree) dispatch(c <-chan EventInfo) {
 func (t *nonrecursiveTree) internal(rec <-chan EventInfo) {
 	for ei := range rec {
 		t.rw.Lock()
-		if ei.Event() == Remove {
+		// A directory which was removed may have been created again, in which
+		// case the Create event can be already processed.
+		if ei.Event() == Remove && !isdir(ei.Path()) {
 			nd, err := t.root.Get(ei.Path())
 			if err != nil {
 				t.rw.Unlock()
@@ -128,6 +133,11 @@ func (t *nonrecursiveTree) internal(rec <-chan EventInfo) {
 	}
 }
 
+func isdir(path string) bool {
+	fi, err := os.Lstat(path)
+	return err == nil && fi.IsDir()
+}
+
 // watchAdd TODO(rjeczalik)
 func (t *nonrecursiveTree) watchAdd(nd node, c chan<- EventInfo, e Event) eventDiff {
 	if e&recursive != 0 {
-- 
2.43.0


From cf6aba114aaa7f343a5c449779d57c95765b09db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:44 +0000
Subject: [PATCH 15/38] fix: go on with the directories left when one vanishes
 during traversal

A directory removed while a recursive watchpoint was being expanded made the
library skip all directories not visited by then.
---
 node.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/node.go b/node.go
index ad7d04f..4351c62 100644
--- a/node.go
+++ b/node.go
@@ -61,13 +61,17 @@ func (nd node) Add(name string) node {
 }
 
 func (nd node) AddDir(fn walkFunc) error {
+	top := nd.Name
 	stack := []node{nd}
 Traverse:
 	for n := len(stack); n != 0; n = len(stack) {
 		nd, stack = stack[n-1], stack[:n-1]
-		switch err := fn(nd); err {
-		case nil:
-		case errSkip:
+		switch err := fn(nd); {
+		case err == nil:
+		case err == errSkip:
+			continue Traverse
+		case errors.Is(err, os.ErrNotExist) && nd.Name != top:
+			// The directory has been removed since it was listed.
 			continue Traverse
 		default:
 			return &os.PathError{
@@ -79,6 +83,9 @@ Traverse:
 		// TODO(rjeczalik): tolerate open failures - add failed names to
 		// AddDirError and notify users which names are not added to the tree.
 		fi, err := os.ReadDir(nd.Name)
+		if errors.Is(err, os.ErrNotExist) && nd.Name != top {
+			continue Traverse
+		}
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 794ad664ca8fc3f03f58497c413485573c8349ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 16/38] fix: trigger: close the descriptor of a removed
 directory only once

process deletes the record of an object that is gone after dir has done so,
which closed a descriptor that may already be somebody else's.
---
 watcher_trigger.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/watcher_trigger.go b/watcher_trigger.go
index 7cd0824..502b8a5 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -328,7 +328,6 @@ func (t *trg) dir(w *watched, n interface{}, e, ge Event) (evn []event) {
 				}
 			}
 		}
-		t.t.Del(w)
 		return
 	}
 	if (ge & not2nat[Write]) != 0 {
-- 
2.43.0


From 649e2b59dd1e439c263cb4968e725e08b56ef135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 17/38] fix: trigger: report errors of Rewatch

---
 watcher_trigger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/watcher_trigger.go b/watcher_trigger.go
index 502b8a5..a3ba6f7 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -291,7 +291,7 @@ func (t *trg) Rewatch(p string, _, e Event) error {
 		err = t.watch(p, e, fi)
 	}
 	t.Unlock()
-	return nil
+	return err
 }
 
 func (*trg) file(w *watched, n interface{}, e Event) (evn []event) {
-- 
2.43.0


From 6984299a0af0d4cdedf6cf185074d89df51be8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 18/38] fix: kqueue: release the pipe on Close and do not hang
 when Init fails

Init cleans up after itself. Close of a trigger which was not set up wrote
to descriptor 0 and waited for a monitor that had not been started.
---
 watcher_kqueue.go  | 9 ++++++---
 watcher_trigger.go | 1 -
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/watcher_kqueue.go b/watcher_kqueue.go
index 715edfb..7969f98 100644
--- a/watcher_kqueue.go
+++ b/watcher_kqueue.go
@@ -51,8 +51,11 @@ func (k *kq) Stop() (err error) {
 }
 
 // Close implements trigger.
-func (k *kq) Close() error {
-	return syscall.Close(k.fd)
+func (k *kq) Close() (err error) {
+	for _, fd := range [...]int{k.fd, k.pipefds[0], k.pipefds[1]} {
+		err = nonil(err, syscall.Close(fd))
+	}
+	return
 }
 
 // NewWatched implements trigger.
@@ -106,7 +109,7 @@ func (k *kq) Init() (err error) {
 	// Creates pipe used to stop `Kevent` call by registering it,
 	// watching read end and writing to other end of it.
 	if err = syscall.Pipe(k.pipefds[:]); err != nil {
-		return nonil(err, k.Close())
+		return nonil(err, syscall.Close(k.fd))
 	}
 	var kevn [1]syscall.Kevent_t
 	syscall.SetKevent(&kevn[0], k.pipefds[0], syscall.EVFILT_READ, syscall.EV_ADD)
diff --git a/watcher_trigger.go b/watcher_trigger.go
index a3ba6f7..3eb2db0 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -107,7 +107,6 @@ func newWatcher(c chan<- EventInfo) watcher {
 	}
 	t.t = newTrigger(t.pthLkp)
 	if err := t.t.Init(); err != nil {
-		t.Close()
 		return watcherStub{fmt.Errorf("failed setting up watcher: %v", err)}
 	}
 	go t.monitor()
-- 
2.43.0


From b640482d89e6d4597fdbd83b39cd1c85c52b4669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 19/38] fix: trigger: Close with events pending or directories
 gone

monitor may wait for the lock to process an event while Close holds it and
waits for monitor. Directories that are gone cannot be walked any more.
---
 watcher_trigger.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/watcher_trigger.go b/watcher_trigger.go
index 3eb2db0..2432a39 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -115,16 +115,17 @@ func newWatcher(c chan<- EventInfo) watcher {
 
 // Close implements watcher.
 func (t *trg) Close() (err error) {
-	t.Lock()
+	// The lock is not held here, because monitor needs it to process the event
+	// it may already have got.
 	if err = t.t.Stop(); err != nil {
-		t.Unlock()
 		return
 	}
 	<-t.s
+	t.Lock()
 	var e error
-	for _, w := range t.pthLkp {
-		if e = t.unwatch(w.p, w.fi); e != nil {
-			dbgprintf("trg: unwatch %q failed: %q\n", w.p, e)
+	for p := range t.pthLkp {
+		if e = t.singleunwatch(p, both); e != nil {
+			dbgprintf("trg: unwatch %q failed: %q\n", p, e)
 			err = nonil(err, e)
 		}
 	}
-- 
2.43.0


From 7314f725473bc035625125cf8f6abb290d35cf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 20/38] fix: kqueue: notice files that come and go whatever is
 asked for

Without Remove and Rename, records of files that are gone stayed, so that no
Create was reported when they were created again. Without Create and Write,
new files were not watched at all. Files in a directory which is watched on
behalf of its parent only were watched for nothing and never released.
---
 watcher_kqueue.go  | 16 +++++++---------
 watcher_trigger.go | 14 ++++++--------
 2 files changed, 13 insertions(+), 17 deletions(-)

diff --git a/watcher_kqueue.go b/watcher_kqueue.go
index 7969f98..739c0f1 100644
--- a/watcher_kqueue.go
+++ b/watcher_kqueue.go
@@ -176,15 +176,13 @@ func init() {
 		// and Create events will be generated and returned for new files.
 		// In case of files, if not requested NoteRename event is reported,
 		// it will be ignored.
-		o = int64(e &^ Create)
-		if (e&Create != 0 && dir) || e&Write != 0 {
-			o = (o &^ int64(Write)) | int64(NoteWrite)
-		}
-		if e&Rename != 0 {
-			o = (o &^ int64(Rename)) | int64(NoteRename)
-		}
-		if e&Remove != 0 {
-			o = (o &^ int64(Remove)) | int64(NoteDelete)
+		//
+		// NoteDelete and NoteRename are always requested, because objects that
+		// are gone must not be taken for the new ones with their names, and
+		// NoteWrite is for directories, because new files are to be watched.
+		o = int64(e&^(Create|Write|Rename|Remove)) | int64(NoteDelete|NoteRename)
+		if dir || e&Write != 0 {
+			o |= int64(NoteWrite)
 		}
 		return
 	}
diff --git a/watcher_trigger.go b/watcher_trigger.go
index 2432a39..2c7447d 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -310,7 +310,9 @@ func (t *trg) dir(w *watched, n interface{}, e, ge Event) (evn []event) {
 	if (ge & (not2nat[Rename] | not2nat[Remove])) != 0 {
 		// Write is reported also for Remove on directory. Because of that
 		// we have to filter it out explicitly.
-		evn = append(evn, event{w.p, e & ^Write & ^not2nat[Write], true, n})
+		if e &^= Write | not2nat[Write]; e != 0 {
+			evn = append(evn, event{w.p, e, true, n})
+		}
 		if ge&not2nat[Rename] != 0 {
 			for p := range t.pthLkp {
 				if strings.HasPrefix(p, w.p+string(os.PathSeparator)) {
@@ -330,7 +332,8 @@ func (t *trg) dir(w *watched, n interface{}, e, ge Event) (evn []event) {
 		}
 		return
 	}
-	if (ge & not2nat[Write]) != 0 {
+	// Contents of dir are of interest only if it is watched directly.
+	if (ge&not2nat[Write]) != 0 && w.eDir != 0 {
 		switch err := t.walk(w.p, func(fi os.FileInfo) error {
 			p := filepath.Join(w.p, fi.Name())
 			switch err := t.singlewatch(p, w.eDir, ndir, fi); {
@@ -435,14 +438,9 @@ func (t *trg) process(n interface{}) (evn []event) {
 			}
 		}
 	}
-	if e == Event(0) && (!w.fi.IsDir() || (ge&int64(not2nat[Write])) == 0) {
-		t.Unlock()
-		return
-	}
-
 	if w.fi.IsDir() {
 		evn = append(evn, t.dir(w, n, e, Event(ge))...)
-	} else {
+	} else if e != Event(0) {
 		evn = append(evn, t.file(w, n, e)...)
 	}
 	if Event(ge)&(not2nat[Remove]|not2nat[Rename]) != 0 {
-- 
2.43.0


From 8a2fdd6d3c3207367dbaad81e841ff5c0a74ed19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 21/38] fix: trigger: report renames of files in a moved
 directory as asked for

The event set of the file counts, not the one of the directory.
---
 watcher_trigger.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/watcher_trigger.go b/watcher_trigger.go
index 2c7447d..dce9661 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -314,18 +314,16 @@ func (t *trg) dir(w *watched, n interface{}, e, ge Event) (evn []event) {
 			evn = append(evn, event{w.p, e, true, n})
 		}
 		if ge&not2nat[Rename] != 0 {
-			for p := range t.pthLkp {
+			for p, pw := range t.pthLkp {
 				if strings.HasPrefix(p, w.p+string(os.PathSeparator)) {
+					re := decode(int64(not2nat[Rename]), pw.eDir|pw.eNonDir)
 					if err := t.singleunwatch(p, both); err != nil && err != errNotWatched &&
 						!os.IsNotExist(err) {
 						dbgprintf("trg: failed stop watching moved file (%q): %q\n",
 							p, err)
 					}
-					if (w.eDir|w.eNonDir)&(not2nat[Rename]|Rename) != 0 {
-						evn = append(evn, event{
-							p, (w.eDir | w.eNonDir) & e &^ Write &^ not2nat[Write],
-							w.fi.IsDir(), nil,
-						})
+					if re != 0 {
+						evn = append(evn, event{p, re, pw.fi.IsDir(), nil})
 					}
 				}
 			}
-- 
2.43.0


From 9d3e3a6e5c31bf71cc83395762a3fd100f715400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 22/38] fix: trigger: watch files which replace the ones that
 are gone

When a file took the name of a watched one before its directory was
rescanned, e.g. by a rename, neither its creation nor anything that happened
to it was reported.
---
 watcher_trigger.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/watcher_trigger.go b/watcher_trigger.go
index dce9661..5b919fe 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -443,7 +443,31 @@ func (t *trg) process(n interface{}) (evn []event) {
 	}
 	if Event(ge)&(not2nat[Remove]|not2nat[Rename]) != 0 {
 		t.t.Del(w)
+		evn = append(evn, t.replaced(w.p, n)...)
 	}
 	t.Unlock()
 	return
 }
+
+// replaced starts to watch the object which has taken the name of p, that is no
+// longer watched, before the directory of p was rescanned.
+func (t *trg) replaced(p string, n interface{}) (evn []event) {
+	w, ok := t.pthLkp[filepath.Dir(p)]
+	if !ok || w.eDir == 0 {
+		return
+	}
+	fi, err := os.Lstat(p)
+	if err != nil {
+		return
+	}
+	if dfi, err := os.Stat(w.p); err != nil || !os.SameFile(dfi, w.fi) {
+		// The directory itself is gone, which is yet to be reported.
+		return
+	}
+	if err = t.singlewatch(p, w.eDir, ndir, fi); err != nil {
+		dbgprintf("trg: watching %q failed: %q", p, err)
+	} else if w.eDir&Create != 0 {
+		evn = append(evn, event{p, Create, fi.IsDir(), n})
+	}
+	return
+}
-- 
2.43.0


From 53ce0d847510a89f6b7fad4adaebda228c6ffb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:06 +0000
Subject: [PATCH 23/38] fix: fsevents: release streams that are stopped or fail
 to start

---
 watcher_fsevents_cgo.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/watcher_fsevents_cgo.go b/watcher_fsevents_cgo.go
index 7cf7d71..c2e67ac 100644
--- a/watcher_fsevents_cgo.go
+++ b/watcher_fsevents_cgo.go
@@ -140,11 +140,14 @@ func (s *stream) Start() error {
 	ctx := C.FSEventStreamContext{}
 	ref := C.EventStreamCreate(&ctx, C.uintptr_t(s.info), path, C.FSEventStreamEventId(atomic.LoadUint64(&since)), latency, flags)
 	if ref == nilstream {
+		streamFuncs.delete(s.info)
 		return errCreate
 	}
 	C.FSEventStreamSetDispatchQueue(ref, q)
 	if C.FSEventStreamStart(ref) == C.Boolean(0) {
 		C.FSEventStreamInvalidate(ref)
+		C.FSEventStreamRelease(ref)
+		streamFuncs.delete(s.info)
 		return errStart
 	}
 	s.ref = ref
@@ -158,6 +161,7 @@ func (s *stream) Stop() {
 	}
 	C.FSEventStreamStop(s.ref)
 	C.FSEventStreamInvalidate(s.ref)
+	C.FSEventStreamRelease(s.ref)
 	s.ref = nilstream
 	streamFuncs.delete(s.info)
 }
-- 
2.43.0


From e510ab5f19b9348671f9a3760418350892a5c0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:06 +0000
Subject: [PATCH 24/38] fix: fsevents: keep the old watch when relocating it
 fails

RecursiveRewatch stopped the old stream before it started the new one, thus
nothing was watched any more when that failed.
---
 watcher_fsevents.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/watcher_fsevents.go b/watcher_fsevents.go
index dab5286..e7e2d8e 100644
--- a/watcher_fsevents.go
+++ b/watcher_fsevents.go
@@ -293,11 +293,14 @@ func (fse *fsevents) RecursiveRewatch(oldpath, newpath string, oldevent, neweven
 		if _, ok := fse.watches[newpath]; ok {
 			return errAlreadyWatched
 		}
-		if err := fse.Unwatch(oldpath); err != nil {
+		if _, ok := fse.watches[oldpath]; !ok {
+			return errNotWatched
+		}
+		// The old watch is still there if the new one fails.
+		if err := fse.watch(newpath, newevent, 1); err != nil {
 			return err
 		}
-		// TODO(rjeczalik): revert unwatch if watch fails?
-		return fse.watch(newpath, newevent, 1)
+		return fse.Unwatch(oldpath)
 	}
 }
 
-- 
2.43.0


From 641d567abefaca7e223f3c1fe49acd02568f187e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:12 +0000
Subject: [PATCH 25/38] fix: fsevents: note what happens below a watch while it
 is not recursive

---
 watcher_fsevents.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/watcher_fsevents.go b/watcher_fsevents.go
index e7e2d8e..8332f95 100644
--- a/watcher_fsevents.go
+++ b/watcher_fsevents.go
@@ -143,13 +143,13 @@ func (w *watch) Dispatch(ev []FSEvent) {
 				continue
 			}
 			base = ev[i].Path[n+1:]
-			if !isrec && strings.IndexByte(base, '/') != -1 {
-				continue
-			}
 		}
+		// Events below a non-recursive watch-point are stripped as well, the
+		// watch-point can be made recursive later.
+		//
 		// TODO(rjeczalik): get diff only from filtered events?
 		e := w.strip(string(base), ev[i].Flags) & events
-		if e == 0 {
+		if e == 0 || !isrec && strings.IndexByte(base, '/') != -1 {
 			continue
 		}
 		for _, e := range splitflags(e) {
-- 
2.43.0


From a5d01fc4dac14b904a2ca84c02c8877c6c1f9c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:01 +0000
Subject: [PATCH 26/38] fix: do not watch a file that takes the place of a
 directory

A directory which is removed and replaced by a file before the recursive
watch reaches it got the file watched instead: every event of the file was
sent twice from then on, and reading the file as a directory ended the
traversal, leaving the remaining directories without a watch.
---
 node.go              |  5 +++++
 tree_nonrecursive.go | 30 ++++++++++++++++++++++++++----
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/node.go b/node.go
index 4351c62..9167fa9 100644
--- a/node.go
+++ b/node.go
@@ -9,6 +9,7 @@ import (
 	"io/fs"
 	"os"
 	"path/filepath"
+	"syscall"
 )
 
 var errSkip = errors.New("notify: skip")
@@ -86,6 +87,10 @@ Traverse:
 		if errors.Is(err, os.ErrNotExist) && nd.Name != top {
 			continue Traverse
 		}
+		if errors.Is(err, syscall.ENOTDIR) && nd.Name != top {
+			fn(nd) // a file has taken its place, let fn see that
+			continue Traverse
+		}
 		if err != nil {
 			return err
 		}
diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index 4b94c9a..9952665 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -108,7 +108,8 @@ func (t *nonrecursiveTree) internal(rec <-chan EventInfo) {
 			nd = it
 			return nil
 		})
-		if eset == internal {
+		// The directory may be gone, with a file under its name.
+		if eset == internal || isfile(ei.Path()) {
 			t.rw.Unlock()
 			continue
 		}
@@ -121,10 +122,10 @@ func (t *nonrecursiveTree) internal(rec <-chan EventInfo) {
 		err := nd.AddDir(func(nd node) error {
 			if nd.Watch.dryAdd(t.rec, eset|Create) == none {
 				t.w.Watch(nd.Name, nd.Watch.Total())
-				return nil
+			} else {
+				recfn(nd)
 			}
-			recfn(nd)
-			return nil
+			return t.dropFile(nd)
 		})
 		t.rw.Unlock()
 		if err != nil {
@@ -133,11 +134,26 @@ func (t *nonrecursiveTree) internal(rec <-chan EventInfo) {
 	}
 }
 
+// dropFile gives up the recursive watch of a directory which has been replaced
+// by a file since it was found.
+func (t *nonrecursiveTree) dropFile(nd node) error {
+	if !isfile(nd.Name) {
+		return nil
+	}
+	t.unwatch(nd, t.rec, nd.Watch[t.rec])
+	return errSkip
+}
+
 func isdir(path string) bool {
 	fi, err := os.Lstat(path)
 	return err == nil && fi.IsDir()
 }
 
+func isfile(path string) bool {
+	fi, err := os.Lstat(path)
+	return err == nil && !fi.IsDir()
+}
+
 // watchAdd TODO(rjeczalik)
 func (t *nonrecursiveTree) watchAdd(nd node, c chan<- EventInfo, e Event) eventDiff {
 	if e&recursive != 0 {
@@ -265,12 +281,18 @@ func (t *nonrecursiveTree) watchrec(nd node, c chan<- EventInfo, e Event) error
 	// TODO(rjeczalik): account every path that failed to be (re)watched
 	// and retry.
 	var undo []func()
+	top := nd.Name
 	recfn := t.recFunc(e)
 	err := nd.AddDir(func(nd node) error {
 		old := nd.Watch[t.rec]
 		if err := recfn(nd); err != nil {
 			return err
 		}
+		if nd.Name != top {
+			if err := t.dropFile(nd); err != nil {
+				return err
+			}
+		}
 		if set := nd.Watch[t.rec] &^ old; set != 0 {
 			undo = append(undo, func() { t.unwatch(nd, t.rec, set) })
 		}
-- 
2.43.0


From 15805ed70d49d4fca333bad32e700ae3f3bffe2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:32 +0000
Subject: [PATCH 27/38] fix: forget a removed directory after its last events
 have been dispatched

Events are dispatched concurrently, and the removal of a directory below
a recursive watchpoint could be handled before the events that preceded it,
which then found no watchpoints: channels registered for the directory
missed the removal of what was in it.
---
 tree_nonrecursive.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index 9952665..babadd1 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -36,9 +36,17 @@ func newNonrecursiveTree(w watcher, c, rec chan EventInfo) *nonrecursiveTree {
 
 // dispatch TODO(rjeczalik)
 func (t *nonrecursiveTree) dispatch(c <-chan EventInfo) {
+	// Watchpoints of a removed directory are needed until every event that
+	// preceded its removal is dispatched, so internal gets the events in order
+	// and after the earlier ones have been dispatched.
+	prev := make(chan struct{})
+	close(prev)
 	for ei := range c {
 		dbgprintf("dispatching %v on %q", ei.Event(), ei.Path())
-		go func(ei EventInfo) {
+		done := make(chan struct{})
+		go func(ei EventInfo, prev <-chan struct{}) {
+			defer close(done)
+			defer func() { <-prev }()
 			var nd node
 			var isrec bool
 			dir, base := split(ei.Path())
@@ -74,8 +82,10 @@ func (t *nonrecursiveTree) dispatch(c <-chan EventInfo) {
 			if ok, err := ei.(isDirer).isDir(); !ok || err != nil {
 				return
 			}
+			<-prev
 			t.rec <- ei
-		}(ei)
+		}(ei, prev)
+		prev = done
 	}
 }
 
-- 
2.43.0


From e10bef8b457ddc89c5c2fe7506c2864f7c7a4a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:32 +0000
Subject: [PATCH 28/38] fix: inotify: keep raw events in order with the others

Raw events were sent after all the others of the same read, when the
removal of a directory may have made the watchpoints they are for go.
---
 watcher_inotify.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/watcher_inotify.go b/watcher_inotify.go
index 69e9330..2a1dbf8 100644
--- a/watcher_inotify.go
+++ b/watcher_inotify.go
@@ -267,14 +267,12 @@ func (i *inotify) send(esch <-chan []*event) {
 func (i *inotify) transform(es []*event) []*event {
 	var multi []*event
 	i.RLock()
-	for idx, e := range es {
+	for _, e := range es {
 		if e.sys.Mask&(unix.IN_IGNORED|unix.IN_Q_OVERFLOW) != 0 {
-			es[idx] = nil
 			continue
 		}
 		wd, ok := i.m[e.sys.Wd]
 		if !ok || e.sys.Mask&encode(Event(wd.mask)) == 0 {
-			es[idx] = nil
 			continue
 		}
 		if e.path == "" {
@@ -282,14 +280,15 @@ func (i *inotify) transform(es []*event) []*event {
 		} else {
 			e.path = filepath.Join(wd.path, e.path)
 		}
+		// The raw event goes first, what is watched may be forgotten when the
+		// removal of a directory is reported.
 		multi = append(multi, decode(Event(wd.mask), e))
-		if e.event == 0 {
-			es[idx] = nil
+		if e.event != 0 {
+			multi = append(multi, e)
 		}
 	}
 	i.RUnlock()
-	es = append(es, multi...)
-	return es
+	return multi
 }
 
 // encode converts notify system-independent events to valid inotify mask
-- 
2.43.0


From 59dce1359f615d83f6d8cced10acae0e3658f9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:47 +0000
Subject: [PATCH 29/38] fix: watch a path that was replaced when asked to again

---
 tree_nonrecursive.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index babadd1..29b5e5b 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -233,7 +233,14 @@ func (t *nonrecursiveTree) watch(nd node, c chan<- EventInfo, e Event) (err erro
 	diff := nd.Watch.Add(c, e)
 	switch {
 	case diff == none:
-		return nil
+		total := nd.Watch.Total()
+		if total == 0 {
+			return nil
+		}
+		// The path may have been replaced since it was watched.
+		if err = t.w.Watch(nd.Name, total); err == errAlreadyWatched {
+			return nil
+		}
 	case diff[1] == 0:
 		// TODO(rjeczalik): cleanup this panic after implementation is stable
 		panic("eset is empty: " + nd.Name)
-- 
2.43.0


From 4399693a5dfbf544eb949720bdfd36760b5af2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:07 +0000
Subject: [PATCH 30/38] fix: do not resolve a link to a file whose text ends
 with a slash

---
 util.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util.go b/util.go
index 030ec40..0518d74 100644
--- a/util.go
+++ b/util.go
@@ -95,6 +95,12 @@ func canonical(p string) (string, error) {
 			i = 1 // no guarantee s is canonical, start all over
 		}
 	}
+	if strings.HasSuffix(p, "/") {
+		// A symlink may end with a slash, which only a directory may have.
+		if _, err := os.Lstat(p); err != nil {
+			return "", err
+		}
+	}
 	return filepath.Clean(p), nil
 }
 
-- 
2.43.0


From 00d3593a20342662b67469993a03a6cc2dfd85bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:24 +0000
Subject: [PATCH 31/38] fix: kqueue: leave what was watched alone when a watch
 fails

---
 watcher_trigger.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/watcher_trigger.go b/watcher_trigger.go
index 5b919fe..ca74937 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -158,6 +158,7 @@ func (t *trg) singlewatch(p string, e Event, direct mode, fi os.FileInfo) (err e
 			return
 		}
 	}
+	eDir, eNonDir := w.eDir, w.eNonDir
 	switch direct {
 	case dir:
 		w.eDir |= e
@@ -168,6 +169,10 @@ func (t *trg) singlewatch(p string, e Event, direct mode, fi os.FileInfo) (err e
 		w.eNonDir |= e
 	}
 	if err = t.t.Watch(fi, w, encode(w.eDir|w.eNonDir, fi.IsDir())); err != nil {
+		w.eDir, w.eNonDir = eDir, eNonDir
+		if !ok {
+			t.t.Del(w)
+		}
 		return
 	}
 	if !ok {
@@ -195,6 +200,8 @@ func decode(o int64, w Event) (e Event) {
 }
 
 func (t *trg) watch(p string, e Event, fi os.FileInfo) error {
+	w, ok := t.pthLkp[p]
+	ok = ok && w.eDir != 0
 	if err := t.singlewatch(p, e, dir, fi); err != nil {
 		if err != errAlreadyWatched {
 			return err
@@ -211,6 +218,12 @@ func (t *trg) watch(p string, e Event, fi os.FileInfo) error {
 			return nil
 		})
 		if err != nil {
+			if !ok {
+				// Give up the entries that are watched by now.
+				if e := t.unwatch(p, fi); e != nil {
+					dbgprintf("trg: unwatch %q failed: %q\n", p, e)
+				}
+			}
 			return err
 		}
 	}
@@ -279,16 +292,18 @@ func (t *trg) Unwatch(p string) error {
 // Rewatch implements Watcher interface.
 //
 // TODO(rjeczalik): This is a naive hack. Rewrite might help.
-func (t *trg) Rewatch(p string, _, e Event) error {
+func (t *trg) Rewatch(p string, old, e Event) error {
 	fi, err := os.Stat(p)
 	if err != nil {
 		return err
 	}
 	t.Lock()
 	if err = t.unwatch(p, fi); err == nil {
-		// TODO(rjeczalik): If watch fails then we leave trigger in inconsistent
-		// state. Handle? Panic? Native version of rewatch?
-		err = t.watch(p, e, fi)
+		if err = t.watch(p, e, fi); err != nil {
+			if e := t.watch(p, old, fi); e != nil {
+				dbgprintf("trg: watching %q again failed: %q\n", p, e)
+			}
+		}
 	}
 	t.Unlock()
 	return err
-- 
2.43.0


From e445fc2ebc8173bb6998a5c9ae53898fb14d3b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:32 +0000
Subject: [PATCH 32/38] fix: windows: close the handle of a watch that could
 not be set

---
 watcher_readdcw.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/watcher_readdcw.go b/watcher_readdcw.go
index b0dee41..b5b40c2 100644
--- a/watcher_readdcw.go
+++ b/watcher_readdcw.go
@@ -100,11 +100,14 @@ func (g *grip) register(cph syscall.Handle) (err error) {
 	); err != nil {
 		return
 	}
-	if _, err = syscall.CreateIoCompletionPort(g.handle, cph, 0, 0); err != nil {
+	if _, err = syscall.CreateIoCompletionPort(g.handle, cph, 0, 0); err == nil {
+		err = g.readDirChanges()
+	}
+	if err != nil {
 		syscall.CloseHandle(g.handle)
-		return
+		g.handle = syscall.InvalidHandle
 	}
-	return g.readDirChanges()
+	return
 }
 
 // readDirChanges tells the system to store file change information in grip's
-- 
2.43.0


From 9832cba633fff80b0c3d2fadd5b92265c4f87e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:32 +0000
Subject: [PATCH 33/38] fix: windows: keep the old watch when relocating it
 fails

---
 watcher_readdcw.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/watcher_readdcw.go b/watcher_readdcw.go
index b5b40c2..3f6a656 100644
--- a/watcher_readdcw.go
+++ b/watcher_readdcw.go
@@ -464,10 +464,11 @@ func (r *readdcw) Rewatch(path string, oldevent, newevent Event) error {
 func (r *readdcw) RecursiveRewatch(oldpath, newpath string, oldevent,
 	newevent Event) error {
 	if oldpath != newpath {
-		if err := r.unwatch(oldpath); err != nil {
+		// The old watch is still there if the new one fails.
+		if err := r.watch(newpath, newevent, true); err != nil {
 			return err
 		}
-		return r.watch(newpath, newevent, true)
+		return r.unwatch(oldpath)
 	}
 	return r.rewatch(newpath, uint32(oldevent), uint32(newevent), true)
 }
-- 
2.43.0


From f1b498d2047d23fdfb9d78ef309aa26c9845c488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:32 +0000
Subject: [PATCH 34/38] fix: windows: report renamed directories when only
 renames are asked for

---
 watcher_readdcw.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/watcher_readdcw.go b/watcher_readdcw.go
index 3f6a656..416cd26 100644
--- a/watcher_readdcw.go
+++ b/watcher_readdcw.go
@@ -193,7 +193,7 @@ func (wd *watched) recreate(cph syscall.Handle) (err error) {
 	if err = wd.updateGrip(0, cph, filefilter == 0, filefilter); err != nil {
 		return
 	}
-	dirfilter := wd.filter & uint32(FileNotifyChangeDirName|Create|Remove)
+	dirfilter := wd.filter & uint32(FileNotifyChangeDirName|Create|Remove|Rename)
 	if err = wd.updateGrip(1, cph, dirfilter == 0, wd.filter|uint32(dirmarker)); err != nil {
 		return
 	}
-- 
2.43.0


From cbdd2e954f761b70e50a7e37436df157a5f624a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:32 +0000
Subject: [PATCH 35/38] fix: windows: do not lose a watch changed to
 FileNotifyChangeDirName alone

---
 watcher_readdcw.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/watcher_readdcw.go b/watcher_readdcw.go
index 416cd26..f87d969 100644
--- a/watcher_readdcw.go
+++ b/watcher_readdcw.go
@@ -189,7 +189,7 @@ func newWatched(cph syscall.Handle, filter uint32, recursive bool,
 
 // TODO : doc
 func (wd *watched) recreate(cph syscall.Handle) (err error) {
-	filefilter := wd.filter &^ uint32(FileNotifyChangeDirName)
+	filefilter := wd.filter &^ (uint32(FileNotifyChangeDirName) | onlyMachineStates)
 	if err = wd.updateGrip(0, cph, filefilter == 0, filefilter); err != nil {
 		return
 	}
-- 
2.43.0


From 071a31e1d3b86a58fa5c6dfd717cc69f422b73be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:10 +0000
Subject: [PATCH 36/38] fix: windows: finish unwatching at once and allow calls
 meanwhile

---
 watcher_readdcw.go | 98 ++++++++++++++++++++++++++--------------------
 1 file changed, 55 insertions(+), 43 deletions(-)

diff --git a/watcher_readdcw.go b/watcher_readdcw.go
index f87d969..779e492 100644
--- a/watcher_readdcw.go
+++ b/watcher_readdcw.go
@@ -162,7 +162,7 @@ func encode(filter uint32) uint32 {
 type watched struct {
 	filter    uint32
 	recursive bool
-	count     uint8
+	count     uint8 // requests that are not completed yet
 	pathw     []uint16
 	digrip    [2]*grip
 }
@@ -307,7 +307,11 @@ func (r *readdcw) watch(path string, event Event, recursive bool) error {
 
 	if wd, ok := r.m[path]; ok {
 		dbgprint("watch: already exists")
-		wd.filter &^= stateUnwatch
+		if wd.filter&stateUnwatch != 0 {
+			// It is yet to be removed, so it is recreated instead.
+			wd.filter = stateRewatch | uint32(event)
+			wd.recursive = recursive
+		}
 		return nil
 	}
 
@@ -348,7 +352,7 @@ func (r *readdcw) loop() {
 	var n, key uint32
 	var overlapped *syscall.Overlapped
 	for {
-		err := syscall.GetQueuedCompletionStatus(r.cph, &n, &key, &overlapped, syscall.INFINITE)
+		syscall.GetQueuedCompletionStatus(r.cph, &n, &key, &overlapped, syscall.INFINITE)
 		if key == stateCPClose {
 			r.Lock()
 			handle := r.cph
@@ -369,37 +373,52 @@ func (r *readdcw) loop() {
 		} else if n != 0 {
 			r.loopevent(n, overEx)
 		}
-		if err = overEx.parent.readDirChanges(); err != nil {
-			// TODO: error handling
-		}
 		r.loopstate(overEx)
 	}
 }
 
-// TODO(pknap) : doc
+// loopstate deals with a completed request. It requests the changes that follow,
+// or goes on with the operation in progress.
 func (r *readdcw) loopstate(overEx *overlappedEx) {
 	r.Lock()
 	defer r.Unlock()
-	filter := overEx.parent.parent.filter
-	if filter&onlyMachineStates == 0 {
+	wd := overEx.parent.parent
+	wd.count--
+	if wd.filter&onlyMachineStates == 0 {
+		if overEx.parent.handle == syscall.InvalidHandle {
+			return
+		}
+		if err := overEx.parent.readDirChanges(); err == nil {
+			wd.count++
+		}
+		// TODO: error handling
 		return
 	}
-	if overEx.parent.parent.count--; overEx.parent.parent.count == 0 {
-		switch filter & onlyMachineStates {
-		case stateRewatch:
-			dbgprint("loopstate rewatch")
-			overEx.parent.parent.recreate(r.cph)
-		case stateUnwatch:
-			dbgprint("loopstate unwatch")
-			overEx.parent.parent.closeHandle()
-			delete(r.m, syscall.UTF16ToString(overEx.parent.pathw))
-		case stateCPClose:
-		default:
-			panic(`notify: windows loopstate logic error`)
-		}
+	if err := r.finishLocked(wd); err != nil {
+		dbgprintf("loopstate error: %v", err)
 	}
 }
 
+// finishLocked ends the operation in progress, which has closed the handles, when
+// all requests are completed.
+func (r *readdcw) finishLocked(wd *watched) error {
+	if wd.count != 0 {
+		return nil
+	}
+	switch wd.filter & onlyMachineStates {
+	case stateRewatch:
+		dbgprint("loopstate rewatch")
+		return wd.recreate(r.cph)
+	case stateUnwatch:
+		dbgprint("loopstate unwatch")
+		delete(r.m, syscall.UTF16ToString(wd.pathw))
+	case stateCPClose:
+	default:
+		panic(`notify: windows loopstate logic error`)
+	}
+	return nil
+}
+
 // TODO(pknap) : doc
 func (r *readdcw) loopevent(n uint32, overEx *overlappedEx) {
 	events := []*event{}
@@ -487,12 +506,15 @@ func (r *readdcw) rewatch(path string, oldevent, newevent uint32, recursive bool
 	if wd.filter&(onlyNotifyChanges|onlyNGlobalEvents) != oldevent {
 		panic(`notify: windows re-watcher logic error`)
 	}
+	filter := wd.filter
 	wd.filter = stateRewatch | newevent
 	wd.recursive, recursive = recursive, wd.recursive
-	if err = wd.closeHandle(); err != nil {
-		wd.filter = oldevent
+	if err = wd.closeHandle(); err == nil {
+		err = r.finishLocked(wd)
+	}
+	if err != nil {
+		wd.filter = filter
 		wd.recursive = recursive
-		return
 	}
 	return
 }
@@ -500,11 +522,11 @@ func (r *readdcw) rewatch(path string, oldevent, newevent uint32, recursive bool
 // TODO : pknap
 func (r *readdcw) nonStateWatchedLocked(path string) (wd *watched, err error) {
 	wd, ok := r.m[path]
-	if !ok || wd == nil {
+	if !ok || wd == nil || wd.filter&stateUnwatch != 0 {
 		err = errors.New(`notify: ` + path + ` path is unwatched`)
 		return
 	}
-	if wd.filter&onlyMachineStates != 0 {
+	if wd.filter&stateCPClose != 0 {
 		err = errors.New(`notify: another re/unwatching operation in progress`)
 		return
 	}
@@ -531,24 +553,14 @@ func (r *readdcw) unwatch(path string) (err error) {
 		return
 	}
 
-	wd.filter |= stateUnwatch
+	filter := wd.filter
+	wd.filter = filter&^onlyMachineStates | stateUnwatch
 	dbgprint("unwatch: set unwatch state")
-
-	if _, attrErr := syscall.GetFileAttributes(&wd.pathw[0]); attrErr != nil {
-		for _, g := range wd.digrip {
-			if g == nil {
-				continue
-			}
-
-			dbgprint("unwatch: posting")
-			if err = syscall.PostQueuedCompletionStatus(r.cph, 0, 0, (*syscall.Overlapped)(unsafe.Pointer(g.ovlapped))); err != nil {
-				wd.filter &^= stateUnwatch
-				return
-			}
-		}
+	if err = wd.closeHandle(); err != nil {
+		wd.filter = filter
+		return
 	}
-
-	return
+	return r.finishLocked(wd)
 }
 
 // Close resets the whole watcher object, closes all existing file descriptors,
-- 
2.43.0


From de7794ec11966b7f4739474a2b87c0c90eabcae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:10 +0000
Subject: [PATCH 37/38] fix: windows: do not report changes below a watch that
 is not recursive

---
 watchpoint_readdcw.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/watchpoint_readdcw.go b/watchpoint_readdcw.go
index 49a9b9c..462c5bb 100644
--- a/watchpoint_readdcw.go
+++ b/watchpoint_readdcw.go
@@ -35,5 +35,8 @@ func eventmask(ei EventInfo, extra Event) (e Event) {
 //
 // Internal events must not be sent to user channels and vice versa.
 func matches(set, event Event) bool {
-	return (set&omit)^(event&omit) == 0 && (set&event == event || set&fileNotifyChangeModified&event != 0)
+	if modified := event & fileNotifyChangeModified; modified != 0 && set&modified != 0 {
+		event &^= modified // any of them will do
+	}
+	return (set&omit)^(event&omit) == 0 && set&event == event
 }
-- 
2.43.0


From 70320abbdd696ecf7e0ea868d5c78e6af86d7242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:52 +0000
Subject: [PATCH 38/38] fix: windows: name the owner of a request before making
 it

---
 watcher_readdcw.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/watcher_readdcw.go b/watcher_readdcw.go
index 779e492..4167d6e 100644
--- a/watcher_readdcw.go
+++ b/watcher_readdcw.go
@@ -80,10 +80,11 @@ func newGrip(cph syscall.Handle, parent *watched, filter uint32) (*grip, error)
 		parent:    parent,
 		ovlapped:  &overlappedEx{},
 	}
+	// Set before the request is made, which may complete at once.
+	g.ovlapped.parent = g
 	if err := g.register(cph); err != nil {
 		return nil, err
 	}
-	g.ovlapped.parent = g
 	return g, nil
 }
 
-- 
2.43.0

