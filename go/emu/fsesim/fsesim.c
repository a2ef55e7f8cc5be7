#include <pthread.h>
#include <stdio.h>
#include <string.h>
#include "CoreServices/CoreServices.h"

struct verif_queue { int x; };
struct verif_string { const char *s; int refs; };
struct verif_array { const void *v; int refs; };
struct verif_stream {
	int serial, refs, queued, running, invalid;
	FSEventStreamCallback cb;
	FSEventStreamContext ctx;
	char path[4096];
	uint64_t since, started;
};

const CFAllocatorRef kCFAllocatorDefault = 0;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static struct verif_stream *all[65536];
static int n, failcreate, failstart, failed;
static uint64_t now = 1000;
static char bad[256];

static void wrong(const char *what, struct verif_stream *s) {
	if (!bad[0])
		snprintf(bad, sizeof bad, "%s (%.150s)", what, s ? s->path : "no stream");
}

dispatch_queue_t dispatch_queue_create(const char *label, dispatch_queue_attr_t attr) {
	static struct verif_queue q;
	return &q;
}

CFStringRef CFStringCreateWithCStringNoCopy(CFAllocatorRef a, const char *s, CFStringEncoding enc, CFAllocatorRef dealloc) {
	struct verif_string *x = malloc(sizeof *x);
	x->s = s;
	x->refs = 1;
	return x;
}

CFArrayRef CFArrayCreate(CFAllocatorRef a, const void **v, CFIndex k, const CFArrayCallBacks *cb) {
	struct verif_array *x = malloc(sizeof *x);
	x->v = v[0];
	x->refs = 1;
	return x;
}

void CFRelease(CFTypeRef cf) {}

FSEventStreamEventId FSEventsGetCurrentEventId(void) {
	pthread_mutex_lock(&mu);
	uint64_t x = now;
	pthread_mutex_unlock(&mu);
	return x;
}

FSEventStreamRef FSEventStreamCreate(void *a, FSEventStreamCallback cb, FSEventStreamContext *ctx, CFArrayRef paths, FSEventStreamEventId since, CFTimeInterval latency, FSEventStreamCreateFlags flags) {
	pthread_mutex_lock(&mu);
	struct verif_stream *s = NULL;
	if (failcreate > 0 && --failcreate == 0)
		failed++;
	else if (n < 65536) {
		s = calloc(1, sizeof *s);
		s->serial = n;
		s->refs = 1;
		s->cb = cb;
		s->ctx = *ctx;
		s->since = since;
		snprintf(s->path, sizeof s->path, "%s", ((const struct verif_string *)paths->v)->s);
		if (!(flags & kFSEventStreamCreateFlagFileEvents))
			wrong("stream without file events", s);
		all[n++] = s;
	}
	pthread_mutex_unlock(&mu);
	return s;
}

void FSEventStreamSetDispatchQueue(FSEventStreamRef s, dispatch_queue_t q) {
	pthread_mutex_lock(&mu);
	if (s->invalid || s->refs <= 0)
		wrong("queue set on a dead stream", s);
	s->queued = q != NULL;
	pthread_mutex_unlock(&mu);
}

Boolean FSEventStreamStart(FSEventStreamRef s) {
	Boolean ok = 0;
	pthread_mutex_lock(&mu);
	if (!s->queued || s->running || s->invalid || s->refs <= 0)
		wrong("start of a stream that is not ready", s);
	else if (failstart > 0 && --failstart == 0)
		failed++;
	else {
		s->running = 1;
		s->started = now;
		ok = 1;
	}
	pthread_mutex_unlock(&mu);
	return ok;
}

void FSEventStreamStop(FSEventStreamRef s) {
	pthread_mutex_lock(&mu);
	if (!s->running)
		wrong("stop of a stream that does not run", s);
	s->running = 0;
	pthread_mutex_unlock(&mu);
}

void FSEventStreamInvalidate(FSEventStreamRef s) {
	pthread_mutex_lock(&mu);
	if (!s->queued || s->running || s->invalid)
		wrong("invalidation of a stream that runs or was not scheduled", s);
	s->invalid = 1;
	s->queued = 0;
	pthread_mutex_unlock(&mu);
}

void FSEventStreamRelease(FSEventStreamRef s) {
	pthread_mutex_lock(&mu);
	if (--s->refs < 0)
		wrong("stream released too often", s);
	if (s->refs == 0 && (s->running || s->queued))
		wrong("release of a stream in use", s);
	pthread_mutex_unlock(&mu);
}

void verif_advance(uint64_t k) {
	pthread_mutex_lock(&mu);
	now += k;
	pthread_mutex_unlock(&mu);
}

void verif_fail(int create, int start) {
	pthread_mutex_lock(&mu);
	failcreate = create;
	failstart = start;
	failed = 0;
	pthread_mutex_unlock(&mu);
}

int verif_failed(void) { return failed; }

int verif_streams(void) {
	pthread_mutex_lock(&mu);
	int x = n;
	pthread_mutex_unlock(&mu);
	return x;
}

/* The result is the number of references the library still has. */
int verif_info(int i, int *serial, const char **path, uint64_t *since, uint64_t *started, int *active) {
	pthread_mutex_lock(&mu);
	struct verif_stream *s = all[i];
	*serial = s->serial;
	*path = s->path;
	*since = s->since;
	*started = s->started;
	*active = s->running && s->queued && !s->invalid;
	int r = s->refs;
	pthread_mutex_unlock(&mu);
	return r;
}

/* Calls back the way a dispatch queue does: nothing is delivered once a stream
 * is stopped, unless the block was under way already (late). */
int verif_call(int serial, int late, size_t k, char **paths, uint32_t *flags, uint64_t *ids) {
	pthread_mutex_lock(&mu);
	struct verif_stream *s = all[serial];
	int on = late || (s->running && s->queued && !s->invalid);
	pthread_mutex_unlock(&mu);
	if (on)
		s->cb(s, s->ctx.info, k, paths, flags, ids);
	return on;
}

const char *verif_bad(void) { return bad; }

/* Streams are forgotten, memory is not reused: a late use shows. */
void verif_reset(void) {
	pthread_mutex_lock(&mu);
	for (int i = 0; i < n; i++)
		free(all[i]);
	n = failcreate = failstart = failed = 0;
	bad[0] = 0;
	pthread_mutex_unlock(&mu);
}
