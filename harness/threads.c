// Deterministic scheduler for the threads of the code under test (second driver, mdrv_t).
//
// The library is compiled with -fsanitize=thread but linked without its runtime: the
// callbacks below are called at every memory access and atomic operation, the pthread
// calls are interposed at link time. One thread runs at a time; at every such point a
// seeded choice decides whether another one continues. Locks and condition variables
// are emulated, so a state where nobody can continue is seen at once.
//
// Memory handed out by malloc is never given out twice: an access to released memory is
// seen and reported.
//
// Strategies 2 and 3 choose nothing: a thread runs until it cannot, except where the script says. Strategy 3
// also tells how many points each thread has, and which memory is used by several threads without a common lock.
//
//   threads <seed> <strategy> <p_sync permille> <p_mem: one in n accesses, 0 never> <spurious permille>
//   T <n> w <count> {flags id k token size}...   write
//   T <n> s [id k]                              scan
//   T <n> q <statement>
//   T <n> svc <count>
//   X <n> <k> <m>                               strategy 2: thread n gives way to thread m (-1: a worker) at its k-th point
//   A <address>...                              accesses to these are points as well
//   end
//   drain                                       wait until nobody else can continue
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <inttypes.h>
#include <errno.h>
#include <semaphore.h>
#include <pthread.h>
#include <unistd.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <monotone.h>
#include "wrap.h"
#include "drv.h"

#ifndef MDRV_THREADS
void run_threads(char *arg) { (void)arg; }
void run_drain(void) { }
int  hist_pos;
#else
#define real(f) __real_##f
int real(pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int real(pthread_join)(pthread_t, void **);
int real(munmap)(void *, size_t);
void *real(malloc)(size_t);
void real(free)(void *);
void *real(realloc)(void *, size_t);

// ---- scheduler -------------------------------------------------------------
enum { READY, W_MUTEX, W_RD, W_WR, W_COND, W_JOIN, W_IDLE, DONE };
static const char *wnames[] = { "ready", "mutex", "rdlock", "wrlock", "cond", "join", "idle", "done" };
#define MAX_T 64
static struct thr {
	sem_t sem; int state; void *obj; int timed; int target;
	pthread_t id; void *(*fn)(void *); void *arg; void *ret; uint64_t prio; int client; char what[64];
	uint64_t own; void *held[32]; int hexcl[32], nheld; uint64_t hmask[2];
} thr[MAX_T];
static int nthr, cur;
static __thread int me = -1;
static int sched_ready;
static int strategy, p_sync, p_mem, p_spur, p_op;
static int64_t mem_left = INT64_MAX;
static uint64_t steps, step_budget = 60000000, spin_left;
static uint64_t srng = 88172645463325252ull;
static uint64_t rnd(void) { srng ^= srng << 13; srng ^= srng >> 7; srng ^= srng << 17; return srng >> 7; }
static uint64_t change[16]; static int nchange; static uint64_t low_prio = 1000;
int hist_pos;
static struct { int t, to; uint64_t k; } sw[16]; static int nsw;

// locks, by address
#define OBJS 65536
static struct obj { void *a; int owner, readers, kind; } objs[OBJS];
static struct obj *obj(void *a)
{
	uint64_t h = ((uintptr_t)a >> 3) * 11400714819323198485ull >> 48;
	for (;; h = (h + 1) % OBJS) {
		if (objs[h].a == a) return &objs[h];
		if (!objs[h].a) { objs[h].a = a; objs[h].owner = -1; return &objs[h]; }
	}
}

static uint64_t lbit(void *l) { return 1ull << (((uintptr_t)l >> 3) * 11400714819323198485ull >> 58); }
static void held_set(void)
{
	struct thr *t = &thr[me];
	t->hmask[0] = t->hmask[1] = 0;
	for (int i = 0; i < t->nheld; i++) {
		t->hmask[0] |= lbit(t->held[i]);
		if (t->hexcl[i]) t->hmask[1] |= lbit(t->held[i]);
	}
}
static void held_add(void *l, int excl)
{
	struct thr *t = &thr[me];
	if (t->nheld < 32) { t->hexcl[t->nheld] = excl; t->held[t->nheld++] = l; }
	held_set();
}
static void held_del(void *l)
{
	struct thr *t = &thr[me];
	for (int i = t->nheld - 1; i >= 0; i--) if (t->held[i] == l) { t->nheld--; t->held[i] = t->held[t->nheld]; t->hexcl[i] = t->hexcl[t->nheld]; break; }
	held_set();
}

static int enabled(int i)
{
	struct thr *t = &thr[i];
	switch (t->state) {
	case READY:   return 1;
	case W_MUTEX: return obj(t->obj)->owner < 0;
	case W_RD:    {
		struct obj *o = obj(t->obj);
		if (o->owner >= 0) return 0;
		if (o->kind) for (int j = 0; j < nthr; j++) if (thr[j].state == W_WR && thr[j].obj == t->obj) return 0;
		return 1; }
	case W_WR:    { struct obj *o = obj(t->obj); return o->owner < 0 && o->readers == 0; }
	case W_JOIN:  return thr[t->target].state == DONE;
	default:      return 0;
	}
}

static void emit_stuck(const char *what)
{
	fprintf(out, "{\"h\":\"%s\",\"w\":[", what);
	for (int i = 0; i < nthr; i++)
		fprintf(out, "%s[%d,\"%s\",\"%s\"]", i ? "," : "", i, wnames[thr[i].state], thr[i].what);
	fprintf(out, "]}\n");
	fflush(out);
	_exit(6);
}

static int pick(void)
{
	int n = 0, c[MAX_T];
	for (int i = 0; i < nthr; i++) if (enabled(i)) c[n++] = i;
	if (n == 0) {
		for (int i = 0; i < nthr; i++) if (thr[i].state == W_IDLE) return i;
		// a timed wait ends when nothing else can happen
		for (int i = 0; i < nthr; i++) if (thr[i].state == W_COND && thr[i].timed) { thr[i].state = READY; thr[i].timed = 2; return pick(); }
		emit_stuck("dead");
	}
	if (strategy >= 2) {
		// the first client that can, then the others
		for (int i = 0; i < n; i++) if (thr[c[i]].client >= 0) return c[i];
		return c[0];
	}
	if (strategy == 1) {
		int b = c[0];
		for (int i = 1; i < n; i++) if (thr[c[i]].prio > thr[b].prio) b = c[i];
		return b;
	}
	return c[rnd() % n];
}

static void go(int next)
{
	int prev = cur;
	if (next == prev) return;
	cur = next;
	sem_post(&thr[next].sem);
	if (thr[prev].state == DONE) return;
	while (sem_wait(&thr[prev].sem) && errno == EINTR);
}

static void mem_reset(void) { mem_left = p_mem ? 1 + (int64_t)(rnd() % (2 * (uint64_t)p_mem)) : INT64_MAX; }

static void lower(void) { thr[cur].prio = --low_prio; }

static void wait_for(int state, void *o)
{
	thr[me].state = state; thr[me].obj = o;
	for (;;) {
		int n = pick();
		if (n == me) break;
		go(n);
		if (thr[me].state == READY || state == W_IDLE || enabled(me)) break;
	}
	thr[me].state = READY;
}

// somebody else, in turn
static void next_one(void)
{
	for (int d = 1; d < nthr; d++) { int i = (me + d) % nthr; if (enabled(i)) { go(i); return; } }
}
static void own_point(void)
{
	struct thr *t = &thr[me];
	t->own++;
	if (t->client >= 0)
		for (int i = 0; i < nsw; i++)
			if (sw[i].t == t->client && sw[i].k == t->own) {
				int k = -1;
				for (int j = 0; j < nthr; j++) if (thr[j].client == sw[i].to && thr[j].state != DONE) k = j;
				if (sw[i].to < 0)
					for (int j = 1; j < nthr; j++) if (thr[j].client < 0 && thr[j].state != DONE && enabled(j)) k = j;
				if (k >= 0 && enabled(k)) go(k);
				return;
			}
	if (--spin_left == 0) { spin_left = 20000; next_one(); }
}
// a point where another thread may continue
static void point(int permille)
{
	if (!sched_ready || me != cur || nthr < 2) return;
	steps++;
	if (steps > step_budget) emit_stuck("steps");
	if (p_spur && permille && rnd() % 100000 < (uint64_t)p_spur) {
		// a wait may return without a reason
		int i = rnd() % nthr;
		if (thr[i].state == W_COND) thr[i].state = READY;
	}
	if (strategy >= 2) { own_point(); return; }
	if (strategy == 1) {
		for (int i = 0; i < nchange; i++) if (change[i] == steps) lower();
		if (--spin_left == 0) { spin_left = 20000; lower(); }
		go(pick());
		return;
	}
	if (permille && rnd() % 1000 < (uint64_t)permille) go(pick());
}

// after a release: a switch before the next acquisition shows the same
static void point_after(int permille) { if (strategy < 2) point(permille); }

void __wrap_point_op(int kind) { (void)kind; point(p_op); }

static void *trampoline(void *a)
{
	me = (int)(intptr_t)a;
	while (sem_wait(&thr[me].sem) && errno == EINTR);
	thr[me].ret = thr[me].fn(thr[me].arg);
	thr[me].state = DONE;
	go(pick());
	return thr[me].ret;
}

static int spawn(pthread_t *id, const pthread_attr_t *at, void *(*fn)(void *), void *arg)
{
	if (nthr == MAX_T) return EAGAIN;
	int i = nthr++;
	memset(&thr[i], 0, sizeof thr[i]);
	sem_init(&thr[i].sem, 0, 0);
	thr[i].client = -1;
	thr[i].fn = fn; thr[i].arg = arg; thr[i].prio = 100000 + rnd() % 100000;
	int rc = real(pthread_create)(&thr[i].id, at, trampoline, (void *)(intptr_t)i);
	if (rc) { nthr--; return rc; }
	*id = thr[i].id;
	return 0;
}

int __wrap_pthread_create(pthread_t *id, const pthread_attr_t *at, void *(*fn)(void *), void *arg)
{
	int rc = spawn(id, at, fn, arg);
	point(p_sync);
	return rc;
}
int __wrap_pthread_join(pthread_t id, void **ret)
{
	for (int i = nthr - 1; i > 0; i--)
		if (pthread_equal(thr[i].id, id) && thr[i].target != -2) {
			if (thr[i].state != DONE) {
				thr[me].target = i;
				wait_for(W_JOIN, NULL);
				thr[me].target = 0;
			}
			int rc = real(pthread_join)(id, ret);
			thr[i].target = -2;
			while (nthr > 1 && thr[nthr - 1].target == -2) nthr--;
			return rc;
		}
	return ESRCH;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
	if (me < 0) return 0;
	point(p_sync);
	struct obj *o = obj(m);
	if (o->owner >= 0) wait_for(W_MUTEX, m);
	o->owner = me; held_add(m, 1);
	return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m)
{
	point(p_sync);
	struct obj *o = obj(m);
	if (o->owner >= 0) return EBUSY;
	o->owner = me; held_add(m, 1);
	return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
	if (me < 0) return 0;
	struct obj *o = obj(m);
	if (o->owner != me) emit_stuck("unlock");
	o->owner = -1; held_del(m);
	point_after(p_sync);
	return 0;
}
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, int timed)
{
	struct obj *o = obj(m);
	if (o->owner != me) emit_stuck("unlock");
	o->owner = -1;
	struct thr *t = &thr[me];
	t->state = W_COND; t->obj = c; t->timed = timed;
	// woken up: the state is W_MUTEX, on the mutex
	while (t->state == W_COND) {
		int n = pick();
		if (n != me) go(n);
	}
	if (obj(m)->owner >= 0) wait_for(W_MUTEX, m);
	t->state = READY;
	obj(m)->owner = me;
	int rc = t->timed == 2 ? ETIMEDOUT : 0;
	t->timed = 0;
	return rc;
}
static void wake(int i) { thr[i].state = READY; }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { point(p_sync); return cond_wait(c, m, 0); }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { (void)ts; point(p_sync); return cond_wait(c, m, 1); }
int __wrap_pthread_cond_signal(pthread_cond_t *c)
{
	point(p_sync);
	int n = 0, w[MAX_T];
	for (int i = 0; i < nthr; i++) if (thr[i].state == W_COND && thr[i].obj == c) w[n++] = i;
	if (n) wake(w[rnd() % n]);
	point_after(p_sync);
	return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c)
{
	point(p_sync);
	for (int i = 0; i < nthr; i++) if (thr[i].state == W_COND && thr[i].obj == c) wake(i);
	point_after(p_sync);
	return 0;
}
int __real_pthread_rwlock_init(pthread_rwlock_t *, const pthread_rwlockattr_t *);
int __wrap_pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *a)
{
	int k = 0;
	if (a) pthread_rwlockattr_getkind_np(a, &k);
	obj(l)->kind = k == PTHREAD_RWLOCK_PREFER_WRITER_NONRECURSIVE_NP;
	return __real_pthread_rwlock_init(l, a);
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *l)
{
	point(p_sync);
	thr[me].state = W_RD; thr[me].obj = l;
	int e = enabled(me);
	thr[me].state = READY;
	if (!e) wait_for(W_RD, l);
	obj(l)->readers++; held_add(l, 0);
	return 0;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *l)
{
	point(p_sync);
	struct obj *o = obj(l);
	if (o->owner >= 0 || o->readers) wait_for(W_WR, l);
	o->owner = me; held_add(l, 1);
	return 0;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *l)
{
	struct obj *o = obj(l);
	if (o->owner == me) o->owner = -1;
	else if (o->readers > 0) o->readers--;
	else emit_stuck("unlock");
	held_del(l);
	point_after(p_sync);
	return 0;
}
int __wrap_pthread_spin_lock(pthread_spinlock_t *l) { return __wrap_pthread_mutex_lock((void *)l); }
int __wrap_pthread_spin_trylock(pthread_spinlock_t *l) { return __wrap_pthread_mutex_trylock((void *)l); }
int __wrap_pthread_spin_unlock(pthread_spinlock_t *l) { return __wrap_pthread_mutex_unlock((void *)l); }
static void yield_now(void)
{
	if (strategy == 1) lower();
	if (strategy >= 2 && sched_ready && me == cur) { steps += 10; if (steps > step_budget) emit_stuck("steps"); next_one(); return; }
	if (sched_ready && me == cur) { steps += 10; if (steps > step_budget) emit_stuck("steps"); go(pick()); }
}
int __wrap_usleep(useconds_t u) { (void)u; yield_now(); return 0; }
int __wrap_sched_yield(void) { yield_now(); return 0; }
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { (void)a; (void)b; yield_now(); return 0; }

static void in_child(void)
{
	// only the calling thread exists
	if (me > 0) { thr[0] = thr[me]; sem_init(&thr[0].sem, 0, 0); me = 0; }
	cur = 0; nthr = 1; strategy = 0; p_mem = 0; mem_left = INT64_MAX; p_spur = 0;
}

// ---- memory ----------------------------------------------------------------
#define ARENA (16ull << 30)
static uint8_t *arena, *shadow;
static uint64_t used;
static void uaf(const void *p, const char *what)
{
	static int once;
	if (once++) return;
	fprintf(out, "{\"h\":\"freed\",\"what\":\"%s\",\"t\":%d}\n", what, me);
	fflush(out);
	if (getenv("MDRV_ABORT")) abort();
	(void)p;
	_exit(6);
}
static inline int is_freed(uint64_t off) { return shadow[off >> 7] >> (off >> 4 & 7) & 1; }
static inline void check(const void *p)
{
	uint64_t off = (uint64_t)((const uint8_t *)p - arena);
	if (off < used && is_freed(off)) uaf(p, "access");
}
void *__wrap_malloc(size_t n)
{
	if (!arena) return real(malloc)(n);
	uint64_t sz = (n + 16 + 15) & ~15ull;
	if (used + sz > ARENA) abort();
	uint8_t *p = arena + used;
	used += sz;
	*(uint64_t *)p = n;
	return p + 16;
}
void __wrap_free(void *v)
{
	uint8_t *p = v;
	if (!p) return;
	if (!arena || (uint64_t)(p - arena) >= used) { real(free)(v); return; }
	uint64_t off = p - arena;
	if (is_freed(off)) { uaf(p, "free"); return; }
	uint64_t n = *(uint64_t *)(p - 16), e = off + ((n + 15) & ~15ull);
	for (uint64_t o = off; o < (e > off ? e : off + 16); o += 16) shadow[o >> 7] |= 1 << (o >> 4 & 7);
	if (n == 0) shadow[off >> 7] &= ~(1 << (off >> 4 & 7));
	if (n > 65536) {
		uint64_t a = ((uintptr_t)p + 4095) & ~4095ull, b = ((uintptr_t)p + n) & ~4095ull;
		if (b > a) madvise((void *)a, b - a, MADV_DONTNEED);
	} else memset(p, 0xdd, n);
}
void *__wrap_calloc(size_t a, size_t b)
{
	void *p = __wrap_malloc(a * b);
	memset(p, 0, a * b);
	return p;
}
void *__wrap_realloc(void *v, size_t n)
{
	uint8_t *p = v;
	if (!p) return __wrap_malloc(n);
	if (!arena || (uint64_t)(p - arena) >= used) return real(realloc)(v, n);
	if (is_freed(p - arena)) { uaf(p, "realloc"); return NULL; }
	uint64_t o = *(uint64_t *)(p - 16);
	void *q = __wrap_malloc(n);
	memcpy(q, p, o < n ? o : n);
	__wrap_free(p);
	return q;
}
char *__wrap_strdup(const char *s)
{
	size_t n = strlen(s) + 1;
	return memcpy(__wrap_malloc(n), s, n);
}
int __wrap_munmap(void *p, size_t n)
{
	// never given out again
	madvise(p, n, MADV_DONTNEED);
	return mprotect(p, n, PROT_NONE);
}

__attribute__((constructor)) static void threads_setup(void)
{
	// the same addresses every time
	int p = personality(0xffffffff);
	if (p >= 0 && !(p & ADDR_NO_RANDOMIZE) && !getenv("MDRV_PERS") && personality(p | ADDR_NO_RANDOMIZE) >= 0) {
		setenv("MDRV_PERS", "1", 1);
		FILE *f = fopen("/proc/self/cmdline", "r");
		char *a[4096]; int n = 0; char *b = NULL; size_t cap = 0;
		while (f && n < 4095 && getdelim(&b, &cap, 0, f) > 0) { a[n++] = b; b = NULL; cap = 0; }
		a[n] = NULL;
		if (f) fclose(f);
		if (n) execv("/proc/self/exe", a);
	}
	arena = mmap(NULL, ARENA, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	shadow = mmap(NULL, ARENA / 128, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	if (arena == MAP_FAILED || shadow == MAP_FAILED) { arena = NULL; abort(); }
	me = 0; nthr = 1; cur = 0;
	sem_init(&thr[0].sem, 0, 0);
	thr[0].id = pthread_self();
	thr[0].client = -1;
	sched_ready = 1;
	strategy = 0; p_sync = 100; p_op = 100;
	spin_left = 20000;
	pthread_atfork(NULL, NULL, in_child);
}

// ---- instrumentation callbacks ----------------------------------------------
// memory used by the clients, in words
#define WORDS (1 << 21)
static struct word { uintptr_t a; uint64_t locks; uint8_t rd, wr; uint32_t n[4]; } *words;
static struct word *word(uintptr_t a, int add)
{
	uint64_t h = (a * 11400714819323198485ull) >> 43;
	for (;; h = (h + 1) % WORDS) {
		if (words[h].a == a) return &words[h];
		if (!words[h].a) { if (!add) return NULL; words[h].a = a; words[h].locks = ~0ull; return &words[h]; }
	}
}
static uintptr_t shared[4096 * 4]; static int nshared;
static void shared_add(uintptr_t a)
{
	if (nshared > 4096) return;
	uint64_t h = (a * 11400714819323198485ull) >> 50;
	while (shared[h] && shared[h] != a) h = (h + 1) % 16384;
	if (!shared[h]) nshared++;
	shared[h] = a;
}
static inline int is_shared(uintptr_t a)
{
	uint64_t h = (a * 11400714819323198485ull) >> 50;
	while (shared[h]) { if (shared[h] == a) return 1; h = (h + 1) % 16384; }
	return 0;
}
static void mem_own(const void *p, int wr)
{
	if (!sched_ready || me != cur) return;
	struct thr *t = &thr[me];
	if (t->client < 0 || t->client > 3) return;
	uintptr_t a = (uintptr_t)p >> 3;
	if (strategy == 3) {
		struct word *w = word(a, 1);
		w->locks &= t->hmask[wr];
		if (wr) w->wr |= 1 << t->client; else w->rd |= 1 << t->client;
		w->n[t->client]++;
	}
	if (nshared && is_shared(a)) { if (++steps > step_budget) emit_stuck("steps"); own_point(); }
}
static inline void mem(const void *p, int wr)
{
	check(p);
	if (strategy >= 2) { mem_own(p, wr); return; }
	if (--mem_left > 0) return;
	mem_reset();
	if (!sched_ready || me != cur || nthr < 2) return;
	if (++steps > step_budget) emit_stuck("steps");
	if (strategy == 1) { if (--spin_left == 0) { spin_left = 20000; lower(); } for (int i = 0; i < nchange; i++) if (change[i] == steps) lower(); }
	go(pick());
}
#define ACC(n) void __tsan_read##n(void *p) { mem(p, 0); } void __tsan_write##n(void *p) { mem(p, 1); } \
	void __tsan_unaligned_read##n(void *p) { mem(p, 0); } void __tsan_unaligned_write##n(void *p) { mem(p, 1); } \
	void __tsan_volatile_read##n(void *p) { mem(p, 0); } void __tsan_volatile_write##n(void *p) { mem(p, 1); } \
	void __tsan_unaligned_volatile_read##n(void *p) { mem(p, 0); } void __tsan_unaligned_volatile_write##n(void *p) { mem(p, 1); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *p, unsigned long n) { mem(p, 0); if (n) check((char *)p + n - 1); }
void __tsan_write_range(void *p, unsigned long n) { mem(p, 1); if (n) check((char *)p + n - 1); }
void __tsan_vptr_update(void **p, void *v) { (void)p; (void)v; }
void __tsan_vptr_read(void **p) { (void)p; }
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) { }
void __tsan_init(void) { }
#define AT(n, T) \
	T __tsan_atomic##n##_load(const volatile T *a, int o) { (void)o; check((void *)a); point(p_sync); return *a; } \
	void __tsan_atomic##n##_store(volatile T *a, T v, int o) { (void)o; check((void *)a); point(p_sync); *a = v; } \
	T __tsan_atomic##n##_exchange(volatile T *a, T v, int o) { (void)o; check((void *)a); point(p_sync); T x = *a; *a = v; return x; } \
	T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int o) { (void)o; check((void *)a); point(p_sync); T x = *a; *a = x + v; return x; } \
	T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int o) { (void)o; check((void *)a); point(p_sync); T x = *a; *a = x - v; return x; } \
	T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int o) { (void)o; check((void *)a); point(p_sync); T x = *a; *a = x & v; return x; } \
	T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int o) { (void)o; check((void *)a); point(p_sync); T x = *a; *a = x | v; return x; } \
	T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int o) { (void)o; check((void *)a); point(p_sync); T x = *a; *a = x ^ v; return x; } \
	T __tsan_atomic##n##_fetch_nand(volatile T *a, T v, int o) { (void)o; check((void *)a); point(p_sync); T x = *a; *a = ~(x & v); return x; } \
	int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int o, int f) { (void)o; (void)f; check((void *)a); point(p_sync); \
		if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
	int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int o, int f) { return __tsan_atomic##n##_compare_exchange_strong(a, c, v, o, f); } \
	T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T c, T v, int o, int f) { (void)o; (void)f; check((void *)a); point(p_sync); \
		T x = *a; if (x == c) *a = v; return x; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { (void)o; point(p_sync); }
void __tsan_atomic_signal_fence(int o) { (void)o; }

// ---- client threads ----------------------------------------------------------
#define MAX_OPS 256
static struct cl { char *ops[MAX_OPS]; int n[MAX_OPS]; int count; } cls[16];

static void do_op(int t, int n, char *s)
{
	char *buf = NULL; size_t len = 0;
	FILE *f = open_memstream(&buf, &len);
	char cmd[16]; int k = 0;
	sscanf(s, "%15s%n", cmd, &k);
	char *arg = s + k;
	while (*arg == ' ') arg++;
	snprintf(thr[me].what, sizeof thr[me].what, "%d", n);
	hist_pos++;
	fprintf(out, "{\"h\":\"i\",\"t\":%d,\"n\":%d}\n", t, n);
	int rc = 0;
	if (!strcmp(cmd, "w")) {
		int cnt = strtol(arg, &arg, 10);
		monotone_event_t *ev = calloc(cnt + 1, sizeof *ev);
		for (int i = 0; i < cnt; i++) {
			ev[i].flags = strtol(arg, &arg, 10);
			ev[i].id = strtoull(arg, &arg, 10);
			int key = strtol(arg, &arg, 10);
			uint32_t tok = strtoul(arg, &arg, 10), sz = strtoul(arg, &arg, 10);
			ev[i].key = keys[key].n ? keys[key].b : NULL; ev[i].key_size = keys[key].n;
			ev[i].value = sz ? val_make(tok, sz) : NULL; ev[i].value_size = sz;
		}
		rc = monotone_write(env, ev, cnt);
		if (rc) { fprintf(f, ",\"err\":"); jstr(f, monotone_error(env)); }
		fprintf(f, ",\"ids\":[");
		for (int i = 0; i < cnt; i++) fprintf(f, "%s%" PRIu64, i ? "," : "", ev[i].id);
		fprintf(f, "]");
		for (int i = 0; i < cnt; i++) free(ev[i].value);
		free(ev);
	} else if (!strcmp(cmd, "s")) {
		monotone_event_t key = { 0 };
		int from = *arg != 0;
		if (from) {
			key.id = strtoull(arg, &arg, 10);
			int k2 = strtol(arg, &arg, 10);
			key.key = keys[k2].b; key.key_size = keys[k2].n;
		}
		fprintf(f, ",\"ret\":");
		scan(f, env, from ? &key : NULL);
	} else if (!strcmp(cmd, "q")) {
		char *r = NULL;
		rc = monotone_execute(env, arg, &r);
		if (rc) { fprintf(f, ",\"err\":"); jstr(f, monotone_error(env)); }
		free(r);
	} else if (!strcmp(cmd, "svc")) {
		for (int i = atoi(arg); i > 0; i--) rc |= monotone_execute(env, "service", NULL);
	}
	fclose(f);
	hist_pos++;
	fprintf(out, "{\"h\":\"r\",\"t\":%d,\"n\":%d,\"ok\":%s%s}\n", t, n, rc == 0 ? "true" : "false", buf);
	fflush(out);
	real(free)(buf);
	snprintf(thr[me].what, sizeof thr[me].what, "-");
}

static void *client_main(void *a)
{
	int t = (int)(intptr_t)a;
	for (int i = 0; i < cls[t].count; i++) do_op(t, cls[t].n[i], cls[t].ops[i]);
	return NULL;
}

void run_threads(char *arg)
{
	unsigned seed = 1; int st = 0, ps = 100, pm = 0, sp = 0, po = -1; unsigned long horizon = 20000;
	sscanf(arg, "%u %d %d %d %d %d %lu", &seed, &st, &ps, &pm, &sp, &po, &horizon);
	memset(cls, 0, sizeof cls);
	nsw = 0; nshared = 0; memset(shared, 0, sizeof shared);
	char *s = NULL; size_t cap = 0; ssize_t n;
	int k = 0, nt = 0;
	while ((n = getline(&s, &cap, script_file)) > 0) {
		while (n && (s[n-1] == '\n' || s[n-1] == '\r')) s[--n] = 0;
		if (!strcmp(s, "end")) break;
		int t, p = 0;
		if (*s == 'X') {
			unsigned long long kk;
			if (nsw == 16 || sscanf(s, "X %d %llu %d", &sw[nsw].t, &kk, &sw[nsw].to) != 3) abort();
			sw[nsw++].k = kk;
			continue;
		}
		if (*s == 'A') {
			for (char *q = s + 1, *e; ; q = e) { uintptr_t a = strtoul(q, &e, 16); if (e == q) break; shared_add(a); }
			continue;
		}
		if (sscanf(s, "T %d %n", &t, &p) < 1 || t < 0 || t > 15 || cls[t].count == MAX_OPS) abort();
		if (t >= nt) nt = t + 1;
		cls[t].n[cls[t].count] = k++;
		cls[t].ops[cls[t].count++] = strdup(s + p);
	}
	real(free)(s);
	srng = seed * 2654435761u + 88172645463325252ull;
	for (int i = 0; i < 20; i++) rnd();
	if (st == 3) {
		words = mmap(NULL, WORDS * sizeof *words, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
		if (words == MAP_FAILED) abort();
	}
	strategy = st; p_sync = ps; p_op = po >= 0 ? po : ps; p_mem = pm; p_spur = sp;
	steps = 0; spin_left = 20000; low_prio = 1000; step_budget = st >= 2 ? 3000000 : 60000000;
	for (int i = 0; i < nthr; i++) thr[i].prio = 100000 + rnd() % 100000;
	nchange = 0;
	if (st == 1) for (nchange = 0; nchange < 2 + (int)(rnd() % 10); nchange++) change[nchange] = 1 + rnd() % horizon;
	mem_reset();
	pthread_t id[16];
	for (int t = 0; t < nt; t++) {
		if (spawn(&id[t], NULL, client_main, (void *)(intptr_t)t)) abort();
		thr[nthr - 1].client = t;
	}
	int first = nthr - nt;
	uint64_t own[16] = { 0 };
	for (int t = 0; t < nt; t++) __wrap_pthread_join(id[t], NULL);
	for (int t = 0; t < nt; t++) own[t] = thr[first + t].own;
	strategy = 0; p_sync = 50; p_op = 50; p_mem = 0; mem_left = INT64_MAX; p_spur = 0;
	fprintf(out, "{\"line\":%d,\"ok\":true,\"steps\":%" PRIu64 ",\"obs\":{},\"own\":[", line_no, steps);
	for (int t = 0; t < nt; t++) fprintf(out, "%s%" PRIu64, t ? "," : "", own[t]);
	fprintf(out, "]");
	if (st == 3) {
		fprintf(out, ",\"shared\":[");
		for (int i = 0, k = 0; i < WORDS; i++) {
			struct word *w = &words[i];
			int m = w->rd | w->wr;
			if (w->a && (m & (m - 1)) && w->wr && !w->locks) fprintf(out, "%s[\"%lx\",%u,%u]", k++ ? "," : "", (unsigned long)w->a, w->n[0], w->n[1]);
		}
		fprintf(out, "]");
		real(munmap)(words, WORDS * sizeof *words);
	}
	fprintf(out, "}\n");
}

void run_drain(void)
{
	steps = 0;
	wait_for(W_IDLE, NULL);
}
#endif
