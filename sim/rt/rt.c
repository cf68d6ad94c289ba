/* The simulator's thread runtime.
 *
 * The whole program (binate, its dependencies and the harness) is compiled with rustc's thread
 * sanitizer instrumentation, but linked against this file instead of the sanitizer's runtime: each
 * atomic operation and each memory access of the code under test calls in here, and that is where
 * the simulator decides which thread goes on. Simulated threads are real threads, of which exactly
 * one runs at any time (it holds the token); who gets the token next is drawn from the run's choice
 * sequence. Blocking (futex), sleeping, clocks and randomness are taken over as well, so that time
 * is simulated and jumps to the next deadline when no thread can run.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/random.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef unsigned __int128 u128;

#define MAXT 32
#define FAIR 4000 /* run length that stands for "until it blocks"; then another thread gets a turn */
enum { FREE, READY, BLOCKED, DONE };
enum { SPIN = 2000 };
enum { FATAL_DEADLOCK = 1, FATAL_NO_PROGRESS = 2 };

typedef struct {
	int st;
	u32 go;            /* real futex word: 1 = holds the token */
	const void *addr;  /* what it waits for */
	u32 bits;
	u64 deadline;      /* 0: none */
	int timedout;
	int joining;
} thr;

static struct {
	thr t[MAXT];
	int n, cur, nready;
	u64 now, steps, cap;
	int64_t budget;
	int fair;          /* the current budget is the fairness limit */
	int plain;         /* plain memory accesses are scheduling points too */
	u32 maxlen;
	u32 ctl;           /* real futex word for the controller */
	u64 rnd;
	u64 switches, preempts, jumps;
	u64 raw, rawcap;   /* memory accesses of the code under test: bounds loops without atomics */
	int64_t wall;      /* how far the wall clock has been stepped */
	u64 over;          /* the next jump of the clock overshoots by this much */
	u64 read_at, reads;/* when the clock was last read, and how often since
			   * then, or since the code under test last called for something */
	u64 spun;          /* by how much the clock has moved because it was read that often */
	int child_act;
	pthread_t pt[MAXT];
} G;

static __thread thr *me;
static __thread int gone; /* this thread's simulated life is over */
static __thread int act; /* >0: this thread runs code under test */

extern u32 bsim_choose(u32 n);
extern void bsim_switched(u32 from, u32 to, u64 step);
extern void bsim_fatal(int kind);

static long raw(long n, long a, long b, long c, long d, long e, long f)
{
	long r;
	register long r10 __asm__("r10") = d;
	register long r8 __asm__("r8") = e;
	register long r9 __asm__("r9") = f;
	__asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
			 : "rcx", "r11", "memory");
	return r;
}
static long ret(long r)
{
	if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
	return r;
}
static void rwait(u32 *w, u32 v)
{
	/* Handing the token over takes a microsecond or so: spin a little before sleeping. */
	while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == v)
		raw(SYS_futex, (long)w, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, v, 0, 0, 0);
}
static void rwake(u32 *w)
{
	raw(SYS_futex, (long)w, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}

/* ---- scheduling --------------------------------------------------------------------------- */

static int idx(thr *t) { return (int)(t - G.t); }

static void new_budget(void)
{
	u32 len = G.maxlen ? bsim_choose(G.maxlen + 1) : 0;
	G.fair = len == 0;
	G.budget = len ? len : FAIR;
}

static void hand_over(thr *to)
{
	thr *from = me;
	if (to == from) return;
	G.switches++;
	bsim_switched((u32)idx(from), (u32)idx(to), G.steps);
	G.cur = idx(to);
	__atomic_store_n(&from->go, 0, __ATOMIC_RELAXED);
	__atomic_store_n(&to->go, 1, __ATOMIC_RELEASE);
	rwake(&to->go);
	if (from->st == DONE) return;
	rwait(&from->go, 0);
}

static int expire(void)
{
	u64 min = 0;
	int found = 0;
	for (int i = 0; i < G.n; i++)
		if (G.t[i].st == BLOCKED && G.t[i].deadline && (!found || G.t[i].deadline < min)) {
			min = G.t[i].deadline;
			found = 1;
		}
	if (!found) return 0;
	if (min > G.now) { G.now = min; G.jumps++; }
	if (G.over) { G.now += G.over; G.over = 0; }
	for (int i = 0; i < G.n; i++)
		if (G.t[i].st == BLOCKED && G.t[i].deadline && G.t[i].deadline <= G.now) {
			G.t[i].st = READY;
			G.t[i].timedout = 1;
			G.t[i].addr = 0;
			G.t[i].deadline = 0;
		}
	return 1;
}

/* Gives the token to another thread: chosen among the others that can run. 0 = next in turn. */
static thr *other(void)
{
	int c[MAXT], k = 0, s = idx(me);
	for (int j = 1; j < G.n; j++) {
		int i = (s + j) % G.n;
		if (G.t[i].st == READY) c[k++] = i;
	}
	if (!k) return 0;
	return &G.t[c[k > 1 ? bsim_choose((u32)k) : 0]];
}

static void leave(void) /* me cannot go on */
{
	int a = act;
	act = 0;
	for (;;) {
		thr *t = other();
		if (t) { new_budget(); hand_over(t); break; }
		if (me->st == READY) { new_budget(); break; }
		if (!expire()) {
			if (me->st == DONE) {
				int blocked = 0;
				for (int i = 0; i < G.n; i++) blocked |= G.t[i].st == BLOCKED;
				if (!blocked) {
					__atomic_store_n(&G.ctl, 1, __ATOMIC_RELEASE);
					rwake(&G.ctl);
					break;
				}
			}
			bsim_fatal(FATAL_DEADLOCK);
		}
		if (me->st == READY) {
			/* me may have expired together with others: choose among all of them */
			int k = 0;
			for (int i = 0; i < G.n; i++) k += G.t[i].st == READY;
			if (k == 1 || bsim_choose(2) == 0) { new_budget(); break; }
		}
	}
	act = a;
}

static void decide(void)
{
	int a = act, k = 0;
	act = 0;
	for (int i = 0; i < G.n; i++) k += G.t[i].st == READY;
	if (k < 2) {
		G.budget = 1 << 20; /* nobody else: look again when somebody wakes up */
		G.fair = 0;
	} else {
		thr *t = me;
		if (G.fair || bsim_choose(3)) t = other();
		new_budget();
		if (t != me) { G.preempts++; hand_over(t); }
	}
	act = a;
}

static void step(void)
{
	if (++G.steps > G.cap) { act = 0; bsim_fatal(FATAL_NO_PROGRESS); }
	if (--G.budget <= 0) decide();
}
static inline void yp_atomic(void) { if (__builtin_expect(act > 0, 0)) step(); }
static void plain(void)
{
	if (++G.raw > G.rawcap) { act = 0; bsim_fatal(FATAL_NO_PROGRESS); }
	if (G.plain) step();
}
static inline void yp_plain(void) { if (__builtin_expect(act > 0, 0)) plain(); }

static void made_ready(thr *t)
{
	t->st = READY;
	t->addr = 0;
	t->deadline = 0;
	t->timedout = 0;
	if (G.budget > 64) new_budget();
}

static int block(const void *addr, u32 bits, u64 deadline) /* 1: timed out */
{
	me->st = BLOCKED;
	me->addr = addr;
	me->bits = bits;
	me->deadline = deadline;
	me->timedout = 0;
	leave();
	return me->timedout;
}

/* ---- interface to the harness ------------------------------------------------------------- */

void rt_begin(u64 seed, u64 cap)
{
	memset(&G, 0, sizeof G);
	G.rawcap = 400000000;
	G.rnd = seed * 2 + 1;
	G.cap = cap;
	G.budget = 1 << 20;
	G.now = 1000ull * 1000000000ull;
}
void rt_policy(u32 maxlen, int plain) { G.maxlen = maxlen; G.plain = plain; }
/* For runs that have much to do: more steps, but threads run until they block. */
void rt_long_run(u64 cap) { G.cap = cap; G.maxlen = 0; G.plain = 0; }
int rt_register(void)
{
	int s = G.n++;
	if (s >= MAXT) abort();
	memset(&G.t[s], 0, sizeof(thr));
	G.t[s].st = READY;
	if (me && G.budget > 64) new_budget();
	return s;
}
void rt_enter(int s)
{
	me = &G.t[s];
	rwait(&me->go, 0);
}
void rt_exit(void)
{
	act = 0;
	me->st = DONE;
	for (int i = 0; i < G.n; i++)
		if (G.t[i].st == BLOCKED && G.t[i].addr == me) made_ready(&G.t[i]);
	leave();
	me = 0;
}
void rt_run(int s) /* the controller: give the token to s and wait until all threads are done */
{
	__atomic_store_n(&G.t[s].go, 1, __ATOMIC_RELEASE);
	rwake(&G.t[s].go);
	rwait(&G.ctl, 0);
}
void rt_join(int s)
{
	while (G.t[s].st != DONE) block(&G.t[s], ~0u, 0);
}
void rt_sleep(u64 ns) { if (ns) block(&G.now, 0, G.now + ns); }
static void rt_advance(u64 ns) /* the clock moves on while threads run */
{
	G.now += ns;
	for (int i = 0; i < G.n; i++)
		if (G.t[i].st == BLOCKED && G.t[i].deadline && G.t[i].deadline <= G.now) {
			made_ready(&G.t[i]);
			G.t[i].timedout = 1;
		}
}
/* The next jump of the clock goes further than the next deadline: everything was late, e.g. because
 * the machine was suspended or overloaded. Happens only when no thread can run. */
void rt_overshoot(u64 ns) { G.over = ns; }
/* Somebody sets the wall clock; the monotonic clock does not care. */
void rt_wall(int64_t ns)
{
	G.wall += ns;
	if (G.wall < -1690000000ll * 1000000000ll) G.wall = -1690000000ll * 1000000000ll;
	if (G.wall > 1690000000ll * 1000000000ll) G.wall = 1690000000ll * 1000000000ll;
}
void rt_child_act(int v) { G.child_act = v; }
u64 rt_now(void) { return G.now; }
u64 rt_spun(void) { return G.spun; }
u64 rt_steps(void) { return G.steps; }
void rt_counts(u64 *o) { o[0] = G.switches; o[1] = G.preempts; o[2] = G.jumps; o[3] = G.steps; }
int rt_act(int v) { int o = act; act = v; if (!v) G.reads = 0; return o; }
int rt_self(void) { return me ? idx(me) : -1; }
void rt_yield(void) /* an explicit scheduling point of the harness */
{
	if (!me) return;
	int a = act;
	act = 1;
	step();
	act = a;
}
/* Runs are executed by forked children of one pristine process: each starts from the same state.
 * What a run reports - its choices, its result - goes to memory it shares with its parent. */
void *rt_shared(u64 len)
{
	void *p = mmap(0, len, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) abort();
	return p;
}
int rt_fork(void) { return (int)fork(); }
/* 0: still running; else (signal << 16 | code << 8 | 1), pid of the child in *pid (-1 on entry: any) */
int rt_wait(int *pid, int block)
{
	int st, r;
	do r = (int)waitpid(*pid, &st, block ? 0 : WNOHANG); while (r < 0 && errno == EINTR);
	if (r <= 0) return 0;
	*pid = r;
	if (WIFSIGNALED(st)) return WTERMSIG(st) << 16 | 1;
	return WEXITSTATUS(st) << 8 | 1;
}
void rt_limits(u64 bytes, u32 cpu_s, u32 wall_s)
{
	struct rlimit r = { bytes, bytes }, z = { 0, 0 }, c = { cpu_s, cpu_s + 20 };
	setrlimit(RLIMIT_AS, &r);
	setrlimit(RLIMIT_CORE, &z);
	setrlimit(RLIMIT_CPU, &c);
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	alarm(wall_s);
}
static u32 *rec; static u32 rec_cap;
u32 *rt_rec_open(u32 cap)
{
	rec = rt_shared(4 * ((u64)cap + 1));
	rec_cap = cap;
	return rec;
}
void rt_rec(u32 v) { if (rec && rec[0] < rec_cap) { rec[1 + rec[0]] = v; rec[0]++; } }

/* ---- what the operating system would do --------------------------------------------------- */

static u64 ts_ns(const struct timespec *t) { return (u64)t->tv_sec * 1000000000ull + (u64)t->tv_nsec; }

static long sim_futex(u32 *addr, int op, u32 val, const struct timespec *to, u32 bits)
{
	int cmd = op & FUTEX_CMD_MASK;
	if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
		if (cmd == FUTEX_WAIT) bits = ~0u;
		if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
		u64 dl = 0;
		if (to) {
			dl = ts_ns(to);
			if (cmd == FUTEX_WAIT) dl += G.now;
			if (dl == 0) dl = 1;
		}
		if (block(addr, bits, dl)) { errno = ETIMEDOUT; return -1; }
		return 0;
	}
	/* wake */
	if (cmd == FUTEX_WAKE) bits = ~0u;
	long n = 0;
	while (n < (long)(int)val) {
		thr *w[MAXT];
		u32 k = 0;
		for (int i = 0; i < G.n; i++)
			if (G.t[i].st == BLOCKED && G.t[i].addr == addr && (G.t[i].bits & bits)) w[k++] = &G.t[i];
		if (!k) break;
		int a = act;
		act = 0;
		made_ready(w[k > 1 ? bsim_choose(k) : 0]);
		act = a;
		n++;
	}
	return n;
}

long syscall(long n, ...)
{
	va_list ap;
	va_start(ap, n);
	long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long);
	long d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
	va_end(ap);
	if (me && n == SYS_futex) {
		int cmd = (int)b & FUTEX_CMD_MASK;
		if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET)
			return sim_futex((u32 *)a, (int)b, (u32)c, (const struct timespec *)d, (u32)f);
		if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
			long k = sim_futex((u32 *)a, (int)b, (u32)c, 0, (u32)f);
			return k ? k : ret(raw(n, a, b, c, d, e, f));
		}
	}
	if (me && n == SYS_getrandom) return getrandom((void *)a, (size_t)b, (unsigned)c);
	return ret(raw(n, a, b, c, d, e, f));
}

int clock_gettime(clockid_t id, struct timespec *ts)
{
	if (!me) return (int)ret(raw(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0));
	/* Code that waits by reading the clock again and again sees it move in the end. */
	if (G.read_at != G.now) { G.read_at = G.now; G.reads = 0; }
	if (++G.reads > (G.spun ? SPIN / 20 : SPIN)) { rt_advance(1); G.read_at = G.now; G.spun++; }
	u64 t = G.now;
	if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) t += 1700000000ull * 1000000000ull + (u64)G.wall;
	ts->tv_sec = (time_t)(t / 1000000000ull);
	ts->tv_nsec = (long)(t % 1000000000ull);
	return 0;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
	struct timespec ts;
	int r = clock_gettime(CLOCK_REALTIME, &ts);
	(void)tz;
	if (!r && tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
	return r;
}
time_t time(time_t *t)
{
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	if (t) *t = ts.tv_sec;
	return ts.tv_sec;
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec *rq, struct timespec *rm)
{
	if (!me) return (int)-raw(SYS_clock_nanosleep, id, flags, (long)rq, (long)rm, 0, 0);
	u64 t = ts_ns(rq);
	if (flags & TIMER_ABSTIME) t = t > G.now ? t - G.now : 0;
	if (t) rt_sleep(t);
	return 0;
}
int nanosleep(const struct timespec *rq, struct timespec *rm)
{
	if (!me) return (int)ret(raw(SYS_nanosleep, (long)rq, (long)rm, 0, 0, 0, 0));
	rt_sleep(ts_ns(rq));
	return 0;
}
int sched_yield(void)
{
	if (!me) return (int)ret(raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0));
	if (++G.steps > G.cap) { act = 0; bsim_fatal(FATAL_NO_PROGRESS); }
	leave();
	return 0;
}
ssize_t getrandom(void *buf, size_t len, unsigned flags)
{
	if (!me) return ret(raw(SYS_getrandom, (long)buf, (long)len, flags, 0, 0, 0));
	for (size_t i = 0; i < len; i++) {
		G.rnd ^= G.rnd << 13; G.rnd ^= G.rnd >> 7; G.rnd ^= G.rnd << 17;
		((u8 *)buf)[i] = (u8)(G.rnd >> 32);
	}
	return (ssize_t)len;
}

/* Threads that simulated threads start are simulated threads. */
struct start { void *(*f)(void *); void *arg; int slot, act; };
static void *tramp(void *p)
{
	struct start s = *(struct start *)p;
	free(p);
	rt_enter(s.slot);
	act = s.act;
	void *r = s.f(s.arg);
	rt_exit();
	gone = 1;
	return r;
}
int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void *), void *arg)
{
	static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
	if (!real) real = dlsym(RTLD_NEXT, "pthread_create");
	if (!me) return real(t, at, f, arg);
	int a = act;
	act = 0;
	struct start *s = malloc(sizeof *s);
	s->f = f; s->arg = arg; s->act = G.child_act; s->slot = rt_register();
	int r = real(t, at, tramp, s);
	if (r) abort();
	G.pt[s->slot] = *t;
	act = a;
	return r;
}
int pthread_join(pthread_t t, void **ret)
{
	static int (*real)(pthread_t, void **);
	if (!real) real = dlsym(RTLD_NEXT, "pthread_join");
	if (me)
		for (int i = 0; i < G.n; i++)
			if (G.pt[i] && pthread_equal(G.pt[i], t)) { rt_join(i); G.pt[i] = 0; break; }
	return real(t, ret);
}
int sched_getaffinity(pid_t pid, size_t n, cpu_set_t *set) /* the simulated machine has four cores */
{
	(void)pid;
	memset(set, 0, n);
	for (int i = 0; i < 4; i++) CPU_SET_S(i, n, set);
	return 0;
}

/* ---- the instrumentation's entry points --------------------------------------------------- */

void __tsan_init(void) {}
void __tsan_func_entry(void *pc) { (void)pc; }
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_vptr_read(void **p) { (void)p; yp_plain(); }
void __tsan_vptr_update(void **p, void *v) { (void)p; (void)v; yp_plain(); }
#define RW(n) \
	void __tsan_read##n(void *p) { (void)p; yp_plain(); } \
	void __tsan_write##n(void *p) { (void)p; yp_plain(); } \
	void __tsan_read_write##n(void *p) { (void)p; yp_plain(); } \
	void __tsan_volatile_read##n(void *p) { (void)p; yp_plain(); } \
	void __tsan_volatile_write##n(void *p) { (void)p; yp_plain(); } \
	void __tsan_unaligned_read##n(void *p) { (void)p; yp_plain(); } \
	void __tsan_unaligned_write##n(void *p) { (void)p; yp_plain(); } \
	void __tsan_unaligned_read_write##n(void *p) { (void)p; yp_plain(); } \
	void __tsan_unaligned_volatile_read##n(void *p) { (void)p; yp_plain(); } \
	void __tsan_unaligned_volatile_write##n(void *p) { (void)p; yp_plain(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { (void)p; (void)n; yp_plain(); }
void __tsan_write_range(void *p, unsigned long n) { (void)p; (void)n; yp_plain(); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { yp_plain(); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { yp_plain(); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { yp_plain(); return memset(d, c, n); }
void __tsan_atomic_thread_fence(int mo) { (void)mo; yp_atomic(); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

#define SC __ATOMIC_SEQ_CST
#define AT(B, T) \
	T __tsan_atomic##B##_load(const volatile T *p, int mo) { (void)mo; yp_atomic(); return __atomic_load_n(p, SC); } \
	void __tsan_atomic##B##_store(volatile T *p, T v, int mo) { (void)mo; yp_atomic(); __atomic_store_n(p, v, SC); } \
	T __tsan_atomic##B##_exchange(volatile T *p, T v, int mo) { (void)mo; yp_atomic(); return __atomic_exchange_n(p, v, SC); } \
	T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int mo) { (void)mo; yp_atomic(); return __atomic_fetch_add(p, v, SC); } \
	T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int mo) { (void)mo; yp_atomic(); return __atomic_fetch_sub(p, v, SC); } \
	T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int mo) { (void)mo; yp_atomic(); return __atomic_fetch_and(p, v, SC); } \
	T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int mo) { (void)mo; yp_atomic(); return __atomic_fetch_or(p, v, SC); } \
	T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int mo) { (void)mo; yp_atomic(); return __atomic_fetch_xor(p, v, SC); } \
	T __tsan_atomic##B##_fetch_nand(volatile T *p, T v, int mo) { (void)mo; yp_atomic(); return __atomic_fetch_nand(p, v, SC); } \
	int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *c, T v, int mo, int fmo) { (void)mo; (void)fmo; yp_atomic(); return __atomic_compare_exchange_n(p, c, v, 0, SC, SC); } \
	int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *c, T v, int mo, int fmo) { (void)mo; (void)fmo; yp_atomic(); return __atomic_compare_exchange_n(p, c, v, 0, SC, SC); } \
	T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T c, T v, int mo, int fmo) { (void)mo; (void)fmo; yp_atomic(); __atomic_compare_exchange_n(p, &c, v, 0, SC, SC); return c; }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)

// ---- a meter of the memory in use ------------------------------------------------------------
static long mem_live, mem_peak; static __thread int mem_off;
void mem_add(long n)
{
	if (mem_off) return;
	long v = __atomic_add_fetch(&mem_live, n, __ATOMIC_RELAXED);
	if (v > mem_peak) mem_peak = v;
}
long rt_mem_live(void) { return mem_live; }
long rt_mem_peak(void) { return mem_peak; }
void rt_mem_reset(void) { mem_peak = mem_live; }
int rt_mem_pause(int v) { int o = mem_off; mem_off = v; return o; }

/* ---- a heap with reproducible addresses --------------------------------------------------------
 * Addresses are inputs, too: code may order or hash things by them. So what a run allocates lies at
 * addresses that depend on nothing but the sequence of its allocations: in an area of its own, which
 * starts empty in every child. What the harness keeps for its traces, and what threads whose simulated
 * life is over release, is kept out of it. */
#define HEAP 0x200000000000ul
#define HEAP_END (HEAP + (1ul << 36))
#define CLASSES 200
static u64 heap_at, heap_top; /* heap_at == 0: not in use */
static struct blk { struct blk *next; } *heap_free[CLASSES];
static int heap_lock;
static void heap_in(void) { while (__atomic_exchange_n(&heap_lock, 1, __ATOMIC_ACQUIRE)) sched_yield(); }
static void heap_out(void) { __atomic_store_n(&heap_lock, 0, __ATOMIC_RELEASE); }
/* Classes: multiples of 16 up to 256, then four per doubling. */
static u64 heap_size(u64 n, int *c)
{
	if (n <= 256) { if (!n) n = 1; *c = (int)((n - 1) / 16); return (n + 15) & ~15ul; }
	int b = 63 - __builtin_clzl(n - 1); /* 2^b <= n-1 < 2^(b+1), b >= 8 */
	u64 q = 1ul << (b - 2), k = (n - 1) >> (b - 2); /* k in 4..7 */
	*c = 16 + (b - 8) * 4 + (int)(k - 4);
	return (k + 1) * q;
}
int heap_owns(void *p) { return (u64)p >= HEAP && (u64)p < HEAP_END; }
void rt_heap_start(void) { heap_at = heap_top = HEAP; }
/* NULL and *sys set: not the business of this heap. *fresh: the memory is zero already. */
void *heap_alloc(u64 n, u64 align, int *sys, int *fresh)
{
	*sys = 0; *fresh = 0;
	if (!heap_at || mem_off || gone) { *sys = 1; return 0; }
	if (align > 4096 || n > 1ul << 35) return 0;
	if (align > 16 && n < align) n = align;
	int c;
	u64 z = heap_size(n, &c);
	heap_in();
	if (align <= 16 && heap_free[c]) {
		struct blk *b = heap_free[c];
		heap_free[c] = b->next;
		heap_out();
		return b;
	}
	u64 a = (heap_at + align - 1) & ~(align - 1);
	if (a + z > heap_top) {
		u64 more = heap_top - HEAP;
		more = more < 1 << 20 ? 1 << 20 : more > 32 << 20 ? 32 << 20 : more;
		more = (more + z + 4095) & ~4095ul;
		if (heap_top + more > HEAP_END) { heap_out(); return 0; }
		void *m = mmap((void *)heap_top, more, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
		if (m != (void *)heap_top) { heap_out(); return 0; }
		heap_top += more;
	}
	heap_at = (a + z + 15) & ~15ul;
	heap_out();
	*fresh = 1;
	return (void *)a;
}
void heap_dealloc(void *p, u64 n, u64 align)
{
	if (gone) return;
	if (align > 16 && n < align) n = align;
	int c;
	u64 z = heap_size(n, &c);
	/* Large blocks are given back, and come back zeroed; they are few. */
	if (z >= 1 << 20) { u64 a = ((u64)p + 4095) & ~4095ul, e = ((u64)p + z) & ~4095ul; if (e > a) madvise((void *)a, e - a, MADV_DONTNEED); }
	heap_in();
	((struct blk *)p)->next = heap_free[c];
	heap_free[c] = p;
	heap_out();
}
/* Without address space randomisation; where that is refused, only the heap has fixed addresses. */
void rt_fixed_layout(void)
{
	if (getenv("BINATE_SIM_LAYOUT")) return;
	setenv("BINATE_SIM_LAYOUT", "1", 1);
	int p = personality(0xffffffff);
	if (p < 0 || p & ADDR_NO_RANDOMIZE || personality((unsigned)p | ADDR_NO_RANDOMIZE) < 0) return;
	static char buf[1 << 16], *argv[256];
	FILE *f = fopen("/proc/self/cmdline", "r");
	if (!f) return;
	u64 n = fread(buf, 1, sizeof buf - 1, f), at = 0;
	fclose(f);
	int c = 0;
	while (at < n && c < 255) { argv[c++] = buf + at; at += strlen(buf + at) + 1; }
	if (n < sizeof buf - 1 && c < 255) execv("/proc/self/exe", argv);
}
u64 heap_usable(u64 n, u64 align) { int c; if (align > 16 && n < align) n = align; return heap_size(n, &c); }
