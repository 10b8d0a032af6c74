/* Schedule explorer: runs the calls of a driver script on several threads, one
 * thread at a time, and decides at every shared access, lock operation and
 * descriptor system call whether another thread goes on.  The library's sources
 * are compiled with -fsanitize=thread, whose calls land here instead of in the
 * sanitizer's runtime.  It knows nothing about what results should be: it logs
 * calls and returns; accesses to released memory and blocked threads are logged
 * too.
 *
 * usage: conc SCRIPT EVENTS SEED ROUND1 ROUND2 KEEP [schedule]
 * Script: "I id file offset", then scenarios:
 *   "S name" / "M k op" set up / "T t k op" call of thread t / "F k op" afterwards
 * (k is the caller's index of the call).  Every distinct log is written once.
 */
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
static __thread int me;            /* 0: no scheduled thread */
#define CONC 1
#include "driver.c"
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>

#define MAXT 4
#define ABASE ((uintptr_t)0x100000000000ull)
#define ASIZE ((size_t)32 << 20)
#define AEND (ABASE + ASIZE * (MAXT + 1))
#define AGRAN ((size_t)(AEND - ABASE) / 8)
extern char __data_start, _end;
static uintptr_t gbase, gend; static size_t ggran, ngran;
static unsigned char *state;       /* per granule: 0 never used, 1 live, 2 released */
static unsigned char *acc;         /* shared: who read (low nibble) and wrote (high nibble) */
static unsigned char *lset;        /* shared: locks held at every access so far (inverted: 0 is all) */
static unsigned char *conf_;       /* shared: granules several threads use, one of them writing, without a common lock */
static uintptr_t abump[MAXT + 1];
#define MAXP 60000
struct shared { void *lock[8]; int nlock; size_t n; unsigned pts[MAXT + 1]; uintptr_t hi[MAXT + 1]; int over; unsigned char cls[MAXT + 1][MAXP]; char log[4 << 20]; };
static struct shared *sh;

static int conc_on, nthr, cur, started;
static struct { int turn, done, blocked; pthread_mutex_t *on; unsigned pts; pthread_t th; uintptr_t lo, hi; } T[MAXT + 1];
static struct pre { int t; unsigned k; int u; } pre[8]; static int npre, ipre;
static int ord[MAXT];
static unsigned long steps, since;

static void out_log(const char *s, size_t n);
#include <execinfo.h>
static void die(const char *what, const char *more)
{
	char b[300]; int n;
	if (getenv("CONC_BT")) { void *bt[30]; backtrace_symbols_fd(bt, backtrace(bt, 30), 2); }
	n = snprintf(b, sizeof b, "{\"x\":\"crash\",\"th\":%d,\"why\":\"%s\",\"at\":\"%s\"}\n", me, what, more ? more : "");
	out_log(b, n);
	_exit(0);
}
void *__real_memcpy(void *, const void *, size_t);
/* what step() prints: the event of one call, kept until it is logged with its return */
static __thread char *evb; static __thread size_t evn, evc;
static void out_raw(const char *s, size_t n)
{
	if (evn + n > evc) { evc = (evn + n) * 2 + 1024; evb = __real_realloc(evb, evc); }
	__real_memcpy(evb + evn, s, n); evn += n;
}
static void out_log(const char *s, size_t n)
{
	if (sh->n + n > sizeof sh->log) { sh->over = 1; _exit(0); }
	__real_memcpy(sh->log + sh->n, s, n); sh->n += n;
}

/* ---------------------------------------------------------------- scheduler */
/* (to the library a hand-over has not happened: errno stays what it was) */
static void fwait(int *p) { int e = errno; while (!__atomic_load_n(p, __ATOMIC_SEQ_CST)) syscall(SYS_futex, p, FUTEX_WAIT, 0, NULL, NULL, 0); errno = e; }
static void fpost(int *p) { int e = errno; __atomic_store_n(p, 1, __ATOMIC_SEQ_CST); syscall(SYS_futex, p, FUTEX_WAKE, 1, NULL, NULL, 0); errno = e; }
static struct { pthread_mutex_t *m; int owner, depth, readers; } lk[256]; static int nlk;
static int lock_of(void *m)
{
	int i;
	for (i = 0; i < nlk; i++) if (lk[i].m == m) return i;
	if (nlk == 256) _exit(97);
	lk[nlk].m = m; lk[nlk].owner = -1; lk[nlk].depth = lk[nlk].readers = 0;
	return nlk++;
}
static int runnable(int t)
{
	if (T[t].done) return 0;
	if (!T[t].blocked) return 1;
	{ int l = lock_of(T[t].on); return lk[l].owner < 0 && (T[t].blocked == 2 || !lk[l].readers); }
}
static void switch_to(int u)
{
	int t = me;
	if (u == t) return;
	cur = u; T[t].turn = 0; since = 0;
	fpost(&T[u].turn);
	if (!T[t].done) { fwait(&T[t].turn); }
}
static int pick(int not)
{
	int i;
	for (i = 0; i < nthr; i++) if (ord[i] != not && runnable(ord[i])) return ord[i];
	return 0;
}
/* cls: what kind of point this is: a lock (its number), 9 a system call or decompression,
   10 a shared access without a common lock, 11 between calls */
static void point(int cls)
{
	int e;
	if (!me || !conc_on) return;
	e = errno;
	if (++T[me].pts < MAXP) sh->cls[me][T[me].pts] = cls;
	if (++steps > 3000000) die("endless", NULL);
	if (ipre < npre && pre[ipre].t == me && pre[ipre].k == T[me].pts) {
		int u = pre[ipre++].u;
		if (!u || u == me || !runnable(u)) u = pick(me);
		if (u) switch_to(u);
	} else if (++since > 100000) { int u = pick(me); if (u) switch_to(u); }
	errno = e;
}
/* stable small numbers for the first eight locks */
static unsigned char heldset[MAXT + 1];
static unsigned char lockbit(void *m)
{
	int i;
	for (i = 0; i < sh->nlock; i++) if (sh->lock[i] == m) return 1 << i;
	if (sh->nlock == 8) return 0;
	sh->lock[sh->nlock] = m;
	return 1 << sh->nlock++;
}
static int lockno(void *m) { int i; lockbit(m); for (i = 0; i < sh->nlock; i++) if (sh->lock[i] == m) return i; return 8; }
static void touch(size_t g, int w) { acc[g] |= (w ? 0x11 : 1) << (me - 1); lset[g] |= (unsigned char)~heldset[me]; }
static void block_on(void *m, int kind)
{
	int u;
	T[me].on = m; T[me].blocked = kind;
	while (!runnable(me)) {
		u = pick(me);
		if (!u) die("deadlock", NULL);
		switch_to(u);
	}
	T[me].blocked = 0;
}
/* kind 1: exclusive, 2: shared */
static int do_lock(void *m, int kind, int try, int recursive)
{
	int l = lock_of(m), w = me ? me : 99;
	if (lk[l].owner == w && recursive) { lk[l].depth++; return 0; }
	point(lockno(m));
	if (lk[l].owner == w && recursive) { lk[l].depth++; return 0; }
	if (lk[l].owner == w && !try) die("deadlock", "relock");
	if (lk[l].owner >= 0 || (kind == 1 && lk[l].readers)) {
		if (try) return EBUSY;
		if (!me) die("deadlock", "main");
		block_on(m, kind);
	}
	if (kind == 2) { lk[l].readers++; nheld++; } else { lk[l].owner = w; lk[l].depth = 1; nheld++; heldset[me] |= lockbit(m); }
	return 0;
}
static int do_unlock(void *m)
{
	int l = lock_of(m), w = me ? me : 99;
	if (lk[l].readers) { lk[l].readers--; nheld--; }
	else if (lk[l].owner != w) die("unlock", "not the owner");
	else if (--lk[l].depth == 0) { lk[l].owner = -1; nheld--; heldset[me] &= ~lockbit(m); }
	/* going on to the next point first is no different */
	return 0;
}
static int rec(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { return do_lock(m, 1, 0, rec(m)); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { return do_lock(m, 1, 1, rec(m)); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { return do_unlock(m); }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { int l = lock_of(m); if (lk[l].owner >= 0) die("lock", "destroyed while held"); lk[l].m = NULL; return 0; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) { return do_lock(m, 2, 0, 0); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) { return do_lock(m, 1, 0, 0); }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { return do_lock(m, 2, 1, 0); }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t *m) { return do_lock(m, 1, 1, 0); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) { return do_unlock(m); }
int __wrap_pthread_spin_lock(pthread_spinlock_t *m) { return do_lock((void *)m, 1, 0, 0); }
int __wrap_pthread_spin_trylock(pthread_spinlock_t *m) { return do_lock((void *)m, 1, 1, 0); }
int __wrap_pthread_spin_unlock(pthread_spinlock_t *m) { return do_unlock((void *)m); }
int __wrap_pthread_once(pthread_once_t *c, void (*f)(void))
{
	int *p = (int *)c;
	while (*p == 1) { int u = pick(me); if (!u) die("deadlock", "once"); switch_to(u); }
	if (*p == 0) { *p = 1; f(); *p = 2; }
	return 0;
}

/* ------------------------------------------------------------------- memory */
static void hit(uintptr_t a, size_t n, int w)
{
	uintptr_t g, ge;
	int cf = 0;
	if (!in_lib || !n) return;
	if (a >= ABASE && a < AEND) {
		g = (a - ABASE) / 8; ge = (a + n - 1 - ABASE) / 8;
		for (; g <= ge; g++) {
			if (state[g] != 1) die("memory", state[g] == 2 ? "use after release" : "out of bounds");
			if (conc_on) { touch(g, w); cf |= conf_[g]; }
		}
	} else if (a >= gbase && a < gend) {
		if (!conc_on) return;
		g = (a - gbase) / 8 + AGRAN; ge = (a + n - 1 - gbase) / 8 + AGRAN;
		for (; g <= ge && g < ngran; g++) { touch(g, w); cf |= conf_[g]; }
	}
	if (cf) point(10);
}
#define R(n) void __tsan_read##n(void *p) { hit((uintptr_t)p, n, 0); } void __tsan_unaligned_read##n(void *p) { hit((uintptr_t)p, n, 0); } \
	void __tsan_write##n(void *p) { hit((uintptr_t)p, n, 1); } void __tsan_unaligned_write##n(void *p) { hit((uintptr_t)p, n, 1); } \
	void __tsan_volatile_read##n(void *p) { hit((uintptr_t)p, n, 0); } void __tsan_volatile_write##n(void *p) { hit((uintptr_t)p, n, 1); }
R(1) R(2) R(4) R(8) R(16)
void __tsan_read_range(void *p, unsigned long n) { hit((uintptr_t)p, n, 0); }
void __tsan_write_range(void *p, unsigned long n) { hit((uintptr_t)p, n, 1); }
void __tsan_init(void) {} void __tsan_func_entry(void *p) { (void)p; } void __tsan_func_exit(void) {}
void __tsan_atomic_thread_fence(int o_) { (void)o_; } void __tsan_atomic_signal_fence(int o_) { (void)o_; }
#define AT(n, t) \
	t __tsan_atomic##n##_load(const volatile t *p, int m) { (void)m; hit((uintptr_t)p, sizeof(t), 0); return *p; } \
	void __tsan_atomic##n##_store(volatile t *p, t v, int m) { (void)m; hit((uintptr_t)p, sizeof(t), 1); *p = v; } \
	t __tsan_atomic##n##_exchange(volatile t *p, t v, int m) { t r; (void)m; hit((uintptr_t)p, sizeof(t), 1); r = *p; *p = v; return r; } \
	t __tsan_atomic##n##_fetch_add(volatile t *p, t v, int m) { t r; (void)m; hit((uintptr_t)p, sizeof(t), 1); r = *p; *p = r + v; return r; } \
	t __tsan_atomic##n##_fetch_sub(volatile t *p, t v, int m) { t r; (void)m; hit((uintptr_t)p, sizeof(t), 1); r = *p; *p = r - v; return r; } \
	t __tsan_atomic##n##_fetch_and(volatile t *p, t v, int m) { t r; (void)m; hit((uintptr_t)p, sizeof(t), 1); r = *p; *p = r & v; return r; } \
	t __tsan_atomic##n##_fetch_or(volatile t *p, t v, int m) { t r; (void)m; hit((uintptr_t)p, sizeof(t), 1); r = *p; *p = r | v; return r; } \
	t __tsan_atomic##n##_fetch_xor(volatile t *p, t v, int m) { t r; (void)m; hit((uintptr_t)p, sizeof(t), 1); r = *p; *p = r ^ v; return r; } \
	int __tsan_atomic##n##_compare_exchange_strong(volatile t *p, t *e, t v, int m, int f) { (void)m; (void)f; hit((uintptr_t)p, sizeof(t), 1); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
	int __tsan_atomic##n##_compare_exchange_weak(volatile t *p, t *e, t v, int m, int f) { return __tsan_atomic##n##_compare_exchange_strong(p, e, v, m, f); } \
	t __tsan_atomic##n##_compare_exchange_val(volatile t *p, t e, t v, int m, int f) { t x = e; __tsan_atomic##n##_compare_exchange_strong(p, &x, v, m, f); return x; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t); int __real_memcmp(const void *, const void *, size_t);
size_t __real_strlen(const char *); int __real_strcmp(const char *, const char *); int __real_strncmp(const char *, const char *, size_t);
char *__real_strcpy(char *, const char *);
struct hd { size_t n; size_t magic; };
#define MAGIC 0x5153515351535153ull
static void *arena_alloc(size_t n)
{
	uintptr_t p = abump[me]; size_t t = (n + 7) / 8 * 8;
	struct hd *h = (struct hd *)p;
	if (p + t + 32 > ABASE + ASIZE * (me + 1)) { sh->over = 1; _exit(0); }
	abump[me] = (p + sizeof *h + t + 16 + 15) & ~(uintptr_t)15;
	h->n = n; h->magic = MAGIC;
	__real_memset(state + (p + sizeof *h - ABASE) / 8, 1, t / 8);
	live++;
	if (abump[me] > sh->hi[me]) sh->hi[me] = abump[me];
	return h + 1;
}
void *__wrap_malloc(size_t n) { void *p; if (!in_lib) return __real_malloc(n); p = arena_alloc(n); __real_memset(p, 0xA5, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p; if (!in_lib) return __real_calloc(a, b); p = arena_alloc(a * b); __real_memset(p, 0, a * b); return p; }
static int ours(void *p) { return (uintptr_t)p >= ABASE && (uintptr_t)p < AEND; }
void __wrap_free(void *p)
{
	struct hd *h = (struct hd *)p - 1; size_t g;
	if (!p) return;
	if (!ours(p)) { __real_free(p); return; }
	g = ((uintptr_t)p - ABASE) / 8;
	if (h->magic != MAGIC || (h->n && state[g] != 1)) die("memory", h->magic == MAGIC ? "released twice" : "bad release");
	if (!h->n) h->magic = 0;
	if (conc_on && me) { size_t x; for (x = g; x < g + (h->n + 7) / 8; x++) touch(x, 1); }
	__real_memset(state + g, 2, (h->n + 7) / 8);
	__real_memset(p, 0xDD, h->n);
	live--;
}
void *__wrap_realloc(void *q, size_t n)
{
	void *p; size_t m;
	if (!in_lib && !ours(q)) return __real_realloc(q, n);
	if (!q) return __wrap_malloc(n);
	m = ((struct hd *)q - 1)->n;
	hit((uintptr_t)q, 1, 0);
	p = __wrap_malloc(n); __real_memcpy(p, q, m < n ? m : n);
	__wrap_free(q);
	return p;
}
char *__wrap_strdup(const char *s) { size_t n = __real_strlen(s) + 1; char *p = __wrap_malloc(n); __real_memcpy(p, s, n); return p; }
char *__wrap_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = __wrap_malloc(n + 1); __real_memcpy(p, s, n); p[n] = 0; return p; }
#define IL (in_lib && me)
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (IL) { hit((uintptr_t)s, n, 0); hit((uintptr_t)d, n, 1); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (IL) { hit((uintptr_t)s, n, 0); hit((uintptr_t)d, n, 1); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (IL) hit((uintptr_t)d, n, 1); return __real_memset(d, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { if (IL) { hit((uintptr_t)a, n, 0); hit((uintptr_t)b, n, 0); } return __real_memcmp(a, b, n); }
size_t __wrap_strlen(const char *s) { size_t n = __real_strlen(s); if (IL) hit((uintptr_t)s, n + 1, 0); return n; }
int __wrap_strcmp(const char *a, const char *b) { if (IL) { hit((uintptr_t)a, __real_strlen(a) + 1, 0); hit((uintptr_t)b, __real_strlen(b) + 1, 0); } return __real_strcmp(a, b); }
int __wrap_strncmp(const char *a, const char *b, size_t n) { if (IL) { hit((uintptr_t)a, strnlen(a, n), 0); hit((uintptr_t)b, strnlen(b, n), 0); } return __real_strncmp(a, b, n); }
char *__wrap_strcpy(char *d, const char *s) { if (IL) { size_t n = __real_strlen(s) + 1; hit((uintptr_t)s, n, 0); hit((uintptr_t)d, n, 1); } return __real_strcpy(d, s); }

int __real_close(int);
int __wrap_dup(int fd) { int r; if (in_lib) point(9); r = __real_dup(fd); if (in_lib) point(9); return r; }
int __wrap_close(int fd) { int r; if (in_lib) point(9); r = __real_close(fd); if (in_lib) point(9); return r; }
int __wrap_fcntl(int fd, int cmd, ...)
{
	va_list ap; long a; int r; va_start(ap, cmd); a = va_arg(ap, long); va_end(ap);
	if (in_lib) point(9);
	r = __real_fcntl(fd, cmd, a);
	if (in_lib) point(9);
	return r;
}
int __wrap_uncompress(Bytef *d, uLongf *dl, const Bytef *s, uLong sl)
{
	int r, sv = in_lib;
	if (in_lib) { point(9); hit((uintptr_t)s, sl, 0); hit((uintptr_t)d, *dl, 1); }
	in_lib = 0; r = __real_uncompress(d, dl, s, sl); in_lib = sv;
	if (in_lib) { hit((uintptr_t)d, *dl, 1); point(9); }
	return r;
}
FILE *__wrap_fopen(const char *p, const char *m) { FILE *f; int sv = in_lib; in_lib = 0; f = __real_fopen(p, m); in_lib = sv; return f; }
size_t __wrap_fwrite(const void *p, size_t a, size_t b, FILE *f) { return __real_fwrite(p, a, b, f); }

/* ---------------------------------------------------------------- scenarios */
struct prog { int n; char **op; int *k; } prog[MAXT + 1], fin;
static void logcall(int t, int k) { char b[64]; int n = snprintf(b, sizeof b, "{\"x\":\"call\",\"th\":%d,\"k\":%d}\n", t, k); out_log(b, n); }
static void one(char *line, int k)
{
	char b[64], tmp[8192]; int n;
	if (strlen(line) >= sizeof tmp) _exit(97);
	memcpy(tmp, line, strlen(line) + 1);
	if (me) { point(11); logcall(me, k); }
	evn = 0;
	step(tmp);
	alarm(20);
	if (evn) {  /* {"x":"ret","th":t,"k":k,"e":{...}} */
		if (me) n = snprintf(b, sizeof b, "{\"x\":\"ret\",\"th\":%d,\"k\":%d,\"e\":", me, k);
		else n = snprintf(b, sizeof b, "{\"x\":\"seq\",\"k\":%d,\"e\":", k);
		out_log(b, n); out_log(evb, evn - 1); out_log("}\n", 2);
	}
}
static void *thread(void *p)
{
	int i; struct prog *q;
	me = (int)(long)p; q = &prog[me];
	ocap = 1 << 16; ob = __real_malloc(ocap);
	fwait(&T[me].turn);
	for (i = 0; i < q->n; i++) one(q->op[i], q->k[i]);
	T[me].done = 1;
	{ int u = pick(me); if (u) switch_to(u); else {
		int t; for (t = 1; t <= nthr; t++) if (!T[t].done) die("deadlock", NULL);
		cur = 0; fpost(&T[0].turn);
	} }
	return NULL;
}
/* one schedule, in a process of its own */
static void run(void)
{
	int t;
	alarm(20);
	steps = since = 0; ipre = 0;
	for (t = 1; t <= nthr; t++) { T[t].turn = T[t].done = T[t].blocked = 0; T[t].pts = 0; }
	T[0].turn = 0;
	conc_on = 1;
	for (t = 1; t <= nthr; t++) if (pthread_create(&T[t].th, NULL, thread, (void *)(long)t)) _exit(97);
	cur = ord[0];
	fpost(&T[ord[0]].turn);
	fwait(&T[0].turn);
	conc_on = 0;
	for (t = 1; t <= nthr; t++) { pthread_join(T[t].th, NULL); sh->pts[t] = T[t].pts; }
	{ int i; for (i = 0; i < fin.n; i++) one(fin.op[i], fin.k[i]); }
	_exit(0);
}
static uint64_t *seen; static size_t nseen, cseen, runs, kept, keepmax, overs, hangs, died;
static int fresh(const char *s, size_t n)
{
	uint64_t h = 1469598103934665603ull; size_t i;
	for (i = 0; i < n; i++) h = (h ^ (unsigned char)s[i]) * 1099511628211ull;
	for (i = 0; i < nseen; i++) if (seen[i] == h) return 0;
	if (nseen == cseen) { cseen = cseen ? cseen * 2 : 1024; seen = __real_realloc(seen, cseen * sizeof *seen); }
	seen[nseen++] = h;
	return 1;
}
static void emit(const char *s, size_t n) { while (n) { ssize_t k = write(OUTFD, s, n); if (k <= 0) _exit(97); s += k; n -= k; } }
static size_t prefix; static char *name;
static void sched_text(char *b)
{
	int i, n = 0;
	for (i = 0; i < nthr; i++) n += sprintf(b + n, "%d", ord[i]);
	for (i = 0; i < npre; i++) n += sprintf(b + n, ",%d.%u.%d", pre[i].t, pre[i].k, pre[i].u);
}
static void schedule(void)
{
	pid_t p; int st;
	if (hangs >= 2 || died >= 200) return;   /* enough to report; no point in going on */
	sh->n = prefix; sh->over = 0;
	runs++;
	p = fork();
	if (p == 0) run();
	if (p < 0 || waitpid(p, &st, 0) != p) _exit(98);
	if (sh->over) { overs++; return; }
	if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
		if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) hangs++; else died++;
		char b[200]; int n = snprintf(b, sizeof b, "{\"x\":\"crash\",\"th\":0,\"why\":\"%s\",\"at\":\"%d\"}\n",
			WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "hang" : "signal") : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
		if (WIFEXITED(st) && WEXITSTATUS(st) >= 95 && WEXITSTATUS(st) <= 98) _exit(98);   /* the harness itself */
		out_log(b, n);
	}
	if (fresh(sh->log, sh->n)) {
		int crash = sh->n > 12 && memmem(sh->log + prefix, sh->n - prefix, "\"x\":\"crash\"", 11) != NULL;
		if (kept < keepmax || crash) {
			char b[600], sc[200]; int n; sched_text(sc);
			kept++;
			n = snprintf(b, sizeof b, "{\"x\":\"S\",\"name\":\"%s\",\"sched\":\"%s\"}\n", name, sc);
			emit(b, n); emit(sh->log, sh->n);
		}
	}
}
static unsigned rng_s;
static unsigned rnd(unsigned n) { rng_s ^= rng_s << 13; rng_s ^= rng_s >> 17; rng_s ^= rng_s << 5; return rng_s % n; }
static int next_perm(void)
{
	int i = nthr - 2, j, x;
	while (i >= 0 && ord[i] > ord[i + 1]) i--;
	if (i < 0) return 0;
	for (j = nthr - 1; ord[j] < ord[i]; j--) ;
	x = ord[i]; ord[i] = ord[j]; ord[j] = x;
	for (i++, j = nthr - 1; i < j; i++, j--) { x = ord[i]; ord[i] = ord[j]; ord[j] = x; }
	return 1;
}
static void first_perm(void) { int i; for (i = 0; i < nthr; i++) ord[i] = i + 1; }
static unsigned K[MAXT + 1];
static size_t refreeze(void)
{
	size_t g, c = 0; int a;
	for (a = 0; a <= MAXT; a++) {
		size_t lo = ASIZE / 8 * a, hi = sh->hi[a] ? (sh->hi[a] - ABASE) / 8 : lo;
		for (g = lo; g < hi; g++) if (!conf_[g]) {
			unsigned r = acc[g] & 15, w = acc[g] >> 4;
			if (w && (r & (r - 1)) && lset[g] == 0xff) { conf_[g] = 1; c++; }
		}
	}
	for (g = AGRAN; g < ngran; g++) if (!conf_[g]) {
		unsigned r = acc[g] & 15, w = acc[g] >> 4;
		if (w && (r & (r - 1)) && lset[g] == 0xff) { conf_[g] = 1; c++; }
	}
	return c;
}
static void baseline(void)
{
	int t;
	npre = 0; first_perm();
	do { schedule(); for (t = 1; t <= nthr; t++) if (sh->pts[t] > K[t]) K[t] = sh->pts[t]; } while (next_perm());
}
static unsigned char clsbuf[MAXT + 1][MAXP];
#define MAXPOS 4000
static unsigned pos[MAXT + 1][12][MAXPOS], npos[MAXT + 1][12];
static void explore(unsigned seed, long b1, long b2)
{
	int t, u, round; long tot, i; unsigned k; memset(clsbuf, 0, sizeof clsbuf);
	rng_s = seed * 2654435761u + 12345; if (!rng_s) rng_s = 1;
	memset(K, 0, sizeof K);
	baseline(); refreeze(); baseline();
	for (round = 0; round < 3; round++) {
		/* every single preemption; of kinds with very many points a sample */
		long cnt[12], share[12], left = b1, more = 1, mult = (nthr - 1) * (nthr == 3 ? 6 : 1), open_ = 0;
		int c, given[12];
		memset(cnt, 0, sizeof cnt); memset(given, 0, sizeof given);
		for (t = 1; t <= nthr; t++) for (k = 1; k <= K[t] && k < MAXP; k++) cnt[sh->cls[t][k]] += mult;
		for (c = 0; c < 12; c++) { share[c] = 0; if (cnt[c]) open_++; }
		while (more && open_) {   /* kinds that fit into an equal share are taken whole */
			more = 0; tot = left / open_;
			for (c = 0; c < 12; c++) if (cnt[c] && !given[c] && cnt[c] <= tot) { given[c] = 1; share[c] = cnt[c]; left -= cnt[c]; open_--; more = 1; }
		}
		for (c = 0; c < 12; c++) if (cnt[c] && !given[c]) share[c] = left / open_;
		memcpy(clsbuf, sh->cls, sizeof clsbuf);
		first_perm();
		do {
			for (t = 1; t <= nthr; t++) for (u = 1; u <= nthr; u++) if (u != t) for (k = 1; k <= K[t] && k < MAXP; k++) {
				if (nthr == 2 && ord[0] != t) continue;
				c = clsbuf[t][k];
				if (share[c] < cnt[c] && rnd(1000000) >= 1e6 * share[c] / cnt[c]) continue;
				npre = 1; pre[0].t = t; pre[0].k = k; pre[0].u = u;
				schedule();
			}
		} while (next_perm());
		if (!refreeze()) break;
		baseline();
	}
	for (t = 1; t <= nthr; t++) if (!K[t]) return;   /* no thread ever got anywhere: every run ended in a crash */
	/* positions by kind, to draw from */
	memset(npos, 0, sizeof npos);
	for (t = 1; t <= nthr; t++) for (k = 1; k <= K[t] && k < MAXP; k++) { int c = clsbuf[t][k]; if (npos[t][c] < MAXPOS || rnd(4) == 0) pos[t][c][npos[t][c] < MAXPOS ? npos[t][c]++ : rnd(MAXPOS)] = k; }
	for (i = 0; i < b2; i++) {
		int x, y;
		first_perm();
		for (x = nthr - 1; x > 0; x--) { y = rnd(x + 1); t = ord[x]; ord[x] = ord[y]; ord[y] = t; }
		npre = 2 + (rnd(3) == 0) + (rnd(6) == 0);
		t = ord[0];
		for (x = 0; x < npre; x++) {
			unsigned lo = 0;
			for (y = 0; y < x; y++) if (pre[y].t == t) lo = pre[y].k;
			pre[x].t = t; pre[x].k = 0;
			for (y = 0; y < 8 && pre[x].k <= lo; y++) {
				int c = rnd(12);
				for (u = 0; u < 12 && !npos[t][c]; u++) c = (c + 1) % 12;
				if (!npos[t][c]) { pre[x].k = lo + 1; break; }
				pre[x].k = rnd(4) == 0 ? lo + 1 + rnd(10) : pos[t][c][rnd(npos[t][c])];
			}
			if (pre[x].k <= lo) pre[x].k = lo + 1;
			do u = 1 + rnd(nthr); while (u == t);
			pre[x].u = u; t = u;
		}
		schedule();
	}
}
static void replay(char *s)
{
	char *q = s; int i = 0;
	for (; *q && *q != ','; q++) ord[i++] = *q - '0';
	npre = 0;
	while (*q == ',') { pre[npre].t = strtol(q + 1, &q, 10); pre[npre].k = strtoul(q + 1, &q, 10); pre[npre].u = strtol(q + 1, &q, 10); npre++; }
	/* the conflict set the schedule was found with is part of the deterministic exploration */
}

int main(int argc, char **argv)
{
	FILE *f; char *buf; size_t len, i; char **lines; size_t nl = 0, cap = 1024;
	int fd; unsigned seed; long b1, b2;
	struct rlimit rl = { 1024, 1024 };
	if (argc < 7) return 2;
	(void)replay;
	setrlimit(RLIMIT_NOFILE, &rl);
	rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
	seed = atoi(argv[3]); b1 = atol(argv[4]); b2 = atol(argv[5]); keepmax = atol(argv[6]);
	tmpd = getenv("TMPDIR"); if (!tmpd) return 2;
	gbase = (uintptr_t)&__data_start & ~(uintptr_t)7; gend = (uintptr_t)&_end; ggran = (gend - gbase) / 8 + 1; ngran = AGRAN + ggran;
	f = __real_fopen(argv[1], "r"); if (!f) return 2;
	fseek(f, 0, SEEK_END); len = ftell(f); rewind(f);
	buf = __real_malloc(len + 1); if (fread(buf, 1, len, f) != len) return 2; buf[len] = 0; fclose(f);
	fd = open(argv[2], O_WRONLY | O_CREAT | O_APPEND, 0644); dup2(fd, OUTFD); __real_close(fd);
	fd = open("/dev/null", O_RDONLY); dup2(fd, 0); if (fd) __real_close(fd);
	sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	lset = mmap(NULL, ngran, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	acc = mmap(NULL, ngran, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	conf_ = mmap(NULL, ngran, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	state = mmap(NULL, AGRAN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (mmap((void *)ABASE, AEND - ABASE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *)ABASE) return 2;
	for (i = 0; i <= MAXT; i++) abump[i] = ABASE + ASIZE * i;
	ocap = 1 << 16; ob = __real_malloc(ocap);
	lines = __real_malloc(cap * sizeof *lines);
	for (i = 0; i < len; ) {
		size_t j = i; while (j < len && buf[j] != '\n') j++;
		buf[j] = 0;
		if (nl == cap) { cap *= 2; lines = __real_realloc(lines, cap * sizeof *lines); }
		lines[nl++] = buf + i; i = j + 1;
	}
	for (i = 0; i < nl; ) {
		if (lines[i][0] == 'I') {
			int id; char fn[4096]; long off; size_t k; struct img *m;
			if (sscanf(lines[i], "I %d %4095s %ld", &id, fn, &off) != 3) return 2;
			m = &imgs[id];
			f = __real_fopen(fn, "r"); if (!f) return 2;
			fseek(f, 0, SEEK_END); k = ftell(f); rewind(f);
			m->buf = __real_malloc(off + k); m->off = off; m->len = k;
			if (fread(m->buf + off, 1, k, f) != k) return 2;
			fclose(f); i++;
		} else if (lines[i][0] == 'S') {
			pid_t p; int st; size_t j = i + 1;
			while (j < nl && lines[j][0] != 'S') j++;
			p = fork();
			if (p == 0) {
				size_t x; char b[200]; int n;
				name = lines[i] + 2;
				memset(acc, 0, ngran); memset(conf_, 0, ngran); memset(lset, 0, ngran); sh->nlock = 0; memset(sh->hi, 0, sizeof sh->hi);
				sh->n = 0;
				session_start();
				for (x = i + 1; x < j; x++) {
					char *l = lines[x], *e; int t = 0; struct prog *q = &fin; int k;
					if (l[0] == 'T') { t = strtol(l + 2, &e, 10); q = &prog[t]; if (t > nthr) nthr = t; }
					else e = l + 1;
					k = strtol(e + 1, &e, 10);
					if (l[0] == 'M') { one(e + 1, k); continue; }
					q->op = __real_realloc(q->op, (q->n + 1) * sizeof *q->op); q->k = __real_realloc(q->k, (q->n + 1) * sizeof *q->k);
					q->op[q->n] = e + 1; q->k[q->n++] = k;
				}
				prefix = sh->n;
				alarm(0);
				explore(seed, b1, b2);
				n = snprintf(b, sizeof b, "{\"x\":\"#\",\"runs\":%zu,\"kept\":%zu,\"distinct\":%zu,\"over\":%zu,\"points\":[%u,%u,%u]}\n", runs, kept, nseen, overs, K[1], K[2], K[3]);
				emit(b, n);
				_exit(0);
			}
			if (p < 0 || waitpid(p, &st, 0) != p) return 2;
			if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) return 3;
			i = j;
		} else i++;
	}
	return 0;
}
