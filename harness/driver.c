/* Sequential conformance driver: executes op scripts against the real library and
 * logs one JSON event per call.  It knows nothing about what the results should be.
 *
 * usage: driver SCRIPT EVENTS BYTES
 * Script lines: "I id file offset limit"       load an image buffer (before any session)
 *               "S name"                       start a session (a forked child)
 *               "<op> args"                    a call inside the session
 */
#define _GNU_SOURCE
#include "squash.h"
#include "squash/hash.h"
#include "squash/stack.h"
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <fcntl.h>
#include <signal.h>
#include <dirent.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <zlib.h>
#include <limits.h>
#include <ftw.h>
#include <sys/stat.h>

#define OUTFD 900
#define BYTFD 901
#define NSLOT 4096
#define NIMG 64
#define NHDL 64

/* ------------------------------------------------------------ interposition */
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t); void __real_free(void *);
int __real_dup(int); int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_uncompress(Bytef *, uLongf *, const Bytef *, uLong);
FILE *__real_fopen(const char *, const char *);
size_t __real_fwrite(const void *, size_t, size_t, FILE *);
int __real_fcntl(int, int, ...);

#ifdef CONC   /* conc.c includes this file with its own interposition and output */
#define TL static __thread
#else
#define TL static
#endif
TL int in_lib;                     /* only library allocations count / fail */
static long live;                  /* live library allocations */
static long fail_at, alloc_no, fail_hit, frnd_n, frnd_on;
static long fdup_at, dup_no, func_at, unc_no, ffop_at, fop_no, ffw_at, fw_no;

#ifndef CONC
/* set of live library blocks (open addressing) */
static void **tab; static size_t tabcap, tabn;
static void tab_put(void *p);
static void tab_grow(void)
{
	void **o = tab; size_t oc = tabcap, i; long l = live;
	tabcap = oc ? oc * 2 : 4096;
	tab = __real_calloc(tabcap, sizeof(void *)); tabn = 0;
	for (i = 0; i < oc; i++) if (o[i] && o[i] != (void *)1) tab_put(o[i]);
	__real_free(o); live = l;
}
static size_t hsh(void *p) { return ((size_t)p >> 4) * 0x9E3779B97F4A7C15ull; }
static void tab_put(void *p)
{
	size_t i;
	if (tabn * 2 >= tabcap) tab_grow();
	for (i = hsh(p) & (tabcap - 1); tab[i] && tab[i] != (void *)1; i = (i + 1) & (tabcap - 1)) ;
	if (!tab[i]) tabn++;
	tab[i] = p; live++;
}
static int tab_del(void *p)
{
	size_t i;
	if (!tabcap) return 0;
	for (i = hsh(p) & (tabcap - 1); tab[i]; i = (i + 1) & (tabcap - 1))
		if (tab[i] == p) { tab[i] = (void *)1; live--; return 1; }
	return 0;
}
static int inject(void)
{
	if (!in_lib) return 0;
	++alloc_no;
	if (fail_at && alloc_no == fail_at) { fail_hit = 1; errno = ENOMEM; return 1; }
	return 0;
}
void *__wrap_malloc(size_t n)
{
	void *p; int e = errno;
	if (!in_lib) return __real_malloc(n);
	if (inject()) return NULL;
	p = __real_malloc(n);
	if (p) { memset(p, 0xA5, n); tab_put(p); errno = e; }
	return p;
}
void *__wrap_calloc(size_t a, size_t b)
{
	void *p; int e = errno;
	if (!in_lib) return __real_calloc(a, b);
	if (inject()) return NULL;
	p = __real_calloc(a, b);
	if (p) { tab_put(p); errno = e; }
	return p;
}
void *__wrap_realloc(void *q, size_t n)
{
	void *p; int known, e = errno;
	if (!in_lib) return __real_realloc(q, n);
	if (n && inject()) return NULL;
	known = q ? tab_del(q) : 1;
	p = __real_realloc(q, n);
	if (p && known) tab_put(p);
	else if (!p && q && known && n) tab_put(q);
	if (p) errno = e;
	return p;
}
void __wrap_free(void *p)
{
	if (p) tab_del(p);
	__real_free(p);
}
char *__wrap_strdup(const char *s)
{
	size_t n = strlen(s) + 1;
	char *p = __wrap_malloc(n);
	if (p) memcpy(p, s, n);
	return p;
}
char *__wrap_strndup(const char *s, size_t m)
{
	size_t n = strnlen(s, m);
	char *p = __wrap_malloc(n + 1);
	if (p) { memcpy(p, s, n); p[n] = 0; }
	return p;
}
int __wrap_dup(int fd)
{
	if (in_lib) { ++dup_no; if (fdup_at && dup_no == fdup_at) { fail_hit = 1; errno = EMFILE; return -1; } }
	return __real_dup(fd);
}
int __wrap_fcntl(int fd, int cmd, ...)
{
	va_list ap; long a; va_start(ap, cmd); a = va_arg(ap, long); va_end(ap);
	if (in_lib && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)) {
		++dup_no; if (fdup_at && dup_no == fdup_at) { fail_hit = 1; errno = EMFILE; return -1; }
	}
	return __real_fcntl(fd, cmd, a);
}
int __wrap_uncompress(Bytef *d, uLongf *dl, const Bytef *s, uLong sl)
{
	int r, sv = in_lib;
	if (in_lib) { ++unc_no; if (func_at && unc_no == func_at) { fail_hit = 1; return Z_MEM_ERROR; } }
	in_lib = 0; r = __real_uncompress(d, dl, s, sl); in_lib = sv;
	return r;
}
FILE *__wrap_fopen(const char *p, const char *m)
{
	FILE *f; int sv = in_lib;
	if (in_lib) { ++fop_no; if (ffop_at && fop_no == ffop_at) { fail_hit = 1; errno = EMFILE; return NULL; } }
	in_lib = 0; f = __real_fopen(p, m); in_lib = sv;
	return f;
}
int __real_rand(void);
static int last_rand;
int __wrap_rand(void)
{
	/* chance may give the same number again */
	if (in_lib && frnd_n > 0) { --frnd_n; fail_hit = 1; return last_rand; }
	return last_rand = __real_rand();
}
size_t __wrap_fwrite(const void *p, size_t a, size_t b, FILE *f)
{
	if (in_lib) { ++fw_no; if (ffw_at && fw_no == ffw_at) { fail_hit = 1; errno = ENOSPC; return 0; } }
	return __real_fwrite(p, a, b, f);
}

#endif
static void ev_begin(const char *op);
static void ev_end(void);
#ifdef CONC
static int nheld;
static void out_raw(const char *s, size_t n);
#endif
#ifndef CONC
/* a self-relock blocks forever: report it instead */
#define NHELD 64
static pthread_mutex_t *held[NHELD]; static int nheld;
static void out_raw(const char *s, size_t n) { while (n) { ssize_t k = write(OUTFD, s, n); if (k <= 0) _exit(97); s += k; n -= k; } }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
	int i;
	for (i = 0; i < nheld; i++) if (held[i] == m) {
		out_raw("{\"x\":\"deadlock\"}\n", 17);
		_exit(96);
	}
	if (nheld < NHELD) held[nheld++] = m;
	return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
	int i;
	for (i = nheld; i-- > 0; ) if (held[i] == m) { memmove(held + i, held + i + 1, (nheld - i - 1) * sizeof *held); nheld--; break; }
	return __real_pthread_mutex_unlock(m);
}

#endif

/* ------------------------------------------------------------ event output */
TL char *ob; TL size_t on, ocap;
static void o(const char *f, ...)
{
	va_list ap; int n;
	for (;;) {
		va_start(ap, f); n = vsnprintf(ob + on, ocap - on, f, ap); va_end(ap);
		if (on + n + 1 < ocap) break;
		ocap = (ocap + n) * 2 + 4096; ob = __real_realloc(ob, ocap);
	}
	on += n;
}
/* a buffer of n bytes; a huge one is only address space, for no read of these files fills it */
#define HUGE (1LL << 28)
static char *big_buffer(long long n)
{
	char *b;
	if (n > HUGE) {
		b = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (b == MAP_FAILED) _exit(97);
		return b;
	}
	b = __real_malloc(n > 0 ? n : 0);
	if (n > 0) memset(b, 0xA5, n);
	return b;
}
static void big_free(char *b, long long n)
{
	if (n > HUGE) munmap(b, n); else __real_free(b);
}
static long byoff;
static void put_bytes(const void *p, size_t n)
{
	if (n > HUGE) n = HUGE; /* more than any file of these sessions has */
#ifdef CONC
	const unsigned char *c = p; size_t i;
	o(",\"hex\":\"");
	for (i = 0; i < n; i++) o("%02x", c[i]);
	o("\"");
#else
	const char *c = p; size_t k = n;
	while (k) { ssize_t w = write(BYTFD, c, k > (1<<24) ? (1<<24) : k); if (w <= 0) _exit(97); c += w; k -= w; }
	o(",\"b\":[%ld,%zu]", byoff, n);
	byoff += n;
#endif
}
static void put_str(const char *key, const char *s, size_t n)
{
	size_t i;
	o(",\"%s\":\"", key);
	for (i = 0; i < n; i++) {
		unsigned char c = s[i];
		if ((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '.' || c == '_' || c == '-') o("%c", c);
		else o("%%%02X", c);
	}
	o("\"");
}

static int nfds(void)
{
	int i, gap = 0, n = 0;
	for (i = 0; i < OUTFD && gap < 80; i++) {
		if (__real_fcntl(i, F_GETFD, 0L) != -1) { n++; gap = 0; } else gap++;
	}
	return n;
}
static const char *tmpd;
static int ntmp(void)
{
	DIR *d = opendir(tmpd); struct dirent *e; int n = 0;
	if (!d) return -1;
	while ((e = readdir(d))) if (e->d_name[0] != '.') n++;
	closedir(d);
	return n;
}
static int wipe_one(const char *p, const struct stat *st, int flag, struct FTW *w) { (void)st; (void)w; return (flag == FTW_DP || flag == FTW_D || flag == FTW_DNR ? rmdir(p) : unlink(p)), 0; }
static void wipe_tmp(void)
{
	DIR *d = opendir(tmpd); struct dirent *e; char b[PATH_MAX];
	if (!d) return;
	while ((e = readdir(d))) if (e->d_name[0] != '.') { snprintf(b, sizeof b, "%s/%s", tmpd, e->d_name); if (unlink(b)) nftw(b, wipe_one, 20, FTW_PHYS | FTW_MOUNT | FTW_DEPTH); }
	closedir(d);
}

TL int saved_errno; static int base_nfd;
static void ev_begin(const char *op) { on = 0; o("{\"x\":\"%s\"", op); }
static void ev_end(void)
{
#ifdef CONC
	if (me) { o("}\n"); out_raw(ob, on); return; }
#endif
	o(",\"nfd\":%d,\"live\":%ld,\"held\":%d", nfds() - base_nfd, live, nheld);
	if (fail_at || fdup_at || func_at || ffop_at || ffw_at || frnd_on) o(",\"hit\":%ld", fail_hit);
	o("}\n");
	out_raw(ob, on);
}
static int prior = 0;
#define CALL(stmt) do { errno = prior; in_lib = 1; stmt; saved_errno = errno; in_lib = 0; } while (0)
/* numbers that TLC cannot hold are none it expects */
static long long small(long long r) { return r > 1 << 30 ? 1 << 30 : r < -(1 << 30) ? -(1 << 30) : r; }
static void reterr(long long r) { r = small(r); o(",\"ret\":%lld,\"err\":%d", r, saved_errno); }

/* ------------------------------------------------------------ state */
struct img { uint8_t *buf; size_t len; size_t off; } imgs[NIMG];
static sqfs *hdl[NHDL]; static sqfs hstore[NHDL]; /* a reopened handle reuses its address */
static int vfd[NSLOT]; static SQUASH_DIR *dirs[NSLOT]; static long tells[NSLOT];
static int sysfd[NSLOT];
struct trv { sqfs_traverse t; } *trvs[NSLOT];
struct ld { int ok; sqfs *fs; sqfs_dir d; sqfs_dir_entry e; sqfs_name nm; long offs[1]; } *lds[NSLOT];
static char *aliasmem[NHDL];
static char pathbuf[70000];        /* reused caller path buffer */

static int hexv(int c) { return c >= 'A' ? (c | 32) - 'a' + 10 : c - '0'; }
/* decode a percent-encoded token into a fresh exact-size buffer (not counted) */
static char *dec(const char *s)
{
	size_t n = strlen(s), i, k = 0;
	char *t = __real_malloc(n + 1), *r;
	if (s[0] == '~') { s++; n--; }  /* "~" prefix: allows the empty string */
	for (i = 0; i < n; i++) {
		if (s[i] == '%') { t[k++] = hexv(s[i+1]) * 16 + hexv(s[i+2]); i += 2; } else t[k++] = s[i];
	}
	t[k] = 0;
	r = __real_malloc(k + 1); memcpy(r, t, k + 1); __real_free(t);
	return r;
}
#define JUNK(f) (!memcmp(&st->f, &junk.f, sizeof st->f))
static void put_stat(struct stat *st)
{
	struct stat junk; /* what the buffer held before the call */
	memset(&junk, 0x5A, sizeof junk);
	o(",\"st\":{\"mode\":%u,\"nlink\":%lu,\"sizehi\":%lld,\"sizelo\":%lld,\"mthi\":%lld,\"mtlo\":%lld,\"athi\":%lld,\"atlo\":%lld,\"cthi\":%lld,\"ctlo\":%lld,\"maj\":%u,\"min\":%u,\"junk\":%d}",
	  (unsigned)st->st_mode, (unsigned long)st->st_nlink,
	  (long long)st->st_size >> 20, (long long)st->st_size & 0xfffff,
	  (long long)st->st_mtime >> 20, (long long)st->st_mtime & 0xfffff,
	  (long long)st->st_atime >> 20, (long long)st->st_atime & 0xfffff,
	  (long long)st->st_ctime >> 20, (long long)st->st_ctime & 0xfffff,
	  gnu_dev_major(st->st_rdev), gnu_dev_minor(st->st_rdev),
	  JUNK(st_dev) + JUNK(st_ino) + JUNK(st_uid) + JUNK(st_gid) + JUNK(st_rdev) + JUNK(st_size) + JUNK(st_blksize) + JUNK(st_blocks));
}
static void put_valid(void)
{
	int i, first = 1, lim = OUTFD;
	o(",\"valid\":[");
	for (i = 0; i < lim; i++) {
		if (SQUASH_VALID_VFD(i)) { o("%s%d", first ? "" : ",", i); first = 0; }
	}
	o("]");
}

/* scandir callbacks; the stdlib-facing bodies must not count allocations */
static int f_none(const struct SQUASH_DIRENT *e) { (void)e; errno = 77; return 0; }
static int f_all(const struct SQUASH_DIRENT *e) { (void)e; return 1; }
static int f_even(const struct SQUASH_DIRENT *e) { errno = 77; return strlen(e->d_name) % 2 == 0 ? -7 : 0; }
static int f_dirs(const struct SQUASH_DIRENT *e) { errno = 77; return e->d_type == DT_DIR; }
static int f_ino3(const struct SQUASH_DIRENT *e) { return e->d_ino % 3 == 0; }
static int c_alpha(const struct SQUASH_DIRENT **a, const struct SQUASH_DIRENT **b) { errno = 77; return strcmp((*a)->d_name, (*b)->d_name); }
static int c_rev(const struct SQUASH_DIRENT **a, const struct SQUASH_DIRENT **b) { return strcmp((*b)->d_name, (*a)->d_name); }
static int c_ino(const struct SQUASH_DIRENT **a, const struct SQUASH_DIRENT **b) { return (*a)->d_ino < (*b)->d_ino ? -1 : (*a)->d_ino > (*b)->d_ino; }
/* callbacks that use the library themselves */
static sqfs *scan_fs; static const char *scan_path;
static int f_calls(const struct SQUASH_DIRENT *e)
{
	struct SQUASH_DIRENT copy = *e, **l; struct stat st; SQUASH_DIR *d; int i, n, fd; char b[64];
	squash_stat(scan_fs, scan_path, &st);
	squash_stat(scan_fs, e->d_name, &st);
	if ((fd = squash_open(scan_fs, e->d_name)) >= 0) { squash_read(fd, b, sizeof b); squash_close(fd); }
	if ((d = squash_opendir(scan_fs, scan_path))) { for (i = 0; i < 3; i++) squash_readdir(d); squash_closedir(d); }
	if ((n = squash_scandir(scan_fs, "/", &l, NULL, NULL)) >= 0) { for (i = 0; i < n; i++) __wrap_free(l[i]); __wrap_free(l); }
	return e->d_ino == copy.d_ino && e->d_type == copy.d_type && !strcmp(e->d_name, copy.d_name);
}
static int c_calls(const struct SQUASH_DIRENT **a, const struct SQUASH_DIRENT **b)
{
	struct stat st; SQUASH_DIR *d;
	squash_lstat(scan_fs, (*b)->d_name, &st);
	if ((d = squash_opendir(scan_fs, scan_path))) { squash_readdir(d); squash_closedir(d); }
	return strcmp((*a)->d_name, (*b)->d_name);
}
typedef int (*selfn)(const struct SQUASH_DIRENT *);
typedef int (*cmpfn)(const struct SQUASH_DIRENT **, const struct SQUASH_DIRENT **);
static selfn sels[] = { NULL, f_all, f_none, f_even, f_dirs, f_ino3, f_calls };
static cmpfn cmps[] = { NULL, c_alpha, c_rev, c_ino, c_calls };

static const char *tname(int t)
{
	switch (t) { case DT_DIR: return "dir"; case DT_REG: return "reg"; case DT_LNK: return "lnk";
	case DT_BLK: return "blk"; case DT_CHR: return "chr"; case DT_FIFO: return "fifo"; case DT_SOCK: return "sock"; }
	return "?";
}
static void put_dirent(struct SQUASH_DIRENT *e)
{
	put_str("name", e->d_name, strnlen(e->d_name, 256));
	o(",\"ino\":%llu,\"type\":\"%s\"", (unsigned long long)e->d_ino, tname(e->d_type));
}

/* hash / stack */
/* containers: values are blocks of vs bytes derived from an int, checked when read back */
#define NCON 8
static struct { sqfs_hash h; int on; size_t vs; } hst[NCON];
static struct { sqfs_stack s; int on; size_t vs; } stt[NCON];
static int freed_log[65536], nfreed; static size_t cur_vs;
static void con_put(unsigned char *p, size_t vs, unsigned v) { size_t i; for (i = 0; i < vs; i++) p[i] = (unsigned char)(v >> (8 * (i % 4))) ^ (unsigned char)(i / 4); }
static long con_get(const unsigned char *p, size_t vs)
{
	size_t i; unsigned v = 0;
	for (i = 0; i < 4 && i < vs; i++) v |= (unsigned)p[i] << (8 * i);
	for (i = 4; i < vs; i++) if ((p[i] ^ (unsigned char)(i / 4)) != (unsigned char)(v >> (8 * (i % 4)))) return -1;
	return v;
}
static void stk_freer(void *v) { if (nfreed < 65536) freed_log[nfreed++] = con_get(v, cur_vs); }
static void out_freed(void) { int i; o(",\"freed\":["); for (i = 0; i < nfreed; i++) o("%s%d", i ? "," : "", freed_log[i]); o("]"); }

#ifdef SAMPLE
#define OP(s) (!strcmp(a[0], s))
#define A(i) atoll(a[i])
#include "sample_ops.h"
#undef OP
#undef A
#endif
/* with threads, the number of a closed descriptor may be another thread's by now: nobody uses it after a failed open */
#ifdef CONC
enum { own_fds = 1 };
#else
enum { own_fds = 0 };
#endif
static void quiesce(void)
{
	int i;
#ifdef SAMPLE
	sample_quiesce();
#endif
	in_lib = 1;
	for (i = 0; i < NSLOT; i++) {
		if (trvs[i]) { sqfs_traverse_close(&trvs[i]->t); in_lib = 0; __real_free(trvs[i]); in_lib = 1; trvs[i] = NULL; }
		if (dirs[i]) { squash_closedir(dirs[i]); dirs[i] = NULL; }
	}
	for (i = 0; i < OUTFD; i++) if (SQUASH_VALID_VFD(i)) squash_close(i);
	squash_extract_clear_cache();
	for (i = 0; i < NHDL; i++) if (hdl[i]) { sqfs_destroy(hdl[i]); hdl[i] = NULL; }
	in_lib = 0;
	for (i = 0; i < NSLOT; i++) if (sysfd[i] > 0) { close(sysfd[i]); sysfd[i] = 0; }
}
static void session_start(void)
{
	int i;
	base_nfd = nfds();
	for (i = 0; i < NSLOT; i++) vfd[i] = -1;
#ifdef SAMPLE
	for (i = 0; i < NSLOT; i++) evf[i] = -1;
#endif
	in_lib = 1; squash_start(); in_lib = 0;
}

static void step(char *line)
{
	char *a[16]; int n = 0; char *sv = NULL, *t;
	for (t = strtok_r(line, " ", &sv); t && n < 16; t = strtok_r(NULL, " ", &sv)) a[n++] = t;
	if (!n) return;
#define OP(s) (!strcmp(a[0], s))
#define A(i) atoll(a[i])
	alarm(30);
	if (OP("prior")) { prior = A(1); return; }
	if (OP("fail")) { /* fail kind k: the k-th allocation/... of the next call fails */
		fail_at = fdup_at = func_at = ffop_at = ffw_at = frnd_n = frnd_on = 0;
		if (!strcmp(a[1], "alloc")) fail_at = A(2);
		else if (!strcmp(a[1], "dup")) fdup_at = A(2);
		else if (!strcmp(a[1], "unc")) func_at = A(2);
		else if (!strcmp(a[1], "fopen")) ffop_at = A(2);
		else if (!strcmp(a[1], "fwrite")) ffw_at = A(2);
		else if (!strcmp(a[1], "rand")) frnd_n = frnd_on = A(2);
		alloc_no = dup_no = unc_no = fop_no = fw_no = 0; fail_hit = 0;
		return;
	}
	if (OP("warm") || OP("coldwarm")) { /* settle one-time allocations: image id, path of a file */
		int pp[2], pid = 0, fd; long n = 0;
		if (OP("coldwarm")) { /* ... in a child: this process stays as it is, but learns the number */
			if (pipe(pp)) _exit(95);
			pid = fork();
			if (pid < 0) _exit(95);
		}
		if (!pid) {
			sqfs *f = __real_malloc(sizeof *f); char *p = dec(a[2]); const char *x;
			in_lib = 1;
			if (sqfs_open_image(f, imgs[A(1)].buf, imgs[A(1)].off) == SQFS_OK) {
				fd = squash_open(f, p); if (fd >= 0) squash_close(fd);
				x = squash_extract(f, p, NULL); (void)x;
				squash_extract_clear_cache();
				for (fd = 0; fd < OUTFD; fd++) if (SQUASH_VALID_VFD(fd)) squash_close(fd);
				sqfs_destroy(f);
			}
			in_lib = 0;
			__real_free(f); __real_free(p);
			if (OP("coldwarm")) { if (write(pp[1], &live, sizeof live) != sizeof live) _exit(95); _exit(0); }
		} else {
			int st; close(pp[1]);
			if (read(pp[0], &n, sizeof n) != sizeof n) _exit(95);
			close(pp[0]); waitpid(pid, &st, 0);
		}
		base_nfd = nfds();
		if (pid) { on = 0; o("{\"x\":\"warm\",\"nfd\":0,\"live\":%ld,\"held\":0}\n", n); out_raw(ob, on); }
		else { ev_begin("warm"); ev_end(); }
		return;
	}
	ev_begin(a[0]);
#ifdef SAMPLE
	if (a[0][0] == 'e' && sample_step(a, n)) { ev_end(); return; }
#endif
	if (((OP("readdir") || OP("readdirs") || OP("telldir") || OP("seekdir") || OP("rewinddir") || OP("dirfd") || OP("closedir")) && !dirs[A(1)])
	    || ((OP("tnext") || OP("tprune") || OP("tclose")) && !trvs[A(1)]) || (OP("dnext") && !(lds[A(1)] && lds[A(1)]->ok))
	    || (a[0][0] == 'h' && (OP("hadd") || OP("hget") || OP("hput") || OP("hdel") || OP("hfree")) && !hst[A(1)].on)
	    || (a[0][0] == 's' && (OP("spush") || OP("spop") || OP("stop") || OP("sat") || OP("sfree")) && !stt[A(1)].on)
	    || (OP("imgclose") && !hdl[A(1)]) || (OP("sysclose") && !sysfd[A(1)])) {
		ev_begin("skip"); reterr(0);
	} else if (OP("img")) { /* img handle image */
		sqfs_err r; int h = A(1); struct img *m = &imgs[A(2)];
		sqfs *f = &hstore[h]; memset(f, 0x5A, sizeof *f);
		CALL(r = (n > 3 && A(3)) ? sqfs_init(f, m->buf, m->off) : sqfs_open_image(f, m->buf, m->off));
		reterr(r);
		if (r == SQFS_OK) {
			int mj, mn; sqfs_version(f, &mj, &mn);
			o(",\"ver\":[%d,%d],\"comp\":%d", mj, mn, (int)sqfs_compression(f));
			hdl[h] = f;
		}
	} else if (OP("imgclose")) {
		int h = A(1);
		CALL(sqfs_destroy(hdl[h])); reterr(0);
		memset(hdl[h], 0x5A, sizeof(sqfs)); hdl[h] = NULL;
	} else if (OP("alias")) { /* alias handle which prefix */
		char *p = dec(a[3]);
		if (A(2) == 1) hdl[A(1)]->root_alias = p; else hdl[A(1)]->root_alias2 = p;
		reterr(0);
	} else if (OP("open")) { /* open slot handle path */
		char *p = dec(a[3]); int r;
		CALL(r = squash_open(hdl[A(2)], p)); __real_free(p);
		if (r >= 0 || own_fds) vfd[A(1)] = r;
		reterr(r); put_valid();
	} else if (OP("opennf")) {
		char *p = dec(a[3]); int r;
		CALL(r = squash_open_inner(hdl[A(2)], p, 0)); __real_free(p);
		if (r >= 0 || own_fds) vfd[A(1)] = r;
		reterr(r); put_valid();
	} else if (OP("close") || OP("closen")) {
		int r, f = OP("close") ? vfd[A(1)] : (int)A(1);
		CALL(r = squash_close(f)); o(",\"fd\":%d", f); reterr(r); put_valid();
	} else if (OP("read") || OP("readn")) {
		int f = OP("read") ? vfd[A(1)] : (int)A(1); long long want = A(2); ssize_t r;
		char *b = big_buffer(want);
		CALL(r = squash_read(f, b, want)); o(",\"fd\":%d", f); reterr(r);
		put_bytes(b, r > 0 ? (r > want ? want : r) : 0);
		big_free(b, want);
	} else if (OP("lseek") || OP("lseekn")) {
		int f = OP("lseek") ? vfd[A(1)] : (int)A(1); off_t r;
		CALL(r = squash_lseek(f, A(2), A(3)));
		o(",\"fd\":%d,\"rhi\":%lld,\"rlo\":%lld", f, (long long)r >> 20, (long long)r & 0xfffff); reterr(r < 0 ? -1 : 0);
	} else if (OP("fstat") || OP("fstatn")) {
		int f = OP("fstat") ? vfd[A(1)] : (int)A(1); struct stat st; int r;
		memset(&st, 0x5A, sizeof st);
		CALL(r = squash_fstat(f, &st)); o(",\"fd\":%d", f); reterr(r);
		if (r == 0) put_stat(&st);
	} else if (OP("stat") || OP("lstat")) {
		char *p = dec(a[2]); struct stat st; int r;
		memset(&st, 0x5A, sizeof st);
		CALL(r = OP("stat") ? squash_stat(hdl[A(1)], p, &st) : squash_lstat(hdl[A(1)], p, &st));
		__real_free(p); reterr(r);
		if (r == 0) put_stat(&st);
	} else if (OP("readlink")) { /* readlink handle path bufsize */
		char *p = dec(a[2]); size_t bs = A(3); ssize_t r; char *b = __real_malloc(bs);
		if (bs) memset(b, 0x7E, bs);
		CALL(r = squash_readlink(hdl[A(1)], p, b, bs)); __real_free(p); reterr(r);
		if (r >= 0) put_str("target", b, (size_t)r <= bs ? (size_t)r : bs);
		__real_free(b);
	} else if (OP("opendir") || OP("opendirnf")) { /* opendir dslot handle path */
		char *p = dec(a[3]); SQUASH_DIR *d; int s = A(1);
		CALL(d = OP("opendir") ? squash_opendir(hdl[A(2)], p) : squash_opendir_inner(hdl[A(2)], p, 0)); __real_free(p);
		reterr(d ? 0 : -1);
		if (d) { dirs[s] = d; o(",\"fd\":%d,\"found\":%d", squash_dirfd(d), squash_find_entry(d) != NULL && squash_find_entry(d) == SQUASH_VFD_FILE(squash_dirfd(d))); }
		put_valid();
	} else if (OP("readdir")) {
		struct SQUASH_DIRENT *e; int r;
		CALL(e = squash_readdir(dirs[A(1)])); r = e != NULL; reterr(r); o(",\"prior\":%d", prior);
		if (e) put_dirent(e);
	} else if (OP("readdirs")) { /* readdirs dslot k: k reads in a row, or to the end */
		struct SQUASH_DIRENT *e = NULL; long k = A(2), i; int first = 1;
		o(",\"list\":[");
		for (i = 0; k < 0 || i < k; i++) {
			CALL(e = squash_readdir(dirs[A(1)]));
			if (!e) break;
			o("%s{\"k\":1", first ? "" : ","); put_dirent(e); o("}"); first = 0;
		}
		o("]"); reterr(e != NULL);
	} else if (OP("telldir")) { /* telldir dslot tslot */
		long r; CALL(r = squash_telldir(dirs[A(1)])); tells[A(2)] = r; reterr(0);
	} else if (OP("seekdir")) {
		CALL(squash_seekdir(dirs[A(1)], tells[A(2)])); reterr(0);
	} else if (OP("rewinddir")) {
		CALL(squash_rewinddir(dirs[A(1)])); reterr(0);
	} else if (OP("dirfd")) {
		int r; CALL(r = squash_dirfd(dirs[A(1)])); reterr(r);
	} else if (OP("closedir")) {
		int r; CALL(r = squash_closedir(dirs[A(1)])); dirs[A(1)] = NULL; reterr(r); put_valid();
	} else if (OP("scandir")) { /* scandir handle path sel cmp */
		char *p = dec(a[2]); struct SQUASH_DIRENT **l = (void *)0x10; int r, i; scan_fs = hdl[A(1)]; scan_path = p;
		CALL(r = squash_scandir(hdl[A(1)], p, &l, sels[A(3)], cmps[A(4)])); __real_free(p);
		reterr(r);
		o(",\"list\":[");
		for (i = 0; i < r; i++) { o("%s{\"k\":1", i ? "," : ""); put_dirent(l[i]); o("}"); }
		o("]");
		if (r >= 0) { for (i = 0; i < r; i++) __wrap_free(l[i]); __wrap_free(l); }
		put_valid();
	} else if (OP("extract")) { /* extract handle path ext|- mode */
		char *p = dec(a[2]), *ext = strcmp(a[3], "-") ? dec(a[3]) : NULL; const char *r; int mode = A(4); char *arg;
		if (mode) { strcpy(pathbuf, p); arg = pathbuf; } else arg = p;
		CALL(r = squash_extract(hdl[A(1)], arg, ext));
		reterr(r ? 0 : -1);
		if (mode) memset(pathbuf, 'Q', strlen(pathbuf)); else memset(p, 'Q', strlen(p));
		__real_free(p);
		if (r) {
			size_t tl = strlen(tmpd), el; struct stat st; int f; const char *bn; size_t rl;
			char *rc = __real_malloc(strlen(r) + 1); strcpy(rc, r); rl = strlen(rc); el = ext ? strlen(ext) : 0;
			o(",\"intmp\":%d", !strncmp(rc, tmpd, tl) && rc[tl] == '/' && !strchr(rc + tl + 1, '/'));
			bn = strrchr(rc, '/'); bn = bn ? bn + 1 : rc;
			put_str("tmp", bn, strlen(bn));
			o(",\"hasext\":%d", !ext || (rl > el + 1 && rc[rl - el - 1] == '.' && !strcmp(rc + rl - el, ext)));
			f = open(rc, O_RDONLY);
			if (f >= 0) {
				char *b; size_t got = 0; fstat(f, &st); b = __real_malloc(st.st_size + 1);
				while (1) { ssize_t k = read(f, b + got, st.st_size + 1 - got); if (k <= 0) break; got += k; if (got > (size_t)st.st_size) break; }
				close(f); put_bytes(b, got); __real_free(b); o(",\"exists\":1");
			} else o(",\"exists\":0");
			__real_free(rc);
		}
		if (ext) __real_free(ext);
		o(",\"ntmp\":%d", ntmp()); put_valid();
	} else if (OP("clear")) {
		CALL(squash_extract_clear_cache()); reterr(0); o(",\"ntmp\":%d", ntmp());
	} else if (OP("halt")) { /* the end of the program, in a child; nothing follows it */
		int st = -1; pid_t c = fork();
		if (c == 0) { alarm(20); exit(0); }
		if (c < 0 || waitpid(c, &st, 0) != c) _exit(95);
		saved_errno = 0; reterr(WIFEXITED(st) ? WEXITSTATUS(st) : -1); o(",\"ntmp\":%d", ntmp());
	} else if (OP("topen")) { /* topen slot handle path(lstat style) */
		int s = A(1); char *p = dec(a[3]); sqfs_err r; sqfs_inode node; short found = 0; sqfs *f = hdl[A(2)];
		trvs[s] = __real_malloc(sizeof(struct trv)); memset(trvs[s], 0x5A, sizeof(struct trv));
		char *sl = strrchr(p, '/');
		if (A(4) && (!sl || (sl[1] && strcmp(sl, "/.") && strcmp(sl, "/..")))) {
			/* by the inode's id, as an entry of its directory or the superblock gives it */
			sqfs_name nb; sqfs_dir_entry en; char *nm = sl ? sl + 1 : p; size_t nl = strlen(nm); char q = nm[0];
			sqfs_dentry_init(&en, nb);
			CALL(r = sqfs_inode_get(f, &node, sqfs_inode_root(f));
			     nm[0] = 0; if (!r) r = sqfs_lookup_path(f, &node, p, &found); nm[0] = q;
			     if (!r && !found) r = 77;
			     if (!r && nl && strcmp(nm, ".") && strcmp(nm, "..")) { r = sqfs_dir_lookup(f, &node, nm, nl, &en, &found);
			       if (!r && !found) r = 77;
			       if (!r) r = sqfs_traverse_open(&trvs[s]->t, f, sqfs_dentry_inode(&en)); }
			     else if (!r) r = nl > 1 ? 77 : sqfs_traverse_open(&trvs[s]->t, f, sqfs_inode_root(f)));
		} else
		CALL(r = sqfs_inode_get(f, &node, sqfs_inode_root(f));
		     if (!r) r = sqfs_lookup_path(f, &node, p, &found);
		     if (!r && !found) r = 77;
		     if (!r) r = sqfs_traverse_open_inode(&trvs[s]->t, f, &node));
		__real_free(p); reterr(r);
		if (r) { __real_free(trvs[s]); trvs[s] = NULL; }
	} else if (OP("tnext")) {
		short r; sqfs_err e; struct trv *t = trvs[A(1)];
		CALL(r = sqfs_traverse_next(&t->t, &e)); reterr(r); o(",\"terr\":%d", (int)e);
		if (r) {
			o(",\"end\":%d", t->t.dir_end ? 1 : 0);
			put_str("path", t->t.path, strlen(t->t.path));
			if (!t->t.dir_end) {
				const char *nm = sqfs_dentry_name(&t->t.entry);
				put_str("name", nm, strlen(nm));
				o(",\"ino\":%u,\"isdir\":%d,\"len\":%zu,\"type\":\"%s\"", sqfs_dentry_inode_num(&t->t.entry), sqfs_dentry_is_dir(&t->t.entry) ? 1 : 0,
				  sqfs_dentry_name_size(&t->t.entry), tname(IFTODT(sqfs_dentry_mode(&t->t.entry))));
			}
		}
	} else if (OP("tprune")) {
		sqfs_err r; CALL(r = sqfs_traverse_prune(&trvs[A(1)]->t)); reterr(r);
	} else if (OP("tclose")) {
		CALL(sqfs_traverse_close(&trvs[A(1)]->t)); reterr(0); __real_free(trvs[A(1)]); trvs[A(1)] = NULL;
	} else if (OP("dopen")) { /* dopen slot handle path offset */
		int s = A(1); char *p = dec(a[3]); sqfs_err r; sqfs_inode node; short found = 0; sqfs *f = hdl[A(2)];
		if (!lds[s]) lds[s] = __real_malloc(sizeof(struct ld));
		lds[s]->fs = f; lds[s]->ok = 0;
		CALL(r = sqfs_inode_get(f, &node, sqfs_inode_root(f));
		     if (!r) r = sqfs_lookup_path(f, &node, p, &found);
		     if (!r && !found) r = 77;
		     if (!r) r = sqfs_dir_open(f, &node, &lds[s]->d, A(4)));
		__real_free(p); reterr(r); lds[s]->ok = r == 0;
	} else if (OP("dnext")) {
		struct ld *l = lds[A(1)]; sqfs_err e; short r;
		sqfs_dentry_init(&l->e, l->nm);
		CALL(r = sqfs_dir_next(l->fs, &l->d, &l->e, &e)); reterr(r); o(",\"terr\":%d", (int)e);
		if (r) {
			put_str("name", sqfs_dentry_name(&l->e), sqfs_dentry_name_size(&l->e));
			o(",\"ino\":%u,\"type\":\"%s\",\"off\":%lld,\"next\":%lld", sqfs_dentry_inode_num(&l->e), tname(IFTODT(sqfs_dentry_mode(&l->e))),
			  (long long)sqfs_dentry_offset(&l->e), (long long)sqfs_dentry_next_offset(&l->e));
		}
	} else if (OP("export")) { /* export handle n */
		sqfs *f = hdl[A(1)]; sqfs_inode_id id; sqfs_inode node; sqfs_err r, r2 = 0; struct stat st;
		o(",\"ok\":%d", sqfs_export_ok(f) ? 1 : 0);
		CALL(r = sqfs_export_inode(f, A(2), &id); if (!r) r2 = sqfs_inode_get(f, &node, id));
		reterr(r ? r : r2);
		if (!r && !r2) { memset(&st, 0x5A, sizeof st); CALL(sqfs_stat(f, &node, &st)); o(",\"ino\":%u", node.base.inode_number); put_stat(&st); }
	} else if (OP("idget")) {
		sqfs_id_t id = 0; sqfs_err r; CALL(r = sqfs_id_get(hdl[A(1)], A(2), &id)); reterr(r);
		o(",\"hi\":%u,\"lo\":%u", (unsigned)id >> 20, (unsigned)id & 0xfffff);
	} else if (OP("owner")) { /* owner handle path: stored owner ids of an entry */
		sqfs *f = hdl[A(1)]; char *p = dec(a[2]); sqfs_inode node; short found = 0; sqfs_err r; sqfs_id_t u = 0, g = 0;
		CALL(r = sqfs_inode_get(f, &node, sqfs_inode_root(f));
		     if (!r) r = sqfs_lookup_path(f, &node, p, &found);
		     if (!r && !found) r = 77;
		     if (!r) r = sqfs_id_get(f, node.base.uid, &u);
		     if (!r) r = sqfs_id_get(f, node.base.guid, &g));
		__real_free(p); reterr(r);
		o(",\"u\":[%u,%u],\"g\":[%u,%u]", (unsigned)u >> 20, (unsigned)u & 0xfffff, (unsigned)g >> 20, (unsigned)g & 0xfffff);
	} else if (OP("dlook")) { /* dlook handle dir name : one name in one directory */
		sqfs *f = hdl[A(1)]; char *d = dec(a[2]), *p = dec(a[3]); sqfs_inode node; short found = 0; sqfs_err r, r2 = 0; sqfs_name nb; sqfs_dir_entry en;
		size_t nl = strlen(p); char *nm = __real_malloc(nl + 3); memcpy(nm, p, nl); strcpy(nm + nl, "QQ"); __real_free(p);
		sqfs_dentry_init(&en, nb);
		CALL(r = sqfs_inode_get(f, &node, sqfs_inode_root(f));
		     if (!r) r = sqfs_lookup_path(f, &node, d, &found);
		     if (!r && !found) r = 77;
		     if (!r) r2 = sqfs_dir_lookup(f, &node, nm, nl, &en, &found));
		__real_free(d); __real_free(nm); reterr(r ? r : r2);
		if (!r && !r2) {
			o(",\"found\":%d", found ? 1 : 0);
			if (found) { put_str("name", sqfs_dentry_name(&en), sqfs_dentry_name_size(&en)); o(",\"ino\":%u,\"type\":\"%s\"", sqfs_dentry_inode_num(&en), tname(IFTODT(sqfs_dentry_mode(&en)))); }
		}
	} else if (OP("lookat")) { /* lookat handle dir path follow : lookup that starts at an entry other than the root */
		sqfs *f = hdl[A(1)]; char *d = dec(a[2]), *p = dec(a[3]); sqfs_inode node; short found = 0; sqfs_err r; int fl = A(4); struct stat st;
		CALL(r = sqfs_inode_get(f, &node, sqfs_inode_root(f));
		     if (!r) r = sqfs_lookup_path(f, &node, d, &found);
		     if (!r && !found) r = 77;
		     if (!r) r = fl ? sqfs_lookup_path_inner(f, &node, p, &found, 1) : sqfs_lookup_path(f, &node, p, &found);
		     if (!r && !found) r = 77);
		__real_free(d); __real_free(p); reterr(r);
		if (!r) { memset(&st, 0x5A, sizeof st); CALL(sqfs_stat(f, &node, &st)); o(",\"ino\":%u", node.base.inode_number); put_stat(&st); }
	} else if (OP("rr")) { /* rr handle path off n : low level range read, follows links */
		sqfs *f = hdl[A(1)]; char *p = dec(a[2]); sqfs_inode node; short found = 0; sqfs_err r; sqfs_off_t sz = A(4);
		char *b = big_buffer(sz);
		CALL(r = sqfs_inode_get(f, &node, sqfs_inode_root(f));
		     if (!r) r = sqfs_lookup_path_inner(f, &node, p, &found, 1);
		     if (!r && !found) r = 77;
		     if (!r) r = sqfs_read_range(f, &node, A(3), &sz, b));
		__real_free(p); reterr(r); o(",\"got\":%lld", r ? 0LL : small(sz));
		put_bytes(b, r == SQFS_OK && sz > 0 ? sz : 0); big_free(b, A(4));
	} else if (OP("rlk")) { /* rlk handle path size : low level truncating readlink */
		sqfs *f = hdl[A(1)]; char *p = dec(a[2]); sqfs_inode node; short found = 0; sqfs_err r; size_t sz = A(3); char *b = __real_malloc(sz);
		CALL(r = sqfs_inode_get(f, &node, sqfs_inode_root(f));
		     if (!r) r = sqfs_lookup_path(f, &node, p, &found);
		     if (!r && !found) r = 77;
		     if (!r) r = sqfs_readlink(f, &node, sz ? b : NULL, &sz));
		__real_free(p); reterr(r);
		if (!r && A(3)) put_str("target", b, strnlen(b, A(3)));
		o(",\"need\":%zu", sz); __real_free(b);
	} else if (OP("sysopen")) {
		int r = open("/dev/null", O_RDONLY); sysfd[A(1)] = r; reterr(r);
	} else if (OP("sysclose")) {
		close(sysfd[A(1)]); reterr(0); o(",\"fd\":%d", sysfd[A(1)]); sysfd[A(1)] = 0;
	} else if (OP("probe")) {
		put_valid(); reterr(0);
	} else if (OP("neg")) { /* every operation on a bad descriptor number */
		int f = A(1), i, rs[4], es[4]; struct stat st; char b[4];
		for (i = 0; i < 4; i++) {
			CALL(rs[i] = i == 0 ? (int)squash_read(f, b, 4) : i == 1 ? (int)squash_lseek(f, 0, 0) : i == 2 ? squash_fstat(f, &st) : squash_close(f));
			es[i] = saved_errno;
		}
		o(",\"fd\":%d,\"rs\":[%d,%d,%d,%d],\"es\":[%d,%d,%d,%d]", f, rs[0], rs[1], rs[2], rs[3], es[0], es[1], es[2], es[3]);
		o(",\"v\":%d", SQUASH_VALID_VFD(f) ? 1 : 0); reterr(0); put_valid();
	} else if (OP("findent")) {
		int x; struct squash_file *r; CALL(r = squash_find_entry(&x)); reterr(r != NULL);
	} else if (OP("quiesce")) {
		quiesce(); saved_errno = 0; reterr(0); o(",\"ntmp\":%d", ntmp()); put_valid();
	} else if (OP("hinit")) { /* table capacity valuesize */
		sqfs_err r; int t = A(1); hst[t].vs = A(3);
		CALL(r = sqfs_hash_init(&hst[t].h, A(3), A(2))); hst[t].on = !r; reterr(r);
	} else if (OP("hadd")) { /* table key value */
		sqfs_err r; int t = A(1); unsigned char v[256]; con_put(v, hst[t].vs, A(3));
		CALL(r = sqfs_hash_add(&hst[t].h, (sqfs_hash_key)strtoul(a[2], NULL, 10), v)); reterr(r);
	} else if (OP("hget") || OP("hput")) { /* table key [value written through the pointer returned] */
		unsigned char *v; int t = A(1); long x = -1;
		CALL(v = sqfs_hash_get(&hst[t].h, (sqfs_hash_key)strtoul(a[2], NULL, 10))); reterr(v != NULL);
		if (v) x = con_get(v, hst[t].vs);
		o(",\"v\":%ld", x);
		if (v && OP("hput")) con_put(v, hst[t].vs, A(3));
	} else if (OP("hdel")) {
		sqfs_err r; int t = A(1); CALL(r = sqfs_hash_remove(&hst[t].h, (sqfs_hash_key)strtoul(a[2], NULL, 10))); reterr(r);
	} else if (OP("hfree")) {
		int t = A(1); CALL(sqfs_hash_destroy(&hst[t].h)); hst[t].on = 0; reterr(0);
	} else if (OP("sinit")) { /* stack capacity valuesize freer? ; capacity -1: sqfs_stack_init only */
		sqfs_err r = 0; int t = A(1); stt[t].vs = cur_vs = A(3);
		memset(&stt[t].s, 0x5A, sizeof stt[t].s);
		if (A(2) < 0) CALL(sqfs_stack_init(&stt[t].s));
		else CALL(r = sqfs_stack_create(&stt[t].s, A(3), A(2), A(4) ? stk_freer : NULL));
		stt[t].on = !r; reterr(r);
	} else if (OP("spush")) {
		sqfs_err r; int t = A(1); unsigned char *p = NULL; cur_vs = stt[t].vs;
		CALL(r = sqfs_stack_push(&stt[t].s, &p)); if (!r) con_put(p, cur_vs, A(2)); reterr(r);
		o(",\"size\":%zu", sqfs_stack_size(&stt[t].s));
	} else if (OP("spop")) {
		int r, t = A(1); cur_vs = stt[t].vs; nfreed = 0;
		CALL(r = sqfs_stack_pop(&stt[t].s)); reterr(r); o(",\"size\":%zu", sqfs_stack_size(&stt[t].s)); out_freed();
	} else if (OP("stop") || OP("sat")) {
		sqfs_err r; int t = A(1); unsigned char *p = NULL; cur_vs = stt[t].vs;
		if (OP("stop")) CALL(r = sqfs_stack_top(&stt[t].s, &p)); else CALL(r = sqfs_stack_at(&stt[t].s, A(2), &p));
		reterr(r); o(",\"v\":%ld,\"size\":%zu", r ? -1L : con_get(p, cur_vs), sqfs_stack_size(&stt[t].s));
	} else if (OP("sfree")) {
		int t = A(1); cur_vs = stt[t].vs; nfreed = 0;
		CALL(sqfs_stack_destroy(&stt[t].s)); reterr(0); o(",\"size\":%zu", sqfs_stack_size(&stt[t].s)); out_freed();
	} else {
		o(",\"bad\":1");
	}
	ev_end();
	fail_at = fdup_at = func_at = ffop_at = ffw_at = frnd_n = frnd_on = 0; fail_hit = 0;
}

#ifndef CONC
int main(int argc, char **argv)
{
	FILE *f; char *buf; size_t len, i; char **lines; size_t nl = 0, cap = 1024;
	int fd;
	struct rlimit rl = { 1024, 1024 };
	if (argc < 4) return 2;
	setrlimit(RLIMIT_NOFILE, &rl);
	rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
	tmpd = getenv("VTMP"); if (!tmpd) tmpd = getenv("TMPDIR"); if (!tmpd) return 2;
#ifdef SAMPLE
	eroot = getenv("SAMPLE_ROOT"); if (!eroot) return 2;
#endif
	f = __real_fopen(argv[1], "r"); if (!f) return 2;
	fseek(f, 0, SEEK_END); len = ftell(f); rewind(f);
	buf = __real_malloc(len + 1); if (fread(buf, 1, len, f) != len) return 2; buf[len] = 0; fclose(f);
	fd = open(argv[2], O_WRONLY | O_CREAT | O_APPEND, 0644); dup2(fd, OUTFD); close(fd);
	fd = open(argv[3], O_WRONLY | O_CREAT | O_APPEND, 0644); dup2(fd, BYTFD); close(fd);
	fd = open("/dev/null", O_RDONLY); dup2(fd, 0); if (fd) close(fd);
	ocap = 1 << 16; ob = __real_malloc(ocap);
	lines = __real_malloc(cap * sizeof *lines);
	for (i = 0; i < len; ) {
		size_t j = i; while (j < len && buf[j] != '\n') j++;
		buf[j] = 0;
		if (nl == cap) { cap *= 2; lines = __real_realloc(lines, cap * sizeof *lines); }
		lines[nl++] = buf + i; i = j + 1;
	}
	for (i = 0; i < nl; ) {
		if (lines[i][0] == 'I') {
			int id; char fn[4096]; long off; size_t k; struct img *m;
			if (sscanf(lines[i], "I %d %4095s %ld", &id, fn, &off) != 3) return 2;
			m = &imgs[id];
			f = __real_fopen(fn, "r"); if (!f) return 2;
			fseek(f, 0, SEEK_END); k = ftell(f); rewind(f);
			m->off = off; m->len = k;
			if (k > (1u << 30)) { /* mostly gaps */
				if (off % 4096) return 2;
				m->buf = mmap(NULL, off + k, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
				if (m->buf == MAP_FAILED || mmap(m->buf + off, k, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED | MAP_NORESERVE, fileno(f), 0) == MAP_FAILED) return 2;
			} else {
				/* as a rule where nothing may be written, with nothing behind it; else on the heap */
				size_t room = (off + k + 4095) / 4096 * 4096; uint8_t *q = NULL;
				if (id % 3 != 2) {
					q = mmap(NULL, room + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
					if (q == MAP_FAILED) return 2;
					m->buf = q + room - (off + k);
				} else m->buf = __real_malloc(off + k);
				memset(m->buf, 0xEE, off);
				if (fread(m->buf + off, 1, k, f) != k) return 2;
				if (q && (mprotect(q, room, PROT_READ) || mprotect(q + room, 4096, PROT_NONE))) return 2;
			}
			fclose(f); i++;
		} else if (lines[i][0] == 'S') {
			pid_t p; int st; size_t j = i + 1;
			while (j < nl && lines[j][0] != 'S') j++;
			byoff = lseek(BYTFD, 0, SEEK_END);
			p = fork();
			if (p == 0) {
				size_t k;
#ifdef SAMPLE
				umask(022);
				if (chdir(eroot) || setgroups(0, NULL) || setgid(65534) || setuid(65534) || getuid() != 65534) _exit(3);
#endif
				on = 0; o("{\"x\":\"S\",\"name\":\"%s\"}\n", lines[i] + 2); out_raw(ob, on);
				session_start();
				for (k = i + 1; k < j; k++) step(lines[k]);
				_exit(0);
			}
			if (p < 0 || waitpid(p, &st, 0) != p) return 2;
#ifdef SAMPLE
			if (WIFEXITED(st) && WEXITSTATUS(st) == 3) return 3;
#endif
			if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
				on = 0;
				o("\n{\"x\":\"crash\",\"code\":%d,\"sig\":%d,\"hang\":%d}\n", WIFEXITED(st) ? WEXITSTATUS(st) : -1, WIFSIGNALED(st) ? WTERMSIG(st) : 0,
				  WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM);
				out_raw(ob, on);
				if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { wipe_tmp(); return 0; }   /* enough to report */
			}
			wipe_tmp();
			i = j;
		} else i++;
	}
	return 0;
}
#endif
