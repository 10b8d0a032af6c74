/* Calls of the sample's system-call layer; part of driver.c when built with -DSAMPLE.
 * The process runs as an unprivileged user, and operating-system paths are below a
 * scratch directory ("^" in scripts and events). */
#include "enclose_io_common.h"
#include <sys/uio.h>
#include <grp.h>

void *__real_dlopen(const char *, int);
static char *eroot;
static int evf[NSLOT]; static DIR *edir[NSLOT]; static long etell[NSLOT];
static char eos[1024];
static char called_with[8192]; static int was_called; static char **called_argv;
void *__wrap_dlopen(const char *p, int m)
{
	(void)m; was_called = 1; snprintf(called_with, sizeof called_with, "%s", p ? p : "/null"); return (void *)called_with;
}
int __wrap_execv(const char *p, char *const argv[])
{
	int i, sv = in_lib;
	in_lib = 0;
	was_called = 1; snprintf(called_with, sizeof called_with, "%s", p);
	for (i = 0; argv[i]; i++) ;
	called_argv = __real_calloc(i + 1, sizeof(char *));
	for (i = 0; argv[i]; i++) { called_argv[i] = __real_malloc(strlen(argv[i]) + 1); strcpy(called_argv[i], argv[i]); }
	in_lib = sv;
	errno = ENOEXEC; return -1;
}
static char *epath(const char *tk)
{
	char *d, *r; size_t a = strlen(eroot), b;
	if (tk[0] != '^') return dec(tk);
	d = dec(tk + 1); b = strlen(d);
	r = __real_malloc(a + b + 1); memcpy(r, eroot, a); memcpy(r + a, d, b + 1); __real_free(d);
	return r;
}
/* a path the library gave out: below the scratch directory, or as it is */
static void put_path(const char *key, const char *p)
{
	size_t a = strlen(eroot), b = tmpd ? strlen(tmpd) : 0;
	if (!strncmp(p, eroot, a) && (p[a] == '/' || !p[a])) { o(",\"k%s\":\"os\"", key); put_str(key, p + a, strlen(p + a)); }
	else if (b && !strncmp(p, tmpd, b) && p[b] == '/') { o(",\"k%s\":\"tmp\"", key); put_str(key, p + b + 1, strlen(p + b + 1)); }
	else { o(",\"k%s\":\"as\"", key); put_str(key, p, strlen(p)); }
}
static void put_file(const char *p)
{
	struct stat st; int f = open(p, O_RDONLY); char *b; size_t got = 0;
	if (f < 0) { o(",\"exists\":0"); return; }
	fstat(f, &st); b = __real_malloc(st.st_size + 1);
	while (1) { ssize_t k = read(f, b + got, st.st_size + 1 - got); if (k <= 0) break; got += k; if (got > (size_t)st.st_size) break; }
	close(f); put_bytes(b, got); __real_free(b); o(",\"exists\":1");
}
static void sample_quiesce(void)
{
	int i;
	in_lib = 1;
	for (i = 0; i < NSLOT; i++) if (edir[i]) {
		int f = dirfd(edir[i]), v = squash_find_entry(edir[i]) != NULL;
		if (!v && f >= 0 && f < 1024) eos[f] = 0;
		enclose_io_closedir(edir[i]); edir[i] = NULL;
	}
	in_lib = 0;
	for (i = 0; i < 1024; i++) if (eos[i]) { close(i); eos[i] = 0; }
}
static int sample_step(char **a, int n)
{
	if ((OP("ereaddirs") || OP("etelldir") || OP("eseekdir") || OP("erewinddir") || OP("edirfd") || OP("eclosedir")) && !edir[A(1)]) {
		ev_begin("skip"); reterr(0); return 1;
	}
	if (OP("emount")) {
		enclose_io_fs = hdl[A(1)]; reterr(0);
	} else if (OP("eopen") || OP("eopenat")) { /* eopen slot path ; eopenat slot path dirslot(-1: AT_FDCWD) */
		char *p = epath(a[2]); int r, df = AT_FDCWD;
		if (OP("eopenat") && A(3) >= 0) df = evf[A(3)];
		CALL(r = OP("eopen") ? enclose_io_open(2, p, O_RDONLY) : enclose_io_openat(3, df, p, O_RDONLY)); __real_free(p);
		o(",\"virt\":%d,\"dfd\":%d", r >= 0 && SQUASH_VALID_VFD(r) ? 1 : 0, OP("eopenat") && A(3) >= 0 ? df : -100);
		if (r >= 0) { evf[A(1)] = r; if (!SQUASH_VALID_VFD(r)) eos[r] = 1; }
		reterr(r); put_valid();
	} else if (OP("emkdir")) { /* path mode */
		char *p = epath(a[1]); int r; CALL(r = enclose_io_mkdir(p, A(2))); __real_free(p); reterr(r); o(",\"wd\":%d", ntmp() > 0);
	} else if (OP("eopenf")) { /* slot path flags mode way: 0 open, 1 openat */
		char *p = epath(a[2]); int r, f = A(3), w = A(5), m = A(4), n3 = (f & O_CREAT) != 0;
		if (w) CALL(r = n3 ? enclose_io_openat(4, AT_FDCWD, p, f, (mode_t)m) : enclose_io_openat(3, AT_FDCWD, p, f));
		else CALL(r = n3 ? enclose_io_open(3, p, f, (mode_t)m) : enclose_io_open(2, p, f));
		__real_free(p);
		o(",\"virt\":%d", r >= 0 && SQUASH_VALID_VFD(r) ? 1 : 0);
		evf[A(1)] = r;
		if (r >= 0 && !SQUASH_VALID_VFD(r)) eos[r] = 1;
		reterr(r); put_valid(); o(",\"wd\":%d", ntmp() > 0);
	} else if (OP("ewrite")) { /* slot hex: the system's own call, which is not redirected; only to descriptors of the system */
		int f = evf[A(1)]; size_t k = strlen(a[2]) / 2, i; unsigned char b[512]; ssize_t r = -1;
		if (k > sizeof b) _exit(95);
		for (i = 0; i < k; i++) { unsigned v; sscanf(a[2] + 2 * i, "%2x", &v); b[i] = v; }
		if (f < 0 || f >= 1024 || !eos[f]) { ev_begin("skip"); reterr(0); return 1; }
		CALL(r = write(f, b, k)); o(",\"fd\":%d", f); reterr(r);
	} else if (OP("eexit")) { /* the end of the program, in a child */
		int st = -1; pid_t c = fork();
		if (c == 0) { alarm(20); exit(0); }
		if (c < 0 || waitpid(c, &st, 0) != c) _exit(95);
		saved_errno = 0; reterr(WIFEXITED(st) ? WEXITSTATUS(st) : -1); o(",\"ntmp\":%d", ntmp());
	} else if (OP("eclose")) {
		int r, f = evf[A(1)], v = SQUASH_VALID_VFD(f);
		CALL(r = enclose_io_close(f)); o(",\"fd\":%d", f); reterr(r);
		if (!v && f >= 0 && f < 1024) eos[f] = 0;
		put_valid();
	} else if (OP("eread") || OP("epread")) { /* slot n [off] */
		int f = evf[A(1)]; long long want = A(2); ssize_t r; char *b = big_buffer(want);
		CALL(r = OP("eread") ? enclose_io_read(f, b, want) : enclose_io_pread(f, b, want, A(3)));
		o(",\"fd\":%d", f); reterr(r); put_bytes(b, r > 0 ? (r > want ? want : r) : 0); big_free(b, want);
	} else if (OP("ereadv")) { /* slot cnt len... : buffers of exactly that size, the rest of each untouched */
		int f = evf[A(1)], k = A(2), i, clean = 1; struct iovec *v = __real_malloc(sizeof(*v) * k); ssize_t r, left; char *t; size_t tot = 0, at = 0;
		for (i = 0; i < k; i++) { v[i].iov_len = A(3 + i); v[i].iov_base = big_buffer(v[i].iov_len); if (v[i].iov_len <= HUGE) memset(v[i].iov_base, 0, v[i].iov_len); tot += v[i].iov_len; }
		CALL(r = enclose_io_readv(f, v, k));
		t = __real_malloc((tot < HUGE ? tot : HUGE) + 1); left = r > 0 ? r < HUGE ? r : HUGE : 0;
		for (i = 0; i < k; i++) {
			size_t m = (size_t)left < v[i].iov_len ? (size_t)left : v[i].iov_len, j;
			memcpy(t + at, v[i].iov_base, m); at += m; left -= m;
			if (r >= 0) for (j = m; j < v[i].iov_len && j < m + (1 << 20); j++) if (((char *)v[i].iov_base)[j]) clean = 0;
			big_free(v[i].iov_base, v[i].iov_len);
		}
		o(",\"fd\":%d,\"clean\":%d", f, clean); reterr(r); put_bytes(t, at); __real_free(t); __real_free(v);
	} else if (OP("elseek")) {
		int f = evf[A(1)]; off_t r;
		CALL(r = enclose_io_lseek(f, A(2), A(3)));
		o(",\"fd\":%d,\"rhi\":%lld,\"rlo\":%lld", f, (long long)r >> 20, (long long)r & 0xfffff); reterr(r < 0 ? -1 : 0);
	} else if (OP("efstat")) {
		int f = evf[A(1)], r; struct stat st; memset(&st, 0x5A, sizeof st);
		CALL(r = enclose_io_fstat(f, &st)); o(",\"fd\":%d", f); reterr(r); if (!r) put_stat(&st);
	} else if (OP("estat") || OP("elstat")) {
		char *p = epath(a[1]); struct stat st; int r; memset(&st, 0x5A, sizeof st);
		CALL(r = OP("estat") ? enclose_io_stat(p, &st) : enclose_io_lstat(p, &st)); __real_free(p); reterr(r); if (!r) put_stat(&st);
	} else if (OP("eaccess")) {
		char *p = epath(a[1]); int r; CALL(r = enclose_io_access(p, A(2))); __real_free(p); reterr(r);
	} else if (OP("ereadlink")) {
		char *p = epath(a[1]); size_t bs = A(2); ssize_t r; char *b = __real_malloc(bs);
		memset(b, 0x7E, bs);
		CALL(r = enclose_io_readlink(p, b, bs)); __real_free(p); reterr(r);
		if (r >= 0) put_str("target", b, (size_t)r <= bs ? (size_t)r : bs);
		__real_free(b);
	} else if (OP("eopendir")) {
		char *p = epath(a[2]); DIR *d; CALL(d = enclose_io_opendir(p)); __real_free(p);
		if (d) { CALL(vfd[0] = enclose_io_dirfd(d)); edir[A(1)] = d; o(",\"fd\":%d,\"virt\":%d", vfd[0], squash_find_entry(d) ? 1 : 0); if (!squash_find_entry(d)) eos[vfd[0]] = 1; }
		reterr(d ? 0 : -1); put_valid();
	} else if (OP("efdopendir")) { /* dslot slot */
		DIR *d; int f = evf[A(2)], g = -1; CALL(d = enclose_io_fdopendir(f)); o(",\"fd\":%d", f); reterr(d ? 0 : -1);
		if (d) { edir[A(1)] = d; CALL(g = enclose_io_dirfd(d)); o(",\"virt\":%d,\"same\":%d", squash_find_entry(d) ? 1 : 0, g == f); }
		put_valid();
	} else if (OP("ereaddirs")) { /* the rest of the listing, without "." and ".." ; or at most k entries */
		struct SQUASH_DIRENT *e; int first = 1; long k = A(2), i;
		o(",\"list\":[");
		for (i = 0; k < 0 || i < k; ) {
			CALL(e = enclose_io_readdir(edir[A(1)]));
			if (!e) break;
			if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
			o("%s{\"k\":1", first ? "" : ","); put_dirent(e); o("}"); first = 0; i++;
		}
		o("]"); reterr(0);
	} else if (OP("etelldir")) {
		long r; CALL(r = enclose_io_telldir(edir[A(1)])); etell[A(2)] = r; reterr(0);
	} else if (OP("eseekdir")) {
		CALL(enclose_io_seekdir(edir[A(1)], etell[A(2)])); reterr(0);
	} else if (OP("erewinddir")) {
		CALL(enclose_io_rewinddir(edir[A(1)])); reterr(0);
	} else if (OP("edirfd")) {
		int r; CALL(r = enclose_io_dirfd(edir[A(1)])); reterr(r);
	} else if (OP("eclosedir")) {
		int r, f, v; v = squash_find_entry(edir[A(1)]) != NULL; f = v ? -1 : dirfd(edir[A(1)]);
		CALL(r = enclose_io_closedir(edir[A(1)])); edir[A(1)] = NULL; if (f >= 0) eos[f] = 0;
		reterr(r); put_valid();
	} else if (OP("escandir")) { /* path sel cmp ; "." and ".." are left out of the record */
		char *p = epath(a[1]); struct SQUASH_DIRENT **l = (void *)0x10; int r, i, first = 1, dots = 0;
		CALL(r = enclose_io_scandir(p, &l, sels[A(2)], cmps[A(3)])); __real_free(p);
		o(",\"list\":[");
		for (i = 0; i < r; i++) {
			if (!strcmp(l[i]->d_name, ".") || !strcmp(l[i]->d_name, "..")) { dots++; continue; }
			o("%s{\"k\":1", first ? "" : ","); put_dirent(l[i]); o("}"); first = 0;
		}
		o("]"); reterr(r < 0 ? r : r - dots);
		if (r >= 0) { for (i = 0; i < r; i++) __wrap_free(l[i]); __wrap_free(l); }
		put_valid();
	} else if (OP("echdir")) {
		char *p = epath(a[1]); int r; CALL(r = enclose_io_chdir(p)); memset(p, 'Q', strlen(p)); __real_free(p); reterr(r);
	} else if (OP("egetcwd")) { /* size mode: 0 own buffer of that size, 1 NULL, 2 getwd */
		size_t sz = A(1); char *b = NULL, *r;
		if (A(2) == 0) { b = __real_malloc(sz); memset(b, 0x5A, sz); } else if (A(2) == 2) { b = __real_malloc(4096); memset(b, 0x5A, 4096); }
		CALL(r = A(2) == 2 ? enclose_io_getwd(b) : enclose_io_getcwd(b, sz)); reterr(r ? 0 : -1);
		if (r) { o(",\"own\":%d,\"room\":%zu", b ? r == b : 1, strlen(r) + 1); put_path("cwd", r); if (!b) __wrap_free(r); }
		__real_free(b);
	} else if (OP("eif")) {
		char *p = epath(a[1]); short r; CALL(r = enclose_io_if(p)); __real_free(p); reterr(r ? 1 : 0);
	} else if (OP("eifextract") || OP("edlopen")) { /* path */
		char *p = epath(a[1]); const char *r = NULL; void *h; was_called = 0;
		if (OP("edlopen")) { CALL(h = enclose_io_dlopen(p, RTLD_NOW)); r = h ? called_with : NULL; o(",\"called\":%d", was_called); }
		else CALL(r = enclose_io_ifextract(p, NULL));
		reterr(r ? 0 : -1);
		if (r) { char *c = __real_malloc(strlen(r) + 1); strcpy(c, r); put_path("got", c); put_file(c); __real_free(c); }
		__real_free(p); o(",\"ntmp\":%d", ntmp()); put_valid();
	} else if (OP("eexec")) { /* path */
		char *p = epath(a[1]), *av[] = { "prog", "one", "t w o", NULL }, self[4096]; int r, i; ssize_t k;
		was_called = 0; CALL(r = enclose_io_execv(p, av)); __real_free(p); reterr(r);
		k = readlink("/proc/self/exe", self, sizeof self - 1); self[k > 0 ? k : 0] = 0;
		o(",\"called\":%d,\"self\":%d", was_called, was_called && !strcmp(called_with, self));
		if (was_called) {
			put_path("got", called_with);
			o(",\"n\":0");
			for (i = 0; called_argv[i]; i++) { char key[16]; snprintf(key, sizeof key, "a%d", i); put_path(key, called_argv[i]); __real_free(called_argv[i]); }
			o(",\"argc\":%d", i); __real_free(called_argv);
		}
	} else return 0;
	return 1;
}
