// Interposition of the file-system calls made by monotone (linked with
// -Wl,--wrap=...). Nothing here changes what a call does unless the driver armed
// a fault or a crash-image capture. See wrap.h.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <time.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <pthread.h>
#include "wrap.h"

struct wrap_state wrap;

#define MAX_FD 4096
#define MAX_SYNC 65536
static char *fd_path[MAX_FD];
static pthread_mutex_t wlock = PTHREAD_MUTEX_INITIALIZER;

// synced length per inode
static struct { uint64_t ino; uint64_t len; } synced[MAX_SYNC];
static int synced_n;

int __real_open(const char *, int, ...);
int __real_openat(int, const char *, int, ...);
int __real_creat(const char *, mode_t);
int __real_close(int);
ssize_t __real_write(int, const void *, size_t);
ssize_t __real_pwrite(int, const void *, size_t, off_t);
ssize_t __real_writev(int, const struct iovec *, int);
ssize_t __real_pwritev(int, const struct iovec *, int, off_t);
ssize_t __real_read(int, void *, size_t);
ssize_t __real_pread(int, void *, size_t, off_t);
int __real_fsync(int);
int __real_fdatasync(int);
int __real_sync_file_range(int, off_t, off_t, unsigned);
int __real_ftruncate(int, off_t);
int __real_truncate(const char *, off_t);
int __real_rename(const char *, const char *);
int __real_renameat(int, const char *, int, const char *);
int __real_unlink(const char *);
int __real_unlinkat(int, const char *, int);
int __real_mkdir(const char *, mode_t);
int __real_rmdir(const char *);
int __real_link(const char *, const char *);

// scheduling point, in the driver which has them
void __wrap_point_op(int kind) __attribute__((weak));

static int in_dir(const char *p)
{
	size_t n = strlen(wrap.dir);
	if (n == 0 || strncmp(p, wrap.dir, n) != 0)
		return 0;
	if (p[n] != '/' && p[n] != 0)
		return 0;
	const char *b = strrchr(p, '/');
	if (b && !strcmp(b, "/log"))
		return 0;
	return 1;
}

static int fd_in(int fd)
{
	return fd >= 0 && fd < MAX_FD && fd_path[fd] != NULL;
}

static void fd_set_path(int fd, const char *path)
{
	if (fd < 0 || fd >= MAX_FD)
		return;
	pthread_mutex_lock(&wlock);
	free(fd_path[fd]);
	fd_path[fd] = (path && in_dir(path)) ? strdup(path) : NULL;
	pthread_mutex_unlock(&wlock);
}

static void sync_mark(uint64_t ino, uint64_t len)
{
	for (int i = 0; i < synced_n; i++)
		if (synced[i].ino == ino) { synced[i].len = len; return; }
	if (synced_n < MAX_SYNC) {
		synced[synced_n].ino = ino;
		synced[synced_n].len = len;
		synced_n++;
	}
}

void wrap_sync_mark_all(const char *dir)
{
	// everything currently in the directory is considered stable
	DIR *d = opendir(dir);
	if (!d) return;
	struct dirent *e;
	while ((e = readdir(d))) {
		if (e->d_name[0] == '.') continue;
		char p[4096];
		snprintf(p, sizeof p, "%s/%s", dir, e->d_name);
		struct stat st;
		if (lstat(p, &st)) continue;
		if (S_ISDIR(st.st_mode)) wrap_sync_mark_all(p);
		else sync_mark(st.st_ino, st.st_size);
	}
	closedir(d);
}

static int64_t sync_len(uint64_t ino)
{
	for (int i = 0; i < synced_n; i++)
		if (synced[i].ino == ino) return synced[i].len;
	return 0;
}

void wrap_stable(const char *path)
{
	struct stat st;
	pthread_mutex_lock(&wlock);
	if (!lstat(path, &st)) sync_mark(st.st_ino, st.st_size);
	pthread_mutex_unlock(&wlock);
}

void wrap_mkdir(const char *p) { __real_mkdir(p, 0755); }

void wrap_copy_tree(const char *from, const char *to, int power)
{
	__real_mkdir(to, 0755);
	DIR *d = opendir(from);
	if (!d) return;
	struct dirent *e;
	while ((e = readdir(d))) {
		if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, ".."))
			continue;
		char a[4096], b[4096];
		snprintf(a, sizeof a, "%s/%s", from, e->d_name);
		snprintf(b, sizeof b, "%s/%s", to, e->d_name);
		struct stat st;
		if (lstat(a, &st)) continue;
		if (S_ISDIR(st.st_mode)) {
			wrap_copy_tree(a, b, power);
			continue;
		}
		if (!strcmp(e->d_name, "log")) continue;
		int64_t max = st.st_size;
		if (power) {
			int64_t s = sync_len(st.st_ino);
			if (s < max) max = s;
		}
		int fa = __real_open(a, O_RDONLY);
		int fb = __real_open(b, O_CREAT|O_TRUNC|O_WRONLY, 0644);
		char buf[65536];
		int64_t left = max;
		while (left > 0) {
			ssize_t r = __real_read(fa, buf, left < (int64_t)sizeof buf ? left : (int64_t)sizeof buf);
			if (r <= 0) break;
			if (__real_write(fb, buf, r) != r) abort();
			left -= r;
		}
		__real_close(fa);
		__real_close(fb);
	}
	closedir(d);
}

void wrap_remove_tree(const char *p)
{
	// only ever used on directories the driver itself created
	if (strlen(p) < 8 || strstr(p, "mnverif") == NULL) abort();
	DIR *d = opendir(p);
	if (d) {
		struct dirent *e;
		while ((e = readdir(d))) {
			if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, ".."))
				continue;
			char a[4096];
			snprintf(a, sizeof a, "%s/%s", p, e->d_name);
			struct stat st;
			if (lstat(a, &st)) continue;
			if (S_ISDIR(st.st_mode)) wrap_remove_tree(a);
			else __real_unlink(a);
		}
		closedir(d);
	}
	__real_rmdir(p);
}

// the system may transfer less than asked for, or be interrupted: nothing observable depends on it
static uint64_t srng = 1;
static size_t shorten(size_t n)   // 0: interrupted
{
	if (!wrap.shorts || n < 1) return n;
	pthread_mutex_lock(&wlock);
	srng ^= srng << 13; srng ^= srng >> 7; srng ^= srng << 17;
	uint64_t r = srng >> 11;
	pthread_mutex_unlock(&wlock);
	if ((int)(r % 1000) >= wrap.shorts) return n;
	r /= 1000;
	if (r % 8 == 0) return 0;
	r /= 8;
	return r % 4 == 0 ? n - 1 + (n == 1) : 1 + r / 4 % n;
}
void wrap_shorts(int permille, uint64_t seed) { wrap.shorts = permille; srng = seed * 2654435761u + 88172645463325252ull; }
#define SHORTEN(fd, n) if (fd_in(fd) && n) { n = shorten(n); if (n == 0) { errno = EINTR; return -1; } }
static ssize_t s_read(int fd, void *b, size_t n) { SHORTEN(fd, n); return __real_read(fd, b, n); }
static ssize_t s_pread(int fd, void *b, size_t n, off_t o) { SHORTEN(fd, n); return __real_pread(fd, b, n, o); }
static ssize_t s_write(int fd, const void *b, size_t n) { SHORTEN(fd, n); return __real_write(fd, b, n); }
static ssize_t s_pwrite(int fd, const void *b, size_t n, off_t o) { SHORTEN(fd, n); return __real_pwrite(fd, b, n, o); }

static void snap(const char *what, const char *path, int torn)
{
	(void)path;
	if (wrap.kill_done == 2) { wrap.kill_done = 1; wrap.on_kill(what); return; }
	if (wrap.on_snap)
		wrap.on_snap(what, torn);
}

// returns: 0 proceed; -1 fail with errno set; 1 short (only for writes)
static int before(int kind, const char *name, const char *path)
{
	if (__wrap_point_op) __wrap_point_op(kind);
	if (!wrap.armed)
		return 0;
	pthread_mutex_lock(&wlock);
	wrap.count++;
	wrap.kcount[kind]++;
	int rc = 0;
	if (wrap.fault_left > 0 && (wrap.fault_kinds & (1u << kind))) {
		if (!wrap.fault_match[0] || (path && strstr(path, wrap.fault_match))) {
			if (wrap.fault_skip > 0)
				wrap.fault_skip--;
			else {
				wrap.fault_left--;
				wrap.fault_hits++;
				rc = wrap.fault_short ? 1 : -1;
			}
		}
	}
	pthread_mutex_unlock(&wlock);
	if (rc == 0 && wrap.snap_on && kind != K_OPENR && kind != K_READ) {
		if (wrap.snap_skip > 0) wrap.snap_skip--;
		else {
			snap(name, path, 0);
			wrap.snap_skip = wrap.snap_every - 1;
		}
	}
	if (rc == 0 && wrap.kill_at > 0 && kind != K_OPENR && kind != K_READ && !wrap.kill_torn) {
		if (--wrap.kill_at == 0) { wrap.kill_done = 1; wrap.on_kill(name); }
	}
	if (rc) errno = wrap.fault_errno;
	return rc;
}

// a write is about to be split: take the image in the middle of it
static int kill_torn(void)
{
	if (!wrap.armed || wrap.kill_at <= 0 || !wrap.kill_torn) return 0;
	return --wrap.kill_at == 0;
}

static int want_torn(size_t n)
{
	if (n > 1 && kill_torn()) { wrap.kill_done = 2; return 1; }
	return wrap.armed && wrap.snap_on && wrap.snap_torn && n > 1;
}

int __wrap_open(const char *path, int flags, ...)
{
	mode_t mode = 0;
	if (flags & (O_CREAT|O_TMPFILE)) {
		va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a);
	}
	int fresh = 0;
	if (in_dir(path)) {
		struct stat st0;
		fresh = (flags & O_CREAT) && lstat(path, &st0) != 0;
		int k = (flags & (O_CREAT|O_TRUNC)) ? K_OPENW : K_OPENR;
		if (k == K_OPENW && !(flags & O_TRUNC)) {
			struct stat st;
			if (lstat(path, &st) == 0) k = K_OPENR;
		}
		if (before(k, "open", path) < 0) return -1;
	}
	int fd = __real_open(path, flags, mode);
	if (fd >= 0) {
		fd_set_path(fd, path);
		struct stat st1;
		if ((fresh || (flags & O_TRUNC)) && fstat(fd, &st1) == 0) {
			pthread_mutex_lock(&wlock);
			sync_mark(st1.st_ino, 0);
			pthread_mutex_unlock(&wlock);
		}
	}
	return fd;
}
int __wrap_open64(const char *path, int flags, ...)
{
	mode_t mode = 0;
	if (flags & (O_CREAT|O_TMPFILE)) {
		va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a);
	}
	return __wrap_open(path, flags, mode);
}
int __wrap_openat(int dfd, const char *path, int flags, ...)
{
	mode_t mode = 0;
	if (flags & (O_CREAT|O_TMPFILE)) {
		va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a);
	}
	if (path[0] == '/') return __wrap_open(path, flags, mode);
	return __real_openat(dfd, path, flags, mode);
}
int __wrap_creat(const char *path, mode_t mode)
{
	return __wrap_open(path, O_CREAT|O_WRONLY|O_TRUNC, mode);
}
int __wrap_close(int fd)
{
	if (fd >= 0 && fd < MAX_FD) {
		pthread_mutex_lock(&wlock);
		free(fd_path[fd]);
		fd_path[fd] = NULL;
		pthread_mutex_unlock(&wlock);
	}
	return __real_close(fd);
}
ssize_t __wrap_read(int fd, void *b, size_t n)
{
	if (fd_in(fd) && before(K_READ, "read", fd_path[fd]) < 0) return -1;
	return s_read(fd, b, n);
}
ssize_t __wrap_pread(int fd, void *b, size_t n, off_t o)
{
	if (fd_in(fd) && before(K_READ, "pread", fd_path[fd]) < 0) return -1;
	return s_pread(fd, b, n, o);
}
ssize_t __wrap_pread64(int fd, void *b, size_t n, off_t o)
{ return __wrap_pread(fd, b, n, o); }

ssize_t __wrap_write(int fd, const void *b, size_t n)
{
	if (!fd_in(fd)) return __real_write(fd, b, n);
	int f = before(K_WRITE, "write", fd_path[fd]);
	if (f < 0) return -1;
	if (f > 0) { // short write followed by an error
		size_t h = n * wrap.fault_short / 100; if (h == 0) return -1;
		wrap.fault_left++; wrap.fault_short = 0; // next one fails outright
		return __real_write(fd, b, h);
	}
	if (want_torn(n)) {
		size_t h = 1 + (size_t)(wrap_rand() % (n - 1));
		ssize_t r = __real_write(fd, b, h);
		if (r < 0) return r;
		snap("write", fd_path[fd], 1);
		if ((size_t)r < n) {
			ssize_t r2 = __real_write(fd, (const char *)b + r, n - r);
			if (r2 < 0) return r2;
			return r + r2;
		}
		return r;
	}
	return s_write(fd, b, n);
}
ssize_t __wrap_pwrite(int fd, const void *b, size_t n, off_t o)
{
	if (!fd_in(fd)) return __real_pwrite(fd, b, n, o);
	int f = before(K_WRITE, "pwrite", fd_path[fd]);
	if (f < 0) return -1;
	if (f > 0) {
		size_t h = n * wrap.fault_short / 100; if (h == 0) return -1;
		wrap.fault_left++; wrap.fault_short = 0;
		return __real_pwrite(fd, b, h, o);
	}
	if (want_torn(n)) {
		size_t h = 1 + (size_t)(wrap_rand() % (n - 1));
		ssize_t r = __real_pwrite(fd, b, h, o);
		if (r < 0) return r;
		snap("pwrite", fd_path[fd], 1);
		return __real_pwrite(fd, b, n, o);
	}
	return s_pwrite(fd, b, n, o);
}
ssize_t __wrap_pwrite64(int fd, const void *b, size_t n, off_t o)
{ return __wrap_pwrite(fd, b, n, o); }

static size_t iov_total(const struct iovec *v, int n)
{
	size_t t = 0;
	for (int i = 0; i < n; i++) t += v[i].iov_len;
	return t;
}
static char *iov_flat(const struct iovec *v, int n, size_t t)
{
	char *f = malloc(t ? t : 1), *p = f;
	for (int i = 0; i < n; i++) { memcpy(p, v[i].iov_base, v[i].iov_len); p += v[i].iov_len; }
	return f;
}
static ssize_t flat_write(int fd, const char *f, size_t n, off_t o, int pos)
{
	return pos ? __real_pwrite(fd, f, n, o) : __real_write(fd, f, n);
}
static ssize_t do_writev(int fd, const struct iovec *v, int n, off_t o, int pos)
{
	if (!fd_in(fd) || (!wrap.armed && !wrap.shorts))
		return pos ? __real_pwritev(fd, v, n, o) : __real_writev(fd, v, n);
	int f = before(K_WRITE, "writev", fd_path[fd]);
	if (f < 0) return -1;
	if (n > 1024) { errno = EINVAL; return -1; } // IOV_MAX, as the kernel does
	size_t t = iov_total(v, n);
	char *flat = iov_flat(v, n, t);
	ssize_t r;
	if (f > 0) {
		size_t h = t * wrap.fault_short / 100;
		if (h == 0) { free(flat); errno = wrap.fault_errno; return -1; }
		wrap.fault_left++; wrap.fault_short = 0;
		r = flat_write(fd, flat, h, o, pos);
		free(flat);
		return r;
	}
	if (want_torn(t)) {
		size_t h = 1 + (size_t)(wrap_rand() % (t - 1));
		r = flat_write(fd, flat, h, o, pos);
		if (r > 0) {
			snap("writev", fd_path[fd], 1);
			if ((size_t)r < t) {
				ssize_t r2 = flat_write(fd, flat + r, t - r, o + r, pos);
				r = r2 < 0 ? r2 : r + r2;
			}
		}
		free(flat);
		return r;
	}
	size_t h = t ? shorten(t) : 0;
	if (t && h == 0) { free(flat); errno = EINTR; return -1; }
	r = flat_write(fd, flat, h, o, pos);
	free(flat);
	return r;
}
ssize_t __wrap_writev(int fd, const struct iovec *v, int n) { return do_writev(fd, v, n, 0, 0); }
ssize_t __wrap_pwritev(int fd, const struct iovec *v, int n, off_t o) { return do_writev(fd, v, n, o, 1); }
ssize_t __wrap_pwritev64(int fd, const struct iovec *v, int n, off_t o) { return do_writev(fd, v, n, o, 1); }

static int do_sync(int fd, int (*real)(int))
{
	if (!fd_in(fd)) return real(fd);
	if (before(K_SYNC, "fsync", fd_path[fd])) return -1;
	struct stat st;
	if (fstat(fd, &st) == 0) {
		pthread_mutex_lock(&wlock);
		sync_mark(st.st_ino, st.st_size);
		pthread_mutex_unlock(&wlock);
	}
	wrap.syncs++;
	return wrap.real_sync ? real(fd) : 0;
}
int __wrap_fsync(int fd) { return do_sync(fd, __real_fsync); }
int __wrap_fdatasync(int fd) { return do_sync(fd, __real_fdatasync); }
int __wrap_sync_file_range(int fd, off_t a, off_t b, unsigned f)
{
	if (!fd_in(fd)) return __real_sync_file_range(fd, a, b, f);
	return 0; // no durability guarantee for metadata: not counted as a sync
}
int __wrap_ftruncate(int fd, off_t n)
{
	if (fd_in(fd)) {
		if (before(K_TRUNC, "ftruncate", fd_path[fd])) return -1;
		struct stat st;
		if (fstat(fd, &st) == 0 && sync_len(st.st_ino) > n) sync_mark(st.st_ino, n);
	}
	return __real_ftruncate(fd, n);
}
int __wrap_ftruncate64(int fd, off_t n) { return __wrap_ftruncate(fd, n); }
int __wrap_truncate(const char *p, off_t n)
{
	if (in_dir(p) && before(K_TRUNC, "truncate", p)) return -1;
	return __real_truncate(p, n);
}
int __wrap_rename(const char *a, const char *b)
{
	if (in_dir(a) && before(K_RENAME, "rename", a)) return -1;
	return __real_rename(a, b);
}
int __wrap_renameat(int x, const char *a, int y, const char *b)
{
	if (in_dir(a) && before(K_RENAME, "rename", a)) return -1;
	return __real_renameat(x, a, y, b);
}
int __wrap_unlink(const char *a)
{
	if (in_dir(a) && before(K_UNLINK, "unlink", a)) return -1;
	return __real_unlink(a);
}
int __wrap_unlinkat(int d, const char *a, int f)
{
	if (in_dir(a) && before(K_UNLINK, "unlink", a)) return -1;
	return __real_unlinkat(d, a, f);
}
int __wrap_mkdir(const char *a, mode_t m)
{
	if (in_dir(a) && before(K_MKDIR, "mkdir", a)) return -1;
	return __real_mkdir(a, m);
}
int __wrap_rmdir(const char *a)
{
	if (in_dir(a) && before(K_UNLINK, "rmdir", a)) return -1;
	return __real_rmdir(a);
}
int __wrap_link(const char *a, const char *b)
{
	if (in_dir(a) && before(K_RENAME, "link", a)) return -1;
	return __real_link(a, b);
}

// the code's wall clock: one microsecond per call, so that no two times are equal
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t id, struct timespec *t)
{
	if (id != CLOCK_REALTIME || !wrap.clock_on) return __real_clock_gettime(id, t);
	uint64_t c = __atomic_add_fetch(&wrap.clock, 1, __ATOMIC_SEQ_CST);
	t->tv_sec = c / 1000000; t->tv_nsec = c % 1000000 * 1000;
	return 0;
}

static uint64_t rng = 88172645463325252ull;
void wrap_srand(uint64_t s) { rng = s * 2654435761u + 88172645463325252ull; }
uint64_t wrap_rand(void)
{
	rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
	return rng;
}
