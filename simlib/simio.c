/* Simulated disk: a preloaded seam between the whole process (python, numpy, astropy, the hdf5
   library) and the kernel's file calls, active only for files below one scratch directory.
   Every call on those files is counted and, when asked, recorded with its data (so that the disk
   contents at any crash point can be reconstructed), delayed in effect, shortened or failed
   according to a plan given by the (seeded) harness. Everything else passes straight through. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <dlfcn.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/mman.h>

enum { OP_OPENW=1, OP_WRITE, OP_TRUNC, OP_SYNC, OP_CLOSEW, OP_RENAME, OP_UNLINK, OP_MKDIR, OP_OPENR, OP_READ };
enum { K_ERR=1, K_SHORT=2, K_LATEERR=3 /* effect happens, then error */ };

static char root[4096]; static int rlen = 0;
static int active = 0, record = 0;
/* plan: at the n'th (0-based) call of class mask */
struct plan { int mask, nth, kind, err, arg, sticky, fired, count; };
#define MAXPLAN 16
static struct plan plans[MAXPLAN]; static int nplan = 0;
static long opcount[16];
struct ent { int op; char *p1, *p2; long off, len; char *data; };
static struct ent *jr = NULL; static long nj = 0, cj = 0;

#define REAL(name) ({ static typeof(name) *f = NULL; if(!f) f = (typeof(name)*)dlsym(RTLD_NEXT, #name); f; })

void simio_start(const char *r, int rec) {
	strncpy(root, r, sizeof(root)-1); rlen = strlen(root); nplan = 0; record = rec; memset(opcount, 0, sizeof(opcount));
	for(long i = 0; i < nj; i++) { free(jr[i].p1); free(jr[i].p2); free(jr[i].data); }
	nj = 0; active = 1;
}
void simio_stop(void) { active = 0; nplan = 0; }
void simio_plan(int mask, int nth, int kind, int err, int arg, int sticky) {
	if(nplan < MAXPLAN) { struct plan p = { mask, nth, kind, err, arg, sticky, 0, 0 }; plans[nplan++] = p; }
}
long simio_fired(int i) { return i < nplan ? plans[i].fired : 0; }
long simio_count(int op) { return opcount[op]; }
long simio_njournal(void) { return nj; }
int  simio_entry(long i, const char **p1, const char **p2, long *off, long *len, const char **data) {
	*p1 = jr[i].p1; *p2 = jr[i].p2; *off = jr[i].off; *len = jr[i].len; *data = jr[i].data; return jr[i].op;
}
static void journal(int op, const char *p1, const char *p2, long off, long len, const void *data) {
	if(!record) return;
	if(nj == cj) { cj = cj ? cj*2 : 256; jr = realloc(jr, cj*sizeof(*jr)); }
	struct ent *e = &jr[nj++];
	e->op = op; e->p1 = p1 ? strdup(p1) : NULL; e->p2 = p2 ? strdup(p2) : NULL; e->off = off; e->len = len; e->data = NULL;
	if(data && len > 0) { e->data = malloc(len); memcpy(e->data, data, len); }
}
static int inroot(const char *p) { return active && p && strncmp(p, root, rlen) == 0 && (p[rlen] == '/' || p[rlen] == 0); }
/* absolute path of a path argument */
static int abspath(const char *p, char *out) {
	if(!p) return 0;
	if(p[0] == '/') { strncpy(out, p, 4095); out[4095] = 0; return 1; }
	if(!getcwd(out, 4000)) return 0;
	int n = strlen(out); snprintf(out+n, 4096-n, "/%s", p); return 1;
}
static int pathin(const char *p, char *out) { return active && abspath(p, out) && inroot(out); }
static int fdin(int fd, char *out) {
	if(!active || fd < 0) return 0;
	char l[64]; snprintf(l, sizeof(l), "/proc/self/fd/%d", fd);
	ssize_t n = syscall(SYS_readlinkat, AT_FDCWD, l, out, 4095);
	if(n <= 0) return 0;
	out[n] = 0;
	return inroot(out);
}
/* returns the plan that hits this call, or NULL */
static struct plan *hit(int op) {
	opcount[op]++;
	struct plan *res = NULL;
	for(int i = 0; i < nplan; i++) {
		struct plan *p = &plans[i];
		if(!(p->mask & (1<<op))) continue;
		int n = p->count++;
		if(n == p->nth || (p->sticky && n > p->nth)) { if(!res) { res = p; p->fired++; } }
	}
	return res;
}

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
	char ap[4096];
	if((dirfd == AT_FDCWD || (path && path[0]=='/')) && pathin(path, ap)) {
		int w = (flags & O_ACCMODE) != O_RDONLY;
		struct stat st; int existed = stat(ap, &st) == 0;
		struct plan *p = existed && S_ISDIR(st.st_mode) ? NULL : hit(w ? OP_OPENW : OP_OPENR);
		if(p && p->kind == K_ERR) { errno = p->err; return -1; }
		int fd = syscall(SYS_openat, dirfd, path, flags, mode);
		if(fd >= 0 && w && (!existed || (flags & O_TRUNC))) journal(OP_OPENW, ap, NULL, 0, 0, NULL);
		return fd;
	}
	return syscall(SYS_openat, dirfd, path, flags, mode);
}
#define GETMODE(flags) mode_t mode = 0; if((flags) & (O_CREAT|O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
int open(const char *path, int flags, ...)                  { GETMODE(flags); return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...)                { GETMODE(flags); return do_open(AT_FDCWD, path, flags|O_LARGEFILE, mode); }
int openat(int d, const char *path, int flags, ...)         { GETMODE(flags); return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...)       { GETMODE(flags); return do_open(d, path, flags|O_LARGEFILE, mode); }
int creat(const char *path, mode_t mode)                    { return do_open(AT_FDCWD, path, O_CREAT|O_WRONLY|O_TRUNC, mode); }

static ssize_t do_write(int fd, const void *buf, size_t n, long off, int positional) {
	char ap[4096];
	if(fdin(fd, ap)) {
		struct plan *p = hit(OP_WRITE);
		if(p && p->kind == K_ERR) {
			/* a full disk takes what still fits: arg bytes, the first time */
			if(p->arg > 0 && p->fired == 1 && (size_t)p->arg < n) n = p->arg;
			else { errno = p->err; return -1; }
		}
		if(p && p->kind == K_SHORT && n > 1) n = 1 + p->arg % (n-1);
		long o = positional ? off : syscall(SYS_lseek, fd, 0, SEEK_CUR);
		if(!positional) { int fl = fcntl(fd, F_GETFL); if(fl >= 0 && (fl & O_APPEND)) o = syscall(SYS_lseek, fd, 0, SEEK_END); }
		ssize_t r = positional ? syscall(SYS_pwrite64, fd, buf, n, off) : syscall(SYS_write, fd, buf, n);
		if(r > 0) journal(OP_WRITE, ap, NULL, o, r, buf);
		return r;
	}
	return positional ? syscall(SYS_pwrite64, fd, buf, n, off) : syscall(SYS_write, fd, buf, n);
}
ssize_t write(int fd, const void *b, size_t n)              { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o)    { return do_write(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o){ return do_write(fd, b, n, o, 1); }

static ssize_t do_read(int fd, void *buf, size_t n, long off, int positional) {
	char ap[4096];
	if(fdin(fd, ap)) {
		struct plan *p = hit(OP_READ);
		if(p && p->kind == K_ERR) { errno = p->err; return -1; }
		if(p && p->kind == K_SHORT && n > 1) n = 1 + p->arg % (n-1);
	}
	return positional ? syscall(SYS_pread64, fd, buf, n, off) : syscall(SYS_read, fd, buf, n);
}
ssize_t read(int fd, void *b, size_t n)                     { return do_read(fd, b, n, 0, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t o)           { return do_read(fd, b, n, o, 1); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o)       { return do_read(fd, b, n, o, 1); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t s)     { return do_read(fd, b, n, 0, 0); }
ssize_t __pread_chk(int fd, void *b, size_t n, off_t o, size_t s)     { return do_read(fd, b, n, o, 1); }
ssize_t __pread64_chk(int fd, void *b, size_t n, off64_t o, size_t s) { return do_read(fd, b, n, o, 1); }

static int do_trunc(int fd, long len) {
	char ap[4096];
	if(fdin(fd, ap)) {
		struct plan *p = hit(OP_TRUNC);
		if(p && p->kind == K_ERR) { errno = p->err; return -1; }
		int r = syscall(SYS_ftruncate, fd, len);
		if(r == 0) journal(OP_TRUNC, ap, NULL, 0, len, NULL);
		return r;
	}
	return syscall(SYS_ftruncate, fd, len);
}
int ftruncate(int fd, off_t len)                            { return do_trunc(fd, len); }
int ftruncate64(int fd, off64_t len)                        { return do_trunc(fd, len); }
int fsync(int fd) {
	char ap[4096];
	if(fdin(fd, ap)) {
		struct plan *p = hit(OP_SYNC);
		if(p && p->kind == K_ERR) { errno = p->err; return -1; }
		journal(OP_SYNC, ap, NULL, 0, 0, NULL);
		return 0;
	}
	return syscall(SYS_fsync, fd);
}
int fdatasync(int fd)                                       { return fsync(fd); }
int close(int fd) {
	char ap[4096]; int late = 0, e = 0;
	if(fdin(fd, ap)) {
		int fl = fcntl(fd, F_GETFL);
		if(fl >= 0 && (fl & O_ACCMODE) != O_RDONLY) {
			struct plan *p = hit(OP_CLOSEW);
			if(p && p->kind == K_ERR) { late = 1; e = p->err; }
		}
	}
	int r = syscall(SYS_close, fd);
	if(late) { errno = e; return -1; }
	return r;
}
static int do_rename(const char *a, const char *b) {
	char pa[4096], pb[4096];
	int in = pathin(a, pa) | pathin(b, pb);
	if(in) {
		abspath(a, pa); abspath(b, pb);
		struct plan *p = hit(OP_RENAME);
		if(p && p->kind == K_ERR) { errno = p->err; return -1; }
		int r = syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0);
		if(r == 0) journal(OP_RENAME, pa, pb, 0, 0, NULL);
		return r;
	}
	return syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0);
}
int rename(const char *a, const char *b)                    { return do_rename(a, b); }
static int do_unlink(const char *a) {
	char pa[4096];
	if(pathin(a, pa)) {
		struct plan *p = hit(OP_UNLINK);
		if(p && p->kind == K_ERR) { errno = p->err; return -1; }
		int r = syscall(SYS_unlinkat, AT_FDCWD, a, 0);
		if(r == 0) journal(OP_UNLINK, pa, NULL, 0, 0, NULL);
		if(p && p->kind == K_LATEERR) { errno = p->err; return -1; }
		return r;
	}
	return syscall(SYS_unlinkat, AT_FDCWD, a, 0);
}
int unlink(const char *a)                                   { return do_unlink(a); }
int remove(const char *a) { struct stat st; if(lstat(a, &st) == 0 && S_ISDIR(st.st_mode)) return syscall(SYS_unlinkat, AT_FDCWD, a, AT_REMOVEDIR); return do_unlink(a); }
int mkdir(const char *a, mode_t mode) {
	char pa[4096];
	if(pathin(a, pa)) {
		struct plan *p = hit(OP_MKDIR);
		if(p && p->kind == K_ERR) { errno = p->err; return -1; }
		int r = syscall(SYS_mkdirat, AT_FDCWD, a, mode);
		if(r == 0) journal(OP_MKDIR, pa, NULL, 0, 0, NULL);
		/* another task created it just before us */
		if(p && p->kind == K_LATEERR) { errno = p->err; return -1; }
		return r;
	}
	return syscall(SYS_mkdirat, AT_FDCWD, a, mode);
}

/* numpy's tofile/fromfile go through stdio: give them an unbuffered stream on top of the calls above */
static ssize_t ck_read (void *c, char *b, size_t n)       { return do_read((int)(long)c, b, n, 0, 0); }
static ssize_t ck_write(void *c, const char *b, size_t n) { /* like glibc's own stream, continue after partial writes */
	size_t t = 0; while(t < n) { ssize_t r = do_write((int)(long)c, b+t, n-t, 0, 0); if(r <= 0) break; t += r; } return t; }
static int     ck_seek (void *c, off64_t *o, int wh)      { long r = syscall(SYS_lseek, (int)(long)c, *o, wh); if(r < 0) return -1; *o = r; return 0; }
static int     ck_close(void *c)                          { return close((int)(long)c); }
FILE *fdopen(int fd, const char *mode) {
	char ap[4096];
	if(fdin(fd, ap)) {
		cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
		FILE *f = fopencookie((void*)(long)fd, mode, io);
		if(f) setvbuf(f, NULL, _IONBF, 0);
		return f;
	}
	return REAL(fdopen)(fd, mode);
}
