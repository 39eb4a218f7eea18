// LD_PRELOAD shim: turns every libc call that touches the tree under `root` into a step that a
// controller must grant.  Inactive until vshim_start() is called in a child process.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

static int active = 0, ctl = -1, inside = 0;
static char root[2048];
static size_t rootlen = 0;
static volatile long long *vclock = NULL; // virtual monotonic clock, nanoseconds
static pid_t owner = 0;

#define REAL(name) ((__typeof__(&name))dlsym(RTLD_NEXT, #name))

void vshim_start(int fd, const char *r, long long *clk) {
  ctl = fd;
  strncpy(root, r, sizeof root - 1);
  rootlen = strlen(root);
  vclock = clk;
  owner = getpid();
  active = 1;
}
void vshim_stop(void) { active = 0; }

static int on(void) { return active && !inside && getpid() == owner; }

static int under(const char *p) { return strncmp(p, root, rootlen) == 0 && (p[rootlen] == '/' || p[rootlen] == 0); }

static void absat(int dirfd, const char *path, char *out, size_t n) {
  if (!path) path = "";
  if (path[0] == '/') { snprintf(out, n, "%s", path); return; }
  char link[64], base[2048];
  ssize_t k;
  if (dirfd == AT_FDCWD) { k = readlink("/proc/self/cwd", base, sizeof base - 1); }
  else { snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd); k = readlink(link, base, sizeof base - 1); }
  if (k < 0) { snprintf(out, n, "?/%s", path); return; }
  base[k] = 0;
  if (path[0]) snprintf(out, n, "%s/%s", base, path); else snprintf(out, n, "%s", base);
}
static int fdpath(int fd, char *out, size_t n) {
  char link[64];
  snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
  ssize_t k = readlink(link, out, n - 1);
  if (k < 0) return 0;
  out[k] = 0;
  return under(out);
}

// Asks the controller.  Returns -1: go on; >=0: fail with this errno; <=-2: short count -(n+2).
static int ask(const char *fmt, ...) {
  char buf[8192];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf - 1, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof buf - 2) n = sizeof buf - 2;
  for (int i = 0; i < n; i++) if (buf[i] == '\n') buf[i] = '?';
  buf[n++] = '\n';
  int save = errno;
  inside = 1;
  ssize_t w = syscall(SYS_write, ctl, buf, n);
  if (w != n) { syscall(SYS_kill, getpid(), SIGKILL); for (;;) {} }
  char rep[32];
  int k = 0;
  for (;;) {
    char c;
    ssize_t r = syscall(SYS_read, ctl, &c, 1);
    if (r <= 0) { if (r < 0 && errno == EINTR) continue; syscall(SYS_kill, getpid(), SIGKILL); for (;;) {} }
    if (c == '\n') break;
    if (k < (int)sizeof rep - 1) rep[k++] = c;
  }
  rep[k] = 0;
  inside = 0;
  errno = save;
  switch (rep[0]) {
    case 'c': return -1;
    case 'e': return atoi(rep + 1);
    case 's': return -2 - atoi(rep + 1);
    default: syscall(SYS_kill, getpid(), SIGKILL); for (;;) {}
  }
}
void vshim_mark(const char *what) { if (on()) ask("mark\t%s", what); }

#define FAILWITH(v, bad) do { if ((v) >= 0) { errno = (v); return bad; } } while (0)

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  char p[4096];
  if (on()) {
    absat(dirfd, path, p, sizeof p);
    if (under(p)) {
      const char *kind = (flags & O_DIRECTORY) ? "opendir" : ((flags & (O_CREAT | O_TRUNC)) ? "create" : ((flags & O_ACCMODE) == O_RDONLY ? "open" : "openw"));
      int v = ask("%s\t%s", kind, p);
      FAILWITH(v, -1);
    }
  }
  return syscall(SYS_openat, dirfd, path, flags, mode);
}
#define MODE() mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); }
int open(const char *path, int flags, ...) { MODE() return do_open(AT_FDCWD, path, flags, m); }
int open64(const char *path, int flags, ...) { MODE() return do_open(AT_FDCWD, path, flags | O_LARGEFILE, m); }
int openat(int d, const char *path, int flags, ...) { MODE() return do_open(d, path, flags, m); }
int openat64(int d, const char *path, int flags, ...) { MODE() return do_open(d, path, flags | O_LARGEFILE, m); }
int creat(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }

static FILE *do_fopen(const char *path, const char *mode, int is64) {
  char p[4096];
  if (on()) {
    absat(AT_FDCWD, path, p, sizeof p);
    if (under(p)) {
      int v = ask("%s\t%s", mode[0] == 'r' && !strchr(mode, '+') ? "open" : (mode[0] == 'r' ? "openw" : "create"), p);
      FAILWITH(v, NULL);
    }
  }
  return is64 ? REAL(fopen64)(path, mode) : REAL(fopen)(path, mode);
}
FILE *fopen(const char *path, const char *mode) { return do_fopen(path, mode, 0); }
FILE *fopen64(const char *path, const char *mode) { return do_fopen(path, mode, 1); }

#define ONEPATH(kind, dirfd, path) if (on()) { char p[4096]; absat(dirfd, path, p, sizeof p); if (under(p)) { int v = ask(kind "\t%s", p); FAILWITH(v, -1); } }
#define TWOPATH(kind, d1, p1, d2, p2) if (on()) { char from_[4096], to_[4096]; absat(d1, p1, from_, sizeof from_); absat(d2, p2, to_, sizeof to_); if (under(from_) || under(to_)) { int v = ask(kind "\t%s\t%s", from_, to_); FAILWITH(v, -1); } }

int rename(const char *a, const char *b) { TWOPATH("rename", AT_FDCWD, a, AT_FDCWD, b) return syscall(SYS_rename, a, b); }
int renameat(int d1, const char *a, int d2, const char *b) { TWOPATH("rename", d1, a, d2, b) return syscall(SYS_renameat, d1, a, d2, b); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { if (f & 2) { TWOPATH("exchange", d1, a, d2, b) } else { TWOPATH("rename", d1, a, d2, b) } return syscall(SYS_renameat2, d1, a, d2, b, f); }
int link(const char *a, const char *b) { TWOPATH("link", AT_FDCWD, a, AT_FDCWD, b) return syscall(SYS_link, a, b); }
int linkat(int d1, const char *a, int d2, const char *b, int f) { TWOPATH("link", d1, a, d2, b) return syscall(SYS_linkat, d1, a, d2, b, f); }
int symlink(const char *a, const char *b) { ONEPATH("symlink", AT_FDCWD, b) return syscall(SYS_symlink, a, b); }
int symlinkat(const char *a, int d, const char *b) { ONEPATH("symlink", d, b) return syscall(SYS_symlinkat, a, d, b); }
int unlink(const char *a) { ONEPATH("unlink", AT_FDCWD, a) return syscall(SYS_unlink, a); }
int unlinkat(int d, const char *a, int f) { if (f & AT_REMOVEDIR) { ONEPATH("rmdir", d, a) } else { ONEPATH("unlink", d, a) } return syscall(SYS_unlinkat, d, a, f); }
int rmdir(const char *a) { ONEPATH("rmdir", AT_FDCWD, a) return syscall(SYS_rmdir, a); }
int remove(const char *a) { ONEPATH("unlink", AT_FDCWD, a) inside++; int r = REAL(remove)(a); inside--; return r; }
int mkdir(const char *a, mode_t m) { ONEPATH("mkdir", AT_FDCWD, a) return syscall(SYS_mkdir, a, m); }
int mkdirat(int d, const char *a, mode_t m) { ONEPATH("mkdir", d, a) return syscall(SYS_mkdirat, d, a, m); }
int truncate(const char *a, off_t n) { ONEPATH("truncate", AT_FDCWD, a) return syscall(SYS_truncate, a, n); }
int chmod(const char *a, mode_t m) { ONEPATH("chmod", AT_FDCWD, a) return syscall(SYS_chmod, a, m); }

#define FDOP(kind, fd) if (on()) { char p[4096]; if (fdpath(fd, p, sizeof p)) { int v = ask(kind "\t%s", p); FAILWITH(v, -1); } }
int fsync(int fd) { FDOP("fsync", fd) return on() ? 0 : syscall(SYS_fsync, fd); }
int fdatasync(int fd) { FDOP("fsync", fd) return on() ? 0 : syscall(SYS_fdatasync, fd); }
int ftruncate(int fd, off_t n) { FDOP("truncate", fd) return syscall(SYS_ftruncate, fd, n); }
int ftruncate64(int fd, off64_t n) { FDOP("truncate", fd) return syscall(SYS_ftruncate, fd, n); }
int fchmod(int fd, mode_t m) { FDOP("chmod", fd) return syscall(SYS_fchmod, fd, m); }

ssize_t write(int fd, const void *b, size_t n) {
  if (on()) { char p[4096]; if (fdpath(fd, p, sizeof p)) { int v = ask("write\t%s\t%zu", p, n); FAILWITH(v, -1); if (v <= -2) { size_t k = -2 - v; if (k < n) n = k; } } }
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *iov, int c) {
  if (on()) { char p[4096]; if (fdpath(fd, p, sizeof p)) { int v = ask("write\t%s\t%d", p, c); FAILWITH(v, -1); if (v <= -2 && c > 0) { size_t k = -2 - v; if (k < iov[0].iov_len && k > 0) return syscall(SYS_write, fd, iov[0].iov_base, k); } } }
  return syscall(SYS_writev, fd, iov, c);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { FDOP("write", fd) return syscall(SYS_pwrite64, fd, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { FDOP("write", fd) return syscall(SYS_pwrite64, fd, b, n, o); }
ssize_t read(int fd, void *b, size_t n) { FDOP("read", fd) return syscall(SYS_read, fd, b, n); }
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) { FDOP("write", o) return syscall(SYS_copy_file_range, i, io, o, oo, n, f); }
ssize_t sendfile(int o, int i, off_t *off, size_t n) { FDOP("write", o) return syscall(SYS_sendfile, o, i, off, n); }
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { FDOP("write", o) return syscall(SYS_sendfile, o, i, off, n); }

DIR *opendir(const char *name) {
  if (on()) { char p[4096]; absat(AT_FDCWD, name, p, sizeof p); if (under(p)) { int v = ask("list\t%s", p); FAILWITH(v, NULL); } }
  inside++; DIR *d = REAL(opendir)(name); inside--; return d;
}
DIR *fdopendir(int fd) {
  if (on()) { char p[4096]; if (fdpath(fd, p, sizeof p)) { int v = ask("list\t%s", p); FAILWITH(v, NULL); } }
  inside++; DIR *d = REAL(fdopendir)(fd); inside--; return d;
}
int lstat(const char *a, struct stat *s) { ONEPATH("stat", AT_FDCWD, a) return REAL(lstat)(a, s); }
int lstat64(const char *a, struct stat64 *s) { ONEPATH("stat", AT_FDCWD, a) return REAL(lstat64)(a, s); }
int stat(const char *a, struct stat *s) { ONEPATH("stat", AT_FDCWD, a) return REAL(stat)(a, s); }
int stat64(const char *a, struct stat64 *s) { ONEPATH("stat", AT_FDCWD, a) return REAL(stat64)(a, s); }
int fstatat(int d, const char *a, struct stat *s, int f) { ONEPATH("stat", d, a) return REAL(fstatat)(d, a, s, f); }
int fstatat64(int d, const char *a, struct stat64 *s, int f) { ONEPATH("stat", d, a) return REAL(fstatat64)(d, a, s, f); }

int flock(int fd, int op) {
  if (!on()) return syscall(SYS_flock, fd, op);
  char p[4096];
  if (!fdpath(fd, p, sizeof p)) return syscall(SYS_flock, fd, op);
  const char *kind = (op & LOCK_UN) ? "unlock" : "lock";
  for (;;) {
    int v = ask("%s\t%s", kind, p);
    FAILWITH(v, -1);
    if (op & LOCK_UN) return syscall(SYS_flock, fd, op);
    int r = syscall(SYS_flock, fd, op | LOCK_NB);
    int e = errno;
    ask("locked\t%s\t%d", p, r == 0 ? 0 : e);
    errno = e;
    if (r == 0 || e != EWOULDBLOCK || (op & LOCK_NB)) return r;
    ask("sleep\t%lld", 10000000LL);
  }
}

int clock_gettime(clockid_t c, struct timespec *t) {
  if (on() && vclock && (c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_RAW || c == CLOCK_BOOTTIME)) {
    t->tv_sec = *vclock / 1000000000LL; t->tv_nsec = *vclock % 1000000000LL; return 0;
  }
  if (on() && vclock && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) {
    long long now = vclock[0] + vclock[1];
    t->tv_sec = now / 1000000000LL; t->tv_nsec = now % 1000000000LL; return 0;
  }
  return syscall(SYS_clock_gettime, c, t);
}
static int vsleep(long long ns) { int v = ask("sleep\t%lld", ns < 0 ? 0 : ns); if (v >= 0) { errno = v; return -1; } return 0; }
int clock_nanosleep(clockid_t c, int flags, const struct timespec *rq, struct timespec *rm) {
  if (on() && vclock) {
    long long ns = rq->tv_sec * 1000000000LL + rq->tv_nsec;
    if (flags & TIMER_ABSTIME) ns -= *vclock;
    return vsleep(ns) ? errno : 0;
  }
  return syscall(SYS_clock_nanosleep, c, flags, rq, rm) == 0 ? 0 : errno;
}
int nanosleep(const struct timespec *rq, struct timespec *rm) {
  if (on() && vclock) return vsleep(rq->tv_sec * 1000000000LL + rq->tv_nsec);
  return syscall(SYS_nanosleep, rq, rm);
}
int usleep(useconds_t u) { if (on() && vclock) return vsleep(u * 1000LL); struct timespec t = {u / 1000000, (u % 1000000) * 1000L}; return syscall(SYS_nanosleep, &t, NULL); }
