// LD_PRELOAD shim: records file system effects below VX_ROOT, crashes or fails at the k-th, shifts the clock,
// makes sleeps instant.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <stdatomic.h>
static char root[PATH_MAX]; static size_t rl; static int logfd = -1;
static long crash = -1, fault = -1, faultto = -1; static int ferr = EIO; static long off = 0; static atomic_long cnt = 0; static int init_done = 0;
static int exdev = 0; static int observe = 0; static int reads = 0; static char deny[PATH_MAX]; static int torn = 0; static long block = -1; static char gate[PATH_MAX];
static void init(void) {
  if (init_done) return; init_done = 1;
  char *e = getenv("VX_ROOT"); if (e) { snprintf(root, sizeof root, "%s", e); rl = strlen(root); }
  e = getenv("VX_LOG"); if (e) logfd = syscall(SYS_openat, AT_FDCWD, e, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
  e = getenv("VX_CRASH"); if (e) crash = atol(e);
  e = getenv("VX_TORN"); if (e) torn = 1;
  e = getenv("VX_FAULT"); if (e) { fault = faultto = atol(e); }
  e = getenv("VX_FAULT_TO"); if (e) faultto = atol(e);
  e = getenv("VX_ERRNO"); if (e) ferr = atoi(e);
  e = getenv("VX_CLOCK"); if (e) off = atol(e);
  e = getenv("VX_BLOCK"); if (e) block = atol(e);
  e = getenv("VX_GATE"); if (e) snprintf(gate, sizeof gate, "%s", e);
  e = getenv("VX_EXDEV"); if (e) exdev = 1;
  e = getenv("VX_READS"); if (e) reads = 1;
  e = getenv("VX_DENY"); if (e) snprintf(deny, sizeof deny, "%s", e);
}
static void full(int dfd, const char *p, char *out) {
  if (!p) { out[0] = 0; return; }
  if (p[0] == '/') { snprintf(out, PATH_MAX, "%s", p); return; }
  char b[PATH_MAX]; 
  if (dfd == AT_FDCWD) { if (!getcwd(b, sizeof b)) b[0] = 0; }
  else { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dfd); ssize_t n = readlink(l, b, sizeof b - 1); b[n < 0 ? 0 : n] = 0; }
  snprintf(out, PATH_MAX, "%s/%s", b, p);
}
static void fdpath(int fd, char *out) {
  char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t n = readlink(l, out, PATH_MAX - 1); out[n < 0 ? 0 : n] = 0;
}
static int mine(const char *p) { return rl && !strncmp(p, root, rl) && (p[rl] == '/' || p[rl] == 0); }
static void vlog(const char *op, const char *a, const char *b, long n) {
  if (logfd < 0) return;
  char s[3 * PATH_MAX]; int k = snprintf(s, sizeof s, "%ld\t%s\t%s\t%s\n", n, op, a ? a : "", b ? b : "");
  syscall(SYS_write, logfd, s, k);
}
// 0: go ahead, 1: fail with errno set
static int ev(const char *op, const char *a, const char *b) {
  init();
  if (!mine(a) && !(b && mine(b))) {
    // effects outside of the scratch directory are recorded too, and refused
    if (rl && !strncmp(a, "/dev/", 5)) return 0;
    if (!rl) return 0;
    if (!strncmp(a, "pipe:", 5) || !strncmp(a, "socket:", 7) || !strncmp(a, "anon_inode:", 11) || a[0] != '/' ) return 0;
    if (!strncmp(a, "/proc/", 6)) return 0;
    vlog("outside", a, op, -1);
    errno = EACCES; return 1;
  }
  long n = atomic_fetch_add(&cnt, 1);
  vlog(op, a, b, n);
  if (n == block) { // wait until the gate is removed
    char rd[PATH_MAX]; snprintf(rd, sizeof rd, "%s.ready", gate); int f = syscall(SYS_openat, AT_FDCWD, rd, O_CREAT | O_WRONLY, 0666); if (f >= 0) syscall(SYS_close, f);
    struct stat st; for (int i = 0; i < 30000 && !syscall(SYS_access, gate, 0); i++) { struct timespec t = {0, 1000000}; syscall(SYS_nanosleep, &t, 0); }
  }
  if (n == crash && !(torn && !strcmp(op, "write"))) _exit(137);
  if (fault >= 0 && n >= fault && n <= faultto) { errno = ferr; vlog("fault", a, op, n); return 1; }
  if (exdev && (!strcmp(op, "rename")) && b && strstr(a, "pre-validate-staging")) { errno = EXDEV; return 1; }
  if (n == crash) return 2;
  return 0;
}
#define REAL(name) static __typeof__(&name) real; if (!real) real = dlsym(RTLD_NEXT, #name);
static int opn(const char *sym, int dfd, const char *p, int fl, mode_t m, int at) {
  init();
  char a[PATH_MAX]; full(dfd, p, a);
  if (fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) {
    struct stat st; int isnew = 1;
    if (strstr(a, "/krill-sync.lock") == 0 && strncmp(a, "/dev/", 5) && strncmp(a, "/proc/", 6)) { if (ev((fl & O_TRUNC) || (fl & O_CREAT) ? "create" : "openw", a, 0)) return -1; }
    else if (rl) vlog("lockfile", a, 0, -1);
    (void)st; (void)isnew;
  } else {
    if (reads && mine(a) && !(fl & O_DIRECTORY)) vlog("read", a, 0, -1);
    if (deny[0] && !strcmp(a, deny)) { errno = EACCES; return -1; }
  }
  return syscall(SYS_openat, dfd, p, fl | O_LARGEFILE, m);
}
#define MODE va_list ap; mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
int open(const char *p, int fl, ...) { MODE return opn("open", AT_FDCWD, p, fl, m, 0); }
int open64(const char *p, int fl, ...) { MODE return opn("open", AT_FDCWD, p, fl, m, 0); }
int openat(int d, const char *p, int fl, ...) { MODE return opn("openat", d, p, fl, m, 1); }
int openat64(int d, const char *p, int fl, ...) { MODE return opn("openat", d, p, fl, m, 1); }
ssize_t write(int fd, const void *b, size_t n) {
  init();
  if (fd > 2 && fd != logfd && rl) {
    char a[PATH_MAX]; fdpath(fd, a);
    if (mine(a) && !strstr(a, "/krill-sync.lock")) { int r = ev("write", a, 0); if (r == 2) { syscall(SYS_write, fd, b, n / 2); _exit(137); } if (r) return -1; }
  }
  return syscall(SYS_write, fd, b, n);
}
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned fl) {
  char a[PATH_MAX]; fdpath(o, a); int r = ev("write", a, 0); if (r == 1) return -1;
  if (r == 2) { char b[4096]; ssize_t k = syscall(SYS_read, i, b, sizeof b); if (k > 0) syscall(SYS_write, o, b, k / 2); _exit(137); }
  return syscall(SYS_copy_file_range, i, io, o, oo, n, fl);
}
ssize_t sendfile64(int o, int i, off64_t *of, size_t n) { char a[PATH_MAX]; fdpath(o, a); if (ev("write", a, 0)) return -1; return syscall(SYS_sendfile, o, i, of, n); }
ssize_t sendfile(int o, int i, off_t *of, size_t n) { char a[PATH_MAX]; fdpath(o, a); if (ev("write", a, 0)) return -1; return syscall(SYS_sendfile, o, i, of, n); }
int rename(const char *x, const char *y) { char a[PATH_MAX], b[PATH_MAX]; full(AT_FDCWD, x, a); full(AT_FDCWD, y, b); if (ev("rename", a, b)) return -1; return syscall(SYS_rename, x, y); }
int renameat(int d, const char *x, int f, const char *y) { char a[PATH_MAX], b[PATH_MAX]; full(d, x, a); full(f, y, b); if (ev("rename", a, b)) return -1; return syscall(SYS_renameat, d, x, f, y); }
int unlink(const char *x) { char a[PATH_MAX]; full(AT_FDCWD, x, a); if (ev("unlink", a, 0)) return -1; return syscall(SYS_unlink, x); }
int unlinkat(int d, const char *x, int fl) { char a[PATH_MAX]; full(d, x, a); if (ev(fl & AT_REMOVEDIR ? "rmdir" : "unlink", a, 0)) return -1; return syscall(SYS_unlinkat, d, x, fl); }
int rmdir(const char *x) { char a[PATH_MAX]; full(AT_FDCWD, x, a); if (ev("rmdir", a, 0)) return -1; return syscall(SYS_rmdir, x); }
int mkdir(const char *x, mode_t m) { char a[PATH_MAX]; full(AT_FDCWD, x, a); init(); if (!mine(a)) { errno = EEXIST; struct stat st; if (!stat(a, &st)) return -1; } if (ev("mkdir", a, 0)) return -1; return syscall(SYS_mkdir, x, m); }
int symlink(const char *t, const char *x) { char a[PATH_MAX]; full(AT_FDCWD, x, a); if (ev("symlink", a, 0)) return -1; return syscall(SYS_symlink, t, x); }
int symlinkat(const char *t, int d, const char *x) { char a[PATH_MAX]; full(d, x, a); if (ev("symlink", a, 0)) return -1; return syscall(SYS_symlinkat, t, d, x); }
int linkat(int d, const char *x, int f, const char *y, int fl) { char a[PATH_MAX], b[PATH_MAX]; full(d, x, a); full(f, y, b); if (ev("link", a, b)) return -1; return syscall(SYS_linkat, d, x, f, y, fl); }
int link(const char *x, const char *y) { return linkat(AT_FDCWD, x, AT_FDCWD, y, 0); }
int utimensat(int d, const char *x, const struct timespec t[2], int fl) { char a[PATH_MAX]; if (x) full(d, x, a); else fdpath(d, a); if (ev("utime", a, 0)) return -1; return syscall(SYS_utimensat, d, x, t, fl); }
int futimens(int fd, const struct timespec t[2]) { return utimensat(fd, 0, t, 0); }
int ftruncate64(int fd, off64_t n) { char a[PATH_MAX]; fdpath(fd, a); if (mine(a) && !strstr(a, "/krill-sync.lock")) if (ev("truncate", a, 0)) return -1; return syscall(SYS_ftruncate, fd, n); }
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int clock_gettime(clockid_t c, struct timespec *t) {
  init(); int r = syscall(SYS_clock_gettime, c, t);
  if (!r && c == CLOCK_REALTIME) t->tv_sec += off;
  return r;
}
time_t time(time_t *t) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (t) *t = s.tv_sec; return s.tv_sec; }
static int slp(const struct timespec *t) {
  init();
  if (rl && t->tv_sec >= 1) { char b[64]; snprintf(b, sizeof b, "%ld", (long)t->tv_sec); vlog("sleep", b, 0, -1); return 1; }
  return 0;
}
int nanosleep(const struct timespec *t, struct timespec *r) { if (slp(t)) return 0; return syscall(SYS_nanosleep, t, r); }
int clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *r) {
  if (!(fl & TIMER_ABSTIME)) { if (slp(t)) return 0; }
  long k = syscall(SYS_clock_nanosleep, c, fl, t, r); return k < 0 ? errno : 0;
}
