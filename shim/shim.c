// LD_PRELOAD monitor for backpak's file-system calls: logs them in one total order, kills the process at a
// chosen one, makes a chosen one fail, delays or pauses them, and refuses mutations outside allowed places.
// Configured by BPV_* environment variables; inert in any process not named by BPV_EXE.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#ifndef O_TMPFILE
#define O_TMPFILE (020000000 | O_DIRECTORY)
#endif

static int active, logfd = -1, logreads;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static long wcount, rcount, allseq;
static long killat = -1;
static int killmode;            // 0 before, 1 after, 2 partial write then kill
static long failat = -1;
static int failread, failerr, failpersist, failpartial;
static char failfunc[64];       // persist: same function only
static const char *failpat, *failsub;      // fail only in calls to this function / with path containing
static long failpatn, failpatseen;
static char scope[8][PATH_MAX]; static int nscope;
static char allow[8][PATH_MAX]; static int nallow;
static unsigned delay_seed; static int delay_max, delay_prob;
static const char *stopfunc, *stopsub, *stopctl; static long stopn, stopseen;
static const char *cpuinfo;
static int fastsleep;
static unsigned shuffle_seed;

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__)
REAL(int, open, const char *, int, ...);
REAL(int, open64, const char *, int, ...);
REAL(int, openat, int, const char *, int, ...);
REAL(int, openat64, int, const char *, int, ...);
REAL(ssize_t, write, int, const void *, size_t);
REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
REAL(ssize_t, pwrite, int, const void *, size_t, off_t);
REAL(ssize_t, writev, int, const struct iovec *, int);
REAL(ssize_t, read, int, void *, size_t);
REAL(ssize_t, pread64, int, void *, size_t, off64_t);
REAL(ssize_t, readv, int, const struct iovec *, int);
REAL(int, fsync, int);
REAL(int, fdatasync, int);
REAL(int, rename, const char *, const char *);
REAL(int, renameat, int, const char *, int, const char *);
REAL(int, renameat2, int, const char *, int, const char *, unsigned);
REAL(int, link, const char *, const char *);
REAL(int, linkat, int, const char *, int, const char *, int);
REAL(int, unlink, const char *);
REAL(int, unlinkat, int, const char *, int);
REAL(int, rmdir, const char *);
REAL(int, mkdir, const char *, mode_t);
REAL(int, mkdirat, int, const char *, mode_t);
REAL(int, symlink, const char *, const char *);
REAL(int, symlinkat, const char *, int, const char *);
REAL(int, chmod, const char *, mode_t);
REAL(int, fchmod, int, mode_t);
REAL(int, fchmodat, int, const char *, mode_t, int);
REAL(int, utimensat, int, const char *, const struct timespec *, int);
REAL(int, futimens, int, const struct timespec *);
REAL(int, ftruncate, int, off_t);
REAL(int, ftruncate64, int, off64_t);
REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
REAL(ssize_t, sendfile64, int, int, off64_t *, size_t);
REAL(ssize_t, sendfile, int, int, off_t *, size_t);
REAL(void *, mmap, void *, size_t, int, int, int, off_t);
REAL(void *, mmap64, void *, size_t, int, int, int, off64_t);
REAL(DIR *, opendir, const char *);
REAL(struct dirent64 *, readdir64, DIR *);
REAL(int, closedir, DIR *);
REAL(int, statx, int, const char *, int, unsigned, struct statx *);
REAL(int, fstat64, int, struct stat64 *);
REAL(int, lstat64, const char *, struct stat64 *);
REAL(int, stat64, const char *, struct stat64 *);
REAL(ssize_t, readlink, const char *, char *, size_t);

static void load(void) {
#define L(n) real_##n = dlsym(RTLD_NEXT, #n)
  L(open); L(open64); L(openat); L(openat64); L(write); L(pwrite64); L(pwrite); L(writev); L(read); L(pread64); L(readv);
  L(fsync); L(fdatasync); L(rename); L(renameat); L(renameat2); L(link); L(linkat); L(unlink); L(unlinkat); L(rmdir);
  L(mkdir); L(mkdirat); L(symlink); L(symlinkat); L(chmod); L(fchmod); L(fchmodat); L(utimensat); L(futimens);
  L(ftruncate); L(ftruncate64); L(copy_file_range); L(sendfile64); L(sendfile); L(mmap); L(mmap64); L(opendir);
  L(readdir64); L(closedir); L(statx); L(fstat64); L(lstat64); L(stat64); L(readlink);
}

static int exitdelay;
void exit(int code) {
  static void (*real_exit)(int) __attribute__((noreturn));
  if (!real_exit) real_exit = dlsym(RTLD_NEXT, "exit");
  if (code && exitdelay) { struct timespec t = {0, exitdelay * 1000000L}; nanosleep(&t, 0); }
  real_exit(code);
  __builtin_unreachable();
}

static int split(const char *e, char out[][PATH_MAX]) {
  int n = 0;
  while (e && *e && n < 8) {
    const char *c = strchr(e, ':');
    size_t l = c ? (size_t)(c - e) : strlen(e);
    if (l >= PATH_MAX) l = PATH_MAX - 1;
    memcpy(out[n], e, l); out[n][l] = 0; n++;
    e = c ? c + 1 : NULL;
  }
  return n;
}

__attribute__((constructor)) static void init(void) {
  load();
  const char *exe = getenv("BPV_EXE");
  if (!exe) return;
  char self[PATH_MAX]; ssize_t n = real_readlink("/proc/self/exe", self, sizeof self - 1);
  if (n <= 0) return;
  self[n] = 0;
  char *b = strrchr(self, '/');
  if (!b || strcmp(b + 1, exe)) return;
  const char *v;
  if ((v = getenv("BPV_LOG"))) {
    int fd = real_open(v, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
    if (fd >= 0) { logfd = fcntl(fd, F_DUPFD_CLOEXEC, 500); if (logfd < 0) logfd = fd; else close(fd); }
  }
  logreads = getenv("BPV_LOG_READS") != NULL;
  if ((v = getenv("BPV_KILL_AT"))) killat = atol(v);
  if ((v = getenv("BPV_KILL_MODE"))) killmode = !strcmp(v, "after") ? 1 : !strcmp(v, "partial") ? 2 : 0;
  if ((v = getenv("BPV_FAIL_AT"))) { failread = v[0] == 'r'; failat = atol(v + 2); }   // "w:12" or "r:3"
  if ((v = getenv("BPV_FAIL_ERR"))) failerr = atoi(v); else failerr = EIO;
  failpersist = getenv("BPV_FAIL_PERSIST") != NULL;
  failpartial = getenv("BPV_FAIL_PARTIAL") != NULL;
  failpat = getenv("BPV_FAIL_FUNC"); failsub = getenv("BPV_FAIL_SUB");
  failpatn = (v = getenv("BPV_FAIL_NTH")) ? atol(v) : 0;
  nscope = split(getenv("BPV_SCOPE"), scope);
  nallow = split(getenv("BPV_ALLOW"), allow);
  if ((v = getenv("BPV_DELAY"))) sscanf(v, "%u:%d:%d", &delay_seed, &delay_max, &delay_prob);
  if ((v = getenv("BPV_STOP_FUNC"))) { stopfunc = v; stopsub = getenv("BPV_STOP_SUB"); stopctl = getenv("BPV_STOP_CTL");
    stopn = (v = getenv("BPV_STOP_NTH")) ? atol(v) : 1; }
  if ((v = getenv("BPV_EXIT_DELAY"))) exitdelay = atoi(v);     // ms, when failing
  cpuinfo = getenv("BPV_CPUINFO");
  if ((v = getenv("BPV_SHUFFLE"))) shuffle_seed = atoi(v);
  fastsleep = getenv("BPV_FAST_SLEEP") != NULL;
  active = 1;
}

static __thread int inside;

static int under(char l[][PATH_MAX], int n, const char *p) {
  for (int i = 0; i < n; i++) { size_t k = strlen(l[i]); if (!strncmp(p, l[i], k) && (p[k] == '/' || p[k] == 0)) return 1; }
  return 0;
}

// Absolute path, not resolving the last component, "." and ".." squeezed out lexically after resolving the parent.
static void abspath(int dirfd, const char *p, char *out) {
  char tmp[PATH_MAX * 2];
  if (p[0] == '/') snprintf(tmp, sizeof tmp, "%s", p);
  else {
    char base[PATH_MAX] = "";
    if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) base[0] = 0; }
    else { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd); ssize_t n = real_readlink(l, base, sizeof base - 1); base[n > 0 ? n : 0] = 0; }
    snprintf(tmp, sizeof tmp, "%s/%s", base, p);
  }
  size_t n = strlen(tmp);
  while (n > 1 && tmp[n - 1] == '/') tmp[--n] = 0;
  char *s = strrchr(tmp, '/');
  if (!s) { snprintf(out, PATH_MAX, "%s", tmp); return; }
  char last[NAME_MAX + 1]; snprintf(last, sizeof last, "%s", s + 1);
  if (!strcmp(last, "..") || !strcmp(last, ".")) { if (!realpath(tmp, out)) snprintf(out, PATH_MAX, "%s", tmp); return; }
  char par[PATH_MAX];
  if (s == tmp) strcpy(par, "/"); else { *s = 0; if (!realpath(tmp, par)) snprintf(par, sizeof par, "%s", tmp); }
  snprintf(out, PATH_MAX, "%s%s%s", par, strcmp(par, "/") ? "/" : "", last);
}

static void fdpath(int fd, char *out) {
  char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t n = real_readlink(l, out, PATH_MAX - 1); out[n > 0 ? n : 0] = 0;
}

static void esc(char *o, size_t cap, const char *p) {
  size_t k = 0;
  for (; p && *p && k + 4 < cap; p++) {
    unsigned char c = *p;
    if (c <= ' ' || c == '%' || c == 127) k += sprintf(o + k, "%%%02x", c); else o[k++] = c;
  }
  o[k] = 0;
}

static void logline(const char *kind, long idx, const char *fn, long ret, int err, uint64_t ino, const char *p1, const char *p2, long extra) {
  if (logfd < 0) return;
  char a[PATH_MAX * 3], b[PATH_MAX * 3], line[PATH_MAX * 7];
  esc(a, sizeof a, p1); esc(b, sizeof b, p2);
  int n = snprintf(line, sizeof line, "%ld\t%d\t%s\t%ld\t%s\t%ld\t%d\t%llu\t%s\t%s\t%ld\n", ++allseq, (int)syscall(SYS_gettid), kind, idx, fn, ret,
                   err, (unsigned long long)ino, a, b, extra);
  if (n > (int)sizeof line) n = sizeof line;
  ssize_t r = real_write(logfd, line, n); (void)r;
}

static void die(void) { syscall(SYS_kill, getpid(), SIGKILL); for (;;) pause(); }

static unsigned rnd(void) {
  static __thread unsigned s;
  if (!s) s = delay_seed * 2654435761u + (unsigned)syscall(SYS_gettid) * 40503u + 1;
  s ^= s << 13; s ^= s >> 17; s ^= s << 5; return s;
}

static void pausepoint(const char *fn, const char *p1, const char *p2) {
  if (delay_max && (int)(rnd() % 100) < delay_prob) { struct timespec t = {0, (long)(rnd() % (unsigned)delay_max) * 1000}; nanosleep(&t, 0); }
  if (stopfunc && strstr(stopfunc, fn) && (!stopsub || strstr(p1, stopsub) || (p2 && strstr(p2, stopsub)))) {
    long k = __sync_add_and_fetch(&stopseen, 1);
    if (k == stopn && stopctl) {
      char f[PATH_MAX]; snprintf(f, sizeof f, "%s/stopped", stopctl);
      int fd = real_open(f, O_WRONLY | O_CREAT, 0666); if (fd >= 0) { real_write(fd, fn, strlen(fn)); real_write(fd, " ", 1); real_write(fd, p1, strlen(p1)); real_write(fd, "\n", 1); close(fd); }
      snprintf(f, sizeof f, "%s/go", stopctl);
      struct stat64 st;
      for (int i = 0; i < 120000 && real_stat64(f, &st); i++) { struct timespec t = {0, 1000000}; nanosleep(&t, 0); }
    }
  }
}

typedef struct { int on, isread, fail, err; long idx; char p1[PATH_MAX], p2[PATH_MAX]; } op;

static int shouldfail(op *o, const char *fn) {
  if (failpat) {
    if (strcmp(failpat, fn) || (failsub && !strstr(o->p1, failsub) && !strstr(o->p2, failsub))) return 0;
    long k = ++failpatseen;
    return failpatn <= 0 || (failpersist ? k >= failpatn : k == failpatn);
  }
  if (failat < 0 || o->isread != failread) return 0;
  if (o->idx == failat) { snprintf(failfunc, sizeof failfunc, "%s", fn); return 1; }
  return failpersist && o->idx > failat && !strcmp(failfunc, fn);
}

// Enters an operation: takes the lock, numbers it, decides what happens to it.
static void begin(op *o, const char *fn, int isread, int mutates) {
  o->fail = 0; o->err = 0; o->isread = isread;
  o->on = active && !inside && (!nscope || under(scope, nscope, o->p1) || (o->p2[0] && under(scope, nscope, o->p2)));
  if (active && !inside && mutates && nallow && (o->p1[0] == '/') && !strstr(o->p1, " (deleted)") &&
      (!under(allow, nallow, o->p1) || (o->p2[0] && !under(allow, nallow, o->p2)))) {
    pthread_mutex_lock(&mu); logline("ESCAPE", 0, fn, -1, EPERM, 0, o->p1, o->p2, 0); pthread_mutex_unlock(&mu);
    o->on = 0; o->fail = 1; o->err = EPERM; return;
  }
  if (!o->on) return;
  inside++;
  pausepoint(fn, o->p1, o->p2);
  pthread_mutex_lock(&mu);
  o->idx = isread ? ++rcount : ++wcount;
  if (!isread && o->idx == killat && killmode == 0) { logline("KILL", o->idx, fn, 0, 0, 0, o->p1, o->p2, 0); die(); }
  if (shouldfail(o, fn)) { o->fail = 1; o->err = failerr; }
}

static void end(op *o, const char *fn, long ret, int err, uint64_t ino, long extra) {
  if (!o->on) return;
  if (!o->isread || logreads || o->fail) logline(o->fail ? (o->isread ? "RF" : "WF") : (o->isread ? "R" : "W"), o->idx, fn, ret, ret < 0 ? err : 0, ino, o->p1, o->p2, extra);
  if (!o->isread && o->idx == killat) { logline("KILL", o->idx, fn, 0, 0, 0, o->p1, o->p2, 1); die(); }
  pthread_mutex_unlock(&mu);
  inside--;
}

static uint64_t inofd(int fd) { struct stat64 s; if (fd < 0 || real_fstat64(fd, &s)) return 0; return ((uint64_t)s.st_dev << 40) ^ s.st_ino; }
static uint64_t inopath(const char *p) { struct stat64 s; if (real_lstat64(p, &s)) return 0; return ((uint64_t)s.st_dev << 40) ^ s.st_ino; }

#define RUN(o, fn, expr, inoexpr, extra) \
  long r_; int e_ = 0; \
  if ((o)->fail) { r_ = -1; e_ = (o)->err; end(o, fn, -1, e_, 0, extra); errno = e_; return -1; } \
  r_ = (expr); e_ = errno; \
  if ((o)->on) { uint64_t i_ = (inoexpr); end(o, fn, r_, e_, i_, extra); } \
  errno = e_; return r_;

#define PATHOP(fn, dfd, path, rd, mut) op o; o.p2[0] = 0; o.p1[0] = 0; if (active && !inside) abspath(dfd, path, o.p1); begin(&o, fn, rd, mut)
#define PATHOP2(fn, d1, a, d2, b) op o; o.p2[0] = 0; o.p1[0] = 0; if (active && !inside) { abspath(d1, a, o.p1); abspath(d2, b, o.p2); } begin(&o, fn, 0, 1)
#define FDOP(fn, fd, rd, mut) op o; o.p2[0] = 0; o.p1[0] = 0; if (active && !inside) { fdpath(fd, o.p1); if (o.p1[0] != '/' ) o.p1[0] = 0; } \
  if (o.p1[0]) begin(&o, fn, rd, mut); else { o.on = 0; o.fail = 0; }

static int do_open(const char *fn, int dfd, const char *path, int flags, mode_t mode) {
  if (active && !inside && cpuinfo && !strcmp(path, "/proc/cpuinfo")) path = cpuinfo;
  int w = (flags & (O_CREAT | O_TRUNC)) || (flags & O_TMPFILE) == O_TMPFILE;
  int writes = w || (flags & O_ACCMODE) != O_RDONLY;
  if (!real_openat) load();
  if (!active || inside) return real_openat(dfd, path, flags, mode);
  PATHOP(w ? "open_w" : "open_r", dfd, path, !w, writes);
  RUN(&o, w ? "open_w" : "open_r", real_openat(dfd, path, flags | (O_LARGEFILE), mode), inofd(r_), flags)
}
#define MODE mode_t mode = 0; if ((flags & O_CREAT) || (flags & O_TMPFILE) == O_TMPFILE) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *p, int flags, ...) { MODE return do_open("open", AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE return do_open("open", AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { MODE return do_open("open", d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE return do_open("open", d, p, flags, mode); }
int creat(const char *p, mode_t m) { return do_open("open", AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

#define WRITEBODY(fn, call, half) \
  FDOP(fn, fd, 0, 1); \
  if (o.on && o.idx == killat && killmode == 2) { half; logline("KILL", o.idx, fn, 0, 0, 0, o.p1, "", 2); die(); } \
  if (o.on && o.fail && failpartial) { half; } \
  RUN(&o, fn, call, inofd(fd), (long)n)
ssize_t write(int fd, const void *b, size_t n) { if (!real_write) load(); if (!active || inside || fd == logfd) return real_write(fd, b, n);
  WRITEBODY("write", real_write(fd, b, n), if (n > 1) { ssize_t h = real_write(fd, b, n / 2); (void)h; }) }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t off) { WRITEBODY("write", real_pwrite64(fd, b, n, off), if (n > 1) { ssize_t h = real_pwrite64(fd, b, n / 2, off); (void)h; }) }
ssize_t pwrite(int fd, const void *b, size_t n, off_t off) { WRITEBODY("write", real_pwrite(fd, b, n, off), if (n > 1) { ssize_t h = real_pwrite(fd, b, n / 2, off); (void)h; }) }
ssize_t writev(int fd, const struct iovec *v, int c) { size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
  WRITEBODY("write", real_writev(fd, v, c), ) }
ssize_t copy_file_range(int in, off64_t *oi, int fd, off64_t *oo, size_t n, unsigned f) {
  if (!real_copy_file_range) { errno = ENOSYS; return -1; }
  WRITEBODY("write", real_copy_file_range(in, oi, fd, oo, n, f), ) }
ssize_t sendfile64(int fd, int in, off64_t *off, size_t n) { WRITEBODY("write", real_sendfile64(fd, in, off, n), ) }
ssize_t sendfile(int fd, int in, off_t *off, size_t n) { WRITEBODY("write", real_sendfile(fd, in, off, n), ) }
int fsync(int fd) { FDOP("fsync", fd, 0, 0); RUN(&o, "fsync", real_fsync(fd), inofd(fd), 0) }
int fdatasync(int fd) { FDOP("fsync", fd, 0, 0); RUN(&o, "fsync", real_fdatasync(fd), inofd(fd), 0) }
int ftruncate(int fd, off_t n) { FDOP("ftruncate", fd, 0, 1); RUN(&o, "ftruncate", real_ftruncate(fd, n), inofd(fd), n) }
int ftruncate64(int fd, off64_t n) { FDOP("ftruncate", fd, 0, 1); RUN(&o, "ftruncate", real_ftruncate64(fd, n), inofd(fd), n) }
int fchmod(int fd, mode_t m) { FDOP("chmod", fd, 0, 1); RUN(&o, "chmod", real_fchmod(fd, m), inofd(fd), m) }
int futimens(int fd, const struct timespec *t) { FDOP("utimens", fd, 0, 1); RUN(&o, "utimens", real_futimens(fd, t), inofd(fd), 0) }
int rename(const char *a, const char *b) { PATHOP2("rename", AT_FDCWD, a, AT_FDCWD, b); RUN(&o, "rename", real_rename(a, b), inopath(b), 0) }
int renameat(int d, const char *a, int e, const char *b) { PATHOP2("rename", d, a, e, b); RUN(&o, "rename", real_renameat(d, a, e, b), inopath(o.p2), 0) }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) { PATHOP2("rename", d, a, e, b); RUN(&o, "rename", real_renameat2(d, a, e, b, f), inopath(o.p2), f) }
int link(const char *a, const char *b) { PATHOP2("link", AT_FDCWD, a, AT_FDCWD, b); RUN(&o, "link", real_link(a, b), inopath(b), 0) }
int linkat(int d, const char *a, int e, const char *b, int f) { PATHOP2("link", d, a, e, b); RUN(&o, "link", real_linkat(d, a, e, b, f), inopath(o.p2), f) }
int unlink(const char *p) { PATHOP("unlink", AT_FDCWD, p, 0, 1); RUN(&o, "unlink", real_unlink(p), 0, 0) }
int unlinkat(int d, const char *p, int f) { PATHOP(f & AT_REMOVEDIR ? "rmdir" : "unlink", d, p, 0, 1); RUN(&o, f & AT_REMOVEDIR ? "rmdir" : "unlink", real_unlinkat(d, p, f), 0, 0) }
int rmdir(const char *p) { PATHOP("rmdir", AT_FDCWD, p, 0, 1); RUN(&o, "rmdir", real_rmdir(p), 0, 0) }
int mkdir(const char *p, mode_t m) { PATHOP("mkdir", AT_FDCWD, p, 0, 1); RUN(&o, "mkdir", real_mkdir(p, m), 0, m) }
int mkdirat(int d, const char *p, mode_t m) { PATHOP("mkdir", d, p, 0, 1); RUN(&o, "mkdir", real_mkdirat(d, p, m), 0, m) }
int symlink(const char *t, const char *p) { PATHOP("symlink", AT_FDCWD, p, 0, 1); RUN(&o, "symlink", real_symlink(t, p), 0, 0) }
int symlinkat(const char *t, int d, const char *p) { PATHOP("symlink", d, p, 0, 1); RUN(&o, "symlink", real_symlinkat(t, d, p), 0, 0) }
int chmod(const char *p, mode_t m) { PATHOP("chmod", AT_FDCWD, p, 0, 1); RUN(&o, "chmod", real_chmod(p, m), inopath(o.p1), m) }
int fchmodat(int d, const char *p, mode_t m, int f) { PATHOP("chmod", d, p, 0, 1); RUN(&o, "chmod", real_fchmodat(d, p, m, f), inopath(o.p1), m) }
int utimensat(int d, const char *p, const struct timespec *t, int f) {
  const char *volatile q = p;
  if (!q) { FDOP("utimens", d, 0, 1); RUN(&o, "utimens", real_utimensat(d, p, t, f), 0, f) }
  PATHOP("utimens", d, p, 0, 1); RUN(&o, "utimens", real_utimensat(d, p, t, f), inopath(o.p1), f) }
// Reads: numbered apart from mutations, so that either can be made to fail.
ssize_t read(int fd, void *b, size_t n) { if (!real_read) load(); if (!active || inside) return real_read(fd, b, n);
  FDOP("read", fd, 1, 0); if (!o.on) return real_read(fd, b, n); RUN(&o, "read", real_read(fd, b, n), 0, (long)n) }
ssize_t pread64(int fd, void *b, size_t n, off64_t off) { FDOP("read", fd, 1, 0); RUN(&o, "read", real_pread64(fd, b, n, off), 0, (long)n) }
ssize_t readv(int fd, const struct iovec *v, int c) { FDOP("read", fd, 1, 0); RUN(&o, "read", real_readv(fd, v, c), 0, c) }
int statx(int d, const char *p, int f, unsigned m, struct statx *s) {
  const char *volatile q = p;     // the header says it is never null; std passes null to probe
  if (!active || inside || !q || !*q) return real_statx(d, p, f, m, s);
  PATHOP("stat", d, p, 1, 0); RUN(&o, "stat", real_statx(d, p, f, m, s), 0, f) }
int lstat64(const char *p, struct stat64 *s) { PATHOP("stat", AT_FDCWD, p, 1, 0); RUN(&o, "stat", real_lstat64(p, s), 0, 0) }
int stat64(const char *p, struct stat64 *s) { PATHOP("stat", AT_FDCWD, p, 1, 0); RUN(&o, "stat", real_stat64(p, s), 0, 0) }
DIR *opendir(const char *p) { PATHOP("opendir", AT_FDCWD, p, 1, 0);
  if (o.fail) { end(&o, "opendir", -1, o.err, 0, 0); errno = o.err; return NULL; }
  DIR *d = real_opendir(p); int e = errno; end(&o, "opendir", d ? 0 : -1, e, 0, 0); errno = e; return d; }
// Directories list their entries in an order of their own.
struct shuf { DIR *d; struct dirent64 **e; long n, at; struct shuf *next; };
static struct shuf *shufs;
static pthread_mutex_t shuffle_mu = PTHREAD_MUTEX_INITIALIZER;
static struct dirent64 *shuffled(DIR *d) {
  pthread_mutex_lock(&shuffle_mu);
  struct shuf *x;
  for (x = shufs; x && x->d != d; x = x->next);
  if (!x) {
    x = calloc(1, sizeof *x); x->d = d; x->next = shufs; shufs = x;
    struct dirent64 *r;
    errno = 0;
    while ((r = real_readdir64(d))) {
      x->e = realloc(x->e, (x->n + 1) * sizeof *x->e);
      x->e[x->n] = malloc(r->d_reclen); memcpy(x->e[x->n], r, r->d_reclen); x->n++;
    }
    unsigned long s = shuffle_seed * 2654435761u + x->n;
    for (long i = x->n - 1; i > 0; i--) {
      s = s * 6364136223846793005ul + 1442695040888963407ul;
      long j = (s >> 33) % (i + 1); struct dirent64 *t = x->e[i]; x->e[i] = x->e[j]; x->e[j] = t;
    }
  }
  struct dirent64 *r = x->at < x->n ? x->e[x->at++] : NULL;
  pthread_mutex_unlock(&shuffle_mu);
  return r;
}
struct dirent64 *readdir64(DIR *d) {
  if (!active || inside) return real_readdir64(d);
  FDOP("readdir", dirfd(d), 1, 0);
  if (o.fail) { end(&o, "readdir", -1, o.err, 0, 0); errno = o.err; return NULL; }
  struct dirent64 *r = shuffle_seed ? shuffled(d) : real_readdir64(d); int e = errno; end(&o, "readdir", 0, e, 0, 0); errno = e; return r; }
int closedir(DIR *d) {
  if (!real_closedir) load();
  if (shuffle_seed) {
    pthread_mutex_lock(&shuffle_mu);
    for (struct shuf **q = &shufs; *q; q = &(*q)->next)
      if ((*q)->d == d) { struct shuf *x = *q; *q = x->next; for (long i = 0; i < x->n; i++) free(x->e[i]); free(x->e); free(x); break; }
    pthread_mutex_unlock(&shuffle_mu);
  }
  return real_closedir(d);
}
static void *do_mmap(void *a, size_t n, int pr, int fl, int fd, off64_t off) {
  if (!real_mmap64) load();
  if (!active || inside || fd < 0) return real_mmap64(a, n, pr, fl, fd, off);
  FDOP("mmap", fd, 1, 0);
  if (o.fail) { end(&o, "mmap", -1, o.err, 0, n); errno = o.err; return MAP_FAILED; }
  void *r = real_mmap64(a, n, pr, fl, fd, off); int e = errno; end(&o, "mmap", r == MAP_FAILED ? -1 : 0, e, 0, n); errno = e; return r; }
void *mmap64(void *a, size_t n, int pr, int fl, int fd, off64_t off) { return do_mmap(a, n, pr, fl, fd, off); }
void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t off) { return do_mmap(a, n, pr, fl, fd, off); }

// Long sleeps are made short where asked for (waits between attempts); the number of them is what counts.
int nanosleep(const struct timespec *t, struct timespec *rem) {
  struct timespec s = *t;
  if (active && fastsleep && s.tv_sec >= 1) { s.tv_sec = 0; s.tv_nsec = 20000000; }
  int r = syscall(SYS_clock_nanosleep, CLOCK_REALTIME, 0, &s, rem); return r; }
int clock_nanosleep(clockid_t c, int flags, const struct timespec *t, struct timespec *rem) {
  struct timespec s = *t;
  if (active && fastsleep && !(flags & TIMER_ABSTIME) && s.tv_sec >= 1) { s.tv_sec = 0; s.tv_nsec = 20000000; }
  long r = syscall(SYS_clock_nanosleep, c, flags, &s, rem); return r ? errno : 0; }
