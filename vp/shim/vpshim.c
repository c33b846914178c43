/* LD_PRELOAD shim: observes the system-call boundary of the code under test, emulates block devices, the
 * FIEMAP / SEEK_HOLE kernel interfaces and sysfs (path redirection), and injects faults.
 * Everything is driven by a configuration file (environment variable VPSHIM_CONF, or vp_load() via ctypes).
 * Only files named in the configuration are affected. Child processes do not inherit the shim. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/sysmacros.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 1024
#define MAXROLE 24
#define MAXFAULT 64
#define MAXREDIR 16
typedef unsigned long long u64;
typedef long long s64;
struct ext { u64 start, len; };
struct role {
  char name[32], path[PATH_MAX];
  int payload, quiet, blk, busy, maj, min; s64 cap;
  int sysfs;            /* 1: a plain sysfs attribute, 2: one that shows the current choice in brackets */
  int fmode, trim, bsz; /* fmode 0 real, 1 emulated, else errno */
  int smode;            /* 0 real, 1 emulated, 2 stub, 3 EINVAL, 4 EIO */
  struct ext *ext; int next, cext;
};
struct fault { char role[32], op[16], kind[16]; int nth, count; s64 arg; };
struct redir { char from[PATH_MAX], to[PATH_MAX]; };
static struct role roles[MAXROLE]; static int nroles;
static struct fault faults[MAXFAULT]; static int nfaults;
static struct redir redirs[MAXREDIR]; static int nredirs;
static int seekall;
static short fdrole[MAXFD]; static int fdfl[MAXFD];
static int logfd = -1, datafd = -1, armed; static u64 seq, dataoff;
static pthread_mutex_t L = PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP;

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__)
REAL(int, open64, const char *, int, ...);
REAL(int, openat64, int, const char *, int, ...);
REAL(int, close, int);
REAL(ssize_t, read, int, void *, size_t);
REAL(ssize_t, pread64, int, void *, size_t, off64_t);
REAL(ssize_t, write, int, const void *, size_t);
REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
REAL(ssize_t, writev, int, const struct iovec *, int);
REAL(ssize_t, readv, int, const struct iovec *, int);
REAL(ssize_t, pwritev64, int, const struct iovec *, int, off64_t);
REAL(int, fsync, int);
REAL(int, fdatasync, int);
REAL(int, ftruncate64, int, off64_t);
REAL(int, truncate64, const char *, off64_t);
REAL(int, fallocate64, int, int, off64_t, off64_t);
REAL(int, posix_fallocate64, int, off64_t, off64_t);
REAL(off64_t, lseek64, int, off64_t, int);
REAL(int, ioctl, int, unsigned long, ...);
REAL(int, fstat64, int, struct stat64 *);
REAL(int, stat64, const char *, struct stat64 *);
REAL(int, lstat64, const char *, struct stat64 *);
REAL(int, fstatat64, int, const char *, struct stat64 *, int);
REAL(int, access, const char *, int);
REAL(int, dup, int);
REAL(int, dup2, int, int);
REAL(int, dup3, int, int, int);
REAL(int, fcntl64, int, int, ...);
REAL(int, unlink, const char *);
REAL(int, rename, const char *, const char *);
REAL(ssize_t, sendfile64, int, int, off64_t *, size_t);
REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
REAL(ssize_t, splice, int, off64_t *, int, off64_t *, size_t, unsigned);
static int ready;

static void resolve(void) {
  if (ready) return;
#define R(n) real_##n = dlsym(RTLD_NEXT, #n)
  R(open64); R(openat64); R(close); R(read); R(pread64); R(write); R(pwrite64); R(writev); R(readv); R(pwritev64);
  R(fsync); R(fdatasync); R(ftruncate64); R(truncate64); R(fallocate64); R(posix_fallocate64); R(lseek64); R(ioctl);
  R(fstat64); R(stat64); R(lstat64); R(fstatat64); R(access); R(dup); R(dup2); R(dup3); R(fcntl64); R(unlink);
  R(rename); R(sendfile64); R(copy_file_range); R(splice);
  ready = 1;
}

/* code which goes on and on must not fill the memory */
#define MAXREC 1000000
#define MAXDATA (400LL << 20)
static void enough(void) { if (seq > MAXREC || dataoff > MAXDATA) raise(SIGKILL); }

static void lock(void) { pthread_mutex_lock(&L); }
static void unlock(void) { pthread_mutex_unlock(&L); }

static void rec(const char *op, const char *role, s64 a, s64 b, s64 c, s64 ret, int err, s64 doff) {
  char buf[256]; int n, e = errno;
  if (logfd < 0) return;
  lock();
  n = snprintf(buf, sizeof buf, "%llu %d %s %s %lld %lld %lld %lld %d %lld\n", ++seq, (int)syscall(SYS_gettid), op,
               role, a, b, c, ret, err, doff);
  real_write(logfd, buf, n);
  enough();
  unlock();
  errno = e;
}

static s64 save(const struct role *r, const void *buf, s64 n) {
  s64 o = dataoff, d = 0;
  if (!r->payload || datafd < 0 || n <= 0) return -1;
  while (d < n) { ssize_t k = real_pwrite64(datafd, (const char *)buf + d, n - d, o + d); if (k <= 0) break; d += k; }
  dataoff += n;
  enough();
  return o;
}

static int role_by_name(const char *n) { for (int i = 0; i < nroles; i++) if (!strcmp(roles[i].name, n)) return i; return -1; }

static const char *redirect(const char *p, char *buf) {
  if (!armed || !p) return p;
  for (int i = 0; i < nredirs; i++) {
    size_t l = strlen(redirs[i].from);
    if (!strncmp(p, redirs[i].from, l)) { snprintf(buf, PATH_MAX, "%s%s", redirs[i].to, p + l); return buf; }
  }
  return p;
}

static void normalise(const char *p, char *out) {
  char tmp[2 * PATH_MAX], *s, *save_, *parts[256]; int n = 0;
  if (p[0] == '/') snprintf(tmp, sizeof tmp, "%s", p);
  else { char cwd[PATH_MAX]; if (!getcwd(cwd, sizeof cwd)) cwd[0] = 0; snprintf(tmp, sizeof tmp, "%s/%s", cwd, p); }
  for (s = strtok_r(tmp, "/", &save_); s && n < 256; s = strtok_r(NULL, "/", &save_)) {
    if (!strcmp(s, ".")) continue;
    if (!strcmp(s, "..")) { if (n) n--; continue; }
    parts[n++] = s;
  }
  out[0] = 0;
  for (int i = 0; i < n; i++) { strcat(out, "/"); strcat(out, parts[i]); }
}

/* the role of a path: same file (device, inode) as a role's path or, if missing, the same name */
static int role_of_path(const char *p) {
  struct stat64 a, b; char q[2 * PATH_MAX];
  if (!armed || !p) return -1;
  if (real_stat64(p, &a) == 0) {
    for (int i = 0; i < nroles; i++)
      if (real_stat64(roles[i].path, &b) == 0 && a.st_dev == b.st_dev && a.st_ino == b.st_ino) return i;
    return -1;
  }
  normalise(p, q);
  for (int i = 0; i < nroles; i++) if (!strcmp(roles[i].path, q)) return i;
  return -1;
}

static struct role *R_(int fd) { return armed && fd >= 0 && fd < MAXFD && fdrole[fd] > 0 ? &roles[fdrole[fd] - 1] : NULL; }

static struct fault *fire(const char *role, const char *op) {
  if (!armed) return NULL;
  struct fault *hit = NULL;
  for (int i = 0; i < nfaults; i++) {
    struct fault *f = &faults[i];
    if (strcmp(f->role, role) || strcmp(f->op, op)) continue;
    f->count++;
    if (!hit && (f->nth == 0 || f->count == f->nth || (f->nth < 0 && f->count >= -f->nth))) hit = f;
  }
  if (!hit) return NULL;
  rec("fault", role, hit->count, hit->arg, 0, 0, 0, -1);
  if (!strcmp(hit->kind, "exit")) _exit(137);
  if (!strcmp(hit->kind, "kill")) { kill(getpid(), SIGKILL); pause(); }
  if (!strcmp(hit->kind, "sigint")) { kill(getpid(), SIGINT); return NULL; }
  return hit;
}

static int do_load(const char *path) {
  FILE *f = fopen(path, "r"); char line[3 * PATH_MAX];
  resolve();
  if (!f) return -1;
  armed = 0; nroles = nfaults = nredirs = seekall = 0; seq = dataoff = 0;
  if (logfd >= 0) real_close(logfd);
  if (datafd >= 0) real_close(datafd);
  logfd = datafd = -1;
  memset(fdrole, 0, sizeof fdrole);
  while (fgets(line, sizeof line, f)) {
    char w[7][PATH_MAX]; int n = sscanf(line, "%4095s %4095s %4095s %4095s %4095s %4095s %4095s", w[0], w[1], w[2], w[3], w[4], w[5], w[6]);
    if (n < 1 || w[0][0] == '#') continue;
    if (!strcmp(w[0], "log")) { int d = real_open64(w[1], O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644); logfd = real_fcntl64(d, F_DUPFD_CLOEXEC, 900); real_close(d); }
    else if (!strcmp(w[0], "data")) { int d = real_open64(w[1], O_RDWR | O_CREAT | O_CLOEXEC, 0644); datafd = real_fcntl64(d, F_DUPFD_CLOEXEC, 900); real_close(d); }
    else if (!strcmp(w[0], "watch")) { struct role *r = &roles[nroles++]; memset(r, 0, sizeof *r); snprintf(r->name, 32, "%s", w[1]); snprintf(r->path, PATH_MAX, "%s", w[2]); }
    else if (!strcmp(w[0], "redirect")) { snprintf(redirs[nredirs].from, PATH_MAX, "%s", w[1]); snprintf(redirs[nredirs++].to, PATH_MAX, "%s", w[2]); }
    else if (!strcmp(w[0], "seekall")) seekall = atoi(w[1]);
    else if (!strcmp(w[0], "fault")) { struct fault *x = &faults[nfaults++]; memset(x, 0, sizeof *x); snprintf(x->role, 32, "%s", w[1]); snprintf(x->op, 16, "%s", w[2]); x->nth = atoi(w[3]); snprintf(x->kind, 16, "%s", w[4]); x->arg = n > 5 ? atoll(w[5]) : 0; }
    else {
      int i = role_by_name(w[1]); if (i < 0) continue;
      struct role *r = &roles[i];
      if (!strcmp(w[0], "payload")) r->payload = 1;
      else if (!strcmp(w[0], "quiet")) r->quiet = 1;
      else if (!strcmp(w[0], "blk")) { r->blk = 1; r->cap = atoll(w[2]); r->maj = atoi(w[3]); r->min = atoi(w[4]); r->busy = n > 5 && !strcmp(w[5], "busy") ? n > 6 ? atoi(w[6]) : EBUSY : 0; }
      else if (!strcmp(w[0], "sysfs")) r->sysfs = !strcmp(w[2], "choice") ? 2 : 1;
      else if (!strcmp(w[0], "fiemap")) { r->fmode = atoi(w[2]); r->trim = n > 3 && atoi(w[3]); }
      else if (!strcmp(w[0], "bsz")) r->bsz = atoi(w[2]);
      else if (!strcmp(w[0], "seek")) r->smode = atoi(w[2]);
      else if (!strcmp(w[0], "extent")) { if (r->next == r->cext) r->ext = realloc(r->ext, sizeof(struct ext) * (r->cext = r->cext ? 2 * r->cext : 64)); r->ext[r->next].start = strtoull(w[2], 0, 10); r->ext[r->next++].len = strtoull(w[3], 0, 10); }
    }
  }
  fclose(f);
  armed = 1;
  return 0;
}

int vp_load(const char *path) { return do_load(path); }
void vp_disarm(void) { armed = 0; }
void vp_note(const char *op, s64 a, s64 b) { rec(op, "-", a, b, 0, 0, 0, -1); }
/* register a descriptor opened before vp_load */
void vp_adopt(int fd, const char *role) { int i = role_by_name(role); if (i >= 0 && fd >= 0 && fd < MAXFD) fdrole[fd] = i + 1; }

static int opened(int fd, const char *p, int fl);
__attribute__((constructor)) static void init(void) {
  char *c; resolve();
  unsetenv("LD_PRELOAD");
  if ((c = getenv("VPSHIM_CONF")) && *c) { do_load(c); unsetenv("VPSHIM_CONF"); opened(1, 0, O_WRONLY); opened(2, 0, O_WRONLY); }
}

static int opened(int fd, const char *p, int fl) {
  if (armed && fd >= 0 && fd < MAXFD) {
    struct stat64 a, b; fdrole[fd] = 0;
    if (real_fstat64(fd, &a) == 0)
      for (int i = 0; i < nroles; i++)
        if (real_stat64(roles[i].path, &b) == 0 && a.st_dev == b.st_dev && a.st_ino == b.st_ino) { fdrole[fd] = i + 1; fdfl[fd] = fl; break; }
  }
  (void)p;
  return fd;
}

static int do_open(int at, const char *p0, int fl, mode_t mode, int useat) {
  char buf[PATH_MAX]; int fd, e; resolve();
  const char *p = redirect(p0, buf);
  if (!armed) return useat ? real_openat64(at, p, fl, mode) : real_open64(p, fl, mode);
  lock();
  int i = role_of_path(p), rfl = fl;
  if (i >= 0) {
    struct role *r = &roles[i]; struct fault *f = fire(r->name, "open");
    if (f) { rec("open", r->name, fl, mode, 0, -1, f->arg, -1); unlock(); errno = f->arg; return -1; }
    if (r->blk) {
      if ((fl & O_EXCL) && !(fl & O_CREAT) && r->busy) { rec("open", r->name, fl, mode, 0, -1, r->busy, -1); unlock(); errno = r->busy; return -1; }
      if (fl & O_CREAT && fl & O_EXCL) { rec("open", r->name, fl, mode, 0, -1, EEXIST, -1); unlock(); errno = EEXIST; return -1; }
      rfl &= ~(O_TRUNC | O_CREAT | O_EXCL);
    }
    if (r->sysfs) rfl &= ~(O_TRUNC | O_CREAT | O_EXCL | O_APPEND);
  }
  fd = useat ? real_openat64(at, p, rfl, mode) : real_open64(p, rfl, mode); e = errno;
  opened(fd, p, fl);
  struct role *r = R_(fd);
  if (r) rec("open", r->name, fl, mode, fd, 0, 0, -1);
  else if (i >= 0) rec("open", roles[i].name, fl, mode, -1, fd >= 0 ? 0 : -1, e, -1);
  unlock();
  errno = e;
  return fd;
}

#define MODE(fl) mode_t mode = 0; if ((fl) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int fl, ...) { MODE(fl) return do_open(0, p, fl, mode, 0); }
int open64(const char *p, int fl, ...) { MODE(fl) return do_open(0, p, fl, mode, 0); }
int openat(int at, const char *p, int fl, ...) { MODE(fl) return do_open(at, p, fl, mode, 1); }
int openat64(int at, const char *p, int fl, ...) { MODE(fl) return do_open(at, p, fl, mode, 1); }
int creat(const char *p, mode_t m) { return do_open(0, p, O_CREAT | O_WRONLY | O_TRUNC, m, 0); }
int creat64(const char *p, mode_t m) { return do_open(0, p, O_CREAT | O_WRONLY | O_TRUNC, m, 0); }

int close(int fd) {
  resolve(); struct role *r = R_(fd); int ret, e;
  if (!r) { return real_close(fd); }
  lock();
  ret = real_close(fd); e = errno; fdrole[fd] = 0;
  rec("close", r->name, fd, 0, 0, ret, ret < 0 ? e : 0, -1);
  unlock(); errno = e;
  return ret;
}

static void duped(int from, int to) { if (armed && to >= 0 && to < MAXFD && from >= 0 && from < MAXFD) { fdrole[to] = fdrole[from]; fdfl[to] = fdfl[from]; } }
int dup(int fd) { resolve(); int n = real_dup(fd); duped(fd, n); return n; }
int dup2(int a, int b) { resolve(); int n = real_dup2(a, b); duped(a, n); return n; }
int dup3(int a, int b, int c) { resolve(); int n = real_dup3(a, b, c); duped(a, n); return n; }
static int do_fcntl(int fd, int cmd, void *arg) {
  resolve(); int n = real_fcntl64(fd, cmd, arg);
  if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) duped(fd, n);
  return n;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, a); }

static s64 tell_(int fd) { s64 o = real_lseek64(fd, 0, SEEK_CUR); return o; }

static ssize_t do_read(int fd, void *b, size_t n, s64 off) {
  struct role *r = R_(fd); ssize_t k; int e; s64 o = off >= 0 ? off : tell_(fd);
  struct fault *f = fire(r->name, "read");
  if (f && !strcmp(f->kind, "errno")) { rec("read", r->name, o, n, 0, -1, f->arg, -1); errno = f->arg; return -1; }
  if (f && !strcmp(f->kind, "short") && n > (size_t)f->arg) n = f->arg;
  k = off >= 0 ? real_pread64(fd, b, n, off) : real_read(fd, b, n); e = errno;
  if (!r->quiet) rec("read", r->name, o, n, 0, k, k < 0 ? e : 0, -1);
  errno = e;
  return k;
}
ssize_t read(int fd, void *b, size_t n) { resolve(); return R_(fd) ? do_read(fd, b, n, -1) : real_read(fd, b, n); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { resolve(); return R_(fd) ? do_read(fd, b, n, o) : real_pread64(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { resolve(); return R_(fd) ? do_read(fd, b, n, o) : real_pread64(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec *v, int c) {
  resolve(); if (!R_(fd)) return real_readv(fd, v, c);
  ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t k = do_read(fd, v[i].iov_base, v[i].iov_len, -1); if (k < 0) return t ? t : -1; t += k; if ((size_t)k < v[i].iov_len) break; }
  return t;
}

/* store a value in a sysfs attribute as the kernel does */
static ssize_t sysfs_store(struct role *r, const char *b, size_t n) {
  char v[256], old[4096], new[8192], *s, *save_; int fd, k, found = 0;
  snprintf(v, sizeof v, "%.*s", (int)(n < 255 ? n : 255), b);
  while (*v && strchr(" \n\t", v[strlen(v) - 1])) v[strlen(v) - 1] = 0;
  fd = real_open64(r->path, O_RDWR | O_CLOEXEC);
  if (fd < 0) return -1;
  k = real_pread64(fd, old, sizeof old - 1, 0); old[k > 0 ? k : 0] = 0;
  new[0] = 0;
  if (r->sysfs == 1) snprintf(new, sizeof new, "%s\n", v), found = *v != 0;
  else for (s = strtok_r(old, " \n", &save_); s; s = strtok_r(NULL, " \n", &save_)) {
    if (*s == '[') { s++; if (*s) s[strlen(s) - 1] = 0; }
    int cur = !strcmp(s, v); found |= cur;
    snprintf(new + strlen(new), sizeof new - strlen(new), cur ? "[%s] " : "%s ", s);
  }
  if (r->sysfs == 2 && *new) new[strlen(new) - 1] = '\n';
  if (found) { real_ftruncate64(fd, 0); real_pwrite64(fd, new, strlen(new), 0); }
  real_close(fd);
  if (!found) { errno = EINVAL; return -1; }
  return n;
}

static ssize_t do_write(int fd, const void *b, size_t n, s64 off) {
  struct role *r = R_(fd); ssize_t k; int e; s64 o, d; size_t want = n;
  lock();
  o = off >= 0 ? off : (fdfl[fd] & O_APPEND) ? real_lseek64(fd, 0, SEEK_END) : tell_(fd);
  struct fault *f = fire(r->name, "write");
  int torn = 0;
  if (f && !strcmp(f->kind, "errno")) { rec("write", r->name, o, n, fdfl[fd], -1, f->arg, -1); unlock(); errno = f->arg; return -1; }
  if (f && !strcmp(f->kind, "short") && n > (size_t)f->arg) n = f->arg;
  if (f && !strcmp(f->kind, "torn")) { torn = 1; if (n > (size_t)f->arg) n = f->arg; }
  if (r->blk) {
    if (o >= r->cap) { rec("write", r->name, o, n, fdfl[fd], -1, ENOSPC, -1); unlock(); errno = ENOSPC; return -1; }
    if (o + (s64)n > r->cap) n = r->cap - o;
  }
  if (r->sysfs) { k = sysfs_store(r, b, n); e = errno; }
  else { k = off >= 0 ? real_pwrite64(fd, b, n, off) : real_write(fd, b, n); e = errno; }
  d = save(r, b, k);
  rec("write", r->name, o, want, fdfl[fd], k, k < 0 ? e : 0, d);
  if (torn) _exit(137);
  unlock(); errno = e;
  return k;
}
ssize_t write(int fd, const void *b, size_t n) { resolve(); return R_(fd) ? do_write(fd, b, n, -1) : real_write(fd, b, n); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { resolve(); return R_(fd) ? do_write(fd, b, n, o) : real_pwrite64(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { resolve(); return R_(fd) ? do_write(fd, b, n, o) : real_pwrite64(fd, b, n, o); }
static ssize_t vec(int fd, const struct iovec *v, int c, s64 off) {
  ssize_t t = 0;
  for (int i = 0; i < c; i++) {
    ssize_t k = do_write(fd, v[i].iov_base, v[i].iov_len, off >= 0 ? off + t : -1);
    if (k < 0) return t ? t : -1;
    t += k; if ((size_t)k < v[i].iov_len) break;
  }
  return t;
}
ssize_t writev(int fd, const struct iovec *v, int c) { resolve(); return R_(fd) ? vec(fd, v, c, -1) : real_writev(fd, v, c); }
ssize_t pwritev(int fd, const struct iovec *v, int c, off_t o) { resolve(); return R_(fd) ? vec(fd, v, c, o) : real_pwritev64(fd, v, c, o); }
ssize_t pwritev64(int fd, const struct iovec *v, int c, off64_t o) { resolve(); return R_(fd) ? vec(fd, v, c, o) : real_pwritev64(fd, v, c, o); }
/* in-kernel copies to or from a watched file: refuse, callers fall back to read/write */
ssize_t sendfile(int o, int i, off_t *p, size_t n) { resolve(); if (R_(o) || R_(i)) { errno = EINVAL; return -1; } return real_sendfile64(o, i, p, n); }
ssize_t sendfile64(int o, int i, off64_t *p, size_t n) { resolve(); if (R_(o) || R_(i)) { errno = EINVAL; return -1; } return real_sendfile64(o, i, p, n); }
ssize_t copy_file_range(int i, off64_t *a, int o, off64_t *b, size_t n, unsigned f) { resolve(); if (R_(o) || R_(i)) { errno = ENOSYS; return -1; } return real_copy_file_range(i, a, o, b, n, f); }
ssize_t splice(int i, off64_t *a, int o, off64_t *b, size_t n, unsigned f) { resolve(); if (R_(o) || R_(i)) { errno = EINVAL; return -1; } return real_splice(i, a, o, b, n, f); }

static int do_sync(int fd, int data) {
  struct role *r = R_(fd); int k, e;
  lock();
  struct fault *f = fire(r->name, "fsync");
  if (f && !strcmp(f->kind, "errno")) { rec("fsync", r->name, 0, data, 0, -1, f->arg, -1); unlock(); errno = f->arg; return -1; }
  k = r->blk ? 0 : data ? real_fdatasync(fd) : real_fsync(fd); e = errno;
  rec("fsync", r->name, 0, data, 0, k, k < 0 ? e : 0, -1);
  unlock(); errno = e;
  return k;
}
int fsync(int fd) { resolve(); return R_(fd) ? do_sync(fd, 0) : real_fsync(fd); }
int fdatasync(int fd) { resolve(); return R_(fd) ? do_sync(fd, 1) : real_fdatasync(fd); }

static int do_trunc(int fd, s64 len) {
  struct role *r = R_(fd); int k, e;
  lock();
  struct fault *f = fire(r->name, "ftruncate");
  if (f && !strcmp(f->kind, "errno")) { rec("ftruncate", r->name, len, 0, 0, -1, f->arg, -1); unlock(); errno = f->arg; return -1; }
  if (r->blk) { k = -1; e = EINVAL; } else { k = real_ftruncate64(fd, len); e = errno; }
  rec("ftruncate", r->name, len, 0, 0, k, k < 0 ? e : 0, -1);
  unlock(); errno = e;
  return k;
}
int ftruncate(int fd, off_t n) { resolve(); return R_(fd) ? do_trunc(fd, n) : real_ftruncate64(fd, n); }
int ftruncate64(int fd, off64_t n) { resolve(); return R_(fd) ? do_trunc(fd, n) : real_ftruncate64(fd, n); }
static int do_ptrunc(const char *p, s64 n) {
  char buf[PATH_MAX]; p = redirect(p, buf);
  int i = role_of_path(p);
  if (i >= 0 && roles[i].blk) { errno = EINVAL; return -1; }
  int k = real_truncate64(p, n), e = errno;
  if (i >= 0) rec("ftruncate", roles[i].name, n, 0, 0, k, k < 0 ? e : 0, -1);
  errno = e;
  return k;
}
int truncate(const char *p, off_t n) { resolve(); return do_ptrunc(p, n); }
int truncate64(const char *p, off64_t n) { resolve(); return do_ptrunc(p, n); }
static int do_falloc(int fd, int m, s64 o, s64 n) {
  struct role *r = R_(fd); int k = real_fallocate64(fd, m, o, n), e = errno;
  rec("fallocate", r->name, m, o, n, k, k < 0 ? e : 0, -1); errno = e;
  return k;
}
int fallocate(int fd, int m, off_t o, off_t n) { resolve(); return R_(fd) ? do_falloc(fd, m, o, n) : real_fallocate64(fd, m, o, n); }
int fallocate64(int fd, int m, off64_t o, off64_t n) { resolve(); return R_(fd) ? do_falloc(fd, m, o, n) : real_fallocate64(fd, m, o, n); }
int posix_fallocate(int fd, off_t o, off_t n) { resolve(); return R_(fd) ? (do_falloc(fd, 0, o, n) ? errno : 0) : real_posix_fallocate64(fd, o, n); }
int posix_fallocate64(int fd, off64_t o, off64_t n) { resolve(); return R_(fd) ? (do_falloc(fd, 0, o, n) ? errno : 0) : real_posix_fallocate64(fd, o, n); }

static s64 filesize(int fd) { struct stat64 s; return real_fstat64(fd, &s) ? 0 : s.st_size; }
/* SEEK_DATA (3) / SEEK_HOLE (4) over the configured extents (sorted, possibly adjacent) */
static s64 seekdh(struct role *r, int fd, s64 off, int wh) {
  s64 size = filesize(fd);
  if (off < 0 || off >= size) { errno = ENXIO; return -1; }
  s64 p = off;
  if (wh == 3) {
    for (int i = 0; i < r->next; i++) {
      s64 s = r->ext[i].start, e = s + r->ext[i].len;
      if (e <= p) continue;
      s64 q = s > p ? s : p;
      if (q >= size) break;
      return q;
    }
    errno = ENXIO;
    return -1;
  }
  for (int again = 1; again;) {
    again = 0;
    for (int i = 0; i < r->next; i++) {
      s64 s = r->ext[i].start, e = s + r->ext[i].len;
      if (s <= p && p < e) { p = e; again = 1; }
    }
  }
  return p < size ? p : size;
}

static off64_t do_seek(int fd, off64_t off, int wh) {
  struct role *r = R_(fd); off64_t k; int e;
  if (!r) {
    if (armed && seekall && (wh == 3 || wh == 4)) {
      if (seekall == 3) { errno = EINVAL; return -1; }
      s64 size = filesize(fd);
      if (off >= size) { errno = ENXIO; return -1; }
      return real_lseek64(fd, wh == 3 ? off : size, SEEK_SET);
    }
    return real_lseek64(fd, off, wh);
  }
  lock();
  struct fault *f = fire(r->name, wh >= 3 ? "seekdh" : "lseek");
  if (f && !strcmp(f->kind, "errno")) { rec("lseek", r->name, off, wh, 0, -1, f->arg, -1); unlock(); errno = f->arg; return -1; }
  if (r->blk && wh == SEEK_END) k = real_lseek64(fd, r->cap + off, SEEK_SET);
  else if (wh >= 3 && r->smode) {
    if (r->smode == 3) { k = -1; errno = EINVAL; }
    else if (r->smode == 4) { k = -1; errno = EIO; }
    else if (r->smode == 2) { s64 size = filesize(fd); if (off >= size) { k = -1; errno = ENXIO; } else k = wh == 3 ? off : size; }
    else k = seekdh(r, fd, off, wh);
    if (k >= 0) real_lseek64(fd, k, SEEK_SET);
  } else k = real_lseek64(fd, off, wh);
  e = errno;
  if (!r->quiet) rec("lseek", r->name, off, wh, 0, k, k < 0 ? e : 0, -1);
  unlock(); errno = e;
  return k;
}
off_t lseek(int fd, off_t o, int w) { resolve(); return do_seek(fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { resolve(); return do_seek(fd, o, w); }

struct fmx { u64 logical, physical, length, r64[2]; uint32_t flags, r[3]; };
struct fm { u64 start, length; uint32_t flags, mapped, count, res; struct fmx x[]; };
static int do_fiemap(struct role *r, struct fm *m) {
  u64 s = m->start, len = m->length, end;
  if (len == 0) { errno = EINVAL; return -1; }
  end = s + len < s ? ~0ULL : s + len;
  m->mapped = 0;
  for (int i = 0; i < r->next; i++) {
    u64 es = r->ext[i].start, ee = es + r->ext[i].len;
    if (ee <= s || es >= end) continue;
    if (m->count) {
      if (m->mapped == m->count) break;
      struct fmx *x = &m->x[m->mapped];
      memset(x, 0, sizeof *x);
      u64 a = es, b = ee;
      if (r->trim) { if (a < s) a = s; if (b > end) b = end; }
      x->logical = a; x->length = b - a; x->physical = 0x100000000ULL + 3 * a;
      if (i == r->next - 1) x->flags = 1;
    }
    m->mapped++;
  }
  return 0;
}
int ioctl(int fd, unsigned long rq, ...) {
  va_list ap; va_start(ap, rq); void *arg = va_arg(ap, void *); va_end(ap);
  resolve();
  struct role *r = R_(fd); int k, e;
  rq &= 0xffffffffUL;
  if (!r || (rq != 2 && rq != 0xC020660B)) return real_ioctl(fd, rq, arg);
  lock();
  struct fault *f = fire(r->name, rq == 2 ? "figetbsz" : "fiemap");
  struct fm *m = arg; s64 a = 0, b = 0, c = 0;
  if (rq != 2) { a = m->start; b = m->length; c = m->flags; }
  if (f && !strcmp(f->kind, "errno")) { k = -1; errno = f->arg; }
  else if (rq == 2 && r->bsz) { if (r->bsz < 0) { k = -1; errno = ENOTTY; } else { *(int *)arg = r->bsz; k = 0; } }
  else if (rq == 0xC020660B && r->fmode == 1) k = do_fiemap(r, m);
  else if (rq == 0xC020660B && r->fmode > 1) { k = -1; errno = r->fmode; }
  else k = real_ioctl(fd, rq, arg);
  e = errno;
  rec(rq == 2 ? "figetbsz" : "fiemap", r->name, a, b, c, k < 0 ? k : rq == 2 ? *(int *)arg : (s64)m->mapped, k < 0 ? e : 0, -1);
  unlock(); errno = e;
  return k;
}

static void fixstat(struct role *r, struct stat64 *s) {
  if (!r || !r->blk) return;
  s->st_mode = (s->st_mode & ~S_IFMT) | S_IFBLK; s->st_rdev = makedev(r->maj, r->min); s->st_size = 0; s->st_blocks = 0;
}
int fstat64(int fd, struct stat64 *s) { resolve(); int k = real_fstat64(fd, s); if (!k) fixstat(R_(fd), s); return k; }
int fstat(int fd, struct stat *s) { return fstat64(fd, (struct stat64 *)s); }
static int pstat(int (*fn)(const char *, struct stat64 *), const char *p, struct stat64 *s) {
  char buf[PATH_MAX]; p = redirect(p, buf); int k = fn(p, s);
  if (!k && armed) { int i = role_of_path(p); if (i >= 0 && S_ISREG(s->st_mode)) fixstat(&roles[i], s); }
  return k;
}
int stat64(const char *p, struct stat64 *s) { resolve(); return pstat(real_stat64, p, s); }
int stat(const char *p, struct stat *s) { resolve(); return pstat(real_stat64, p, (struct stat64 *)s); }
int lstat64(const char *p, struct stat64 *s) { resolve(); return pstat(real_lstat64, p, s); }
int lstat(const char *p, struct stat *s) { resolve(); return pstat(real_lstat64, p, (struct stat64 *)s); }
int fstatat64(int d, const char *p, struct stat64 *s, int fl) {
  char buf[PATH_MAX]; resolve(); p = redirect(p, buf); int k = real_fstatat64(d, p, s, fl);
  if (!k && armed && p && *p == '/') { int i = role_of_path(p); if (i >= 0 && S_ISREG(s->st_mode)) fixstat(&roles[i], s); }
  return k;
}
int fstatat(int d, const char *p, struct stat *s, int fl) { return fstatat64(d, p, (struct stat64 *)s, fl); }
int access(const char *p, int m) { char buf[PATH_MAX]; resolve(); return real_access(redirect(p, buf), m); }
int unlink(const char *p) {
  char buf[PATH_MAX]; resolve(); p = redirect(p, buf); int i = role_of_path(p);
  int k = real_unlink(p), e = errno; if (i >= 0) rec("unlink", roles[i].name, 0, 0, 0, k, k < 0 ? e : 0, -1); errno = e; return k;
}
int rename(const char *a, const char *b) {
  char x[PATH_MAX], y[PATH_MAX]; resolve(); a = redirect(a, x); b = redirect(b, y); int i = role_of_path(a), j = role_of_path(b);
  int k = real_rename(a, b), e = errno; if (i >= 0) rec("rename", roles[i].name, 0, 0, 0, k, e, -1); if (j >= 0) rec("rename", roles[j].name, 1, 0, 0, k, e, -1); errno = e; return k;
}
