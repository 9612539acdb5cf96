// fsshim: LD_PRELOAD seam between the program under test and the operating
// system.  Every file-system call that concerns the run's scratch root is a
// numbered fault point; the plan (environment SIM_PLAN) says which ones fail and
// how.  Calls that would change anything outside the scratch root are recorded
// and refused, never executed.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define LOGSZ (4u << 20)
static char *logbuf;  // shared mapping: survives _exit
static uint32_t *loglen;
static char root[PATH_MAX];
static size_t rootlen;
static int ready;
static unsigned long opno;
static int enospc_sticky;
static uint64_t dirseed;
static unsigned char tracked[4096];

struct plan { unsigned long at; char kind; long arg; };
static struct plan plans[256];
static int nplans;

static void slog(const char *fmt, ...) {
  if (!logbuf) return;
  char b[PATH_MAX + 256];
  va_list ap; va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (n < 0) return;
  if (n > (int)sizeof b) n = sizeof b;
  if (*loglen + n + 16 > LOGSZ) return;
  memcpy(logbuf + 8 + *loglen, b, n);
  *loglen += n;
}

__attribute__((constructor)) static void init(void) {
  const char *r = getenv("SIM_ROOT");
  if (!r) return;
  snprintf(root, sizeof root, "%s", r);
  rootlen = strlen(root);
  const char *l = getenv("SIM_LOG");
  if (l) {
    int fd = syscall(SYS_openat, AT_FDCWD, l, O_RDWR | O_CREAT | O_CLOEXEC, 0600);
    if (fd >= 0) {
      if (syscall(SYS_ftruncate, fd, LOGSZ) == 0) {
        void *m = mmap(0, LOGSZ, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (m != MAP_FAILED) { logbuf = m; loglen = (uint32_t *)m; *loglen = 0; }
      }
      syscall(SYS_close, fd);
    }
  }
  const char *p = getenv("SIM_PLAN");
  while (p && *p && nplans < 256) {
    char *e;
    plans[nplans].at = strtoul(p, &e, 10);
    if (*e != ':') break;
    plans[nplans].kind = e[1];
    plans[nplans].arg = 0;
    p = e + 2;
    if (*p == ':') { plans[nplans].arg = strtol(p + 1, &e, 10); p = e; }
    nplans++;
    if (*p == ',') p++;
  }
  const char *d = getenv("SIM_DIRSEED");
  dirseed = d ? strtoull(d, 0, 10) : 0;
  ready = 1;
}

#define REAL(name) static __typeof__(&name) real; if (!real) real = dlsym(RTLD_NEXT, #name)

// absolute path without touching the file system (no symlink resolution)
static void absolutise(int dirfd, const char *path, char *out) {
  char tmp[PATH_MAX * 2];
  if (path[0] == '/') snprintf(tmp, sizeof tmp, "%s", path);
  else {
    char base[PATH_MAX];
    if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) base[0] = 0; }
    else {
      char pf[64]; snprintf(pf, sizeof pf, "/proc/self/fd/%d", dirfd);
      ssize_t n = syscall(SYS_readlink, pf, base, sizeof base - 1);
      base[n < 0 ? 0 : n] = 0;
    }
    snprintf(tmp, sizeof tmp, "%s/%s", base, path);
  }
  // collapse
  char *parts[1024]; int np = 0;
  for (char *s = strtok(tmp, "/"); s; s = strtok(0, "/")) {
    if (!strcmp(s, ".")) continue;
    if (!strcmp(s, "..")) { if (np) np--; continue; }
    if (np < 1024) parts[np++] = s;
  }
  size_t o = 0; out[0] = 0;
  for (int i = 0; i < np; i++) {
    size_t l = strlen(parts[i]);
    if (o + l + 2 > PATH_MAX) break;
    out[o++] = '/'; memcpy(out + o, parts[i], l); o += l; out[o] = 0;
  }
  if (!o) strcpy(out, "/");
}

static int under(const char *abs) {
  return ready && !strncmp(abs, root, rootlen) && (abs[rootlen] == '/' || abs[rootlen] == 0);
}
static const char *rel(const char *abs) { return under(abs) ? (abs[rootlen] ? abs + rootlen + 1 : ".") : abs; }

// returns the plan entry for this call, advances the call counter
static struct plan *step(const char *what, const char *name) {
  unsigned long n = opno++;
  slog("op %lu %s %s\n", n, what, name);
  for (int i = 0; i < nplans; i++) if (plans[i].at == n) return &plans[i];
  return 0;
}
static void fired(struct plan *p, const char *what) { slog("FIRED %c %s\n", p->kind, what); }
static void die(struct plan *p, const char *what) {
  fired(p, what); syscall(SYS_exit_group, 137); __builtin_unreachable();
}
// generic error faults; 1 = failed with errno set
static int fault(struct plan *p, const char *what, int writes) {
  if (!p) return 0;
  switch (p->kind) {
    case 'e': fired(p, what); errno = EIO; return 1;
    case 'a': fired(p, what); errno = EACCES; return 1;
    case 'm': fired(p, what); errno = EMFILE; return 1;
    case 'n': if (!writes) return 0; fired(p, what); enospc_sticky = p->arg ? 1 : 0; errno = ENOSPC; return 1;
    case 'c': die(p, what);
  }
  return 0;
}
static int escape(const char *what, const char *abs) {
  slog("ESCAPE %s %s\n", what, abs); errno = EACCES; return -1;
}

static void track(int fd, int on) { if (fd >= 0 && fd < 4096) tracked[fd] = on; }
static int is_tracked(int fd) { return ready && fd >= 0 && fd < 4096 && tracked[fd]; }

static int allowed_outside(const char *abs) {
  return !strncmp(abs, "/dev/", 5) || !strncmp(abs, "/proc/", 6);
}

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  if (!ready) return syscall(SYS_openat, dirfd, path, flags, mode);
  char abs[PATH_MAX]; absolutise(dirfd, path, abs);
  int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  if (!under(abs)) {
    if (wr && !allowed_outside(abs)) return escape("open-for-write", abs);
    return syscall(SYS_openat, dirfd, path, flags, mode);
  }
  struct plan *p = step(wr ? "openw" : "open", rel(abs));
  if (p && p->kind == 'i') { fired(p, "open"); errno = EINTR; return -1; }
  if (fault(p, "open", wr)) return -1;
  if (enospc_sticky && (flags & O_CREAT) && syscall(SYS_access, abs, F_OK)) { errno = ENOSPC; return -1; }
  int fd = syscall(SYS_openat, dirfd, path, flags, mode);
  track(fd, fd >= 0);
  return fd;
}
int open64(const char *path, int flags, ...) {
  va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
  return do_open(AT_FDCWD, path, flags, m);
}
int open(const char *path, int flags, ...) {
  va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
  return do_open(AT_FDCWD, path, flags, m);
}
int openat64(int d, const char *path, int flags, ...) {
  va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
  return do_open(d, path, flags, m);
}
int openat(int d, const char *path, int flags, ...) {
  va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
  return do_open(d, path, flags, m);
}
int close(int fd) { track(fd, 0); return syscall(SYS_close, fd); }

ssize_t read(int fd, void *buf, size_t n) {
  if (is_tracked(fd)) {
    struct plan *p = step("read", "");
    if (p && p->kind == 'i') { fired(p, "read"); errno = EINTR; return -1; }
    if (p && p->kind == 's' && n > 1) { size_t k = p->arg > 0 ? p->arg : 1; if (k < n) { n = k; fired(p, "read"); } }
    else if (p && p->kind == 'z') {
      // only where data was still to come
      ssize_t r = syscall(SYS_read, fd, buf, n);
      if (r <= 0) return r;
      syscall(SYS_lseek, fd, (off_t)-r, SEEK_CUR);
      fired(p, "read-eof"); return 0;
    }
    else if (fault(p, "read", 0)) return -1;
  }
  return syscall(SYS_read, fd, buf, n);
}
ssize_t write(int fd, const void *buf, size_t n) {
  if (is_tracked(fd)) {
    struct plan *p = step("write", "");
    if (enospc_sticky && n) { errno = ENOSPC; return -1; }
    if (p) switch (p->kind) {
      case 'i': fired(p, "write"); errno = EINTR; return -1;
      case 's': { size_t k = p->arg > 0 ? p->arg : 1; if (k < n) { n = k; fired(p, "write"); } break; }
      case 'n':
        fired(p, "write");
        if (p->arg) enospc_sticky = 1;
        errno = ENOSPC; return -1;
      case 'c': {
        size_t k = p->arg; if (k > n) k = n;
        if (k) { ssize_t r = syscall(SYS_write, fd, buf, k); (void)r; }
        die(p, "write");
      }
      default: if (fault(p, "write", 1)) return -1;
    }
  }
  return syscall(SYS_write, fd, buf, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (is_tracked(fd)) { for (int i = 0; i < c; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len); return 0; }
  return syscall(SYS_writev, fd, v, c);
}
off64_t lseek64(int fd, off64_t o, int w) {
  if (is_tracked(fd)) { struct plan *p = step("seek", ""); if (fault(p, "seek", 0)) return -1; }
  return syscall(SYS_lseek, fd, o, w);
}
off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }

static int path_op(const char *what, int dirfd, const char *path, int mutates, char *abs, int *act) {
  // *act: 1 = perform, 0 = return value already decided
  *act = 1;
  if (!ready) return 0;
  absolutise(dirfd, path, abs);
  if (!under(abs)) {
    if (mutates && !allowed_outside(abs)) { *act = 0; return escape(what, abs); }
    return 0;
  }
  struct plan *p = step(what, rel(abs));
  if (fault(p, what, mutates)) { *act = 0; return -1; }
  return 0;
}
int mkdir(const char *path, mode_t m) {
  char abs[PATH_MAX]; int act;
  if (ready) {
    // creating an already existing directory outside changes nothing
    absolutise(AT_FDCWD, path, abs);
    if (!under(abs)) { struct stat st; if (syscall(SYS_newfstatat, AT_FDCWD, abs, &st, 0) == 0) { errno = EEXIST; return -1; } }
  }
  int r = path_op("mkdir", AT_FDCWD, path, 1, abs, &act);
  if (!act) return r;
  if (enospc_sticky && ready && under(abs)) { errno = ENOSPC; return -1; }
  return syscall(SYS_mkdirat, AT_FDCWD, path, m);
}
int unlink(const char *path) {
  char abs[PATH_MAX]; int act; int r = path_op("unlink", AT_FDCWD, path, 1, abs, &act);
  return act ? syscall(SYS_unlinkat, AT_FDCWD, path, 0) : r;
}
int unlinkat(int d, const char *path, int f) {
  char abs[PATH_MAX]; int act; int r = path_op("unlinkat", d, path, 1, abs, &act);
  return act ? syscall(SYS_unlinkat, d, path, f) : r;
}
int rmdir(const char *path) {
  char abs[PATH_MAX]; int act; int r = path_op("rmdir", AT_FDCWD, path, 1, abs, &act);
  return act ? syscall(SYS_unlinkat, AT_FDCWD, path, AT_REMOVEDIR) : r;
}
int rename(const char *a, const char *b) {
  char abs[PATH_MAX]; int act;
  int r = path_op("rename-from", AT_FDCWD, a, 1, abs, &act); if (!act) return r;
  r = path_op("rename-to", AT_FDCWD, b, 1, abs, &act); if (!act) return r;
  return syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0);
}
int symlink(const char *a, const char *b) {
  char abs[PATH_MAX]; int act; int r = path_op("symlink", AT_FDCWD, b, 1, abs, &act);
  return act ? syscall(SYS_symlinkat, a, AT_FDCWD, b) : r;
}
int link(const char *a, const char *b) {
  char abs[PATH_MAX]; int act; int r = path_op("link", AT_FDCWD, b, 1, abs, &act);
  return act ? syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0) : r;
}
int chmod(const char *a, mode_t m) {
  char abs[PATH_MAX]; int act; int r = path_op("chmod", AT_FDCWD, a, 1, abs, &act);
  return act ? syscall(SYS_fchmodat, AT_FDCWD, a, m) : r;
}
int ftruncate64(int fd, off64_t l) {
  if (is_tracked(fd)) { struct plan *p = step("ftruncate", ""); if (fault(p, "ftruncate", 1)) return -1; }
  return syscall(SYS_ftruncate, fd, l);
}
int statx(int d, const char *restrict path, int f, unsigned m, struct statx *restrict b) {
  // std probes for statx support with a null path after a failed call
  volatile uintptr_t given = (uintptr_t)path;
  if (ready && given && *path) {
    char abs[PATH_MAX]; int act; int r = path_op("stat", d, path, 0, abs, &act);
    if (!act) return r;
  }
  return syscall(SYS_statx, d, path, f, m, b);
}

// ---- directory streams: entries sorted, then permuted by the run's seed
struct simdir { int fd; int n, i; struct dirent64 **e; char path[PATH_MAX]; };
#define MAXDIRS 256
static struct simdir *dirs[MAXDIRS];
static struct simdir *as_sim(DIR *d) {
  for (int i = 0; i < MAXDIRS; i++) if ((DIR *)dirs[i] == d && d) return dirs[i];
  return 0;
}
static int cmp(const void *a, const void *b) {
  return strcmp((*(struct dirent64 **)a)->d_name, (*(struct dirent64 **)b)->d_name);
}
static uint64_t sm(uint64_t *s) {
  uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31);
}
static DIR *load_dir(int fd, const char *abs) {
  struct simdir *s = calloc(1, sizeof *s);
  s->fd = fd; snprintf(s->path, sizeof s->path, "%s", abs);
  char buf[32768]; int cap = 0;
  for (;;) {
    long n = syscall(SYS_getdents64, fd, buf, sizeof buf);
    if (n <= 0) break;
    for (long o = 0; o < n;) {
      struct dirent64 *d = (void *)(buf + o);
      if (s->n == cap) { cap = cap ? cap * 2 : 64; s->e = realloc(s->e, cap * sizeof *s->e); }
      struct dirent64 *c = calloc(1, sizeof *c);
      memcpy(c, d, d->d_reclen < sizeof *c ? d->d_reclen : sizeof *c);
      c->d_ino = 1; s->e[s->n++] = c; o += d->d_reclen;
    }
  }
  if (s->n) qsort(s->e, s->n, sizeof *s->e, cmp);
  uint64_t seed = dirseed;
  for (const char *q = rel(abs); *q; q++) seed = seed * 31 + (unsigned char)*q;
  if (dirseed) for (int i = s->n - 1; i > 0; i--) { int j = sm(&seed) % (i + 1); struct dirent64 *t = s->e[i]; s->e[i] = s->e[j]; s->e[j] = t; }
  for (int i = 0; i < MAXDIRS; i++) if (!dirs[i]) { dirs[i] = s; return (DIR *)s; }
  return 0;
}
DIR *opendir(const char *path) {
  REAL(opendir);
  if (!ready) return real(path);
  char abs[PATH_MAX]; absolutise(AT_FDCWD, path, abs);
  if (!under(abs)) return real(path);
  struct plan *p = step("opendir", rel(abs));
  if (fault(p, "opendir", 0)) return 0;
  int fd = syscall(SYS_openat, AT_FDCWD, path, O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0);
  if (fd < 0) return 0;
  return load_dir(fd, abs);
}
DIR *fdopendir(int fd) {
  REAL(fdopendir);
  if (!is_tracked(fd)) return real(fd);
  char abs[PATH_MAX]; absolutise(fd, ".", abs);
  return load_dir(fd, abs);
}
struct dirent64 *readdir64(DIR *d) {
  REAL(readdir64);
  struct simdir *s = as_sim(d);
  if (!s) return real(d);
  struct plan *p = step("readdir", "");
  if (p && (p->kind == 'e' || p->kind == 'c')) { if (fault(p, "readdir", 0)) return 0; }
  if (s->i >= s->n) return 0;
  return s->e[s->i++];
}
int closedir(DIR *d) {
  REAL(closedir);
  struct simdir *s = as_sim(d);
  if (!s) return real(d);
  for (int i = 0; i < MAXDIRS; i++) if (dirs[i] == s) dirs[i] = 0;
  for (int i = 0; i < s->n; i++) free(s->e[i]);
  free(s->e); track(s->fd, 0); syscall(SYS_close, s->fd); free(s);
  return 0;
}
int dirfd(DIR *d) {
  REAL(dirfd);
  struct simdir *s = as_sim(d);
  return s ? s->fd : real(d);
}
ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f) {
  if (is_tracked(a) || is_tracked(b)) {
    struct plan *p = step("copy", "");
    if (enospc_sticky) { errno = ENOSPC; return -1; }
    if (p && p->kind == 'c') { if (p->arg > 0) { long r = syscall(SYS_copy_file_range, a, ao, b, bo, (size_t)p->arg < n ? (size_t)p->arg : n, f); (void)r; } die(p, "copy"); }
    if (p && p->kind == 's') { fired(p, "copy"); if ((size_t)(p->arg > 0 ? p->arg : 1) < n) n = p->arg > 0 ? p->arg : 1; }
    if (fault(p, "copy", 1)) return -1;
  }
  return syscall(SYS_copy_file_range, a, ao, b, bo, n, f);
}
ssize_t sendfile64(int a, int b, off64_t *o, size_t n) {
  if (is_tracked(a) || is_tracked(b)) { errno = EINVAL; return -1; }
  return syscall(SYS_sendfile, a, b, o, n);
}
