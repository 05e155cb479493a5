/* Preloaded library that numbers the file system steps of a process under a
 * directory and kills, fails, cuts or pauses the process at a chosen one.  A paused process is
 * told at which later step to pause again. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { K_OPENR = 1, K_OPENW = 2, K_WRITE = 4, K_RENAME = 8, K_MKDIR = 16, K_UNLINK = 32, K_READ = 64 };
enum { A_NONE, A_KILL, A_KILL_AFTER, A_FAIL, A_PART_KILL, A_PART_FAIL, A_PAUSE, A_FAIL_AFTER };

static char prefix[4096];
static size_t plen;
static int on, kinds, action, chan = -1, err = EIO;
static char sub[512];
static long nth, seen, total;
static long eopens, work;  /* steps done: entry point openings, steps other than reading metadata */
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static __thread int inside;
#define NFD 8192
static char *fds[NFD];
static char *logbuf;
static size_t loglen, logcap;
static char *obuf;  /* all steps with closings and the sources of renamings, in order */
static size_t olen, ocap;

static const char *kname(int k) {
  switch (k) {
    case K_OPENR: return "openr";
    case K_OPENW: return "openw";
    case K_WRITE: return "write";
    case K_RENAME: return "rename";
    case K_MKDIR: return "mkdir";
    case K_UNLINK: return "unlink";
    default: return "read";
  }
}

void shim_off(void) { on = 0; }

/* Starts counting; the nth step (from 1) with a kind in `k` and a path
 * containing `s` triggers action `a`. */
void shim_arm(const char *p, int k, const char *s, long n, int a, int channel, int e) {
  pthread_mutex_lock(&mu);
  on = 0;
  snprintf(prefix, sizeof prefix, "%s", p);
  plen = strlen(prefix);
  kinds = k;
  snprintf(sub, sizeof sub, "%s", s);
  nth = n; action = a; chan = channel; err = e;
  seen = total = eopens = work = 0;
  loglen = 0;
  if (!logbuf) logbuf = malloc(logcap = 1 << 20);
  logbuf[0] = 0;
  olen = 0;
  if (!obuf) obuf = malloc(ocap = 1 << 21);
  obuf[0] = 0;
  on = 1;
  pthread_mutex_unlock(&mu);
}

const char *shim_log(void) { return logbuf ? logbuf : ""; }
const char *shim_order(void) { return obuf ? obuf : ""; }

static void order(const char *k, const char *path, const char *src) {
  size_t l = strlen(path) + (src ? strlen(src) : 0) + 32;
  if (olen + l + 1 > ocap) return;
  olen += sprintf(obuf + olen, "%s\t%s\t%s\n", k, path + plen, !src ? "" : !strncmp(src, prefix, plen) ? src + plen : src);
}

static void logstep(int k, const char *path) {
  size_t l = strlen(path) + 16;
  if (loglen + l + 1 > logcap) return;
  loglen += sprintf(logbuf + loglen, "%s %s\n", kname(k), path + plen);
}

/* Returns the action for this step; called with the path below the prefix. */
static int step2(int k, const char *path, const char *src) {
  int a = A_NONE;
  pthread_mutex_lock(&mu);
  if (on) {
    total++;
    logstep(k, path);
    order(kname(k), path, src);
    if ((k & kinds) && (!sub[0] || strstr(path, sub)) && ++seen == nth) {
      a = action;
      if (a == A_KILL) kill(getpid(), SIGKILL);
      if (a == A_PAUSE) {
        char b[5000], l[64], c;
        int n = snprintf(b, sizeof b, "{\"pause\": \"%s %s\", \"eopens\": %ld, \"work\": %ld}\n", kname(k), path + plen,
                         eopens, work), i = 0;
        if (write(chan, b, n) != n) _exit(3);
        do {  /* wait for a line: the number of steps until the next pause, 0 for none */
          if (read(chan, &c, 1) != 1) _exit(3);
          if (i < 60) l[i++] = c;
        } while (c != '\n');
        l[i] = 0;
        n = atoi(l);
        nth = n > 0 ? seen + n : 0;
        a = A_NONE;
      }
    }
    if (k == K_OPENR && strstr(path + plen, "entrypoint")) eopens++;
    else if (k != K_OPENR || !strstr(path + plen, ".txtpb")) work++;
  }
  pthread_mutex_unlock(&mu);
  return a;
}

static int step(int k, const char *path) { return step2(k, path, NULL); }

static int under(const char *p) { return on && p && !inside && !strncmp(p, prefix, plen); }

#define REAL(ret, name, ...) \
  static ret (*real)(__VA_ARGS__); \
  if (!real) real = (ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)

#define POST(a) do { if ((a) == A_KILL_AFTER || (a) == A_PART_KILL) kill(getpid(), SIGKILL); } while (0)

static void track(int fd, const char *p) {
  if (fd < 0 || fd >= NFD) return;
  free(fds[fd]);
  fds[fd] = p ? strdup(p) : NULL;
}

static int openkind(int flags) { return (flags & (O_WRONLY | O_RDWR | O_CREAT)) ? K_OPENW : K_OPENR; }

#define OPEN_BODY(call) \
  if (!under(p)) { int r0 = call; if (r0 >= 0 && r0 < NFD && fds[r0]) track(r0, NULL); return r0; } \
  int k = openkind(flags), a = step(k, p); \
  if (a == A_FAIL || a == A_PART_FAIL) { errno = err; return -1; } \
  int r = call; \
  POST(a); \
  if (a == A_FAIL_AFTER) { if (r >= 0) { REALCLOSE(r); } errno = err; return -1; } \
  track(r, r >= 0 && k == K_OPENW ? p : NULL); \
  return r;

static void REALCLOSE(int fd) {
  REAL(int, "close", int);
  real(fd);
}

#define MODE() mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }

int open(const char *p, int flags, ...) { MODE(); REAL(int, "open", const char *, int, ...); OPEN_BODY(real(p, flags, m)) }
int open64(const char *p, int flags, ...) { MODE(); REAL(int, "open64", const char *, int, ...); OPEN_BODY(real(p, flags, m)) }
int __open_2(const char *p, int flags) { REAL(int, "__open_2", const char *, int); OPEN_BODY(real(p, flags)) }
int __open64_2(const char *p, int flags) { REAL(int, "__open64_2", const char *, int); OPEN_BODY(real(p, flags)) }
int openat(int d, const char *p, int flags, ...) { MODE(); REAL(int, "openat", int, const char *, int, ...); OPEN_BODY(real(d, p, flags, m)) }
int openat64(int d, const char *p, int flags, ...) { MODE(); REAL(int, "openat64", int, const char *, int, ...); OPEN_BODY(real(d, p, flags, m)) }
int creat(const char *p, mode_t m) { int flags = O_CREAT | O_WRONLY; REAL(int, "creat", const char *, mode_t); OPEN_BODY(real(p, m)) }

static int fkind(const char *mode) { return strpbrk(mode, "wa+") ? O_CREAT : 0; }
#define FOPEN_BODY \
  if (!under(p)) return real(p, mode); \
  int a = step(openkind(fkind(mode)), p); \
  if (a == A_FAIL || a == A_PART_FAIL || a == A_FAIL_AFTER) { errno = err; return NULL; } \
  FILE *f = real(p, mode); \
  POST(a); \
  if (f && fkind(mode)) track(fileno(f), p); \
  return f;
FILE *fopen(const char *p, const char *mode) { REAL(FILE *, "fopen", const char *, const char *); FOPEN_BODY }
FILE *fopen64(const char *p, const char *mode) { REAL(FILE *, "fopen64", const char *, const char *); FOPEN_BODY }

int close(int fd) {
  REAL(int, "close", int);
  if (fd >= 0 && fd < NFD && fds[fd]) {
    if (on) {
      pthread_mutex_lock(&mu);
      order("close", fds[fd], NULL);
      pthread_mutex_unlock(&mu);
    }
    track(fd, NULL);
  }
  return real(fd);
}

int fclose(FILE *f) {
  REAL(int, "fclose", FILE *);
  int fd = fileno(f);
  int known = fd >= 0 && fd < NFD && fds[fd];
  char *p = known ? strdup(fds[fd]) : NULL;
  if (known) track(fd, NULL);
  int r = real(f);
  if (p && on) {  /* what was buffered has been written by now */
    pthread_mutex_lock(&mu);
    order("close", p, NULL);
    pthread_mutex_unlock(&mu);
  }
  free(p);
  return r;
}

#define TRACKED(fd) (on && !inside && (fd) >= 0 && (fd) < NFD && fds[fd])
#define WRITE_BODY(full, part) \
  if (!TRACKED(fd)) return full; \
  int a = step(K_WRITE, fds[fd]); \
  if (a == A_FAIL) { errno = err; return -1; } \
  if (a == A_PART_KILL || a == A_PART_FAIL) { \
    if (n > 1) { ssize_t w = part; (void)w; } \
    POST(a); errno = err; return -1; } \
  ssize_t r = full; \
  POST(a); \
  if (a == A_FAIL_AFTER) { errno = err; return -1; } \
  return r;

ssize_t write(int fd, const void *b, size_t n) { REAL(ssize_t, "write", int, const void *, size_t); WRITE_BODY(real(fd, b, n), real(fd, b, n / 2)) }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(ssize_t, "pwrite", int, const void *, size_t, off_t); WRITE_BODY(real(fd, b, n, o), real(fd, b, n / 2, o)) }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t); WRITE_BODY(real(fd, b, n, o), real(fd, b, n / 2, o)) }
ssize_t writev(int fd, const struct iovec *v, int n) { REAL(ssize_t, "writev", int, const struct iovec *, int); WRITE_BODY(real(fd, v, n), real(fd, v, n / 2)) }

#define PATH_BODY(k, path, src, call) \
  if (!under(path)) return call; \
  int a = step2(k, path, src); \
  if (a == A_FAIL || a == A_PART_FAIL) { errno = err; return -1; } \
  int r = call; \
  POST(a); \
  if (a == A_FAIL_AFTER) { errno = err; return -1; } \
  return r;

int rename(const char *o, const char *p) { REAL(int, "rename", const char *, const char *); PATH_BODY(K_RENAME, p, o, real(o, p)) }
int renameat(int d, const char *o, int e, const char *p) { REAL(int, "renameat", int, const char *, int, const char *); PATH_BODY(K_RENAME, p, o, real(d, o, e, p)) }
int renameat2(int d, const char *o, int e, const char *p, unsigned f) { REAL(int, "renameat2", int, const char *, int, const char *, unsigned); PATH_BODY(K_RENAME, p, o, real(d, o, e, p, f)) }
int link(const char *o, const char *p) { REAL(int, "link", const char *, const char *); PATH_BODY(K_RENAME, p, o, real(o, p)) }
int mkdir(const char *p, mode_t m) { REAL(int, "mkdir", const char *, mode_t); PATH_BODY(K_MKDIR, p, NULL, real(p, m)) }
int mkdirat(int d, const char *p, mode_t m) { REAL(int, "mkdirat", int, const char *, mode_t); PATH_BODY(K_MKDIR, p, NULL, real(d, p, m)) }
int unlink(const char *p) { REAL(int, "unlink", const char *); PATH_BODY(K_UNLINK, p, NULL, real(p)) }
int unlinkat(int d, const char *p, int f) { REAL(int, "unlinkat", int, const char *, int); PATH_BODY(K_UNLINK, p, NULL, real(d, p, f)) }
int rmdir(const char *p) { REAL(int, "rmdir", const char *); PATH_BODY(K_UNLINK, p, NULL, real(p)) }
int truncate(const char *p, off_t n) { REAL(int, "truncate", const char *, off_t); PATH_BODY(K_WRITE, p, NULL, real(p, n)) }
