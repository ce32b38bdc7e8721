/* Governs the reads of one file, from "<file>.faults"; kinds that fired are noted in "<file>.fired". Preloaded. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
struct fault { int kind; uint64_t call, n; };
struct ctl { uint64_t calls, pipe; int sticky, nf, noted; struct fault f[64]; char path[512]; };
static struct ctl *ctls[1024];
static struct ctl *ctl(int fd) { return fd >= 0 && fd < 1024 ? ctls[fd] : NULL; }
static const char *names[] = {"short\n", "eintr\n", "eio\n", "pipe\n"};
static void note(struct ctl *c, int k) {
  char p[600]; int fd;
  if (c->noted >> k & 1) return;
  c->noted |= 1 << k; snprintf(p, sizeof p, "%s.fired", c->path);
  fd = (int)syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_CREAT | O_APPEND, 0600);
  if (fd >= 0) { syscall(SYS_write, fd, names[k], strlen(names[k])); syscall(SYS_close, fd); }
}
static uint64_t mix64(uint64_t z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static size_t room(struct ctl *c, uint64_t k) { uint64_t h = mix64(c->pipe + k * 0x9e3779b97f4a7c15ull); return 1 + (h >> 8) % (h % 4 == 0 ? 16 : h % 4 == 1 ? 512 : h % 4 == 2 ? 4096 : 65536); }
static void adopt(int fd, const char *path) {
  char p[600], b[8192], *s; long n; int f; struct ctl *c; size_t l;
  if (fd < 0 || fd >= 1024 || !path) return;
  ctls[fd] = NULL; l = strlen(path);
  if (l > 500 || l < 9 || strcmp(path + l - 9, ".sas7bdat")) return;
  snprintf(p, sizeof p, "%s.faults", path);
  f = (int)syscall(SYS_openat, AT_FDCWD, p, O_RDONLY, 0);
  if (f < 0) return;
  n = syscall(SYS_read, f, b, sizeof b - 1); syscall(SYS_close, f);
  if (n <= 0) return;
  b[n] = 0; c = calloc(1, sizeof *c); if (!c) return;
  strcpy(c->path, path);
  for (s = strtok(b, "\n"); s; s = strtok(NULL, "\n")) {
    char k[16]; unsigned long long x, y;
    if (sscanf(s, "%15s %llu %llu", k, &x, &y) != 3) continue;
    if (!strcmp(k, "pipe")) c->pipe = x ? x : 1;
    else if (c->nf < 64) { struct fault *q = &c->f[c->nf++]; q->kind = !strcmp(k, "short") ? 0 : !strcmp(k, "eintr") ? 1 : !strcmp(k, "eio") ? 2 : 3; q->call = x; q->n = y; }
  }
  ctls[fd] = c;
}
static void release(int fd) { if (fd >= 0 && fd < 1024 && ctls[fd]) { free(ctls[fd]); ctls[fd] = NULL; } }
static int read_fault(int fd, size_t *n, ssize_t *ret) {
  struct ctl *c = ctl(fd); uint64_t k; int i;
  if (!c) return 0;
  k = c->calls++;
  if (c->pipe) { size_t m = room(c, k); if (m < *n) { *n = m; note(c, 3); } }
  if (c->sticky) { note(c, 2); errno = EIO; *ret = -1; return 1; }
  for (i = 0; i < c->nf; ++i) {
    if (c->f[i].call != k) continue;
    switch (c->f[i].kind) {
    case 0: if (*n > 1) { size_t m = 1 + c->f[i].n % *n; if (m < *n) { *n = m; note(c, 0); } } return 0;
    case 1: note(c, 1); errno = EINTR; *ret = -1; return 1;
    case 3: c->sticky = 1; /* fall through */
    default: note(c, 2); errno = EIO; *ret = -1; return 1;
    }
  }
  return 0;
}
#define REAL(type, name, ...) static type (*r)(__VA_ARGS__); if (!r) *(void **)&r = dlsym(RTLD_NEXT, name)
ssize_t read(int fd, void *b, size_t n) { ssize_t ret; REAL(ssize_t, "read", int, void *, size_t); if (read_fault(fd, &n, &ret)) return ret; return r(fd, b, n); }
ssize_t readv(int fd, const struct iovec *v, int n) {
  REAL(ssize_t, "readv", int, const struct iovec *, int);
  if (ctl(fd) && n > 0) { ssize_t ret; struct iovec w = v[0]; if (read_fault(fd, &w.iov_len, &ret)) return ret; return r(fd, &w, 1); }
  return r(fd, v, n);
}
FILE *fopen(const char *p, const char *m) { FILE *f; REAL(FILE *, "fopen", const char *, const char *); f = r(p, m); if (f) adopt(fileno(f), p); return f; }
FILE *fopen64(const char *p, const char *m) { FILE *f; REAL(FILE *, "fopen64", const char *, const char *); f = r(p, m); if (f) adopt(fileno(f), p); return f; }
int open(const char *p, int fl, ...) { mode_t md = 0; int fd; REAL(int, "open", const char *, int, ...); if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); md = va_arg(ap, mode_t); va_end(ap); } fd = r(p, fl, md); adopt(fd, p); return fd; }
int open64(const char *p, int fl, ...) { mode_t md = 0; int fd; REAL(int, "open64", const char *, int, ...); if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); md = va_arg(ap, mode_t); va_end(ap); } fd = r(p, fl, md); adopt(fd, p); return fd; }
int ioctl(int fd, unsigned long req, ...) {
  va_list ap; void *p; struct ctl *c = ctl(fd); int left = 0, k; size_t m; REAL(int, "ioctl", int, unsigned long, ...);
  va_start(ap, req); p = va_arg(ap, void *); va_end(ap);
  if (!c || !c->pipe || req != FIONREAD) return r(fd, req, p);
  k = r(fd, req, p); if (k) return k;
  memcpy(&left, p, sizeof left); m = room(c, c->calls); if ((size_t)left > m) left = (int)m; memcpy(p, &left, sizeof left); return 0;
}
int fstat(int fd, struct stat *s) { int k; struct ctl *c = ctl(fd); REAL(int, "fstat", int, struct stat *); k = r(fd, s); if (!k && c && c->pipe) { s->st_mode = (s->st_mode & ~(mode_t)S_IFMT) | S_IFIFO; s->st_size = 0; } return k; }
off_t lseek(int fd, off_t o, int wh) { struct ctl *c = ctl(fd); REAL(off_t, "lseek", int, off_t, int); if (c && c->pipe) { errno = ESPIPE; return -1; } return r(fd, o, wh); }
off64_t lseek64(int fd, off64_t o, int wh) { struct ctl *c = ctl(fd); REAL(off64_t, "lseek64", int, off64_t, int); if (c && c->pipe) { errno = ESPIPE; return -1; } return r(fd, o, wh); }
int fclose(FILE *f) { REAL(int, "fclose", FILE *); if (f) release(fileno(f)); return r(f); }
int close(int fd) { REAL(int, "close", int); release(fd); return r(fd); }

/* Which allocation of a language extension fails (oom.cpp asks): the n-th, or all from there on, while armed and not paused */
static long oom_left, oom_hits; static int oom_paused, oom_all;
void sim_oom_arm(int *n, int *persistent) { oom_left = *n; oom_all = *persistent; oom_hits = 0; oom_paused = 0; }
void sim_oom_pause(int *d) { oom_paused += *d; }
void sim_oom_disarm(int *fired) { *fired = (int)oom_hits; oom_left = 0; oom_hits = 0; oom_paused = 0; }
int sim_oom_fails(void) { if (oom_left <= 0 || oom_paused) return 0; if (oom_left > 1) { --oom_left; return 0; } if (!oom_all) oom_left = 0; ++oom_hits; return 1; }
