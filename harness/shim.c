/* LD_PRELOAD shim: every path under /tmp/ used by the programs under test is moved below $RBV_ROOT,
   so that several buses can run side by side and nothing outside a scratch directory is touched. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <dirent.h>
#include <unistd.h>
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__) = 0; if(!real) real = (ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)
static const char *map(const char *p, char *buf, size_t n)
{
  static const char *root = 0;
  if(!root) { root = getenv("RBV_ROOT"); if(!root) root = ""; }
  if(!p || !*root) return p;
  if(strncmp(p, root, strlen(root)) == 0) return p;
  if(strncmp(p, "/tmp/", 5) == 0) { snprintf(buf, n, "%s/%s", root, p + 5); return buf; }
  if(strncmp(p, "/nvram", 6) == 0 || strncmp(p, "/etc/rtrouted.conf", 18) == 0) { snprintf(buf, n, "%s/x%s", root, p); return buf; }
  return p;
}
#define M(p) map(p, b, sizeof b)
#define MODE int m = 0; if(f & (O_CREAT|O_TMPFILE)) { va_list a; va_start(a, f); m = va_arg(a, int); va_end(a); }
int open(const char *p, int f, ...) { MODE; char b[4096]; REAL(int, open, const char*, int, ...); return real(M(p), f, m); }
int open64(const char *p, int f, ...) { MODE; char b[4096]; REAL(int, open64, const char*, int, ...); return real(M(p), f, m); }
FILE *fopen(const char *p, const char *m) { char b[4096]; REAL(FILE*, fopen, const char*, const char*); return real(M(p), m); }
FILE *fopen64(const char *p, const char *m) { char b[4096]; REAL(FILE*, fopen64, const char*, const char*); return real(M(p), m); }
int unlink(const char *p) { char b[4096]; REAL(int, unlink, const char*); return real(M(p)); }
int remove(const char *p) { char b[4096]; REAL(int, remove, const char*); return real(M(p)); }
int rmdir(const char *p) { char b[4096]; REAL(int, rmdir, const char*); return real(M(p)); }
int access(const char *p, int m) { char b[4096]; REAL(int, access, const char*, int); return real(M(p), m); }
int mkdir(const char *p, mode_t m) { char b[4096]; REAL(int, mkdir, const char*, mode_t); return real(M(p), m); }
int chmod(const char *p, mode_t m) { char b[4096]; REAL(int, chmod, const char*, mode_t); return real(M(p), m); }
int stat(const char *p, struct stat *s) { char b[4096]; REAL(int, stat, const char*, struct stat*); return real(M(p), s); }
int stat64(const char *p, struct stat64 *s) { char b[4096]; REAL(int, stat64, const char*, struct stat64*); return real(M(p), s); }
int rename(const char *p, const char *q) { char b[4096], c[4096]; REAL(int, rename, const char*, const char*); return real(M(p), map(q, c, sizeof c)); }
DIR *opendir(const char *p) { char b[4096]; REAL(DIR*, opendir, const char*); return real(M(p)); }
static const struct sockaddr *msock(const struct sockaddr *a, socklen_t *n, struct sockaddr_un *u)
{
  char b[4096];
  if(a && a->sa_family == AF_UNIX && ((struct sockaddr_un*)a)->sun_path[0] == '/') {
    const char *p = M(((struct sockaddr_un*)a)->sun_path);
    if(p == b) { memset(u, 0, sizeof *u); u->sun_family = AF_UNIX; strncpy(u->sun_path, p, sizeof u->sun_path - 1); *n = sizeof *u; return (struct sockaddr*)u; }
  }
  return a;
}
int bind(int s, const struct sockaddr *a, socklen_t n) { struct sockaddr_un u; REAL(int, bind, int, const struct sockaddr*, socklen_t); a = msock(a, &n, &u); return real(s, a, n); }
int connect(int s, const struct sockaddr *a, socklen_t n) { struct sockaddr_un u; REAL(int, connect, int, const struct sockaddr*, socklen_t); a = msock(a, &n, &u); return real(s, a, n); }

/* $RBV_SPEED = "k t0": time passes k times as fast since t0 (ns of CLOCK_MONOTONIC, and of CLOCK_REALTIME as third field) */
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/select.h>
#include <sys/time.h>
#include <time.h>
static int speed = -1;
static long long t0m, t0r;
static int fast(void)
{
  if(speed < 0) {
    const char *s = getenv("RBV_SPEED"); int k = 0;
    if(!s || sscanf(s, "%d %lld %lld", &k, &t0m, &t0r) != 3 || k < 2) k = 0;
    speed = k;
  }
  return speed;
}
static long long ns(const struct timespec *t) { return t->tv_sec * 1000000000LL + t->tv_nsec; }
static struct timespec ts(long long n) { struct timespec t; if(n < 0) n = 0; t.tv_sec = n / 1000000000LL; t.tv_nsec = n % 1000000000LL; return t; }
static int real_clock(clockid_t c, struct timespec *t) { REAL(int, clock_gettime, clockid_t, struct timespec*); return real(c, t); }
static int scaled(clockid_t c) { return c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_RAW || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_BOOTTIME; }
static long long base(clockid_t c) { return c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? t0r : t0m; }
static struct timespec unscale(clockid_t c, const struct timespec *a) { return ts(base(c) + (ns(a) - base(c)) / speed); }
int clock_gettime(clockid_t c, struct timespec *t)
{
  int r = real_clock(c, t);
  if(r == 0 && fast() && scaled(c)) *t = ts(base(c) + (ns(t) - base(c)) * speed);
  return r;
}
int gettimeofday(struct timeval *v, void *z)
{
  struct timespec t; clock_gettime(CLOCK_REALTIME, &t);
  if(v) { v->tv_sec = t.tv_sec; v->tv_usec = t.tv_nsec / 1000; }
  return 0;
}
time_t time(time_t *o) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if(o) *o = t.tv_sec; return t.tv_sec; }
int nanosleep(const struct timespec *a, struct timespec *rem)
{
  REAL(int, nanosleep, const struct timespec*, struct timespec*);
  struct timespec t = *a; if(fast()) t = ts(ns(a) / speed);
  int r = real(&t, rem);
  if(r && rem && fast()) *rem = ts(ns(rem) * speed);
  return r;
}
int usleep(useconds_t u) { struct timespec t = ts(u * 1000LL); return nanosleep(&t, 0); }
unsigned sleep(unsigned s) { struct timespec t = ts(s * 1000000000LL); nanosleep(&t, 0); return 0; }
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *rem)
{
  REAL(int, clock_nanosleep, clockid_t, int, const struct timespec*, struct timespec*);
  struct timespec t = *a; if(fast()) t = f & TIMER_ABSTIME ? unscale(c, a) : ts(ns(a) / speed);
  return real(c, f, &t, rem);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *a)
{
  static int (*real)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*) = 0;
  if(!real) real = (int(*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*))dlvsym(RTLD_NEXT, "pthread_cond_timedwait", "GLIBC_2.3.2");
  if(!real) real = (int(*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*))dlsym(RTLD_NEXT, "pthread_cond_timedwait");
  struct timespec t = *a;
  /* the clock is the one whose present is nearer to that time */
  if(fast()) { long long n = ns(a); t = unscale(llabs(n - t0r) < llabs(n - t0m) ? CLOCK_REALTIME : CLOCK_MONOTONIC, a); }
  return real(c, m, &t);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *a)
{
  REAL(int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
  struct timespec t = *a; if(fast()) t = unscale(k, a);
  return real(c, m, k, &t);
}
int sem_timedwait(sem_t *s, const struct timespec *a)
{
  static int (*real)(sem_t*, const struct timespec*) = 0;
  if(!real) real = (int(*)(sem_t*, const struct timespec*))dlsym(RTLD_NEXT, "sem_timedwait");
  struct timespec t = *a; if(fast()) t = unscale(CLOCK_REALTIME, a);
  return real(s, &t);
}
int poll(struct pollfd *p, nfds_t n, int ms)
{
  REAL(int, poll, struct pollfd*, nfds_t, int);
  return real(p, n, ms > 0 && fast() ? (ms + speed - 1) / speed : ms);
}
int select(int n, fd_set *a, fd_set *b, fd_set *c, struct timeval *v)
{
  REAL(int, select, int, fd_set*, fd_set*, fd_set*, struct timeval*);
  struct timeval w;
  if(!v || !fast()) return real(n, a, b, c, v);
  long long u = (v->tv_sec * 1000000LL + v->tv_usec) / speed;
  w.tv_sec = u / 1000000; w.tv_usec = u % 1000000;
  int r = real(n, a, b, c, &w);
  u = (w.tv_sec * 1000000LL + w.tv_usec) * speed; v->tv_sec = u / 1000000; v->tv_usec = u % 1000000;
  return r;
}
