/* Drives a thread pool by commands read from stdin and logs what happens. New threads can be held back or fail to be created,
   and a waiting thread's time can be made to expire, also at the very moment a task is submitted. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <errno.h>
#include <time.h>
#include <unistd.h>
#include <dlfcn.h>
#include <pthread.h>
#include "rtThreadPool.h"

static pthread_mutex_t L = PTHREAD_MUTEX_INITIALIZER;  /* log, gates, held threads */
static pthread_cond_t C = PTHREAD_COND_INITIALIZER;
static int (*r_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int (*r_timedwait)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
static __thread bool pooled = false, driver = false;
static int hold = 0, failing = 0, alive = 0, waiting = 0, want = 0, stepped = 0, go = 0, failed = 0, poked = 0;
static pthread_cond_t* pc; static pthread_mutex_t* pm;
static int gate[1000], started[1000], ended[1000], nested[1000], accepted[1000], answered[1000], mx, last;
static rtThreadPool pool;

static void init(void)
{
  if(r_create) return;
  r_create = (void*)dlsym(RTLD_NEXT, "pthread_create");
  r_timedwait = (void*)dlvsym(RTLD_NEXT, "pthread_cond_timedwait", "GLIBC_2.3.2");
  if(!r_timedwait) r_timedwait = (void*)dlsym(RTLD_NEXT, "pthread_cond_timedwait");
}
static void in(int ms, struct timespec* t) { clock_gettime(CLOCK_REALTIME, t); t->tv_nsec += ms * 1000000L; t->tv_sec += t->tv_nsec / 1000000000; t->tv_nsec %= 1000000000; }
static long now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000L + t.tv_nsec / 1000000; }
/* with L held: waits until *p >= v */
static bool await(int* p, int v, int ms) { struct timespec t; in(ms, &t); while(*p < v) if(r_timedwait(&C, &L, &t) == ETIMEDOUT) return *p >= v; return true; }

struct tramp { void* (*f)(void*); void* a; };
static void* tramp(void* p)
{
  struct tramp t = *(struct tramp*)p; free(p);
  pooled = true;
  pthread_mutex_lock(&L); while(hold) pthread_cond_wait(&C, &L); pthread_mutex_unlock(&L);
  void* r = t.f(t.a);
  pthread_mutex_lock(&L); alive--; pthread_cond_broadcast(&C); pthread_mutex_unlock(&L);
  return r;
}
int pthread_create(pthread_t* id, const pthread_attr_t* at, void* (*f)(void*), void* a)
{
  init();
  pthread_mutex_lock(&L);
  if(failing > 0) { failing--; failed++; printf("{\"op\":\"fail\"}\n"); pthread_mutex_unlock(&L); return EAGAIN; }
  alive++;
  pthread_mutex_unlock(&L);
  struct tramp* t = malloc(sizeof(*t)); t->f = f; t->a = a;
  return r_create(id, at, tramp, t);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* until)
{
  init();
  if(!pooled) return r_timedwait(c, m, until);
  pthread_mutex_lock(&L); waiting++; pc = c; pm = m; pthread_cond_broadcast(&C); pthread_mutex_unlock(&L);
  int rc = r_timedwait(c, m, until);
  pthread_mutex_lock(&L);
  waiting--;
  if(poked > 0)
  {
    poked--;
    rc = want ? ETIMEDOUT : 0;
    if(want == 2)
    {
      want = 0; pthread_mutex_unlock(m); stepped++; pthread_cond_broadcast(&C);
      await(&go, 1, 3000); go = 0;
      pthread_mutex_unlock(&L); pthread_mutex_lock(m); pthread_mutex_lock(&L);
    }
    else if(want) { want = 0; stepped++; pthread_cond_broadcast(&C); }
  }
  pthread_mutex_unlock(&L);
  return rc;
}
/* lets the time of a waiting thread expire (how = 2: it has not got its lock back yet); the other waiting threads wake up for nothing */
static bool expire(int how)
{
  pthread_mutex_lock(&L); bool any = waiting > 0; pthread_mutex_unlock(&L);
  if(!any) return false;
  pthread_mutex_lock(pm); pthread_mutex_lock(&L);
  int s = stepped;
  if((any = waiting > 0)) { want = how; poked = waiting; pthread_cond_broadcast(pc); }
  pthread_mutex_unlock(&L); pthread_mutex_unlock(pm);
  pthread_mutex_lock(&L); if(any) any = await(&stepped, s + 1, 3000); pthread_mutex_unlock(&L);
  return any;
}
static void submit(int k);
static void run(void* p)
{
  int k = (int)(intptr_t)p;
  pthread_mutex_lock(&L); printf("{\"op\":\"start\",\"k\":%d}\n", k); started[k]++; pthread_cond_broadcast(&C); pthread_mutex_unlock(&L);
  if(nested[k]) submit(nested[k]);
  pthread_mutex_lock(&L);
  await(&gate[k], 1, 20000);
  printf("{\"op\":\"end\",\"k\":%d}\n", k); ended[k]++; pthread_cond_broadcast(&C);
  pthread_mutex_unlock(&L);
}
static void submit(int k)
{
  pthread_mutex_lock(&L); printf("{\"op\":\"ask\",\"k\":%d}\n", k); if(k > last) last = k; pthread_mutex_unlock(&L);
  rtError e = rtThreadPool_RunTask(pool, run, (void*)(intptr_t)k);
  pthread_mutex_lock(&L);
  printf("{\"op\":\"asked\",\"k\":%d,\"rc\":%d}\n", k, e == RT_OK ? 0 : e == RT_ERROR_THREADPOOL_TASK_PENDING ? 1 : 9);
  answered[k] = 1;
  if(e == RT_OK || e == RT_ERROR_THREADPOOL_TASK_PENDING) accepted[k] = 1;
  pthread_cond_broadcast(&C); pthread_mutex_unlock(&L);
}
static void* submitter(void* p) { submit((int)(intptr_t)p); return NULL; }
static int destroying, destroyed;
static void* destroyer(void* p)
{
  int w = (int)(intptr_t)p; long t = now();
  pthread_mutex_lock(&L); printf("{\"op\":\"destroy\",\"w\":%d}\n", w); destroying = 1; pthread_cond_broadcast(&C); pthread_mutex_unlock(&L);
  rtError e = rtThreadPool_Destroy(pool, w);
  pthread_mutex_lock(&L);
  printf("{\"op\":\"destroyed\",\"rc\":%d,\"ms\":%ld}\n", e == RT_OK ? 0 : e == RT_ERROR_THREADPOOL_TASKS_CANCELLED ? 2 : 9, now() - t);
  destroyed = 1; pthread_cond_broadcast(&C); pthread_mutex_unlock(&L);
  return NULL;
}
int main(void)
{
  char op[32]; int a, b; pthread_t th, th2;
  init();
  alarm(60);
  setvbuf(stdout, NULL, _IOLBF, 1 << 16);
  while(scanf("%31s %d %d", op, &a, &b) == 3)
  {
    if(!strcmp(op, "new")) { rtThreadPool_Create(&pool, a, 0, 1000); pthread_mutex_lock(&L); mx = a; printf("{\"op\":\"new\",\"n\":%d}\n", a); pthread_mutex_unlock(&L); }
    else if(!strcmp(op, "submit")) submit(a);
    else if(!strcmp(op, "both")) { r_create(&th, NULL, submitter, (void*)(intptr_t)a); r_create(&th2, NULL, submitter, (void*)(intptr_t)b); pthread_join(th, NULL); pthread_join(th2, NULL); }
    else if(!strcmp(op, "nest")) { nested[a] = b; submit(a); }
    else if(!strcmp(op, "expire")) expire(1);
    else if(!strcmp(op, "race"))
    {
      bool have = expire(2);
      submit(a);
      if(have) { pthread_mutex_lock(&L); go = 1; pthread_cond_broadcast(&C); pthread_mutex_unlock(&L); }
    }
    else
    {
      pthread_mutex_lock(&L);
      if(!strcmp(op, "end")) { gate[a] = 1; pthread_cond_broadcast(&C); if(started[a]) await(&ended[a], 1, 3000); }
      else if(!strcmp(op, "hold")) hold = 1;
      else if(!strcmp(op, "unhold")) { hold = 0; pthread_cond_broadcast(&C); }
      else if(!strcmp(op, "fail")) failing = a;
      else if(!strcmp(op, "destroy")) { r_create(&th, NULL, destroyer, (void*)(intptr_t)a); await(&destroying, 1, 5000); }
      else if(!strcmp(op, "sleep")) { pthread_mutex_unlock(&L); usleep(a * 1000); pthread_mutex_lock(&L); }
      else if(!strcmp(op, "settle"))
      {
        long t = now();
        /* what was not to start would have started within these rounds */
        for(int quiet = 0; quiet < 3 && now() - t < 3000;)
        {
          int out = 0, runs = 0, busy = 0;
          for(int k = 1; k <= last; k++)
          {
            if((accepted[k] || started[k]) && !ended[k]) out++;
            if(started[k] && !ended[k] && !gate[k]) runs++;
            if(started[k] && !ended[k] && gate[k]) busy++;
            if(started[k] && nested[k] && !answered[nested[k]]) busy++;
          }
          bool good = !busy && (runs == (out < mx ? out : mx) || (failed && runs > 0 && now() - t > 60));
          if(good) quiet++; else quiet = 0;
          struct timespec w; in(1, &w); while(r_timedwait(&C, &L, &w) != ETIMEDOUT) if(good) quiet = 0;
        }
        printf("{\"op\":\"settle\"}\n");
      }
      pthread_mutex_unlock(&L);
    }
  }
  pthread_mutex_lock(&L);
  hold = 0; for(int k = 0; k < 1000; k++) gate[k] = 1;
  pthread_cond_broadcast(&C);
  if(destroying) await(&destroyed, 1, 10000);
  { struct timespec t; in(5000, &t); while(alive > 0 && r_timedwait(&C, &L, &t) != ETIMEDOUT); }
  printf("{\"op\":\"bye\",\"left\":%d}\n", alive);
  fflush(stdout);
  _exit(0);
}
