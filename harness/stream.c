// Runs the three stages of a streaming block one operation at a time: every stage stops before its file
// operations and before allocating memory. When all stages of the block have stopped or ended, one of
// them goes on: the one that ran last, or the first in STREAM_ORDER, except at the operations listed in STREAM_DELAY,
// where it has to let the next one go first. STREAM_LOG gets one line per operation.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <pthread.h>
#include <sys/stat.h>

#define N 3
extern void *__libc_calloc(size_t, size_t);
static __thread int me = -1, inside = 0;
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static int team = 0, pend[N], ended[N], go[N], last, step = 0, order[N] = { 0, 1, 2 };
static int delay[64], ndelay = 0, allocs = 1;
static char op[N][80];
static const void *crit_held[64], *wants[N];
static int ncrit = 0;
static FILE *logf = NULL;

__attribute__((constructor)) static void init(void){
  const char *s;
  if ((s = getenv("STREAM_ORDER"))) for (int i=0; i<N && s[i]; i++) order[i] = s[i]-'0';
  if ((s = getenv("STREAM_DELAY"))) for (char *e; *s; s = *e ? e+1 : e){ delay[ndelay++] = strtol(s, &e, 10); if (e == s) break; }
  if ((s = getenv("STREAM_ALLOC"))) allocs = atoi(s);
  if ((s = getenv("STREAM_LOG"))) logf = fopen(s, "w");
  unsetenv("LD_PRELOAD");
}
static int held(const void *c){ for (int i=0; i<ncrit; i++) if (crit_held[i] == c) return 1; return 0; }

// all stages have stopped or ended: choose (mutex is held)
static void choose(void){
  int n = 0, c[N], k;
  for (int i=0; i<N; i++) if (go[i] || (!ended[i] && !pend[i])) return;
  // candidates in order, starting with the one that ran last
  for (k=0; k<N && order[k] != last; k++);
  for (int i=0; i<N; i++){ int t = order[(k+i)%N]; if (!ended[t] && !(wants[t] && held(wants[t]))) c[n++] = t; }
  if (n == 0) return;
  int skip = 0;
  for (int i=0; i<ndelay; i++) if (delay[i] == step) skip++;
  k = c[skip % n];
  if (logf){ fprintf(logf, "%d %d %d %s\n", step, n, k, op[k]); fflush(logf); }
  step++;
  last = k;
  go[k] = 1;
  pthread_cond_broadcast(&cv);
}
static void turn(const char *what, const void *crit){
  if (me < 0 || inside) return;
  inside = 1;
  pthread_mutex_lock(&mx);
  snprintf(op[me], sizeof(op[me]), "%s", what);
  wants[me] = crit;
  pend[me] = 1;
  choose();
  while (!go[me]) pthread_cond_wait(&cv, &mx);
  go[me] = pend[me] = 0;
  if (crit && ncrit < 64) crit_held[ncrit++] = crit;
  wants[me] = NULL;
  pthread_mutex_unlock(&mx);
  inside = 0;
}
static void release(const void *crit){
  pthread_mutex_lock(&mx);
  for (int i=0; i<ncrit; i++) if (crit_held[i] == crit){ crit_held[i] = crit_held[--ncrit]; break; }
  pthread_mutex_unlock(&mx);
}

// the parallel region of a block: three threads, one stage each
struct call { void (*fn)(void*); void *data; };
static void stage(void *p){
  struct call *c = p;
  int (*num)(void) = dlsym(RTLD_DEFAULT, "omp_get_thread_num");
  me = num();
  turn("begin", NULL);
  c->fn(c->data);
  turn("end", NULL);
  pthread_mutex_lock(&mx);
  ended[me] = 1;
  me = -1;
  choose();
  pthread_mutex_unlock(&mx);
}
static void begin(void){
  for (int i=0; i<N; i++) pend[i] = ended[i] = go[i] = 0;
  last = order[0];
  team = 1;
  if (logf) fprintf(logf, "block\n");
}
void GOMP_parallel(void (*fn)(void*), void *data, unsigned nt, unsigned flags){
  static void (*real)(void (*)(void*), void*, unsigned, unsigned);
  if (!real) real = dlsym(RTLD_NEXT, "GOMP_parallel");
  if (nt != N || me >= 0 || team){ real(fn, data, nt, flags); return; }
  struct call c = { fn, data };
  begin();
  real(stage, &c, nt, flags);
  team = 0;
}
void GOMP_parallel_sections(void (*fn)(void*), void *data, unsigned nt, unsigned count, unsigned flags){
  static void (*real)(void (*)(void*), void*, unsigned, unsigned, unsigned);
  if (!real) real = dlsym(RTLD_NEXT, "GOMP_parallel_sections");
  if (nt != N || me >= 0 || team){ real(fn, data, nt, count, flags); return; }
  struct call c = { fn, data };
  begin();
  real(stage, &c, nt, count, flags);
  team = 0;
}
// a barrier between the stages: a waiting stage cannot be chosen until all have arrived
void GOMP_barrier(void){
  static void (*real)(void); static int waiting = 0, (*level)(void);
  if (!real) real = dlsym(RTLD_NEXT, "GOMP_barrier");
  if (!level) level = dlsym(RTLD_DEFAULT, "omp_get_level");
  if (me < 0 || level() != 1){ real(); return; }
  pthread_mutex_lock(&mx);
  ended[me] = 1;
  if (++waiting == N){ waiting = 0; for (int i=0; i<N; i++) ended[i] = 0; } else choose();
  pthread_mutex_unlock(&mx);
  real();
  turn("barrier", NULL);
}
static char unnamed;
void GOMP_critical_start(void){
  static void (*real)(void); if (!real) real = dlsym(RTLD_NEXT, "GOMP_critical_start");
  turn("critical", &unnamed); real();
}
void GOMP_critical_end(void){
  static void (*real)(void); if (!real) real = dlsym(RTLD_NEXT, "GOMP_critical_end");
  real(); if (me >= 0) release(&unnamed);
}
void GOMP_critical_name_start(void **p){
  static void (*real)(void**); if (!real) real = dlsym(RTLD_NEXT, "GOMP_critical_name_start");
  turn("critical", p); real(p);
}
void GOMP_critical_name_end(void **p){
  static void (*real)(void**); if (!real) real = dlsym(RTLD_NEXT, "GOMP_critical_name_end");
  real(p); if (me >= 0) release(p);
}
void *calloc(size_t n, size_t s){
  static int count = 0;
  if (allocs && me == 1 && !inside && count++ % allocs == 0) turn("alloc", NULL);
  return __libc_calloc(n, s);
}
#define ENTER(what) turn(what, NULL); int was = inside; inside = 1
#define LEAVE inside = was
#define WRAP(ret, name, args, call) ret name args { \
  static ret (*real) args; if (!real) real = (ret (*) args)dlsym(RTLD_NEXT, #name); \
  ENTER(#name); ret r = real call; LEAVE; return r; }
WRAP(void*, GDALOpen, (const char *p, int a), (p, a))
WRAP(void*, GDALOpenEx, (const char *p, unsigned f, void *d, void *o, void *s), (p, f, d, o, s))
WRAP(void*, GDALCreate, (void *d, const char *p, int x, int y, int b, int t, char **o), (d, p, x, y, b, t, o))
WRAP(void*, GDALCreateCopy, (void *d, const char *p, void *s, int k, char **o, void *f, void *g), (d, p, s, k, o, f, g))
WRAP(int, GDALRasterIO, (void *b, int rw, int x, int y, int nx, int ny, void *p, int bx, int by, int t, int ps, int ls), (b, rw, x, y, nx, ny, p, bx, by, t, ps, ls))
WRAP(int, GDALClose, (void *d), (d))
WRAP(int, access, (const char *p, int m), (p, m))
WRAP(int, mkdir, (const char *p, mode_t m), (p, m))
WRAP(int, unlink, (const char *p), (p))
WRAP(int, rename, (const char *a, const char *b), (a, b))
WRAP(void*, opendir, (const char *p), (p))
WRAP(FILE*, fopen, (const char *p, const char *m), (p, m))
#define OPEN(fn) int fn(const char *p, int f, ...){ \
  static int (*real)(const char*, int, ...); if (!real) real = dlsym(RTLD_NEXT, #fn); \
  va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); \
  if (f & O_CREAT) turn("lock", NULL); return real(p, f, m); }
#define LOCKED(take, give) \
void take(void *l){ static void (*real)(void*); if (!real) real = dlsym(RTLD_NEXT, #take); turn("critical", l); real(l); } \
void give(void *l){ static void (*real)(void*); if (!real) real = dlsym(RTLD_NEXT, #give); real(l); if (me >= 0) release(l); }
LOCKED(omp_set_lock, omp_unset_lock)
OPEN(open)
OPEN(open64)
