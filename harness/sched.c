// Interposes the file and lock operations of a program under a controlled
// scheduler: every operation on the watched directory is announced and waits for
// its turn. Creating a lock file exclusively is one operation, which is enabled while
// the file does not exist (retries are not repeated). CPLLockFile is what it is in GDAL:
// it waits until the lock file does not exist, and then creates it in a second operation.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <pthread.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>

static int sfd = -1;
static const char *dir;
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
static void *handle[256];
static char hname[256][512];

__attribute__((constructor)) static void init(void){
  const char *sock = getenv("SCHED_SOCK"), *id = getenv("SCHED_ID");
  char msg[64];
  if (!sock || !id) return;
  dir = getenv("SCHED_DIR");
  struct sockaddr_un a = { .sun_family = AF_UNIX };
  strncpy(a.sun_path, sock, sizeof(a.sun_path)-1);
  sfd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
  if (sfd < 0 || connect(sfd, (struct sockaddr*)&a, sizeof(a)) != 0) _exit(99);
  int n = snprintf(msg, sizeof(msg), "hello\t%s\n", id);
  if (write(sfd, msg, n) != n) _exit(99);
  unsetenv("LD_PRELOAD");   // children are not scheduled
}

static int watched(const char *p){ return sfd >= 0 && p && dir && strncmp(p, dir, strlen(dir)) == 0; }

static void turn(const char *op, const char *path){
  char msg[4096], c;
  pthread_mutex_lock(&mx);
  int n = snprintf(msg, sizeof(msg), "%s\t%s\n", op, path);
  if (write(sfd, msg, n) != n || read(sfd, &c, 1) != 1) _exit(99);
  pthread_mutex_unlock(&mx);
}
#define REAL(name) static __typeof__(name) *real; if (!real) real = dlsym(RTLD_NEXT, #name)
#define TURN(op, p) if (watched(p)) turn(op, p)

static void keep(void *h, const char *p){ for (int i=0; h && i<256; i++) if (!handle[i]){ handle[i] = h; snprintf(hname[i], 512, "%s", p); return; } }
static const char *drop(void *h){ for (int i=0; h && i<256; i++) if (handle[i] == h){ handle[i] = NULL; return hname[i]; } return NULL; }

void *CPLLockFile(const char *p, double t){
  void *(*real)(const char*, double) = dlsym(RTLD_NEXT, "CPLLockFile");
  if (!watched(p)) return real(p, t);
  turn("lock-test", p);
  turn("lock-take", p);
  char *s = malloc(strlen(p)+8);
  sprintf(s, "SCHED:%s", p);
  return s;
}
void CPLUnlockFile(void *h){
  void (*real)(void*) = dlsym(RTLD_NEXT, "CPLUnlockFile");
  if (!h || strncmp((char*)h, "SCHED:", 6) != 0){ real(h); return; }
  turn("unlock", (char*)h+6);
  free(h);
}
int access(const char *p, int m){ REAL(access); TURN("access", p); return real(p, m); }
int stat(const char *p, struct stat *b){ REAL(stat); TURN("stat", p); return real(p, b); }
int mkdir(const char *p, mode_t m){ REAL(mkdir); TURN("mkdir", p); return real(p, m); }
int rename(const char *a, const char *b){ REAL(rename); TURN("rename", b); return real(a, b); }

// lock files
static int is_lock(const char *p, char *name, size_t size){
  size_t n = p ? strlen(p) : 0;
  if (!watched(p) || n < 6 || n >= size || strcmp(p+n-5, ".lock") != 0) return 0;
  memcpy(name, p, n-5);
  name[n-5] = 0;
  return 1;
}
static void opening(const char *p, int f){
  char name[4096];
  if (!(f & O_CREAT) || !watched(p)) return;
  if (!is_lock(p, name, sizeof(name))) turn("open-w", p);
  else if (f & O_EXCL) turn("lock", name);
  else turn("lock-take", name);
}
#define OPEN(fn) int fn(const char *p, int f, ...){ \
  static int (*real)(const char*, int, ...); if (!real) real = dlsym(RTLD_NEXT, #fn); \
  va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); \
  opening(p, f); return real(p, f, m); }
OPEN(open)
OPEN(open64)
static void removing(const char *p){
  char name[4096];
  if (is_lock(p, name, sizeof(name))) turn("unlock", name);
  else TURN("unlink", p);
}
int unlink(const char *p){ REAL(unlink); removing(p); return real(p); }
int remove(const char *p){ REAL(remove); removing(p); return real(p); }
FILE *fopen(const char *p, const char *m){
  REAL(fopen);
  if (!watched(p)) return real(p, m);
  turn(m[0] == 'r' ? "fopen-r" : m[0] == 'a' ? "fopen-a" : "fopen-w", p);
  FILE *f = real(p, m);
  if (m[0] != 'r') keep(f, p);
  return f;
}
int fclose(FILE *f){
  REAL(fclose);
  const char *p = drop(f);
  if (p) turn("fclose", p);
  return real(f);
}
void *GDALOpen(const char *p, int a){
  void *(*real)(const char*, int) = dlsym(RTLD_NEXT, "GDALOpen");
  if (!watched(p)) return real(p, a);
  turn(a ? "open-update" : "open-read", p);
  void *h = real(p, a);
  keep(h, p);
  return h;
}
void *GDALOpenEx(const char *p, unsigned f, const char *const *d, const char *const *o, const char *const *s){
  void *(*real)(const char*, unsigned, const char *const*, const char *const*, const char *const*) = dlsym(RTLD_NEXT, "GDALOpenEx");
  if (!watched(p)) return real(p, f, d, o, s);
  turn("open", p);
  void *h = real(p, f, d, o, s);
  keep(h, p);
  return h;
}
void *GDALCreate(void *d, const char *p, int x, int y, int b, int t, char **o){
  void *(*real)(void*, const char*, int, int, int, int, char**) = dlsym(RTLD_NEXT, "GDALCreate");
  if (!watched(p)) return real(d, p, x, y, b, t, o);
  turn("create", p);
  void *h = real(d, p, x, y, b, t, o);
  keep(h, p);
  return h;
}
void *GDALCreateCopy(void *d, const char *p, void *s, int k, char **o, void *f, void *g){
  void *(*real)(void*, const char*, void*, int, char**, void*, void*) = dlsym(RTLD_NEXT, "GDALCreateCopy");
  if (!watched(p)) return real(d, p, s, k, o, f, g);
  turn("create-copy", p);
  void *h = real(d, p, s, k, o, f, g);
  keep(h, p);
  return h;
}
int GDALClose(void *h){
  int (*real)(void*) = dlsym(RTLD_NEXT, "GDALClose");
  const char *p = drop(h);
  if (p) turn("close", p);
  return real(h);
}
