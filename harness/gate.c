// Stand-in for commands run by a script under a controlled scheduler: announces
// itself, waits for its turn, then runs the real command. Built as a library it
// does the same for renames within a command.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <dlfcn.h>
#include <sys/socket.h>
#include <sys/un.h>

static void gate(const char *what, const char *arg){
  const char *seq = getenv("PARALLEL_SEQ"), *sock = getenv("GATE_SOCK");
  char msg[4096], c;
  if (!seq || !sock) return;
  int fd = socket(AF_UNIX, SOCK_STREAM, 0);
  struct sockaddr_un a = { .sun_family = AF_UNIX };
  strncpy(a.sun_path, sock, sizeof(a.sun_path)-1);
  if (fd < 0 || connect(fd, (struct sockaddr*)&a, sizeof(a)) != 0) _exit(99);
  int n = snprintf(msg, sizeof(msg), "%s\t%s\t%d\t%s\n", seq, what, (int)getpid(), arg);
  if (write(fd, msg, n) != n || read(fd, &c, 1) != 1) _exit(99);
  // the connection stays open until this process has ended
}

#ifdef GATE_LIB
int rename(const char *a, const char *b){
  int (*f)(const char*, const char*) = dlsym(RTLD_NEXT, "rename");
  gate("rename", b); return f(a, b); }
int renameat(int x, const char *a, int y, const char *b){
  int (*f)(int, const char*, int, const char*) = dlsym(RTLD_NEXT, "renameat");
  gate("rename", b); return f(x, a, y, b); }
int renameat2(int x, const char *a, int y, const char *b, unsigned g){
  int (*f)(int, const char*, int, const char*, unsigned) = dlsym(RTLD_NEXT, "renameat2");
  gate("rename", b); return f(x, a, y, b, g); }
#else
int main(int argc, char **argv){
  const char *name = strrchr(argv[0], '/') ? strrchr(argv[0], '/')+1 : argv[0];
  const char *file = getenv("GATE_FILE"), *shim = getenv("GATE_SHIM"), *hit = NULL;
  char path[4096];
  int lock = strncmp(name, "lockfile-", 9) == 0;
  for (int i=1; i<argc; i++) if (file && strstr(argv[i], file)) hit = argv[i];
  if (hit && getenv("PARALLEL_SEQ")){
    gate(name, hit);
    if (lock) return 0;
    setenv("LD_PRELOAD", getenv("GATE_PRELOAD"), 1);
  }
  char *dirs = strdup(getenv("PATH")), *save = NULL;
  for (char *d = strtok_r(dirs, ":", &save); d; d = strtok_r(NULL, ":", &save)){
    if (shim && strcmp(d, shim) == 0) continue;
    snprintf(path, sizeof(path), "%s/%s", d, name);
    if (access(path, X_OK) == 0){ execv(path, argv); }
  }
  fprintf(stderr, "gate: %s not found\n", name);
  return 127;
}
#endif
