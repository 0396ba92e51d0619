/* Random numbers chosen by the check: RAND_SEQ holds one digit per call (0 = smallest, 9 = largest,
   digits between are the respective tenths); after its end the last digit is repeated.
   Every call appends a byte to RAND_LOG. */
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static long pick(void){
  static size_t n = 0;
  const char *s = getenv("RAND_SEQ"), *log = getenv("RAND_LOG");
  if (log){
    int f = open(log, O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (f >= 0){ if (write(f, ".", 1) < 0) abort(); close(f); }
  }
  if (!s || !*s) return 0;
  size_t l = strlen(s), i = n < l ? n : l - 1;
  n++;
  return s[i] == '9' ? RAND_MAX : (long)RAND_MAX / 10 * (s[i] - '0');
}

int rand(void){ return (int)pick(); }
long random(void){ return pick(); }
void srand(unsigned s){ (void)s; }
void srandom(unsigned s){ (void)s; }
