// Every 16-bit quality word: every field read and every field set to every value.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include "cross-level/quality-cl.h"

static long states, ops, compared;
static int nfail;

struct field { const char *name; int bit, width; short (*get)(brick_t*, int); short (*getv)(short); void (*set)(brick_t*, int, short); void (*setv)(short*, short); };
#define F(n, b, w) { #n, b, w, [](brick_t *q, int p) -> short { return get_##n(q, p); }, [](short v) -> short { return get_##n##_from_value(v); }, \
  [](brick_t *q, int p, short v){ set_##n(q, p, v); }, [](short *x, short v){ set_##n##_to_value(x, v); } }

static const field f[] = {
  F(off,0,1), F(cloud,1,2), F(shadow,3,1), F(snow,4,1), F(water,5,1), F(aerosol,6,2), F(subzero,8,1),
  F(saturation,9,1), F(lowsun,10,1), F(illumination,11,2), F(slope,13,1), F(vaporfill,14,1) };

static void eq(const char *what, const char *name, int got, int exp, int word, int val){
  compared++;
  if (got != exp && nfail++ < 6) printf("FAIL %s %s: %d instead of %d for quality word %d, value %d\n", what, name, got, exp, word, val);
}

int main(){
  const int n = 65536;
  brick_t *b = allocate_brick(1, n, _DT_SHORT_);
  if (b == NULL){ printf("no brick\n"); return 3; }
  set_brick_ncols(b, n); set_brick_nrows(b, 1);
  short *px = get_band_short(b, 0);
  if (px == NULL){ printf("no band\n"); return 3; }
  for (int w=0; w<n; w++){
    states++;
    for (const field &a : f){
      int mask = ((1 << a.width) - 1) << a.bit;
      px[w] = (short)w;
      eq("reading", a.name, a.get(b, w), (w & mask) >> a.bit, w, -1);
      eq("reading value", a.name, a.getv((short)w), (w & mask) >> a.bit, w, -1);
      ops += 2;
      for (int v=0; v < (1 << a.width); v++){
        int e = (w & ~mask) | (v << a.bit);
        short s = (short)w;
        px[w] = (short)w;
        a.set(b, w, v);
        eq("setting", a.name, (unsigned short)px[w], e, w, v);
        a.setv(&s, v);
        eq("setting value", a.name, (unsigned short)s, e, w, v);
        eq("reading back", a.name, a.getv(s), v, w, v);
        ops += 3;
      }
    }
    px[w] = (short)w;
  }
  for (int w=0; w<n; w++) eq("neighbouring pixel", "any", (unsigned short)px[w], w, w, -1);
  printf("DONE states=%ld ops=%ld compared=%ld\n", states, ops, compared);
  return 0;
}
