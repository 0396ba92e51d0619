// Every day of every year through the calendar conversions, and every ordered
// pair of days through the date setters.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include "cross-level/date-cl.h"

static long states, ops, compared, traces;
static int nfail;
#define EQ(what, got, exp) do { compared++; long g_ = (got), e_ = (exp); if (g_ != e_ && nfail++ < 6) \
  printf("FAIL %s: %ld instead of %ld for %04d-%02d-%02d (day %d)\n", what, g_, e_, y, m, d, doy); } while (0)

static const int len[12] = {31,28,31,30,31,30,31,31,30,31,30,31};
static int M[366], D[366];

static void same(const char *what, const date_t &t, int y, int doy){
  int m = M[doy], d = D[doy];
  traces++;
  char s[96];
  snprintf(s, 96, "%s, year", what);    EQ(s, t.year, y);
  snprintf(s, 96, "%s, month", what);   EQ(s, t.month, m);
  snprintf(s, 96, "%s, day", what);     EQ(s, t.day, d);
  snprintf(s, 96, "%s, day of year", what); EQ(s, t.doy, doy);
  snprintf(s, 96, "%s, week", what);    EQ(s, t.week, doy > 364 ? 52 : (doy+6)/7);
  snprintf(s, 96, "%s, quarter", what); EQ(s, t.quarter, (m+2)/3);
  snprintf(s, 96, "%s, day count", what); EQ(s, t.ce, (long)y*365+doy);
}

int main(int argc, char **argv){
  int y0 = atoi(argv[1]), y1 = atoi(argv[2]);
  int first[13] = {0};
  for (int m=1, k=1; m<=12; m++) for (int d=1; d<=len[m-1]; d++, k++){ M[k] = m; D[k] = d; if (d == 1) first[m] = k; }

  for (int y=y0; y<=y1; y++) for (int doy=1; doy<=365; doy++){
    int m = M[doy], d = D[doy], a, b, e;
    long ce = (long)y*365+doy;
    states++;
    doy2md(doy, &a, &b);                 EQ("month of day of year", a, m); EQ("day of day of year", b, d);
    EQ("month number", doy2m(doy), m);   EQ("day number", doy2d(doy), d);
    EQ("day of year of month and day", md2doy(m, d), doy);
    EQ("week", doy2week(doy), doy > 364 ? 52 : (doy+6)/7);
    EQ("quarter of day", doy2quarter(doy), (m+2)/3);
    EQ("quarter of month", m2quarter(m), (m+2)/3);
    EQ("day count of date", date2ce(y, m, d), ce);
    EQ("day count of day of year", doy2ce(doy, y), ce);
    ce2date(ce, &a, &b, &e);             EQ("year of day count", a, y); EQ("month of day count", b, m); EQ("day of day count", e, d);
    ce2doy(ce, &a, &b);                  EQ("day of year of day count", a, doy); EQ("year of day count (with day)", b, y);
    EQ("year of day count (alone)", ce2year(ce), y);
    char s[64], t[64];
    compact_date(y, m, d, s, 64);        snprintf(t, 64, "%04d%02d%02d", y, m, d); EQ("compact date differs", strcmp(s, t), 0);
    ops += 12;
    date_t x, z;
    init_date(&x); set_date(&x, y, m, d);          same("date set", x, y, doy);
    init_date(&z); copy_date(&x, &z);              same("date copied", z, y, doy);
    init_date(&x); set_date_ce(&x, ce);            same("day count set", x, y, doy);
    init_date(&x); set_date_year(&x, y); set_date_doy(&x, doy); same("year, day of year set", x, y, doy);
    init_date(&x); set_date_year(&x, y); set_date_month_day(&x, m, d); same("year, month, day set", x, y, doy);
    snprintf(t, 64, "%04d%02d%02d", y, m, d);
    init_date(&x);
    char str[64]; snprintf(str, 64, "%s_LEVEL2_LND08_BOA.tif", t);
    date_from_string(&x, str);                     same("date of file name", x, y, doy);
    ops += 6;
  }
  // histories: a date, then one setter of each kind with each value
  for (int k=0; k<5; k++){
    static const int ys[5] = {1984, 1999, 2000, 2018, 2024};
    int y = ys[k];
    for (int p=1; p<=365; p++){
      date_t x;
      for (int doy=1; doy<=365; doy++){
        set_date(&x, y, M[p], D[p]); set_date_doy(&x, doy);  same("day of year set on a date", x, y, doy);
        set_date(&x, y, M[p], D[p]); set_date_month_day(&x, M[doy], D[doy]); same("month and day set on a date", x, y, doy);
        set_date(&x, y, M[p], D[p]); set_date(&x, y-1, M[doy], D[doy]); same("date set on a date", x, y-1, doy);
        set_date(&x, y, M[p], D[p]); set_date_ce(&x, (y+1)*365+doy); same("day count set on a date", x, y+1, doy);
        states++; ops += 4;
      }
      for (int yy=y0; yy<=y1; yy++){ set_date(&x, y, M[p], D[p]); set_date_year(&x, yy); same("year set on a date", x, yy, p); states++; ops++; }
      for (int w=1; w<=52; w++){ set_date(&x, y, M[p], D[p]); set_date_week(&x, w); same("week set on a date", x, y, (w-1)*7+1); states++; ops++; }
      for (int m=1; m<=12; m++){ set_date(&x, y, M[p], D[p]); set_date_month(&x, m); same("month set on a date", x, y, first[m]); states++; ops++; }
      for (int q=1; q<=4; q++){ set_date(&x, y, M[p], D[p]); set_date_quarter(&x, q); same("quarter set on a date", x, y, first[q*3-2]); states++; ops++; }
    }
  }
  printf("DONE states=%ld ops=%ld compared=%ld traces=%ld\n", states, ops, compared, traces);
  return 0;
}
