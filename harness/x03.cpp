// All small images through the image operators of the cross-level library, each
// compared with its definition.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <vector>
#include <set>
#include <omp.h>
#include "cross-level/imagefuns-cl.h"

static long states, ops, compared;
static int nfail;
static void fail(const char *what, int nx, int ny, const std::vector<int> &im){
  if (nfail++ > 3) return;
  printf("FAIL %s: %d columns, %d rows, image ", what, nx, ny);
  for (int p=0; p<nx*ny; p++) printf("%d%s", im[p], p % nx == nx-1 ? " / " : " ");
  printf("\n");
}

static int find(std::vector<int> &u, int a){ while (u[a] != a) a = u[a] = u[u[a]]; return a; }

static int components(const std::vector<int> &im, int nx, int ny, std::vector<int> &id){
  std::vector<int> u(nx*ny);
  for (int p=0; p<nx*ny; p++) u[p] = p;
  for (int y=0; y<ny; y++) for (int x=0; x<nx; x++){
    if (!im[y*nx+x]) continue;
    for (int d=0; d<4; d++){
      static const int dy[4] = {0,1,1,1}, dx[4] = {1,-1,0,1};
      int yy = y+dy[d], xx = x+dx[d];
      if (yy >= ny || xx < 0 || xx >= nx || !im[yy*nx+xx]) continue;
      int a = find(u, y*nx+x), b = find(u, yy*nx+xx);
      if (a != b) u[a > b ? a : b] = a < b ? a : b;
    }
  }
  int n = 0;
  id.assign(nx*ny, 0);
  for (int p=0; p<nx*ny; p++) if (im[p]){   // numbered from the top left
    int r = find(u, p);
    id[p] = r == p ? ++n : id[r];
  }
  return n;
}

static void binary(const std::vector<int> &im, int nx, int ny){
  int nc = nx*ny;
  std::vector<small> a(nc);
  states++;
  // components
  std::vector<int> id, ccl(nc, 0);
  int n = components(im, nx, ny, id);
  for (int p=0; p<nc; p++) a[p] = im[p];
  int k = connectedcomponents_(a.data(), ccl.data(), nx, ny);
  ops++;
  bool bad = k != n;
  std::vector<int> map(nc+2, 0);
  for (int p=0; p<nc && !bad; p++){
    if ((ccl[p] > 0) != (im[p] != 0)) bad = true;
    else if (im[p]){ if (ccl[p] > n) bad = true; else if (!map[ccl[p]]) map[ccl[p]] = id[p]; else if (map[ccl[p]] != id[p]) bad = true; }
  }
  compared += nc;
  if (bad) fail("connected components", nx, ny, im);
  // objects with a minimum size
  for (int nmin=1; nmin<=3; nmin++){
    std::vector<int> size(n+1, 0), keep = im;
    for (int p=0; p<nc; p++) size[id[p]]++;
    for (int p=0; p<nc; p++) if (im[p] && size[id[p]] < nmin) keep[p] = 0;
    std::vector<int> kid; int kn = components(keep, nx, ny, kid);
    for (int p=0; p<nc; p++) a[p] = im[p];
    int *obj = NULL, *sz = NULL, no = 0;
    binary_to_objects(a.data(), nx, ny, nmin, &obj, &sz, &no);
    ops++;
    bad = no != kn;
    for (int p=0; p<nc && !bad; p++){
      if ((a[p] != 0) != (keep[p] != 0)) bad = true;
      if (no > 0){
        if ((obj[p] > 0) != (keep[p] != 0)) bad = true;
        else if (keep[p]){ int c = 0; for (int q=0; q<nc; q++) c += obj[q] == obj[p]; if (sz[obj[p]-1] != c) bad = true; }
      }
    }
    compared += nc;
    if (no > 0){ free(obj); free(sz); }
    if (bad) fail("objects of a minimum size", nx, ny, im);
  }
  // distance to the next TRUE pixel
  if (n > 0){
    for (int p=0; p<nc; p++) a[p] = im[p];
    ushort *d = dist_transform_(a.data(), nx, ny);
    ops++;
    bad = false;
    for (int p=0; p<nc; p++){
      int best = 1<<30;
      for (int q=0; q<nc; q++) if (im[q]){ int dx = p%nx-q%nx, dy = p/nx-q/nx; if (dx*dx+dy*dy < best) best = dx*dx+dy*dy; }
      if (d[p] != (int)sqrt((double)best)) bad = true;
    }
    compared += nc;
    free(d);
    if (bad) fail("distance transformation", nx, ny, im);
  }
  // majority filling
  for (int p=0; p<nc; p++) a[p] = im[p];
  majorfill_(a.data(), nx, ny);
  ops++;
  bad = false;
  for (int y=0; y<ny; y++) for (int x=0; x<nx; x++){
    int c = 0;
    for (int i=-1; i<=1; i++) for (int j=-1; j<=1; j++)
      if ((i || j) && y+i >= 0 && y+i < ny && x+j >= 0 && x+j < nx) c += im[(y+i)*nx+x+j];
    if ((a[y*nx+x] != 0) != (im[y*nx+x] || c >= 5)) bad = true;
  }
  compared += nc;
  if (bad) fail("majority filling", nx, ny, im);
}

// fill regional minima not connected to the border: smallest marker >= mask reachable from the border
static void grey(const std::vector<int> &im, int nx, int ny){
  int nc = nx*ny;
  states++;
  std::vector<short> mask(nc), marker(nc, 0);
  for (int p=0; p<nc; p++) mask[p] = im[p];
  int r = greyscale_reconstruction_(mask.data(), marker.data(), nx, ny);
  ops++;
  if (r != SUCCESS){ fail("reconstruction gives up", nx, ny, im); return; }
  std::vector<int> f(nc);
  for (int y=0; y<ny; y++) for (int x=0; x<nx; x++) f[y*nx+x] = (y == 0 || x == 0 || y == ny-1 || x == nx-1) ? im[y*nx+x] : 1000;
  for (bool ch=true; ch;){
    ch = false;
    for (int y=1; y<ny-1; y++) for (int x=1; x<nx-1; x++){
      int m = f[y*nx+x];
      for (int i=-1; i<=1; i++) for (int j=-1; j<=1; j++) if (f[(y+i)*nx+x+j] < m) m = f[(y+i)*nx+x+j];
      if (m < im[y*nx+x]) m = im[y*nx+x];
      if (m != f[y*nx+x]){ f[y*nx+x] = m; ch = true; }
    }
  }
  compared += nc;
  for (int p=0; p<nc; p++) if (f[p] != marker[p]){ fail("reconstruction", nx, ny, im); return; }
}

// growing: the grown area contains the disc, stays in the square (both clipped at the border)
// and is the union over pixels
static void grow(int nx, int ny, int r){
  int nc = nx*ny;
  std::vector<small> a(nc), single(nc);
  std::vector<std::vector<small>> disc(nc);
  std::vector<int> inner;
  for (int y=0; y<ny; y++) for (int x=0; x<nx; x++) inner.push_back(y*nx+x);
  std::vector<int> im(nc, 0);
  for (int p : inner){
    std::fill(a.begin(), a.end(), 0); a[p] = 1; im.assign(nc, 0); im[p] = 1;
    buffer_(a.data(), nx, ny, r); ops++; states++;
    disc[p] = a;
    for (int q=0; q<nc; q++){
      int dx = abs(q%nx-p%nx), dy = abs(q/nx-p/nx);
      if (dx*dx+dy*dy <= r*r && !a[q]){ fail("growing misses a pixel within the radius", nx, ny, im); break; }
      if ((dx > r || dy > r) && a[q]){ fail("growing exceeds the radius", nx, ny, im); break; }
      if (dx*dx+dy*dy > (r+1)*(r+1) && a[q]){ fail("growing exceeds the radius", nx, ny, im); break; }
    }
    compared += nc;
  }
  if (inner.size() > 16){          // 16 pixels spread over the image
    std::vector<int> some;
    for (int k=0; k<16; k++) some.push_back(inner[k*(inner.size()-1)/15]);
    inner = some;
  }
  for (int s=0; s < 1 << inner.size(); s++){
    std::fill(a.begin(), a.end(), 0); im.assign(nc, 0);
    std::fill(single.begin(), single.end(), 0);
    for (size_t k=0; k<inner.size(); k++) if (s >> k & 1){
      a[inner[k]] = im[inner[k]] = 1;
      for (int q=0; q<nc; q++) single[q] |= disc[inner[k]][q];
    }
    buffer_(a.data(), nx, ny, r); ops++; states++;
    compared += nc;
    for (int q=0; q<nc; q++) if ((a[q] != 0) != (single[q] != 0)){ fail("growing of several pixels", nx, ny, im); break; }
  }
}

template <class F> static void all(int nx, int ny, int k, F f){
  std::vector<int> im(nx*ny, 0);
  while (true){
    f(im, nx, ny);
    int p = 0;
    while (p < nx*ny && ++im[p] == k) im[p++] = 0;
    if (p == nx*ny) break;
  }
}

int main(int argc, char **argv){
  int thorough = argc > 1 && !strcmp(argv[1], "thorough");
  int part = argc > 2 ? atoi(argv[2]) : 0;
  omp_set_num_threads(1);
  if (part == 0) for (int nx=1; nx<=4; nx++) for (int ny=1; ny<=4; ny++) all(nx, ny, 2, binary);
  if (part == 1){ for (int n=5; n<=(thorough ? 16 : 14); n++){ all(n, 1, 2, binary); all(1, n, 2, binary);} for (int n=5; n<=(thorough ? 10 : 9); n++) all(n, 2, 2, binary); }
  if (part == 2) all(5, 3, 2, binary), all(3, 5, 2, binary), all(2, 9, 2, binary);
  if (part == 3 && thorough) all(5, 4, 2, binary);
  if (part == 3 && !thorough) all(6, 3, 2, binary);
  if (part == 4 && thorough) all(4, 5, 2, binary);
  if (part == 4 && !thorough) all(3, 6, 2, binary);
  if (part == 5){ all(3, 3, 3, grey); all(3, 3, 4, grey); all(4, 3, 3, grey); all(3, 4, 3, grey); all(4, 4, 2, grey); all(5, 3, 2, grey); all(3, 6, 2, grey); }
  if (part == 6){     // 5 x 5 and 6 x 5 with one open border pixel at every position
    for (int w=5; w<=(thorough ? 6 : 5); w++)
    for (int open=0; open<w*5; open++){
      int y = open/w, x = open%w;
      if (y > 0 && y < 4 && x > 0 && x < w-1) continue;
      all(w-2, 3, w == 5 ? 3 : 2, [&](const std::vector<int> &in, int nx, int ny){
        std::vector<int> im(w*5, 2);
        for (int i=0; i<ny; i++) for (int j=0; j<nx; j++) im[(i+1)*w+j+1] = in[i*nx+j];
        im[open] = 0;
        grey(im, w, 5);
      });
    }
    if (thorough) all(5, 4, 2, grey);
  }
  if (part == 8){     // every periodic 3 x 3 pattern of three values within a frame
    for (int w=9; w<=(thorough ? 12 : 10); w++) for (int frame=0; frame<3; frame++)
      all(3, 3, 3, [&](const std::vector<int> &in, int nx, int ny){
        std::vector<int> im(w*9, frame);
        for (int i=1; i<8; i++) for (int j=1; j<w-1; j++) im[i*w+j] = in[(i%ny)*nx+j%nx];
        grey(im, w, 9);
      });
  }
  if (part == 7){ grow(1, 1, 1); grow(1, 5, 2); grow(4, 4, 1); grow(4, 4, 2); grow(4, 4, 3); grow(4, 4, 6); grow(6, 6, 1); grow(7, 7, 2); grow(8, 8, 2); grow(9, 10, 3); grow(12, 12, 4); }
  printf("DONE states=%ld ops=%ld compared=%ld failures=%d\n", states, ops, compared, nfail);
  return nfail ? 1 : 0;
}
