// A process that writes one image: c03 <dir> <file> <mode> <writer> <nx> <ny> <type> <provenance dir> <pattern>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include "cross-level/brick_base-cl.h"
#include "cross-level/brick_io-cl.h"
#include "cross-level/enum-cl.h"
#include "cross-level/gdalopt-cl.h"
#include "gdal.h"
#include "ogr_srs_api.h"

int main(int argc, char **argv){
  char *dir = argv[1], *file = argv[2], *prov = argv[8];
  int w = atoi(argv[4]), nx = atoi(argv[5]), ny = atoi(argv[6]);
  bool qai = strcmp(argv[3], "qai") == 0;
  GDALAllRegister();
  brick_t *b = allocate_brick(qai ? 1 : 2, nx*ny, _DT_SHORT_);
  if (b == NULL) return 3;
  gdalopt_t opt;
  memset(&opt, 0, sizeof(opt));
  default_gdaloptions(_FMT_GTIFF_, &opt);
  set_brick_name(b, "test"); set_brick_product(b, "TST");
  set_brick_dirname(b, dir); set_brick_provdir(b, prov); set_brick_filename(b, file);
  set_brick_format(b, &opt);
  set_brick_nprovenance(b, 1);
  set_brick_provenance(b, 0, argv[4]);
  set_brick_ncols(b, nx); set_brick_nrows(b, ny);
  set_brick_res(b, 30); set_brick_ulx(b, 0); set_brick_uly(b, 0);
  set_brick_open(b, strcmp(argv[3], "create") == 0 ? OPEN_CREATE : strcmp(argv[3], "update") == 0 ? OPEN_UPDATE : qai ? OPEN_QAI_MERGE : OPEN_MERGE);
  FILE *fp = fopen(argv[9], "rb");
  if (fp == NULL) return 4;
  for (int k=0; k<(qai ? 1 : 2); k++){
    set_brick_save(b, k, true);
    set_brick_bandname(b, k, k ? "B2" : "B1"); set_brick_sensor(b, k, "LND08"); set_brick_domain(b, k, "X"); set_brick_unit(b, k, "u");
    set_brick_nodata(b, k, qai ? 1 : -9999);
    if (fread(get_band_short(b, k), 2, nx*ny, fp) != (size_t)(nx*ny)) return 5;
  }
  fclose(fp);
  int rc = write_brick(b);
  printf("written %d\n", rc);
  free_brick(b);
  return rc == SUCCESS ? 0 : 1;
}
