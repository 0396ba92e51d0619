// c02 write <dir> <values...> writes a datacube definition; c02 read <dir> prints it;
// c02 copy <dir> <dir> copies it; c02 start <dir> <values...> creates the directory, too.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include "cross-level/cube-cl.h"
#include "cross-level/const-cl.h"
#include "cross-level/dir-cl.h"

static void show(cube_t *c){
  printf("DEF %.6f %.6f %.6f %.6f %.6f %.6f %s\n", c->origin_geo.x, c->origin_geo.y, c->origin_map.x, c->origin_map.y,
    c->tile_size[_X_], c->tile_size[_Y_], c->projection);
}
int main(int argc, char **argv){
  cube_t *c = NULL;
  if (argc < 3) return 3;
  if (strcmp(argv[1], "read") == 0){
    if ((c = read_datacube_def(argv[2])) == NULL){ printf("NONE\n"); return 1; }
    show(c);
  } else if (strcmp(argv[1], "copy") == 0){
    if ((c = copy_datacube_def(argv[2], argv[3])) == NULL){ printf("NONE\n"); return 1; }
    show(c);
  } else {
    if ((c = allocate_datacube()) == NULL) return 3;
    init_datacube(c);
    snprintf(c->dir_path, NPOW_10, "%s", argv[2]);
    c->origin_geo.x = atof(argv[3]); c->origin_geo.y = atof(argv[4]); c->origin_map.x = atof(argv[5]); c->origin_map.y = atof(argv[6]);
    c->tile_size[_X_] = atof(argv[7]); c->tile_size[_Y_] = atof(argv[8]);
    snprintf(c->projection, NPOW_10, "%s", argv[9]);
    if (strcmp(argv[1], "start") == 0 && createdir(argv[2]) != SUCCESS){ printf("NO DIRECTORY\n"); return 1; }
    if (write_datacube_def(c) != SUCCESS){ printf("NOT WRITTEN\n"); return 1; }
    printf("WRITTEN\n");
  }
  free_datacube(c);
  return 0;
}
