#ifndef VSTUB_OGR_H
#define VSTUB_OGR_H
#include <stdlib.h>
#include <string.h>
class OGRSpatialReference { public: int SetUTM(int, int) { return 0; } int SetWellKnownGeogCS(char const*) { return 0; }
  int exportToWkt(char** p) { *p = strdup("WKT"); return 0; } };
#endif
