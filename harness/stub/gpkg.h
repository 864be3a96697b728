// Stand-in for libgpkg's public header (libgpkg is not available offline).
#ifndef VERIF_GPKG_H
#define VERIF_GPKG_H
#include <sqlite3.h>
#ifdef __cplusplus
extern "C" {
#endif
int sqlite3_gpkg_auto_init( sqlite3 *db, const char **pzErrMsg, const void *pThunk );
#ifdef __cplusplus
}
#endif
#endif
