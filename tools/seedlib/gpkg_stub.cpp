// Stand-in for libgpkg: registers the SQL functions that GeoPackage triggers and geodiff use.
// ST_IsEmpty / ST_MinX / ST_MaxX / ST_MinY / ST_MaxY on GeoPackage blobs (points, linestrings,
// polygons, multi-parts), and InitSpatialMetadata(db).
#include "gpkg.h"
#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>

namespace
{
  struct Box
  {
    double minx = std::numeric_limits<double>::infinity(), maxx = -minx, miny = minx, maxy = -minx;
    bool any = false;
    void add( double x, double y )
    {
      if ( std::isnan( x ) || std::isnan( y ) ) return;
      any = true;
      if ( x < minx ) minx = x;
      if ( x > maxx ) maxx = x;
      if ( y < miny ) miny = y;
      if ( y > maxy ) maxy = y;
    }
  };
  struct Rd
  {
    const unsigned char *p; size_t n; size_t o = 0; bool ok = true; bool le = true;
    uint32_t u32()
    {
      if ( o + 4 > n ) { ok = false; return 0; }
      uint32_t v = 0;
      for ( int i = 0; i < 4; ++i ) v |= uint32_t( p[o + i] ) << ( le ? 8 * i : 8 * ( 3 - i ) );
      o += 4;
      return v;
    }
    double f64()
    {
      if ( o + 8 > n ) { ok = false; return 0; }
      uint64_t v = 0;
      for ( int i = 0; i < 8; ++i ) v |= uint64_t( p[o + i] ) << ( le ? 8 * i : 8 * ( 7 - i ) );
      o += 8;
      double d; memcpy( &d, &v, 8 );
      return d;
    }
    void geom( Box &b, int depth )
    {
      if ( depth > 8 || o >= n ) { ok = false; return; }
      le = p[o++] != 0;
      uint32_t t = u32();
      uint32_t dim = t / 1000, base = t % 1000;
      int nd = 2 + ( dim == 1 || dim == 2 ? 1 : dim == 3 ? 2 : 0 );
      auto pt = [&] { double x = f64(), y = f64(); for ( int i = 2; i < nd; ++i ) f64(); if ( ok ) b.add( x, y ); };
      if ( base == 1 ) pt();
      else if ( base == 2 ) { uint32_t k = u32(); for ( uint32_t i = 0; i < k && ok; ++i ) pt(); }
      else if ( base == 3 )
      {
        uint32_t r = u32();
        for ( uint32_t j = 0; j < r && ok; ++j ) { uint32_t k = u32(); for ( uint32_t i = 0; i < k && ok; ++i ) pt(); }
      }
      else if ( base >= 4 && base <= 7 ) { uint32_t k = u32(); for ( uint32_t i = 0; i < k && ok; ++i ) geom( b, depth + 1 ); }
      else ok = false;
    }
  };

  bool box( sqlite3_value *v, Box &b )
  {
    if ( sqlite3_value_type( v ) != SQLITE_BLOB ) return false;
    const unsigned char *p = ( const unsigned char * ) sqlite3_value_blob( v );
    size_t n = sqlite3_value_bytes( v );
    if ( n < 8 || p[0] != 'G' || p[1] != 'P' ) return false;
    static const int env[8] = { 0, 32, 48, 48, 64, 0, 0, 0 };
    size_t off = 8 + env[( p[3] >> 1 ) & 7];
    if ( off > n ) return false;
    Rd r{ p, n }; r.o = off;
    r.geom( b, 0 );
    return r.ok;
  }

  void isEmpty( sqlite3_context *c, int, sqlite3_value **a )
  {
    Box b;
    if ( !box( a[0], b ) ) { sqlite3_result_null( c ); return; }
    sqlite3_result_int( c, b.any ? 0 : 1 );
  }
  template<int K> void ext( sqlite3_context *c, int, sqlite3_value **a )
  {
    Box b;
    if ( !box( a[0], b ) || !b.any ) { sqlite3_result_null( c ); return; }
    sqlite3_result_double( c, K == 0 ? b.minx : K == 1 ? b.maxx : K == 2 ? b.miny : b.maxy );
  }
  void initMeta( sqlite3_context *c, int, sqlite3_value ** )
  {
    sqlite3 *db = sqlite3_context_db_handle( c );
    static const char *sql =
      "CREATE TABLE IF NOT EXISTS gpkg_spatial_ref_sys (srs_name TEXT NOT NULL, srs_id INTEGER NOT NULL PRIMARY KEY,"
      " organization TEXT NOT NULL, organization_coordsys_id INTEGER NOT NULL, definition TEXT NOT NULL, description TEXT);"
      "INSERT INTO gpkg_spatial_ref_sys VALUES ('Undefined cartesian SRS', -1, 'NONE', -1, 'undefined', '');"
      "INSERT INTO gpkg_spatial_ref_sys VALUES ('Undefined geographic SRS', 0, 'NONE', 0, 'undefined', '');"
      "INSERT INTO gpkg_spatial_ref_sys VALUES ('WGS 84', 4326, 'EPSG', 4326, 'GEOGCS[\"WGS 84\"]', '');"
      "CREATE TABLE IF NOT EXISTS gpkg_contents (table_name TEXT NOT NULL PRIMARY KEY, data_type TEXT NOT NULL, identifier TEXT UNIQUE,"
      " description TEXT DEFAULT '', last_change DATETIME NOT NULL DEFAULT (strftime('%Y-%m-%dT%H:%M:%fZ','now')),"
      " min_x DOUBLE, min_y DOUBLE, max_x DOUBLE, max_y DOUBLE, srs_id INTEGER);"
      "CREATE TABLE IF NOT EXISTS gpkg_geometry_columns (table_name TEXT NOT NULL, column_name TEXT NOT NULL,"
      " geometry_type_name TEXT NOT NULL, srs_id INTEGER NOT NULL, z TINYINT NOT NULL, m TINYINT NOT NULL,"
      " CONSTRAINT pk_geom_cols PRIMARY KEY (table_name, column_name));";
    char *err = nullptr;
    if ( sqlite3_exec( db, sql, nullptr, nullptr, &err ) != SQLITE_OK )
    {
      sqlite3_result_error( c, err ? err : "InitSpatialMetadata failed", -1 );
      sqlite3_free( err );
      return;
    }
    sqlite3_result_null( c );
  }
}

extern "C" int sqlite3_gpkg_auto_init( sqlite3 *db, const char **, const void * )
{
  const int fl = SQLITE_UTF8 | SQLITE_DETERMINISTIC;
  int rc = sqlite3_create_function( db, "ST_IsEmpty", 1, fl, nullptr, isEmpty, nullptr, nullptr );
  if ( rc == SQLITE_OK ) rc = sqlite3_create_function( db, "ST_MinX", 1, fl, nullptr, ext<0>, nullptr, nullptr );
  if ( rc == SQLITE_OK ) rc = sqlite3_create_function( db, "ST_MaxX", 1, fl, nullptr, ext<1>, nullptr, nullptr );
  if ( rc == SQLITE_OK ) rc = sqlite3_create_function( db, "ST_MinY", 1, fl, nullptr, ext<2>, nullptr, nullptr );
  if ( rc == SQLITE_OK ) rc = sqlite3_create_function( db, "ST_MaxY", 1, fl, nullptr, ext<3>, nullptr, nullptr );
  if ( rc == SQLITE_OK ) rc = sqlite3_create_function( db, "InitSpatialMetadata", 1, SQLITE_UTF8, nullptr, initMeta, nullptr, nullptr );
  return rc;
}
