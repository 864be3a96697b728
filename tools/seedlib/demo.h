// Helpers of the demonstrations: small databases in a scratch directory, and their contents as text.
#pragma once
#include "geodiff.h"
#include <sqlite3.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <iostream>
#include <unistd.h>
#include <dirent.h>
#include <sys/stat.h>
extern "C" int sqlite3_gpkg_auto_init( sqlite3 *db, char **pzErrMsg, const void *pApi );
inline void die( const std::string &m ) { std::cout << "BROKEN: " << m << std::endl; exit( 1 ); }
inline void sql( const std::string &path, const std::string &s )
{
  sqlite3 *db = nullptr;
  if ( sqlite3_open( path.c_str(), &db ) ) { std::cerr << "open " << path << std::endl; exit( 9 ); }
  char *e = nullptr;
  sqlite3_gpkg_auto_init( db, nullptr, nullptr );
  if ( sqlite3_exec( db, s.c_str(), 0, 0, &e ) ) { std::cerr << "sql: " << e << ": " << s << std::endl; exit( 9 ); }
  sqlite3_close( db );
}
inline std::string query( const std::string &path, const std::string &s )
{
  sqlite3 *db = nullptr;
  if ( sqlite3_open( path.c_str(), &db ) ) { std::cerr << "open " << path << std::endl; exit( 9 ); }
  sqlite3_gpkg_auto_init( db, nullptr, nullptr );
  sqlite3_stmt *st = nullptr;
  if ( sqlite3_prepare_v2( db, s.c_str(), -1, &st, 0 ) ) { std::cerr << sqlite3_errmsg( db ) << std::endl; exit( 9 ); }
  std::string r;
  while ( sqlite3_step( st ) == SQLITE_ROW )
  {
    for ( int i = 0; i < sqlite3_column_count( st ); ++i )
    {
      int t = sqlite3_column_type( st, i );
      r += "IRTBN"[t - 1];
      const char *p = ( const char * ) ( t == SQLITE_BLOB ? sqlite3_column_blob( st, i ) : sqlite3_column_text( st, i ) );
      if ( p ) r += std::string( p, sqlite3_column_bytes( st, i ) );
      r += "|";
    }
    r += "\n";
  }
  sqlite3_finalize( st );
  sqlite3_close( db );
  return r;
}
inline std::string slurp( const std::string &p ) { std::ifstream f( p, std::ios::binary ); std::stringstream s; s << f.rdbuf(); return s.str(); }
inline void spit( const std::string &p, const std::string &b ) { std::ofstream f( p, std::ios::binary ); f << b; }
inline bool exists( const std::string &p ) { struct stat s; return stat( p.c_str(), &s ) == 0; }
inline void same( const std::string &what, const std::string &got, const std::string &want ) { if ( got != want ) die( what + ":\n" + got + "instead of\n" + want ); }
inline void ok( const std::string &what, int rc ) { if ( rc != GEODIFF_SUCCESS ) die( what + " failed" ); }
inline void fails( const std::string &what, int rc ) { if ( rc == GEODIFF_SUCCESS ) die( what + " succeeded" ); }
inline std::string ls( const std::string &dir )
{
  std::string r; std::vector<std::string> v;
  DIR *d = opendir( dir.c_str() );
  while ( dirent *e = readdir( d ) ) if ( e->d_name[0] != '.' ) v.push_back( e->d_name );
  closedir( d );
  for ( size_t i = 0; i < v.size(); ++i ) for ( size_t k = i + 1; k < v.size(); ++k ) if ( v[k] < v[i] ) v[i].swap( v[k] );
  for ( auto &s : v ) r += s + "\n";
  return r;
}
//! creates base.db and mod.db: the schema and rows, and the edits on top of them
inline void two( const std::string &ddl, const std::string &edits ) { unlink( "base.db" ); unlink( "mod.db" ); sql( "base.db", ddl ); spit( "mod.db", slurp( "base.db" ) ); sql( "mod.db", edits ); }
