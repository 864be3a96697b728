// P17: dumps and copies between drivers. All states of all table families of both drivers: a dump is
// one insert per row and rebuilds the content, a copy has the same tables, rows, keys, geometry
// metadata and automatic keys, or the call fails; a fault at every call to the server.
#include "space.h"
#include "pgspace.h"
#include <unistd.h>
using namespace mc;
using pgspace::must;

static const char *SRC = "gd_src", *DST = "Gd \"Dst'";
static const char *CONN = "host=fake";

static std::string low( std::string s ) { for ( char &c : s ) if ( c >= 'A' && c <= 'Z' ) c += 32; return s; }
static void released( const Ctx &x, const std::string &how )
{
  x.check( !fakepq::inTransaction(), "transaction-open", how + " left a transaction open" );
  x.check( fakepq::openResults() == 0 && fakepq::openConnections() == 0, "not-released", how + fmt( " did not release %d results, %d connections", fakepq::openResults(), fakepq::openConnections() ) );
}

// ---- what a SQLite file holds
struct SCol { std::string name, type; bool notNull, key, geom = false; std::string gtype; int srid = 0, z = 0, m = 0; };
struct STab { std::string name; std::vector<SCol> cols; std::vector<Row> rows; };
static std::map<std::string, STab> readSqlite( const std::string &path )
{
  std::map<std::string, STab> r;
  Db d( path );
  bool gpkg = !d.query( "SELECT 1 FROM sqlite_master WHERE name='gpkg_geometry_columns'" ).empty();
  for ( auto &w : d.query( "SELECT name FROM sqlite_master WHERE type='table' AND sql NOT LIKE 'CREATE VIRTUAL%' AND name NOT LIKE 'sqlite!_%' ESCAPE '!' AND name NOT LIKE 'rtree!_%' ESCAPE '!' AND name NOT LIKE 'gpkg!_ogr!_contents%' ESCAPE '!'" ) )
  {
    STab t;
    t.name = w[0].s;
    std::string q;
    for ( auto &c : d.query( "PRAGMA table_info(" + quoteId( t.name ) + ")" ) )
    {
      SCol k{ c[1].s, c[2].s, c[3].i != 0, c[5].i != 0 };
      if ( gpkg )
        for ( auto &g : d.query( "SELECT geometry_type_name, srs_id, z, m FROM gpkg_geometry_columns WHERE table_name=" + sqlLit( T( t.name ) ) + " AND column_name=" + sqlLit( T( k.name ) ) ) )
        { k.geom = true; k.gtype = g[0].s; k.srid = g[1].i; k.z = g[2].i; k.m = g[3].i; }
      t.cols.push_back( k );
      q += ( q.empty() ? "" : "," ) + quoteId( k.name );
    }
    t.rows = d.query( "SELECT " + q + " FROM " + quoteId( t.name ) );
    std::sort( t.rows.begin(), t.rows.end() );
    r[t.name] = t;
  }
  return r;
}

// ---- does a PostgreSQL value show a SQLite value?
static bool timestamp( const std::string &s, std::string &out )
{
  int n = 0, y, mo, da, h, mi, se;
  if ( sscanf( s.c_str(), "%4d-%2d-%2d%n", &y, &mo, &da, &n ) != 3 || n != 10 ) return false;
  h = mi = se = 0;
  std::string frac, rest = s.substr( 10 );
  if ( !rest.empty() )
  {
    n = 0;
    if ( ( rest[0] != 'T' && rest[0] != ' ' ) || sscanf( rest.c_str() + 1, "%2d:%2d:%2d%n", &h, &mi, &se, &n ) != 3 || n != 8 ) return false;
    rest = rest.substr( 9 );
    if ( !rest.empty() && rest[0] == '.' )
    {
      n = std::min( rest.size(), rest.find_first_not_of( "0123456789", 1 ) );
      frac = rest.substr( 1, n - 1 );
      if ( frac.size() > 6 ) return false;
      while ( !frac.empty() && frac.back() == '0' ) frac.pop_back();
      rest = rest.substr( n );
    }
    if ( rest != "Z" && !rest.empty() ) return false;
  }
  out = fmt( "%04d-%02d-%02d %02d:%02d:%02d.%s", y, mo, da, h, mi, se, frac.c_str() );
  return true;
}
static std::string wkbOf( const std::string &gp )
{
  static const int n[] = { 0, 32, 48, 48, 64, 0, 0, 0 };
  size_t e = gp.size() > 3 ? 8 + n[( gp[3] >> 1 ) & 7] : 0;
  return gp.size() >= e ? gp.substr( e ) : gp;
}
static bool shows( const Val &v, const fakepq::Cell &c, const std::string &type, const SCol &sc )
{
  if ( v.t == Val::Null || c.null ) return v.t == Val::Null && c.null;
  const std::string &s = c.v;
  if ( type == "integer" || type == "bigint" || type == "smallint" )
    return v.t == Val::Int ? s == std::to_string( v.i ) : v.t == Val::Real ? v.d == ( double )atoll( s.c_str() ) : v.s == s;
  if ( type == "double precision" || type == "real" )
  {
    double d = num( s );
    return v.t == Val::Real ? v.d == d : v.t == Val::Int ? ( int64_t )d == v.i && std::fabs( d ) < 9.2e18 : v.t == Val::Text && num( v.s ) == d;
  }
  if ( type == "boolean" ) return v.t == Val::Int ? s == ( v.i == 1 ? "t" : v.i == 0 ? "f" : "?" ) : v.t == Val::Text;
  if ( type.compare( 0, 9, "timestamp" ) == 0 ) { std::string a, b; return v.t == Val::Text && timestamp( v.s, a ) && timestamp( s, b ) && a == b; }
  if ( type.compare( 0, 8, "geometry" ) == 0 )
  {
    std::string b = unhex( s.substr( 2 ) );
    int srid;
    if ( b.size() < 4 || v.t != Val::Blob ) return false;
    memcpy( &srid, b.data(), 4 );
    return srid == sc.srid && b.substr( 4 ) == wkbOf( v.s );
  }
  if ( type == "bytea" ) return ( v.t == Val::Blob || v.t == Val::Text ) && unhex( s.substr( 2 ) ) == v.s;
  if ( v.t == Val::Int ) return s == std::to_string( v.i );
  if ( v.t == Val::Real ) return num( s ) == v.d;
  return v.t == Val::Text && v.s == s;
}
//! 2 the value has a natural counterpart in the column of the copy, 1 maybe, 0 none
static int fits( const Val &v, const SCol &c )
{
  if ( v.t == Val::Null ) return 2;
  std::string ty = low( c.type );
  auto is = [&]( std::initializer_list<const char *> l ) { for ( const char *s : l ) if ( ty == s ) return true; return false; };
  if ( c.geom )
  {
    if ( v.t != Val::Blob || v.s.size() < 13 || v.s.compare( 0, 2, "GP" ) ) return 0;
    static const std::vector<std::string> NAMES = { "", "point", "linestring", "polygon" };
    std::string w = wkbOf( v.s );
    uint32_t t;
    memcpy( &t, w.data() + 1, 4 );
    if ( t % 1000 == 1 && w.size() != 5 + 8 * ( 2 + ( t / 1000 == 3 ? 2 : t / 1000 ? 1 : 0 ) ) ) return 1;
    bool known = c.srid == 4326 || c.srid == 3857;
    return t % 1000 < NAMES.size() && low( c.gtype ) == NAMES[t % 1000] && t / 1000 == ( uint32_t )( c.z + 2 * c.m ) && known && !c.m ? 2 : 1;
  }
  if ( is( { "int", "integer", "smallint", "mediumint", "bigint", "tinyint" } ) ) return v.t == Val::Int && v.i >= INT32_MIN && v.i <= INT32_MAX ? 2 : 1;
  if ( is( { "double", "real", "float", "double precision" } ) ) return v.t == Val::Real ? 2 : 1;
  if ( is( { "bool", "boolean" } ) ) return v.t == Val::Int && ( v.i == 0 || v.i == 1 ) ? 2 : 1;
  if ( is( { "blob" } ) ) return v.t == Val::Blob ? 2 : 1;
  std::string ts;
  if ( is( { "datetime" } ) ) return v.t == Val::Text && timestamp( v.s, ts ) ? 2 : 1;
  return v.t == Val::Text && v.s.find( '\0' ) == std::string::npos ? 2 : 1;
}

//! The copy in the PostgreSQL schema shows the content of the SQLite file
static void compareWithPg( const Ctx &x, const std::map<std::string, STab> &src, const char *schema )
{
  std::set<std::string> have, want;
  for ( auto &n : fakepq::tables( schema ) ) have.insert( n );
  for ( auto &t : src ) if ( t.first.compare( 0, 5, "gpkg_" ) ) want.insert( t.first );   // GeoPackage's own are not copied (documented)
  std::string names;
  for ( auto &n : have ) names += " " + n;
  x.check( have == want, "tables", "the copy has the tables" + names );
  for ( auto &n : want )
  {
    const STab &t = src.at( n );
    auto cols = fakepq::columns( schema, n );
    x.check( cols.size() == t.cols.size(), "columns", fmt( "table %s has %zu columns", n.c_str(), cols.size() ) );
    std::string q;
    long long mx = 0;
    int keys = 0;
    for ( auto &c : t.cols ) keys += c.key;
    for ( size_t i = 0; i < cols.size(); ++i )
    {
      x.check( cols[i].name == t.cols[i].name, "columns", "column " + cols[i].name + " instead of " + t.cols[i].name );
      x.check( cols[i].key == t.cols[i].key, "key", "column " + cols[i].name + ( cols[i].key ? " is" : " is not" ) + " in the key" );
      x.check( ( cols[i].notNull || cols[i].key ) == ( t.cols[i].notNull || t.cols[i].key ), "not-null", "column " + cols[i].name + " differs by NOT NULL" );
      if ( keys == 1 && t.cols[i].key && low( t.cols[i].type ) == "integer" ) x.check( cols[i].serial, "automatic-key", "no automatic key in column " + cols[i].name );
      q += ( i ? "," : "" ) + quoteId( cols[i].name );
    }
    auto got = fakepq::query( "SELECT " + q + " FROM " + quoteId( schema ) + "." + quoteId( n ) );
    std::vector<bool> used( got.size(), false );
    for ( auto &r : t.rows )
    {
      bool found = false;
      for ( size_t g = 0; g < got.size() && !found; ++g )
      {
        bool same = !used[g];
        for ( size_t i = 0; i < cols.size() && same; ++i ) same = shows( r[i], got[g][i], cols[i].type, t.cols[i] );
        if ( same ) used[g] = found = true;
      }
      std::string all;
      for ( auto &w : got ) { all += "("; for ( auto &c : w ) all += ( c.null ? "NULL" : c.v ) + " "; all += ") "; }
      x.check( found, "content", "row " + show( r ) + " of table " + n + " is not in the copy: " + all );
    }
    x.check( got.size() == t.rows.size(), "content", fmt( "table %s has %zu rows instead of %zu", n.c_str(), got.size(), t.rows.size() ) );
    for ( size_t i = 0; i < cols.size(); ++i )
      if ( cols[i].serial )
      {
        for ( auto &r : t.rows ) if ( r[i].t == Val::Int ) mx = std::max( mx, ( long long )r[i].i );
        long long nx = fakepq::nextval( std::string( schema ) + "." + n + "_" + cols[i].name + "_seq" );
        x.check( nx > mx, "sequence", fmt( "the next automatic key of table %s is %lld while %lld is in use", n.c_str(), nx, mx ) );
      }
  }
}

// ---- SQLite families beyond the common space
static std::vector<space::Family> moreFamilies()
{
  std::vector<space::Family> r;
  std::vector<Val> V = space::allValues();
  V.push_back( T( "2020-07-13T16:17:54Z" ) );
  V.push_back( T( "2020-07-13T04:17:54Z" ) );
  V.push_back( T( "2020-07-13" ) );
  V.push_back( T( "2020-07-13T16:17:54.123Z" ) );
  for ( const char *s : { "it's", "b\\s", "\\", "\\x41", "\\'", "Infinity", "100%s%d" } ) { V.push_back( T( s ) ); V.push_back( B( s ) ); }
  for ( const char *ty : { "INT", "SMALLINT", "BIGINT", "TINYINT", "INTEGER", "Integer", "MEDIUMINT", "DOUBLE", "FLOAT", "REAL", "Double Precision", "BOOL", "Boolean", "TEXT", "TEXT(10)", "VARCHAR(5)", "VARCHAR", "BLOB", "DATETIME", "DATE", "NUMERIC", "" } )
  {
    space::Family f;
    f.name = std::string( "declared " ) + ty;
    f.setup = std::string( "CREATE TABLE t(id INTEGER PRIMARY KEY, v " ) + ty + ", w TEXT NOT NULL);\n";
    std::vector<Row> pay;
    for ( auto &v : V ) pay.push_back( { v, T( "w" ) } );
    f.tables = { { "t", { "id", "v", "w" }, { 1, 0, 0 }, space::ints( { 5 } ), pay } };
    r.push_back( f );
  }
  // keys that are not automatic
  for ( const char *ty : { "INT PRIMARY KEY", "INTEGER PRIMARY KEY DESC", "TEXT PRIMARY KEY", "BIGINT PRIMARY KEY NOT NULL" } )
  {
    space::Family f;
    f.name = std::string( "key " ) + ty;
    f.setup = std::string( "CREATE TABLE t(v TEXT, k " ) + ty + ");\n";
    bool text = !strncmp( ty, "TEXT", 4 );
    std::vector<Row> k = text ? space::one( { T( "a" ), T( "A" ), T( "it's" ) } ) : space::ints( { 1, -7, 2147483647 } );
    f.tables = { { "t", { "v", "k" }, { 0, 1 }, k, space::one( { T( "x" ), N() } ) } };
    r.push_back( f );
  }
  using namespace pgspace;
  auto wkb = []( uint32_t type, int dim ) -> std::string
  {
    auto pt = [&]( double a ) { std::string s; for ( int i = 0; i < ( dim == 0 ? 2 : dim == 3 ? 4 : 3 ); ++i ) s += f64( a + i ); return s; };
    auto head = [&]( uint32_t t ) { return std::string( "\x01", 1 ) + u32( t + 1000 * dim ); };
    std::string p = head( 1 ) + pt( 1 ), l = head( 2 ) + u32( 2 ) + pt( 1 ) + pt( 5 ), g = head( 3 ) + u32( 1 ) + u32( 4 ) + pt( 0 ) + pt( 1 ) + pt( 3 ) + pt( 0 );
    switch ( type )
    {
      case 1: return p;
      case 2: return l;
      case 3: return g;
      case 4: return head( 4 ) + u32( 1 ) + p;
      case 5: return head( 5 ) + u32( 1 ) + l;
      case 6: return head( 6 ) + u32( 1 ) + g;
      default: return head( 7 ) + u32( 1 ) + p;
    }
  };
  static const char *NAMES[] = { "GEOMETRY", "POINT", "LINESTRING", "POLYGON", "MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON", "GEOMETRYCOLLECTION" };
  for ( int type = 0; type < 8; ++type )
    for ( int dim = 0; dim < 4; ++dim )
      for ( int srid : { 4326, 3857, -1, 0, 9999 } )
        for ( int mixed = 0; mixed < 2; ++mixed )
        {
          if ( ( mixed && ( type != 1 || dim ) ) || ( type > 3 && srid != 4326 ) ) continue;
          space::Family f;
          f.name = fmt( "layer %s%s %d%s", NAMES[type], dim == 1 ? " Z" : dim == 2 ? " M" : dim == 3 ? " ZM" : "", srid, mixed ? " next to another" : "" );
          f.setup = "CREATE TABLE gpkg_contents(table_name TEXT NOT NULL PRIMARY KEY, data_type TEXT NOT NULL, identifier TEXT, srs_id INTEGER);"
                    "CREATE TABLE gpkg_spatial_ref_sys(srs_name TEXT NOT NULL, srs_id INTEGER NOT NULL PRIMARY KEY, organization TEXT NOT NULL, organization_coordsys_id INTEGER NOT NULL, definition TEXT NOT NULL, description TEXT);"
                    "INSERT INTO gpkg_spatial_ref_sys VALUES('u',-1,'NONE',-1,'undefined',''),('g',0,'NONE',0,'undefined',''),('w',4326,'EPSG',4326,'GEOGCS','');"
                    "CREATE TABLE gpkg_geometry_columns(table_name TEXT NOT NULL, column_name TEXT NOT NULL, geometry_type_name TEXT NOT NULL, srs_id INTEGER NOT NULL, z TINYINT NOT NULL, m TINYINT NOT NULL, PRIMARY KEY (table_name, column_name));"
                    "CREATE TABLE \"my Layer\"(fid INTEGER PRIMARY KEY AUTOINCREMENT NOT NULL, geom " + std::string( NAMES[type] ) + ", name TEXT);";
          if ( srid != 4326 && srid > 0 ) f.setup += fmt( "INSERT INTO gpkg_spatial_ref_sys VALUES('o',%d,'EPSG',%d,'x','');", srid, srid );
          f.setup += fmt( "INSERT INTO gpkg_geometry_columns VALUES('my Layer','geom','%s',%d,%d,%d); INSERT INTO gpkg_contents VALUES('my Layer','features','my Layer',%d);\n", NAMES[type], srid, dim & 1, dim >> 1, srid );
          if ( mixed ) f.setup += "CREATE TABLE other(id INTEGER PRIMARY KEY, shape LINESTRING); INSERT INTO other VALUES(1, x'" + hex( gpb( wkb( 2, 0 ), 3857 ) ) + "'); INSERT INTO gpkg_geometry_columns VALUES('other','shape','LINESTRING',3857,0,0); INSERT OR IGNORE INTO gpkg_spatial_ref_sys VALUES('o',3857,'EPSG',3857,'x',''); CREATE TABLE plain(k TEXT PRIMARY KEY, v); INSERT INTO plain VALUES('a','b');\n";
          std::vector<Row> pay = { { N(), T( "a" ) } };
          for ( int t = 1; t <= 7; ++t )
            if ( t == type || ( !type && t < 3 ) || ( type == 1 && t == 3 ) )
              for ( int env = 0; env <= ( t == type ? 4 : 0 ); ++env ) pay.push_back( { B( gpb( wkb( t, dim ), srid, env ) ), T( "a" ) } );
          if ( type == 1 ) { pay.push_back( { B( "GP" ), T( "a" ) } ); pay.push_back( { T( "POINT(1 2)" ), T( "a" ) } ); pay.push_back( { B( gpb( wkb( 1, dim ), srid ).substr( 0, 20 ) ), N() } ); }
          f.tables = { { "my Layer", { "fid", "geom", "name" }, { 1, 0, 0 }, space::ints( { 1, 9 } ), pay } };
          r.push_back( f );
        }
  return r;
}

struct SqlFam { const space::Family *f; };
static std::vector<space::Family> SF;
static std::vector<pgspace::Fam> PF, PG;     // as they are; each table with a geometry

static void withGeometry( std::vector<pgspace::Fam> &v )
{
  for ( auto &f : v )
    for ( auto &t : f.tabs )
    {
      bool has = false;
      for ( auto &c : t.cols ) has |= pgspace::isGeom( c );
      if ( has ) continue;
      t.cols.push_back( { "geo", "geometry(Point,4326)" } );
      int i = 0;
      for ( auto &p : t.payloads ) { ++i; p.push_back( i % 3 == 0 ? N() : B( pgspace::gpb( pgspace::wkbPoint( i, -i ), 4326 ) ) ); }
    }
}
//! Types that the driver does not (fully) support
static std::vector<pgspace::Fam> oddFamilies()
{
  std::vector<pgspace::Fam> r;
  using namespace pgspace;
  auto one = [&]( const char *name, const char *pg, std::vector<Val> v )
  {
    Tab t;
    t.name = "t";
    t.cols = { { "fid", "integer" }, { "v", pg }, { "geo", "geometry(Point,4326)" } };
    t.pk = { 0 };
    t.keys = { { I( 1 ) } };
    for ( auto &x : v ) t.payloads.push_back( { x, B( gpb( wkbPoint( 1, 2 ), 4326 ) ) } );
    r.push_back( { name, { t } } );
  };
  one( "bigint", "bigint", { N(), I( 1 ), I( 3000000000LL ), I( INT64_MAX ) } );
  one( "smallint", "smallint", { N(), I( 1 ), I( -32768 ) } );
  one( "varchar", "varchar(10)", { N(), T( "a" ), T( "it's" ) } );
  return r;
}

enum { DumpSql, SqlToPg, SqlToSql, DumpPg, PgToSql, PgToSqlPlain, PgToPg, PgOdd, Faults, Existing, Wrong };
static const std::vector<const char *> FAULTOPS = { "copy from SQLite", "copy to SQLite", "copy between schemas", "dump" };
static const int MAXCALLS = 90;

int main( int argc, char **argv )
{
  return checkMain( argc, argv, []( const Opts & o )
  {
    SF = space::families( o.thorough );
    for ( auto &f : moreFamilies() ) SF.push_back( f );
    PF = pgspace::families( o.thorough );
    PG = PF;
    withGeometry( PG );
    static const std::vector<pgspace::Fam> ODD = oddFamilies();
    struct Part { int kind; size_t fam; uint64_t n; };
    static std::vector<Part> P;
    P.clear();
    uint64_t ns = 0, np = 0;
    for ( size_t i = 0; i < SF.size(); ++i )
    {
      uint64_t n = SF[i].nstates();
      ns += n;
      for ( int k : { DumpSql, SqlToPg, SqlToSql } )
        if ( k != SqlToPg || SF[i].rowCopies < 10000 ) P.push_back( { k, i, n } ); // the stand-in's server is slow
    }
    for ( size_t i = 0; i < PF.size(); ++i )
    {
      uint64_t n = PF[i].states();
      np += n;
      for ( int k : { DumpPg, PgToSql, PgToSqlPlain, PgToPg } ) P.push_back( { k, i, n } );
    }
    for ( size_t i = 0; i < ODD.size(); ++i ) P.push_back( { PgOdd, i, ODD[i].states() * 2 } );
    P.push_back( { Faults, 0, FAULTOPS.size() * MAXCALLS * 4 } );
    P.push_back( { Existing, 0, 24 } );
    P.push_back( { Wrong, 0, 30 } );
    Check c;
    c.property = "P17";
    c.odd = true;
    c.rule = "a state is the content of a database of one of the drivers, a transition a dump or a copy; dumps are decoded and applied again, copies are compared table by table, value by value, with the source";
    c.bounds = { fmt( "all %llu states of %zu SQLite families: dumped, copied to PostgreSQL (those of up to 3000 rows), copied to SQLite", ( unsigned long long ) ns, SF.size() ),
                 fmt( "all %llu states of %zu PostgreSQL families: dumped, copied to SQLite with and without geometries and back, copied to another schema", ( unsigned long long ) np, PF.size() ),
                 "all values of the alphabet in 22 declared column types; layers of all geometry types, dimensions, envelopes, five reference systems",
                 fmt( "%zu operations with an error, a missing result, a broken or refused connection at each call to the server", FAULTOPS.size() ),
                 "destinations that exist with other content; sources that are missing or unreadable" };
    c.assumptions = { "the PostgreSQL server is the stand-in of P16; libgpkg is a stand-in", "user tables are not named gpkg_*", "timestamps have at most 6 digits of a second" };
    for ( auto &p : P ) c.count += p.n;
    struct Case { int kind; size_t fam; uint64_t i; };
    auto get = []( uint64_t i )
    {
      for ( auto &p : P )
      {
        if ( i < p.n ) return Case{ p.kind, p.fam, i };
        i -= p.n;
      }
      return Case{ 0, 0, 0 };
    };
    c.describe = [ = ]( uint64_t idx )
    {
      Case k = get( idx );
      static const char *NAMES[] = { "dump of SQLite", "copy SQLite to PostgreSQL", "copy SQLite to SQLite", "dump of PostgreSQL", "copy PostgreSQL to SQLite and back", "copy PostgreSQL to SQLite, family as it is", "copy PostgreSQL to PostgreSQL", "other types", "fault", "existing destination", "wrong arguments" };
      std::string s = std::string( NAMES[k.kind] ) + ": ";
      if ( k.kind <= SqlToSql ) return s + SF[k.fam].name + "\n" + SF[k.fam].setup.substr( 0, 1000 ) + SF[k.fam].show( k.i );
      if ( k.kind <= PgToPg ) { auto &f = k.kind == PgToSql ? PG[k.fam] : PF[k.fam]; return s + f.name + "\n" + mc::show( pgspace::stateOf( f, k.i ) ); }
      if ( k.kind == PgOdd ) return s + ODD[k.fam].name;
      if ( k.kind == Faults ) { Dig d( k.i ); int op = d.take( FAULTOPS.size() ), how = d.take( 4 ) + 1; return s + fmt( "%s, call %llu: kind %d", FAULTOPS[op], ( unsigned long long )d.v, how ); }
      return s + fmt( "case %llu", ( unsigned long long )k.i );
    };
    c.run = [ = ]( const Ctx & x )
    {
      Case k = get( x.idx );
      std::string src = x.p( "src.db" ), dst = x.p( "dst.db" ), cs = x.p( "cs" ), err;
      for ( auto &p : { src, dst, cs } ) for ( const char *e : { "", "-journal", "-wal", "-shm" } ) unlink( ( p + e ).c_str() );
      struct Stop { ~Stop() { fakepq::stop(); } } stop;
      fakepq::start();
      auto files = [&]() { std::string r; for ( auto &n : listDir( x.dir ) ) r += n + " "; return r; };
      auto debris = [&]() { x.check( listDir( x.dir + ".tmp" ).empty(), "debris", "temporary files are left" ); };
      if ( k.kind <= SqlToSql )
      {
        const space::Family &f = SF[k.fam];
        const std::string *im = space::image( f, k.i );
        if ( !im ) { x.outcome( "state excluded by its own constraints" ); return; }
        writeFile( src, *im );
        auto S = readSqlite( src );
        x.state( f.name + ":" + std::to_string( k.i ) );
        x.transition();
        x.trace();
        if ( k.kind == DumpSql )
        {
          int rc = GEODIFF_dumpData( "sqlite", k.i % 2 ? "" : nullptr, src.c_str(), cs.c_str() );
          x.check( rc == GEODIFF_SUCCESS, "dump-failed", fmt( "dumpData returned %d: ", rc ) + x.lastLog() );
          x.check( readFile( src ) == *im, "source-changed", "dumpData changed the database" );
          CSet got, want;
          x.check( decode( readFile( cs ), got, &err ), "undecodable", "the dump is not in format: " + err );
          for ( auto &t : S )
          {
            CGroup g;
            g.table.name = t.first;
            bool pk = false;
            for ( auto &q : t.second.cols ) { g.table.pk.push_back( q.key ); pk |= q.key; }
            for ( auto &r : t.second.rows ) { CEntry e; e.op = OpInsert; e.n = r; g.entries.push_back( e ); }
            if ( pk && !g.entries.empty() ) want.push_back( g );
          }
          x.check( canon( got ) == canon( want ), "dump", "the dump is\n" + show( got ) + "instead of\n" + show( want ) );
          // into the emptied database
          writeFile( dst, *im );
          {
            Db d( dst );
            for ( auto &t : S )
            {
              bool pk = false;
              for ( auto &q : t.second.cols ) pk |= q.key;
              if ( pk ) d.exec( "DELETE FROM " + quoteId( t.first ) );
            }
          }
          rc = GEODIFF_applyChangeset( dst.c_str(), cs.c_str() );
          x.check( rc == GEODIFF_SUCCESS, "apply-failed", fmt( "applying the dump returned %d: ", rc ) + x.lastLog() );
          std::string d = diffContent( contentOf( src, NoSequence ), contentOf( dst, NoSequence ) );
          x.check( d.empty(), "dump-content", "applying the dump to the emptied database: " + d );
          x.outcome( "dumped" );
          return;
        }
        int yes = 2;
        std::string why;
        for ( auto &t : S )
        {
          if ( t.first.compare( 0, 5, "gpkg_" ) == 0 ) continue;
          bool pk = false;
          for ( auto &q : t.second.cols ) pk |= q.key;
          int w = pk ? 2 : 1;
          for ( auto &q : t.second.cols ) if ( q.geom && ( q.m || ( q.srid != 4326 && q.srid != 3857 ) || ( q.gtype != "POINT" && q.gtype != "LINESTRING" && q.gtype != "POLYGON" ) ) ) w = 1;
          for ( auto &r : t.second.rows ) for ( size_t i = 0; i < r.size(); ++i ) w = std::min( w, fits( r[i], t.second.cols[i] ) );
          if ( w < yes ) why = t.first;
          yes = std::min( yes, w );
        }
        if ( k.kind == SqlToPg )
        {
          int rc = GEODIFF_makeCopy( "sqlite", k.i % 2 ? "" : nullptr, src.c_str(), "postgres", CONN, DST );
          released( x, "makeCopy" );
          debris();
          x.check( readFile( src ) == *im, "source-changed", "makeCopy changed the source" );
          if ( rc == GEODIFF_SUCCESS ) compareWithPg( x, S, DST );
          else x.check( yes < 2, "copy-failed", fmt( "makeCopy returned %d: ", rc ) + x.lastLog() );
          x.check( yes || rc != GEODIFF_SUCCESS, "misfit", "a value that does not fit is copied" );
          x.outcome( rc == GEODIFF_SUCCESS ? "copied to PostgreSQL" : "refused" );
          if ( rc == GEODIFF_SUCCESS ) x.nontrivial( f.name );
          return;
        }
        int rc = GEODIFF_makeCopy( "sqlite", "", src.c_str(), "sqlite", "", dst.c_str() );
        debris();
        x.check( readFile( src ) == *im, "source-changed", "makeCopy changed the source" );
        if ( rc == GEODIFF_SUCCESS )
        {
          auto D = readSqlite( dst );
          for ( auto &t : S )
          {
            if ( t.first.compare( 0, 5, "gpkg_" ) == 0 ) continue;
            x.check( D.count( t.first ) && D[t.first].rows == t.second.rows, "content", "table " + t.first + " of the copy differs" );
            for ( size_t i = 0; i < t.second.cols.size(); ++i ) x.check( D[t.first].cols[i].name == t.second.cols[i].name && D[t.first].cols[i].key == t.second.cols[i].key, "columns", "columns of table " + t.first + " of the copy differ" );
          }
        }
        x.outcome( rc == GEODIFF_SUCCESS ? "copied to SQLite" : "refused" );
        return;
      }
      if ( k.kind == DumpPg || k.kind == PgToPg )
      {
        const pgspace::Fam &f = PF[k.fam];
        pgspace::State s = pgspace::stateOf( f, k.i ), none;
        pgspace::pgSetup( SRC, f, s );
        x.state( "pg " + f.name + ":" + std::to_string( k.i ) );
        x.transition();
        x.trace();
        bool nokey = false;
        for ( auto &t : f.tabs ) { none[t.name]; nokey |= t.pk.empty(); }
        if ( k.kind == DumpPg )
        {
          int rc = GEODIFF_dumpData( "postgres", CONN, SRC, cs.c_str() );
          released( x, "dumpData" );
          x.check( rc == GEODIFF_SUCCESS, "dump-failed", fmt( "dumpData returned %d: ", rc ) + x.lastLog() );
          CSet got, want = pgspace::difference( f, none, s );
          x.check( decode( readFile( cs ), got, &err ), "undecodable", "the dump is not in format: " + err );
          x.check( canon( got ) == canon( want ), "dump", "the dump is\n" + show( got ) + "instead of\n" + show( want ) );
          x.check( pgspace::pgRead( SRC, f ) == s, "source-changed", "dumpData changed the database" );
          pgspace::pgTables( DST, f );
          rc = GEODIFF_applyChangesetEx( "postgres", CONN, DST, cs.c_str() );
          released( x, "applyChangesetEx" );
          x.check( rc == GEODIFF_SUCCESS, "apply-failed", fmt( "applying the dump returned %d: ", rc ) + x.lastLog() );
          for ( auto &t : f.tabs ) if ( t.pk.empty() ) s[t.name].clear();
          pgspace::State g = pgspace::pgRead( DST, f );
          x.check( g == s, "dump-content", "the content after applying the dump is\n" + mc::show( g ) );
          x.outcome( "dumped" );
          return;
        }
        int rc = GEODIFF_makeCopy( "postgres", CONN, SRC, "postgres", CONN, DST );
        released( x, "makeCopy" );
        debris();
        x.check( pgspace::pgRead( SRC, f ) == s, "source-changed", "makeCopy changed the source" );
        x.check( rc == GEODIFF_SUCCESS || nokey, "copy-failed", fmt( "makeCopy returned %d: ", rc ) + x.lastLog() );
        if ( rc == GEODIFF_SUCCESS )
        {
          pgspace::State g = pgspace::pgRead( DST, f );
          x.check( g == s, "content", "the copy is\n" + mc::show( g ) + "instead of\n" + mc::show( s ) );
          for ( auto &t : f.tabs )
          {
            auto a = fakepq::columns( SRC, t.name ), b = fakepq::columns( DST, t.name );
            x.check( a.size() == b.size(), "columns", "columns of table " + t.name + " of the copy differ" );
            for ( size_t i = 0; i < a.size(); ++i )
              x.check( a[i].name == b[i].name && a[i].type == b[i].type && a[i].key == b[i].key && a[i].serial == b[i].serial && ( a[i].notNull || a[i].key ) == ( b[i].notNull || b[i].key ), "columns", "column " + a[i].name + " of the copy differs" );
            long long mx = 0;
            if ( t.serial ) for ( auto &r : s[t.name] ) mx = std::max( mx, ( long long )r[t.pk[0]].i );
            if ( t.serial ) x.check( fakepq::nextval( pgspace::seqName( DST, t ) ) > mx, "sequence", "the next automatic key of the copy is in use" );
          }
          x.check( fakepq::tables( DST ).size() == f.tabs.size(), "tables", "the copy has other tables" );
          rc = GEODIFF_createChangesetEx( "postgres", CONN, SRC, DST, cs.c_str() );
          x.check( rc == GEODIFF_SUCCESS && readFile( cs ).empty(), "copy-differs", "createChangesetEx finds differences between source and copy" );
        }
        x.outcome( rc == GEODIFF_SUCCESS ? "copied to another schema" : "refused" );
        return;
      }
      if ( k.kind == PgToSql || k.kind == PgToSqlPlain || k.kind == PgOdd )
      {
        const pgspace::Fam &f = k.kind == PgToSql ? PG[k.fam] : k.kind == PgOdd ? ODD[k.fam] : PF[k.fam];
        pgspace::State s = pgspace::stateOf( f, k.kind == PgOdd ? k.i / 2 : k.i );
        pgspace::pgSetup( SRC, f, s );
        x.state( fmt( "pg%d ", k.kind ) + f.name + ":" + std::to_string( k.i ) );
        x.transition( 2 );
        x.trace();
        bool either = k.kind == PgOdd, refuse = false;
        std::set<std::string> lower;
        for ( auto &t : f.tabs )
        {
          bool geo = false;
          for ( auto &q : t.cols ) geo |= pgspace::isGeom( q );
          either |= t.pk.empty() || !lower.insert( low( t.name ) ).second || !geo;
          std::set<std::string> lc;
          for ( auto &q : t.cols ) either |= !lc.insert( low( q.name ) ).second;
          ( void )refuse;
        }
        if ( k.kind == PgOdd && k.i % 2 )
        {
          // the types of the server that the format cannot carry are refused, never altered
          int rc = GEODIFF_makeCopy( "postgres", CONN, SRC, "postgres", CONN, DST );
          released( x, "makeCopy" );
          if ( rc == GEODIFF_SUCCESS ) { pgspace::State g = pgspace::pgRead( DST, f ); x.check( g == s, "content", "the copy is\n" + mc::show( g ) ); }
          x.outcome( rc == GEODIFF_SUCCESS ? "copied to another schema" : "refused" );
          return;
        }
        int rc = GEODIFF_makeCopy( "postgres", CONN, SRC, "sqlite", "", dst.c_str() );
        released( x, "makeCopy" );
        debris();
        x.check( pgspace::pgRead( SRC, f ) == s, "source-changed", "makeCopy changed the source" );
        x.check( rc == GEODIFF_SUCCESS || either, "copy-failed", fmt( "makeCopy returned %d: ", rc ) + x.lastLog() );
        if ( rc != GEODIFF_SUCCESS ) { x.outcome( "refused" ); return; }
        x.check( !exists( dst + "-journal" ) && !exists( dst + "-wal" ), "debris", "files are left: " + files() );
        x.check( integrity( dst ).empty(), "integrity", integrity( dst ) );
        auto D = readSqlite( dst );
        std::set<std::string> user;
        for ( auto &t : D ) if ( t.first.compare( 0, 5, "gpkg_" ) ) user.insert( t.first );
        x.check( user.size() == f.tabs.size(), "tables", fmt( "the copy has %zu tables", user.size() ) );
        Db d( dst );
        for ( auto &t : f.tabs )
        {
          x.check( D.count( t.name ), "tables", "table " + t.name + " is not in the copy" );
          STab &q = D[t.name];
          x.check( q.cols.size() == t.cols.size(), "columns", "columns of table " + t.name + " of the copy differ" );
          for ( size_t i = 0; i < t.cols.size(); ++i )
          {
            x.check( q.cols[i].name == t.cols[i].name, "columns", "column " + q.cols[i].name + " instead of " + t.cols[i].name );
            x.check( q.cols[i].key == t.isPk( i ), "key", "column " + q.cols[i].name + " differs by its place in the key" );
            x.check( ( q.cols[i].notNull || t.isPk( i ) ) == ( t.cols[i].notNull || t.isPk( i ) ), "not-null", "column " + q.cols[i].name + " differs by NOT NULL" );
            if ( pgspace::isGeom( t.cols[i] ) )
            {
              int srid = pgspace::sridOf( t.cols[i] );
              std::string ty = low( t.cols[i].pg ).substr( 9 );
              ty = ty.substr( 0, ty.find( ',' ) );
              int m = ty.back() == 'm', z;
              if ( m ) ty.pop_back();
              z = ty.back() == 'z';
              if ( z ) ty.pop_back();
              x.check( q.cols[i].geom && low( q.cols[i].gtype ) == ty && q.cols[i].srid == srid && q.cols[i].z == z && q.cols[i].m == m, "geometry-metadata", "gpkg_geometry_columns describes column " + q.cols[i].name + " as " + q.cols[i].gtype + fmt( " %d %d %d", q.cols[i].srid, q.cols[i].z, q.cols[i].m ) );
              auto gc = d.query( "SELECT data_type, srs_id FROM gpkg_contents WHERE table_name=" + sqlLit( T( t.name ) ) );
              x.check( gc.size() == 1 && gc[0][0] == T( "features" ) && gc[0][1] == I( srid ), "contents", "gpkg_contents has " + std::to_string( gc.size() ) + " rows of " + t.name );
              auto crs = fakepq::query( "SELECT auth_name, auth_srid, srtext FROM spatial_ref_sys WHERE srid = " + std::to_string( srid ) );
              auto gs = d.query( "SELECT organization, organization_coordsys_id, definition FROM gpkg_spatial_ref_sys WHERE srs_id=" + std::to_string( srid ) );
              x.check( gs.size() == 1 && gs[0][0] == T( crs.at( 0 )[0].v ) && gs[0][1] == I( atoi( crs[0][1].v.c_str() ) ) && gs[0][2] == T( crs[0][2].v ), "crs", "gpkg_spatial_ref_sys does not describe the reference system" );
            }
          }
          x.check( q.rows == s[t.name], "content", "table " + t.name + " of the copy has the rows\n" + [&]() { std::string a; for ( auto &r : q.rows ) a += show( r ) + "\n"; return a; }() );
        }
        x.check( d.one( "SELECT count(*) FROM gpkg_contents" ) == I( f.tabs.size() ), "contents", "gpkg_contents has other rows" );
        // both drivers dump the same
        std::string cs2 = x.p( "cs2" );
        x.check( GEODIFF_dumpData( "postgres", CONN, SRC, cs.c_str() ) == GEODIFF_SUCCESS && GEODIFF_dumpData( "sqlite", "", dst.c_str(), cs2.c_str() ) == GEODIFF_SUCCESS, "dump-failed", x.lastLog() );
        CSet a, b, own;
        x.check( decode( readFile( cs ), a, &err ) && decode( readFile( cs2 ), b, &err ), "undecodable", err );
        for ( auto &g : b ) if ( g.table.name.compare( 0, 5, "gpkg_" ) ) own.push_back( g );
        x.check( canon( a ) == canon( own ), "dump", "the dumps of source and copy differ:\n" + show( a ) + show( own ) );
        // and back
        rc = GEODIFF_makeCopy( "sqlite", "", dst.c_str(), "postgres", CONN, DST );
        released( x, "makeCopy" );
        x.check( rc == GEODIFF_SUCCESS, "copy-back", fmt( "copying back returned %d: ", rc ) + x.lastLog() );
        compareWithPg( x, D, DST );
        x.nontrivial( "pg " + f.name );
        x.outcome( "copied to SQLite and back" );
        return;
      }
      // a family that goes both ways
      pgspace::Tab t, u;
      t.name = "t"; t.serial = true;
      t.cols = { { "fid", "integer" }, { "geom", "geometry(Point,4326)" }, { "name", "text" } };
      t.pk = { 0 };
      u.name = "u";
      u.cols = { { "k", "text" }, { "geom", "geometry(Point,3857)" } };
      u.pk = { 0 };
      pgspace::Fam f{ "both", { t, u } };
      pgspace::State s, old;
      s["t"] = { { I( 1 ), B( pgspace::gpb( pgspace::wkbPoint( 1, 2 ), 4326 ) ), T( "a" ) }, { I( 2 ), N(), N() } };
      s["u"] = { { T( "x" ), B( pgspace::gpb( pgspace::wkbPoint( 3, 4 ), 3857 ) ) } };
      const std::string sqlite = "CREATE TABLE gpkg_spatial_ref_sys(srs_name TEXT, srs_id INTEGER NOT NULL PRIMARY KEY, organization TEXT NOT NULL, organization_coordsys_id INTEGER NOT NULL, definition TEXT NOT NULL, description TEXT);"
                                 "INSERT INTO gpkg_spatial_ref_sys VALUES('w',4326,'EPSG',4326,'GEOGCS',''),('w',3857,'EPSG',3857,'GEOGCS','');"
                                 "CREATE TABLE gpkg_geometry_columns(table_name TEXT NOT NULL, column_name TEXT NOT NULL, geometry_type_name TEXT NOT NULL, srs_id INTEGER NOT NULL, z TINYINT NOT NULL, m TINYINT NOT NULL, PRIMARY KEY (table_name, column_name));"
                                 "INSERT INTO gpkg_geometry_columns VALUES('t','geom','POINT',4326,0,0),('u','geom','POINT',3857,0,0);"
                                 "CREATE TABLE t(fid INTEGER PRIMARY KEY, geom POINT, name TEXT); CREATE TABLE u(k TEXT PRIMARY KEY, geom POINT);"
                                 "INSERT INTO t VALUES(1, x'" + hex( s["t"][0][1].s ) + "','a'),(2,NULL,NULL); INSERT INTO u VALUES('x', x'" + hex( s["u"][0][1].s ) + "');";
      writeFile( src, cachedImage( sqlite ) );
      auto S = readSqlite( src );
      pgspace::pgSetup( SRC, f, s );
      auto userRows = [&]( const std::string & p ) { pgspace::State r; for ( auto &q : readSqlite( p ) ) if ( q.first.compare( 0, 5, "gpkg_" ) ) r[q.first] = q.second.rows; return r; };
      if ( k.kind == Faults )
      {
        Dig d( k.i );
        int op = d.take( FAULTOPS.size() ), how = d.take( 4 ) + 1;
        long call = d.v;
        auto act = [&]()
        {
          if ( op == 0 ) return GEODIFF_makeCopy( "sqlite", "", src.c_str(), "postgres", CONN, DST );
          if ( op == 1 ) return GEODIFF_makeCopy( "postgres", CONN, SRC, "sqlite", "", dst.c_str() );
          if ( op == 2 ) return GEODIFF_makeCopy( "postgres", CONN, SRC, "postgres", CONN, DST );
          return GEODIFF_dumpData( "postgres", CONN, SRC, cs.c_str() );
        };
        fakepq::failAt( call, how );
        int rc = act();
        bool hit = fakepq::calls() > call;
        fakepq::failAt( -1, 0 );
        released( x, FAULTOPS[op] );
        debris();
        x.check( call < MAXCALLS - 1 || !hit, "setup", "more calls than thought" );
        if ( hit ) x.check( rc != GEODIFF_SUCCESS, "fault-unnoticed", fmt( "%s succeeded", FAULTOPS[op] ) );
        else x.check( rc == GEODIFF_SUCCESS, "verdict", fmt( "%s without fault returned %d: ", FAULTOPS[op], rc ) + x.lastLog() );
        x.check( pgspace::pgRead( SRC, f ) == s && userRows( src ) == s, "source-changed", "the source changed" );
        if ( hit ) rc = act();
        released( x, FAULTOPS[op] );
        x.check( rc == GEODIFF_SUCCESS, "verdict-after", fmt( "%s after a failure returned %d: ", FAULTOPS[op], rc ) + x.lastLog() );
        if ( op == 0 ) compareWithPg( x, S, DST );
        if ( op == 1 ) x.check( userRows( dst ) == s, "content", "the copy differs" );
        if ( op == 2 ) x.check( pgspace::pgRead( DST, f ) == s, "content", "the copy differs" );
        if ( op == 3 ) { pgspace::State none; none["t"]; none["u"]; CSet got; x.check( decode( readFile( cs ), got, &err ) && canon( got ) == canon( pgspace::difference( f, none, s ) ), "dump", "the dump differs" ); }
        x.state( fmt( "fault %d %ld %d", op, call, how ) );
        x.transition( 2 );
        x.trace();
        x.outcome( hit ? "fault reported" : "no fault" );
        return;
      }
      if ( k.kind == Existing )
      {
        // the destination exists: nothing, with the same tables, with other tables, with other columns (PG), not a database (SQLite), ahead of the sequence
        Dig d( k.i );
        int dir = d.take( 3 ), what = d.take( 8 );
        if ( dir == 1 )
        {
          static const char *OLD[8] = { "", "CREATE TABLE t(fid INTEGER PRIMARY KEY, geom POINT, name TEXT); INSERT INTO t VALUES(7,NULL,'old');", "CREATE TABLE old(a PRIMARY KEY); INSERT INTO old VALUES(1);", "CREATE TABLE gpkg_contents(x); CREATE TABLE t(x);", "CREATE VIEW t AS SELECT 1; CREATE TRIGGER tt INSTEAD OF INSERT ON t BEGIN SELECT RAISE(ABORT, 'x'); END;", "PRAGMA journal_mode=WAL; CREATE TABLE t(x);", "CREATE TABLE t(fid INTEGER PRIMARY KEY, geom, name);", "CREATE TABLE T(fid INTEGER PRIMARY KEY, geom, name); INSERT INTO t VALUES(1,2,3);" };
          writeFile( dst, what == 0 ? "not a database" : cachedImage( OLD[what] ) );
          int rc = GEODIFF_makeCopy( "postgres", CONN, SRC, "sqlite", "", dst.c_str() );
          released( x, "makeCopy" );
          x.check( rc == GEODIFF_SUCCESS, "copy-failed", fmt( "makeCopy returned %d: ", rc ) + x.lastLog() );
          x.check( userRows( dst ) == s, "content", "the copy over an existing file differs" );
          x.outcome( "replaced" );
        }
        else
        {
          if ( what )
          {
            pgspace::Fam g = f;
            pgspace::State gs = s;
            if ( what == 2 ) { g.tabs[0].name = "old"; gs["old"] = gs["t"]; }
            if ( what == 3 ) { g.tabs[0].cols.push_back( { "more", "text" } ); for ( auto &r : gs["t"] ) r.push_back( T( "m" ) ); }
            if ( what == 4 ) { g.tabs[0].cols.pop_back(); for ( auto &r : gs["t"] ) r.pop_back(); }
            if ( what == 5 ) { gs["t"].push_back( { I( 999 ), N(), N() } ); }
            if ( what == 6 ) { gs["t"].clear(); gs["u"].clear(); }
            if ( what == 7 ) { g.tabs[0].pk = {}; g.tabs[0].serial = false; }
            pgspace::pgSetup( DST, g, gs );
          }
          int rc = dir == 0 ? GEODIFF_makeCopy( "sqlite", "", src.c_str(), "postgres", CONN, DST ) : GEODIFF_makeCopy( "postgres", CONN, SRC, "postgres", CONN, DST );
          released( x, "makeCopy" );
          x.check( rc == GEODIFF_SUCCESS, "copy-failed", fmt( "makeCopy returned %d: ", rc ) + x.lastLog() );
          compareWithPg( x, S, DST );
          x.outcome( "replaced" );
        }
        x.check( pgspace::pgRead( SRC, f ) == s, "source-changed", "another schema changed" );
        x.state( fmt( "existing %d %d", dir, what ) );
        x.transition();
        return;
      }
      // a source that cannot be read: an error, and what is at the destination stays
      Dig d( k.i );
      int what = d.take( 10 ), dir = d.take( 3 );
      pgspace::pgSetup( DST, f, s );
      writeFile( dst, "something valuable" );
      std::string bad = x.p( "bad.db" );
      unlink( bad.c_str() );
      int rc = -1;
      bool pgSrc = dir == 1;
      if ( pgSrc && what < 6 )
      {
        const char *schema = "gd_bad", *conn = CONN;
        must( "CREATE SCHEMA gd_bad" );
        if ( what == 0 ) schema = "nosuch";
        if ( what == 1 ) conn = "host=nowhere";
        if ( what == 2 ) must( "CREATE TABLE gd_bad.t(id integer PRIMARY KEY, v bytea); INSERT INTO gd_bad.t VALUES(1, '\\x0102')" );
        if ( what == 3 ) must( "CREATE TABLE gd_bad.t(id integer PRIMARY KEY, v bigint); INSERT INTO gd_bad.t VALUES(1, 3000000000)" );
        if ( what == 4 ) schema = "gd_Src";
        if ( what == 5 ) schema = "";
        rc = GEODIFF_makeCopy( "postgres", conn, schema, "sqlite", "", dst.c_str() );
        x.check( rc != GEODIFF_SUCCESS, "unreadable-source", "copying an unreadable source succeeds" );
        x.check( readFile( dst ) == "something valuable", "destination-lost", "a copy that could not read its source replaced the destination" );
        rc = GEODIFF_makeCopy( "postgres", conn, schema, "postgres", CONN, DST );
        x.check( rc != GEODIFF_SUCCESS, "unreadable-source", "copying an unreadable source succeeds" );
        x.check( pgspace::pgRead( DST, f ) == s, "destination-lost", "a copy that could not read its source replaced the destination" );
        rc = GEODIFF_dumpData( "postgres", conn, schema, cs.c_str() );
        x.check( rc != GEODIFF_SUCCESS, "unreadable-source", "dumping an unreadable source succeeds" );
      }
      else if ( dir == 0 && what < 7 )
      {
        if ( what == 1 ) writeFile( bad, "not a database, but long enough to be read as one ............................................................................................" );
        if ( what == 2 ) { std::string b = cachedImage( sqlite ); b.resize( b.size() / 2 ); writeFile( bad, b ); }
        if ( what == 3 ) writeFile( bad, cachedImage( sqlite + "DELETE FROM gpkg_spatial_ref_sys;" ) );
        if ( what == 4 ) writeFile( bad, cachedImage( sqlite + "UPDATE gpkg_geometry_columns SET column_name='nosuch';" ) );
        std::string from = what == 5 ? x.dir : what == 6 ? x.p( "no/such/dir" ) : bad;
        rc = GEODIFF_makeCopy( "sqlite", "", from.c_str(), "postgres", CONN, DST );
        x.check( rc != GEODIFF_SUCCESS, "unreadable-source", "copying an unreadable source succeeds" );
        x.check( pgspace::pgRead( DST, f ) == s, "destination-lost", "a copy that could not read its source replaced the destination" );
        rc = GEODIFF_makeCopy( "sqlite", "", from.c_str(), "sqlite", "", dst.c_str() );
        x.check( rc != GEODIFF_SUCCESS, "unreadable-source", "copying an unreadable source succeeds" );
        x.check( readFile( dst ) == "something valuable", "destination-lost", "a copy that could not read its source replaced the destination" );
        x.check( what || !exists( bad ), "source-created", "makeCopy created its source" );
        if ( what != 3 && what != 4 )
        {
          rc = GEODIFF_dumpData( "sqlite", "", from.c_str(), cs.c_str() );
          x.check( rc != GEODIFF_SUCCESS, "unreadable-source", "dumping an unreadable source succeeds" );
          x.check( what || !exists( bad ), "source-created", "dumpData created its source" );
        }
      }
      else if ( dir == 2 && what < 8 )
      {
        // destinations that cannot be written, drivers that do not exist
        std::string no = x.p( "no/such/dst.db" );
        const char *Q[8][6] = { { "sqlite", "", src.c_str(), "postgres", "host=nowhere", DST }, { "postgres", CONN, SRC, "sqlite", "", no.c_str() }, { "postgres", CONN, SRC, "sqlite", "", x.dir.c_str() }, { "sqlite", "", src.c_str(), "nosuch", "", DST },
          { "nosuch", "", src.c_str(), "postgres", CONN, DST }, { "sqlite", "", src.c_str(), "postgres", nullptr, DST }, { "postgres", nullptr, SRC, "sqlite", "", dst.c_str() }, { "SQLite", "", src.c_str(), "postgres", CONN, DST } };
        auto &q = Q[what];
        rc = GEODIFF_makeCopy( q[0], q[1], q[2], q[3], q[4], q[5] );
        x.check( rc != GEODIFF_SUCCESS, "wrong-arguments", "makeCopy succeeds" );
        x.check( pgspace::pgRead( DST, f ) == s && readFile( dst ) == "something valuable", "destination-lost", "a call with wrong arguments changed a destination" );
      }
      else { x.outcome( "no such case" ); return; }
      released( x, "the failing calls" );
      debris();
      x.check( pgspace::pgRead( SRC, f ) == s && userRows( src ) == s, "source-changed", "a source changed" );
      x.state( fmt( "wrong %d %d", dir, what ) );
      x.transition( 3 );
      x.outcome( "error reported" );
    };
    return c;
  } );
}
