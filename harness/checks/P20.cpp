// P20: GeoPackage's derived tables. Layers with a spatial index and a feature count kept by the
// GeoPackage triggers: after every apply and rebase the index holds exactly the boxes of the
// geometries and the count is the number of rows; a refused apply changes neither; changesets are
// never about these tables.
#include "space.h"
#include "pgspace.h"
#include <unistd.h>
using namespace mc;
using pgspace::gpb; using pgspace::wkbPoint; using pgspace::wkbLine; using pgspace::wkbPoly; using pgspace::u32; using pgspace::f64;

static std::string replaceAll( std::string s, const std::string &a, const std::string &b ) { for ( size_t p = 0; ( p = s.find( a, p ) ) != std::string::npos; p += b.size() ) s.replace( p, a.size(), b ); return s; }

struct Layer { std::string name, fid, geom; int generation; bool autoinc = true; };
struct Config { std::string name; std::vector<Layer> layers; std::string extra; int rows = 0, copies = 1; };
//! Index, count and their triggers as written by GDAL before and since 3.7
static std::string layerSql( const Layer &l )
{
  std::string box = "ST_MinX(NEW.{g}), ST_MaxX(NEW.{g}), ST_MinY(NEW.{g}), ST_MaxY(NEW.{g})";
  std::string has = "(NEW.{g} NOTNULL AND NOT ST_IsEmpty(NEW.{g}))", none = "(NEW.{g} ISNULL OR ST_IsEmpty(NEW.{g}))";
  std::string q = "CREATE TABLE {t}({f} INTEGER PRIMARY KEY" + std::string( l.autoinc ? " AUTOINCREMENT" : "" ) + " NOT NULL, {g} GEOMETRY, name TEXT);\n"
                  "INSERT INTO gpkg_contents(table_name, data_type, identifier, srs_id) VALUES({T}, 'features', {T}, 4326); INSERT INTO gpkg_geometry_columns VALUES({T}, {G}, 'GEOMETRY', 4326, 0, 0); INSERT INTO gpkg_ogr_contents VALUES({T}, 0);\n"
                  "CREATE VIRTUAL TABLE {r} USING rtree(id, minx, maxx, miny, maxy);\n"
                  "CREATE TRIGGER {r:insert} AFTER INSERT ON {t} WHEN " + has + " BEGIN INSERT OR REPLACE INTO {r} VALUES (NEW.{f}, " + box + "); END;\n"
                  "CREATE TRIGGER {r:update2} AFTER UPDATE OF {g} ON {t} WHEN OLD.{f} = NEW.{f} AND " + none + " BEGIN DELETE FROM {r} WHERE id = OLD.{f}; END;\n"
                  "CREATE TRIGGER {r:update4} AFTER UPDATE ON {t} WHEN OLD.{f} != NEW.{f} AND " + none + " BEGIN DELETE FROM {r} WHERE id IN (OLD.{f}, NEW.{f}); END;\n"
                  "CREATE TRIGGER {r:delete} AFTER DELETE ON {t} WHEN OLD.{g} NOT NULL BEGIN DELETE FROM {r} WHERE id = OLD.{f}; END;\n"
                  "CREATE TRIGGER {c:insert} AFTER INSERT ON {t} BEGIN UPDATE gpkg_ogr_contents SET feature_count = feature_count + 1 WHERE lower(table_name) = lower({T}); END;\n"
                  "CREATE TRIGGER {c:delete} AFTER DELETE ON {t} BEGIN UPDATE gpkg_ogr_contents SET feature_count = feature_count - 1 WHERE lower(table_name) = lower({T}); END;\n";
  if ( l.generation == 0 )
    q += "CREATE TRIGGER {r:update1} AFTER UPDATE OF {g} ON {t} WHEN OLD.{f} = NEW.{f} AND " + has + " BEGIN INSERT OR REPLACE INTO {r} VALUES (NEW.{f}, " + box + "); END;\n"
         "CREATE TRIGGER {r:update3} AFTER UPDATE ON {t} WHEN OLD.{f} != NEW.{f} AND " + has + " BEGIN DELETE FROM {r} WHERE id = OLD.{f}; INSERT OR REPLACE INTO {r} VALUES (NEW.{f}, " + box + "); END;\n";
  else
    q += "CREATE TRIGGER {r:update6} AFTER UPDATE OF {g} ON {t} WHEN OLD.{f} = NEW.{f} AND " + has + " AND (OLD.{g} NOTNULL AND NOT ST_IsEmpty(OLD.{g})) BEGIN UPDATE {r} SET minx = ST_MinX(NEW.{g}), maxx = ST_MaxX(NEW.{g}), miny = ST_MinY(NEW.{g}), maxy = ST_MaxY(NEW.{g}) WHERE id = NEW.{f}; END;\n"
         "CREATE TRIGGER {r:update7} AFTER UPDATE OF {g} ON {t} WHEN OLD.{f} = NEW.{f} AND " + has + " AND (OLD.{g} ISNULL OR ST_IsEmpty(OLD.{g})) BEGIN INSERT INTO {r} VALUES (NEW.{f}, " + box + "); END;\n"
         "CREATE TRIGGER {r:update5} AFTER UPDATE ON {t} WHEN OLD.{f} != NEW.{f} AND " + has + " BEGIN DELETE FROM {r} WHERE id = OLD.{f}; INSERT OR REPLACE INTO {r} VALUES (NEW.{f}, " + box + "); END;\n";
  std::string r = "rtree_" + l.name + "_" + l.geom;
  for ( const char *n : { "insert", "update1", "update2", "update3", "update4", "update5", "update6", "update7", "delete" } ) q = replaceAll( q, std::string( "{r:" ) + n + "}", quoteId( r + "_" + n ) );
  for ( const char *n : { "insert", "delete" } ) q = replaceAll( q, std::string( "{c:" ) + n + "}", quoteId( std::string( "trigger_" ) + n + "_feature_count_" + l.name ) );
  q = replaceAll( q, "{r}", quoteId( r ) );
  q = replaceAll( q, "{T}", sqlLit( T( l.name ) ) );
  q = replaceAll( q, "{G}", sqlLit( T( l.geom ) ) );
  q = replaceAll( q, "{t}", quoteId( l.name ) );
  q = replaceAll( q, "{f}", quoteId( l.fid ) );
  return replaceAll( q, "{g}", quoteId( l.geom ) );
}
static const char *META =
  "CREATE TABLE gpkg_spatial_ref_sys(srs_name TEXT NOT NULL, srs_id INTEGER NOT NULL PRIMARY KEY, organization TEXT NOT NULL, organization_coordsys_id INTEGER NOT NULL, definition TEXT NOT NULL, description TEXT);"
  "INSERT INTO gpkg_spatial_ref_sys VALUES('w',4326,'EPSG',4326,'GEOGCS','');"
  "CREATE TABLE gpkg_contents(table_name TEXT NOT NULL PRIMARY KEY, data_type TEXT NOT NULL, identifier TEXT UNIQUE, description TEXT DEFAULT '', last_change DATETIME NOT NULL DEFAULT '2020-01-01T00:00:00Z', min_x DOUBLE, min_y DOUBLE, max_x DOUBLE, max_y DOUBLE, srs_id INTEGER);"
  "CREATE TABLE gpkg_geometry_columns(table_name TEXT NOT NULL, column_name TEXT NOT NULL, geometry_type_name TEXT NOT NULL, srs_id INTEGER NOT NULL, z TINYINT NOT NULL, m TINYINT NOT NULL, PRIMARY KEY (table_name, column_name));"
  "CREATE TABLE gpkg_ogr_contents(table_name TEXT NOT NULL PRIMARY KEY, feature_count INTEGER DEFAULT NULL);"
  "CREATE TABLE gpkg_extensions(table_name TEXT, column_name TEXT, extension_name TEXT NOT NULL, definition TEXT NOT NULL, scope TEXT NOT NULL, UNIQUE (table_name, column_name, extension_name));\n";

// ---- geometries and their boxes, from the bytes
struct Box { bool any = false; double b[4] = { INFINITY, -INFINITY, INFINITY, -INFINITY }; void add( double x, double y ) { if ( std::isnan( x ) || std::isnan( y ) ) return; any = true; b[0] = std::min( b[0], x ); b[1] = std::max( b[1], x ); b[2] = std::min( b[2], y ); b[3] = std::max( b[3], y ); } };
static size_t wkbBox( const std::string &w, size_t p, Box &box )
{
  auto U = [&]() { uint32_t v; memcpy( &v, w.data() + p, 4 ); p += 4; return v; };
  auto pts = [&]( uint32_t n, int dims ) { while ( n-- ) { double c[4]; memcpy( c, w.data() + p, 8 * dims ); p += 8 * dims; box.add( c[0], c[1] ); } };
  ++p;
  uint32_t t = U(), k = t % 1000;
  int dims = t / 1000 == 0 ? 2 : t / 1000 == 3 ? 4 : 3;
  if ( k == 1 ) pts( 1, dims );
  else if ( k == 2 ) pts( U(), dims );
  else if ( k == 3 ) { for ( uint32_t n = U(); n; --n ) pts( U(), dims ); }
  else for ( uint32_t n = U(); n; --n ) p = wkbBox( w, p, box );
  return p;
}
static Box boxOf( const Val &g )
{
  Box b;
  if ( g.t != Val::Blob ) return b;
  static const int n[] = { 0, 32, 48, 48, 64 };
  wkbBox( g.s, 8 + n[( g.s[3] >> 1 ) & 7], b );
  return b;
}
static std::vector<Val> geometries()
{
  std::string empty = gpb( wkbPoint( NAN, NAN ), 4326 ), emptyLine = gpb( wkbLine( {} ), 4326 );
  empty[3] |= 0x10;
  emptyLine[3] |= 0x10;
  std::string multi = std::string( "\x01", 1 ) + u32( 4 ) + u32( 2 ) + wkbPoint( -3, 7 ) + wkbPoint( 8, -9 );
  std::string z = std::string( "\x01", 1 ) + u32( 1001 ) + f64( 5 ) + f64( 6 ) + f64( 700 );
  std::string lineEnv = std::string( "GP\0\x03", 4 ) + u32( 4326 ) + f64( 0 ) + f64( 4 ) + f64( -1 ) + f64( 2 ) + wkbLine( { 0, 2, 4, -1 } );
  return { N(), B( gpb( wkbPoint( 1, 2 ), 4326 ) ), B( gpb( wkbPoint( -2.5, 40 ), 4326 ) ), B( gpb( wkbPoint( 1e7 + 0.1, -1e-3 ), 4326 ) ), B( lineEnv ), B( gpb( wkbPoly( { 0, 0, 0, 1, 1, 1, 0, 0 } ), 4326 ) ),
           B( empty ), B( emptyLine ), B( gpb( multi, 4326 ) ), B( gpb( z, 4326 ) ), B( gpb( wkbPoint( 1, 2 ), 3857 ) ) };
}

static std::vector<Config> configs()
{
  return { { "simple", { { "simple", "fid", "geometry", 0 } }, "" },
    { "newer triggers", { { "simple", "fid", "geom", 1 } }, "" },
    { "names to be quoted", { { "my layer's \"x\"", "Id", "the geom", 1, false } }, "" },
    { "two layers", { { "simple", "fid", "geometry", 0 }, { "Simple_2", "fid", "geometry", 1 } }, "" },
    { "user triggers", { { "simple", "fid", "geometry", 0 } }, "CREATE TABLE audit(x); CREATE TRIGGER log_i AFTER INSERT ON simple BEGIN INSERT INTO audit VALUES(NEW.fid); END; CREATE TRIGGER log_u AFTER UPDATE ON simple BEGIN INSERT INTO audit VALUES(OLD.fid); END; CREATE TRIGGER log_d AFTER DELETE ON simple BEGIN INSERT INTO audit VALUES(OLD.fid); END;\n" },
    { "prefix of another's name", { { "a", "fid", "geom", 0 }, { "a_geom", "fid", "g", 0 } }, "" },
    { "a full index node", { { "simple", "fid", "geometry", 0 } }, "", 51 },
    { "many rows", { { "simple", "fid", "geometry", 1 } }, "", 700 },
    { "many edits", { { "simple", "fid", "geometry", 0 } }, "", 0, 130 } };
}
struct Fam { Config c; bool shared; space::Family f; };   // shared: both layers have keys
static std::vector<Fam> fams( bool thorough )
{
  std::vector<Fam> r;
  std::vector<Val> G = geometries();
  for ( auto &c : configs() )
    for ( int kind = 0; kind < 2; ++kind )
    {
      Fam f;
      f.c = c;
      f.f.name = c.name + ( kind ? ", rows" : ", geometries" );
      f.f.setup = META;
      for ( auto &l : c.layers ) f.f.setup += layerSql( l );
      if ( c.rows ) f.f.setup += "BEGIN;";
      for ( int i = 0; i < c.rows; ++i ) f.f.setup += "INSERT INTO " + quoteId( c.layers[0].name ) + " VALUES(" + std::to_string( 100 + i ) + "," + sqlLit( B( gpb( wkbPoint( ( i * 37 ) % 101, ( i * 61 ) % 97 ), 4326 ) ) ) + ",'r');";
      if ( c.rows ) f.f.setup += "COMMIT;\n";
      f.f.setup += c.extra;
      size_t n = 0;
      for ( auto &l : c.layers )
      {
        space::Table t{ l.name, { l.fid, l.geom, "name" }, { 1, 0, 0 }, {}, {} };
        if ( kind == 0 ) { t.keys = n ? std::vector<Row> {} : space::ints( { 1 } ); for ( auto &g : G ) t.pay.push_back( { g, T( "a" ) } ); t.pay.push_back( { G[1], T( "b" ) } ); }
        else
        {
          t.keys = c.layers.size() == 1 ? ( thorough ? space::ints( { 1, 2, 7 } ) : space::ints( { 1, 7 } ) ) : space::ints( { 1 } );
          t.pay = { { G[1], T( "a" ) }, { G[4], T( "a" ) }, { N(), N() }, { G[6], T( "a" ) } };
        }
        f.f.tables.push_back( t );
        ++n;
      }
      if ( c.copies > 1 )
      {
        if ( !kind ) continue;
        f.f.rowCopies = c.copies;
        f.f.tables[0].keys = space::ints( { 1 } );
        if ( !thorough ) f.f.tables[0].pay.resize( 3 );
      }
      r.push_back( f );
    }
  return r;
}

//! The derived tables are what the layers' rows say
static void derived( const Ctx &x, const Config &c, const std::string &path, const std::string &how )
{
  Db d( path );
  for ( auto &l : c.layers )
  {
    std::string rt = quoteId( "rtree_" + l.name + "_" + l.geom );
    std::map<int64_t, Row> idx;
    std::string err;
    for ( auto &r : d.query( "SELECT id, minx, maxx, miny, maxy FROM " + rt ) ) idx[r[0].i] = r;
    x.evaluation();
    size_t n = 0;
    for ( auto &r : d.query( "SELECT " + quoteId( l.fid ) + ", " + quoteId( l.geom ) + " FROM " + quoteId( l.name ) ) )
    {
      Box b = boxOf( r[1] );
      bool in = idx.count( r[0].i );
      x.check( in == b.any, "index", how + ": feature " + show( r[0] ) + " of " + l.name + ( in ? " is" : " is not" ) + " in the spatial index" );
      if ( in )
      {
        ++n;
        for ( int i = 0; i < 4; ++i )
        {
          double v = idx[r[0].i][i + 1].d, w = b.b[i];
          x.check( ( i % 2 ? v >= w : v <= w ) && std::fabs( v - w ) <= std::fabs( w ) * 1e-6, "index", how + ": the spatial index has a box of feature " + show( r[0] ) + " of " + l.name + ": " + show( idx[r[0].i] ) );
        }
      }
    }
    x.check( n == idx.size(), "index", how + ": the spatial index of " + l.name + " has entries of features that do not exist" );
    Val cnt = d.one( "SELECT feature_count FROM gpkg_ogr_contents WHERE table_name=" + sqlLit( T( l.name ) ) );
    x.check( cnt == d.one( "SELECT count(*) FROM " + quoteId( l.name ) ), "feature-count", how + ": the feature count of " + l.name + " is " + show( cnt ) );
    Val ck = d.one( "SELECT rtreecheck(" + sqlLit( T( "rtree_" + l.name + "_" + l.geom ) ) + ")" );
    x.check( ck == T( "ok" ), "index-damaged", how + ": " + show( ck ) );
  }
}
static void noDerived( const Ctx &x, const Config &c, const std::string &cs )
{
  CSet s;
  std::string err;
  x.check( decode( readFile( cs ), s, &err ), "undecodable", err );
  for ( auto &g : s )
  {
    bool layer = false;
    for ( auto &l : c.layers ) layer |= l.name == g.table.name;
    x.check( layer, "derived-in-changeset", "the changeset has entries of table " + g.table.name );
  }
}

int main( int argc, char **argv )
{
  return checkMain( argc, argv, []( const Opts & o )
  {
    static const std::vector<Fam> F = fams( o.thorough );
    struct Part { int kind; size_t fam; uint64_t n; };
    static std::vector<Part> P;
    P.clear();
    uint64_t np = 0, nt = 0;
    for ( size_t i = 0; i < F.size(); ++i )
    {
      uint64_t n = F[i].f.nstates();
      P.push_back( { 0, i, n * n } );
      np += n * n;
      if ( n <= ( o.thorough ? 130u : 26u ) && ( o.thorough || i < 4 || ( i % 2 == 0 && i < 12 ) || F[i].c.copies > 1 ) ) { P.push_back( { 1, i, n * n * n } ); nt += n * n * n; }
    }
    Check c;
    c.property = "P20";
    c.odd = true;
    c.rule = "a state is the content of a GeoPackage's layers with their spatial index and feature count, a transition the application of a changeset or a rebase; after each the index is compared with boxes computed from the geometries' bytes and the count with the rows";
    c.bounds = { fmt( "%zu families (older and newer GeoPackage triggers, quoted names, two layers, user triggers, full and multi-level indexes; %zu geometries incl. empty, NULL, with envelope, multi, Z)", F.size(), geometries().size() ),
                 fmt( "all ordered pairs of states: %llu, each created, applied, inverted and applied back, refused with a conflict, with stale derived tables", ( unsigned long long ) np ),
                 fmt( "all triples of states (base, theirs, mine), rebased in place and as a changeset: %llu", ( unsigned long long ) nt ) };
    c.assumptions = { "libgpkg's functions are a stand-in that computes boxes from the WKB", "the triggers are those GDAL writes" };
    for ( auto &p : P ) c.count += p.n;
    struct Case { int kind; size_t fam; uint64_t a[3]; };
    auto get = []( uint64_t i )
    {
      for ( auto &p : P )
      {
        if ( i < p.n ) { Dig d( i ); Case k{ p.kind, p.fam, { 0, 0, 0 } }; for ( auto &q : k.a ) q = d.take( F[p.fam].f.nstates() ); return k; }
        i -= p.n;
      }
      return Case{ 0, 0, { 0, 0, 0 } };
    };
    c.describe = [ = ]( uint64_t idx )
    {
      Case k = get( idx );
      const space::Family &f = F[k.fam].f;
      return f.name + ( k.kind ? "\nbase:   " : "\nbase:     " ) + f.show( k.a[0] ) + ( k.kind ? "\ntheirs: " : "\nmodified: " ) + f.show( k.a[1] ) + ( k.kind ? "\nmine:   " + f.show( k.a[2] ) : std::string() );
    };
    c.run = [ = ]( const Ctx & x )
    {
      Case k = get( x.idx );
      const Fam &F0 = F[k.fam];
      const Config &cf = F0.c;
      const space::Family &f = F0.f;
      const std::string &B0 = *space::image( f, k.a[0] ), &M0 = *space::image( f, k.a[1] );
      std::string pb = x.p( "base.gpkg" ), pm = x.p( "mod.gpkg" ), pc = x.p( "copy.gpkg" ), cs = x.p( "cs" ), inv = x.p( "inv" );
      for ( auto &p : { cs, inv } ) unlink( p.c_str() );
      writeFile( pb, B0 );
      writeFile( pm, M0 );
      writeFile( pc, B0 );
      x.state( f.name + fmt( " %llu", ( unsigned long long )k.a[0] ) );
      derived( x, cf, pm, "setup" );
      int rc = GEODIFF_createChangeset( pb.c_str(), pm.c_str(), cs.c_str() );
      x.check( rc == GEODIFF_SUCCESS, "create-failed", x.lastLog() );
      if ( k.kind == 0 )
      {
        noDerived( x, cf, cs );
        if ( k.a[0] == k.a[1] ) x.check( readFile( cs ).empty(), "not-empty", "differences between equal databases" );
        rc = GEODIFF_applyChangeset( pc.c_str(), cs.c_str() );
        x.check( rc == GEODIFF_SUCCESS, "apply-failed", x.lastLog() );
        derived( x, cf, pc, "after applying" );
        std::string d = diffContent( contentOf( pm, NoSequence | NoDerived ), contentOf( pc, NoSequence | NoDerived ) );
        if ( cf.extra.empty() ) x.check( d.empty(), "content", d );
        x.check( GEODIFF_invertChangeset( cs.c_str(), inv.c_str() ) == GEODIFF_SUCCESS, "invert-failed", x.lastLog() );
        rc = GEODIFF_applyChangeset( pc.c_str(), inv.c_str() );
        x.check( rc == GEODIFF_SUCCESS, "apply-failed", x.lastLog() );
        derived( x, cf, pc, "after applying the inverse" );
        // derived tables that are out of date do not matter
        {
          Db m( pm );
          for ( auto &l : cf.layers )
          {
            std::string rt = quoteId( "rtree_" + l.name + "_" + l.geom );
            m.exec( "DELETE FROM " + rt + "; INSERT INTO " + rt + " VALUES(9999, 0, 1, 0, 1);" );
          }
          m.exec( "UPDATE gpkg_ogr_contents SET feature_count = feature_count + 5; DELETE FROM gpkg_ogr_contents WHERE rowid=1;" );
        }
        std::string before = readFile( cs );
        rc = GEODIFF_createChangeset( pb.c_str(), pm.c_str(), cs.c_str() );
        x.check( rc == GEODIFF_SUCCESS && readFile( cs ) == before, "stale-derived", "the changeset depends on the derived tables: " + x.lastLog() );
        // refused after everything else was done
        CSet s;
        decode( before, s );
        CGroup g;
        g.table.name = cf.layers[0].name;
        g.table.pk = { 1, 0, 0 };
        CEntry e;
        e.op = OpDelete;
        e.o = { I( 5555 ), N(), N() };
        g.entries = { e };
        s.push_back( g );
        writeFile( cs, encode( s ) );
        writeFile( pc, B0 );
        std::string all = fullDump( pc );
        rc = GEODIFF_applyChangeset( pc.c_str(), cs.c_str() );
        x.check( rc != GEODIFF_SUCCESS, "not-refused", "deleting a missing row succeeds" );
        derived( x, cf, pc, "after a refused apply" );
        x.check( fullDump( pc ) == all, "refused-changed", "the refused apply changed the database" );
        x.transition( 4 );
        x.trace( 4 );
        x.outcome( "applied" );
        if ( k.a[0] != k.a[1] ) x.nontrivial( f.name );
        return;
      }
      const std::string &mine = *space::image( f, k.a[2] );
      std::string pmi = x.p( "mine.gpkg" ), conf = x.p( "conf" ), reb = x.p( "reb" );
      unlink( conf.c_str() );
      unlink( reb.c_str() );
      writeFile( pmi, mine );
      // user triggers are not accepted by createRebasedChangeset; in place they are
      rc = GEODIFF_createRebasedChangeset( pb.c_str(), pmi.c_str(), cs.c_str(), reb.c_str(), conf.c_str() );
      bool made = rc == GEODIFF_SUCCESS;
      x.check( made || !cf.extra.empty(), "rebase-refused", x.lastLog() );
      if ( made )
      {
        noDerived( x, cf, reb );
        rc = GEODIFF_applyChangeset( pm.c_str(), reb.c_str() );
        x.check( rc == GEODIFF_SUCCESS, "apply-failed", "the rebased changeset does not apply: " + x.lastLog() );
        derived( x, cf, pm, "after applying the rebased changeset" );
      }
      unlink( conf.c_str() );
      writeFile( pm, M0 );
      rc = GEODIFF_rebase( pb.c_str(), pm.c_str(), pmi.c_str(), conf.c_str() );
      x.check( rc == GEODIFF_SUCCESS, "rebase-failed", x.lastLog() );
      derived( x, cf, pmi, "after the rebase" );
      x.check( readFile( pb ) == B0, "input-changed", "base changed" );
      x.transition( 2 );
      x.trace( 2 );
      x.outcome( made ? "rebased" : "rebased in place only" );
    };
    return c;
  } );
}
