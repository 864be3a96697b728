// P10: rebasing in place gives THEIRS plus the rebased changeset, for all triples of states; refusals
// and failures leave the database as it was.
#include "rebspace.h"
#include <unistd.h>
using namespace space;

// families in which both sides' edits can be combined to a state that a constraint forbids
static std::vector<Family> strictFamilies()
{
  std::vector<Family> F;
  auto add = [&]( const std::string & name, const std::string & setup, std::vector<Table> tables )
  {
    Family f;
    f.name = name; f.setup = setup; f.tables = std::move( tables );
    f.unique = true;
    F.push_back( f );
  };
  add( "unique", "CREATE TABLE t(id INTEGER PRIMARY KEY, u UNIQUE);\n", { { "t", { "id", "u" }, { 1, 0 }, ints( { 1, 2 } ), one( { N(), I( 1 ), I( 2 ) } ) } } );
  add( "check", "CREATE TABLE t(id INTEGER PRIMARY KEY, a, b, CHECK(a+b<3));\n", { { "t", { "id", "a", "b" }, { 1, 0, 0 }, ints( { 1 } ), product( { { I( 0 ), I( 1 ), I( 2 ) }, { I( 0 ), I( 1 ), I( 2 ) } } ) } } );
  return F;
}

struct Refusal { std::string name, sql; bool refused; };
static std::vector<Refusal> refusals()
{
  const std::string T = "CREATE TABLE t(id INTEGER PRIMARY KEY, v); CREATE TABLE p(id INTEGER PRIMARY KEY, a, b, UNIQUE(a,b));";
  std::vector<Refusal> r;
  auto add = [&]( const std::string & n, const std::string & s, bool x ) { r.push_back( { n, s, x } ); };
  add( "plain", T, false );
  add( "fk inline", T + "CREATE TABLE c(id INTEGER PRIMARY KEY, pid REFERENCES p(id));", true );
  add( "fk implicit target", T + "CREATE TABLE c(id INTEGER PRIMARY KEY, pid REFERENCES p);", true );
  add( "fk other case", T + "CREATE TABLE c(id INTEGER PRIMARY KEY, pid REFERENCES P(ID));", true );
  add( "fk table constraint", T + "CREATE TABLE c(id INTEGER PRIMARY KEY, pid, FOREIGN KEY(pid) REFERENCES p(id));", true );
  add( "fk composite", T + "CREATE TABLE c(id INTEGER PRIMARY KEY, x, y, FOREIGN KEY(x,y) REFERENCES p(a,b));", true );
  add( "fk to itself", T + "CREATE TABLE c(id INTEGER PRIMARY KEY, pid REFERENCES c(id));", true );
  add( "fk quoted table", T + "CREATE TABLE \"c \"\"d\"(id INTEGER PRIMARY KEY, pid REFERENCES p(id));", true );
  for ( const char *n : { "gpkgnotes", "gpk_", "rtreenotes", "rtree", "Gpkg_x", "sqlitesequence", "my_gpkg_x", "my_rtree_x", "gpkg" } )
    add( std::string( "fk in table " ) + n, T + "CREATE TABLE " + n + "(id INTEGER PRIMARY KEY, pid REFERENCES p(id));", true );
  add( "fk dangling", T + "CREATE TABLE c(id INTEGER PRIMARY KEY, pid REFERENCES p(id) ON DELETE CASCADE DEFERRABLE INITIALLY DEFERRED);", true );
  const std::string tail = " BEGIN UPDATE p SET a=1; END;";
  for ( const char *when : { "AFTER INSERT", "BEFORE UPDATE", "AFTER DELETE", "BEFORE INSERT", "AFTER UPDATE OF v" } )
    add( std::string( "trigger " ) + when, T + "CREATE TRIGGER trg " + when + " ON t" + tail, true );
  for ( const char *n : { "my trigger", "it''s", "GPKG", "rt", "my_rtree_", "update_feature_count", "x_gpkg_y", "trigger", "\xC3\xA9" } )
    add( std::string( "trigger named " ) + n, T + "CREATE TRIGGER \"" + n + "\" AFTER INSERT ON t" + tail, true );
  for ( const char *n : { "gpkg_metadata_md_scope_insert", "gpkg_tile_matrix_zoom_level_update", "rtree_t_geometry_insert", "rtree_t_geometry_update1", "trigger_insert_feature_count_t", "trigger_delete_feature_count_t" } )
    add( std::string( "GeoPackage trigger " ) + n, T + "CREATE TRIGGER \"" + n + "\" AFTER INSERT ON t WHEN 0" + tail, false );
  add( "view trigger", T + "CREATE VIEW vw AS SELECT * FROM t; CREATE TRIGGER vt INSTEAD OF INSERT ON vw" + tail, true );
  add( "index and view", T + "CREATE VIEW vw AS SELECT * FROM t; CREATE INDEX i ON t(v);", false );
  return r;
}

int main( int argc, char **argv )
{
  return checkMain( argc, argv, []( const Opts & o )
  {
    static Triples S( o.thorough, o.thorough ? UINT64_MAX : 20 );
    static std::vector<Family> SF = strictFamilies();
    static std::vector<Refusal> R = refusals();
    static uint64_t strict = 0;
    for ( auto &f : SF ) strict += f.nstates() * f.nstates() * f.nstates();
    Check c;
    c.property = "P10";
    c.odd = true;
    c.rule = "a state is the content of a database, transitions are the in-place rebases (both entry points) for one triple (BASE, THEIRS, MINE); the result is compared with THEIRS plus the rebased changeset, and with the merge computed here; failing calls must leave the file as it was";
    c.bounds = { fmt( "%zu schema families, all ordered triples of states of each: %llu triples", S.fam.size(), ( unsigned long long ) S.total ),
                 fmt( "families with UNIQUE and CHECK constraints, all triples: %llu", ( unsigned long long ) strict ),
                 fmt( "%zu schemas with and without foreign keys and triggers, 3 combinations of edits", R.size() ) };
    c.assumptions = { "in-place rebase itself does not look for foreign keys and triggers, only the making of a rebased changeset from databases does" };
    c.count = S.total + strict + R.size() * 3;
    auto strictOf = []( uint64_t i, const Family * &f, uint64_t &b, uint64_t &t, uint64_t &m )
    {
      for ( auto &q : SF )
      {
        uint64_t n = q.nstates();
        if ( i < n * n * n ) { f = &q; b = i % n; t = i / n % n; m = i / n / n; return; }
        i -= n * n * n;
      }
    };
    c.describe = [strictOf]( uint64_t i )
    {
      if ( i < S.total ) return S.describe( i );
      i -= S.total;
      if ( i < strict )
      {
        const Family *f = nullptr;
        uint64_t b = 0, t = 0, m = 0;
        strictOf( i, f, b, t, m );
        return "schema family " + f->name + "\n" + f->setup + "BASE:   " + f->show( b ) + "\nTHEIRS: " + f->show( t ) + "\nMINE:   " + f->show( m );
      }
      i -= strict;
      return R[i / 3].name + fmt( " (edits %llu)\n", ( unsigned long long ) i % 3 ) + R[i / 3].sql;
    };
    c.run = [strictOf]( const Ctx & x )
    {
      std::string pb = x.p( "base.db" ), pt = x.p( "their.db" ), pm = x.p( "mine.db" ), b2t = x.p( "b2t" ), conf = x.p( "conflict" ), reb = x.p( "reb" );
      uint64_t idx = x.idx;
      if ( idx >= S.total + strict )
      {
        const Refusal &q = R[( idx - S.total - strict ) / 3];
        int k = ( idx - S.total - strict ) % 3;   // which sides have edits: both, theirs only, mine only
        std::string base = cachedImage( q.sql + "INSERT INTO t VALUES(1,1),(2,2);" );
        writeFile( pb, base );
        auto edit = [&]( const std::string & p, const std::string & sql )
        {
          writeFile( p, base );
          Db d( p );
          // triggers of the schema must not take part in preparing the states
          auto trg = d.query( "SELECT name, sql FROM sqlite_master WHERE type='trigger'" );
          for ( auto &r : trg ) d.exec( "DROP TRIGGER " + quoteId( r[0].s ) );
          d.exec( sql );
          for ( auto &r : trg ) d.exec( r[1].s );
        };
        edit( pt, k != 2 ? "INSERT INTO t VALUES(3,3)" : "SELECT 1" );
        edit( pm, k != 1 ? "INSERT INTO t VALUES(3,4)" : "SELECT 1" );
        std::string mb = readFile( pm );
        unlink( reb.c_str() );
        x.check( GEODIFF_createChangeset( pb.c_str(), pt.c_str(), b2t.c_str() ) == GEODIFF_SUCCESS, "create-failed", "createChangeset failed" );
        writeFile( conf, "stale" );
        int rc = GEODIFF_createRebasedChangeset( pb.c_str(), pm.c_str(), b2t.c_str(), reb.c_str(), conf.c_str() );
        x.check( ( rc != GEODIFF_SUCCESS ) == q.refused, "refusal", fmt( "createRebasedChangeset returned %d, expected %s", rc, q.refused ? "a refusal" : "success" ) );
        x.check( readFile( pm ) == mb, "input-changed", "the modified database was changed" );
        x.check( !exists( conf ), "conflict-file", "an old conflict file was left" );
        if ( q.refused ) x.check( !exists( reb ), "output-left", "a refused rebase left a changeset" );
        x.state( q.name );
        x.transition();
        x.trace();
        x.outcome( q.refused ? "schema refused" : "schema accepted" );
        return;
      }
      const Family *f = nullptr;
      uint64_t b = 0, t = 0, m = 0;
      bool isStrict = idx >= S.total;
      if ( isStrict ) strictOf( idx - S.total, f, b, t, m );
      else S.get( idx, f, b, t, m );
      const std::string *ib = image( *f, b ), *it = image( *f, t, true ), *im = image( *f, m );
      if ( !ib || !it || !im ) { x.outcome( "state excluded by its own constraints" ); return; }
      State B = stateOf( *f, b ), Th = stateOf( *f, t ), M = stateOf( *f, m );
      Merge mg = merge( *f, B, Th, M );
      writeFile( pb, *ib );
      writeFile( pt, *it );
      writeFile( pm, *im );
      x.check( GEODIFF_createChangeset( pb.c_str(), pt.c_str(), b2t.c_str() ) == GEODIFF_SUCCESS, "create-failed", "createChangeset failed" );
      std::string bt = readFile( b2t );
      // reference: THEIRS plus the rebased changeset
      std::string ref = x.p( "ref.db" ), refConf = x.p( "refconflict" );
      writeFile( ref, *it );
      int r1 = GEODIFF_createRebasedChangeset( pb.c_str(), pm.c_str(), b2t.c_str(), reb.c_str(), refConf.c_str() );
      int r2 = r1 == GEODIFF_SUCCESS ? GEODIFF_applyChangeset( ref.c_str(), reb.c_str() ) : -1;
      Content want;
      if ( r2 == GEODIFF_SUCCESS ) want = storedContent( ref, *f );
      for ( int path = 0; path < 2; ++path )
      {
        std::string mine = x.p( path ? "mineEx.db" : "mine2.db" );
        const char *fn = path ? "rebaseEx" : "rebase";
        writeFile( mine, *im );
        writeFile( conf, "stale" );
        int rc = path ? GEODIFF_rebaseEx( "sqlite", "", pb.c_str(), mine.c_str(), b2t.c_str(), conf.c_str() )
                 : GEODIFF_rebase( pb.c_str(), pt.c_str(), mine.c_str(), conf.c_str() );
        x.check( readFile( pb ) == *ib && readFile( pt ) == *it && readFile( b2t ) == bt, "input-changed", std::string( fn ) + " changed an input" );
        for ( auto &q : listDir( x.dir ) )
          for ( const char *s : { "_base2theirs", "-journal", "-wal", "-shm", "_BASE_MODIFIED" } )
            x.check( q.find( s ) == std::string::npos, "debris", std::string( fn ) + " left the file " + q );
        if ( rc != GEODIFF_SUCCESS )
        {
          x.check( storedContent( mine, *f ) == storedContent( pm, *f ), "failed-changed", std::string( fn ) + " failed and changed the database" );
          x.check( schemaOf( mine ) == schemaOf( pm ), "failed-changed", std::string( fn ) + " failed and changed the schema" );
          if ( isStrict ) { x.outcome( "strict family: refused, unchanged" ); continue; }
          if ( mg.refused || ( mg.mayRefuse && r1 != GEODIFF_SUCCESS ) ) { x.outcome( "refused, unchanged" ); continue; }
          if ( r1 == GEODIFF_SUCCESS && r2 != GEODIFF_SUCCESS )
          {
            // neither way works: the fresh key is taken by an untouched row (see P09)
            CSet dec;
            std::string err;
            if ( decode( readFile( reb ), dec, &err ) && freshTaken( *f, dec, B, Th, M ) ) { x.outcome( "fresh key taken, unchanged" ); continue; }
          }
          x.fail( "rebase-failed", fmt( "%s returned %d", fn, rc ) );
        }
        x.check( !mg.refused, "not-refused", std::string( fn ) + " succeeded although the merge is impossible" );
        if ( !isStrict ) x.check( r2 == GEODIFF_SUCCESS, "differs", fmt( "%s succeeded, the rebased changeset could not be made or applied", fn ) );
        Content got = storedContent( mine, *f );
        if ( r2 == GEODIFF_SUCCESS )
        {
          std::string d = diffContent( want, got );
          x.check( d.empty(), "differs", std::string( fn ) + " differs from THEIRS plus the rebased changeset:\n" + d );
          x.check( exists( conf ) == exists( refConf ) && ( !exists( conf ) || readFile( conf ) == readFile( refConf ) ), "conflict-report", std::string( fn ) + ": conflict report differs from that of createRebasedChangeset\n" );
        }
        std::string d = checkMerged( *f, mg, B, Th, M, got );
        x.check( d.empty(), "merge", std::string( fn ) + ":\n" + d );
        std::string cf = checkConflicts( conf, mg.conflicts );
        x.check( cf.empty(), "conflicts", std::string( fn ) + ": " + cf );
        x.check( schemaOf( mine ) == schemaOf( pm ), "schema", std::string( fn ) + " changed the schema" );
        std::string ic = integrity( mine );
        x.check( ic.empty(), "integrity", ic );
        if ( mg.identity && !mg.theirEdits ) x.check( readFile( mine ) == *im, "bytes", std::string( fn ) + " rewrote a database that has nothing to be rebased on" );
        x.outcome( fmt( "%s conflicts=%s", mg.identity ? "one side unchanged" : "rebased", mg.conflicts.empty() ? "no" : "yes" ) );
      }
      x.state( f->name + ":" + std::to_string( b ) );
      x.state( f->name + ":" + std::to_string( t ) );
      x.state( f->name + ":" + std::to_string( m ) );
      x.transition( 3 );
      x.trace( 2 );
    };
    return c;
  } );
}
