// P16: the PostgreSQL driver against a stand-in server: the same guarantees as for SQLite. All pairs
// (and triples) of table states of families covering the supported column types, malformed and
// foreign changesets, sequences, in-place rebase compared with SQLite's, and a fault at every call.
#include "pgspace.h"
#include <unistd.h>
using namespace pgspace;

static const char *BASE = "gd_base", *MOD = "Gd \"Mod'";
static const char *CONN = "host=fake";

static void released( const Ctx & x, const std::string & how )
{
  x.check( !fakepq::inTransaction(), "transaction-open", how + " left a transaction open" );
  x.check( fakepq::openResults() == 0 && fakepq::openConnections() == 0, "not-released", how + fmt( " did not release %d results, %d connections", fakepq::openResults(), fakepq::openConnections() ) );
}
static void checkContent( const Ctx & x, const char *schema, const Fam & f, const State & want, const std::string & key, const std::string & how )
{
  State g = pgRead( schema, f );
  x.check( g == want, key, how + ": the content is\n" + show( g ) + "instead of\n" + show( want ) );
}
//! The next automatic key is above all keys in use
static void checkSeq( const Ctx & x, const char *schema, const Fam & f, const std::string & how )
{
  State s = pgRead( schema, f );
  for ( auto &t : f.tabs )
  {
    if ( !t.serial ) continue;
    long long mx = 0, nx = fakepq::nextval( seqName( schema, t ) );
    for ( auto &r : s[t.name] ) mx = std::max( mx, ( long long )r[t.pk[0]].i );
    x.check( nx > mx, "sequence", how + fmt( ": the next automatic key is %lld while %lld is in use", nx, mx ) );
  }
}

// ---- changesets made elsewhere
struct Foreign { std::string name; int fam; State before; CSet cs; int verdict; };   // 1: applies (by the model), 0: refused, nothing changed, -1: either
static std::vector<Fam> gForeignFam;
static std::vector<Foreign> foreignList()
{
  std::vector<Foreign> r;
  gForeignFam.clear();
  Tab t;
  t.name = "t"; t.serial = true;
  t.cols = { { "fid", "integer" }, { "geom", "geometry(Point,4326)" }, { "name", "text" } };
  t.pk = { 0 };
  gForeignFam.push_back( { "points", { t } } );
  Tab u = t;
  u.cols[1].pg = "geometry(Polygon,4326)";
  gForeignFam.push_back( { "polygons", { u } } );
  Tab w = t;
  w.serial = false;
  w.cols = { { "id", "integer" }, { "r", "double precision" }, { "b", "boolean" }, { "ts", "timestamp" }, { "f", "real" } };
  gForeignFam.push_back( { "types", { w } } );
  Tab two = t;
  two.cols = { { "a", "integer" }, { "b", "text" } };
  two.serial = false;
  Tab three = two;
  three.name = "u";
  three.cols.push_back( { "c", "integer" } );
  gForeignFam.push_back( { "two tables", { two, three } } );
  const std::string pt = wkbPoint( 1, 2 ), pt2 = wkbPoint( 3, 4 ), pg = wkbPoly( { 0, 0, 0, 1, 1, 1, 0, 0 } );
  auto put = [&]( const std::string & n, int fam, std::vector<Row> rows, std::vector<std::pair<CTable, std::vector<CEntry>>> groups, int verdict )
  {
    Foreign f;
    f.name = n; f.fam = fam; f.verdict = verdict;
    for ( auto &tb : gForeignFam[fam].tabs ) f.before[tb.name];
    f.before[gForeignFam[fam].tabs[0].name] = rows;
    for ( auto &g : groups ) { CGroup c; c.table = g.first; c.entries = g.second; f.cs.push_back( c ); }
    r.push_back( f );
  };
  auto ins = []( Row n ) { CEntry e; e.op = OpInsert; e.n = n; return e; };
  auto del = []( Row o ) { CEntry e; e.op = OpDelete; e.o = o; return e; };
  auto upd = []( Row o, Row n ) { CEntry e; e.op = OpUpdate; e.o = o; e.n = n; return e; };
  CTable H = header( t ), HW = header( w ), H2 = header( two ), H3 = header( three );
  // geometries with an envelope, as written by other software
  for ( int env = 0; env <= 4; ++env )
    for ( int other = 0; other <= 1; ++other )
    {
      const std::string &g = pt, e = std::to_string( env ) + ( other ? " polygon" : "" );
      std::string blob = gpb( other ? pg : g, 4326, env ), plain = gpb( other ? pg : g, 4326 ), b2 = gpb( other ? wkbPoly( { 5, 5, 5, 6, 6, 6, 5, 5 } ) : pt2, 4326, env );
      put( "insert with envelope kind " + e, other, {}, { { H, { ins( { I( 1 ), B( blob ), T( "x" ) } ) } } }, 1 );
      put( "update with envelope kind " + e, other, { { I( 1 ), B( plain ), T( "x" ) } }, { { H, { upd( { I( 1 ), B( blob ), U() }, { U(), B( b2 ), U() } ) } } }, 1 );
      put( "delete with envelope kind " + e, other, { { I( 1 ), B( plain ), T( "x" ) } }, { { H, { del( { I( 1 ), B( blob ), T( "x" ) } ) } } }, 1 );
    }
  for ( size_t n : { 0, 1, 4, 7, 8, 9, 12, 28 } )
  {
    put( fmt( "geometry cut to %zu bytes", n ), 0, {}, { { H, { ins( { I( 1 ), B( gpb( pt, 4326 ).substr( 0, n ) ), T( "x" ) } ) } } }, 0 );
    put( fmt( "geometry with envelope cut to %zu bytes", n ), 0, {}, { { H, { ins( { I( 1 ), B( gpb( pt, 4326, 1 ).substr( 0, n ) ), T( "x" ) } ) } } }, 0 );
  }
  put( "envelope kind 7", 0, {}, { { H, { ins( { I( 1 ), B( [&]() { std::string s = gpb( pt, 4326 ); s[3] = 0x0F; return s; }() ), T( "x" ) } ) } } }, -1 );
  put( "text as geometry", 0, {}, { { H, { ins( { I( 1 ), T( "POINT(1 2)" ), T( "x" ) } ) } } }, 0 );
  put( "short text as geometry", 0, {}, { { H, { ins( { I( 1 ), T( "P" ), T( "x" ) } ) } } }, 0 );
  put( "number as geometry", 0, {}, { { H, { ins( { I( 1 ), I( 5 ), T( "x" ) } ) } } }, 0 );
  put( "point into polygons", 1, {}, { { H, { ins( { I( 1 ), B( gpb( pt, 4326 ) ), T( "x" ) } ) } } }, 0 );
  put( "geometry null", 0, {}, { { H, { ins( { I( 1 ), N(), T( "x" ) } ) } } }, 1 );
  // undefined values
  put( "insert of undefined", 0, {}, { { H, { ins( { I( 1 ), N(), U() } ) } } }, 0 );
  put( "insert of undefined key", 0, {}, { { H, { ins( { U(), N(), T( "x" ) } ) } } }, 0 );
  put( "insert of null key", 0, {}, { { H, { ins( { N(), N(), T( "x" ) } ) } } }, 0 );
  put( "insert of text key", 0, {}, { { H, { ins( { T( "5" ), N(), T( "x" ) } ) } } }, -1 );
  put( "insert of real key", 0, {}, { { H, { ins( { R( 5 ), N(), T( "x" ) } ) } } }, -1 );
  put( "insert of blob key", 0, {}, { { H, { ins( { B( "5" ), N(), T( "x" ) } ) } } }, -1 );
  put( "insert of negative key", 0, {}, { { H, { ins( { I( -5 ), N(), T( "x" ) } ) } } }, 1 );
  put( "insert of a key out of range", 0, {}, { { H, { ins( { I( 2147483648LL ), N(), T( "x" ) } ) } } }, 0 );
  put( "insert of the largest key", 0, {}, { { H, { ins( { I( 2147483647LL ), N(), T( "x" ) } ) } } }, 1 );
  put( "delete with undefined", 0, { { I( 1 ), N(), T( "x" ) } }, { { H, { del( { I( 1 ), N(), U() } ) } } }, 0 );
  put( "delete with undefined key", 0, { { I( 1 ), N(), T( "x" ) } }, { { H, { del( { U(), N(), T( "x" ) } ) } } }, 0 );
  put( "delete with null key", 0, { { I( 1 ), N(), T( "x" ) } }, { { H, { del( { N(), N(), T( "x" ) } ) } } }, 0 );
  put( "update with undefined key", 0, { { I( 1 ), N(), T( "x" ) } }, { { H, { upd( { U(), U(), T( "x" ) }, { U(), U(), T( "y" ) } ) } } }, 0 );
  put( "update of two rows by a missing key", 0, { { I( 1 ), N(), T( "x" ) }, { I( 2 ), N(), T( "x" ) } }, { { H, { upd( { U(), U(), T( "x" ) }, { U(), U(), T( "y" ) } ) } } }, 0 );
  put( "update without old value", 0, { { I( 1 ), N(), T( "x" ) } }, { { H, { upd( { I( 1 ), U(), U() }, { U(), U(), T( "y" ) } ) } } }, 0 );
  put( "update of nothing", 0, { { I( 1 ), N(), T( "x" ) } }, { { H, { upd( { I( 1 ), U(), U() }, { U(), U(), U() } ) } } }, -1 );
  put( "text with NUL", 0, {}, { { H, { ins( { I( 1 ), N(), T( std::string( "a\0b", 3 ) ) } ) } } }, 0 );
  put( "text with NUL at the end", 0, {}, { { H, { ins( { I( 1 ), N(), T( std::string( "a\0", 2 ) ) } ) } } }, 0 );
  put( "text that is not UTF-8", 0, {}, { { H, { ins( { I( 1 ), N(), T( "a\xff" ) } ) } } }, 0 );
  put( "update of the key", 0, { { I( 1 ), N(), T( "x" ) } }, { { H, { upd( { I( 1 ), U(), U() }, { I( 2 ), U(), U() } ) } } }, -1 );
  // values of another type than the column's
  put( "fraction into an integer", 3, {}, { { H3, { ins( { I( 1 ), T( "x" ), R( 1.5 ) } ) } } }, 0 );
  put( "whole real into an integer", 3, {}, { { H3, { ins( { I( 1 ), T( "x" ), R( 2 ) } ) } } }, -1 );
  put( "text into an integer", 3, {}, { { H3, { ins( { I( 1 ), T( "x" ), T( "abc" ) } ) } } }, 0 );
  put( "integer out of range", 3, {}, { { H3, { ins( { I( 1 ), T( "x" ), I( 3000000000LL ) } ) } } }, 0 );
  put( "text into a real", 2, {}, { { HW, { ins( { I( 1 ), T( "abc" ), N(), N(), N() } ) } } }, 0 );
  put( "text into a boolean", 2, {}, { { HW, { ins( { I( 1 ), N(), T( "abc" ), N(), N() } ) } } }, 0 );
  put( "5 into a boolean", 2, {}, { { HW, { ins( { I( 1 ), N(), I( 5 ), N(), N() } ) } } }, 0 );
  put( "update from 5 of a boolean", 2, { { I( 1 ), N(), I( 1 ), N(), N() } }, { { HW, { upd( { I( 1 ), U(), I( 5 ), U(), U() }, { U(), U(), I( 0 ), U(), U() } ) } } }, 0 );
  put( "text into a timestamp", 2, {}, { { HW, { ins( { I( 1 ), N(), N(), T( "yesterday" ), N() } ) } } }, 0 );
  put( "integer into a real", 2, {}, { { HW, { ins( { I( 1 ), I( 4 ), N(), N(), I( 4 ) } ) } } }, -1 );
  // tables
  put( "no such table", 0, { { I( 1 ), N(), T( "x" ) } }, { { CTable{ "nosuch", { 1, 0 } }, { ins( { I( 1 ), I( 2 ) } ) } } }, 0 );
  put( "name in other case", 0, {}, { { CTable{ "T", { 1, 0, 0 } }, { ins( { I( 1 ), N(), T( "x" ) } ) } } }, 0 );
  put( "empty table name", 0, {}, { { CTable{ "", { 1, 0, 0 } }, { ins( { I( 1 ), N(), T( "x" ) } ) } } }, 0 );
  put( "table name to inject", 0, { { I( 1 ), N(), T( "x" ) } }, { { CTable{ "t\"; DELETE FROM gd_base.t; --", { 1, 0, 0 } }, { ins( { I( 2 ), N(), T( "x" ) } ) } } }, 0 );
  put( "table name to inject 2", 0, { { I( 1 ), N(), T( "x" ) } }, { { CTable{ "t'; DELETE FROM gd_base.t; --", { 1, 0, 0 } }, { ins( { I( 2 ), N(), T( "x" ) } ) } } }, 0 );
  put( "text to inject", 0, { { I( 1 ), N(), T( "x" ) } }, { { H, { ins( { I( 2 ), N(), T( "'); DELETE FROM gd_base.t; --" ) } ), ins( { I( 3 ), N(), T( "\\'); DELETE FROM gd_base.t; --" ) } ) } } }, 1 );
  put( "too few columns", 0, {}, { { CTable{ "t", { 1, 0 } }, { ins( { I( 1 ), N() } ) } } }, 0 );
  put( "too many columns", 0, {}, { { CTable{ "t", { 1, 0, 0, 0 } }, { ins( { I( 1 ), N(), T( "x" ), I( 1 ) } ) } } }, 0 );
  put( "other key", 0, {}, { { CTable{ "t", { 0, 1, 0 } }, { ins( { I( 1 ), N(), T( "x" ) } ) } } }, 0 );
  put( "second header with fewer columns", 0, {}, { { H, { ins( { I( 1 ), N(), T( "x" ) } ) } }, { CTable{ "t", { 1 } }, { ins( { I( 2 ) } ) } } }, 0 );
  put( "second header with more columns", 0, {}, { { H, { ins( { I( 1 ), N(), T( "x" ) } ) } }, { CTable{ "t", { 1, 0, 0, 0 } }, { ins( { I( 2 ), N(), T( "x" ), I( 1 ) } ) } } }, 0 );
  put( "second header with other key", 0, {}, { { H, { ins( { I( 1 ), N(), T( "x" ) } ) } }, { CTable{ "t", { 0, 0, 1 } }, { ins( { I( 2 ), N(), T( "x" ) } ) } } }, 0 );
  put( "tables in turn", 3, {}, { { H2, { ins( { I( 1 ), T( "x" ) } ) } }, { H3, { ins( { I( 1 ), T( "x" ), N() } ) } }, { H2, { ins( { I( 2 ), T( "y" ) } ) } }, { H3, { ins( { I( 2 ), T( "y" ), I( 5 ) } ) } } }, 1 );
  put( "second table does not fit", 3, { { I( 5 ), T( "q" ) } }, { { H2, { ins( { I( 1 ), T( "x" ) } ), del( { I( 5 ), T( "q" ) } ) } }, { H3, { del( { I( 1 ), T( "x" ), N() } ) } } }, 0 );
  // GeoPackage's own tables are skipped (documented)
  put( "only GeoPackage's tables", 0, { { I( 1 ), N(), T( "x" ) } }, { { CTable{ "gpkg_contents", { 1, 0 } }, { upd( { T( "t" ), T( "a" ) }, { U(), T( "b" ) } ) } } }, 1 );
  put( "empty changeset", 0, { { I( 1 ), N(), T( "x" ) } }, {}, 1 );
  return r;
}

// ---- schemas that differ
struct Mismatch { std::string name, a, b; bool refused; };
static const std::vector<Mismatch> MIS =
{
  { "same", "CREATE TABLE %s.t(id integer PRIMARY KEY, v text)", "CREATE TABLE %s.t(id integer PRIMARY KEY, v text)", false },
  { "table added", "CREATE TABLE %s.t(id integer PRIMARY KEY, v text)", "CREATE TABLE %s.t(id integer PRIMARY KEY, v text); CREATE TABLE %s.u(id integer PRIMARY KEY)", true },
  { "table removed", "CREATE TABLE %s.t(id integer PRIMARY KEY, v text); CREATE TABLE %s.u(id integer PRIMARY KEY)", "CREATE TABLE %s.t(id integer PRIMARY KEY, v text)", true },
  { "table renamed", "CREATE TABLE %s.t(id integer PRIMARY KEY, v text)", "CREATE TABLE %s.u(id integer PRIMARY KEY, v text)", true },
  { "table renamed by case", "CREATE TABLE %s.t(id integer PRIMARY KEY, v text)", "CREATE TABLE %s.\"T\"(id integer PRIMARY KEY, v text)", true },
  { "created in another order", "CREATE TABLE %s.t(id integer PRIMARY KEY, v text); CREATE TABLE %s.a(id integer PRIMARY KEY)", "CREATE TABLE %s.a(id integer PRIMARY KEY); CREATE TABLE %s.t(id integer PRIMARY KEY, v text)", false },
  { "column added", "CREATE TABLE %s.t(id integer PRIMARY KEY, v text)", "CREATE TABLE %s.t(id integer PRIMARY KEY, v text, w text)", true },
  { "column removed", "CREATE TABLE %s.t(id integer PRIMARY KEY, v text, w text)", "CREATE TABLE %s.t(id integer PRIMARY KEY, v text)", true },
  { "column renamed", "CREATE TABLE %s.t(id integer PRIMARY KEY, v text)", "CREATE TABLE %s.t(id integer PRIMARY KEY, w text)", true },
  { "columns swapped", "CREATE TABLE %s.t(id integer PRIMARY KEY, v text, w text)", "CREATE TABLE %s.t(id integer PRIMARY KEY, w text, v text)", true },
  { "type changed", "CREATE TABLE %s.t(id integer PRIMARY KEY, v text)", "CREATE TABLE %s.t(id integer PRIMARY KEY, v integer)", true },
  { "precision changed", "CREATE TABLE %s.t(id integer PRIMARY KEY, v real)", "CREATE TABLE %s.t(id integer PRIMARY KEY, v double precision)", true },
  { "not null added", "CREATE TABLE %s.t(id integer PRIMARY KEY, v text)", "CREATE TABLE %s.t(id integer PRIMARY KEY, v text NOT NULL)", true },
  { "key moved", "CREATE TABLE %s.t(id integer NOT NULL, v text NOT NULL, PRIMARY KEY(id))", "CREATE TABLE %s.t(id integer NOT NULL, v text NOT NULL, PRIMARY KEY(v))", true },
  { "key extended", "CREATE TABLE %s.t(id integer NOT NULL, v text NOT NULL, PRIMARY KEY(id))", "CREATE TABLE %s.t(id integer NOT NULL, v text NOT NULL, PRIMARY KEY(id, v))", true },
  { "key dropped", "CREATE TABLE %s.t(id integer NOT NULL PRIMARY KEY, v text)", "CREATE TABLE %s.t(id integer NOT NULL, v text)", true },
  { "reference system", "CREATE TABLE %s.t(id integer PRIMARY KEY, g geometry(Point, 4326))", "CREATE TABLE %s.t(id integer PRIMARY KEY, g geometry(Point, 3857))", true },
  { "kind of geometry", "CREATE TABLE %s.t(id integer PRIMARY KEY, g geometry(Point, 4326))", "CREATE TABLE %s.t(id integer PRIMARY KEY, g geometry(LineString, 4326))", true },
  { "dimension", "CREATE TABLE %s.t(id integer PRIMARY KEY, g geometry(Point, 4326))", "CREATE TABLE %s.t(id integer PRIMARY KEY, g geometry(PointZ, 4326))", true },
};

int main( int argc, char **argv )
{
  return checkMain( argc, argv, []( const Opts & o )
  {
    static const std::vector<Fam> F = families( o.thorough );
    static const std::vector<Foreign> X = foreignList();
    static const std::vector<const char *> FAULTOPS = { "create", "apply", "apply that does not fit", "rebase", "rebase with conflict" };
    static const int MAXCALLS = 120;
    static const bool thorough = o.thorough;
    struct Part { int kind; size_t fam; uint64_t n; };
    static std::vector<Part> P;
    P.clear();
    enum { Pairs, Triples, Foreigns, Seqs, Rebase, Faults, Schemas, Meanwhile };
    uint64_t pairs = 0, triples = 0, rebs = 0;
    for ( size_t i = 0; i < F.size(); ++i )
    {
      uint64_t n = F[i].states();
      P.push_back( { Pairs, i, n * n } );
      pairs += n * n;
      if ( n <= ( o.thorough ? 64u : 28u ) ) { P.push_back( { Triples, i, n * n * n } ); triples += n * n * n; }
      if ( F[i].rebase && n <= ( o.thorough ? 130u : 32u ) ) { P.push_back( { Rebase, i, n * n * n } ); rebs += n * n * n; }
    }
    P.push_back( { Foreigns, 0, X.size() } );
    P.push_back( { Seqs, 0, 4 * 8 * 8 * 2 } );
    P.push_back( { Faults, 0, FAULTOPS.size() * MAXCALLS * 3 } );
    P.push_back( { Schemas, 0, MIS.size() } );
    P.push_back( { Meanwhile, 0, 4 * MAXCALLS } );
    Check c;
    c.property = "P16";
    c.odd = true;
    c.rule = "a state is the content of a PostgreSQL schema, a transition is the creation, application or rebase of a changeset through the driver; changesets are compared with the difference of the states, contents with a model, rebased content with the SQLite driver's";
    c.bounds = { fmt( "%zu families of tables, all ordered pairs of states: %llu, each created, applied, inverted and applied back", F.size(), ( unsigned long long ) pairs ),
                 fmt( "all triples (the changeset from the first to the second state applied to the third) of the smaller families: %llu", ( unsigned long long ) triples ),
                 fmt( "all triples of states for in-place rebase: %llu", ( unsigned long long ) rebs ),
                 fmt( "%zu hand-made changesets: geometries with every kind of envelope, cut geometries, undefined and misfit values, other headers", X.size() ),
                 fmt( "%zu operations with an error, a missing result, a broken connection at each call to the server", FAULTOPS.size() ),
                 fmt( "%zu pairs of schemas; sequences fresh, ahead, at any of 8 states", MIS.size() ),
                 "creation and dump with another client's commit before each call to the server" };
    c.assumptions = { "the server is a stand-in with PostgreSQL's name, literal, type and transaction rules for the SQL in use, not PostgreSQL itself", "no foreign keys, no NaN, no infinite timestamps or years BC" };
    c.count = 0;
    for ( auto &p : P ) c.count += p.n;
    struct Case { int kind; size_t fam; uint64_t i; };
    auto get = []( uint64_t i )
    {
      for ( auto &p : P )
      {
        if ( i < p.n ) return Case{ p.kind, p.fam, i };
        i -= p.n;
      }
      return Case{ 0, 0, 0 };
    };
    c.describe = [ = ]( uint64_t idx )
    {
      Case k = get( idx );
      const Fam &f = F[k.fam];
      uint64_t n = f.states();
      std::string s;
      if ( k.kind == Pairs || k.kind == Triples || k.kind == Rebase )
      {
        static const char *names[3][3] = { { "base", "modified", "" }, { "from", "to", "applied to" }, { "base", "theirs", "mine" } };
        int w = k.kind == Pairs ? 0 : k.kind == Triples ? 1 : 2;
        s = f.name + ( w == 2 ? ": in-place rebase\n" : "\n" );
        Dig d( k.i );
        for ( int j = 0; j < ( w ? 3 : 2 ); ++j ) s += std::string( names[w][j] ) + "\n" + mc::show( stateOf( f, d.take( n ) ) );
      }
      else if ( k.kind == Foreigns ) s = X[k.i].name + "\n" + mc::show( X[k.i].before ) + mc::show( X[k.i].cs );
      else if ( k.kind == Seqs ) s = fmt( "sequence case %llu", ( unsigned long long )k.i );
      else if ( k.kind == Faults ) { Dig d( k.i ); const char *op = FAULTOPS[d.take( FAULTOPS.size() )]; int how = d.take( 3 ) + 1; s = fmt( "%s, call %llu: %s", op, ( unsigned long long )d.v, how == 1 ? "error" : how == 2 ? "no memory" : "connection lost" ); }
      else if ( k.kind == Meanwhile ) s = fmt( "another client commits: case %llu", ( unsigned long long )k.i );
      else s = MIS[k.i].name;
      return s;
    };
    c.run = [ = ]( const Ctx & x )
    {
      Case k = get( x.idx );
      std::string cs = x.p( "cs" ), inv = x.p( "inv" ), err;
      struct Stop { ~Stop() { fakepq::stop(); } } stop;
      fakepq::start();
      if ( k.kind == Pairs )
      {
        const Fam &f = F[k.fam];
        Dig d( k.i );
        uint64_t a = d.take( f.states() ), b = d.take( f.states() );
        State A = stateOf( f, a ), M = stateOf( f, b );
        pgSetup( BASE, f, A );
        pgSetup( MOD, f, M );
        unlink( cs.c_str() );
        int rc = GEODIFF_createChangesetEx( "postgres", CONN, BASE, MOD, cs.c_str() );
        released( x, "createChangesetEx" );
        x.check( rc == GEODIFF_SUCCESS, "create-failed", fmt( "createChangesetEx returned %d: ", rc ) + x.lastLog() );
        CSet got, want = difference( f, A, M );
        x.check( decode( readFile( cs ), got, &err ), "undecodable", "the changeset is not in format: " + err );
        x.note( mc::show( got ) );
        x.check( canon( got ) == canon( want ), "difference", "the changeset is\n" + mc::show( got ) + "instead of\n" + mc::show( want ) );
        checkContent( x, BASE, f, A, "input-changed", "createChangesetEx" );
        checkContent( x, MOD, f, M, "input-changed", "createChangesetEx" );
        // there and back
        State keyed = A;
        for ( auto &t : f.tabs ) if ( !t.pk.empty() ) keyed[t.name] = M[t.name];
        rc = GEODIFF_applyChangesetEx( "postgres", CONN, BASE, cs.c_str() );
        released( x, "applyChangesetEx" );
        x.check( rc == GEODIFF_SUCCESS, "apply-failed", fmt( "applyChangesetEx returned %d: ", rc ) + x.lastLog() );
        checkContent( x, BASE, f, keyed, "round-trip", "after applying the changeset" );
        checkSeq( x, BASE, f, "after applying the changeset" );
        checkContent( x, MOD, f, M, "input-changed", "applyChangesetEx" );
        x.check( GEODIFF_invertChangeset( cs.c_str(), inv.c_str() ) == GEODIFF_SUCCESS, "invert-failed", "invertChangeset failed" );
        rc = GEODIFF_applyChangesetEx( "postgres", CONN, BASE, inv.c_str() );
        x.check( rc == GEODIFF_SUCCESS, "apply-failed", fmt( "applying the inverse returned %d: ", rc ) + x.lastLog() );
        checkContent( x, BASE, f, A, "round-trip", "after applying the inverse" );
        checkSeq( x, BASE, f, "after applying the inverse" );
        x.state( f.name + std::to_string( a ) );
        x.transition( 3 );
        x.trace( 3 );
        x.outcome( fmt( "entries=%zu", countEntries( got ) ) );
        if ( a != b ) x.nontrivial( f.name );
        return;
      }
      if ( k.kind == Triples || k.kind == Foreigns )
      {
        const Fam &f = k.kind == Triples ? F[k.fam] : gForeignFam[X[k.i].fam];
        State before, after;
        CSet s;
        int verdict;
        if ( k.kind == Triples )
        {
          Dig d( k.i );
          uint64_t n = f.states(), a = d.take( n ), b = d.take( n ), t = d.take( n );
          before = stateOf( f, t );
          s = difference( f, stateOf( f, a ), stateOf( f, b ) );
          after = before;
          verdict = applyModel( f, after, s );
          x.state( f.name + std::to_string( t ) );
        }
        else
        {
          before = after = X[k.i].before;
          s = X[k.i].cs;
          verdict = X[k.i].verdict;
          if ( verdict == 1 )
          {
            CSet own;
            for ( auto &g : s ) if ( g.table.name.compare( 0, 5, "gpkg_" ) ) own.push_back( g );
            if ( !applyModel( f, after, own ) ) throw CaseFail{ "setup", "model refuses" };
          }
          x.state( X[k.i].name );
        }
        // stored geometries have no envelope
        for ( auto &t : f.tabs ) for ( auto &r : after[t.name] ) for ( size_t i = 0; i < r.size(); ++i )
              if ( isGeom( t.cols[i] ) && r[i].t == Val::Blob ) { static const int n[] = { 0, 32, 48, 48, 64, 0, 0, 0 }; int e = n[( r[i].s[3] >> 1 ) & 7]; r[i].s = r[i].s.substr( 0, 8 ) + r[i].s.substr( 8 + e ); r[i].s[3] = 1; }
        pgSetup( BASE, f, before );
        writeFile( cs, encode( s ) );
        int rc = GEODIFF_applyChangesetEx( "postgres", CONN, BASE, cs.c_str() );
        released( x, "applyChangesetEx" );
        State got = pgRead( BASE, f );
        if ( verdict == 1 )
        {
          x.check( rc == GEODIFF_SUCCESS, "refused", fmt( "a changeset that fits is refused (%d): ", rc ) + x.lastLog() );
          x.check( got == after, "content", "the content is\n" + mc::show( got ) + "instead of\n" + mc::show( after ) );
          checkSeq( x, BASE, f, "after applying" );
        }
        else if ( rc != GEODIFF_SUCCESS || verdict == 0 )
        {
          x.check( rc != GEODIFF_SUCCESS, "not-refused", "a changeset that does not fit is applied, leaving\n" + mc::show( got ) );
          x.check( got == before, "failed-changed", "the refused changeset changed the content to\n" + mc::show( got ) );
        }
        else if ( X[k.i].name != "update of the key" ) checkSeq( x, BASE, f, "after applying" );   // not in the format: neither driver makes these
        x.transition();
        x.trace();
        x.outcome( rc == GEODIFF_SUCCESS ? "applied" : "refused" );
        return;
      }
      if ( k.kind == Seqs )
      {
        // rows of a serial table (8 states) before, to be inserted (8), sequence: fresh / last key / one behind / far ahead, names plain or to be quoted
        Dig d( k.i );
        int seq = d.take( 4 ), had = d.take( 8 ), add = d.take( 8 ), quoted = d.take( 2 );
        Tab t;
        t.name = quoted ? "My \"Tab'" : "t";
        t.serial = true;
        t.cols = { { quoted ? "Fid" : "fid", "integer" }, { "v", "text" } };
        t.pk = { 0 };
        Fam f{ "sequence", { t } };
        static const long long KEYS[] = { 1, 2, 2147483600 };
        State s, w;
        s[t.name];
        CGroup g;
        g.table = header( t );
        long long mx = 0;
        bool twice = false;
        for ( int j = 0; j < 3; ++j )
        {
          if ( had >> j & 1 ) { s[t.name].push_back( { I( KEYS[j] ), T( "had" ) } ); mx = KEYS[j]; }
          if ( add >> j & 1 ) { CEntry e; e.op = OpInsert; e.n = { I( KEYS[j] ), T( "added" ) }; g.entries.insert( g.entries.begin(), e ); }   // largest first
          twice |= had >> j & add >> j & 1;
        }
        // a sequence behind the keys in use was so before
        if ( ( seq == 0 && mx ) || ( seq == 1 && !mx ) || ( seq == 2 && mx < 2 ) ) { x.outcome( "no such sequence state" ); return; }
        pgTables( BASE, f );
        t.serial = false;
        pgFill( BASE, Fam{ "", { t } }, s );
        std::string q = pgStr( quoteId( BASE ) + "." + quoteId( f.tabs[0].name + "_" + t.cols[0].name + "_seq" ) );
        if ( seq == 1 ) must( "SELECT setval(" + q + ", " + std::to_string( mx ) + ")" );
        if ( seq == 2 ) must( "SELECT setval(" + q + ", " + std::to_string( mx + 1 ) + ", false)" );
        if ( seq == 3 ) must( "SELECT setval(" + q + ", 2147483640)" );
        long long before = fakepq::nextval( seqName( BASE, f.tabs[0] ) );
        CSet c;
        if ( !g.entries.empty() ) c.push_back( g );
        w = s;
        applyModel( f, w, c );
        writeFile( cs, encode( c ) );
        int rc = GEODIFF_applyChangesetEx( "postgres", CONN, BASE, cs.c_str() );
        released( x, "applyChangesetEx" );
        x.check( ( rc == GEODIFF_SUCCESS ) == !twice, "verdict", fmt( "applyChangesetEx returned %d", rc ) );
        checkContent( x, BASE, f, w, "content", "after applying" );
        checkSeq( x, BASE, f, "after applying" );
        x.check( fakepq::nextval( seqName( BASE, f.tabs[0] ) ) >= before, "sequence-back", "the sequence went back" );
        x.state( fmt( "sequence %d %d %d", seq, had, quoted ) );
        x.transition();
        x.trace();
        x.outcome( rc == GEODIFF_SUCCESS ? "applied" : "refused" );
        return;
      }
      std::string conf = x.p( "conf" );
      unlink( conf.c_str() );
      if ( k.kind == Rebase )
      {
        const Fam &f = F[k.fam];
        uint64_t n = f.states();
        Dig d( k.i );
        uint64_t ib = d.take( n ), it = d.take( n ), im = d.take( n );
        State b = stateOf( f, ib ), th = stateOf( f, it ), mi = stateOf( f, im );
        // the same in SQLite
        std::string pb = x.p( "base.db" ), pm = x.p( "mine.db" ), ddl, confS = x.p( "confS" );
        const Tab &t = f.tabs[0];
        auto sqlite = [&]( const State & s )
        {
          std::string q = "CREATE TABLE t(fid INTEGER PRIMARY KEY, name TEXT, rating INTEGER);";
          for ( auto &r : s.at( t.name ) ) q += "INSERT INTO t VALUES(" + sqlLit( r[0] ) + "," + sqlLit( r[1] ) + "," + sqlLit( r[2] ) + ");";
          return cachedImage( q );
        };
        writeFile( pb, sqlite( b ) );
        writeFile( pm, sqlite( mi ) );
        unlink( confS.c_str() );
        writeFile( cs, encode( difference( f, b, th ) ) );
        int rs = GEODIFF_rebaseEx( "sqlite", "", pb.c_str(), pm.c_str(), cs.c_str(), confS.c_str() );
        std::vector<Row> ws;
        { Db db( pm ); ws = db.query( "SELECT * FROM t" ); }
        std::sort( ws.begin(), ws.end() );
        pgSetup( BASE, f, b );
        pgSetup( MOD, f, mi );
        int rp = GEODIFF_rebaseEx( "postgres", CONN, BASE, MOD, cs.c_str(), conf.c_str() );
        released( x, "rebaseEx" );
        x.check( ( rs == GEODIFF_SUCCESS ) == ( rp == GEODIFF_SUCCESS ), "rebase-verdict", fmt( "rebaseEx returned %d for PostgreSQL, %d for SQLite: ", rp, rs ) + x.lastLog() );
        State w = mi;
        w[t.name] = ws;
        checkContent( x, BASE, f, b, "input-changed", "rebaseEx" );
        checkContent( x, MOD, f, w, "rebase-content", "rebaseEx (SQLite's result being the reference)" );
        checkSeq( x, MOD, f, "after the rebase" );
        auto items = []( const std::string & p )
        {
          std::set<std::string> r;
          if ( !exists( p ) ) return r;
          Json j;
          std::string e;
          if ( !parseJson( readFile( p ), j, &e ) ) { r.insert( "not JSON: " + e ); return r; }
          auto text = []( const Json * v ) { return v ? fmt( "%d:", v->k ) + v->s : std::string( "-" ); };
          if ( const Json *g = j.get( "geodiff" ) ) for ( auto &q : g->a ) if ( const Json *ch = q.get( "changes" ) ) for ( auto &z : ch->a )
                  r.insert( text( q.get( "table" ) ) + "|" + text( q.get( "fid" ) ) + "|" + text( z.get( "column" ) ) + "|" + text( z.get( "base" ) ) + "|" + text( z.get( "old" ) ) + "|" + text( z.get( "new" ) ) );
          return r;
        };
        x.check( exists( conf ) == exists( confS ) && items( conf ) == items( confS ), "rebase-conflicts", "the conflicts differ from SQLite's:\n" + readFile( conf ) + "\nSQLite:\n" + readFile( confS ) );
        x.state( fmt( "rebase %llu %llu", ( unsigned long long )ib, ( unsigned long long )im ) );
        x.transition( 2 );
        x.trace();
        x.outcome( fmt( "rebase %s, conflicts %zu", rp == GEODIFF_SUCCESS ? "done" : "refused", items( conf ).size() ) );
        return;
      }
      if ( k.kind == Schemas )
      {
        const Mismatch &m = MIS[k.i];
        int q = 0;
        for ( const std::string &s : { m.a, m.b } )
        {
          std::string d = s, sch = q++ ? "gd_mod" : "gd_base";
          must( "CREATE SCHEMA " + sch );
          for ( size_t p; ( p = d.find( "%s" ) ) != std::string::npos; ) d.replace( p, 2, sch );
          must( d );
        }
        for ( int swap = 0; swap < 2; ++swap )
        {
          int rc = GEODIFF_createChangesetEx( "postgres", CONN, swap ? "gd_mod" : "gd_base", swap ? "gd_base" : "gd_mod", cs.c_str() );
          released( x, "createChangesetEx" );
          x.check( ( rc != GEODIFF_SUCCESS ) == m.refused, "schemas", fmt( "createChangesetEx returned %d", rc ) );
        }
        int rc = GEODIFF_createChangesetEx( "postgres", CONN, "gd_base", "nosuch", cs.c_str() );
        x.check( rc != GEODIFF_SUCCESS, "missing-schema", "createChangesetEx with a missing schema succeeds" );
        rc = GEODIFF_createChangesetEx( "postgres", CONN, "nosuch", "gd_base", cs.c_str() );
        x.check( rc != GEODIFF_SUCCESS, "missing-schema", "createChangesetEx with a missing schema succeeds" );
        rc = GEODIFF_createChangesetEx( "postgres", "host=nowhere", "gd_base", "gd_mod", cs.c_str() );
        x.check( rc != GEODIFF_SUCCESS, "no-connection", "createChangesetEx without connection succeeds" );
        released( x, "failing calls" );
        x.state( m.name );
        x.transition( 5 );
        x.outcome( m.refused ? "refused" : "accepted" );
        return;
      }
      if ( k.kind == Meanwhile )
      {
        // rows move between tables of the base, of the modified, of both schemas, and while dumping
        Dig d( k.i );
        int op = d.take( 4 );
        long call = d.v;
        Fam f{ "meanwhile", {} };
        for ( const char *n : { "a", "b", "c" } ) { Tab t; t.name = n; t.cols = { { "id", "integer" }, { "v", "text" } }; t.pk = { 0 }; f.tabs.push_back( t ); }
        State b, b2, m, m2;
        b["a"] = { { I( 1 ), T( "x" ) }, { I( 2 ), T( "x" ) } };
        b["b"] = { { I( 1 ), T( "y" ) } };
        b["c"] = { { I( 7 ), T( "z" ) } };
        m = b;
        m["b"].push_back( { I( 9 ), T( "new" ) } );
        b2 = b; m2 = m;
        std::string edit;
        for ( int q = 0; q < 2; ++q )
          if ( op == 2 || q == ( op == 1 ) )
          {
            State &s = q ? m2 : b2;
            std::string p = quoteId( q ? MOD : BASE ) + ".";
            edit += "INSERT INTO " + p + "a VALUES(3,'moved'); DELETE FROM " + p + "a WHERE id=2; UPDATE " + p + "b SET v='edited' WHERE id=1; INSERT INTO " + p + "c VALUES(8,'moved'); DELETE FROM " + p + "c WHERE id=7;";
            s["a"] = { { I( 1 ), T( "x" ) }, { I( 3 ), T( "moved" ) } };
            s["b"][0][1] = T( "edited" );
            s["c"] = { { I( 8 ), T( "moved" ) } };
          }
        pgSetup( BASE, f, b );
        pgSetup( MOD, f, m );
        unlink( cs.c_str() );
        fakepq::editAt( call, edit );
        int rc = op == 3 ? GEODIFF_dumpData( "postgres", CONN, BASE, cs.c_str() ) : GEODIFF_createChangesetEx( "postgres", CONN, BASE, MOD, cs.c_str() );
        bool hit = fakepq::calls() > call;
        fakepq::editAt( -1, "" );
        released( x, "the call" );
        x.check( call < MAXCALLS - 1 || !hit, "setup", "more calls than thought" );
        x.check( rc == GEODIFF_SUCCESS, "create-failed", fmt( "the call returned %d: ", rc ) + x.lastLog() );
        CSet got;
        x.check( decode( readFile( cs ), got, &err ), "undecodable", "the changeset is not in format: " + err );
        State none;
        for ( auto &t : f.tabs ) none[t.name];
        CSet w1 = op == 3 ? difference( f, none, b ) : difference( f, b, m ), w2 = op == 3 ? difference( f, none, b2 ) : difference( f, b2, m2 );
        x.check( canon( got ) == canon( w1 ) || ( hit && canon( got ) == canon( w2 ) ), "mixed-states", "the changeset\n" + mc::show( got ) + "describes neither the earlier state\n" + mc::show( w1 ) + "nor the later\n" + mc::show( w2 ) );
        x.state( fmt( "meanwhile %d %ld", op, call ) );
        x.transition();
        x.outcome( hit ? canon( got ) == canon( w1 ) ? "earlier state" : "later state" : "no concurrent commit" );
        return;
      }
      // a fault at one call to the server
      Dig d( k.i );
      int op = d.take( FAULTOPS.size() ), how = d.take( 3 ) + 1;
      long call = d.v;
      Tab t, u;
      t.name = "t"; t.serial = true;
      t.cols = { { "fid", "integer" }, { "geom", "geometry(Point,4326)" }, { "name", "text" } };
      t.pk = { 0 };
      u.name = "u";
      u.cols = { { "k", "text" }, { "v", "double precision" } };
      u.pk = { 0 };
      Fam f{ "fault", { t, u } };
      auto pt = []( int v ) { return B( gpb( wkbPoint( v, v ), 4326 ) ); };
      State b, m, th;
      b["t"] = { { I( 1 ), pt( 1 ), T( "a" ) }, { I( 2 ), pt( 2 ), T( "b" ) }, { I( 3 ), N(), N() } };
      b["u"] = { { T( "x" ), R( 1 ) } };
      if ( op >= 3 ) { f.tabs.pop_back(); b.erase( "u" ); }
      m = th = b;
      m["t"] = { { I( 1 ), pt( 1 ), T( "mine" ) }, { I( 3 ), N(), N() }, { I( 4 ), pt( 4 ), T( "new" ) } };
      if ( op < 3 ) m["u"] = { { T( "x" ), R( 2.5 ) }, { T( "y" ), N() } };
      th["t"] = { { I( 1 ), pt( 1 ), T( op == 4 ? "theirs" : "a" ) }, { I( 2 ), pt( 5 ), T( "b" ) }, { I( 4 ), pt( 7 ), T( "their new" ) } };
      if ( op == 3 ) th["t"].erase( th["t"].begin() );
      if ( op == 3 ) th["t"].insert( th["t"].begin(), b["t"][0] );
      pgSetup( BASE, f, b );
      pgSetup( MOD, f, m );
      CSet s = op < 3 ? difference( f, b, m ) : difference( f, b, th );
      if ( op == 2 ) { CEntry e; e.op = OpDelete; e.o = { T( "q" ), R( 1 ) }; s.back().entries.push_back( e ); }
      writeFile( cs, encode( s ) );
      std::string out = x.p( "out" );
      unlink( out.c_str() );
      auto act = [&]()
      {
        if ( op == 0 ) return GEODIFF_createChangesetEx( "postgres", CONN, BASE, MOD, out.c_str() );
        if ( op < 3 ) return GEODIFF_applyChangesetEx( "postgres", CONN, BASE, cs.c_str() );
        return GEODIFF_rebaseEx( "postgres", CONN, BASE, MOD, cs.c_str(), conf.c_str() );
      };
      fakepq::failAt( call, how );
      int rc = act();
      bool hit = fakepq::calls() > call;
      fakepq::failAt( -1, 0 );
      released( x, FAULTOPS[op] );
      x.check( call < MAXCALLS - 1 || !hit, "setup", "more calls than thought" );
      State gb = pgRead( BASE, f ), gm = pgRead( MOD, f );
      State wb = b;
      if ( !hit )
      {
        x.check( ( rc == GEODIFF_SUCCESS ) == ( op != 2 ), "verdict", fmt( "%s without fault returned %d: ", FAULTOPS[op], rc ) + x.lastLog() );
        if ( op == 1 ) applyModel( f, wb, s );
        x.check( gb == wb, "content", "the base content is\n" + mc::show( gb ) );
        x.outcome( "no fault" );
        return;
      }
      x.check( rc != GEODIFF_SUCCESS, "fault-unnoticed", fmt( "%s succeeded", FAULTOPS[op] ) );
      x.check( gb == b, "fault-changed", "after the failure the base content is\n" + mc::show( gb ) );
      x.check( gm == m, "fault-changed", "after the failure the modified content is\n" + mc::show( gm ) );
      // once more without fault
      rc = act();
      released( x, FAULTOPS[op] );
      x.check( ( rc == GEODIFF_SUCCESS ) == ( op != 2 ), "verdict-after", fmt( "%s after a failure returned %d", FAULTOPS[op], rc ) );
      if ( op == 1 ) applyModel( f, wb, s );
      gb = pgRead( BASE, f );
      x.check( gb == wb, "content", "in the end the base content is\n" + mc::show( gb ) );
      x.state( fmt( "fault %d %ld %d", op, call, how ) );
      x.transition( 2 );
      x.trace();
      x.outcome( "fault reported" );
    };
    ( void )thorough;
    return c;
  } );
}
