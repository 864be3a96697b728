// P04: user triggers stay silent while a changeset is applied or a database rebased, and the schema
// is as before afterwards. Every trigger of a list (alone and in pairs) x every short changeset
// (fitting or not) x every way of applying; reference: the same edits by plain SQL on a copy without
// the user triggers but with GeoPackage's own.
#include "mc.h"
#include <unistd.h>
using namespace mc;

struct Trg { std::string label, sql; bool kept; };
static const char *BASE_SCHEMA =
  "CREATE TABLE t(id INTEGER PRIMARY KEY, v);"
  "CREATE TABLE u(k TEXT PRIMARY KEY, w);"
  "CREATE TABLE \"q \"\"u'\"(id INTEGER PRIMARY KEY, v);"
  "CREATE TABLE gpkg_contents(table_name TEXT PRIMARY KEY, identifier TEXT);"
  "CREATE TABLE log(x);"
  "CREATE TABLE log2(id INTEGER PRIMARY KEY AUTOINCREMENT, x);"
  "CREATE VIEW vw AS SELECT id, v FROM t; CREATE INDEX iv ON t(v); CREATE UNIQUE INDEX uw ON u(w) WHERE w IS NOT NULL;"
  "INSERT INTO t VALUES(1,'a'),(2,'b'),(4,'d'); INSERT INTO u VALUES('p',1),('r',2); INSERT INTO \"q \"\"u'\" VALUES(1,1); INSERT INTO log2(x) VALUES('start'); INSERT INTO gpkg_contents VALUES('t','one');";

static std::vector<Trg> triggers()
{
  std::vector<Trg> r;
  auto user = [&]( const std::string & l, const std::string & s ) { r.push_back( { l, s, false } ); };
  auto kept = [&]( const std::string & l, const std::string & s ) { r.push_back( { l, s, true } ); };
  // effects, all timings and events
  for ( const char *when : { "BEFORE", "AFTER" } )
    for ( const char *ev : { "INSERT", "UPDATE", "DELETE" } )
    {
      std::string h = std::string( "CREATE TRIGGER trg " ) + when + " " + ev + " ON t ", l = std::string( when ) + " " + ev + ": ";
      user( l + "log", h + "BEGIN INSERT INTO log VALUES('fired'); END" );
      user( l + "log into a table with key", h + "BEGIN INSERT INTO log2(x) VALUES('fired'); END" );
      user( l + "refuse", h + "BEGIN SELECT RAISE(ABORT, 'no'); END" );
      user( l + "roll back", h + "BEGIN SELECT RAISE(ROLLBACK, 'no'); END" );
    }
  user( "ignore", "CREATE TRIGGER trg BEFORE UPDATE ON t BEGIN SELECT RAISE(IGNORE); END" );
  user( "fail", "CREATE TRIGGER trg BEFORE INSERT ON u BEGIN SELECT RAISE(FAIL, 'no'); END" );
  user( "cascade to another table", "CREATE TRIGGER trg AFTER DELETE ON t BEGIN DELETE FROM u; UPDATE t SET v='touched'; END" );
  user( "rewrite of the same row", "CREATE TRIGGER trg AFTER UPDATE OF v ON t FOR EACH ROW WHEN NEW.v IS NOT 'touched' BEGIN UPDATE t SET v='touched' WHERE id=NEW.id; END" );
  user( "refill on delete", "CREATE TRIGGER trg AFTER DELETE ON t BEGIN INSERT INTO t VALUES(OLD.id, 'back'); END" );
  user( "missing table in body", "CREATE TRIGGER trg AFTER INSERT ON t BEGIN INSERT INTO nosuch VALUES(1); END" );
  user( "missing function in body", "CREATE TRIGGER trg AFTER UPDATE ON t BEGIN SELECT nosuchfn(NEW.v); END" );
  for ( const char *ev : { "INSERT", "UPDATE", "DELETE" } ) user( std::string( "on a table of GeoPackage: " ) + ev, std::string( "CREATE TRIGGER trg AFTER " ) + ev + " ON gpkg_contents BEGIN INSERT INTO log2(x) VALUES('fired'); END" );
  user( "view", "CREATE TRIGGER trg INSTEAD OF INSERT ON vw BEGIN INSERT INTO t VALUES(NEW.id, NEW.v); END" );
  user( "percent signs", "CREATE TRIGGER trg AFTER INSERT ON t BEGIN INSERT INTO log VALUES('100%s%d%n%w%q;END'); END" );
  user( "quotes and comments", "create\n trigger /* c1 */ if not exists\ttrg -- c2\n after\n insert on t begin insert into log values('it''s \"x\" /* */ -- '); -- c3\n end" );
  user( "qualified", "CREATE TRIGGER main.trg AFTER INSERT ON t BEGIN INSERT INTO log VALUES(1); END" );
  user( "table to be quoted", "CREATE TRIGGER trg AFTER INSERT ON \"q \"\"u'\" BEGIN UPDATE \"q \"\"u'\" SET v=9; END" );
  user( "non-ascii text", "CREATE TRIGGER trg AFTER INSERT ON t BEGIN INSERT INTO log VALUES('\xC3\xA9\xF0\x9F\x98\x80'); END" );
  user( "string in double quotes", "CREATE TRIGGER trg AFTER INSERT ON t BEGIN INSERT INTO log VALUES(\"dq\"); END" );
  user( "long", "CREATE TRIGGER trg AFTER INSERT ON t BEGIN INSERT INTO log VALUES('" + std::string( 9000, 'l' ) + "'); END" );
  // names
  for ( const char *n : { "a b", "it's", "say \"\"hi\"\"", "t", "select", "100%s", "\xC3\xA9", "a;b--", "[x]", "", "line\nbreak", "gpkg", "Gpkg", "xgpkg_a", "rtree", "trigger_insert_feature_count", "trigger_update_feature_count_t", "Trigger", "insert_feature_count_t", "iv", "vw" } )
    user( std::string( "named \"" ) + n + "\"", std::string( "CREATE TRIGGER \"" ) + n + "\" AFTER INSERT ON t BEGIN INSERT INTO log VALUES('fired'); END" );
  user( "named in brackets", "CREATE TRIGGER [br 'x\"] AFTER INSERT ON t BEGIN INSERT INTO log VALUES('fired'); END" );
  user( "named in single quotes", "CREATE TRIGGER 'sq x' AFTER INSERT ON t BEGIN INSERT INTO log VALUES('fired'); END" );
  user( "named in backticks", "CREATE TRIGGER `bt x` AFTER INSERT ON t BEGIN INSERT INTO log VALUES('fired'); END" );
  for ( int n : { 5, 130, 300 } )
  {
    std::string q;
    for ( int i = 0; i < n; ++i )
      q += ( i ? ";\n" : "" ) + std::string( "CREATE TRIGGER \"many " ) + std::to_string( n ) + " " + std::to_string( i ) + "\" AFTER " + ( i % 3 == 0 ? "INSERT" : i % 3 == 1 ? "UPDATE" : "DELETE" ) + " ON " + ( i % 2 ? "t" : "u" ) + " BEGIN INSERT INTO log VALUES('fired " + std::to_string( i ) + "'); END";
    user( std::to_string( n ) + " triggers", q );
  }
  // GeoPackage's own: they stay active, also where they refuse a change
  for ( const char *n : { "gpkg_own", "rtree_t_geom_insert", "trigger_insert_feature_count_t", "trigger_delete_feature_count_t" } )
    kept( std::string( "own " ) + n, std::string( "CREATE TRIGGER \"" ) + n + "\" AFTER INSERT ON t BEGIN INSERT INTO log VALUES('own ' || NEW.id); END" );
  kept( "own on delete", "CREATE TRIGGER trigger_delete_feature_count_x AFTER DELETE ON t BEGIN INSERT INTO log VALUES('del ' || OLD.id); END" );
  kept( "own on update", "CREATE TRIGGER rtree_t_geom_update1 AFTER UPDATE ON t WHEN OLD.v IS NOT NEW.v BEGIN INSERT INTO log VALUES('upd ' || NEW.id); END" );
  for ( const char *a : { "ABORT", "FAIL", "ROLLBACK" } )
    kept( std::string( "own refusing with " ) + a, std::string( "CREATE TRIGGER gpkg_check BEFORE INSERT ON t WHEN NEW.v='x' BEGIN SELECT RAISE(" ) + a + ", 'not allowed'); END" );
  kept( "own refusing a deletion", "CREATE TRIGGER gpkg_check BEFORE DELETE ON u BEGIN SELECT RAISE(ABORT, 'not allowed'); END" );
  return r;
}

struct Ed { std::string sql; const char *table; CEntry e; bool misfit; };
static std::vector<Ed> edits()
{
  std::vector<Ed> r;
  auto add = [&]( const char *t, int op, Row o, Row n, const std::string & sql, bool misfit = false )
  {
    Ed x{ sql, t, {}, misfit };
    x.e.op = op; x.e.o = o; x.e.n = n;
    r.push_back( x );
  };
  add( "t", OpInsert, {}, { I( 3 ), T( "x" ) }, "INSERT INTO t VALUES(3,'x')" );
  add( "t", OpUpdate, { I( 1 ), T( "a" ) }, { U(), T( "y" ) }, "UPDATE t SET v='y' WHERE id=1" );
  add( "t", OpDelete, { I( 2 ), T( "b" ) }, {}, "DELETE FROM t WHERE id=2" );
  add( "u", OpInsert, {}, { T( "s" ), I( 5 ) }, "INSERT INTO u VALUES('s',5)" );
  add( "u", OpDelete, { T( "p" ), I( 1 ) }, {}, "DELETE FROM u WHERE k='p'" );
  add( "q \"u'", OpInsert, {}, { I( 2 ), I( 2 ) }, "INSERT INTO \"q \"\"u'\" VALUES(2,2)" );
  add( "log2", OpInsert, {}, { I( 7 ), T( "z" ) }, "INSERT INTO log2 VALUES(7,'z')" );
  add( "gpkg_contents", OpUpdate, { T( "t" ), T( "one" ) }, { U(), T( "two" ) }, "UPDATE gpkg_contents SET identifier='two' WHERE table_name='t'" );
  add( "gpkg_contents", OpInsert, {}, { T( "n" ), T( "new" ) }, "INSERT INTO gpkg_contents VALUES('n','new')" );
  add( "t", OpInsert, {}, { I( 1 ), T( "x" ) }, "", true );
  add( "t", OpUpdate, { I( 1 ), T( "other" ) }, { U(), T( "y" ) }, "", true );
  add( "t", OpDelete, { I( 9 ), T( "b" ) }, {}, "", true );
  add( "u", OpInsert, {}, { T( "w" ), I( 2 ) }, "", true );
  add( "nosuch", OpInsert, {}, { I( 1 ), I( 2 ) }, "", true );
  add( "t", 0, {}, {}, "", true );   // undecodable entry
  return r;
}

int main( int argc, char **argv )
{
  return checkMain( argc, argv, []( const Opts & o )
  {
    static const std::vector<Trg> T = triggers();
    static const std::vector<Ed> E = edits();
    static std::vector<std::vector<int>> sets;          // trigger sets
    static std::vector<std::vector<int>> seqs;          // edit sequences
    static std::vector<std::pair<int, int>> rebs;       // edits of their / my side, -1: none
    static const std::vector<std::string> decor = { "", "PRAGMA journal_mode=WAL;", "PRAGMA user_version=7; PRAGMA application_id=1196444487;", "PRAGMA auto_vacuum=1; VACUUM;" };
    sets.clear();
    sets.push_back( {} );
    for ( size_t i = 0; i < T.size(); ++i ) sets.push_back( { ( int ) i } );
    // pairs: triggers named alike get distinct names
    std::vector<int> sel;
    for ( size_t i = 0; i < T.size(); ++i ) if ( o.thorough || i % 3 == 0 || T[i].kept ) sel.push_back( i );
    for ( int a : sel ) for ( int b : sel ) if ( a != b ) sets.push_back( { a, b } );
    size_t nsingle = 1 + T.size();
    seqs.clear();
    seqs.push_back( {} );
    for ( size_t i = 0; i < E.size(); ++i ) seqs.push_back( { ( int ) i } );
    size_t shortSeqs = seqs.size();
    for ( size_t i = 0; i < E.size(); ++i ) for ( size_t j = 0; j < E.size(); ++j ) if ( i != j ) seqs.push_back( { ( int ) i, ( int ) j } );
    // disjoint edits for the rebase
    for ( int a : { -1, 0, 1, 2, 3 } ) for ( int b : { -1, 4, 5, 6, 7, 8 } ) rebs.push_back( { a, b } );
    static const char *rebSql[] = { "INSERT INTO t VALUES(3,'x')", "UPDATE t SET v='y' WHERE id=1", "DELETE FROM t WHERE id=2", "INSERT INTO u VALUES('s',5)",
                                    "UPDATE t SET v='m' WHERE id=4", "INSERT INTO u VALUES('m',6)", "DELETE FROM u WHERE k='p'", "INSERT INTO \"q \"\"u'\" VALUES(2,2)",
                                    "UPDATE gpkg_contents SET identifier='m' WHERE table_name='t'"
                                  };
    struct Part { uint64_t n; };
    static uint64_t nA, nB, nC;
    nA = nsingle * decor.size() * seqs.size();
    nB = ( sets.size() - nsingle ) * shortSeqs;
    nC = sets.size() * ( o.thorough ? rebs.size() : 5 );
    static const bool thorough = o.thorough;
    static const size_t nsing = nsingle, nshort = shortSeqs;
    Check c;
    c.property = "P04";
    c.odd = true;
    c.rule = "a state is a database with a set of triggers, a transition is the application of a changeset or an in-place rebase; content is compared with plain SQL on a copy without user triggers, the schema with what it was, and the triggers are tried out afterwards";
    c.bounds = { fmt( "%zu triggers (names, quotings, timings, events, effects) one at a time x %zu database settings x all %zu sequences of up to 2 of %zu edits, fitting or not, through both apply functions", T.size(), decor.size(), seqs.size(), E.size() ),
                 fmt( "all ordered pairs of %zu triggers (%zu) x %zu changesets", sel.size(), sets.size() - nsingle, shortSeqs ),
                 fmt( "in-place rebase with each of the %zu sets of triggers x %llu combinations of edits", sets.size(), ( unsigned long long )( nC / sets.size() ) ) };
    c.assumptions = { "triggers named gpkg_*, rtree_*, trigger_insert_feature_count_*, trigger_delete_feature_count_* are GeoPackage's own, as documented in the source" };
    c.count = nA + nB + nC;
    struct Case { int set = 0, dec = 0, seq = -1, reb = -1; };
    auto get = []( uint64_t i )
    {
      Case k;
      Dig d( i );
      if ( i < nA ) { k.seq = d.take( seqs.size() ); k.set = d.take( nsing ); k.dec = d.take( decor.size() ); return k; }
      d.v -= nA;
      if ( d.v < nB ) { k.seq = d.take( nshort ); k.set = nsing + d.v; return k; }
      d.v -= nB;
      k.set = d.take( sets.size() );
      // the short form takes a diagonal through the combinations, the long one all
      k.reb = thorough ? d.v : d.v * 6 + ( d.v + k.set ) % 6;
      return k;
    };
    auto trgSql = []( int set, int onlyKept )   // -1 all, 1 kept only, 0 user only
    {
      std::vector<std::string> r;
      for ( size_t n = 0; n < sets[set].size(); ++n )
      {
        const Trg &t = T[sets[set][n]];
        if ( onlyKept == 1 && !t.kept ) continue;
        std::string s = t.sql;
        if ( n == 1 )
        {
          // second of a pair: another name where the names would clash
          for ( const char *nm : { " trg ", "\ttrg ", ".trg " } ) { size_t p = s.find( nm ); if ( p != std::string::npos ) { s.insert( p + 4, "2" ); break; } }
          if ( T[sets[set][0]].kept && t.kept )
            for ( const char *nm : { "gpkg_check", "gpkg_own" } ) { size_t p = s.find( nm ); if ( p != std::string::npos ) { s.insert( p + strlen( nm ), "2" ); break; } }
        }
        r.push_back( s + ";\n" );
      }
      return r;
    };
    auto join = []( const std::vector<std::string> &v ) { std::string s; for ( auto &x : v ) s += x; return s; };
    c.describe = [ = ]( uint64_t i )
    {
      Case k = get( i );
      std::string s = join( trgSql( k.set, -1 ) ) + decor[k.dec] + "\n";
      if ( k.seq >= 0 ) for ( int e : seqs[k.seq] ) s += E[e].sql + ( E[e].misfit ? fmt( "(misfit %d in %s)", e, E[e].table ) : std::string() ) + "\n";
      if ( k.reb >= 0 ) s += fmt( "rebase: theirs %s / mine %s", rebs[k.reb].first < 0 ? "-" : rebSql[rebs[k.reb].first], rebs[k.reb].second < 0 ? "-" : rebSql[rebs[k.reb].second] );
      return s;
    };
    c.run = [ = ]( const Ctx & x )
    {
      Case k = get( x.idx );
      const std::string plain = std::string( BASE_SCHEMA );
      std::string withTrg = cachedImage( plain + join( trgSql( k.set, -1 ) ) + decor[k.dec] ), keptOnly = cachedImage( plain + join( trgSql( k.set, 1 ) ) + decor[k.dec] );
      std::string p = x.p( "t.db" ), r = x.p( "ref.db" ), cs = x.p( "cs" );
      for ( auto &f : { p, r } ) for ( const char *s : { "-wal", "-shm" } ) unlink( ( f + s ).c_str() );
      x.state( fmt( "%d:%d", k.set, k.dec ) );
      auto pragmas = []( const std::string & f ) { Db d( f ); std::string o; for ( const char *q : { "journal_mode", "user_version", "application_id", "auto_vacuum", "encoding", "page_size" } ) o += show( d.one( std::string( "PRAGMA " ) + q ) ) + " "; return o; };
      // the triggers fire again (or fail again) as they did before
      auto probe = [&]( const std::string & got, const std::string & how )
      {
        // `ref` gets the user triggers now
        {
          Db d( r );
          for ( auto &s : d.query( "SELECT name FROM sqlite_master WHERE type='trigger'" ) ) d.exec( "DROP TRIGGER " + quoteId( s[0].s ) );
          for ( auto &s : trgSql( k.set, -1 ) ) d.exec( s );
        }
        std::string verdicts[2];
        Content cont[2];
        for ( int q = 0; q < 2; ++q )
        {
          Db d( q ? r : got );
          for ( const char *s : { "INSERT INTO t VALUES(77,'p')", "UPDATE t SET v='pp' WHERE id=77", "DELETE FROM t WHERE id=77", "INSERT INTO u VALUES('probe',77)", "DELETE FROM u WHERE k='r'", "INSERT INTO \"q \"\"u'\" VALUES(77,77)", "INSERT INTO vw VALUES(78,'p')", "UPDATE gpkg_contents SET identifier='probe'", "DELETE FROM gpkg_contents", "INSERT INTO gpkg_contents VALUES('p','p')" } )
            verdicts[q] += d.tryExec( s ) ? "1" : "0";
          cont[q] = content( d.h );
        }
        x.check( verdicts[0] == verdicts[1], "triggers-after", how + ": after it the triggers behave differently: " + verdicts[0] + " instead of " + verdicts[1] );
        std::string df = diffContent( cont[1], cont[0] );
        x.check( df.empty(), "triggers-after", how + ": after it the triggers act differently:\n" + df );
      };
      if ( k.reb >= 0 )
      {
        auto prep = [&]( const std::string & f, int e )
        {
          writeFile( f, withTrg );
          if ( e < 0 ) return;
          Db d( f );
          auto t = d.query( "SELECT name, sql FROM sqlite_master WHERE type='trigger' ORDER BY rowid" );
          for ( auto &q : t ) d.exec( "DROP TRIGGER " + quoteId( q[0].s ) );
          d.exec( rebSql[e] );
          for ( auto &q : t ) d.exec( q[1].s );
        };
        std::string b = x.p( "base.db" ), th = x.p( "their.db" ), conf = x.p( "conf" );
        writeFile( b, withTrg );
        prep( th, rebs[k.reb].first );
        prep( p, rebs[k.reb].second );
        // the rebase turns MINE into BASE+THEIRS+MINE by applying changesets: with own triggers, only the set of firings for
        // tables that are in changesets is defined; so their log (no key, never in changesets) is left out here
        writeFile( r, cachedImage( plain ) );
        { Db d( r ); if ( rebs[k.reb].first >= 0 ) d.exec( rebSql[rebs[k.reb].first] ); if ( rebs[k.reb].second >= 0 ) d.exec( rebSql[rebs[k.reb].second] ); }
        std::string schema = schemaOf( p );
        Content before = contentOf( p );
        int rc = GEODIFF_rebase( b.c_str(), th.c_str(), p.c_str(), conf.c_str() );
        x.check( schemaOf( p ) == schema, "schema", "rebase changed the schema:\nbefore:\n" + schema + "\nafter:\n" + schemaOf( p ) );
        bool mayFail = false;
        for ( int t : sets[k.set] ) if ( T[t].kept && T[t].sql.find( "RAISE" ) != std::string::npos ) mayFail = true;
        if ( rc != GEODIFF_SUCCESS )
        {
          x.check( mayFail, "rebase-failed", fmt( "rebase returned %d", rc ) );
          x.check( contentOf( p ) == before, "failed-changed", "the failed rebase changed the content" );
          x.outcome( "rebase refused by GeoPackage's own trigger" );
          return;
        }
        Content want = contentOf( r ), got = contentOf( p );
        want.erase( "sqlite_sequence" ); got.erase( "sqlite_sequence" );
        bool keptAny = false;
        for ( int t : sets[k.set] ) keptAny |= T[t].kept;
        if ( keptAny ) { want.erase( "log" ); got.erase( "log" ); }
        std::string df = diffContent( want, got );
        x.check( df.empty(), "rebase-content", "rebase: wrong content:\n" + df );
        x.check( integrity( p ).empty(), "integrity", integrity( p ) );
        // bring the logs of own triggers in line, then try out
        if ( keptAny ) { for ( auto &f : { p, r } ) { Db d( f ); d.exec( "DELETE FROM log" ); } }
        for ( auto &f : { p, r } ) { Db d( f ); d.exec( "UPDATE sqlite_sequence SET seq=50" ); }
        probe( p, "rebase" );
        x.transition( 2 );
        x.trace();
        x.outcome( "rebased" );
        return;
      }
      CSet s;
      std::string bytes;
      for ( int i : seqs[k.seq] )
      {
        if ( !E[i].e.op ) { bytes += encode( s ) + std::string( 1, '\x05' ); s.clear(); continue; }
        CGroup g;
        g.table.name = E[i].table;
        g.table.pk = { 1, 0 };
        g.entries = { E[i].e };
        s.push_back( g );
      }
      bytes += encode( s );
      writeFile( cs, bytes );
      // reference
      writeFile( r, keptOnly );
      bool fits = true;
      {
        Db d( r );
        d.exec( "BEGIN" );
        for ( int i : seqs[k.seq] )
        {
          if ( E[i].misfit ) { fits = false; break; }
          if ( !d.tryExec( E[i].sql ) ) { fits = false; break; }
        }
        if ( fits ) d.exec( "COMMIT" );
        else d.tryExec( "ROLLBACK" );
      }
      Content want = contentOf( r );
      for ( int path = 0; path < 2; ++path )
      {
        const char *fn = path ? "applyChangesetEx" : "applyChangeset";
        for ( const char *e : { "-wal", "-shm" } ) unlink( ( p + e ).c_str() );
        writeFile( p, withTrg );
        std::string schema = schemaOf( p ), prag = pragmas( p );
        writeFile( p, withTrg );
        int rc = path ? GEODIFF_applyChangesetEx( "sqlite", "", p.c_str(), cs.c_str() ) : GEODIFF_applyChangeset( p.c_str(), cs.c_str() );
        std::string after = schemaOf( p );
        x.check( after == schema, "schema", std::string( fn ) + fmt( " (returned %d) changed the schema:\nbefore:\n", rc ) + schema + "\nafter:\n" + after );
        x.check( pragmas( p ) == prag, "settings", std::string( fn ) + " changed the settings of the database: " + prag + "-> " + pragmas( p ) );
        x.check( ( rc == GEODIFF_SUCCESS ) == fits, "verdict", std::string( fn ) + fmt( " returned %d, by plain SQL the edits %s", rc, fits ? "fit" : "do not fit" ) );
        std::string df = diffContent( want, contentOf( p ) );
        x.check( df.empty(), fits ? "content" : "failed-changed", std::string( fn ) + ": content differs from plain SQL without user triggers:\n" + df );
        x.check( integrity( p ).empty(), "integrity", integrity( p ) );
      }
      probe( p, "apply" );
      x.transition( seqs[k.seq].size() );
      x.trace( 2 );
      x.outcome( fits ? "applied" : "refused" );
    };
    return c;
  } );
}
