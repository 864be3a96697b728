// Operations on files whose every file access is recorded, failed or cut (P13, P14).
#pragma once
#include "mc.h"
#include "sysio.h"
#include "argspace.h"
#include "../fakepq/fakepq.h"
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <errno.h>

namespace iospace
{
  using namespace mc;

  struct Scenario
  {
    std::string name;
    std::vector<std::pair<std::string, std::string>> files;     //!< name, content
    std::function<int( const std::string &dir, std::string &extra )> call;
    std::string dataset;                  //!< database changed in place, or ""
    std::vector<std::string> outputs;     //!< files written
    bool outIsDb = false;
    std::vector<std::string> inputs;      //!< databases and changesets that are only read
    int okValue = GEODIFF_SUCCESS;
    bool countLike = false;               //!< negative values are errors
    std::function<void()> server;         //!< fills the PostgreSQL server
    std::string schema;                   //!< changed in place on that server, or ""
    bool inPlace() const { return !dataset.empty() || !schema.empty(); }
  };

  //! Everything in a schema of the server
  inline std::string schemaDump( const std::string &schema )
  {
    std::string r;
    for ( auto &t : fakepq::tables( schema ) )
    {
      std::string q, rows;
      r += t + ":";
      for ( auto &c : fakepq::columns( schema, t ) ) { r += " " + c.name + " " + c.type + ( c.notNull ? " not null" : "" ) + ( c.key ? " key" : "" ); q += ( q.empty() ? "" : "," ) + quoteId( c.name ); }
      r += "\n";
      std::vector<std::string> v;
      for ( auto &w : fakepq::query( "SELECT " + q + " FROM " + quoteId( schema ) + "." + quoteId( t ) ) )
      {
        std::string l;
        for ( auto &c : w ) l += " " + ( c.null ? std::string( "NULL" ) : "'" + c.v + "'" );
        v.push_back( l );
      }
      std::sort( v.begin(), v.end() );
      for ( auto &l : v ) r += l + "\n";
    }
    return r;
  }
  inline std::string content( const Scenario &s, const std::string &w ) { return s.schema.empty() ? fullDump( w + "/" + s.dataset ) : schemaDump( s.schema ); }

  inline void serverExec( const std::string &sql )
  {
    std::string e = fakepq::exec( sql );
    if ( !e.empty() ) throw std::runtime_error( e + ": " + sql );
  }
  inline std::string serverTables( const std::string &schema )
  {
    std::string q = quoteId( schema );
    return "CREATE SCHEMA " + q + "; CREATE TABLE " + q + ".t(id serial, a text, b integer, PRIMARY KEY(id)); CREATE TABLE " + q + ".k(n text NOT NULL, v double precision, PRIMARY KEY(n));"
           "INSERT INTO " + q + ".t VALUES(1,'a1',1); INSERT INTO " + q + ".t VALUES(2,'a2',NULL); INSERT INTO " + q + ".t VALUES(3,'a3',3); INSERT INTO " + q + ".k VALUES('p',1.5); SELECT setval('" + q + ".t_id_seq', 3);";
  }
  inline std::string serverEdit( const std::string &schema )
  {
    std::string q = quoteId( schema );
    return "UPDATE " + q + ".t SET a='theirs' WHERE id=1; INSERT INTO " + q + ".t VALUES(4,'t4',4); DELETE FROM " + q + ".k WHERE n='p';";
  }
  inline std::string serverEdit2( const std::string &schema )
  {
    std::string q = quoteId( schema );
    return "UPDATE " + q + ".t SET a='mine' WHERE id=2; UPDATE " + q + ".t SET b=7 WHERE id=1; INSERT INTO " + q + ".t VALUES(4,'m4',5); INSERT INTO " + q + ".k VALUES('q',2.5);";
  }
  inline std::string serverConflict( const std::string &schema ) { return "UPDATE " + quoteId( schema ) + ".t SET a='mine' WHERE id=1; INSERT INTO " + quoteId( schema ) + ".t VALUES(4,'m4',5);"; }

  inline std::string smallSql()
  {
    return "CREATE TABLE t(id INTEGER PRIMARY KEY, a, u UNIQUE); CREATE TABLE k(n TEXT PRIMARY KEY, v); INSERT INTO t VALUES(1,'a1','x'),(2,'a2','y'),(3,'a3',NULL); INSERT INTO k VALUES('p',1);";
  }
  inline std::string theirsEdit() { return "UPDATE t SET a='theirs' WHERE id=1; INSERT INTO t VALUES(4,'t4','z'); DELETE FROM k;"; }
  inline std::string mineEdit() { return "UPDATE t SET a='mine' WHERE id=2; INSERT INTO t VALUES(4,'m4','w'); INSERT INTO k VALUES('q',2);"; }
  inline std::string mineConflictEdit() { return "UPDATE t SET a='mine' WHERE id=1; INSERT INTO k VALUES('q',2);"; }
  //! more pages than one, values longer than stdio's and the pager's buffers
  inline std::string bigSql()
  {
    return "CREATE TABLE t(id INTEGER PRIMARY KEY, a, b); CREATE TABLE k(n TEXT PRIMARY KEY, v);"
           "WITH RECURSIVE c(i) AS (SELECT 1 UNION ALL SELECT i+1 FROM c WHERE i<60) INSERT INTO t SELECT i, hex(zeroblob(150)), i FROM c;"
           "INSERT INTO k VALUES('p',hex(zeroblob(6000)));";
  }
  inline std::string bigEdit() { return "UPDATE t SET a=a||'x' WHERE id%3=1; DELETE FROM t WHERE id%7=0; INSERT INTO t VALUES(100,hex(zeroblob(8000)),1),(101,'n',2); UPDATE k SET v=v||'y';"; }
  inline std::string bigEdit2() { return "UPDATE t SET b=b+1 WHERE id%4=1; UPDATE t SET a='other' WHERE id=1; INSERT INTO t VALUES(100,'mine',7);"; }

  //! made by SQLite's session extension, to be independent of the code under test
  inline std::string changesetOf( const std::string &dir, const std::string &a, const std::string &b )
  {
    std::string p = dir + "/mk_a.db", q = dir + "/mk_b.db";
    writeFile( p, a );
    writeFile( q, b );
    std::string r;
    {
      Db d( q );
      d.exec( "ATTACH " + sqlLit( T( p ) ) + " AS aux" );
      sqlite3_session *s = nullptr;
      if ( sqlite3session_create( d.h, "main", &s ) != SQLITE_OK ) throw std::runtime_error( "session" );
      for ( const char *t : { "t", "k", "simple" } )
      {
        if ( d.query( std::string( "SELECT 1 FROM sqlite_master WHERE name='" ) + t + "'" ).empty() ) continue;
        if ( sqlite3session_attach( s, t ) != SQLITE_OK || sqlite3session_diff( s, "aux", t, nullptr ) != SQLITE_OK ) throw std::runtime_error( "session diff" );
      }
      int n = 0;
      void *z = nullptr;
      if ( sqlite3session_changeset( s, &n, &z ) != SQLITE_OK ) throw std::runtime_error( "session changeset" );
      r.assign( ( char * )z, n );
      sqlite3_free( z );
      sqlite3session_delete( s );
    }
    unlink( p.c_str() );
    unlink( q.c_str() );
    return r;
  }

  //! dir: where intermediate files may be made
  inline std::vector<Scenario> scenarios( const std::string &dir )
  {
    std::vector<Scenario> v;
    auto add = [&]( const std::string & n ) -> Scenario & { v.emplace_back(); v.back().name = n; return v.back(); };
    const std::string base = buildImage( smallSql() ), theirs = buildImage( smallSql() + theirsEdit() ), mine = buildImage( smallSql() + mineEdit() ), minec = buildImage( smallSql() + mineConflictEdit() );
    const std::string big = buildImage( bigSql() ), big2 = buildImage( bigSql() + bigEdit() ), big3 = buildImage( bigSql() + bigEdit2() );
    const std::string g1 = buildImage( argspace::gpkgSql() ), g2 = buildImage( argspace::gpkgSql() + "INSERT INTO simple VALUES(2,NULL,'two',6); UPDATE simple SET name='eins';" );
    const std::string W = "PRAGMA journal_mode=WAL;";
    auto walImage = []( std::string img ) { img[18] = 2; img[19] = 2; return img; };
    const std::string B2T = changesetOf( dir, base, theirs ), B2M = changesetOf( dir, base, mine ), B2C = changesetOf( dir, base, minec ), BIG = changesetOf( dir, big, big2 ), BIG3 = changesetOf( dir, big, big3 ), G = changesetOf( dir, g1, g2 );
    const std::string misfit = B2T + B2T;
    // a cache this small makes SQLite write pages into the database before the transaction ends
    const std::string spill = buildImage( "PRAGMA default_cache_size=3;" + bigSql() );
    // thousands of entries
    const std::string manySql = "CREATE TABLE t(id INTEGER PRIMARY KEY, a); WITH RECURSIVE c(i) AS (SELECT 1 UNION ALL SELECT i+1 FROM c WHERE i<4000) INSERT INTO t SELECT i, 1 FROM c;";
    const std::string many = buildImage( manySql ), many2 = buildImage( manySql + "UPDATE t SET a=2 WHERE id%2; DELETE FROM t WHERE id%10=0; WITH RECURSIVE c(i) AS (SELECT 4001 UNION ALL SELECT i+1 FROM c WHERE i<10000) INSERT INTO t SELECT i, 3 FROM c;" );
    const std::string MANY = changesetOf( dir, many, many2 );
    struct Pair { std::string n, a, b; };
    auto P = []( const std::string & d, const char *n ) { return d + "/" + n; };

    for ( auto &q : { Pair{ "small", base, mine }, Pair{ "equal", base, base }, Pair{ "big", big, big2 }, Pair{ "gpkg", g1, g2 }, Pair{ "wal", walImage( base ), walImage( mine ) } } )
    {
      Scenario &s = add( "createChangeset " + q.n );
      s.files = { { "base", q.a }, { "mine", q.b }, { "out", "old output" } };
      s.inputs = { "base", "mine" };
      s.outputs = { "out" };
      s.call = [ = ]( const std::string & d, std::string & ) { return GEODIFF_createChangeset( P( d, "base" ).c_str(), P( d, "mine" ).c_str(), P( d, "out" ).c_str() ); };
    }
    for ( auto &q : { Pair{ "no conflict", mine, B2T }, Pair{ "conflict", minec, B2T }, Pair{ "theirs empty", mine, "" }, Pair{ "mine empty", base, B2T } } )
    {
      Scenario &s = add( "createRebasedChangeset " + q.n );
      s.files = { { "base", base }, { "mine", q.a }, { "theirs", q.b }, { "out", "old output" }, { "conflict", "old conflicts" } };
      s.inputs = { "base", "mine", "theirs" };
      s.outputs = { "out", "conflict" };
      s.call = [ = ]( const std::string & d, std::string & ) { return GEODIFF_createRebasedChangeset( P( d, "base" ).c_str(), P( d, "mine" ).c_str(), P( d, "theirs" ).c_str(), P( d, "out" ).c_str(), P( d, "conflict" ).c_str() ); };
    }
    for ( auto &q : { Pair{ "no conflict", B2M, B2T }, Pair{ "conflict", B2C, B2T }, Pair{ "big", BIG3, BIG }, Pair{ "mine empty", "", B2T }, Pair{ "theirs empty", B2M, "" } } )
    {
      Scenario &s = add( "createRebasedChangesetEx " + q.n );
      s.files = { { "base", q.n == "big" ? big : base }, { "mine", q.a }, { "theirs", q.b }, { "out", "old output" }, { "conflict", "old conflicts" } };
      s.inputs = { "base", "mine", "theirs" };
      s.outputs = { "out", "conflict" };
      s.call = [ = ]( const std::string & d, std::string & ) { return GEODIFF_createRebasedChangesetEx( "sqlite", "", P( d, "base" ).c_str(), P( d, "mine" ).c_str(), P( d, "theirs" ).c_str(), P( d, "out" ).c_str(), P( d, "conflict" ).c_str() ); };
    }
    struct Tri { std::string n, b, t, m; };
    for ( auto &q : { Tri{ "no conflict", base, theirs, mine }, Tri{ "conflict", base, theirs, minec }, Tri{ "theirs unchanged", base, base, mine }, Tri{ "mine unchanged", base, theirs, base }, Tri{ "gpkg", g1, g2, g1 }, Tri{ "big", big, big2, big3 }, Tri{ "small cache", big, big2, buildImage( "PRAGMA default_cache_size=3;" + bigSql() + bigEdit2() ) }, Tri{ "wal", walImage( base ), walImage( theirs ), walImage( mine ) } } )
    {
      Scenario &s = add( "rebase " + q.n );
      s.files = { { "base", q.b }, { "theirs", q.t }, { "mine", q.m }, { "conflict", "old conflicts" } };
      s.inputs = { "base", "theirs" };
      s.dataset = "mine";
      s.outputs = { "conflict" };
      s.call = [ = ]( const std::string & d, std::string & ) { return GEODIFF_rebase( P( d, "base" ).c_str(), P( d, "theirs" ).c_str(), P( d, "mine" ).c_str(), P( d, "conflict" ).c_str() ); };
    }
    struct Qd { std::string n, b, m, c; };
    for ( auto &q : { Qd{ "no conflict", base, mine, B2T }, Qd{ "conflict", base, minec, B2T }, Qd{ "theirs empty", base, mine, "" }, Qd{ "big", big, big3, BIG } } )
    {
      Scenario &s = add( "rebaseEx " + q.n );
      s.files = { { "base", q.b }, { "theirs", q.c }, { "mine", q.m }, { "conflict", "old conflicts" } };
      s.inputs = { "base", "theirs" };
      s.dataset = "mine";
      s.outputs = { "conflict" };
      s.call = [ = ]( const std::string & d, std::string & ) { return GEODIFF_rebaseEx( "sqlite", "", P( d, "base" ).c_str(), P( d, "mine" ).c_str(), P( d, "theirs" ).c_str(), P( d, "conflict" ).c_str() ); };
    }
    const std::string trg = "CREATE TRIGGER trg AFTER INSERT ON t BEGIN UPDATE k SET v=9; END;";
    for ( auto &q : { Pair{ "fits", base, B2T }, Pair{ "misfit", base, misfit }, Pair{ "big", big, BIG }, Pair{ "many", many, MANY }, Pair{ "gpkg", g1, G }, Pair{ "triggers", buildImage( smallSql() + trg ), B2T }, Pair{ "triggers misfit", buildImage( smallSql() + trg ), misfit }, Pair{ "wal", walImage( base ), B2T }, Pair{ "wal big", walImage( big ), BIG }, Pair{ "small cache", spill, BIG }, Pair{ "small cache misfit", spill, BIG + misfit }, Pair{ "empty", base, "" } } )
    {
      Scenario &s = add( "applyChangeset " + q.n );
      s.files = { { "mine", q.a }, { "cs", q.b } };
      s.inputs = { "cs" };
      s.dataset = "mine";
      s.call = [ = ]( const std::string & d, std::string & ) { return GEODIFF_applyChangeset( P( d, "mine" ).c_str(), P( d, "cs" ).c_str() ); };
    }
    for ( auto &q : { Pair{ "small", B2T, "" }, Pair{ "big", BIG, "" }, Pair{ "empty", "", "" } } )
    {
      {
        Scenario &s = add( "invertChangeset " + q.n );
        s.files = { { "cs", q.a }, { "out", "old output" } };
        s.inputs = { "cs" };
        s.outputs = { "out" };
        s.call = [ = ]( const std::string & d, std::string & ) { return GEODIFF_invertChangeset( P( d, "cs" ).c_str(), P( d, "out" ).c_str() ); };
      }
      {
        Scenario &s = add( "listChanges " + q.n );
        s.files = { { "cs", q.a }, { "out", "old output" } };
        s.inputs = { "cs" };
        s.outputs = { "out" };
        s.call = [ = ]( const std::string & d, std::string & ) { return GEODIFF_listChanges( P( d, "cs" ).c_str(), P( d, "out" ).c_str() ); };
      }
      {
        Scenario &s = add( "listChangesSummary " + q.n );
        s.files = { { "cs", q.a }, { "out", "old output" } };
        s.inputs = { "cs" };
        s.outputs = { "out" };
        s.call = [ = ]( const std::string & d, std::string & ) { return GEODIFF_listChangesSummary( P( d, "cs" ).c_str(), P( d, "out" ).c_str() ); };
      }
      {
        Scenario &s = add( "hasChanges " + q.n );
        s.files = { { "cs", q.a } };
        s.inputs = { "cs" };
        s.countLike = true;
        s.call = [ = ]( const std::string & d, std::string & ) { return GEODIFF_hasChanges( P( d, "cs" ).c_str() ); };
      }
      {
        Scenario &s = add( "changesCount " + q.n );
        s.files = { { "cs", q.a } };
        s.inputs = { "cs" };
        s.countLike = true;
        s.call = [ = ]( const std::string & d, std::string & ) { return GEODIFF_changesCount( P( d, "cs" ).c_str() ); };
      }
    }
    {
      Scenario &s = add( "makeCopy no tables" );
      s.files = { { "base", buildImage( "CREATE VIEW vw AS SELECT 1;" ) } };
      s.inputs = { "base" };
      s.outputs = { "out" };
      s.outIsDb = true;
      s.call = [ = ]( const std::string & d, std::string & ) { return GEODIFF_makeCopy( "sqlite", "", P( d, "base" ).c_str(), "sqlite", "", P( d, "out" ).c_str() ); };
    }
    for ( auto &q : { Pair{ "small", base, "" }, Pair{ "big", big, "" }, Pair{ "gpkg", g1, "" } } )
    {
      Scenario &s = add( "dumpData " + q.n );
      s.files = { { "base", q.a }, { "out", "old output" } };
      s.inputs = { "base" };
      s.outputs = { "out" };
      s.call = [ = ]( const std::string & d, std::string & ) { return GEODIFF_dumpData( "sqlite", "", P( d, "base" ).c_str(), P( d, "out" ).c_str() ); };
    }
    // the same with a PostgreSQL server on the other side: only the files can fail here
    {
      static const char *CONN = "host=fake";
      const std::string geom = "CREATE SCHEMA gd_a; CREATE TABLE gd_a.t(id integer PRIMARY KEY, g geometry(Point,4326), a text); CREATE TABLE gd_a.l(id integer PRIMARY KEY, g geometry(LineString,4326));";
      const std::string geomRow = geom + "INSERT INTO gd_a.t VALUES(1, ST_GeomFromWKB('\\x0101000000000000000000f03f0000000000000040', 4326), 'one'); INSERT INTO gd_a.t VALUES(2, NULL, 'two');";
      for ( auto &q : { Pair{ "empty spatial", geom, "" }, Pair{ "spatial", geomRow, "" }, Pair{ "plain", serverTables( "gd_a" ), "" } } )
      {
        Scenario &s = add( "makeCopy from a server, " + q.n );
        s.server = [ = ]() { serverExec( q.a ); };
        s.outputs = { "out" };
        s.outIsDb = true;
        s.call = [ = ]( const std::string & d, std::string & ) { return GEODIFF_makeCopy( "postgres", CONN, "gd_a", "sqlite", "", P( d, "out" ).c_str() ); };
      }
      for ( auto &q : { Pair{ "small", base, "" }, Pair{ "big", big, "" } } )
      {
        Scenario &s = add( "makeCopy to a server, " + q.n );
        s.files = { { "base", q.a } };
        s.inputs = { "base" };
        s.server = [ = ]() {};
        s.call = [ = ]( const std::string & d, std::string & e )
        {
          int rc = GEODIFF_makeCopy( "sqlite", "", P( d, "base" ).c_str(), "postgres", CONN, "gd_b" );
          e = schemaDump( "gd_b" );
          return rc;
        };
      }
      auto both = []( const std::string & edit ) { return [ = ]() { serverExec( serverTables( "gd_a" ) + serverTables( "gd_b" ) + edit ); }; };
      auto changes = [&]( const std::string & edit )
      {
        fakepq::start();
        both( edit )();
        std::string p = dir + "/pgcs";
        if ( GEODIFF_createChangesetEx( "postgres", CONN, "gd_a", "gd_b", p.c_str() ) != GEODIFF_SUCCESS ) throw std::runtime_error( "createChangesetEx on the server" );
        std::string r = readFile( p );
        unlink( p.c_str() );
        fakepq::stop();
        return r;
      };
      std::string rows;
      for ( int i = 0; i < 100; ++i ) rows += fmt( "INSERT INTO gd_b.k VALUES('k%03d %s',%d);", i, std::string( 300, 'x' ).c_str(), i );
      const std::string T = changes( serverEdit( "gd_b" ) ), L = changes( rows );
      for ( auto &q : { Pair{ "small", serverEdit( "gd_b" ), "" }, Pair{ "equal", "", "" }, Pair{ "big", rows, "" } } )
      {
        Scenario &s = add( "createChangesetEx on a server, " + q.n );
        s.files = { { "out", "old output" } };
        s.outputs = { "out" };
        s.server = both( q.a );
        s.call = [ = ]( const std::string & d, std::string & ) { return GEODIFF_createChangesetEx( "postgres", CONN, "gd_a", "gd_b", P( d, "out" ).c_str() ); };
      }
      {
        Scenario &s = add( "dumpData on a server" );
        s.files = { { "out", "old output" } };
        s.outputs = { "out" };
        s.server = both( rows );
        s.call = [ = ]( const std::string & d, std::string & ) { return GEODIFF_dumpData( "postgres", CONN, "gd_b", P( d, "out" ).c_str() ); };
      }
      for ( auto &q : { Pair{ "fits", T, "" }, Pair{ "misfit", T + T, "" }, Pair{ "big", L, "" }, Pair{ "empty", "", "" } } )
      {
        Scenario &s = add( "applyChangesetEx on a server, " + q.n );
        s.files = { { "cs", q.a } };
        s.inputs = { "cs" };
        s.server = both( "" );
        s.schema = "gd_b";
        s.call = [ = ]( const std::string & d, std::string & ) { return GEODIFF_applyChangesetEx( "postgres", CONN, "gd_b", P( d, "cs" ).c_str() ); };
      }
      for ( auto &q : { Pair{ "no conflict", serverEdit2( "gd_b" ), T }, Pair{ "conflict", serverConflict( "gd_b" ), T }, Pair{ "theirs empty", serverEdit2( "gd_b" ), "" }, Pair{ "mine unchanged", "", T }, Pair{ "big", serverEdit2( "gd_b" ), L } } )
      {
        Scenario &s = add( "rebaseEx on a server, " + q.n );
        s.files = { { "theirs", q.b }, { "conflict", "old conflicts" } };
        s.inputs = { "theirs" };
        s.outputs = { "conflict" };
        s.server = both( q.a );
        s.schema = "gd_b";
        s.call = [ = ]( const std::string & d, std::string & ) { return GEODIFF_rebaseEx( "postgres", CONN, "gd_a", "gd_b", P( d, "theirs" ).c_str(), P( d, "conflict" ).c_str() ); };
      }
    }
    return v;
  }

  inline std::vector<Scenario> freshScenarios()
  {
    char tmp[] = "/tmp/mcioXXXXXX";
    if ( !mkdtemp( tmp ) ) { perror( "mkdtemp" ); exit( 77 ); }
    std::vector<Scenario> v = scenarios( tmp );
    removeTree( tmp );
    return v;
  }

  struct OpRec
  {
    sysio::Kind kind = sysio::Other;
    bool creates = false, writes = false;
    std::string path;
    long off = -1;
    size_t len = 0;
    std::string show() const
    {
      std::string s = sysio::kindName( kind );
      if ( kind == sysio::Open ) s += creates ? "(create)" : writes ? "(write)" : "(read)";
      s += " " + path;
      if ( kind == sysio::Read || kind == sysio::Write ) s += fmt( " offset %ld, %zu bytes", off, len );
      return s;
    }
  };

  //! names differ from run to run
  inline std::string stable( const std::string &p )
  {
    if ( p.rfind( "tmp/", 0 ) == 0 ) return "tmp/*";
    return p;
  }

  inline void place( const Scenario &s, const std::string &w )
  {
    removeTree( w );
    mkdir( w.c_str(), 0700 );
    mkdir( ( w + "/tmp" ).c_str(), 0700 );
    for ( auto &f : s.files ) writeFile( w + "/" + f.first, f.second );
    if ( s.server ) { fakepq::start(); s.server(); }
  }

  //! logical content of a file the operation wrote
  inline std::string outState( const Scenario &s, const std::string &w, const std::string &f )
  {
    std::string p = w + "/" + f;
    if ( !exists( p ) ) return "(no file)";
    if ( s.outIsDb )
    {
      // the copy says when it was made
      std::string r, form = "dddd-dd-ddTdd:dd:dd.dddZ", d = fullDump( p );
      for ( size_t i = 0; i < d.size(); )
      {
        size_t k = 0;
        while ( k < form.size() && i + k < d.size() && ( form[k] == 'd' ? isdigit( ( unsigned char )d[i + k] ) != 0 : form[k] == d[i + k] ) ) ++k;
        if ( k == form.size() ) { r += "(time)"; i += k; }
        else r += d[i++];
      }
      return r;
    }
    return readFile( p );
  }

  struct Reference
  {
    int rc = 0;
    std::string extra, before, after;
    std::vector<std::string> out;
    std::vector<OpRec> ops;
  };

  inline long recHook( sysio::Call &c, void *arg )
  {
    auto *v = ( std::vector<OpRec> * )arg;
    OpRec o;
    o.kind = c.kind; o.creates = c.creates; o.writes = c.writes; o.path = stable( c.path ); o.off = c.off; o.len = c.len;
    v->push_back( o );
    return sysio::real( c );
  }

  inline Reference reference( const Scenario &s, const std::string &w )
  {
    Reference r;
    place( s, w );
    setenv( "TMPDIR", ( w + "/tmp/" ).c_str(), 1 );
    if ( s.inPlace() ) { r.before = content( s, w ); place( s, w ); }
    // allocation inside the handler is safe here: system calls are not made from within malloc
    sysio::watch( w, recHook, &r.ops );
    r.rc = s.call( w, r.extra );
    sysio::unwatch();
    if ( s.inPlace() ) r.after = content( s, w );
    for ( auto &o : s.outputs ) r.out.push_back( outState( s, w, o ) );
    return r;
  }

  inline void quiet( GEODIFF_LoggerLevel, const char * ) {}

  //! per scenario the accesses of the undisturbed call (none if the call does not survive)
  inline std::vector<std::vector<OpRec>> recordAll()
  {
    char tmp[] = "/tmp/mcioXXXXXX";
    if ( !mkdtemp( tmp ) ) { perror( "mkdtemp" ); exit( 77 ); }
    std::string dir = tmp;
    std::vector<std::vector<OpRec>> r;
    std::vector<Scenario> v = scenarios( dir );
    for ( size_t i = 0; i < v.size(); ++i )
    {
      fflush( nullptr );
      pid_t p = fork();
      if ( p == 0 )
      {
        alarm( 60 );
        GEODIFF_setLoggerCallback( quiet );
        if ( !sysio::install() ) _exit( 98 );
        std::string out;
        for ( auto &o : reference( v[i], dir + "/w" ).ops ) out += fmt( "%d %d %d %ld %zu %s\n", o.kind, o.creates, o.writes, o.off, o.len, o.path.c_str() );
        writeFile( dir + "/ops", out );
        _exit( 0 );
      }
      int st = 0;
      waitpid( p, &st, 0 );
      if ( WIFEXITED( st ) && WEXITSTATUS( st ) == 98 ) { fprintf( stderr, "seccomp filters are not available here\n" ); removeTree( dir ); exit( 77 ); }
      std::vector<OpRec> ops;
      if ( WIFEXITED( st ) && WEXITSTATUS( st ) == 0 )
      {
        std::string txt = readFile( dir + "/ops" );
        size_t pos = 0;
        while ( pos < txt.size() )
        {
          size_t e = txt.find( '\n', pos );
          OpRec o;
          int k, c, w, at = 0;
          if ( sscanf( txt.c_str() + pos, "%d %d %d %ld %zu%n", &k, &c, &w, &o.off, &o.len, &at ) >= 5 )
          {
            o.kind = ( sysio::Kind )k; o.creates = c; o.writes = w;
            o.path = txt.substr( pos + at + 1, e - pos - at - 1 );
            ops.push_back( o );
          }
          pos = e + 1;
        }
      }
      r.push_back( ops );
    }
    removeTree( dir );
    return r;
  }
}
