// The finite space of SQLite table states shared by several checks: schema families, and for each
// family all states (every assignment of a payload, or absence, to every key).
#pragma once
#include "mc.h"
#include <cmath>
#include <limits>
#include <tuple>

namespace space
{
  using namespace mc;

  struct Table
  {
    std::string name;
    std::vector<std::string> cols;      //!< stored columns in table order (no generated ones)
    std::vector<int> pk;                //!< 1/0 per stored column
    std::vector<Row> keys;              //!< candidate rows' key parts (by pk columns in column order)
    std::vector<Row> pay;               //!< payloads (non-key columns in column order)
    uint64_t nstates() const { uint64_t n = 1; for ( size_t i = 0; i < keys.size(); ++i ) n *= pay.size() + 1; return n; }
  };

  struct Family
  {
    std::string name;
    std::string setup;                  //!< SQL creating everything but the rows of `tables`
    std::vector<Table> tables;
    std::string after;                  //!< SQL run after the rows are there
    bool hasAlt = false;                //!< the modified (their) database is made with these two instead
    std::string setupAlt, afterAlt;
    bool unique = false;                //!< has secondary UNIQUE constraints
    bool nocaseKey = false;
    bool rebasable = true;
    // bulk: every row stands for this many, with keys `stride` apart; all tables are in the state of the first one
    int rowCopies = 1;
    int64_t stride = 1;
    bool tablesAlike = false;
    uint64_t nstates() const { uint64_t n = 1; for ( auto &t : tables ) { n *= t.nstates(); if ( tablesAlike ) break; } return n; }

    std::vector<std::pair<const Table *, Row>> rows( uint64_t st ) const
    {
      std::vector<std::pair<const Table *, Row>> r;
      for ( auto &t : tables )
      {
        uint64_t s = st % t.nstates();
        if ( !tablesAlike ) st /= t.nstates();
        for ( auto &k : t.keys )
        {
          uint64_t c = s % ( t.pay.size() + 1 );
          s /= t.pay.size() + 1;
          if ( !c ) continue;
          for ( int j = 0; j < rowCopies; ++j )
          {
            Row row;
            size_t a = 0, b = 0;
            for ( size_t i = 0; i < t.cols.size(); ++i )
            {
              row.push_back( t.pk[i] ? k[a++] : t.pay[c - 1][b++] );
              if ( j && t.pk[i] ) row.back().i += j * stride;
            }
            r.push_back( { &t, row } );
          }
        }
      }
      return r;
    }
    std::string sql( uint64_t st, bool alt = false ) const
    {
      std::string o = alt ? setupAlt : setup;
      for ( auto &tr : rows( st ) )
      {
        o += "INSERT INTO " + quoteId( tr.first->name ) + "(";
        for ( size_t i = 0; i < tr.first->cols.size(); ++i ) o += ( i ? "," : "" ) + quoteId( tr.first->cols[i] );
        o += ") VALUES(";
        for ( size_t i = 0; i < tr.second.size(); ++i ) o += ( i ? "," : "" ) + sqlLit( tr.second[i] );
        o += ");\n";
      }
      return o + ( alt ? afterAlt : after );
    }
    std::string show( uint64_t st ) const
    {
      std::string o;
      for ( auto &tr : rows( st ) )
        if ( o.size() > 2000 ) return o + " ...";
        else o += ( o.empty() ? "" : " " ) + ( tables.size() > 1 ? tr.first->name : std::string() ) + mc::show( tr.second );
      return o.empty() ? "(no rows)" : o;
    }
  };

  //! databases that differ in how they are stored, not in what they hold
  inline void addPhysical( std::vector<Family> &F, bool triples )
  {
    auto add = [&]( const std::string & name, const std::string & setup, const std::string & alt, std::vector<Row> pay, const std::string & after = "", const std::string & afterAlt = "" )
    {
      if ( triples && setup.find( "VALUES(100," ) != std::string::npos ) return;   // the model knows only the rows of the states
      Family f;
      f.name = name; f.setup = setup; f.setupAlt = alt; f.after = after; f.afterAlt = afterAlt; f.hasAlt = true;
      f.tables = { { "t", { "id", "a", "b" }, { 1, 0, 0 }, { { I( 1 ) }, { I( 2 ) } }, pay } };
      if ( triples ) { f.tables[0].keys.pop_back(); }
      F.push_back( f );
    };
    const std::string T0 = "CREATE TABLE t(id INTEGER PRIMARY KEY, a, b);\n";
    const std::vector<Row> two = { { T( "x" ), I( 1 ) }, { T( "\xC3\xA9\xF0\x9F\x98\x80" ), N() } };
    const std::vector<Row> texts = { { T( "" ), T( "a" ) }, { T( "\xC3\xA9" ), T( "\xE2\x82\xAC" ) }, { T( "\xF0\x9F\x98\x80" ), T( std::string( "a\0b", 3 ) ) }, { B( "\xC3\xA9" ), N() } };
    for ( const char *e : { "UTF-16le", "UTF-16be" } )
      add( e, std::string( "PRAGMA encoding='" ) + e + "';\n" + T0, std::string( "PRAGMA encoding='" ) + e + "'; PRAGMA page_size=1024;\n" + T0, texts );
    for ( const char *n : { "512", "8192", "65536" } )
      add( std::string( "page size " ) + n, "PRAGMA page_size=4096;\n" + T0, std::string( "PRAGMA page_size=" ) + n + ";\n" + T0, two );
    add( "auto_vacuum", "PRAGMA auto_vacuum=0;\n" + T0, "PRAGMA auto_vacuum=1;\n" + T0, two );
    add( "incremental vacuum, free pages", "PRAGMA auto_vacuum=2; CREATE TABLE x(a); INSERT INTO x VALUES(zeroblob(20000)); DROP TABLE x;\n" + T0, "PRAGMA auto_vacuum=0;\n" + T0, two );
    add( "wal", "PRAGMA journal_mode=WAL;\n" + T0, "PRAGMA journal_mode=DELETE;\n" + T0, two );
    add( "wal 2", "PRAGMA journal_mode=PERSIST;\n" + T0, "PRAGMA journal_mode=WAL;\n" + T0, two );
    add( "column added later", "CREATE TABLE t(id INTEGER PRIMARY KEY, a); INSERT INTO t VALUES(100,'old'); ALTER TABLE t ADD COLUMN b DEFAULT 'dflt';\n", "CREATE TABLE t(id INTEGER PRIMARY KEY, a, b); INSERT INTO t VALUES(100,'old','dflt');\n", two );
    add( "column added later to theirs", "CREATE TABLE t(id INTEGER PRIMARY KEY, a, b); INSERT INTO t VALUES(100,'old',7);\n", "CREATE TABLE t(id INTEGER PRIMARY KEY, a); INSERT INTO t VALUES(100,'old'); ALTER TABLE t ADD COLUMN b DEFAULT 7;\n", two );
    add( "column dropped and renamed", "CREATE TABLE t(id INTEGER PRIMARY KEY, gone TEXT, x, b); INSERT INTO t VALUES(100,'g','old',1); ALTER TABLE t DROP COLUMN gone; ALTER TABLE t RENAME COLUMN x TO a;\n", "CREATE TABLE t(id INTEGER PRIMARY KEY, a, b); INSERT INTO t VALUES(100,'old',1);\n", two );
    add( "table renamed", "CREATE TABLE z(id INTEGER PRIMARY KEY, a, b); ALTER TABLE z RENAME TO t;\n", T0, two );
    add( "order of creation", T0 + "CREATE TABLE s(k TEXT PRIMARY KEY, v); INSERT INTO s VALUES('p',1);\n", "CREATE TABLE s(k TEXT PRIMARY KEY, v); INSERT INTO s VALUES('p',1);\n" + T0, two );
    add( "indexes and views", T0 + "CREATE INDEX i1 ON t(a); CREATE VIEW v AS SELECT a FROM t;\n", T0 + "CREATE INDEX i2 ON t(b, a);\n", two );
    add( "other spelling", T0, "create table if not exists [t] (\"id\" INTEGER primary key, `a`, -- c\n 'b');\n", two );
    add( "user's virtual tables", T0 + "CREATE VIRTUAL TABLE box USING rtree(id, x0, x1); INSERT INTO box VALUES(1,2,3);\n", T0 + "CREATE VIRTUAL TABLE box USING rtree(id, x0, x1); INSERT INTO box VALUES(1,2,3);\n", two );
    add( "strict", "CREATE TABLE t(id INTEGER PRIMARY KEY, a TEXT, b INT) STRICT;\n", "CREATE TABLE t(id INTEGER PRIMARY KEY, a TEXT, b INT) STRICT;\n", two );
    if ( !triples )
    {
      Family f;
      f.name = "columns named rowid";
      f.setup = "CREATE TABLE t(oid, rowid TEXT PRIMARY KEY, _rowid_);\n";
      f.tables = { { "t", { "oid", "rowid", "_rowid_" }, { 0, 1, 0 }, { { T( "1" ) }, { T( "2" ) } }, { { I( 1 ), I( 2 ) }, { I( 2 ), I( 1 ) } } } };
      F.push_back( f );
      f.name = "descending key";
      f.setup = "CREATE TABLE t(rowid INTEGER PRIMARY KEY DESC, oid, _rowid_);\n";
      f.tables = { { "t", { "rowid", "oid", "_rowid_" }, { 1, 0, 0 }, { { I( 7 ) }, { I( 2 ) } }, { { I( 1 ), I( 2 ) }, { I( 2 ), I( 1 ) } } } };
      F.push_back( f );
      f.name = "named rowid, other key";
      f.setup = "CREATE TABLE t(rowid TEXT, id INTEGER PRIMARY KEY AUTOINCREMENT, v DEFAULT (random()));\n";
      f.tables = { { "t", { "rowid", "id", "v" }, { 0, 1, 0 }, { { I( 7 ) }, { I( 2 ) } }, { { T( "2" ), I( 2 ) }, { N(), N() } } } };
      F.push_back( f );
    }
    const std::string I0 = T0 + "CREATE INDEX ia ON t(a);" + ( triples ? "" : " INSERT INTO t VALUES(100,'z',0);" ) + "\n";
    add( "analyzed", I0, I0, two, "ANALYZE;", "ANALYZE;" );
    add( "base analyzed", I0, I0, two, "ANALYZE;", "" );
    add( "modified analyzed", I0, I0, two, "", "ANALYZE;" );
  }

  //! families with very many rows or tables
  inline void addBulk( std::vector<Family> &F, bool thorough, bool triples )
  {
    Row one{ I( 1 ) }, x{ T( "x" ) };
    for ( int n : thorough ? std::vector<int> { 130, 300, 520, 1100, 2100, 70000 } : std::vector<int> { 130, 300, 1100, 70000 } )
    {
      Family f;
      f.name = fmt( "%d-rows", n );
      f.setup = "CREATE TABLE t(id INTEGER PRIMARY KEY, v);\n";
      f.tables = { { "t", { "id", "v" }, { 1, 0 }, {}, { one, x } } };
      for ( int64_t k = 1; k <= ( n > 600 ? 1 : 2 ); ++k ) f.tables[0].keys.push_back( { I( k ) } );
      f.rowCopies = n / f.tables[0].keys.size();
      f.stride = f.tables[0].keys.size();
      F.push_back( f );
    }
    for ( int n : thorough ? std::vector<int> { 70, 130, 300, 1100 } : std::vector<int> { 130, 300 } )
    {
      Family f;
      f.name = fmt( "%d-tables", n );
      f.tablesAlike = true;
      for ( int i = 0; i < n; ++i )
      {
        std::string t = "table " + std::to_string( i );
        f.setup += "CREATE TABLE \"" + t + "\"(id INTEGER PRIMARY KEY, v);\n";
        f.tables.push_back( { t, { "id", "v" }, { 1, 0 }, { { I( 1 ) } }, { one, x } } );
      }
      F.push_back( f );
    }
  }

  //! some state of a family may violate its own constraints (UNIQUE): such states are left out
  inline const std::string *image( const Family &f, uint64_t st, bool alt = false )
  {
    alt = alt && f.hasAlt;
    // pointers stay valid until the cache has been filled twice
    static std::map<std::tuple<const Family *, uint64_t, bool>, std::pair<bool, std::string>> cache, old;
    static size_t bytes = 0;
    auto key = std::make_tuple( &f, st, alt );
    auto it = cache.find( key );
    if ( it == cache.end() )
    {
      if ( bytes > ( 250u << 20 ) ) { old.swap( cache ); cache.clear(); bytes = 0; }
      std::pair<bool, std::string> v;
      try { v.second = buildImage( f.sql( st, alt ) ); v.first = true; }
      catch ( const std::exception &e )
      {
        if ( std::string( e.what() ).find( "constraint failed" ) == std::string::npos ) throw;
        v.first = false;
      }
      bytes += v.second.size() + 200;
      it = cache.emplace( key, v ).first;
    }
    return it->second.first ? &it->second.second : nullptr;
  }

  inline std::vector<Val> allValues()
  {
    const double inf = std::numeric_limits<double>::infinity();
    std::vector<Val> v = { N(), I( 0 ), I( 1 ), T( "a" ), T( "" ), B( "a" ), B( "" ), R( 1.0 ), R( 0.5 ) };
    for ( int64_t i : { int64_t( -1 ), int64_t( 127 ), int64_t( 128 ), int64_t( 256 ), int64_t( 2147483647 ), int64_t( 2147483648LL ), int64_t( -2147483648LL ), int64_t( -2147483649LL ),
                        int64_t( 4294967295LL ), int64_t( 9007199254740993LL ), INT64_MAX, INT64_MIN } ) v.push_back( I( i ) );
    for ( double d : { 0.0, -1.5, 0.1, 1.0 / 3, 1e300, 5e-324, 2147483648.0, 9007199254740992.0, inf, -inf } ) v.push_back( R( d ) );
    for ( auto &s : { std::string( "A" ), std::string( "a " ), std::string( "1" ), std::string( "1.0" ), std::string( "a\0b", 3 ), std::string( "a\0c", 3 ), std::string( "\0", 1 ), std::string( "a\0", 2 ),
                      std::string( "\xC3\xA9" ), std::string( "\xF0\x9F\x98\x80" ), std::string( "q'\"\\\n\t\r%s\x01" ), std::string( 126, 'x' ), std::string( 127, 'x' ), std::string( 128, 'x' ), std::string( "NULL" ) } ) v.push_back( T( s ) );
    for ( auto &s : { std::string( "\0", 1 ), std::string( "\0\1", 2 ), std::string( "a\0b", 3 ), std::string( "a\0c", 3 ), std::string( "\xFF\xFE\x80" ), std::string( 127, 'x' ), std::string( 128, '\0' ) } ) v.push_back( B( s ) );
    return v;
  }
  inline std::vector<Row> one( const std::vector<Val> &v ) { std::vector<Row> r; for ( auto &x : v ) r.push_back( { x } ); return r; }
  inline std::vector<Row> product( const std::vector<std::vector<Val>> &cols )
  {
    std::vector<Row> r = { {} };
    for ( auto &c : cols )
    {
      std::vector<Row> n;
      for ( auto &a : r ) for ( auto &x : c ) { Row b = a; b.push_back( x ); n.push_back( b ); }
      r = n;
    }
    return r;
  }
  inline std::vector<Row> ints( std::initializer_list<int64_t> l ) { std::vector<Row> r; for ( int64_t i : l ) r.push_back( { I( i ) } ); return r; }

  //! values, keys and names that are long and alike: equal in length and in all but the last (or first) byte, or
  //! numbers next to each other
  inline void addNear( std::vector<Family> &F )
  {
    auto add = [&]( const std::string &name, const std::string &setup, Table t ) -> Family &
    {
      Family f;
      f.name = name; f.setup = setup; f.tables = { t };
      F.push_back( f );
      return F.back();
    };
    auto text = []( size_t n, size_t at, char c ) { std::string s( n, 'k' ); s[at] = c; return s; };
    std::vector<Val> L;
    for ( size_t n : { 20, 300, 5000 } ) for ( char c : { 'a', 'b' } ) L.push_back( T( text( n, n - 1, c ) ) );
    std::vector<Val> Bl;
    for ( size_t n : { 33, 300, 5000 } ) for ( char c : { '\0', 'b' } ) Bl.push_back( B( text( n, n - 1, c ) ) );
    std::vector<Val> mixed = { T( text( 64, 0, 'a' ) ), T( text( 64, 0, 'b' ) ), T( text( 64, 32, '\0' ) ), T( text( 64, 33, '\0' ) ), B( text( 64, 0, 'a' ) ), B( text( 64, 32, '\0' ) ) };
    std::vector<Val> nums = { R( 0.1 ), R( 0.1 + 1.4e-17 ), R( 1e300 ), R( -1e300 ), I( 9007199254740992LL ), I( 9007199254740993LL ), I( 4 ), I( 4294967300LL ), I( 260 ) };
    const std::string S = "CREATE TABLE t(id INTEGER PRIMARY KEY, v);\n";
    int n = 0;
    for ( auto &v : { L, Bl, mixed, nums } )
      add( fmt( "alike-%d", ++n ), S, { "t", { "id", "v" }, { 1, 0 }, ints( { 1 } ), one( v ) } );
    add( "alike-keys", "CREATE TABLE t(k TEXT PRIMARY KEY, v);\n", { "t", { "k", "v" }, { 1, 0 }, one( { L[0], L[1], L[3], L[5] } ), one( { I( 1 ) } ) } );
    const std::string p( 70, 'p' );
    add( "alike-names", "CREATE TABLE " + p + "t(" + p + "1 INTEGER PRIMARY KEY, " + p + "2, " + p + "3); CREATE TABLE " + p + "s(id INTEGER PRIMARY KEY);\n",
      { p + "t", { p + "1", p + "2", p + "3" }, { 1, 0, 0 }, ints( { 1 } ), product( { { I( 1 ), I( 2 ) }, { N(), T( "x" ) } } ) } );
  }

  inline std::vector<Family> families( bool thorough )
  {
    std::vector<Family> F;
    auto add = [&]( const std::string &name, const std::string &setup, std::vector<Table> tables ) -> Family &
    {
      Family f;
      f.name = name; f.setup = setup; f.tables = std::move( tables );
      F.push_back( f );
      return F.back();
    };
    const std::vector<Val> V = allValues();
    const std::vector<Val> few = { N(), I( 1 ), T( "x" ) };

    // --- the basic table: all pairs of states over three keys
    add( "int-pk", "CREATE TABLE t(id INTEGER PRIMARY KEY, v);\n", { { "t", { "id", "v" }, { 1, 0 }, thorough ? ints( { 1, 2, 3, 4 } ) : ints( { 1, 2, 3 } ), one( thorough ? std::vector<Val>{ N(), I( 1 ), T( "x" ), R( 0.5 ) } : few ) } } );
    // --- every value to every value in an untyped column
    add( "values", "CREATE TABLE t(id INTEGER PRIMARY KEY, v);\n", { { "t", { "id", "v" }, { 1, 0 }, ints( { 1 } ), one( V ) } } );
    // --- typed columns
    std::vector<Val> TV = { N(), I( 0 ), I( 1 ), R( 1.0 ), R( 0.5 ), R( 1e300 ), T( "" ), T( "a" ), T( "1" ), T( "2020-01-01T00:00:00Z" ), B( "" ), B( "a" ), I( INT64_MAX ), R( 9007199254740992.0 ), T( std::string( "a\0b", 3 ) ) };
    for ( const char *ty : { "INTEGER", "REAL", "TEXT", "BLOB", "NUMERIC", "BOOLEAN", "DATETIME", "VARCHAR(10)", "DOUBLE", "MEDIUMINT" } )
      add( std::string( "type-" ) + ty, std::string( "CREATE TABLE t(id INTEGER PRIMARY KEY, v " ) + ty + ");\n", { { "t", { "id", "v" }, { 1, 0 }, ints( { 1 } ), one( TV ) } } );
    // --- several columns: every combination of unchanged / changed / NULL per column
    add( "three-columns", "CREATE TABLE t(id INTEGER PRIMARY KEY, a, b TEXT, c REAL);\n",
    { { "t", { "id", "a", "b", "c" }, { 1, 0, 0, 0 }, ints( { 1 } ), product( { { N(), I( 1 ), I( 2 ) }, { N(), T( "x" ), T( "y" ) }, { N(), R( 0.5 ), R( 1 ) } } ) } } );
    // --- keys
    add( "big-int-keys", "CREATE TABLE t(id INTEGER PRIMARY KEY, v);\n",
    { { "t", { "id", "v" }, { 1, 0 }, ints( { INT64_MIN, -1, 2147483648LL, INT64_MAX } ), one( { N(), I( 1 ) } ) } } );
    add( "zero-and-negative-keys", "CREATE TABLE t(id INTEGER PRIMARY KEY, v);\n",
    { { "t", { "id", "v" }, { 1, 0 }, ints( { 0, -1, -2147483649LL, 4294967297LL } ), one( { T( "" ), I( 0 ) } ) } } );
    add( "text-pk", "CREATE TABLE t(k TEXT PRIMARY KEY, v);\n",
    { { "t", { "k", "v" }, { 1, 0 }, one( { T( "b!" ), T( "aB" ), T( "" ), T( "\xC3\xA9'\"" ) } ), one( { N(), T( "x" ) } ) } } );
    add( "text-pk-case", "CREATE TABLE t(k TEXT PRIMARY KEY NOT NULL, v);\n",
    { { "t", { "k", "v" }, { 1, 0 }, one( { T( "a" ), T( "A" ), T( "a " ), T( std::string( "a\0b", 3 ) ) } ), one( { N(), T( "x" ) } ) } } );
    add( "real-pk", "CREATE TABLE t(k REAL PRIMARY KEY, v);\n", { { "t", { "k", "v" }, { 1, 0 }, one( { R( 0.5 ), R( 0.1 ), R( 1e300 ) } ), one( { N(), I( 1 ) } ) } } ).rebasable = false;
    add( "blob-pk", "CREATE TABLE t(k BLOB PRIMARY KEY, v);\n", { { "t", { "k", "v" }, { 1, 0 }, one( { B( "" ), B( "a" ), B( std::string( "a\0b", 3 ) ) } ), one( { N(), I( 1 ) } ) } } ).rebasable = false;
    add( "composite-pk", "CREATE TABLE t(a INTEGER, b TEXT, v, PRIMARY KEY(a, b));\n",
    { { "t", { "a", "b", "v" }, { 1, 1, 0 }, product( { { I( 1 ), I( 2 ) }, { T( "x" ), T( "y" ) } } ), one( { N(), I( 1 ) } ) } } ).rebasable = false;
    add( "composite-pk-other-order", "CREATE TABLE t(a, v, b INTEGER, w TEXT, PRIMARY KEY(b, a));\n",
    { { "t", { "a", "v", "b", "w" }, { 1, 0, 1, 0 }, product( { { T( "x" ), T( "y" ) }, { I( 1 ) } } ), product( { { N(), I( 1 ) }, { T( "p" ), T( "q" ) } } ) } } ).rebasable = false;
    add( "pk-last", "CREATE TABLE t(v, w TEXT, id INTEGER PRIMARY KEY);\n", { { "t", { "v", "w", "id" }, { 0, 0, 1 }, ints( { 1, 2 } ), product( { { N(), I( 1 ) }, { T( "p" ), T( "q" ) } } ) } } );
    add( "pk-middle", "CREATE TABLE t(v, id INTEGER PRIMARY KEY, w TEXT);\n", { { "t", { "v", "id", "w" }, { 0, 1, 0 }, ints( { 1, 2 } ), product( { { N(), I( 1 ) }, { T( "p" ), T( "q" ) } } ) } } );
    add( "only-pk", "CREATE TABLE t(id INTEGER PRIMARY KEY);\n", { { "t", { "id" }, { 1 }, ints( { 1, 2, 3, 4 } ), { {} } } } );
    add( "only-pk-text", "CREATE TABLE t(k TEXT PRIMARY KEY);\n", { { "t", { "k" }, { 1 }, one( { T( "a" ), T( "b" ), T( "" ) } ), { {} } } } );
    add( "only-pk-composite", "CREATE TABLE t(a INTEGER, b TEXT, PRIMARY KEY(a,b));\n", { { "t", { "a", "b" }, { 1, 1 }, product( { { I( 1 ), I( 2 ) }, { T( "x" ), T( "y" ) } } ), { {} } } } ).rebasable = false;
    add( "without-rowid", "CREATE TABLE t(k TEXT PRIMARY KEY, v, w) WITHOUT ROWID;\n",
    { { "t", { "k", "v", "w" }, { 1, 0, 0 }, one( { T( "a" ), T( "b" ) } ), product( { { N(), I( 1 ) }, { T( "p" ), T( "q" ) } } ) } } );
    add( "without-rowid-composite", "CREATE TABLE t(v, b TEXT, a INTEGER, PRIMARY KEY(a, b)) WITHOUT ROWID;\n",
    { { "t", { "v", "b", "a" }, { 0, 1, 1 }, product( { { T( "x" ), T( "y" ) }, { I( 1 ), I( 2 ) } } ), one( { N(), I( 1 ) } ) } } ).rebasable = false;
    add( "autoincrement", "CREATE TABLE t(id INTEGER PRIMARY KEY AUTOINCREMENT NOT NULL, v);\n", { { "t", { "id", "v" }, { 1, 0 }, ints( { 1, 2, 9 } ), one( few ) } } );
    // --- collations
    add( "nocase-column", "CREATE TABLE t(id INTEGER PRIMARY KEY, v TEXT COLLATE NOCASE);\n", { { "t", { "id", "v" }, { 1, 0 }, ints( { 1 } ), one( { N(), T( "a" ), T( "A" ), T( "b" ), T( "aB" ), T( "Ab" ) } ) } } );
    add( "rtrim-column", "CREATE TABLE t(id INTEGER PRIMARY KEY, v TEXT COLLATE RTRIM);\n", { { "t", { "id", "v" }, { 1, 0 }, ints( { 1 } ), one( { N(), T( "a" ), T( "a " ), T( "a  " ), T( "" ), T( " " ) } ) } } );
    {
      Family &f = add( "nocase-pk", "CREATE TABLE t(k TEXT COLLATE NOCASE PRIMARY KEY, v);\n", { { "t", { "k", "v" }, { 1, 0 }, one( { T( "a" ), T( "A" ), T( "b" ) } ), one( { N(), I( 1 ) } ) } } );
      f.nocaseKey = true;
    }
    add( "untyped-pk", "CREATE TABLE t(k PRIMARY KEY, v);\n", { { "t", { "k", "v" }, { 1, 0 }, one( { I( 1 ), R( 1.5 ), T( "1" ), B( "1" ) } ), one( { N(), I( 1 ) } ) } } ).rebasable = false;
    // --- names
    int q = 0;
    for ( const char *nm : { "a b", "it's", "say \"hi\"", "100%s%d%n", "select", "\xC3\xA9\xE2\x82\xAC", "a;b--", "[x]", "back\\slash", "T", "t.dot", "`tick`", "0start", "gpkg_user", "gpkgnotes", "gpkg_ogr", "rtreenotes", "rtree", "my_gpkg_ogr_contents", "aux", "main", "temp", "rowid", "sqlite2", "sqlitesequence", "x?1:y@z$" } )
    {
      std::string n = nm;
      add( "name-" + n, "CREATE TABLE " + quoteId( n ) + "(" + quoteId( "k" + n ) + " INTEGER PRIMARY KEY, " + quoteId( n ) + ", " + quoteId( n + n ) + " TEXT);\n",
      { { n, { "k" + n, n, n + n }, { 1, 0, 0 }, ints( { 1, 2 } ), product( { { N(), I( 1 ) }, { T( "p" ) } } ) } } );
      ++q;
    }
    // --- several tables; tables without primary key; views, indexes; GeoPackage-like metadata
    {
      Table a{ "a", { "id", "v" }, { 1, 0 }, ints( { 1, 2 } ), one( { I( 1 ), N() } ) };
      Table b{ "b", { "k", "v" }, { 1, 0 }, one( { T( "x" ) } ), one( { I( 1 ), T( "y" ) } ) };
      add( "two-tables", "CREATE TABLE b(k TEXT PRIMARY KEY, v); CREATE TABLE a(id INTEGER PRIMARY KEY, v);\n", { a, b } );
      Table c{ "c", { "x", "y", "v" }, { 1, 1, 0 }, product( { { I( 1 ) }, { I( 2 ) } } ), one( { I( 7 ) } ) };
      Table a2 = a;
      a2.pay = one( { I( 1 ) } );
      Table b2 = b;
      b2.pay = one( { I( 1 ) } );
      add( "three-tables", "CREATE TABLE c(x,y,v,PRIMARY KEY(x,y)); CREATE TABLE a(id INTEGER PRIMARY KEY, v); CREATE TABLE b(k TEXT PRIMARY KEY, v);"
           " CREATE TABLE nopk(x,y); INSERT INTO nopk VALUES(1,2),(1,2); CREATE TABLE empty(id INTEGER PRIMARY KEY);"
           " CREATE VIEW vw AS SELECT * FROM a; CREATE INDEX ix ON a(v); CREATE UNIQUE INDEX ux ON c(x,y);\n", { a2, b2, c } ).rebasable = false;
    }
    {
      Family &f = add( "nopk-differs", "CREATE TABLE nopk(x,y); INSERT INTO nopk VALUES(1,2),(1,2); CREATE TABLE a(id INTEGER PRIMARY KEY, v);\n", { { "a", { "id", "v" }, { 1, 0 }, ints( { 1, 2 } ), one( { I( 1 ), N() } ) } } );
      f.after = "INSERT INTO nopk SELECT count(*), 0 FROM a;\n";
    }
    // --- constraints
    add( "constraints", "CREATE TABLE t(id INTEGER PRIMARY KEY, a INTEGER NOT NULL DEFAULT 5, b TEXT CHECK(b IS NULL OR length(b)<4), c DEFAULT 'dflt');\n",
    { { "t", { "id", "a", "b", "c" }, { 1, 0, 0, 0 }, ints( { 1, 2 } ), product( { { I( 5 ), I( 0 ) }, { N(), T( "abc" ) }, { N() } } ) } } );
    {
      Family &f = add( "unique", "CREATE TABLE t(id INTEGER PRIMARY KEY, u UNIQUE, v);\n", { { "t", { "id", "u", "v" }, { 1, 0, 0 }, ints( { 1, 2, 3 } ), product( { { N(), I( 1 ), I( 2 ) }, { T( "p" ) } } ) } } );
      f.unique = true;
      Family &g = add( "unique-index", "CREATE TABLE t(id INTEGER PRIMARY KEY, u TEXT, v); CREATE UNIQUE INDEX tu ON t(u, v);\n",
      { { "t", { "id", "u", "v" }, { 1, 0, 0 }, ints( { 1, 2 } ), product( { { T( "a" ), T( "b" ) }, { I( 1 ), N() } } ) } } );
      g.unique = true;
    }
    add( "foreign-key", "CREATE TABLE p(id INTEGER PRIMARY KEY, v); CREATE TABLE c(id INTEGER PRIMARY KEY, pid INTEGER REFERENCES p(id) ON DELETE CASCADE ON UPDATE CASCADE);\n",
    { { "c", { "id", "pid" }, { 1, 0 }, ints( { 1, 2 } ), ints( { 1, 2 } ) }, { "p", { "id", "v" }, { 1, 0 }, ints( { 1, 2 } ), one( { N() } ) } } ).rebasable = false;
    // --- generated columns
    add( "generated-virtual", "CREATE TABLE t(id INTEGER PRIMARY KEY, g AS (a*2), a INTEGER, b TEXT);\n", { { "t", { "id", "a", "b" }, { 1, 0, 0 }, ints( { 1, 2 } ), product( { { I( 1 ), I( 2 ) }, { N(), T( "x" ) } } ) } } );
    add( "generated-stored", "CREATE TABLE t(g TEXT GENERATED ALWAYS AS (b || '!') STORED, id INTEGER PRIMARY KEY, b TEXT, a);\n", { { "t", { "id", "b", "a" }, { 1, 0, 0 }, ints( { 1, 2 } ), product( { { T( "p" ), T( "q" ) }, { N(), I( 1 ) } } ) } } );
    // --- partial and expression indexes
    add( "expression-index", "CREATE TABLE t(id INTEGER PRIMARY KEY, a, b TEXT); CREATE INDEX ie ON t(lower(b)); CREATE INDEX ip ON t(a) WHERE a > 1;\n",
    { { "t", { "id", "a", "b" }, { 1, 0, 0 }, ints( { 1, 2 } ), product( { { I( 1 ), I( 2 ) }, { N(), T( "X" ) } } ) } } );
    // --- wide tables
    for ( int w : thorough ? std::vector<int> { 2, 126, 127, 128, 129, 255, 256, 300, 900, 990 } : std::vector<int> { 127, 128, 129, 300 } )
    {
      Table t{ "wide", {}, {}, ints( { 1 } ), {} };
      std::string sql = "CREATE TABLE wide(";
      for ( int i = 0; i < w; ++i )
      {
        t.cols.push_back( "c" + std::to_string( i ) );
        t.pk.push_back( i == w - 1 );
        sql += ( i ? ",c" : "c" ) + std::to_string( i ) + ( i == w - 1 ? " INTEGER PRIMARY KEY" : "" );
      }
      sql += ");\n";
      for ( int var = 0; var < 4; ++var )
      {
        Row r;
        for ( int i = 0; i < w - 1; ++i ) r.push_back( var == 0 ? N() : var == 1 ? I( i ) : var == 2 ? ( i == 0 || i == 126 || i == w - 2 ? T( "changed" ) : I( i ) ) : T( "v" + std::to_string( i ) ) );
        t.pay.push_back( r );
      }
      add( fmt( "wide-%d", w ), sql, { t } );
    }
    // --- a GeoPackage layer without index (plain geometry blobs)
    add( "gpkg-layer", "CREATE TABLE gpkg_contents(table_name TEXT NOT NULL PRIMARY KEY, data_type TEXT NOT NULL, identifier TEXT UNIQUE, description TEXT DEFAULT '', last_change DATETIME, min_x DOUBLE, min_y DOUBLE, max_x DOUBLE, max_y DOUBLE, srs_id INTEGER);"
         "CREATE TABLE gpkg_spatial_ref_sys(srs_name TEXT NOT NULL, srs_id INTEGER NOT NULL PRIMARY KEY, organization TEXT NOT NULL, organization_coordsys_id INTEGER NOT NULL, definition TEXT NOT NULL, description TEXT);"
         "CREATE TABLE gpkg_geometry_columns(table_name TEXT NOT NULL, column_name TEXT NOT NULL, geometry_type_name TEXT NOT NULL, srs_id INTEGER NOT NULL, z TINYINT NOT NULL, m TINYINT NOT NULL, CONSTRAINT pk_geom_cols PRIMARY KEY (table_name, column_name));"
         "CREATE TABLE simple(fid INTEGER PRIMARY KEY AUTOINCREMENT NOT NULL, geometry POINT, name TEXT, rating MEDIUMINT);"
         "INSERT INTO gpkg_contents VALUES('simple','features','simple','','2020-01-01',0,0,1,1,4326);"
         "INSERT INTO gpkg_spatial_ref_sys VALUES('WGS 84',4326,'EPSG',4326,'GEOGCS','');"
         "INSERT INTO gpkg_geometry_columns VALUES('simple','geometry','POINT',4326,0,0);\n",
    { { "simple", { "fid", "geometry", "name", "rating" }, { 1, 0, 0, 0 }, ints( { 1, 2 } ), { { N(), T( "a" ), I( 1 ) }, { B( unhex( "47500001E6100000" "0101000000000000000000F03F0000000000000040" ) ), T( "a" ), I( 2 ) }, { B( unhex( "47500001E6100000" "0101000000000000000000F03F0000000000000840" ) ), N(), I( 2 ) } } } } );
    addPhysical( F, false );
    addNear( F );
    addBulk( F, thorough, false );
    return F;
  }

  //! the pairs (base, modified) of all families, indexed
  struct Pairs
  {
    std::vector<Family> fam;
    std::vector<uint64_t> start;
    uint64_t total = 0;
    explicit Pairs( bool thorough, const std::function<bool( const Family & )> &pred = nullptr )
    {
      for ( auto &f : families( thorough ) ) if ( !pred || pred( f ) ) fam.push_back( f );
      for ( auto &f : fam ) { start.push_back( total ); total += f.nstates() * f.nstates(); }
    }
    void get( uint64_t idx, const Family *&f, uint64_t &a, uint64_t &b ) const
    {
      size_t k = std::upper_bound( start.begin(), start.end(), idx ) - start.begin() - 1;
      f = &fam[k];
      uint64_t r = idx - start[k];
      a = r % f->nstates();
      b = r / f->nstates();
    }
    std::string describe( uint64_t idx ) const
    {
      const Family *f;
      uint64_t a, b;
      get( idx, f, a, b );
      std::string s = f->setup;
      if ( s.size() > 600 ) s = s.substr( 0, 600 ) + "...\n";
      return "schema family " + f->name + "\n" + s + "BASE:     " + f->show( a ) + "\nMODIFIED: " + f->show( b );
    }
  };

  //! exact difference of two contents as entries, computed independently of the library
  inline std::string keyOf( const Table &t, const Row &r, bool nocase )
  {
    std::string o;
    for ( size_t i = 0; i < r.size(); ++i )
      if ( t.pk[i] )
      {
        Val v = r[i];
        if ( nocase ) for ( char &c : v.s ) if ( c >= 'A' && c <= 'Z' ) c += 32;
        o += enc( v );
      }
    return o;
  }

  //! does carrying out the entries one by one pass through a state that the family's UNIQUE constraints forbid?
  inline bool transientUnique( const Family &f, const std::string *image, const CSet &cs, const std::string &scratch )
  {
    bool transient = false;
    writeFile( scratch, *image );
    Db d( scratch );
    for ( auto &g : cs )
      for ( auto &e : g.entries )
      {
        const Table &t = f.tables[0];
        std::string w, s;
        for ( size_t i = 0; i < t.cols.size(); ++i )
        {
          if ( t.pk[i] ) w += ( w.empty() ? "" : " AND " ) + quoteId( t.cols[i] ) + "=" + sqlLit( e.op == OpInsert ? e.n[i] : e.o[i] );
          if ( e.op == OpInsert ) s += ( i ? "," : "" ) + sqlLit( e.n[i] );
          else if ( e.op == OpUpdate && e.n[i].t != Val::Undef ) s += ( s.empty() ? "" : "," ) + quoteId( t.cols[i] ) + "=" + sqlLit( e.n[i] );
        }
        std::string q = quoteId( t.name );
        if ( !d.tryExec( e.op == OpInsert ? "INSERT INTO " + q + " VALUES(" + s + ")" : e.op == OpDelete ? "DELETE FROM " + q + " WHERE " + w : "UPDATE " + q + " SET " + s + " WHERE " + w ) ) transient = true;
      }
    return transient;
  }
}
