// Triples (BASE, THEIRS, MINE) of database states, and an independent model of merging two sets of
// edits; used by the rebase checks.
#pragma once
#include "space.h"
#include <tuple>

namespace space
{
  inline std::vector<Family> rebaseFamilies( bool thorough )
  {
    std::vector<Family> F;
    auto add = [&]( const std::string &name, const std::string &setup, std::vector<Table> tables ) -> Family &
    {
      Family f;
      f.name = name; f.setup = setup; f.tables = std::move( tables );
      F.push_back( f );
      return F.back();
    };
    add( "rows", "CREATE TABLE t(id INTEGER PRIMARY KEY, v);\n", { { "t", { "id", "v" }, { 1, 0 }, thorough ? ints( { 1, 2, 3, 4 } ) : ints( { 1, 2, 3 } ), one( { I( 1 ), T( "x" ) } ) } } );
    add( "more-keys", "CREATE TABLE t(id INTEGER PRIMARY KEY, v);\n", { { "t", { "id", "v" }, { 1, 0 }, thorough ? ints( { 1, 2, 3, 4, 6, 7 } ) : ints( { 2, 3, 4, 6 } ), one( { I( 1 ) } ) } } );
    add( "cells", "CREATE TABLE t(id INTEGER PRIMARY KEY, a, b);\n", { { "t", { "id", "a", "b" }, { 1, 0, 0 }, ints( { 1 } ), product( { { N(), I( 1 ), I( 2 ) }, { T( "p" ), T( "q" ), N() } } ) } } );
    add( "three-cells", "CREATE TABLE t(a, id INTEGER PRIMARY KEY, b TEXT, c);\n", { { "t", { "a", "id", "b", "c" }, { 0, 1, 0, 0 }, ints( { 7 } ), product( { { I( 1 ), I( 2 ) }, { T( "p" ), T( "q" ) }, { N(), R( 0.5 ) } } ) } } );
    {
      std::vector<Val> V = { N(), I( 0 ), I( 1 ), R( 1.0 ), R( 0.5 ), T( "" ), T( "1" ), T( "a" ), T( "A" ), B( "" ), B( "a" ), T( std::string( "a\0b", 3 ) ), T( std::string( "a\0c", 3 ) ), I( INT64_MAX ), B( std::string( "\0", 1 ) ), T( "q\"\\\n" ) };
      add( "values", "CREATE TABLE t(id INTEGER PRIMARY KEY, v);\n", { { "t", { "id", "v" }, { 1, 0 }, ints( { 3 } ), one( V ) } } );
    }
    add( "typed", "CREATE TABLE t(id INTEGER PRIMARY KEY, v TEXT COLLATE NOCASE, r REAL);\n", { { "t", { "id", "v", "r" }, { 1, 0, 0 }, ints( { 1 } ), product( { { N(), T( "a" ), T( "A" ) }, { R( 1 ), R( 0.1 ), N() } } ) } } );
    add( "text-keys", "CREATE TABLE t(k TEXT PRIMARY KEY, v);\n", { { "t", { "k", "v" }, { 1, 0 }, one( { T( "a" ), T( "b!" ), T( "" ) } ), one( { I( 1 ), N() } ) } } );
    add( "text-keys-case", "CREATE TABLE t(v, k TEXT PRIMARY KEY);\n", { { "t", { "v", "k" }, { 0, 1 }, one( { T( "a" ), T( "A" ), T( "a " ), T( std::string( "a\0b", 3 ) ) } ), one( { I( 1 ) } ) } } );
    add( "big-keys", "CREATE TABLE t(id INTEGER PRIMARY KEY, v);\n", { { "t", { "id", "v" }, { 1, 0 }, ints( { INT64_MIN, -1, 2147483648LL, INT64_MAX } ), one( { T( "x" ) } ) } } );
    add( "equal-low-bits", "CREATE TABLE t(id INTEGER PRIMARY KEY, v);\n", { { "t", { "id", "v" }, { 1, 0 }, ints( { 5, 4294967301LL, -4294967291LL } ), one( { T( "x" ), T( "y" ) } ) } } );
    add( "only-key", "CREATE TABLE t(id INTEGER PRIMARY KEY);\n", { { "t", { "id" }, { 1 }, ints( { 1, 2, 3, 4 } ), { {} } } } );
    {
      Table a{ "a", { "id", "v" }, { 1, 0 }, ints( { 1, 2 } ), one( { I( 1 ), N() } ) };
      Table b{ "b b", { "v", "k" }, { 0, 1 }, one( { T( "x" ) } ), one( { I( 1 ), T( "y" ) } ) };
      Table a1 = a;
      if ( !thorough ) a1.keys = ints( { 1, 2 } ), a1.pay = one( { I( 1 ) } );
      add( "two-tables", "CREATE TABLE \"b b\"(v, k TEXT PRIMARY KEY); CREATE TABLE a(id INTEGER PRIMARY KEY, v);\n", { a1, b } );
    }
    {
      Table a{ "a", { "id", "v" }, { 1, 0 }, ints( { 1, 3 } ), one( { I( 1 ) } ) }, b = a;
      b.name = "A2";
      b.keys = ints( { 2, 3 } );
      add( "same-keys-in-two-tables", "CREATE TABLE a(id INTEGER PRIMARY KEY, v); CREATE TABLE A2(id INTEGER PRIMARY KEY, v);\n", { a, b } );
    }
    {
      std::string n = "we\"ird 't\\able";
      add( "names", "CREATE TABLE " + quoteId( n ) + "(" + quoteId( n + "k" ) + " INTEGER PRIMARY KEY, " + quoteId( n ) + ");\n", { { n, { n + "k", n }, { 1, 0 }, ints( { 1, 2 } ), one( { I( 1 ), N() } ) } } );
    }
    for ( const char *n : { "site_contents", "gpkg_extra" } )
    {
      // every column with three values, the other ones as they were
      Row def = { I( 1 ), N(), I( 3 ), T( "d" ), R( 0.5 ), T( "f" ) };
      std::vector<Row> pay = { def };
      for ( size_t i = 0; i < def.size(); ++i )
        for ( const Val &v : { T( "x" ), I( 50 ) } ) { Row p = def; p[i] = v; pay.push_back( p ); }
      add( std::string( "seven-columns " ) + n, std::string( "CREATE TABLE " ) + n + "(id INTEGER PRIMARY KEY, a, b, c, d, e, f);\n", { { n, { "id", "a", "b", "c", "d", "e", "f" }, { 1, 0, 0, 0, 0, 0, 0 }, ints( { 2 } ), pay } } );
    }
    for ( const char *n : { "gpkgnotes", "rtreenotes", "gpkg_user", "aux", "main" } )
      add( std::string( "table " ) + n, std::string( "CREATE TABLE " ) + n + "(id INTEGER PRIMARY KEY, v);\n", { { n, { "id", "v" }, { 1, 0 }, ints( { 1, 2 } ), one( { I( 1 ), I( 2 ) } ) } } );
    add( "autoincrement", "CREATE TABLE t(id INTEGER PRIMARY KEY AUTOINCREMENT NOT NULL, v);\n", { { "t", { "id", "v" }, { 1, 0 }, ints( { 1, 2, 5 } ), one( { N(), I( 1 ) } ) } } );
    add( "without-rowid", "CREATE TABLE t(k INTEGER PRIMARY KEY NOT NULL, v) WITHOUT ROWID;\n", { { "t", { "k", "v" }, { 1, 0 }, ints( { 0, 1 } ), one( { N(), I( 1 ) } ) } } );
    add( "gpkg_contents", "CREATE TABLE gpkg_contents(table_name TEXT NOT NULL PRIMARY KEY, data_type TEXT NOT NULL, identifier TEXT UNIQUE, description TEXT DEFAULT '', last_change DATETIME, min_x DOUBLE);\n",
    { { "gpkg_contents", { "table_name", "data_type", "identifier", "description", "last_change", "min_x" }, { 1, 0, 0, 0, 0, 0 }, one( { T( "simple" ) } ), product( { { T( "features" ) }, { T( "i" ) }, { T( "" ), T( "d" ) }, { T( "2020-01" ), T( "2021-01" ), T( "2022-01" ) }, { R( 1 ), R( 2 ) } } ) } } );
    add( "generated", "CREATE TABLE t(id INTEGER PRIMARY KEY, g AS (a||'x'), a, b);\n", { { "t", { "id", "a", "b" }, { 1, 0, 0 }, ints( { 1 } ), product( { { I( 1 ), I( 2 ) }, { N(), I( 3 ) } } ) } } );
    // keys that cannot be rebased: refused when both sides have changes
    add( "composite", "CREATE TABLE t(a INTEGER, b TEXT, v, PRIMARY KEY(a,b));\n", { { "t", { "a", "b", "v" }, { 1, 1, 0 }, product( { { I( 1 ), I( 2 ) }, { T( "x" ) } } ), one( { I( 1 ), I( 2 ) } ) } } ).rebasable = false;
    add( "real-key", "CREATE TABLE t(k REAL PRIMARY KEY, v);\n", { { "t", { "k", "v" }, { 1, 0 }, one( { R( 0.5 ), R( 0.1 ) } ), one( { I( 1 ), I( 2 ) } ) } } ).rebasable = false;
    add( "blob-key", "CREATE TABLE t(k BLOB PRIMARY KEY, v);\n", { { "t", { "k", "v" }, { 1, 0 }, one( { B( "" ), B( "a" ) } ), one( { I( 1 ), I( 2 ) } ) } } ).rebasable = false;
    addPhysical( F, true );
    addNear( F );
    addBulk( F, thorough, true );
    return F;
  }

  struct Triples
  {
    std::vector<Family> fam;
    std::vector<uint64_t> start;
    uint64_t total = 0;
    explicit Triples( bool thorough, uint64_t maxStates = UINT64_MAX )
    {
      for ( auto &f : rebaseFamilies( thorough ) ) if ( f.nstates() <= maxStates ) fam.push_back( f );
      for ( auto &f : fam ) { start.push_back( total ); total += f.nstates() * f.nstates() * f.nstates(); }
    }
    void get( uint64_t idx, const Family *&f, uint64_t &b, uint64_t &t, uint64_t &m ) const
    {
      size_t k = std::upper_bound( start.begin(), start.end(), idx ) - start.begin() - 1;
      f = &fam[k];
      uint64_t r = idx - start[k], n = f->nstates();
      b = r % n; r /= n;
      t = r % n;
      m = r / n;
    }
    std::string describe( uint64_t idx ) const
    {
      const Family *f;
      uint64_t b, t, m;
      get( idx, f, b, t, m );
      return "schema family " + f->name + "\n" + f->setup + "BASE:   " + f->show( b ) + "\nTHEIRS: " + f->show( t ) + "\nMINE:   " + f->show( m );
    }
  };

  typedef std::map<std::string, std::map<std::string, Row>> State;   //!< table -> encoded key -> row

  inline State stateOf( const Family &f, uint64_t st )
  {
    State s;
    for ( auto &t : f.tables ) s[t.name];
    for ( auto &r : f.rows( st ) ) s[r.first->name][keyOf( *r.first, r.second, false )] = r.second;
    return s;
  }

  struct MConflict
  {
    std::string table, fid;
    size_t col;
    Val base, theirs, mine;
    bool operator<( const MConflict &o ) const { return std::tie( table, fid, col ) < std::tie( o.table, o.fid, o.col ); }
  };

  struct Merge
  {
    bool refused = false;           //!< has to be refused
    bool mayRefuse = false;         //!< may be refused: the key range is exhausted
    State fixed;                    //!< rows that have to be there as they are
    std::map<std::string, std::vector<Row>> rekeyed;   //!< my inserts that need a fresh key
    std::map<std::string, std::vector<Row>> soft;      //!< my other inserts: keep their key unless a fresh key took it
    std::vector<MConflict> conflicts;
    size_t theirEdits = 0, myEdits = 0;
    bool identity = false;          //!< one side has no edits
  };

  inline Val keyVal( const Table &t, const Row &r )
  {
    for ( size_t i = 0; i < r.size(); ++i ) if ( t.pk[i] ) return r[i];
    return U();
  }
  inline std::string fidText( const Val &v ) { return v.t == Val::Int ? std::to_string( v.i ) : v.s; }

  inline Merge merge( const Family &f, const State &B, const State &Th, const State &M )
  {
    Merge r;
    for ( auto &t : f.tables )
    {
      auto &b = B.at( t.name );
      auto &th = Th.at( t.name );
      auto &m = M.at( t.name );
      std::set<std::string> keys;
      for ( auto &x : b ) keys.insert( x.first );
      for ( auto &x : th ) keys.insert( x.first );
      for ( auto &x : m ) keys.insert( x.first );
      r.fixed[t.name];
      for ( auto &k : keys )
      {
        const Row *rb = b.count( k ) ? &b.at( k ) : nullptr, *rt = th.count( k ) ? &th.at( k ) : nullptr, *rm = m.count( k ) ? &m.at( k ) : nullptr;
        bool te = ( !rb != !rt ) || ( rb && rt && *rb != *rt ), me = ( !rb != !rm ) || ( rb && rm && *rb != *rm );
        r.theirEdits += te;
        r.myEdits += me;
        if ( !rb )
        {
          if ( rt ) r.fixed[t.name][k] = *rt;
          if ( rm && rt ) r.rekeyed[t.name].push_back( *rm );
          else if ( rm ) r.soft[t.name].push_back( *rm );
          continue;
        }
        if ( !rt || !rm ) continue;                      // deleted by either side: deleted
        Row x = *rt;
        for ( size_t i = 0; i < x.size(); ++i )
        {
          if ( ( *rm )[i] == ( *rb )[i] ) continue;      // not mine
          x[i] = ( *rm )[i];
          if ( ( *rt )[i] != ( *rb )[i] && ( *rt )[i] != ( *rm )[i] && !( t.name == "gpkg_contents" && i == 4 ) )
            r.conflicts.push_back( { t.name, fidText( keyVal( t, *rb ) ), i, ( *rb )[i], ( *rt )[i], ( *rm )[i] } );
        }
        r.fixed[t.name][k] = x;
      }
      for ( auto &x : r.rekeyed[t.name] ) if ( keyVal( t, x ).t != Val::Int ) r.refused = true;
      if ( !r.rekeyed[t.name].empty() )
        for ( auto st : { &b, &th, &m } ) for ( auto &x : *st ) if ( keyVal( t, x.second ).t == Val::Int && keyVal( t, x.second ).i >= INT64_MAX - 4 ) r.mayRefuse = true;
    }
    r.identity = !r.theirEdits || !r.myEdits;
    if ( !f.rebasable && !r.identity ) r.refused = true;
    std::sort( r.conflicts.begin(), r.conflicts.end() );
    return r;
  }

  //! rows of the family's tables, stored columns only
  inline Content storedContent( const std::string &path, const Family &f )
  {
    Db d( path, false );
    Content c;
    for ( auto &t : f.tables )
    {
      std::string q;
      for ( auto &n : t.cols ) q += ( q.empty() ? "" : "," ) + quoteId( n );
      auto &r = c[t.name] = d.query( "SELECT " + q + " FROM " + quoteId( t.name ) );
      std::sort( r.begin(), r.end() );
    }
    return c;
  }

  //! empty if the content is a correct merge
  inline std::string checkMerged( const Family &f, const Merge &mg, const State &B, const State &Th, const State &M, const Content &got )
  {
    for ( auto &t : f.tables )
    {
      std::map<std::string, Row> rest;
      auto it = got.find( t.name );
      if ( it == got.end() ) return "table " + t.name + " is missing\n";
      for ( auto &r : it->second )
        if ( !rest.emplace( keyOf( t, r, false ), r ).second ) return "duplicate key in " + t.name + "\n";
      auto all = rest;
      for ( auto &x : mg.fixed.at( t.name ) )
      {
        auto q = rest.find( x.first );
        if ( q == rest.end() ) return "table " + t.name + ": row is missing: " + show( x.second ) + "\n";
        if ( q->second != x.second ) return "table " + t.name + ": row is " + show( q->second ) + " instead of " + show( x.second ) + "\n";
        rest.erase( q );
      }
      auto payload = [&]( const Row & r ) { std::string o; for ( size_t i = 0; i < r.size(); ++i ) if ( !t.pk[i] ) o += enc( r[i] ); return o; };
      std::multiset<std::string> want, have;
      auto s = mg.soft.find( t.name );
      if ( s != mg.soft.end() )
        for ( auto &r : s->second )
        {
          std::string k = keyOf( t, r, false );
          auto q = rest.find( k );
          if ( q != rest.end() && q->second == r ) { rest.erase( q ); continue; }
          if ( !all.count( k ) ) return "table " + t.name + ": my inserted row has lost its key without need: " + show( r ) + "\n";
          if ( keyVal( t, r ).t != Val::Int ) return "table " + t.name + ": my inserted row is lost: " + show( r ) + "\n";
          want.insert( payload( r ) );
        }
      auto rk = mg.rekeyed.find( t.name );
      if ( rk != mg.rekeyed.end() ) for ( auto &r : rk->second ) want.insert( payload( r ) );
      for ( auto &r : rest )
      {
        have.insert( payload( r.second ) );
        if ( Th.at( t.name ).count( r.first ) || B.at( t.name ).count( r.first ) ) return "table " + t.name + ": unexpected row " + show( r.second ) + "\n";
      }
      if ( want != have )
      {
        std::string o = "table " + t.name + ": my inserted rows that need fresh keys do not match; rows left over:";
        for ( auto &r : rest ) o += " " + show( r.second );
        return o + fmt( "\nexpected %zu such rows\n", want.size() );
      }
    }
    return "";
  }

  inline bool jsonIs( const Json &j, const Val &v )
  {
    switch ( v.t )
    {
      case Val::Int: return j.k == Json::Num && j.s == std::to_string( v.i );
      case Val::Real: return j.k == Json::Num && num( j.s ) == v.d;
      case Val::Text: return j.k == Json::Str && j.s == v.s;
      case Val::Blob: return j.k == Json::Str && j.s == base64( v.s );
      case Val::Null: return j.k == Json::Null;
      default: return false;
    }
  }

  //! empty if the conflict file reports exactly these conflicts
  inline std::string checkConflicts( const std::string &path, const std::vector<MConflict> &want )
  {
    if ( want.empty() ) return exists( path ) ? "a conflict file exists although there are no conflicts:\n" + readFile( path ) + "\n" : "";
    if ( !exists( path ) ) return "there is no conflict file although there are conflicts\n";
    Json j;
    std::string err, txt = readFile( path );
    if ( !parseJson( txt, j, &err ) ) return "the conflict file is not valid JSON: " + err + "\n" + txt + "\n";
    if ( j.k != Json::Obj || !j.get( "geodiff" ) || j.get( "geodiff" )->k != Json::Arr ) return "the conflict file has no array 'geodiff'\n" + txt + "\n";
    size_t n = 0;
    std::set<std::pair<std::string, std::string>> rows;
    for ( auto &it : j.get( "geodiff" )->a )
    {
      const Json *tb = it.get( "table" ), *ty = it.get( "type" ), *fid = it.get( "fid" ), *ch = it.get( "changes" );
      if ( !tb || !ty || !fid || !ch || tb->k != Json::Str || ty->s != "conflict" || fid->k != Json::Str || ch->k != Json::Arr || ch->a.empty() ) return "malformed conflict\n" + txt + "\n";
      if ( !rows.insert( { tb->s, fid->s } ).second ) return "a row is reported twice\n" + txt + "\n";
      for ( auto &q : ch->a )
      {
        const Json *c = q.get( "column" ), *b = q.get( "base" ), *o = q.get( "old" ), *m = q.get( "new" );
        if ( !c || !b || !o || !m ) return "malformed conflict item\n" + txt + "\n";
        bool found = false;
        for ( auto &w : want )
          if ( w.table == tb->s && w.fid == fid->s && std::to_string( w.col ) == c->s )
          {
            found = true;
            if ( !jsonIs( *b, w.base ) || !jsonIs( *o, w.theirs ) || !jsonIs( *m, w.mine ) ) return "wrong values in a conflict\n" + txt + "\n";
          }
        if ( !found ) return "a conflict is reported that is none\n" + txt + "\n";
        ++n;
      }
    }
    if ( n != want.size() ) return fmt( "%zu conflicting cells are reported, there are %zu\n", n, want.size() ) + txt + "\n";
    return "";
  }

  //! does the changeset insert a key that an untouched row of THEIRS has already?
  inline bool freshTaken( const Family &f, const CSet &rebased, const State &B, const State &Th, const State &M )
  {
    for ( auto &g : rebased )
      for ( auto &t : f.tables )
        if ( t.name == g.table.name )
          for ( auto &e : g.entries )
            if ( e.op == OpInsert )
            {
              std::string k = keyOf( t, e.n, false );
              auto &b = B.at( t.name );
              auto &th = Th.at( t.name );
              auto &m = M.at( t.name );
              if ( !( b.count( k ) && th.count( k ) && m.count( k ) && b.at( k ) == th.at( k ) && b.at( k ) == m.at( k ) ) ) continue;
              // only a key above all keys in the two changesets is beyond what rebase looks at
              bool above = true;
              for ( auto &r : th ) if ( ( !b.count( r.first ) || b.at( r.first ) != r.second ) && keyVal( t, r.second ).i >= keyVal( t, e.n ).i ) above = false;
              for ( auto &r : b ) if ( ( !th.count( r.first ) || !m.count( r.first ) || m.at( r.first ) != r.second ) && keyVal( t, r.second ).i >= keyVal( t, e.n ).i ) above = false;
              if ( above ) return true;
            }
    return false;
  }
}
