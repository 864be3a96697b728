// P11: several clients edit copies of one database and synchronise through a server. One case is an
// assignment of edit scripts to the clients; all interleavings of edits, pulls and pushes are explored
// on the library, with the states (contents of all copies) deduplicated.
#include "mc.h"
#include <array>
#include <unordered_map>
#include <unistd.h>
using namespace mc;

struct Edit
{
  enum K { Ins, Upd, Del } k;
  std::string table, row, col;      // row: initial row's token, or "+" for the row the client inserted first
  Val val;
  std::string label;
};
struct Fam
{
  std::string name, ddl, keyDecl;
  bool textKey = false;
  std::vector<std::string> cols;
  std::vector<Edit> edits;
  std::vector<std::string> rows;
  std::vector<std::string> tables;
};

static std::vector<Fam> fams()
{
  std::vector<Fam> F;
  auto edits = [&]( Fam & f, const std::string & t, bool more )
  {
    f.edits.push_back( { Edit::Ins, t, "", "", U(), "insert" } );
    f.edits.push_back( { Edit::Upd, t, "r1", "a", U(), "r1.a" } );
    f.edits.push_back( { Edit::Upd, t, "r1", "b", U(), "r1.b" } );
    f.edits.push_back( { Edit::Del, t, "r1", "", U(), "delete r1" } );
    f.edits.push_back( { Edit::Del, t, "r2", "", U(), "delete r2" } );
    if ( !more ) return;
    f.edits.push_back( { Edit::Upd, t, "+", "a", U(), "own.a" } );
    f.edits.push_back( { Edit::Upd, t, "r2", "a", N(), "r2.a=NULL" } );
    f.edits.push_back( { Edit::Del, t, "+", "", U(), "delete own" } );
  };
  {
    Fam f;
    f.name = "autoincrement";
    f.ddl = "PRAGMA page_size=512; CREATE TABLE t(id INTEGER PRIMARY KEY AUTOINCREMENT NOT NULL, u TEXT, a, b); INSERT INTO t VALUES(1,'r1',0,0),(2,'r2',0,0),(3,'r3',0,0);";
    f.tables = { "t" };
    edits( f, "t", true );
    F.push_back( f );
  }
  {
    Fam f;
    f.name = "text keys";
    f.ddl = "PRAGMA page_size=512; CREATE TABLE t(b, u TEXT PRIMARY KEY NOT NULL, a); INSERT INTO t(u,a,b) VALUES('r1',0,0),('r2',0,0),('r3',0,0);";
    f.textKey = true;
    f.tables = { "t" };
    edits( f, "t", true );
    F.push_back( f );
  }
  {
    Fam f;
    f.name = "two tables";
    f.ddl = "PRAGMA page_size=512; CREATE TABLE s(id INTEGER PRIMARY KEY AUTOINCREMENT NOT NULL, u TEXT, a, b); INSERT INTO s VALUES(7,'r1',0,0),(8,'r2',0,0);"
            "CREATE TABLE t(a, b, u TEXT, id INTEGER PRIMARY KEY AUTOINCREMENT); INSERT INTO t(id,u,a,b) VALUES(7,'r1',0,0),(9,'r2',0,0);";
    f.tables = { "s", "t" };
    f.edits.push_back( { Edit::Ins, "s", "", "", U(), "insert s" } );
    f.edits.push_back( { Edit::Ins, "t", "", "", U(), "insert t" } );
    f.edits.push_back( { Edit::Upd, "s", "r1", "b", U(), "s.r1.b" } );
    f.edits.push_back( { Edit::Upd, "t", "r1", "a", U(), "t.r1.a" } );
    f.edits.push_back( { Edit::Del, "s", "r1", "", U(), "delete s.r1" } );
    f.edits.push_back( { Edit::Del, "t", "r1", "", U(), "delete t.r1" } );
    F.push_back( f );
  }
  return F;
}

struct Config { int fam, variant; std::vector<std::vector<int>> scripts; };
static std::vector<Fam> F;
static std::vector<Config> C;

// contents are interned: the same content is always represented by the same file
struct Store
{
  std::vector<std::string> image;
  std::vector<Content> content;
  std::unordered_map<std::string, int> byText;
  std::map<std::array<int, 4>, int> pullMemo, pushMemo;
  std::map<std::tuple<int, int, int, int>, int> editMemo;
  int put( const std::string &path )
  {
    Content c = contentOf( path, 0 );
    std::string k = show( c );
    auto it = byText.find( k );
    if ( it != byText.end() ) return it->second;
    int id = ( int ) image.size();
    image.push_back( readFile( path ) );
    c.erase( "sqlite_sequence" );
    content.push_back( c );
    byText[k] = id;
    return id;
  }
};

struct St
{
  int server;
  std::vector<std::array<int, 4>> c;       // base, local, next edit of the script, inserts made
  bool operator<( const St &o ) const { return std::tie( server, c ) < std::tie( o.server, o.c ); }
};

typedef std::map<std::string, std::map<std::string, Val>> Rows;      // table/token -> column -> value
static Rows rowsOf( const Ctx &x, const Fam &f, const Store &s, int id, const std::string &tmp )
{
  Rows r;
  writeFile( tmp, s.image[id] );
  Db d( tmp, false );
  for ( auto &t : f.tables )
    for ( auto &w : d.query( "SELECT u, a, b FROM " + t ) )
    {
      auto &m = r[t + "/" + w[0].s];
      x.check( m.empty(), "duplicate", "the row " + t + "/" + w[0].s + " is there twice" );
      m = { { "a", w[1] }, { "b", w[2] } };
    }
  return r;
}

int main( int argc, char **argv )
{
  return checkMain( argc, argv, []( const Opts & o )
  {
    F = fams();
    C.clear();
    for ( int fi = 0; fi < ( int ) F.size(); ++fi )
      for ( int variant = 0; variant < 2; ++variant )
      {
        int n = ( int ) F[fi].edits.size();
        auto scripts = [&]( int len )
        {
          std::vector<std::vector<int>> r = { {} }, last = { {} };
          for ( int l = 0; l < len; ++l )
          {
            std::vector<std::vector<int>> next;
            for ( auto &s : last ) for ( int e = 0; e < n; ++e ) { auto q = s; q.push_back( e ); next.push_back( q ); }
            r.insert( r.end(), next.begin(), next.end() );
            last = next;
          }
          return r;
        };
        auto a = scripts( o.thorough ? 3 : 2 ), b = scripts( 2 ), c1 = scripts( 1 );
        for ( auto &x : a ) for ( auto &y : b ) C.push_back( { fi, variant, { x, y } } );
        if ( o.thorough ) { for ( auto &x : b ) for ( auto &y : c1 ) for ( auto &z : c1 ) C.push_back( { fi, variant, { x, y, z } } ); }
        else for ( auto &x : c1 ) for ( auto &y : c1 ) for ( auto &z : c1 ) C.push_back( { fi, variant, { x, y, z } } );
      }
    Check c;
    c.property = "P11";
    c.odd = true;
    c.rule = "a state is the contents of the server's and all clients' copies and the clients' positions in their scripts; transitions are an edit, a pull (rebase onto the server's version) or a push (changeset applied by the server); all interleavings of each case are explored until nothing is left to do";
    c.bounds = { fmt( "%zu cases: 3 schemas, 2 ways to pull, every pair of edit scripts of length up to %d and 2, every %s scripts of three clients", C.size(), o.thorough ? 3 : 2, o.thorough ? "(2,1,1)" : "(1,1,1)" ) };
    c.assumptions = { "keys of deleted rows are not used again (AUTOINCREMENT or unique text keys), as in GeoPackage layers" };
    c.count = C.size();
    c.caseTimeout = 120;
    c.describe = []( uint64_t i )
    {
      const Config &k = C[i];
      std::string s = F[k.fam].name + ", " + ( k.variant ? "createRebasedChangeset and apply" : "GEODIFF_rebase" );
      for ( size_t q = 0; q < k.scripts.size(); ++q )
      {
        s += fmt( "\nclient %c:", char( 'A' + q ) );
        for ( int e : k.scripts[q] ) s += " " + F[k.fam].edits[e].label + ";";
      }
      return s;
    };
    c.run = []( const Ctx & x )
    {
      const Config &k = C[x.idx];
      const Fam &f = F[k.fam];
      static std::map<int, Store> stores;
      Store &S = stores[k.fam];
      if ( S.image.size() > 60000 ) S = Store();
      std::string tmp = x.p( "tmp.db" );
      auto load = [&]( const char *n, int id ) { std::string p = x.p( n ); writeFile( p, S.image[id] ); return p; };

      St init;
      writeFile( tmp, cachedImage( f.ddl ) );
      init.server = S.put( tmp );
      for ( size_t i = 0; i < k.scripts.size(); ++i ) init.c.push_back( { init.server, init.server, 0, 0 } );

      auto doEdit = [&]( int local, int client, int ei, int inserts )
      {
        auto key = std::make_tuple( local, client, ei, inserts );
        auto it = S.editMemo.find( key );
        if ( it != S.editMemo.end() ) return it->second;
        const Edit &e = f.edits[ei];
        std::string who( 1, char( 'A' + client ) ), p = load( "edit.db", local ), row = e.row == "+" ? who + "1" : e.row;
        {
          Db d( p, false );
          if ( e.k == Edit::Ins ) d.exec( "INSERT INTO " + e.table + "(u,a,b) VALUES('" + who + std::to_string( inserts + 1 ) + "',1,1)" );
          else if ( e.k == Edit::Upd ) d.exec( "UPDATE " + e.table + " SET " + e.col + "=" + ( e.val.t == Val::Undef ? "'" + who + "'" : sqlLit( e.val ) ) + " WHERE u='" + row + "'" );
          else d.exec( "DELETE FROM " + e.table + " WHERE u='" + row + "'" );
        }
        return S.editMemo[key] = S.put( p );
      };
      auto pull = [&]( int base, int local, int server )
      {
        std::array<int, 4> key = { k.variant, base, local, server };
        auto it = S.pullMemo.find( key );
        if ( it != S.pullMemo.end() ) return it->second;
        std::string pb = load( "base.db", base ), pl = load( "local.db", local ), ps = load( "server.db", server ), conf = x.p( "conf" ), cs = x.p( "b2t" ), re = x.p( "reb" );
        if ( k.variant == 0 ) x.check( GEODIFF_rebase( pb.c_str(), ps.c_str(), pl.c_str(), conf.c_str() ) == GEODIFF_SUCCESS, "rebase", "rebase failed" );
        else
        {
          x.check( GEODIFF_createChangeset( pb.c_str(), ps.c_str(), cs.c_str() ) == GEODIFF_SUCCESS, "create", "createChangeset base server failed" );
          x.check( GEODIFF_createRebasedChangeset( pb.c_str(), pl.c_str(), cs.c_str(), re.c_str(), conf.c_str() ) == GEODIFF_SUCCESS, "rebase", "createRebasedChangeset failed" );
          unlink( pl.c_str() );
          writeFile( pl, S.image[server] );
          x.check( GEODIFF_applyChangeset( pl.c_str(), re.c_str() ) == GEODIFF_SUCCESS, "apply", "the rebased changeset cannot be applied to the server's version" );
        }
        x.trace();
        int id = S.put( pl );
        // three-way merge by tokens
        Rows b = rowsOf( x, f, S, base, tmp ), l = rowsOf( x, f, S, local, tmp ), s = rowsOf( x, f, S, server, tmp ), got = rowsOf( x, f, S, id, tmp ), want;
        for ( auto &r : s )
        {
          if ( b.count( r.first ) && !l.count( r.first ) ) continue;
          want[r.first] = r.second;
          if ( b.count( r.first ) )
            for ( auto &v : r.second ) if ( l[r.first][v.first] != b[r.first][v.first] ) want[r.first][v.first] = l[r.first][v.first];
        }
        for ( auto &r : l ) if ( !b.count( r.first ) ) want[r.first] = r.second;
        if ( got != want )
        {
          std::string m = "after a pull the copy is not the merge\nbase:   " + show( S.content[base] ) + "\nlocal:  " + show( S.content[local] ) + "\nserver: " + show( S.content[server] ) + "\nresult: " + show( S.content[id] );
          x.fail( "merge", m );
        }
        return S.pullMemo[key] = id;
      };
      auto push = [&]( int base, int local, int server )
      {
        std::array<int, 4> key = { 0, base, local, server };
        auto it = S.pushMemo.find( key );
        if ( it != S.pushMemo.end() ) return it->second;
        std::string pb = load( "base.db", base ), pl = load( "local.db", local ), ps = load( "server.db", server ), cs = x.p( "cs" );
        x.check( GEODIFF_createChangeset( pb.c_str(), pl.c_str(), cs.c_str() ) == GEODIFF_SUCCESS, "create", "createChangeset base local failed" );
        x.check( GEODIFF_applyChangeset( ps.c_str(), cs.c_str() ) == GEODIFF_SUCCESS, "apply", "the server cannot apply a client's changeset" );
        x.trace();
        int id = S.put( ps );
        x.check( S.content[id] == S.content[local], "diverged", "after a push the server's version differs from the client's\nclient: " + show( S.content[local] ) + "\nserver: " + show( S.content[id] ) );
        return S.pushMemo[key] = id;
      };
      auto same = [&]( int a, int b ) { return a == b || S.content[a] == S.content[b]; };

      // what the scripts ask for, for the final accounting
      std::map<std::string, std::set<std::string>> cellWrites;      // table/token/column -> values written
      std::map<std::string, int> cellCount;
      std::set<std::string> deleted, inserted;
      for ( size_t q = 0; q < k.scripts.size(); ++q )
      {
        std::string who( 1, char( 'A' + q ) );
        int ins = 0;
        for ( int ei : k.scripts[q] )
        {
          const Edit &e = f.edits[ei];
          std::string row = e.table + "/" + ( e.row == "+" ? who + "1" : e.row );
          if ( e.k == Edit::Ins ) inserted.insert( e.table + "/" + who + std::to_string( ++ins ) );
          else if ( e.row == "+" && !inserted.count( row ) ) continue;
          else if ( e.k == Edit::Del ) deleted.insert( row );
          else
          {
            cellWrites[row + "/" + e.col].insert( enc( e.val.t == Val::Undef ? T( who ) : e.val ) );
            ++cellCount[row + "/" + e.col];
          }
        }
      }
      Rows start = rowsOf( x, f, S, init.server, tmp );

      std::set<St> seen;
      std::vector<std::pair<St, std::string>> stack = { { init, "" } };
      seen.insert( init );
      size_t ends = 0;
      while ( !stack.empty() )
      {
        auto cur = stack.back();
        stack.pop_back();
        const St &s = cur.first;
        x.check( cur.second.size() < 400, "no-end", "synchronising does not come to an end:" + cur.second );
        bool any = false;
        auto go = [&]( const St & n, const std::string & label )
        {
          any = true;
          x.transition();
          if ( seen.insert( n ).second ) stack.push_back( { n, cur.second + " " + label } );
        };
        try
        {
          for ( size_t q = 0; q < s.c.size(); ++q )
          {
            auto cl = s.c[q];
            std::string who( 1, char( 'A' + q ) );
            if ( cl[2] < ( int ) k.scripts[q].size() )
            {
              int ei = k.scripts[q][cl[2]];
              St n = s;
              n.c[q][1] = doEdit( cl[1], ( int ) q, ei, cl[3] );
              n.c[q][2]++;
              n.c[q][3] += f.edits[ei].k == Edit::Ins;
              go( n, who + ":" + f.edits[ei].label );
            }
            if ( cl[0] != s.server )
            {
              St n = s;
              n.c[q][1] = pull( cl[0], cl[1], s.server );
              n.c[q][0] = s.server;
              go( n, who + ":pull" );
            }
            else if ( !same( cl[1], cl[0] ) )
            {
              St n = s;
              n.server = push( cl[0], cl[1], s.server );
              n.c[q][0] = n.server;
              go( n, who + ":push" );
            }
          }
          if ( any ) continue;
          ++ends;
          for ( auto &cl : s.c ) x.check( same( cl[1], s.server ), "diverged", "after everything is synchronised the copies differ" );
          Rows r = rowsOf( x, f, S, s.server, tmp );
          for ( auto &w : r )
          {
            x.check( start.count( w.first ) || inserted.count( w.first ), "invented", "unexpected row " + w.first );
            x.check( !deleted.count( w.first ), "resurrected", "the deleted row " + w.first + " is there" );
            for ( auto &v : w.second )
            {
              std::string cell = w.first + "/" + v.first;
              auto cw = cellWrites.find( cell );
              std::string have = enc( v.second ), first = enc( start.count( w.first ) ? I( 0 ) : I( 1 ) );
              if ( cw == cellWrites.end() ) x.check( have == first, "changed", "nobody has changed " + cell + ", but it is " + show( v.second ) );
              else if ( start.count( w.first ) || cellCount[cell] == 1 ) x.check( cw->second.count( have ) || ( inserted.count( w.first ) && have == first && false ), "lost", "the edit of " + cell + " is lost: it is " + show( v.second ) );
            }
          }
          for ( auto &w : start ) x.check( r.count( w.first ) || deleted.count( w.first ), "lost", "the row " + w.first + " is lost" );
          for ( auto &w : inserted ) x.check( r.count( w ) || deleted.count( w ), "lost", "the inserted row " + w + " is lost" );
        }
        catch ( const CaseFail &e ) { x.fail( e.key, e.msg + "\nhistory:" + cur.second ); }
      }
      x.check( ends > 0, "no-end", "no final state was reached" );
      for ( auto &s : seen )
      {
        std::string t = std::to_string( k.fam ) + "/" + std::to_string( s.server );
        for ( auto &cl : s.c ) t += fmt( "/%d,%d,%d", cl[0], cl[1], cl[2] );
        x.state( fmt( "%d.%d.", x.worker, k.variant ) + t );
      }
      x.outcome( fmt( "%zu final states", ends ) );
    };
    return c;
  } );
}
