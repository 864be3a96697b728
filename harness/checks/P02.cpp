// P02: the changeset of every ordered pair of states is exactly the difference computed here from
// the two databases by plain SELECTs.
#include "space.h"
using namespace space;

static std::vector<Row> rowsOf( const std::string &path, const Table &t )
{
  Db d( path, false );
  std::string q;
  for ( auto &c : t.cols ) q += ( q.empty() ? "" : "," ) + quoteId( c );
  return d.query( "SELECT " + q + " FROM " + quoteId( t.name ) );
}

int main( int argc, char **argv )
{
  return checkMain( argc, argv, []( const Opts & o )
  {
    static Pairs P( o.thorough );
    Check c;
    c.property = "P02";
    c.odd = true;
    c.rule = "a state is the content of a database, a transition is createChangeset for one ordered pair of states of a schema family; the file is decoded by an independent reader of the documented format and compared with the difference computed from both databases";
    c.bounds = { fmt( "%zu schema families, all ordered pairs of states of each: %llu pairs", P.fam.size(), ( unsigned long long ) P.total ) };
    c.assumptions = { "SQLite 3.45 returns what is stored", "the order of entries and tables in the file is free" };
    c.count = P.total;
    c.describe = []( uint64_t i ) { return P.describe( i ); };
    c.run = []( const Ctx & x )
    {
      const Family *f;
      uint64_t a, b;
      P.get( x.idx, f, a, b );
      const std::string *base = image( *f, a ), *mod = image( *f, b, true );
      if ( !base || !mod ) { x.outcome( "state excluded by its own constraints" ); return; }
      std::string pb = x.p( "base.db" ), pm = x.p( "mod.db" ), cs = x.p( "cs" );
      writeFile( pb, *base );
      writeFile( pm, *mod );
      int rc = GEODIFF_createChangeset( pb.c_str(), pm.c_str(), cs.c_str() );
      x.check( rc == GEODIFF_SUCCESS, "create-failed", fmt( "createChangeset returned %d", rc ) );
      std::string bytes = readFile( cs );
      CSet dec, want;
      std::string err;
      x.check( decode( bytes, dec, &err ), "undecodable", "changeset is not in format: " + err );
      for ( auto &t : f->tables )
      {
        std::map<std::string, Row> ra, rb;
        for ( auto &r : rowsOf( pb, t ) ) ra[keyOf( t, r, f->nocaseKey )] = r;
        for ( auto &r : rowsOf( pm, t ) ) rb[keyOf( t, r, f->nocaseKey )] = r;
        CGroup g;
        g.table.name = t.name;
        for ( int k : t.pk ) g.table.pk.push_back( k ? 1 : 0 );
        for ( auto &r : ra )
        {
          CEntry e;
          auto it = rb.find( r.first );
          if ( it == rb.end() ) { e.op = OpDelete; e.o = r.second; g.entries.push_back( e ); continue; }
          if ( it->second == r.second ) continue;
          e.op = OpUpdate;
          for ( size_t i = 0; i < r.second.size(); ++i )
          {
            bool ch = r.second[i] != it->second[i];
            e.o.push_back( ch || t.pk[i] ? r.second[i] : U() );
            e.n.push_back( ch ? it->second[i] : U() );
          }
          g.entries.push_back( e );
        }
        for ( auto &r : rb )
          if ( !ra.count( r.first ) ) { CEntry e; e.op = OpInsert; e.n = r.second; g.entries.push_back( e ); }
        if ( !g.entries.empty() ) want.push_back( g );
      }
      x.note( "expected:\n" + show( want ) + "found:\n" + show( dec ) );
      for ( auto &g : dec )
      {
        x.check( !g.entries.empty(), "empty-table", "table header without entries: " + g.table.name );
        for ( auto &k : g.table.pk ) k = k ? 1 : 0;
        for ( auto &e : g.entries ) x.check( e.indirect == 0, "indirect", "entry is marked indirect" );
      }
      x.check( canon( want ) == canon( dec ), "difference", "expected:\n" + show( want ) + "found:\n" + show( dec ) );
      size_t n = countEntries( want );
      int cnt = GEODIFF_changesCount( cs.c_str() ), has = GEODIFF_hasChanges( cs.c_str() );
      x.check( cnt == ( int ) n, "count", fmt( "changesCount returned %d, the changeset has %zu entries", cnt, n ) );
      x.check( has == ( n ? 1 : 0 ), "has", fmt( "hasChanges returned %d, the changeset has %zu entries", has, n ) );
      x.state( f->name + ":" + std::to_string( a ) );
      x.state( f->name + ":" + std::to_string( b ) );
      x.transition();
      x.trace();
      size_t ins = 0, upd = 0, del = 0;
      for ( auto &g : dec ) for ( auto &e : g.entries ) ++( e.op == OpInsert ? ins : e.op == OpUpdate ? upd : del );
      x.outcome( fmt( "ins=%zu upd=%zu del=%zu tables=%zu", ins, upd, del, dec.size() ) );
    };
    return c;
  } );
}
