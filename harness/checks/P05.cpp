// P05: the inverse of every changeset undoes it; inverting twice gives an equivalent changeset.
#include "csspace.h"
using namespace space;

int main( int argc, char **argv )
{
  return checkMain( argc, argv, []( const Opts & o )
  {
    static Pairs P( o.thorough );
    static Synth S( o.thorough );
    Check c;
    c.property = "P05";
    c.odd = true;
    c.rule = "a state is the content of a database or a changeset; transitions are create, invert and apply. For every ordered pair of states the inverse is applied to MODIFIED and compared with BASE; for every changeset of the synthetic space the decoded inverse is compared, entry by entry, with the inverse computed here";
    c.bounds = { fmt( "%zu schema families, all ordered pairs of states of each: %llu pairs", P.fam.size(), ( unsigned long long ) P.total ) };
    for ( auto &b : S.bounds() ) c.bounds.push_back( b );
    c.assumptions = { "SQLite 3.45 stores and returns what it is given", "entries are well-formed: updates record old and new value of precisely the changed columns, and the old key" };
    c.count = P.total + S.total + 1;
    c.describe = []( uint64_t i )
    {
      if ( i < P.total ) return P.describe( i );
      if ( i == P.total + S.total ) return std::string( "empty changeset" );
      CSet cs;
      std::string n = S.get( i - P.total, cs );
      return n + "\n" + clip( show( cs ) );
    };
    c.run = []( const Ctx & x )
    {
      std::string cs = x.p( "cs" ), inv = x.p( "inv" ), inv2 = x.p( "inv2" );
      CSet dec, di, di2;
      std::string err;
      std::string bytes;
      const Family *f = nullptr;
      std::string pb = x.p( "base.db" ), pm = x.p( "mod.db" );
      uint64_t a = 0, b = 0;
      if ( x.idx < P.total )
      {
        P.get( x.idx, f, a, b );
        const std::string *base = image( *f, a ), *mod = image( *f, b, true );
        if ( !base || !mod ) { x.outcome( "state excluded by its own constraints" ); return; }
        writeFile( pb, *base );
        writeFile( pm, *mod );
        int rc = GEODIFF_createChangeset( pb.c_str(), pm.c_str(), cs.c_str() );
        x.check( rc == GEODIFF_SUCCESS, "create-failed", fmt( "createChangeset returned %d", rc ) );
        bytes = readFile( cs );
        x.check( decode( bytes, dec, &err ), "undecodable", "changeset is not in format: " + err );
      }
      else
      {
        if ( x.idx < P.total + S.total ) S.get( x.idx - P.total, dec );
        bytes = encode( dec );
        writeFile( cs, bytes );
      }
      int rc = GEODIFF_invertChangeset( cs.c_str(), inv.c_str() );
      x.check( rc == GEODIFF_SUCCESS, "invert-failed", fmt( "invertChangeset returned %d for\n", rc ) + clip( show( dec ) ) );
      x.check( readFile( cs ) == bytes, "input-changed", "inverting changed its input" );
      x.check( exists( inv ), "no-output", "no inverse was written" );
      std::string ib = readFile( inv );
      x.check( decode( ib, di, &err ), "inverse-undecodable", "the inverse is not in format: " + err + "\nof\n" + clip( show( dec ) ) );
      if ( countEntries( dec ) == 0 ) x.check( ib.empty(), "empty", "the inverse of an empty changeset is not empty" );
      CSet want = inverse( dec );
      x.check( flat( want ) == flat( di ), "inverse", "inverse of\n" + clip( show( dec ) ) + "expected:\n" + clip( show( want ) ) + "found:\n" + clip( show( di ) ) );
      rc = GEODIFF_invertChangeset( inv.c_str(), inv2.c_str() );
      x.check( rc == GEODIFF_SUCCESS, "invert-failed", fmt( "inverting the inverse returned %d", rc ) );
      x.check( decode( readFile( inv2 ), di2, &err ), "inverse-undecodable", "the second inverse is not in format: " + err );
      x.check( flat( dec ) == flat( di2 ), "double-inverse", "inverting twice changed\n" + clip( show( dec ) ) + "to\n" + clip( show( di2 ) ) );
      x.check( GEODIFF_changesCount( inv.c_str() ) == ( int ) countEntries( dec ), "count", "the inverse has another number of changes" );
      x.transition( 2 );
      x.trace();
      size_t ins = 0, upd = 0, del = 0;
      for ( auto &g : dec ) for ( auto &e : g.entries ) ++( e.op == OpInsert ? ins : e.op == OpUpdate ? upd : del );
      x.outcome( fmt( "%s ins=%s upd=%s del=%s", f ? "pair" : "synthetic", ins > 3 ? ">3" : std::to_string( ins ).c_str(), upd > 3 ? ">3" : std::to_string( upd ).c_str(), del > 3 ? ">3" : std::to_string( del ).c_str() ) );
      if ( !f ) { x.state( "synthetic " + std::to_string( x.idx ) ); return; }
      x.state( f->name + ":" + std::to_string( a ) );
      x.state( f->name + ":" + std::to_string( b ) );

      Content want0 = contentOf( pb, PkTablesOnly | NoSequence ), before = contentOf( pm );
      std::string schema = schemaOf( pm );
      rc = GEODIFF_applyChangeset( pm.c_str(), inv.c_str() );
      if ( rc != GEODIFF_SUCCESS )
      {
        if ( f->unique && transientUnique( *f, image( *f, b, true ), di, x.p( "scratch.db" ) ) )
        {
          x.check( contentOf( pm ) == before, "failed-apply-changed-data", "the refused apply changed the database" );
          x.fail( "unique-order", fmt( "apply of the inverse returned %d: an intermediate state of the entry sequence violates UNIQUE\n", rc ) + show( di ) );
        }
        x.fail( "apply-failed", fmt( "applying the inverse returned %d\n", rc ) + show( di ) );
      }
      std::string d = diffContent( want0, contentOf( pm, PkTablesOnly | NoSequence ) );
      x.check( d.empty(), "content", "content after applying the inverse differs from BASE:\n" + d + "inverse:\n" + show( di ) );
      x.check( schemaOf( pm ) == schema, "schema", "schema changed" );
      // the second inverse brings MODIFIED back
      rc = GEODIFF_applyChangeset( pm.c_str(), inv2.c_str() );
      if ( rc != GEODIFF_SUCCESS && f->unique ) return;
      x.check( rc == GEODIFF_SUCCESS, "apply-failed", fmt( "applying the inverse of the inverse returned %d", rc ) );
      Content c2 = contentOf( pm, PkTablesOnly | NoSequence );
      Content b2;
      for ( auto &t : before ) if ( c2.count( t.first ) ) b2.insert( t );
      d = diffContent( b2, c2 );
      x.check( d.empty(), "content", "content after applying the inverse of the inverse differs from MODIFIED:\n" + d );
      x.transition( 2 );
    };
    return c;
  } );
}
