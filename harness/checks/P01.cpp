// P01: for all pairs of states of all schema families, the changeset BASE->MODIFIED applied to a
// copy of BASE gives MODIFIED, on the real library.
#include "space.h"
using namespace space;

int main( int argc, char **argv )
{
  return checkMain( argc, argv, []( const Opts & o )
  {
    static Pairs P( o.thorough );
    Check c;
    c.property = "P01";
    c.odd = true;
    c.rule = "a state is the content of a database, a transition is create+apply for one ordered pair of states of a schema family; each is executed on the library and compared with the content of MODIFIED";
    c.bounds = { fmt( "%zu schema families, all ordered pairs of states of each: %llu pairs", P.fam.size(), ( unsigned long long ) P.total ),
                 "up to 4 keys per table, payloads from the listed alphabets; all ordered pairs of 53 boundary values in one cell"
               };
    c.assumptions = { "SQLite 3.45 stores and returns what it is given", "keys are not NULL (SQLite allows NULL in non-integer keys; the format cannot address such rows)" };
    c.count = P.total;
    c.describe = []( uint64_t i ) { return P.describe( i ); };
    c.run = []( const Ctx & x )
    {
      const Family *f;
      uint64_t a, b;
      P.get( x.idx, f, a, b );
      const std::string *base = image( *f, a ), *mod = image( *f, b, true );
      if ( !base || !mod ) { x.outcome( "state excluded by its own constraints" ); return; }
      std::string pb = x.p( "base.db" ), pm = x.p( "mod.db" ), pc = x.p( "copy.db" ), cs = x.p( "cs" );
      writeFile( pb, *base );
      writeFile( pm, *mod );
      writeFile( pc, *base );
      int rc = GEODIFF_createChangeset( pb.c_str(), pm.c_str(), cs.c_str() );
      x.check( rc == GEODIFF_SUCCESS, "create-failed", fmt( "createChangeset returned %d", rc ) );
      std::string bytes = readFile( cs );
      CSet dec;
      std::string err;
      x.check( decode( bytes, dec, &err ), "undecodable", "changeset is not in format: " + err );
      x.note( "changeset:\n" + show( dec ) );
      Content want = contentOf( pm, PkTablesOnly | NoSequence );
      if ( a == b ) x.check( bytes.empty(), "not-empty", "changeset of equal databases is not empty:\n" + show( dec ) );
      rc = GEODIFF_applyChangeset( pc.c_str(), cs.c_str() );
      if ( rc != GEODIFF_SUCCESS )
      {
        if ( f->unique )
        {
          if ( transientUnique( *f, base, dec, x.p( "scratch.db" ) ) )
          {
            x.check( contentOf( pc ) == contentOf( pb ), "failed-apply-changed-data", "the refused apply changed the database" );
            x.fail( "unique-order", fmt( "apply returned %d: an intermediate state of the entry sequence violates UNIQUE\n", rc ) + show( dec ) );
          }
        }
        x.fail( "apply-failed", fmt( "applyChangeset returned %d\n", rc ) + show( dec ) );
      }
      Content got = contentOf( pc, PkTablesOnly | NoSequence );
      std::string d = diffContent( want, got );
      x.check( d.empty(), "content", "content after apply differs from MODIFIED:\n" + d + "changeset:\n" + show( dec ) );
      // tables that cannot be compared stay as in BASE, and the schema is that of BASE
      Content cb = contentOf( pb, NoSequence ), cc = contentOf( pc, NoSequence );
      for ( auto &t : cb )
        if ( !want.count( t.first ) )
          x.check( cc[t.first] == t.second, "nopk-changed", "table without primary key changed: " + t.first );
      x.check( schemaOf( pc ) == schemaOf( pb ), "schema", "schema changed by apply" );
      std::string ic = integrity( pc );
      x.check( ic.empty(), "integrity", "integrity check after apply: " + ic );
      if ( a == b ) x.check( readFile( pc ) == *base, "bytes", "applying an empty changeset rewrote the database" );
      x.state( f->name + ":" + std::to_string( a ) );
      x.state( f->name + ":" + std::to_string( b ) );
      x.transition();
      x.trace();
      size_t ins = 0, upd = 0, del = 0;
      for ( auto &g : dec ) for ( auto &e : g.entries ) ++( e.op == OpInsert ? ins : e.op == OpUpdate ? upd : del );
      x.outcome( fmt( "ins=%zu upd=%zu del=%zu tables=%zu", ins, upd, del, dec.size() ) );
    };
    return c;
  } );
}
