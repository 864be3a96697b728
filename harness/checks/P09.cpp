// P09: rebasing MINE onto THEIRS for all triples of states, compared with a merge model.
#include "rebspace.h"
using namespace space;

int main( int argc, char **argv )
{
  return checkMain( argc, argv, []( const Opts & o )
  {
    static Triples S( o.thorough );
    Check c;
    c.property = "P09";
    c.odd = true;
    c.rule = "a state is the content of a database, a transition is rebasing MINE on THEIRS for one triple (BASE, THEIRS, MINE) and applying the result to THEIRS; content and conflict report are compared with a merge computed here from the three states";
    c.bounds = { fmt( "%zu schema families, all ordered triples of states of each: %llu triples", S.fam.size(), ( unsigned long long ) S.total ) };
    c.assumptions = { "single-column integer or text keys (others are refused, which is checked)", "last_change of gpkg_contents is never a conflict (documented)" };
    c.count = S.total;
    c.describe = []( uint64_t i ) { return S.describe( i ); };
    c.run = []( const Ctx & x )
    {
      const Family *f;
      uint64_t b, t, m;
      S.get( x.idx, f, b, t, m );
      const std::string *ib = image( *f, b ), *it = image( *f, t, true ), *im = image( *f, m );
      if ( !ib || !it || !im ) { x.outcome( "state excluded by its own constraints" ); return; }
      State B = stateOf( *f, b ), Th = stateOf( *f, t ), M = stateOf( *f, m );
      Merge mg = merge( *f, B, Th, M );
      std::string pb = x.p( "base.db" ), pt = x.p( "their.db" ), pm = x.p( "mine.db" ), b2t = x.p( "b2t" ), b2m = x.p( "b2m" ), err;
      writeFile( pb, *ib );
      writeFile( pt, *it );
      writeFile( pm, *im );
      x.check( GEODIFF_createChangeset( pb.c_str(), pt.c_str(), b2t.c_str() ) == GEODIFF_SUCCESS, "create-failed", "createChangeset BASE THEIRS failed" );
      x.check( GEODIFF_createChangeset( pb.c_str(), pm.c_str(), b2m.c_str() ) == GEODIFF_SUCCESS, "create-failed", "createChangeset BASE MINE failed" );
      std::string bt = readFile( b2t ), bm = readFile( b2m );
      for ( int path = 0; path < 2; ++path )
      {
        std::string reb = x.p( path ? "rebasedEx" : "rebased" ), conf = x.p( path ? "conflictEx" : "conflict" );
        writeFile( conf, "stale" );
        if ( path ) writeFile( reb, "stale" );
        int rc = path ? GEODIFF_createRebasedChangesetEx( "sqlite", "", pb.c_str(), b2m.c_str(), b2t.c_str(), reb.c_str(), conf.c_str() )
                 : GEODIFF_createRebasedChangeset( pb.c_str(), pm.c_str(), b2t.c_str(), reb.c_str(), conf.c_str() );
        const char *fn = path ? "createRebasedChangesetEx" : "createRebasedChangeset";
        x.check( readFile( pb ) == *ib && readFile( pt ) == *it && readFile( pm ) == *im && readFile( b2t ) == bt && readFile( b2m ) == bm, "input-changed", std::string( fn ) + " changed an input" );
        if ( mg.refused )
        {
          x.check( rc != GEODIFF_SUCCESS, "not-refused", std::string( fn ) + " succeeded although the merge is impossible" );
          x.check( !exists( conf ), "conflict-file", "a conflict file is left after a refused rebase" );
          x.outcome( "refused" );
          continue;
        }
        if ( rc != GEODIFF_SUCCESS && mg.mayRefuse ) { x.outcome( "refused, key range exhausted" ); continue; }
        x.check( rc == GEODIFF_SUCCESS, "rebase-failed", fmt( "%s returned %d", fn, rc ) );
        CSet dec;
        x.check( exists( reb ), "no-output", "no rebased changeset was written" );
        x.check( decode( readFile( reb ), dec, &err ), "undecodable", "rebased changeset is not in format: " + err );
        x.note( std::string( fn ) + ":\n" + show( dec ) );
        for ( auto &g : dec ) x.check( !g.entries.empty(), "empty-table", "the rebased changeset has a table without entries" );
        std::string cf = checkConflicts( conf, mg.conflicts );
        x.check( cf.empty(), "conflicts", std::string( fn ) + ": " + cf );
        std::string pr = x.p( "result.db" );
        writeFile( pr, *it );
        rc = GEODIFF_applyChangeset( pr.c_str(), reb.c_str() );
        if ( rc != GEODIFF_SUCCESS )
        {
          if ( freshTaken( *f, dec, B, Th, M ) ) x.fail( "fresh-id-taken", "the rebased changeset gives my row the key of an existing row that no side changed\n" + show( dec ) );
          x.fail( "apply-failed", fmt( "the rebased changeset cannot be applied to THEIRS (%d)\n", rc ) + show( dec ) );
        }
        std::string d = checkMerged( *f, mg, B, Th, M, storedContent( pr, *f ) );
        x.check( d.empty(), "merge", std::string( fn ) + ":\n" + d + "rebased changeset:\n" + show( dec ) );
        size_t rk = 0;
        for ( auto &r : mg.rekeyed ) rk += r.second.size();
        x.outcome( fmt( "conflicts=%zu fresh keys=%zu entries=%zu%s", mg.conflicts.size(), rk, countEntries( dec ), mg.identity ? " one side unchanged" : "" ) );
      }
      x.state( f->name + ":" + std::to_string( b ) );
      x.state( f->name + ":" + std::to_string( t ) );
      x.state( f->name + ":" + std::to_string( m ) );
      x.transition( 2 );
      x.trace( 2 );
    };
    return c;
  } );
}
