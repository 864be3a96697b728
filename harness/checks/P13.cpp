// P13: each file access of each operation fails or is cut short, once or from then on.
#include "iospace.h"
using namespace mc;
using namespace iospace;

namespace
{
  enum Mode { ErrOnce, ErrOn, Short, ShortThenErr, NModes };
  const char *modeName[] = { "fails once", "fails, as do all later ones of this kind", "is cut to half", "is cut to half, all later ones fail" };
  struct Fault { int scenario; int op; Mode mode; int err; int op2; Mode mode2; };

  struct Injector
  {
    const Fault *f = nullptr;
    int n = 0;
    sysio::Kind kind = sysio::Other;
    bool hit = false;
    OpRec rec;
    int injected = 0;
  };

  long injHook( sysio::Call &c, void *arg )
  {
    Injector *j = ( Injector * )arg;
    int at = j->n++;
    Mode m;
    if ( at == j->f->op )
    {
      j->hit = true;
      j->kind = c.kind;
      j->rec.kind = c.kind; j->rec.creates = c.creates; j->rec.writes = c.writes; j->rec.path = stable( c.path ); j->rec.off = c.off; j->rec.len = c.len;
      m = j->f->mode;
    }
    else if ( at == j->f->op2 ) m = j->f->mode2;
    else if ( j->hit && c.kind == j->kind && ( j->f->mode == ErrOn || j->f->mode == ShortThenErr ) ) m = ErrOnce;
    else return sysio::real( c );
    j->injected++;
    if ( m == Short || m == ShortThenErr )
    {
      if ( c.len > 1 ) c.a[2] = c.len / 2;
      return sysio::real( c );
    }
    if ( c.kind == sysio::Close ) sysio::real( c );      // the descriptor is released all the same
    return -j->f->err;
  }

  struct Space
  {
    std::vector<std::vector<OpRec>> ops;
    std::vector<Fault> faults;
    explicit Space( bool thorough ) : ops( recordAll() )
    {
      using namespace sysio;
      for ( size_t s = 0; s < ops.size(); ++s )
      {
        if ( ops[s].empty() ) faults.push_back( { int( s ), -1, ErrOnce, EIO, -1, ErrOnce } );
        for ( size_t k = 0; k < ops[s].size(); ++k )
        {
          auto add = [&]( Mode m, int e ) { faults.push_back( { int( s ), int( k ), m, e, -1, ErrOnce } ); };
          const OpRec &o = ops[s][k];
          switch ( o.kind )
          {
            case Open: add( ErrOnce, EIO ); add( ErrOnce, o.creates ? ENOSPC : EACCES ); add( ErrOn, EMFILE ); break;
            case Read: add( ErrOnce, EIO ); add( ErrOn, EIO ); if ( o.len > 1 ) add( Short, EIO ); break;
            case Write: add( ErrOnce, ENOSPC ); add( ErrOnce, EIO ); add( ErrOn, ENOSPC ); if ( o.len > 1 ) { add( Short, EIO ); add( ShortThenErr, ENOSPC ); } break;
            case Sync: add( ErrOnce, EIO ); add( ErrOn, EIO ); break;
            case Trunc: add( ErrOnce, EIO ); break;
            case Close: add( ErrOnce, EIO ); break;
            case Unlink: add( ErrOnce, EIO ); add( ErrOn, EACCES ); break;
            case Rename: case Mkdir: add( ErrOnce, EIO ); break;
            default: break;
          }
        }
        if ( thorough || ops[s].size() <= 400 )
          for ( size_t k = 0; k < ops[s].size(); ++k )
          {
            auto w = [&]( size_t q ) { auto t = ops[s][q].kind; return t == Open || t == Read || t == Write || t == Sync || t == Trunc || t == Unlink || t == Close; };
            if ( !w( k ) ) continue;
            // the second one also where the call does other things after the first
            for ( size_t q = k + 1; q < std::min( ops[s].size() + 20, k + ( thorough ? 400 : 60 ) ); ++q ) faults.push_back( { int( s ), int( k ), ErrOnce, EIO, int( q ), ErrOnce } );
          }
      }
    }
  };
}

int main( int argc, char **argv )
{
  return checkMain( argc, argv, []( const Opts & o )
  {
    auto sp = std::make_shared<Space>( o.thorough );
    Check c;
    c.property = "P13";
    c.rule = "a state is a file access of an operation; the transition lets it fail or cuts it short; afterwards the operation must have reported an error with the dataset as before or as after a full success, or report success with exactly the undisturbed call's outputs";
    c.assumptions = { "an access that fails has no effect, except close, which releases the descriptor", "the files are looked at after the faults ended, by SQLite, which completes its own recovery", "stat, access, lock and seek calls do not fail" };
    c.bounds = { fmt( "%zu operations on small, multi-page, GeoPackage and WAL databases; every access of each recorded from the running code (%zu in all)", sp->ops.size(), [&] { size_t n = 0; for ( auto &q : sp->ops ) n += q.size(); return n; }() ),
                 "faults per access: open EIO, EACCES/ENOSPC, EMFILE from then on; read EIO once and from then on, cut to half; write ENOSPC, EIO, ENOSPC from then on, cut to half with and without ENOSPC after; sync EIO once and from then on; truncate, close, rename EIO; unlink EIO, EACCES from then on"
               };
    c.bounds.push_back( o.thorough ? "and every pair of single failures at most 400 accesses apart" : "and, in calls with up to 400 accesses, every pair of single failures at most 60 accesses apart" );
    c.count = sp->faults.size();
    c.describe = [sp]( uint64_t i )
    {
      const Fault &f = sp->faults[i];
      static std::vector<Scenario> v = freshScenarios();
      std::string s = v[f.scenario].name + "\n";
      if ( f.op < 0 ) return s + "without any fault\n";
      s += fmt( "access %d: ", f.op ) + sp->ops[f.scenario][f.op].show() + " " + modeName[f.mode] + fmt( " (%s)\n", strerror( f.err ) );
      if ( f.op2 >= 0 ) s += fmt( "access %d fails once too\n", f.op2 );
      return s;
    };
    c.run = [sp]( const Ctx & x )
    {
      static const bool ok = sysio::install();
      if ( !ok ) { fprintf( stderr, "seccomp filters are not available here\n" ); _exit( 77 ); }
      static std::vector<Scenario> v = scenarios( x.dir );
      static std::map<int, Reference> refs;
      const Fault &f = sp->faults[x.idx];
      const Scenario &s = v[f.scenario];
      const std::string w = x.p( "w" );
      if ( !refs.count( f.scenario ) ) refs[f.scenario] = reference( s, w );
      const Reference &ref = refs[f.scenario];
      place( s, w );
      setenv( "TMPDIR", ( w + "/tmp/" ).c_str(), 1 );
      x.resetLog();
      Injector j;
      j.f = &f;
      std::string extra;
      sysio::watch( w, injHook, &j );
      int rc = s.call( w, extra );
      sysio::unwatch();
      bool success = s.countLike ? rc >= 0 : rc == GEODIFF_SUCCESS;
      bool refOk = s.countLike ? ref.rc >= 0 : ref.rc == GEODIFF_SUCCESS;
      x.transition();
      x.trace();
      x.state( fmt( "%d %d", f.scenario, f.op ) );
      if ( f.op >= 0 )
      {
        // accesses before the fault are those of the recording
        x.check( j.hit || success == refOk, "diverged", fmt( "the call made only %d accesses and returned %d", j.n, rc ) );
        if ( !j.hit ) { x.outcome( "access not reached" ); return; }
      }
      std::string what = s.name + "; ";
      const char *kind = sysio::kindName( j.kind );
      if ( success )
      {
        x.check( refOk, "success-instead-of-error", fmt( "returned %d although the undisturbed call fails", rc ) );
        if ( s.countLike ) x.check( rc == ref.rc, std::string( "wrong-count-" ) + kind, fmt( "returned %d instead of %d", rc, ref.rc ) );
        x.check( extra == ref.extra, std::string( "wrong-entries-" ) + kind, "entries read: " + extra + "\ninstead of:   " + ref.extra );
        for ( size_t i = 0; i < s.outputs.size(); ++i )
        {
          std::string g = outState( s, w, s.outputs[i] );
          if ( g != ref.out[i] )
            x.fail( std::string( "wrong-output-" ) + kind, "success reported, but the output " + s.outputs[i] + " is wrong:\n" + g.substr( 0, 1500 ) + "\ninstead of\n" + ref.out[i].substr( 0, 1500 ) );
        }
      }
      if ( s.inPlace() )
      {
        std::string d = content( s, w );
        if ( success && d != ref.after ) x.fail( std::string( "incomplete-" ) + kind, "success reported, but the database is\n" + d.substr( 0, 3000 ) + "\ninstead of\n" + ref.after.substr( 0, 3000 ) );
        if ( !success && d != ref.before && ( !refOk || d != ref.after ) ) x.fail( std::string( "partial-" ) + kind, "error reported, and the database is neither as before nor as after the change:\n" + d.substr( 0, 3000 ) );
        x.nontrivial( fmt( "%d %d", f.scenario, success ? 2 : d == ref.before ? 0 : 1 ) + s.name );
        x.outcome( std::string( kind ) + ( success ? ": success, full effect" : d == ref.before ? ": error, unchanged" : ": error, fully changed" ) );
      }
      else
      {
        x.outcome( std::string( kind ) + ( success ? ": success, right output" : ": error" ) );
        x.nontrivial( s.name + ( success ? "ok" : "error" ) );
      }
      for ( auto &i : s.inputs )
      {
        std::string want;
        for ( auto &q : s.files ) if ( q.first == i ) want = q.second;
        if ( readFile( w + "/" + i ) != want ) x.fail( std::string( "input-changed-" ) + kind, "the input " + i + " was changed" );
      }
    };
    return c;
  } );
}
