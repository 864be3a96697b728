// P14: the process is killed, or power is lost, at every moment of an apply or rebase.
#include "iospace.h"
#include <unordered_set>
#include <fcntl.h>
#include <sys/syscall.h>
#include <sys/uio.h>
using namespace mc;
using namespace iospace;

namespace
{
  // ---------------------------------------------------------------- what the call does to the disk
  struct Ev
  {
    enum T { Create, Data, Trunc, Sync, DirSync, Remove, Rename } t;
    std::string path, to;
    long off = 0;
    std::string data;
    std::string show() const
    {
      static const char *n[] = { "create", "write", "truncate", "sync", "sync directory", "remove", "rename" };
      return std::string( n[t] ) + " " + path + ( t == Data ? fmt( " offset %ld, %zu bytes", off, data.size() ) : t == Trunc ? fmt( " to %ld", off ) : "" );
    }
  };

  struct Recorder { std::vector<Ev> ev; std::string w, dataset; };

  long evHook( sysio::Call &c, void *arg )
  {
    Recorder *r = ( Recorder * )arg;
    std::string p = c.path;
    bool mine = p.compare( 0, r->dataset.size(), r->dataset ) == 0 && ( p.size() < 4 || p.substr( p.size() - 4 ) != "-shm" );
    if ( c.kind == sysio::Sync && p.empty() )
    {
      r->ev.push_back( { Ev::DirSync, p, "", 0, "" } );
      return sysio::real( c );
    }
    if ( !mine ) return sysio::real( c );
    switch ( c.kind )
    {
      case sysio::Open:
      {
        bool was = sysio::rawSyscall( SYS_access, ( long )( r->w + "/" + p ).c_str(), 0 ) == 0;
        long fl = c.nr == SYS_openat ? c.a[2] : c.nr == SYS_open ? c.a[1] : O_CREAT | O_TRUNC | O_WRONLY;
        long fd = sysio::real( c );
        if ( fd >= 0 && !was ) r->ev.push_back( { Ev::Create, p, "", 0, "" } );
        else if ( fd >= 0 && ( fl & O_TRUNC ) ) r->ev.push_back( { Ev::Trunc, p, "", 0, "" } );
        return fd;
      }
      case sysio::Write:
      {
        long off = c.off >= 0 ? c.off : sysio::rawSyscall( SYS_lseek, c.fd, 0, SEEK_CUR );
        std::string d;
        if ( c.nr == SYS_write || c.nr == SYS_pwrite64 ) d.assign( ( const char * )c.a[1], c.a[2] );
        else if ( c.nr == SYS_writev ) for ( long i = 0; i < c.a[2]; ++i ) d.append( ( const char * )( ( iovec * )c.a[1] )[i].iov_base, ( ( iovec * )c.a[1] )[i].iov_len );
        long n = sysio::real( c );
        if ( n > 0 )
        {
          if ( d.empty() )
          {
            // written by the kernel: read it back
            d.resize( n );
            int fd = ( int )sysio::rawSyscall( SYS_open, ( long )( r->w + "/" + p ).c_str(), O_RDONLY );
            sysio::rawSyscall( SYS_pread64, fd, ( long )&d[0], n, off );
            sysio::rawSyscall( SYS_close, fd );
          }
          r->ev.push_back( { Ev::Data, p, "", off, d.substr( 0, n ) } );
        }
        return n;
      }
      case sysio::Trunc:
      {
        long n = sysio::real( c );
        if ( n == 0 ) r->ev.push_back( { Ev::Trunc, p, "", c.nr == SYS_fallocate ? -1 : c.a[1], "" } );
        return n;
      }
      case sysio::Sync: { long n = sysio::real( c ); if ( n == 0 ) r->ev.push_back( { Ev::Sync, p, "", 0, "" } ); return n; }
      case sysio::Unlink: { long n = sysio::real( c ); if ( n == 0 ) r->ev.push_back( { Ev::Remove, p, "", 0, "" } ); return n; }
      case sysio::Rename: { long n = sysio::real( c ); if ( n == 0 ) r->ev.push_back( { Ev::Rename, p, c.path2, 0, "" } ); return n; }
      default: return sysio::real( c );
    }
  }

  //! the disk after a power loss, from what was issued before it
  struct Disk
  {
    struct Inode { std::string base; std::vector<std::pair<int, bool>> ops; };     // event, synced
    std::vector<Inode> inodes;
    std::map<std::string, int> start;                    // directory at the start
    struct DirOp { int kind; std::string name, to; int inode; };
    std::vector<DirOp> dir;
    size_t dirSynced = 0;
    std::map<std::string, int> cur;                      // as the running program sees it
    void apply( const std::vector<Ev> &ev, int i )
    {
      const Ev &e = ev[i];
      switch ( e.t )
      {
        case Ev::Create: inodes.push_back( {} ); cur[e.path] = int( inodes.size() ) - 1; dir.push_back( { 0, e.path, "", cur[e.path] } ); break;
        case Ev::Remove: dir.push_back( { 1, e.path, "", -1 } ); cur.erase( e.path ); break;
        case Ev::Rename: dir.push_back( { 2, e.path, e.to, -1 } ); cur[e.to] = cur[e.path]; cur.erase( e.path ); break;
        case Ev::DirSync: dirSynced = dir.size(); break;
        case Ev::Sync: if ( cur.count( e.path ) ) for ( auto &o : inodes[cur[e.path]].ops ) o.second = true; break;
        case Ev::Data: case Ev::Trunc: if ( cur.count( e.path ) ) inodes[cur[e.path]].ops.push_back( { i, false } ); break;
      }
    }
  };

  void put( std::string &f, const Ev &e, size_t len )
  {
    if ( e.t == Ev::Trunc ) { if ( e.off >= 0 ) f.resize( e.off ); return; }
    if ( f.size() < e.off + len ) f.resize( e.off + len );
    f.replace( e.off, len, e.data, 0, len );
  }

  // ---------------------------------------------------------------- being killed
  struct Killer { int at; int mode; int n; };
  long killHook( sysio::Call &c, void *arg )
  {
    Killer *k = ( Killer * )arg;
    if ( k->n++ == k->at )
    {
      if ( c.kind == sysio::Write && k->mode && c.len > 1 )
      {
        size_t l = k->mode == 1 ? 1 : k->mode == 2 ? c.len / 2 : c.len - 1;
        if ( k->mode == 4 ) l = c.len > 512 ? 512 : c.len / 3;
        c.a[2] = l;
        sysio::real( c );
      }
      sysio::rawSyscall( SYS_exit_group, 7 );
    }
    return sysio::real( c );
  }

  struct Case { int scenario; bool power; int at; int mode; };
  struct Space
  {
    std::vector<std::vector<OpRec>> ops = recordAll();
    std::vector<int> events;
    std::vector<Case> cases;
    Space()
    {
      std::vector<Scenario> v = freshScenarios();
      for ( size_t s = 0; s < v.size(); ++s )
      {
        if ( v[s].dataset.empty() ) continue;
        int changes = 0;
        for ( size_t k = 0; k < ops[s].size(); ++k )
        {
          const OpRec &o = ops[s][k];
          using namespace sysio;
          bool effect = ( o.kind == Open && o.creates ) || o.kind == Write || o.kind == Sync || o.kind == Trunc || o.kind == Unlink || o.kind == Rename || o.kind == Mkdir || o.kind == Close || o.kind == Lock;
          if ( !effect ) continue;
          ++changes;
          for ( int m = 0; m < ( o.kind == Write && o.len > 1 ? 5 : 1 ); ++m ) cases.push_back( { int( s ), false, int( k ), m } );
        }
        cases.push_back( { int( s ), false, 1 << 30, 0 } );
        // the events are found by the worker; there are no more than accesses with an effect
        for ( int k = 0; k <= changes; ++k ) cases.push_back( { int( s ), true, k, 0 } );
      }
    }
  };
}

int main( int argc, char **argv )
{
  return checkMain( argc, argv, []( const Opts & o )
  {
    auto sp = std::make_shared<Space>();
    const size_t subsetLimit = o.thorough ? 10 : 6;
    Check c;
    c.property = "P14";
    c.rule = "a state is what a crash at one moment leaves on the disk: a real kill of the process at one of its accesses, or a disk rebuilt from the recorded accesses in which unsynced writes are lost; the transition is SQLite's recovery; the database must then hold exactly the content before or after the call, and after it if the call had returned";
    c.assumptions = { "power loss: any subset of the writes not yet synced is lost, one write may be torn; creations and removals of files reach the disk in order, the last ones may be lost unless the call had returned (SQLite does not sync the directory after a commit in its default setting)", "writing a range does not damage bytes beside it (SQLite's powersafe overwrite)" };
    c.bounds = { "applying and rebasing on small, multi-page, GeoPackage and WAL databases, with user triggers, with failing changesets, and with a cache so small that pages reach the database file before the end of the transaction",
                 "a kill before each access with an effect, and within each write after 1 byte, half, 512 bytes, all but one",
                 fmt( "power loss after each access: all subsets of up to %zu unsynced writes; beyond that every prefix, every single one lost and every single one kept; each unsynced write torn at 512 bytes, the middle, and its last byte; every prefix of the unsynced directory changes", subsetLimit ),
                 "after each kill the call is repeated and has to succeed"
               };
    c.count = sp->cases.size();
    c.describe = [sp]( uint64_t i )
    {
      const Case &k = sp->cases[i];
      static std::vector<Scenario> v = freshScenarios();
      std::string s = v[k.scenario].name + "\n";
      if ( k.power ) return s + fmt( "power lost after change %d\n", k.at );
      if ( k.at == 1 << 30 ) return s + "killed after the call\n";
      return s + fmt( "killed at access %d: ", k.at ) + sp->ops[k.scenario][k.at].show() + ( k.mode ? fmt( ", partly done (%d)", k.mode ) : "" ) + "\n";
    };
    c.run = [sp, subsetLimit]( const Ctx & x )
    {
      static const bool ok = sysio::install();
      if ( !ok ) { fprintf( stderr, "seccomp filters are not available here\n" ); _exit( 77 ); }
      static std::vector<Scenario> v = scenarios( x.dir );
      static std::map<int, Reference> refs;
      static std::map<int, std::vector<Ev>> evs;
      const Case &k = sp->cases[x.idx];
      const Scenario &s = v[k.scenario];
      const std::string w = x.p( "w" ), db = w + "/" + s.dataset;
      if ( !refs.count( k.scenario ) ) refs[k.scenario] = reference( s, w );
      const Reference &ref = refs[k.scenario];
      auto judge = [&]( const std::string & got, bool done, const std::string & how )
      {
        if ( got == ref.after ) { x.outcome( done ? "after the end: new" : "new content" ); return true; }
        if ( got == ref.before && !done ) { x.outcome( "old content" ); return false; }
        x.fail( done ? ( got == ref.before ? "not-durable" : "damaged-after-end" ) : "in-between", how + "\nafter recovery the database is\n" + got.substr( 0, 3000 ) + "\nold content\n" + ref.before.substr( 0, 1500 ) + "\nnew content\n" + ref.after.substr( 0, 1500 ) );
      };
      if ( !k.power )
      {
        place( s, w );
        setenv( "TMPDIR", ( w + "/tmp/" ).c_str(), 1 );
        fflush( nullptr );
        pid_t p = fork();
        if ( p == 0 )
        {
          Killer kl{ k.at, k.mode, 0 };
          std::string extra;
          sysio::watch( w, killHook, &kl );
          s.call( w, extra );
          sysio::rawSyscall( SYS_exit_group, 8 );
        }
        int st = 0;
        if ( p < 0 || waitpid( p, &st, 0 ) != p ) throw std::runtime_error( "fork" );
        if ( !WIFEXITED( st ) || ( WEXITSTATUS( st ) != 7 && WEXITSTATUS( st ) != 8 ) ) x.fail( "crash", fmt( "the call ended with status %d", st ) );
        bool done = WEXITSTATUS( st ) == 8;
        x.transition();
        x.trace();
        x.state( fmt( "k%d %d %d", k.scenario, k.at, k.mode ) );
        bool isNew = judge( fullDump( db ), done, "killed" );
        x.nontrivial( fmt( "%d %d", k.scenario, isNew ) );
        if ( !isNew && ref.rc == GEODIFF_SUCCESS )
        {
          std::string extra;
          int rc = s.call( w, extra );
          if ( rc != GEODIFF_SUCCESS || fullDump( db ) != ref.after ) x.fail( "not-repeatable", fmt( "repeating the call after the crash returned %d\n", rc ) + fullDump( db ).substr( 0, 2000 ) );
          x.transition();
        }
        return;
      }
      if ( !evs.count( k.scenario ) )
      {
        Recorder r;
        r.w = w;
        r.dataset = s.dataset;
        place( s, w );
        std::string extra;
        sysio::watch( w, evHook, &r );
        s.call( w, extra );
        sysio::unwatch();
        evs[k.scenario] = r.ev;
        // the recording has to explain the files as they are
        Disk d;
        for ( auto &f : s.files ) if ( f.first == s.dataset ) { d.inodes.push_back( { f.second, {} } ); d.start[f.first] = d.cur[f.first] = 0; }
        for ( size_t i = 0; i < r.ev.size(); ++i ) d.apply( r.ev, i );
        for ( auto &f : d.cur )
        {
          std::string b = d.inodes[f.second].base;
          for ( auto &q : d.inodes[f.second].ops ) put( b, r.ev[q.first], r.ev[q.first].data.size() );
          if ( b != readFile( w + "/" + f.first ) ) throw std::runtime_error( "the recorded accesses do not explain the content of " + f.first );
        }
      }
      const std::vector<Ev> &ev = evs[k.scenario];
      if ( k.at > int( ev.size() ) ) { x.outcome( "no such change" ); return; }
      bool done = k.at == int( ev.size() );
      Disk d;
      for ( auto &f : s.files ) if ( f.first == s.dataset ) { d.inodes.push_back( { f.second, {} } ); d.start[f.first] = d.cur[f.first] = 0; }
      for ( int i = 0; i < k.at; ++i ) d.apply( ev, i );
      struct Pend { int inode, op; };
      std::vector<Pend> pend;
      for ( size_t i = 0; i < d.inodes.size(); ++i ) for ( size_t q = 0; q < d.inodes[i].ops.size(); ++q ) if ( !d.inodes[i].ops[q].second ) pend.push_back( { int( i ), int( q ) } );
      // which of the pending writes are kept: 0 lost, SIZE_MAX all of it, else its first bytes
      std::vector<std::vector<size_t>> choice;
      const size_t all = SIZE_MAX;
      size_t n = pend.size();
      if ( n <= subsetLimit )
        for ( size_t m = 0; m < ( size_t( 1 ) << n ); ++m ) { std::vector<size_t> q( n ); for ( size_t i = 0; i < n; ++i ) q[i] = m >> i & 1 ? all : 0; choice.push_back( q ); }
      else
      {
        for ( size_t m = 0; m <= n; ++m ) { std::vector<size_t> q( n, 0 ); for ( size_t i = 0; i < m; ++i ) q[i] = all; choice.push_back( q ); }
        for ( size_t m = 0; m < n; ++m ) { std::vector<size_t> q( n, 0 ), r( n, all ); q[m] = all; r[m] = 0; choice.push_back( q ); choice.push_back( r ); }
      }
      for ( size_t m = 0; m < n; ++m )
      {
        const Ev &e = ev[d.inodes[pend[m].inode].ops[pend[m].op].first];
        if ( e.t != Ev::Data || e.data.size() < 2 ) continue;
        for ( size_t cut : { size_t( 512 ), e.data.size() / 2, e.data.size() - 1 } )
        {
          if ( cut >= e.data.size() ) continue;
          std::vector<size_t> q( n, 0 ), r( n, all ), t( n, 0 );
          for ( size_t i = 0; i < m; ++i ) t[i] = all;
          q[m] = r[m] = t[m] = cut;
          choice.push_back( q ); choice.push_back( r ); choice.push_back( t );
        }
      }
      static std::map<int, std::unordered_set<uint64_t>> seen;
      uint64_t judged = 0;
      for ( size_t j = done ? d.dir.size() : d.dirSynced; j <= d.dir.size(); ++j )
      {
        std::map<std::string, int> names = d.start;
        for ( size_t i = 0; i < j; ++i )
        {
          const Disk::DirOp &q = d.dir[i];
          if ( q.kind == 0 ) names[q.name] = q.inode;
          else if ( q.kind == 1 ) names.erase( q.name );
          else { names[q.to] = names[q.name]; names.erase( q.name ); }
        }
        for ( auto &ch : choice )
        {
          std::map<std::string, std::string> files;
          std::string key;
          for ( auto &f : names )
          {
            std::string b = d.inodes[f.second].base;
            for ( size_t q = 0, pi = 0; q < d.inodes[f.second].ops.size(); ++q )
            {
              const Ev &e = ev[d.inodes[f.second].ops[q].first];
              size_t len = e.data.size();
              bool keep = d.inodes[f.second].ops[q].second;
              if ( !keep )
              {
                while ( pend[pi].inode != f.second || pend[pi].op != int( q ) ) ++pi;
                keep = ch[pi] != 0;
                if ( ch[pi] != all ) len = std::min( len, ch[pi] );
              }
              if ( keep ) put( b, e, len );
            }
            key += f.first + '\0' + std::to_string( b.size() ) + '\0' + b;
            files[f.first] = b;
          }
          // the same disk may come about at several moments
          uint64_t h = hash64( key, done ? 7 : 1469598103934665603ULL );
          if ( !seen[k.scenario].insert( h ).second ) continue;
          removeTree( w );
          mkdir( w.c_str(), 0700 );
          for ( auto &f : files ) writeFile( w + "/" + f.first, f.second );
          x.transition();
          x.state( fmt( "p%d ", k.scenario ) + std::to_string( h ) );
          ++judged;
          std::string how;
          if ( k.at ) how = "last change made: " + ev[k.at - 1].show() + "\n";
          how += "on the disk: ";
          for ( auto &f : files ) how += f.first + fmt( " (%zu bytes) ", f.second.size() );
          for ( size_t i = 0; i < n; ++i ) if ( ch[i] != all ) how += "\nlost or torn: " + ev[d.inodes[pend[i].inode].ops[pend[i].op].first].show() + ( ch[i] ? fmt( " cut to %zu", ch[i] ) : "" );
          judge( fullDump( db ), done, how );
        }
      }
      x.trace();
      x.evaluation( judged );
    };
    return c;
  } );
}
