// The space of calls of every public function: scenarios (what the files hold) x kinds of arguments
// (what each argument is), with at most a given number of arguments that are not the plain, valid
// kind. Calls run as an unprivileged user inside a directory of their own.
#pragma once
#include "mc.h"
#include <unistd.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <dirent.h>

namespace argspace
{
  using namespace mc;
  enum Role { DbIn, DbInOut, DbOut, CsIn, CsOut, JsonOut, CsReplaced, Conflict, Driver, Extra, TmpDir };
  enum Tag { Good, Bad, Any };            //!< Any: either outcome is right
  struct Kind { std::string name; Tag tag; };

  inline const std::vector<Kind> &kinds( Role r )
  {
    static const std::vector<Kind> dbIn = { { "valid", Good }, { "NULL", Bad }, { "empty string", Bad }, { "missing", Bad }, { "directory", Bad }, { "empty file", Any }, { "garbage", Bad }, { "truncated", Any },
      { "below a missing directory", Bad }, { "below a file", Bad }, { "too long", Bad }, { "a changeset", Bad }, { "unreadable", Bad }, { "read-only", Good }, { "in a read-only directory", Good }, { "WAL mode", Good },
      { "symbolic link", Good }, { "odd name", Good }, { "exclusively locked", Bad }, { "being written", Good }, { "dangling link", Bad }
    };
    static const std::vector<Kind> dbInOut = [] { auto v = dbIn; for ( auto &k : v ) if ( k.name == "read-only" || k.name == "in a read-only directory" || k.name == "being written" ) k.tag = Bad; return v; }();
    static const std::vector<Kind> csIn = { { "valid", Good }, { "NULL", Bad }, { "empty string", Bad }, { "missing", Bad }, { "directory", Bad }, { "garbage", Bad }, { "truncated", Bad }, { "below a missing directory", Bad }, { "below a file", Bad },
      { "too long", Bad }, { "a database", Bad }, { "unreadable", Bad }, { "read-only", Good }, { "in a read-only directory", Good }, { "symbolic link", Good }, { "odd name", Good }, { "dangling link", Bad }
    };
    static const std::vector<Kind> out = { { "new", Good }, { "NULL", Bad }, { "empty string", Bad }, { "existing", Good }, { "directory", Bad }, { "below a missing directory", Bad }, { "below a file", Bad }, { "in a read-only directory", Bad },
      { "existing read-only", Bad }, { "too long", Bad }, { "odd name", Good }, { "full directory", Bad }
    };
    // the old file is removed first, so a read-only one is no obstacle
    static const std::vector<Kind> rep = [] { auto v = out; for ( auto &k : v ) if ( k.name == "existing read-only" ) k.tag = Good; return v; }();
    static const std::vector<Kind> drv = { { "sqlite", Good }, { "NULL", Bad }, { "empty string", Bad }, { "unknown", Bad }, { "sqlite with a space", Bad }, { "postgres", Bad } };
    static const std::vector<Kind> extra = { { "empty", Good }, { "NULL", Good }, { "anything", Good } };
    static const std::vector<Kind> tmp = { { "usual", Good }, { "no slash at the end", Good }, { "missing", Any }, { "read-only", Any }, { "a file", Any } };
    switch ( r )
    {
      case DbIn: return dbIn;
      case DbInOut: return dbInOut;
      case CsIn: return csIn;
      case DbOut: return rep;
      case CsOut: case JsonOut: return out;
      case CsReplaced: case Conflict: return rep;
      case Driver: return drv;
      case Extra: return extra;
      case TmpDir: return tmp;
    }
    abort();
  }

  struct Arg { std::string name; Role role; std::string content; };    //!< content: key of the file's valid content
  struct Call
  {
    std::string fn, scenario;
    std::vector<Arg> args;               //!< the function's arguments in order, and TMPDIR where it is used
    bool ok;                             //!< does it succeed with valid arguments
    bool conflicts = false;              //!< ... and writes a conflict file
    std::vector<int> ignored;            //!< arguments that need not be looked at
    int unread = -1;                     //!< changeset that is opened, but not read
    int errorValue = GEODIFF_ERROR;
    int okValue = GEODIFF_SUCCESS;
  };

  // ------------------------------------------------------------------ contents
  inline std::string gpkgSql()
  {
    return "PRAGMA application_id=1196444487;"
           "CREATE TABLE gpkg_contents(table_name TEXT NOT NULL PRIMARY KEY, data_type TEXT NOT NULL, identifier TEXT UNIQUE, description TEXT DEFAULT '', last_change DATETIME NOT NULL DEFAULT '2020-01-01', min_x DOUBLE, min_y DOUBLE, max_x DOUBLE, max_y DOUBLE, srs_id INTEGER);"
           "CREATE TABLE gpkg_spatial_ref_sys(srs_name TEXT NOT NULL, srs_id INTEGER NOT NULL PRIMARY KEY, organization TEXT NOT NULL, organization_coordsys_id INTEGER NOT NULL, definition TEXT NOT NULL, description TEXT);"
           "CREATE TABLE gpkg_geometry_columns(table_name TEXT NOT NULL, column_name TEXT NOT NULL, geometry_type_name TEXT NOT NULL, srs_id INTEGER NOT NULL, z TINYINT NOT NULL, m TINYINT NOT NULL, CONSTRAINT pk_geom_cols PRIMARY KEY (table_name, column_name));"
           "CREATE TABLE simple(fid INTEGER PRIMARY KEY AUTOINCREMENT NOT NULL, geometry POINT, name TEXT, rating MEDIUMINT);"
           "INSERT INTO gpkg_contents(table_name,data_type,identifier,srs_id) VALUES('simple','features','simple',4326);"
           "INSERT INTO gpkg_spatial_ref_sys VALUES('WGS 84',4326,'EPSG',4326,'GEOGCS','');"
           "INSERT INTO gpkg_geometry_columns VALUES('simple','geometry','POINT',4326,0,0);"
           "INSERT INTO simple VALUES(1,x'47500001E61000000101000000000000000000F03F0000000000000040','one',5);";
  }
  //! content by key; changesets are made by the library from the states (their making is checked elsewhere)
  inline std::string contentFor( const Ctx &x, const std::string &key )
  {
    static std::map<std::string, std::string> cache;
    auto it = cache.find( key );
    if ( it != cache.end() ) return it->second;
    static const std::string S = "CREATE TABLE t(id INTEGER PRIMARY KEY, a, u UNIQUE); CREATE TABLE k(n TEXT PRIMARY KEY, v); INSERT INTO t VALUES(1,'a1','x'),(2,'a2','y'),(3,'a3',NULL); INSERT INTO k VALUES('p',1);";
    static const std::map<std::string, std::string> E =
    {
      { "base", "" }, { "same", "" },
      { "theirs", "UPDATE t SET a='theirs' WHERE id=1; INSERT INTO t VALUES(4,'t4','z'); DELETE FROM k;" },
      { "mine", "UPDATE t SET a='mine' WHERE id=2; INSERT INTO t VALUES(4,'m4','w'); INSERT INTO k VALUES('q',2);" },
      { "minec", "UPDATE t SET a='mine' WHERE id=1; INSERT INTO k VALUES('q',2);" },       // conflicts with theirs
      { "mineu", "UPDATE t SET a='mine', u='z' WHERE id=2;" },                             // cannot be combined with theirs
      { "fk", "CREATE TABLE c(id INTEGER PRIMARY KEY, r REFERENCES t(id));" },
      { "trg", "CREATE TRIGGER trg AFTER INSERT ON t BEGIN UPDATE k SET v=9; END;" },
      { "other", "CREATE TABLE more(id INTEGER PRIMARY KEY);" },
    };
    std::string r;
    auto e = E.find( key );
    if ( e != E.end() ) r = buildImage( S + e->second );
    else if ( key == "gpkg" ) r = buildImage( gpkgSql() );
    else if ( key == "notables" ) r = buildImage( "CREATE VIEW vw AS SELECT 1;" );
    else if ( key == "nospatial" ) r = buildImage( S );
    else if ( key == "cs:empty" ) r = "";
    else if ( key == "cs:misfit" )
    {
      CSet s( 1 );
      s[0].table = { "t", { 1, 0, 0 } };
      CEntry en;
      en.op = OpInsert; en.n = { I( 9 ), N(), T( "new" ) };
      s[0].entries.push_back( en );
      en.n = { I( 10 ), N(), T( "x" ) };      // u is taken
      s[0].entries.push_back( en );
      r = encode( s );
    }
    else
    {
      // "cs:<from>:<to>"
      size_t p = key.find( ':', 3 );
      std::string a = x.p( "cs_a.db" ), b = x.p( "cs_b.db" ), c = x.p( "cs_c" );
      writeFile( a, contentFor( x, key.substr( 3, p - 3 ) ) );
      writeFile( b, contentFor( x, key.substr( p + 1 ) ) );
      if ( GEODIFF_createChangeset( a.c_str(), b.c_str(), c.c_str() ) != GEODIFF_SUCCESS ) x.fail( "setup", "createChangeset failed for " + key );
      r = readFile( c );
      for ( auto &f : { a, b, c } ) unlink( f.c_str() );
    }
    return cache[key] = r;
  }

  inline std::vector<Call> calls()
  {
    std::vector<Call> v;
    auto add = [&]( const std::string & fn, const std::string & sc, std::vector<Arg> a, bool ok ) -> Call & { Call c{ fn, sc, std::move( a ), ok }; v.push_back( c ); return v.back(); };
    Arg drv{ "driver", Driver, "" }, ext{ "extra", Extra, "" }, tmp{ "TMPDIR", TmpDir, "" }, conf{ "conflicts", Conflict, "" };
    auto db = []( const char *n, const char *c ) { return Arg{ n, DbIn, c }; };
    auto io = []( const char *n, const char *c ) { return Arg{ n, DbInOut, c }; };
    auto cs = []( const char *n, const std::string & c ) { return Arg{ n, CsIn, c }; };
    Arg out{ "output", CsOut, "" }, rep{ "output", CsReplaced, "" }, json{ "output", JsonOut, "" };
    const std::string B2T = "cs:base:theirs";
    add( "createChangeset", "changes", { db( "base", "base" ), db( "modified", "mine" ), out }, true );
    add( "createChangeset", "no changes", { db( "base", "base" ), db( "modified", "same" ), out }, true );
    add( "createChangeset", "other schema", { db( "base", "base" ), db( "modified", "other" ), out }, false );
    add( "createChangesetEx", "changes", { drv, ext, db( "base", "base" ), db( "modified", "mine" ), out }, true );
    add( "invertChangeset", "changes", { cs( "changeset", B2T ), out }, true );
    add( "invertChangeset", "no changes", { cs( "changeset", "cs:empty" ), out }, true );
    for ( const char *m : { "mine", "minec", "same" } )
    {
      Call &c = add( "createRebasedChangeset", m, { db( "base", "base" ), db( "modified", m ), cs( "theirs", B2T ), rep, conf }, true );
      c.conflicts = std::string( m ) == "minec";
      if ( !c.conflicts ) c.ignored = { 4 };
      if ( std::string( m ) == "same" ) c.unread = 2;
    }
    add( "createRebasedChangeset", "theirs empty", { db( "base", "base" ), db( "modified", "mine" ), cs( "theirs", "cs:empty" ), rep, conf }, true ).ignored = { 4 };
    add( "createRebasedChangeset", "fk", { db( "base", "fk" ), db( "modified", "fk" ), cs( "theirs", B2T ), rep, conf }, false );
    add( "createRebasedChangeset", "trigger", { db( "base", "trg" ), db( "modified", "trg" ), cs( "theirs", B2T ), rep, conf }, false );
    add( "createRebasedChangeset", "other schema", { db( "base", "base" ), db( "modified", "other" ), cs( "theirs", B2T ), rep, conf }, false );
    for ( const char *m : { "mine", "minec", "same" } )
    {
      Call &c = add( "createRebasedChangesetEx", m, { drv, ext, db( "base", "base" ), cs( "modified", std::string( "cs:base:" ) + m ), cs( "theirs", B2T ), rep, conf }, true );
      c.conflicts = std::string( m ) == "minec";
      c.ignored = { 0, 2 };            // reserved for later use, as the source says
      if ( !c.conflicts ) c.ignored.push_back( 6 );
      if ( std::string( m ) == "same" ) c.unread = 4;
    }
    for ( const char *m : { "mine", "minec", "same", "mineu", "other" } )
    {
      std::string s = m;
      Call &c = add( "rebase", m, { db( "base", "base" ), db( "theirs", "theirs" ), io( "mine", m ), conf, tmp }, s != "mineu" && s != "other" );
      c.conflicts = s == "minec";
      if ( !c.conflicts ) c.ignored = { 3 };
      Call &d = add( "rebaseEx", m, { drv, ext, db( "base", "base" ), io( "mine", m ), cs( "theirs", B2T ), conf, tmp }, s != "mineu" && s != "other" );
      d.conflicts = s == "minec";
      if ( !d.conflicts ) d.ignored = { 5 };
    }
    add( "rebase", "theirs unchanged", { db( "base", "base" ), db( "theirs", "same" ), io( "mine", "mine" ), conf, tmp }, true ).ignored = { 2, 3 };
    add( "rebaseEx", "theirs empty", { drv, ext, db( "base", "base" ), io( "mine", "mine" ), cs( "theirs", "cs:empty" ), conf, tmp }, true ).ignored = { 0, 2, 3, 5 };
    add( "applyChangeset", "fits", { io( "database", "base" ), cs( "changeset", B2T ) }, true );
    add( "applyChangeset", "does not fit", { io( "database", "base" ), cs( "changeset", "cs:misfit" ) }, false );
    add( "applyChangeset", "triggers", { io( "database", "trg" ), cs( "changeset", B2T ) }, true );
    add( "applyChangeset", "empty", { io( "database", "base" ), cs( "changeset", "cs:empty" ) }, true ).ignored = { 0 };
    add( "applyChangesetEx", "fits", { drv, ext, io( "database", "base" ), cs( "changeset", B2T ) }, true );
    for ( bool e : { false, true } )
    {
      Call &h = add( "hasChanges", e ? "empty" : "changes", { cs( "changeset", e ? "cs:empty" : B2T ) }, true );
      h.errorValue = -1;
      h.okValue = e ? 0 : 1;
      h.unread = 0;                    // only looks whether there is content
      Call &n = add( "changesCount", e ? "empty" : "changes", { cs( "changeset", e ? "cs:empty" : B2T ) }, true );
      n.errorValue = -1;
      n.okValue = e ? 0 : 3;
      add( "listChanges", e ? "empty" : "changes", { cs( "changeset", e ? "cs:empty" : B2T ), json }, true );
      add( "listChangesSummary", e ? "empty" : "changes", { cs( "changeset", e ? "cs:empty" : B2T ), json }, true );
    }
    Arg drv2 = drv, ext2 = ext;
    drv2.name = "driver 2";
    ext2.name = "extra 2";
    add( "makeCopy", "layer", { drv, ext, db( "source", "gpkg" ), drv2, ext2, Arg{ "destination", DbOut, "" }, tmp }, false );   // gpkg_contents is no layer: refused
    add( "makeCopy", "no tables", { drv, ext, db( "source", "notables" ), drv2, ext2, Arg{ "destination", DbOut, "" }, tmp }, true );
    add( "makeCopy", "no layer", { drv, ext, db( "source", "nospatial" ), drv2, ext2, Arg{ "destination", DbOut, "" }, tmp }, false );
    add( "dumpData", "layer", { drv, ext, db( "source", "gpkg" ), out }, true );
    add( "dumpData", "tables", { drv, ext, db( "source", "base" ), out }, true );
    return v;
  }

  struct Case { const Call *c = nullptr; std::vector<int> kind; };
  struct Space
  {
    std::vector<Call> C = calls();
    std::vector<Case> cases;
    //! calls with more than 5 arguments get one deviation less
    explicit Space( int deviations, const std::function<bool( const Call & )> &pred = nullptr )
    {
      for ( auto &c : C )
      {
        if ( pred && !pred( c ) ) continue;
        std::vector<int> k( c.args.size(), 0 );
        rec( c, k, 0, c.args.size() > 5 ? deviations - 1 : deviations );
      }
    }
    void rec( const Call &c, std::vector<int> &k, size_t i, int left )
    {
      if ( i == k.size() ) { cases.push_back( { &c, k } ); return; }
      for ( size_t q = 0; q < kinds( c.args[i].role ).size(); ++q )
      {
        if ( q && !left ) break;
        k[i] = q;
        rec( c, k, i + 1, left - ( q ? 1 : 0 ) );
      }
      k[i] = 0;
    }
    std::string describe( uint64_t i ) const
    {
      const Case &k = cases[i];
      std::string s = "GEODIFF_" + k.c->fn + " (" + k.c->scenario + ")\n";
      for ( size_t a = 0; a < k.kind.size(); ++a ) s += "  " + k.c->args[a].name + ": " + kinds( k.c->args[a].role )[k.kind[a]].name + "\n";
      return s;
    }
  };

  struct Snap { mode_t mode; std::string bytes; bool operator==( const Snap &o ) const { return mode == o.mode && bytes == o.bytes; } };
  inline void snapDir( const std::string &d, const std::string &rel, std::map<std::string, Snap> &out )
  {
    DIR *h = opendir( d.c_str() );
    if ( !h ) return;
    while ( dirent *e = readdir( h ) )
    {
      std::string n = e->d_name;
      if ( n == "." || n == ".." ) continue;
      std::string p = d + "/" + n;
      struct stat s;
      if ( lstat( p.c_str(), &s ) ) continue;
      Snap q{ s.st_mode, "" };
      if ( S_ISREG( s.st_mode ) ) q.bytes = readFile( p );
      else if ( S_ISLNK( s.st_mode ) ) { char b[4096]; ssize_t l = readlink( p.c_str(), b, sizeof b ); q.bytes.assign( b, l > 0 ? l : 0 ); }
      out[rel + n] = q;
      if ( S_ISDIR( s.st_mode ) ) snapDir( p, rel + n + "/", out );
    }
    closedir( h );
  }

  struct Result
  {
    int rc = 0;
    Tag expect = Good;                              //!< Good: success, Bad: error value
    std::map<std::string, Snap> before, after;      //!< relative to the directory of the call
    std::vector<std::string> file;                  //!< per argument: relative path of the real file (or "")
    std::string root;
    bool unprivileged = false;
    std::string log;
  };

  static const uid_t NOBODY = 65534;

  //! another way to make the call; false: there is none
  typedef std::function<bool( const std::string &fn, const std::vector<const char *> &args, int &rc )> Via;

  //! the C function of that name
  inline int invoke( const std::string &f, const std::vector<const char *> &a )
  {
    if ( f == "createChangeset" ) return GEODIFF_createChangeset( a[0], a[1], a[2] );
    if ( f == "createChangesetEx" ) return GEODIFF_createChangesetEx( a[0], a[1], a[2], a[3], a[4] );
    if ( f == "invertChangeset" ) return GEODIFF_invertChangeset( a[0], a[1] );
    if ( f == "createRebasedChangeset" ) return GEODIFF_createRebasedChangeset( a[0], a[1], a[2], a[3], a[4] );
    if ( f == "createRebasedChangesetEx" ) return GEODIFF_createRebasedChangesetEx( a[0], a[1], a[2], a[3], a[4], a[5], a[6] );
    if ( f == "rebase" ) return GEODIFF_rebase( a[0], a[1], a[2], a[3] );
    if ( f == "rebaseEx" ) return GEODIFF_rebaseEx( a[0], a[1], a[2], a[3], a[4], a[5] );
    if ( f == "applyChangeset" ) return GEODIFF_applyChangeset( a[0], a[1] );
    if ( f == "applyChangesetEx" ) return GEODIFF_applyChangesetEx( a[0], a[1], a[2], a[3] );
    if ( f == "hasChanges" ) return GEODIFF_hasChanges( a[0] );
    if ( f == "changesCount" ) return GEODIFF_changesCount( a[0] );
    if ( f == "listChanges" ) return GEODIFF_listChanges( a[0], a[1] );
    if ( f == "listChangesSummary" ) return GEODIFF_listChangesSummary( a[0], a[1] );
    if ( f == "makeCopy" ) return GEODIFF_makeCopy( a[0], a[1], a[2], a[3], a[4], a[5] );
    if ( f == "dumpData" ) return GEODIFF_dumpData( a[0], a[1], a[2], a[3] );
    abort();
  }

  //! prepares the files, performs the call, takes the directory's state before and after
  inline Result perform( const Ctx &x, const Case &k, const Via &via = nullptr )
  {
    const Call &c = *k.c;
    Result r;
    r.root = x.p( "w" );
    clearDir( x.dir );
    static const bool canDrop = [] { bool ok = geteuid() == 0 && seteuid( NOBODY ) == 0; if ( ok && seteuid( 0 ) ) abort(); return ok; }();
    r.unprivileged = canDrop;
    {
      std::string up = x.dir.substr( 0, x.dir.rfind( '/' ) );
      chmod( up.c_str(), 0711 );
      chmod( x.dir.c_str(), 0711 );
    }
    std::vector<std::string> contents;
    for ( auto &a : c.args ) contents.push_back( a.content.empty() ? "" : contentFor( x, a.content ) );
    auto own = [&]( const std::string & p ) { if ( canDrop && lchown( p.c_str(), NOBODY, NOBODY ) ) x.fail( "setup", "chown" ); };
    auto dir = [&]( const std::string & p ) { if ( mkdir( p.c_str(), 0755 ) ) x.fail( "setup", "mkdir " + p ); own( p ); };
    auto file = [&]( const std::string & p, const std::string & b, mode_t m = 0644 ) { writeFile( p, b ); chmod( p.c_str(), m ); own( p ); };
    dir( r.root );
    std::vector<std::string> path( c.args.size() );
    std::vector<bool> isNull( c.args.size(), false );
    std::vector<std::unique_ptr<Db>> locks;
    std::vector<std::pair<std::string, std::string>> toLock;
    std::string tmpdir = r.root + "/tmp/";
    std::vector<std::string> roDirs;
    bool hasTmp = false;
    r.file.resize( c.args.size() );
    for ( size_t i = 0; i < c.args.size(); ++i )
    {
      const Arg &a = c.args[i];
      const Kind &q = kinds( a.role )[k.kind[i]];
      bool isDb = a.role == DbIn || a.role == DbInOut, isIn = isDb || a.role == CsIn;
      std::string name = fmt( "arg%zu", i ), p = r.root + "/" + name;
      const std::string &data = contents[i];
      if ( a.role == Driver ) { path[i] = q.name == "sqlite" || q.name == "postgres" ? q.name : q.name == "unknown" ? "oracle" : q.name == "sqlite with a space" ? "sqlite " : ""; isNull[i] = q.name == "NULL"; }
      else if ( a.role == Extra ) { path[i] = q.name == "anything" ? "host=nowhere 'quoted" : ""; isNull[i] = q.name == "NULL"; }
      else if ( a.role == TmpDir )
      {
        hasTmp = true;
        if ( q.name == "usual" ) dir( r.root + "/tmp" );
        else if ( q.name == "no slash at the end" ) { dir( r.root + "/tmp" ); tmpdir = r.root + "/tmp"; }
        else if ( q.name == "read-only" ) { dir( r.root + "/tmp" ); roDirs.push_back( r.root + "/tmp" ); }
        else if ( q.name == "a file" ) file( r.root + "/tmp", "tmp" );
      }
      else if ( q.name == "NULL" ) isNull[i] = true;
      else if ( q.name == "empty string" ) path[i] = "";
      else if ( q.name == "missing" || q.name == "new" ) { path[i] = p; r.file[i] = name; }
      else if ( q.name == "directory" ) { dir( p ); path[i] = p; r.file[i] = name; }
      else if ( q.name == "full directory" ) { dir( p ); file( p + "/inside", "keep" ); path[i] = p; r.file[i] = name; }
      else if ( q.name == "below a missing directory" ) { path[i] = r.root + "/nodir/" + name; r.file[i] = "nodir/" + name; }
      else if ( q.name == "below a file" ) { file( r.root + "/plain" + name, "plain" ); path[i] = r.root + "/plain" + name + "/x"; }
      else if ( q.name == "too long" ) path[i] = r.root + "/" + std::string( 5000, 'n' );
      else if ( q.name == "dangling link" ) { if ( symlink( "nowhere", p.c_str() ) ) x.fail( "setup", "symlink" ); path[i] = p; }
      else
      {
        std::string sub, b = isIn ? data : "old content";
        mode_t m = 0644;
        if ( q.name == "empty file" ) b = "";
        else if ( q.name == "garbage" ) { b = ""; for ( int j = 0; j < 300; ++j ) b += char( 'A' + ( j * j + 7 * j ) % 50 ); }
        else if ( q.name == "truncated" ) b = isDb ? b.substr( 0, b.size() / 2 ) : b.empty() ? std::string( "T" ) : b.substr( 0, b.size() - 1 );
        else if ( q.name == "a changeset" ) b = contentFor( x, "cs:base:theirs" );
        else if ( q.name == "a database" ) b = contentFor( x, "base" );
        else if ( q.name == "unreadable" ) m = 0;
        else if ( q.name == "read-only" || q.name == "existing read-only" ) m = 0444;
        else if ( q.name == "WAL mode" && b.size() > 20 ) b[18] = b[19] = 2;
        else if ( q.name == "in a read-only directory" ) { sub = "ro" + name + "/"; dir( r.root + "/ro" + name ); roDirs.push_back( r.root + "/ro" + name ); }
        else if ( q.name == "odd name" ) name = "a'b\"c %s?x=1#d;--\xC3\xA9\n.db";
        if ( q.name == "odd name" ) name += std::to_string( i );
        path[i] = r.root + "/" + sub + name;
        r.file[i] = sub + name;
        if ( q.name == "symbolic link" )
        {
          file( r.root + "/real" + name, b );
          if ( symlink( ( "real" + name ).c_str(), path[i].c_str() ) ) x.fail( "setup", "symlink" );
          own( path[i] );
          r.file[i] = "real" + name;
        }
        else if ( isIn || q.name == "existing" || q.name == "existing read-only" ) file( path[i], b, m );
        if ( q.name == "exclusively locked" || q.name == "being written" )
        {
          toLock.push_back( { path[i], q.name == "being written" ? "BEGIN IMMEDIATE" : "BEGIN EXCLUSIVE" } );
        }
      }
    }
    if ( !hasTmp ) dir( r.root + "/tmp" );
    // a read-only directory can only be one for a user without privileges
    for ( auto &d : roDirs ) chmod( d.c_str(), 0555 );
    std::vector<std::unique_ptr<std::string>> keep;
    snapDir( r.root, "", r.before );
    // closing a file releases this process' locks on it: nothing may be read from here on
    for ( auto &l : toLock ) { locks.emplace_back( new Db( l.first ) ); locks.back()->exec( l.second ); }
    // what is expected
    r.expect = c.ok ? Good : Bad;
    bool anyNull = false, anyBad = false, anyAny = false;
    for ( size_t i = 0; i < c.args.size(); ++i )
    {
      Tag t = kinds( c.args[i].role )[k.kind[i]].tag;
      const std::string &kn = kinds( c.args[i].role )[k.kind[i]].name;
      bool ign = false;
      for ( int g : c.ignored ) ign |= g == int( i );
      if ( int( i ) == c.unread && ( kn == "garbage" || kn == "truncated" || kn == "a database" || kn == "directory" ) ) ign = true;
      if ( t == Bad && ign && kn != "NULL" ) t = Any;
      // without privileges to drop, permissions mean nothing
      if ( !canDrop && ( kn == "unreadable" || kn.find( "read-only" ) != std::string::npos ) ) t = Any;
      // makeCopy replaces its destination: if it can be removed it will be, the rest is as for other outputs
      if ( t == Bad ) anyBad = true;
      if ( t == Bad && kn == "NULL" ) anyNull = true;
      else if ( t == Any ) anyAny = true;
    }
    // databases that may or may not be read to the point where it shows: the rest need not be looked at then
    if ( anyAny && !anyNull ) anyBad = false;
    if ( anyBad ) r.expect = Bad;
    else if ( anyAny ) r.expect = Any;
    setenv( "TMPDIR", tmpdir.c_str(), 1 );
    auto A = [&]( size_t i ) -> const char * { return isNull[i] ? nullptr : path[i].c_str(); };
    x.resetLog();
    if ( canDrop && ( setegid( NOBODY ) || seteuid( NOBODY ) ) ) abort();
    const std::string &f = c.fn;
    std::string thrown;
    try
    {
    std::vector<const char *> args;
    for ( size_t i = 0; i < c.args.size(); ++i ) if ( c.args[i].role != TmpDir ) args.push_back( A( i ) );
    if ( via ) { if ( !via( f, args, r.rc ) ) abort(); }
    else r.rc = invoke( f, args );
    }
    catch ( std::exception &e ) { thrown = e.what(); if ( thrown.empty() ) thrown = "?"; }
    catch ( ... ) { thrown = "?"; }
    if ( canDrop && ( seteuid( 0 ) || setegid( 0 ) ) ) abort();
    setenv( "TMPDIR", ( x.dir + ".tmp/" ).c_str(), 1 );
    x.check( thrown.empty(), "exception", "an exception left " + f + ": " + thrown );
    r.log = x.lastLog();
    for ( auto &l : locks ) l->tryExec( "ROLLBACK" );
    locks.clear();
    for ( auto &d : roDirs ) chmod( d.c_str(), 0755 );
    for ( auto &s : r.before ) if ( S_ISDIR( s.second.mode ) ) s.second.mode = S_IFDIR | 0755;
    snapDir( r.root, "", r.after );
    for ( auto &s : r.after ) if ( S_ISDIR( s.second.mode ) ) s.second.mode = S_IFDIR | 0755;
    return r;
  }
  inline bool succeeded( const Call &c, int rc ) { return c.errorValue == -1 ? rc >= 0 : rc == GEODIFF_SUCCESS; }
  //! names of the arguments that are not plain, for messages and counting
  inline std::string deviations( const Case &k )
  {
    std::string s;
    for ( size_t a = 0; a < k.kind.size(); ++a ) if ( k.kind[a] ) s += ( s.empty() ? "" : ", " ) + k.c->args[a].name + " " + kinds( k.c->args[a].role )[k.kind[a]].name;
    return s.empty() ? "all plain" : s;
  }
}
