#include "mc.h"
#include "gpkg.h"
#include <atomic>
#include <cerrno>
#include <cmath>
#include <cstdarg>
#include <csignal>
#include <ctime>
#include <fstream>
#include <sstream>
#include <locale>
#include <locale.h>
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc
{
  // ------------------------------------------------------------------ values
  static uint64_t bits( double d ) { uint64_t x; memcpy( &x, &d, 8 ); return x; }
  bool Val::operator==( const Val &o ) const
  {
    if ( t != o.t ) return false;
    switch ( t )
    {
      case Int: return i == o.i;
      case Real: return bits( d ) == bits( o.d );
      case Text: case Blob: return s == o.s;
      default: return true;
    }
  }
  bool Val::operator<( const Val &o ) const
  {
    if ( t != o.t ) return t < o.t;
    switch ( t )
    {
      case Int: return i < o.i;
      case Real: return bits( d ) < bits( o.d );
      case Text: case Blob: return s < o.s;
      default: return false;
    }
  }
  Val I( int64_t v ) { Val x; x.t = Val::Int; x.i = v; return x; }
  Val R( double v ) { Val x; x.t = Val::Real; x.d = v; return x; }
  Val T( const std::string &s ) { Val x; x.t = Val::Text; x.s = s; return x; }
  Val B( const std::string &s ) { Val x; x.t = Val::Blob; x.s = s; return x; }
  Val N() { Val x; x.t = Val::Null; return x; }
  Val U() { return Val(); }

  //! the explorer's own numbers do not depend on the locale that is set for the library
  struct Posix
  {
    locale_t old;
    Posix() { static locale_t c = newlocale( LC_ALL_MASK, "C", ( locale_t )0 ); old = uselocale( c ); }
    ~Posix() { uselocale( old ); }
  };
  double num( const std::string &s ) { Posix posix; return strtod( s.c_str(), nullptr ); }
  std::string fmt( const char *f, ... )
  {
    Posix posix;
    va_list ap;
    va_start( ap, f );
    char *p = nullptr;
    int n = vasprintf( &p, f, ap );
    va_end( ap );
    std::string r = n >= 0 ? std::string( p, n ) : std::string();
    free( p );
    return r;
  }
  std::string hex( const std::string &s )
  {
    static const char *d = "0123456789ABCDEF";
    std::string r;
    for ( unsigned char c : s ) { r += d[c >> 4]; r += d[c & 15]; }
    return r;
  }
  std::string unhex( const std::string &s )
  {
    auto v = []( char c ) { return c <= '9' ? c - '0' : ( c | 32 ) - 'a' + 10; };
    std::string r;
    for ( size_t i = 0; i + 1 < s.size(); i += 2 ) r += char( v( s[i] ) * 16 + v( s[i + 1] ) );
    return r;
  }
  static std::string shortText( const std::string &s )
  {
    bool plain = true;
    for ( unsigned char c : s ) if ( c < 32 || c >= 127 || c == '\'' ) plain = false;
    if ( s.size() > 40 ) return fmt( "<%zu bytes #%llx>", s.size(), ( unsigned long long ) hash64( s ) );
    return plain ? "'" + s + "'" : "h'" + hex( s ) + "'";
  }
  std::string show( const Val &v )
  {
    switch ( v.t )
    {
      case Val::Int: return std::to_string( v.i );
      case Val::Real: { std::string r = fmt( "%.17g", v.d ); return r.find_first_of( ".en" ) == std::string::npos ? r + ".0" : r; }
      case Val::Text: return shortText( v.s );
      case Val::Blob: return v.s.size() > 40 ? "x" + shortText( v.s ) : "x'" + hex( v.s ) + "'";
      case Val::Null: return "NULL";
      default: return "-";
    }
  }
  std::string show( const Row &r )
  {
    std::string o = "(";
    for ( size_t i = 0; i < r.size(); ++i ) o += ( i ? "," : "" ) + show( r[i] );
    return o + ")";
  }
  std::string enc( const Val &v )
  {
    switch ( v.t )
    {
      case Val::Int: return "i" + std::to_string( v.i ) + ";";
      case Val::Real: return fmt( "r%llx;", ( unsigned long long ) bits( v.d ) );
      case Val::Text: return fmt( "t%zu:", v.s.size() ) + v.s;
      case Val::Blob: return fmt( "b%zu:", v.s.size() ) + v.s;
      case Val::Null: return "n";
      default: return "u";
    }
  }
  std::string quoteId( const std::string &s )
  {
    std::string r = "\"";
    for ( char c : s ) { if ( c == '"' ) r += '"'; r += c; }
    return r + "\"";
  }
  //! plain literals where possible: CAST of bytes to text depends on the encoding of the database
  static std::string textLit( const std::string &s )
  {
    bool plain = true, nul = false;
    for ( size_t i = 0; i < s.size() && plain; )
    {
      unsigned char c = s[i];
      size_t n = c < 0x80 ? 1 : c >= 0xC2 && c < 0xE0 ? 2 : c >= 0xE0 && c < 0xF0 ? 3 : c >= 0xF0 && c < 0xF5 ? 4 : 0;
      nul |= !c;
      plain = n && i + n <= s.size();
      uint32_t u = n == 1 ? c : c & ( 0xFF >> ( n + 1 ) );
      for ( size_t k = 1; k < n && plain; ++k ) { plain = ( s[i + k] & 0xC0 ) == 0x80; u = u << 6 | ( s[i + k] & 0x3F ); }
      if ( n == 3 && ( u < 0x800 || ( u >= 0xD800 && u < 0xE000 ) || u >= 0xFFFE ) ) plain = false;
      if ( n == 4 && ( u < 0x10000 || u > 0x10FFFF ) ) plain = false;
      i += n ? n : 1;
    }
    if ( !plain ) return "CAST(x'" + hex( s ) + "' AS TEXT)";
    std::string o = "'";
    for ( char c : s ) o += c == '\'' ? std::string( "''" ) : c ? std::string( 1, c ) : std::string( "'||char(0)||'" );
    return nul ? "(" + o + "')" : o + "'";
  }
  std::string sqlLit( const Val &v )
  {
    switch ( v.t )
    {
      case Val::Int:
        if ( v.i == INT64_MIN ) return "(-9223372036854775807-1)";
        return std::to_string( v.i );
      case Val::Real:
        if ( std::isinf( v.d ) ) return v.d > 0 ? "9e999" : "-9e999";
        { std::string r = fmt( "%.17e", v.d ); return r; }
      case Val::Text: return textLit( v.s );
      case Val::Blob: return "x'" + hex( v.s ) + "'";
      default: return "NULL";
    }
  }
  uint64_t hash64( const std::string &s, uint64_t h )
  {
    for ( unsigned char c : s ) { h ^= c; h *= 1099511628211ULL; }
    h ^= h >> 32; h *= 0xd6e8feb86659fd93ULL; h ^= h >> 32;
    return h;
  }

  // ------------------------------------------------------------------ changesets
  std::string varint( uint64_t v )
  {
    // SQLite varint: big-endian groups of 7 bits, ninth byte holds 8 bits
    std::string r;
    if ( v >> 56 )
    {
      r.assign( 9, 0 );
      r[8] = char( v & 0xff );
      v >>= 8;
      for ( int i = 7; i >= 0; --i ) { r[i] = char( ( v & 0x7f ) | 0x80 ); v >>= 7; }
      return r;
    }
    std::string t;
    do { t += char( v & 0x7f ); v >>= 7; } while ( v );
    for ( size_t i = t.size(); i-- > 0; ) r += char( ( unsigned char ) t[i] | ( i ? 0x80 : 0 ) );
    return r;
  }
  static std::string be8( uint64_t x )
  {
    std::string r( 8, 0 );
    for ( int i = 7; i >= 0; --i ) { r[i] = char( x & 0xff ); x >>= 8; }
    return r;
  }
  static std::string encRow( const Row &r )
  {
    std::string o;
    for ( const Val &v : r )
    {
      o += char( v.t );
      if ( v.t == Val::Int ) o += be8( ( uint64_t ) v.i );
      else if ( v.t == Val::Real ) o += be8( bits( v.d ) );
      else if ( v.t == Val::Text || v.t == Val::Blob ) o += varint( v.s.size() ) + v.s;
    }
    return o;
  }
  std::string encodeTable( const CTable &t )
  {
    std::string o = "T" + varint( t.pk.size() );
    for ( uint8_t b : t.pk ) o += char( b );
    o += t.name;
    o += '\0';
    return o;
  }
  std::string encodeEntry( const CEntry &e )
  {
    std::string o;
    o += char( e.op );
    o += char( e.indirect );
    if ( e.op != OpInsert ) o += encRow( e.o );
    if ( e.op != OpDelete ) o += encRow( e.n );
    return o;
  }
  std::string encode( const CSet &cs )
  {
    std::string o;
    for ( auto &g : cs )
    {
      o += encodeTable( g.table );
      for ( auto &e : g.entries ) o += encodeEntry( e );
    }
    return o;
  }
  namespace
  {
    struct Rd
    {
      const std::string &b;
      size_t p = 0;
      std::string err;
      bool need( size_t n, const char *what )
      {
        if ( n > b.size() - p ) { if ( err.empty() ) err = fmt( "%s: data ends at offset %zu", what, p ); return false; }
        return true;
      }
      bool u8( int &v, const char *w ) { if ( !need( 1, w ) ) return false; v = ( unsigned char ) b[p++]; return true; }
      bool vi( uint64_t &v, const char *w )
      {
        v = 0;
        for ( int i = 0; i < 9; ++i )
        {
          int c;
          if ( !u8( c, w ) ) return false;
          if ( i == 8 ) { v = ( v << 8 ) | unsigned( c ); return true; }
          v = ( v << 7 ) | unsigned( c & 0x7f );
          if ( !( c & 0x80 ) ) return true;
        }
        return true;
      }
      bool be( uint64_t &v, const char *w )
      {
        if ( !need( 8, w ) ) return false;
        v = 0;
        for ( int i = 0; i < 8; ++i ) v = ( v << 8 ) | ( unsigned char ) b[p++];
        return true;
      }
      bool row( Row &r, size_t n )
      {
        r.clear();
        for ( size_t i = 0; i < n; ++i )
        {
          int t;
          if ( !u8( t, "value type" ) ) return false;
          uint64_t x;
          switch ( t )
          {
            case 0: r.push_back( U() ); break;
            case 1: if ( !be( x, "integer" ) ) return false; r.push_back( I( ( int64_t ) x ) ); break;
            case 2: { if ( !be( x, "real" ) ) return false; double d; memcpy( &d, &x, 8 ); r.push_back( R( d ) ); break; }
            case 3: case 4:
              if ( !vi( x, "length" ) || !need( x, "text or blob" ) ) return false;
              r.push_back( t == 3 ? T( b.substr( p, x ) ) : B( b.substr( p, x ) ) );
              p += x;
              break;
            case 5: r.push_back( N() ); break;
            default: err = fmt( "value type %d at offset %zu", t, p - 1 ); return false;
          }
        }
        return true;
      }
    };
  }
  bool decode( const std::string &bytes, CSet &out, std::string *err )
  {
    out.clear();
    Rd r{ bytes };
    auto bad = [&]( const std::string &m ) { if ( err ) *err = r.err.empty() ? m : r.err; return false; };
    while ( r.p < bytes.size() )
    {
      int t;
      r.u8( t, "record type" );
      if ( t == 'T' )
      {
        CGroup g;
        uint64_t n;
        if ( !r.vi( n, "column count" ) ) return bad( "" );
        if ( n == 0 || n > 65536 ) return bad( fmt( "column count %llu", ( unsigned long long ) n ) );
        for ( uint64_t i = 0; i < n; ++i )
        {
          int b;
          if ( !r.u8( b, "primary key flag" ) ) return bad( "" );
          g.table.pk.push_back( uint8_t( b ) );
        }
        size_t e = bytes.find( '\0', r.p );
        if ( e == std::string::npos ) return bad( "table name is not terminated" );
        g.table.name = bytes.substr( r.p, e - r.p );
        r.p = e + 1;
        out.push_back( g );
      }
      else if ( t == OpInsert || t == OpUpdate || t == OpDelete )
      {
        if ( out.empty() ) return bad( "entry before any table" );
        CEntry en;
        en.op = t;
        if ( !r.u8( en.indirect, "indirect flag" ) ) return bad( "" );
        size_t n = out.back().table.pk.size();
        if ( t != OpInsert && !r.row( en.o, n ) ) return bad( "" );
        if ( t != OpDelete && !r.row( en.n, n ) ) return bad( "" );
        out.back().entries.push_back( en );
      }
      else return bad( fmt( "record type 0x%02x at offset %zu", t, r.p - 1 ) );
    }
    return true;
  }
  size_t countEntries( const CSet &cs ) { size_t n = 0; for ( auto &g : cs ) n += g.entries.size(); return n; }
  std::string show( const CSet &cs )
  {
    std::string o;
    for ( auto &g : cs )
    {
      o += "TABLE " + quoteId( g.table.name ) + " pk=";
      for ( uint8_t b : g.table.pk ) o += b < 10 ? char( '0' + b ) : '?';
      o += "\n";
      for ( auto &e : g.entries )
      {
        o += e.op == OpInsert ? "  INSERT " : e.op == OpDelete ? "  DELETE " : "  UPDATE ";
        if ( e.op != OpInsert ) o += show( e.o );
        if ( e.op == OpUpdate ) o += " -> ";
        if ( e.op != OpDelete ) o += show( e.n );
        o += "\n";
      }
    }
    return o;
  }
  std::string canon( const CSet &cs )
  {
    std::vector<std::string> v;
    for ( auto &g : cs )
      for ( auto &e : g.entries )
      {
        std::string o = g.table.name + std::string( 1, 0 );
        for ( uint8_t b : g.table.pk ) o += b ? '1' : '0';
        o += fmt( ":%d:", e.op );
        for ( auto &x : e.o ) o += enc( x );
        o += ">";
        for ( auto &x : e.n ) o += enc( x );
        v.push_back( o );
      }
    std::sort( v.begin(), v.end() );
    std::string r;
    for ( auto &x : v ) r += x + "\n";
    return r;
  }

  // ------------------------------------------------------------------ files
  std::string readFile( const std::string &p, bool *ok )
  {
    std::string r;
    int fd = open( p.c_str(), O_RDONLY | O_CLOEXEC );
    if ( fd < 0 ) { if ( ok ) *ok = false; return r; }
    struct stat st;
    if ( fstat( fd, &st ) == 0 && S_ISREG( st.st_mode ) ) r.reserve( st.st_size );
    char buf[65536];
    ssize_t n;
    while ( ( n = read( fd, buf, sizeof buf ) ) > 0 ) r.append( buf, n );
    close( fd );
    if ( ok ) *ok = n == 0;
    return r;
  }
  void writeFile( const std::string &p, const std::string &data )
  {
    int fd = open( p.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644 );
    if ( fd < 0 ) { fprintf( stderr, "harness: cannot write %s: %s\n", p.c_str(), strerror( errno ) ); _exit( 77 ); }
    size_t o = 0;
    while ( o < data.size() )
    {
      ssize_t n = write( fd, data.data() + o, data.size() - o );
      if ( n <= 0 ) { fprintf( stderr, "harness: cannot write %s: %s\n", p.c_str(), strerror( errno ) ); _exit( 77 ); }
      o += n;
    }
    close( fd );
  }
  bool exists( const std::string &p ) { struct stat st; return lstat( p.c_str(), &st ) == 0; }
  std::vector<std::string> listDir( const std::string &d )
  {
    std::vector<std::string> r;
    DIR *h = opendir( d.c_str() );
    if ( !h ) return r;
    while ( dirent *e = readdir( h ) )
    {
      std::string n = e->d_name;
      if ( n != "." && n != ".." ) r.push_back( n );
    }
    closedir( h );
    std::sort( r.begin(), r.end() );
    return r;
  }
  void clearDir( const std::string &d )
  {
    for ( auto &n : listDir( d ) )
    {
      std::string p = d + "/" + n;
      struct stat st;
      if ( lstat( p.c_str(), &st ) != 0 ) continue;
      if ( S_ISDIR( st.st_mode ) ) { chmod( p.c_str(), 0700 ); clearDir( p ); rmdir( p.c_str() ); }
      else unlink( p.c_str() );
    }
  }
  void removeTree( const std::string &d ) { clearDir( d ); rmdir( d.c_str() ); }

  // ------------------------------------------------------------------ sqlite
  static void die( const std::string &m ) { fprintf( stderr, "harness: %s\n", m.c_str() ); throw std::runtime_error( m ); }
  Db::Db( const std::string &path, bool gpkg, bool create )
  {
    int fl = SQLITE_OPEN_READWRITE | ( create ? SQLITE_OPEN_CREATE : 0 );
    if ( sqlite3_open_v2( path.c_str(), &h, fl, nullptr ) != SQLITE_OK )
    {
      sqlite3_close( h );
      h = nullptr;
      throw std::runtime_error( "cannot open " + path );
    }
    if ( gpkg ) sqlite3_gpkg_auto_init( h, nullptr, nullptr );
  }
  Db::~Db() { if ( h ) sqlite3_close( h ); }
  bool Db::tryExec( const std::string &sql, std::string *err )
  {
    char *e = nullptr;
    int rc = sqlite3_exec( h, sql.c_str(), nullptr, nullptr, &e );
    if ( rc != SQLITE_OK && err ) *err = e ? e : "error";
    sqlite3_free( e );
    return rc == SQLITE_OK;
  }
  void Db::exec( const std::string &sql )
  {
    std::string e;
    if ( !tryExec( sql, &e ) ) throw std::runtime_error( "SQL failed: " + e + "\n" + sql );
  }
  static Val column( sqlite3_stmt *s, int i )
  {
    switch ( sqlite3_column_type( s, i ) )
    {
      case SQLITE_INTEGER: return I( sqlite3_column_int64( s, i ) );
      case SQLITE_FLOAT: return R( sqlite3_column_double( s, i ) );
      case SQLITE_TEXT: { const char *p = ( const char * ) sqlite3_column_text( s, i ); return T( std::string( p ? p : "", sqlite3_column_bytes( s, i ) ) ); }
      case SQLITE_BLOB: { const char *p = ( const char * ) sqlite3_column_blob( s, i ); return B( std::string( p ? p : "", sqlite3_column_bytes( s, i ) ) ); }
    }
    return N();
  }
  static std::vector<Row> queryH( sqlite3 *h, const std::string &sql )
  {
    sqlite3_stmt *s = nullptr;
    if ( sqlite3_prepare_v2( h, sql.c_str(), -1, &s, nullptr ) != SQLITE_OK )
      throw std::runtime_error( std::string( "query failed: " ) + sqlite3_errmsg( h ) + "\n" + sql );
    std::vector<Row> r;
    int rc;
    while ( ( rc = sqlite3_step( s ) ) == SQLITE_ROW )
    {
      Row row;
      for ( int i = 0; i < sqlite3_column_count( s ); ++i ) row.push_back( column( s, i ) );
      r.push_back( row );
    }
    std::string e = sqlite3_errmsg( h );
    sqlite3_finalize( s );
    if ( rc != SQLITE_DONE ) throw std::runtime_error( "query failed: " + e + "\n" + sql );
    return r;
  }
  std::vector<Row> Db::query( const std::string &sql ) { return queryH( h, sql ); }
  Val Db::one( const std::string &sql ) { auto r = query( sql ); return r.empty() || r[0].empty() ? U() : r[0][0]; }

  std::string buildImage( const std::string &sql )
  {
    Db d( ":memory:", true, true );
    d.exec( sql );
    sqlite3_int64 n = 0;
    unsigned char *p = sqlite3_serialize( d.h, "main", &n, 0 );
    if ( !p ) die( "serialize failed" );
    std::string r( ( char * ) p, n );
    sqlite3_free( p );
    return r;
  }
  const std::string &cachedImage( const std::string &sql )
  {
    static std::map<std::string, std::string> cache, old;   // references stay valid until the cache has been filled twice
    static size_t bytes = 0;
    auto it = cache.find( sql );
    if ( it != cache.end() ) return it->second;
    if ( bytes > ( 200u << 20 ) ) { old.swap( cache ); cache.clear(); bytes = 0; }
    std::string img = buildImage( sql );
    bytes += img.size() + sql.size();
    return cache[sql] = img;
  }
  static bool starts( const std::string &s, const char *p ) { return s.rfind( p, 0 ) == 0; }
  Content content( sqlite3 *h, int flags )
  {
    Content c;
    for ( auto &r : queryH( h, "SELECT name, sql FROM sqlite_master WHERE type='table' ORDER BY name" ) )
    {
      std::string name = r[0].s;
      std::string sql = r[1].s;
      if ( starts( sql, "CREATE VIRTUAL" ) ) continue;
      if ( ( flags & NoSequence ) && starts( name, "sqlite_" ) ) continue;
      if ( ( flags & NoDerived ) && ( starts( name, "rtree_" ) || starts( name, "gpkg_ogr_contents" ) ) ) continue;
      if ( flags & PkTablesOnly )
      {
        bool pk = false;
        for ( auto &col : queryH( h, "PRAGMA table_info(" + quoteId( name ) + ")" ) ) pk |= col[5].i > 0;
        if ( !pk ) continue;
      }
      auto rows = queryH( h, "SELECT * FROM " + quoteId( name ) );
      std::sort( rows.begin(), rows.end() );
      c[name] = rows;
    }
    return c;
  }
  Content contentOf( const std::string &path, int flags )
  {
    Db d( path );
    return content( d.h, flags );
  }
  static std::string schemaH( sqlite3 *h )
  {
    std::string o;
    for ( auto &r : queryH( h, "SELECT type, name, tbl_name, sql FROM sqlite_master ORDER BY type, name" ) ) o += show( r ) + "\n" + r[3].s + "\n";
    for ( auto &r : queryH( h, "SELECT * FROM pragma_user_version, pragma_application_id" ) ) o += show( r );
    return o;
  }
  std::string schemaOf( const std::string &path ) { Db d( path ); return schemaH( d.h ); }
  std::string show( const Content &c )
  {
    std::string o;
    for ( auto &t : c )
    {
      o += t.first + ":";
      for ( auto &r : t.second ) o += " " + show( r );
      o += "\n";
    }
    return o;
  }
  std::string diffContent( const Content &w, const Content &g )
  {
    std::string o;
    std::set<std::string> names;
    for ( auto &t : w ) names.insert( t.first );
    for ( auto &t : g ) names.insert( t.first );
    for ( auto &n : names )
    {
      auto a = w.find( n ), b = g.find( n );
      if ( a == w.end() ) { o += "unexpected table " + n + "\n"; continue; }
      if ( b == g.end() ) { o += "missing table " + n + "\n"; continue; }
      if ( a->second == b->second ) continue;
      o += "table " + n + ":\n";
      std::vector<Row> x, y;
      std::set_difference( a->second.begin(), a->second.end(), b->second.begin(), b->second.end(), std::back_inserter( x ) );
      std::set_difference( b->second.begin(), b->second.end(), a->second.begin(), a->second.end(), std::back_inserter( y ) );
      for ( auto &r : x ) o += "  expected " + show( r ) + "\n";
      for ( auto &r : y ) o += "  found    " + show( r ) + "\n";
    }
    return o;
  }
  std::string fullDump( const std::string &path )
  {
    Db d( path );
    return schemaH( d.h ) + show( content( d.h ) );
  }
  std::string integrity( const std::string &path )
  {
    Db d( path );
    std::string o;
    for ( auto &r : d.query( "PRAGMA integrity_check" ) ) o += r[0].s + "\n";
    return o == "ok\n" ? "" : o;
  }

  // ------------------------------------------------------------------ json
  const Json *Json::get( const std::string &key ) const
  {
    for ( auto &kv : o ) if ( kv.first == key ) return &kv.second;
    return nullptr;
  }
  namespace
  {
    struct JP
    {
      const std::string &t;
      size_t p = 0;
      std::string err;
      bool bad( const std::string &m ) { if ( err.empty() ) err = fmt( "%s at offset %zu", m.c_str(), p ); return false; }
      void ws() { while ( p < t.size() && ( t[p] == ' ' || t[p] == '\n' || t[p] == '\r' || t[p] == '\t' ) ) ++p; }
      bool str( std::string &o )
      {
        o.clear();
        if ( p >= t.size() || t[p] != '"' ) return bad( "string expected" );
        ++p;
        while ( 1 )
        {
          if ( p >= t.size() ) return bad( "unterminated string" );
          unsigned char c = t[p];
          if ( c == '"' ) { ++p; return true; }
          if ( c < 0x20 ) return bad( fmt( "raw control character 0x%02x in string", c ) );
          if ( c == '\\' )
          {
            if ( p + 1 >= t.size() ) return bad( "bad escape" );
            char e = t[p + 1];
            p += 2;
            switch ( e )
            {
              case '"': o += '"'; break;
              case '\\': o += '\\'; break;
              case '/': o += '/'; break;
              case 'b': o += '\b'; break;
              case 'f': o += '\f'; break;
              case 'n': o += '\n'; break;
              case 'r': o += '\r'; break;
              case 't': o += '\t'; break;
              case 'u':
              {
                auto h4 = [&]( unsigned &v ) -> bool {
                  if ( p + 4 > t.size() ) return false;
                  v = 0;
                  for ( int i = 0; i < 4; ++i ) { char x = t[p + i]; if ( !isxdigit( ( unsigned char ) x ) ) return false; v = v * 16 + ( x <= '9' ? x - '0' : ( x | 32 ) - 'a' + 10 ); }
                  p += 4;
                  return true;
                };
                unsigned v;
                if ( !h4( v ) ) return bad( "bad \\u escape" );
                if ( v >= 0xD800 && v < 0xDC00 )
                {
                  unsigned w;
                  if ( p + 2 > t.size() || t[p] != '\\' || t[p + 1] != 'u' ) return bad( "lone surrogate" );
                  p += 2;
                  if ( !h4( w ) || w < 0xDC00 || w > 0xDFFF ) return bad( "lone surrogate" );
                  v = 0x10000 + ( ( v - 0xD800 ) << 10 ) + ( w - 0xDC00 );
                }
                else if ( v >= 0xDC00 && v < 0xE000 ) return bad( "lone surrogate" );
                if ( v < 0x80 ) o += char( v );
                else if ( v < 0x800 ) { o += char( 0xC0 | v >> 6 ); o += char( 0x80 | ( v & 63 ) ); }
                else if ( v < 0x10000 ) { o += char( 0xE0 | v >> 12 ); o += char( 0x80 | ( v >> 6 & 63 ) ); o += char( 0x80 | ( v & 63 ) ); }
                else { o += char( 0xF0 | v >> 18 ); o += char( 0x80 | ( v >> 12 & 63 ) ); o += char( 0x80 | ( v >> 6 & 63 ) ); o += char( 0x80 | ( v & 63 ) ); }
                break;
              }
              default: return bad( "bad escape" );
            }
            continue;
          }
          if ( c < 0x80 ) { o += char( c ); ++p; continue; }
          int n = c >= 0xF0 && c < 0xF5 ? 3 : c >= 0xE0 && c < 0xF0 ? 2 : c >= 0xC2 && c < 0xE0 ? 1 : -1;
          if ( n < 0 || p + n >= t.size() ) return bad( "invalid UTF-8" );
          for ( int i = 1; i <= n; ++i ) if ( ( ( unsigned char ) t[p + i] & 0xC0 ) != 0x80 ) return bad( "invalid UTF-8" );
          o.append( t, p, n + 1 );
          p += n + 1;
        }
      }
      bool value( Json &j, int depth )
      {
        if ( depth > 64 ) return bad( "too deep" );
        ws();
        if ( p >= t.size() ) return bad( "value expected" );
        char c = t[p];
        if ( c == '{' )
        {
          j.k = Json::Obj;
          ++p; ws();
          if ( p < t.size() && t[p] == '}' ) { ++p; return true; }
          while ( 1 )
          {
            ws();
            std::string key;
            if ( !str( key ) ) return false;
            if ( j.get( key ) ) return bad( "duplicate key " + key );
            ws();
            if ( p >= t.size() || t[p] != ':' ) return bad( "':' expected" );
            ++p;
            Json v;
            if ( !value( v, depth + 1 ) ) return false;
            j.o.push_back( { key, v } );
            ws();
            if ( p < t.size() && t[p] == ',' ) { ++p; continue; }
            if ( p < t.size() && t[p] == '}' ) { ++p; return true; }
            return bad( "',' or '}' expected" );
          }
        }
        if ( c == '[' )
        {
          j.k = Json::Arr;
          ++p; ws();
          if ( p < t.size() && t[p] == ']' ) { ++p; return true; }
          while ( 1 )
          {
            Json v;
            if ( !value( v, depth + 1 ) ) return false;
            j.a.push_back( v );
            ws();
            if ( p < t.size() && t[p] == ',' ) { ++p; continue; }
            if ( p < t.size() && t[p] == ']' ) { ++p; return true; }
            return bad( "',' or ']' expected" );
          }
        }
        if ( c == '"' ) { j.k = Json::Str; return str( j.s ); }
        if ( t.compare( p, 4, "null" ) == 0 ) { p += 4; j.k = Json::Null; return true; }
        if ( t.compare( p, 4, "true" ) == 0 ) { p += 4; j.k = Json::Bool; j.b = true; return true; }
        if ( t.compare( p, 5, "false" ) == 0 ) { p += 5; j.k = Json::Bool; return true; }
        size_t q = p;
        if ( q < t.size() && t[q] == '-' ) ++q;
        if ( q >= t.size() || !isdigit( ( unsigned char ) t[q] ) ) return bad( "value expected" );
        if ( t[q] == '0' ) ++q; else while ( q < t.size() && isdigit( ( unsigned char ) t[q] ) ) ++q;
        if ( q < t.size() && t[q] == '.' )
        {
          ++q;
          if ( q >= t.size() || !isdigit( ( unsigned char ) t[q] ) ) return bad( "bad number" );
          while ( q < t.size() && isdigit( ( unsigned char ) t[q] ) ) ++q;
        }
        if ( q < t.size() && ( t[q] == 'e' || t[q] == 'E' ) )
        {
          ++q;
          if ( q < t.size() && ( t[q] == '+' || t[q] == '-' ) ) ++q;
          if ( q >= t.size() || !isdigit( ( unsigned char ) t[q] ) ) return bad( "bad number" );
          while ( q < t.size() && isdigit( ( unsigned char ) t[q] ) ) ++q;
        }
        j.k = Json::Num;
        j.s = t.substr( p, q - p );
        p = q;
        return true;
      }
    };
  }
  bool parseJson( const std::string &txt, Json &out, std::string *err )
  {
    JP j{ txt };
    out = Json();
    bool ok = j.value( out, 0 );
    if ( ok ) { j.ws(); if ( j.p != txt.size() ) ok = j.bad( "trailing data" ); }
    if ( !ok && err ) *err = j.err;
    return ok;
  }
  std::string jsonStr( const std::string &s )
  {
    std::string o = "\"";
    for ( unsigned char c : s )
    {
      if ( c == '"' || c == '\\' ) { o += '\\'; o += char( c ); }
      else if ( c == '\n' ) o += "\\n";
      else if ( c < 0x20 || c >= 0x7f ) o += fmt( "\\u%04x", c );   // bytes shown as code points, for reports only
      else o += char( c );
    }
    return o + "\"";
  }
  std::string base64( const std::string &s )
  {
    static const char *d = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string r;
    for ( size_t i = 0; i < s.size(); i += 3 )
    {
      unsigned v = 0;
      size_t n = std::min<size_t>( 3, s.size() - i );
      for ( size_t k = 0; k < 3; ++k ) v = v << 8 | ( k < n ? ( unsigned char ) s[i + k] : 0 );
      for ( size_t k = 0; k < 4; ++k ) r += k <= n ? d[v >> ( 18 - 6 * k ) & 63] : '=';
    }
    return r;
  }

  // ------------------------------------------------------------------ exploration
  namespace
  {
    const size_t TAB = 1u << 22;     // distinct-hash table (32 MB of address space)
    const int LABELS = 512;
    struct Slot { std::atomic<uint64_t> idx; std::atomic<double> start; std::atomic<int> busy; std::atomic<uint64_t> lo, hi, base; };
    struct Shared
    {
      std::atomic<uint64_t> next, done, transitions, traces, evals, failures;
      std::atomic<uint64_t> nstates, nnontriv, overflow;
      std::atomic<int> stop;
      Slot slot[64];
      std::atomic<int> lock;
      struct { char name[96]; uint64_t n; } label[LABELS];
      int nlabels;
      std::atomic<uint64_t> tab[TAB], tab2[TAB];
    };
    Shared *S = nullptr;
    std::string gLog;
    std::string gFailDir;

    double now()
    {
      timespec ts;
      clock_gettime( CLOCK_MONOTONIC, &ts );
      return ts.tv_sec + ts.tv_nsec * 1e-9;
    }
    void addDistinct( std::atomic<uint64_t> *tab, std::atomic<uint64_t> &cnt, uint64_t h )
    {
      if ( !h ) h = 1;
      size_t i = h % TAB;
      for ( int probe = 0; probe < 4096; ++probe, i = ( i + 1 ) % TAB )
      {
        uint64_t cur = tab[i].load( std::memory_order_relaxed );
        if ( cur == h ) return;
        if ( cur == 0 )
        {
          uint64_t z = 0;
          if ( tab[i].compare_exchange_strong( z, h ) ) { cnt++; return; }
          if ( z == h ) return;
        }
      }
      S->overflow++;
    }
    void logCb( GEODIFF_LoggerLevel level, const char *msg )
    {
      if ( gLog.size() < 65536 ) gLog += fmt( "[%d] ", int( level ) ) + ( msg ? msg : "" ) + "\n";
    }
  }
  static std::string clip( const std::string &s )
  {
    std::string o;
    size_t col = 0;
    for ( char c : s )
    {
      if ( c == '\n' ) col = 0;
      else ++col;
      if ( col < 600 ) o += c;
      else if ( col == 600 ) o += "...";
      if ( o.size() > 20000 ) return o + "\n[cut]";
    }
    return o;
  }
  void Ctx::fail( const std::string &key, const std::string &msg ) const { throw CaseFail{ key, clip( msg ) }; }
  void Ctx::state( const std::string &c ) const { addDistinct( S->tab, S->nstates, hash64( c ) ); }
  void Ctx::nontrivial( const std::string &c ) const { addDistinct( S->tab2, S->nnontriv, hash64( c ) ); }
  void Ctx::transition( uint64_t n ) const { S->transitions += n; }
  void Ctx::trace( uint64_t n ) const { S->traces += n; }
  void Ctx::evaluation( uint64_t n ) const { S->evals += n; }
  void Ctx::outcome( const std::string &l ) const
  {
    static std::map<std::string, int> mine;
    auto it = mine.find( l );
    if ( it != mine.end() ) { __atomic_fetch_add( &S->label[it->second].n, 1, __ATOMIC_RELAXED ); return; }
    while ( S->lock.exchange( 1 ) ) usleep( 10 );
    int k = -1;
    for ( int i = 0; i < S->nlabels; ++i ) if ( strncmp( S->label[i].name, l.c_str(), 95 ) == 0 ) k = i;
    if ( k < 0 && S->nlabels < LABELS ) { k = S->nlabels++; strncpy( S->label[k].name, l.c_str(), 95 ); }
    S->lock.store( 0 );
    if ( k >= 0 ) { mine[l] = k; __atomic_fetch_add( &S->label[k].n, 1, __ATOMIC_RELAXED ); }
  }
  void Ctx::note( const std::string &s ) const { if ( verbose ) { printf( "%s\n", s.c_str() ); fflush( stdout ); } }
  std::string Ctx::lastLog() const { return gLog; }
  void Ctx::resetLog() const { gLog.clear(); }

  namespace
  {
    struct Failure { uint64_t idx; std::string key, msg; uint64_t from = UINT64_MAX; };   // from: first case of the sequence it needs

    std::string scratchRoot()
    {
      const char *cand[] = { "/dev/shm", "/tmp" };
      for ( const char *c : cand )
      {
        std::string t = fmt( "%s/vp-mc-%d", c, int( getpid() ) );
        if ( mkdir( t.c_str(), 0700 ) == 0 ) return t;
      }
      fprintf( stderr, "no scratch directory\n" );
      exit( 77 );
    }
    void prepare( const Check &c, Ctx &x )
    {
      mkdir( x.dir.c_str(), 0700 );
      clearDir( x.dir );
      mkdir( ( x.dir + ".tmp" ).c_str(), 0700 );
      clearDir( x.dir + ".tmp" );
      setenv( "TMPDIR", ( x.dir + ".tmp/" ).c_str(), 1 );
      if ( c.captureLog )
      {
        GEODIFF_setLoggerCallback( logCb );
        GEODIFF_setMaximumLoggerLevel( LevelWarning );
      }
    }
    //! a locale where numbers are written 1.234,5 and the lower case of I is not i
    const std::locale *otherLocale()
    {
      static std::locale l;
      static int have = -1;
      if ( have < 0 )
      {
        have = 0;
        const char *d = getenv( "MC_LOCPATH" );
        if ( d )
        {
          setenv( "LOCPATH", d, 1 );
          try { l = std::locale( "tr_TR.UTF-8" ); have = 1; } catch ( const std::exception & ) {}
        }
      }
      return have ? &l : nullptr;
    }
    bool runCase( const Check &c, Ctx &x, Failure &f )
    {
      struct Surroundings
      {
        Ctx &x;
        std::string plain;
        bool odd, log, loc;
        Surroundings( const Check & c, Ctx & ctx ) : x( ctx ), plain( ctx.dir ), odd( c.odd && ctx.idx % 3 == 1 ), log( c.odd && c.captureLog && ctx.idx % 4 == 3 ), loc( c.odd && ctx.idx % 5 == 2 )
        {
          if ( odd )
          {
            x.dir += ".o'd \"%s;?x=1#&%41\\\xC3\xA9";
            mkdir( x.dir.c_str(), 0700 );
            mkdir( ( x.dir + ".tmp" ).c_str(), 0700 );
            setenv( "TMPDIR", ( x.dir + ".tmp/" ).c_str(), 1 );
          }
          if ( log ) GEODIFF_setMaximumLoggerLevel( LevelDebug );
          loc = loc && otherLocale();
          if ( loc ) std::locale::global( *otherLocale() );
        }
        ~Surroundings()
        {
          if ( odd ) { x.dir = plain; setenv( "TMPDIR", ( x.dir + ".tmp/" ).c_str(), 1 ); }
          if ( log ) GEODIFF_setMaximumLoggerLevel( LevelWarning );
          if ( loc ) std::locale::global( std::locale::classic() );
        }
      } surroundings( c, x );
      gLog.clear();
      try { c.run( x ); return true; }
      catch ( const CaseFail &e ) { f = { x.idx, e.key, e.msg + ( gLog.empty() ? "" : "\nlibrary log:\n" + gLog.substr( 0, 3000 ) ) }; }
      catch ( const std::exception &e ) { f = { x.idx, "exception", std::string( "exception: " ) + e.what() }; }
      clearDir( x.dir );
      return false;
    }
    void report( const std::string &dir, const Failure &f )
    {
      std::string p = fmt( "%s/f-%d-%llu", dir.c_str(), int( getpid() ), ( unsigned long long ) f.idx );
      writeFile( p + ".part", f.key + "\n" + std::to_string( f.from ) + "\n" + f.msg );
      rename( ( p + ".part" ).c_str(), ( p + ".fail" ).c_str() );
    }
    void redirect( const std::string &path )
    {
      int fd = open( path.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600 );
      if ( fd >= 0 ) { dup2( fd, 1 ); dup2( fd, 2 ); close( fd ); }
    }
    std::string tail( const std::string &path, size_t n = 4000 )
    {
      std::string s = readFile( path );
      size_t e = s.find( "ERROR: AddressSanitizer" );
      if ( e == std::string::npos ) e = s.find( "runtime error" );
      if ( e != std::string::npos ) return s.substr( e, n );
      return s.size() > n ? s.substr( s.size() - n ) : s;
    }

    Failure parseFail( uint64_t idx, const std::string &b )
    {
      size_t e = b.find( '\n' ), g = b.find( '\n', e + 1 );
      return { idx, b.substr( 0, e ), b.substr( g + 1 ), strtoull( b.c_str() + e + 1, nullptr, 10 ) };
    }
    //! Runs the cases from..idx in a fresh child. 0 passed, 1 failed (f filled)
    int runAlone( const Check &c, const std::string &root, uint64_t from, uint64_t idx, double limit, Failure &f, bool thorough )
    {
      std::string dir = root + "/alone", out = root + "/alone.out", fdir = root + "/alone.fail";
      mkdir( fdir.c_str(), 0700 );
      clearDir( fdir );
      fflush( nullptr );
      pid_t p = fork();
      if ( p == 0 )
      {
        prctl( PR_SET_PDEATHSIG, SIGKILL );
        setpgid( 0, 0 );
        redirect( out );
        Ctx x;
        x.worker = 63; x.dir = dir; x.thorough = thorough;
        prepare( c, x );
        Failure g;
        bool ok = true;
        for ( x.idx = from; x.idx < idx; ++x.idx ) runCase( c, x, g );
        ok = runCase( c, x, g );
        if ( !ok ) report( fdir, g );
        _exit( ok ? 0 : 1 );
      }
      double t0 = now();
      int st = 0;
      bool hung = false;
      while ( waitpid( p, &st, WNOHANG ) == 0 )
      {
        if ( now() - t0 > limit ) { hung = true; kill( -p, SIGKILL ); kill( p, SIGKILL ); waitpid( p, &st, 0 ); break; }
        usleep( 2000 );
      }
      kill( -p, SIGKILL );
      if ( hung ) { f = { idx, "hang", fmt( "no answer within %.0f s\n", limit ) + tail( out ), from }; return 1; }
      if ( WIFEXITED( st ) && WEXITSTATUS( st ) == 0 ) return 0;
      for ( auto &n : listDir( fdir ) )
      {
        f = parseFail( idx, readFile( fdir + "/" + n ) );
        f.from = from;
        return 1;
      }
      f = { idx, "crash", ( WIFSIGNALED( st ) ? fmt( "the process died with signal %d (%s)\n", WTERMSIG( st ), strsignal( WTERMSIG( st ) ) )
                            : fmt( "the process exited with status %d\n", WEXITSTATUS( st ) ) ) + tail( out ), from };
      return 1;
    }
  }

  static void workerMain( const Check &c, int w, const std::string &root, bool thorough, uint64_t chunk )
  {
    prctl( PR_SET_PDEATHSIG, SIGKILL );
    setpgid( 0, 0 );
    redirect( fmt( "%s/w%d.out", root.c_str(), w ) );
    Ctx x;
    x.worker = w; x.thorough = thorough;
    x.dir = fmt( "%s/w%d", root.c_str(), w );
    prepare( c, x );
    Slot &sl = S->slot[w];
    std::string fdir = root + "/fails";
    int nf = 0;
    std::map<std::string, int> perKey;
    while ( !S->stop.load() )
    {
      // a respawned worker first finishes the chunk its predecessor died in
      uint64_t lo = sl.lo.load(), hi = sl.hi.load();
      if ( lo >= hi )
      {
        lo = S->next.fetch_add( chunk );
        if ( lo >= c.count ) break;
        hi = std::min( c.count, lo + chunk );
        sl.hi = hi;
        sl.base = lo;
        sl.lo = lo;
      }
      for ( ; lo < hi && !S->stop.load(); )
      {
        x.idx = lo;
        sl.idx = lo;
        sl.start = now();
        sl.busy = 1;
        Failure f;
        if ( !runCase( c, x, f ) )
        {
          S->failures++;
          f.from = sl.base;
          if ( ++perKey[f.key] <= 3 && ++nf < 300 ) report( fdir, f );
        }
        sl.busy = 0;
        ++lo;
        sl.lo = lo;
        S->done++;
      }
    }
    _exit( 0 );
  }

  int checkMain( int argc, char **argv, const std::function<Check( const Opts & )> &make )
  {
    setlinebuf( stdout );
    GEODIFF_init();
    Opts o;
    const char *e = getenv( "VERIF_TIER" );
    o.thorough = e && std::string( e ) == "thorough";
    e = getenv( "VERIF_SEED" );
    if ( e ) o.seed = atoll( e );
    std::string evidence, replayDir = "/tmp", known, replay;
    int64_t only = -1, onlyFrom = -1;
    uint64_t from = 0, limit = UINT64_MAX;
    for ( int i = 1; i < argc; ++i )
    {
      std::string a = argv[i];
      auto val = [&]() -> std::string { if ( i + 1 >= argc ) { fprintf( stderr, "missing value for %s\n", a.c_str() ); exit( 2 ); } return argv[++i]; };
      if ( a == "--evidence" ) evidence = val();
      else if ( a == "--replays" ) replayDir = val();
      else if ( a == "--known" ) known = val();
      else if ( a == "--tier" ) o.thorough = val() == "thorough";
      else if ( a == "--case" ) only = atoll( val().c_str() );
      else if ( a == "--from" ) from = strtoull( val().c_str(), nullptr, 10 );
      else if ( a == "--limit" ) limit = strtoull( val().c_str(), nullptr, 10 );
      else if ( a == "--replay" ) replay = val();
      else { fprintf( stderr, "unknown option %s\n", a.c_str() ); return 2; }
    }
    if ( !replay.empty() )
    {
      std::istringstream in( readFile( replay ) );
      std::string l;
      while ( std::getline( in, l ) )
      {
        if ( l.rfind( "case: ", 0 ) == 0 ) only = atoll( l.c_str() + 6 );
        if ( l.rfind( "from: ", 0 ) == 0 ) onlyFrom = atoll( l.c_str() + 6 );
        if ( l.rfind( "tier: ", 0 ) == 0 ) o.thorough = l.substr( 6 ) == "thorough";
      }
      if ( only < 0 ) { fprintf( stderr, "no case in %s\n", replay.c_str() ); return 2; }
    }
    Check c = make( o );
    if ( c.odd ) c.bounds.push_back( fmt( "surroundings: of the cases, numbered one after the other, every third runs in a directory whose name holds apostrophes, quotes and characters special to printf and URIs, every fourth with all messages logged%s", otherLocale() ? ", every fifth in the locale tr_TR.UTF-8 (decimal commas, i and I no pair)" : " (no locale could be built)" ) );
    e = getenv( "MC_WORKERS" );
    if ( e ) c.workers = atoi( e );
    std::string root = scratchRoot();
    S = ( Shared * ) mmap( nullptr, sizeof( Shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
    if ( S == MAP_FAILED ) { perror( "mmap" ); return 77; }

    if ( only >= 0 )
    {
      Ctx x;
      x.idx = uint64_t( only ); x.verbose = true; x.thorough = o.thorough;
      x.dir = root + "/case";
      printf( "case %lld of %llu\n%s\n", ( long long ) only, ( unsigned long long ) c.count, c.describe ? c.describe( x.idx ).c_str() : "" );
      prepare( c, x );
      Failure f;
      if ( onlyFrom >= 0 )
      {
        x.verbose = false;
        for ( x.idx = uint64_t( onlyFrom ); x.idx < uint64_t( only ); ++x.idx ) runCase( c, x, f );
        x.verbose = true;
      }
      bool ok = runCase( c, x, f );
      printf( ok ? "case holds\n" : "case fails: key=%s\n%s\n", f.key.c_str(), f.msg.c_str() );
      removeTree( root );
      return ok ? 0 : 1;
    }

    double t0 = now();
    double deadline = c.deadline > 0 ? c.deadline : o.thorough ? 6 * 3600.0 : 600.0;
    e = getenv( "MC_DEADLINE" );
    if ( e ) deadline = atof( e );
    c.count = std::min( c.count, limit );
    S->next = from;
    uint64_t chunk = std::max<uint64_t>( 1, std::min<uint64_t>( 64, c.count / ( uint64_t( c.workers ) * 32 ) ) );
    mkdir( ( root + "/fails" ).c_str(), 0700 );
    std::map<std::string, std::string> knownKeys;   // key -> text
    {
      std::istringstream in( readFile( known ) );
      std::string l;
      while ( std::getline( in, l ) )
      {
        std::istringstream ls( l );
        std::string a, b, k;
        ls >> a >> b >> k;
        if ( a == "known:" && b == "property=" + c.property && k.rfind( "key=", 0 ) == 0 )
        {
          std::string rest;
          std::getline( ls, rest );
          knownKeys[k.substr( 4 )] = rest;
        }
      }
    }
    std::map<pid_t, int> kids;
    auto spawn = [&]( int w )
    {
      fflush( nullptr );
      pid_t p = fork();
      if ( p == 0 ) workerMain( c, w, root, o.thorough, chunk );
      if ( p > 0 ) kids[p] = w;
    };
    for ( int w = 0; w < c.workers; ++w ) spawn( w );

    std::map<std::string, std::pair<uint64_t, Failure>> fails;   // key -> (count, first)
    uint64_t flaky = 0;
    bool violated = false, capped = false;
    Failure worst;
    auto consider = [&]( Failure f, bool alreadyAlone )
    {
      auto &r = fails[f.key];
      r.first++;
      if ( r.first == 1 || f.idx < r.second.idx ) r.second = f;
      if ( knownKeys.count( f.key ) || violated ) return;
      if ( !alreadyAlone )
      {
        Failure g;
        double lim = std::max( 60.0, c.caseTimeout * 2 );
        if ( !runAlone( c, root, f.idx, f.idx, lim, g, o.thorough ) &&
             ( f.from >= f.idx || !runAlone( c, root, f.from, f.idx, lim, g, o.thorough ) ) )
        {
          // did not fail when run alone: not a deterministic failure of this case
          ++flaky;
          fprintf( stderr, "note: case %llu failed once and passed when replayed alone: %s\n%s\n", ( unsigned long long ) f.idx, f.key.c_str(), f.msg.c_str() );
          return;
        }
        if ( g.key != f.key && knownKeys.count( g.key ) ) return;
        f = g;
      }
      violated = true;
      worst = f;
      S->stop = 1;
    };
    auto collect = [&]()
    {
      for ( auto &n : listDir( root + "/fails" ) )
      {
        if ( n.size() < 5 || n.substr( n.size() - 5 ) != ".fail" ) continue;
        std::string p = root + "/fails/" + n;
        std::string b = readFile( p );
        unlink( p.c_str() );
        uint64_t idx = strtoull( n.c_str() + n.rfind( '-' ) + 1, nullptr, 10 );
        consider( parseFail( idx, b ), false );
      }
    };
    int broken = 0, crashes = 0;
    while ( !kids.empty() )
    {
      int st;
      pid_t p = waitpid( -1, &st, WNOHANG );
      if ( p > 0 && kids.count( p ) )
      {
        int w = kids[p];
        kids.erase( p );
        kill( -p, SIGKILL );
        Slot &sl = S->slot[w];
        if ( WIFEXITED( st ) && WEXITSTATUS( st ) == 77 ) { ++broken; fprintf( stderr, "harness failure in worker %d:\n%s\n", w, tail( fmt( "%s/w%d.out", root.c_str(), w ) ).c_str() ); }
        else if ( !( WIFEXITED( st ) && WEXITSTATUS( st ) == 0 && !sl.busy.load() ) )
        {
          // died inside a case: run that case alone to see whether it is the case that kills it
          uint64_t idx = sl.idx.load();
          Failure f;
          ++crashes;
          if ( sl.busy.load() )
          {
            sl.lo = idx + 1;
            sl.busy = 0;
            S->done++;
            S->failures++;
            double lim = std::max( 60.0, c.caseTimeout * 3 );
            uint64_t base = sl.base.load();
            if ( runAlone( c, root, idx, idx, lim, f, o.thorough ) || ( base < idx && runAlone( c, root, base, idx, lim, f, o.thorough ) ) ) consider( f, true );
            else { ++flaky; fprintf( stderr, "note: worker died in case %llu, which passes alone\n%s\n", ( unsigned long long ) idx, tail( fmt( "%s/w%d.out", root.c_str(), w ) ).c_str() ); }
          }
          if ( !S->stop.load() && crashes < 2000 ) spawn( w );
        }
        continue;
      }
      collect();
      double t = now();
      for ( auto &k : kids )
      {
        Slot &sl = S->slot[k.second];
        if ( sl.busy.load() && t - sl.start.load() > c.caseTimeout ) kill( k.first, SIGKILL );
      }
      if ( !S->stop.load() && t - t0 > deadline ) { capped = true; S->stop = 1; }
      usleep( 5000 );
    }
    collect();
    for ( int w = 0; w < 64; ++w ) removeTree( fmt( "%s/w%d.tmp", root.c_str(), w ) );
    double wall = now() - t0;
    bool complete = !capped && !violated && from == 0 && S->done.load() == c.count && limit == UINT64_MAX;

    // ---- report
    std::string outcomes = "{";
    int shown = 0;
    for ( int i = 0; i < S->nlabels; ++i )
      outcomes += fmt( "%s%s: %llu", shown++ ? ", " : "", jsonStr( S->label[i].name ).c_str(), ( unsigned long long ) S->label[i].n );
    outcomes += "}";
    std::string samples = "[";
    uint64_t picks[] = { 0, c.count / 3, c.count / 2, c.count - 1 };
    std::set<uint64_t> seen;
    for ( uint64_t k : picks )
      if ( c.count && c.describe && seen.insert( k ).second )
      {
        std::string d = c.describe( k );
        if ( d.size() > 1500 ) d = d.substr( 0, 1500 ) + "...";
        samples += ( seen.size() > 1 ? ", " : "" ) + jsonStr( fmt( "case %llu: ", ( unsigned long long ) k ) + d );
      }
    samples += "]";
    if ( S->evals.load() == 0 ) S->evals = S->done.load();
    std::string kf;
    uint64_t knownHits = 0;
    for ( auto &f : fails ) if ( knownKeys.count( f.first ) ) knownHits += f.second.first;
    std::string cov = "{";
    cov += "\"cases_in_space\": " + std::to_string( c.count ) + ", \"cases_run\": " + std::to_string( S->done.load() );
    if ( c.level == "model_checking" )
      cov += fmt( ", \"states\": %llu, \"transitions\": %llu, \"traces_validated_against_impl\": %llu", ( unsigned long long ) S->nstates.load(),
                  ( unsigned long long ) S->transitions.load(), ( unsigned long long ) S->traces.load() );
    else
      cov += fmt( ", \"evaluations\": %llu, \"distinct_nontrivial\": %llu", ( unsigned long long ) S->evals.load(), ( unsigned long long ) S->nnontriv.load() );
    cov += ", \"rule\": " + jsonStr( c.rule ) + ", \"bounds\": [";
    for ( size_t i = 0; i < c.bounds.size(); ++i ) cov += ( i ? ", " : "" ) + jsonStr( c.bounds[i] );
    cov += fmt( "], \"distinct_outcomes\": %d, \"outcomes\": ", S->nlabels ) + outcomes + ", \"samples\": " + samples;
    cov += fmt( ", \"exhaustive\": %s, \"capped_by_time\": %s, \"known_finding_hits\": %llu, \"flaky\": %llu", complete ? "true" : "false", capped ? "true" : "false",
                ( unsigned long long ) knownHits, ( unsigned long long ) flaky );
    if ( S->overflow.load() ) cov += fmt( ", \"distinct_counts_are_lower_bounds\": true" );
    cov += "}";
    std::string ev = "{\n \"property\": " + jsonStr( c.property ) + ",\n \"tier\": \"" + ( o.thorough ? "thorough" : "quick" ) + "\",\n \"seed\": " + std::to_string( o.seed ) +
                     ",\n \"level\": " + jsonStr( c.level ) + ",\n \"coverage\": " + cov + ",\n \"assumptions\": [";
    for ( size_t i = 0; i < c.assumptions.size(); ++i ) ev += ( i ? ", " : "" ) + jsonStr( c.assumptions[i] );
    ev += fmt( "],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", wall, violated ? 1 : 0 );
    if ( !evidence.empty() )
    {
      writeFile( evidence + ".part", ev );
      rename( ( evidence + ".part" ).c_str(), evidence.c_str() );
    }
    printf( "%s: %llu of %llu cases in %.1f s; states=%llu transitions=%llu traces=%llu evaluations=%llu nontrivial=%llu outcomes=%d failures=%llu%s\n", c.property.c_str(),
            ( unsigned long long ) S->done.load(), ( unsigned long long ) c.count, wall, ( unsigned long long ) S->nstates.load(),
            ( unsigned long long ) S->transitions.load(), ( unsigned long long ) S->traces.load(), ( unsigned long long ) S->evals.load(),
            ( unsigned long long ) S->nnontriv.load(), S->nlabels, ( unsigned long long ) S->failures.load(), capped ? " (stopped by the time limit)" : "" );
    if ( getenv( "MC_OUTCOMES" ) ) printf( "outcomes: %s\n", outcomes.c_str() );
    if ( getenv( "MC_KEYS" ) ) for ( auto &f : fails ) printf( "key %s: %llu, first case %llu\n%s\n", f.first.c_str(), ( unsigned long long ) f.second.first, ( unsigned long long ) f.second.second.idx, f.second.second.msg.c_str() );
    for ( auto &f : fails )
      if ( knownKeys.count( f.first ) )
        printf( "KNOWN-FINDING: property=%s key=%s%s\n", c.property.c_str(), f.first.c_str(), knownKeys[f.first].c_str() );
    int rc = 0;
    if ( violated )
    {
      mkdir( replayDir.c_str(), 0755 );
      std::string rp = fmt( "%s/%s-%s-%llu.txt", replayDir.c_str(), c.property.c_str(), o.thorough ? "thorough" : "quick", ( unsigned long long ) worst.idx );
      writeFile( rp, "property: " + c.property + "\ntier: " + ( o.thorough ? "thorough" : "quick" ) + "\ncase: " + std::to_string( worst.idx ) +
                 ( worst.from < worst.idx ? "\nfrom: " + std::to_string( worst.from ) : std::string() ) + "\nkey: " + worst.key + "\n\n" +
                 ( c.describe ? c.describe( worst.idx ) : "" ) + "\n\n" + worst.msg + "\n" );
      printf( "%s\n%s\n", clip( c.describe ? c.describe( worst.idx ) : "" ).substr( 0, 4000 ).c_str(), worst.msg.substr( 0, 4000 ).c_str() );
      printf( "VIOLATION property=%s replay=%s\n", c.property.c_str(), rp.c_str() );
      rc = 1;
    }
    else if ( broken ) rc = 2;
    removeTree( root );
    return rc;
  }
}
