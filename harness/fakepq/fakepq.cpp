#include "fakepq.h"
#include <libpq-fe.h>
#include <sqlite3.h>
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <stdexcept>
#include <locale.h>

struct pg_conn { bool ok = true; std::string err; bool tx = false, aborted = false, snapshot = false, taken = false, readOnly = false; int depth = 0; };
struct pg_result { ExecStatusType st = PGRES_COMMAND_OK; std::string err, tuples; std::vector<fakepq::Row> rows; };

namespace
{
  using fakepq::Cell;
  using fakepq::Row;
  //! a server does not know the client's locale
  struct Posix
  {
    locale_t old;
    Posix() { static locale_t c = newlocale( LC_ALL_MASK, "C", ( locale_t )0 ); old = uselocale( c ); }
    ~Posix() { uselocale( old ); }
  };
  struct Err : std::runtime_error { using runtime_error::runtime_error; };
  sqlite3 *gDb = nullptr;
  bool gStarted = false;
  struct Seq { long long last = 1; bool called = false; };
  std::map<std::string, Seq> gSeq;
  long gCalls = 0, gFailCall = -1;
  long gEditCall = -1;
  std::string gEdit;
  bool gEditPending = false;
  int gFailHow = 0, gResults = 0, gConns = 0;
  pg_conn *gTxOwner = nullptr;
  std::vector<std::string> gLog;

  std::string lower( std::string s ) { for ( auto &c : s ) if ( c >= 'A' && c <= 'Z' ) c += 32; return s; }
  //! PostgreSQL's names are case sensitive, SQLite's are not
  std::string encName( const std::string &s )
  {
    std::string r;
    for ( char c : s )
    {
      if ( ( c >= 'A' && c <= 'Z' ) || c == '^' ) r += '^';
      r += c;
    }
    return r;
  }
  std::string decName( const std::string &s )
  {
    std::string r;
    for ( size_t i = 0; i < s.size(); ++i ) { if ( s[i] == '^' ) ++i; if ( i < s.size() ) r += s[i]; }
    return r;
  }
  std::string qi( const std::string &s ) { std::string r = "\""; for ( char c : s ) { if ( c == '"' ) r += '"'; r += c; } return r + "\""; }
  std::string qs( const std::string &s ) { std::string r = "'"; for ( char c : s ) { if ( c == '\'' ) r += '\''; r += c; } return r + "'"; }

  struct Tok { enum K { Word, Ident, Str, Num, Op, End } k; std::string s; };   // Word: lower case, Ident: as quoted
  bool utf8ok( const std::string &s )
  {
    for ( size_t i = 0; i < s.size(); )
    {
      unsigned char c = s[i];
      int n = c < 0x80 ? 0 : ( c >= 0xC2 && c < 0xE0 ) ? 1 : ( c >= 0xE0 && c < 0xF0 ) ? 2 : ( c >= 0xF0 && c < 0xF5 ) ? 3 : -1;
      if ( n < 0 || i + n >= s.size() + 0 ) { if ( n != 0 ) return false; }
      for ( int j = 1; j <= n; ++j ) if ( i + j >= s.size() || ( ( unsigned char )s[i + j] & 0xC0 ) != 0x80 ) return false;
      if ( n == 2 && ( ( c == 0xE0 && ( unsigned char )s[i + 1] < 0xA0 ) || ( c == 0xED && ( unsigned char )s[i + 1] > 0x9F ) ) ) return false;
      if ( n == 3 && ( ( c == 0xF0 && ( unsigned char )s[i + 1] < 0x90 ) || ( c == 0xF4 && ( unsigned char )s[i + 1] > 0x8F ) ) ) return false;
      i += 1 + n;
    }
    return true;
  }
  std::vector<Tok> tokenize( const std::string &q )
  {
    std::vector<Tok> r;
    size_t i = 0;
    auto isw = []( unsigned char c ) { return isalnum( c ) || c == '_' || c == '$' || c >= 0x80; };
    while ( i < q.size() )
    {
      unsigned char c = q[i];
      if ( isspace( c ) ) { ++i; continue; }
      if ( c == '-' && q[i + 1] == '-' ) { while ( i < q.size() && q[i] != '\n' ) ++i; continue; }
      if ( c == '/' && q[i + 1] == '*' ) { size_t e = q.find( "*/", i + 2 ); if ( e == std::string::npos ) throw Err( "unterminated comment" ); i = e + 2; continue; }
      if ( c == '\'' || ( ( c == 'E' || c == 'e' ) && q[i + 1] == '\'' ) )
      {
        bool esc = c != '\'';
        i += esc ? 2 : 1;
        std::string s;
        bool closed = false;
        while ( i < q.size() )
        {
          if ( q[i] == '\'' && q[i + 1] == '\'' ) { s += '\''; i += 2; }
          else if ( q[i] == '\'' ) { ++i; closed = true; break; }
          else if ( esc && q[i] == '\\' )
          {
            if ( i + 1 >= q.size() ) break;
            char d = q[i + 1];
            i += 2;
            if ( d == 'n' ) s += '\n'; else if ( d == 't' ) s += '\t'; else if ( d == 'r' ) s += '\r'; else if ( d == 'b' ) s += '\b'; else if ( d == 'f' ) s += '\f';
            else if ( d >= '0' && d <= '7' ) { int v = d - '0'; for ( int k = 0; k < 2 && i < q.size() && q[i] >= '0' && q[i] <= '7'; ++k ) v = v * 8 + ( q[i++] - '0' ); s += ( char )v; }
            else if ( d == 'x' && isxdigit( ( unsigned char )q[i] ) ) { int v = 0; for ( int k = 0; k < 2 && isxdigit( ( unsigned char )q[i] ); ++k ) { v = v * 16 + strtol( std::string( 1, q[i] ).c_str(), nullptr, 16 ); ++i; } s += ( char )v; }
            else s += d;
          }
          else s += q[i++];
        }
        if ( !closed ) throw Err( "unterminated quoted string" );
        if ( !utf8ok( s ) ) throw Err( "invalid byte sequence for encoding \"UTF8\"" );
        r.push_back( { Tok::Str, s } );
        continue;
      }
      if ( c == '"' )
      {
        std::string s;
        bool closed = false;
        ++i;
        while ( i < q.size() )
        {
          if ( q[i] == '"' && q[i + 1] == '"' ) { s += '"'; i += 2; }
          else if ( q[i] == '"' ) { ++i; closed = true; break; }
          else s += q[i++];
        }
        if ( !closed ) throw Err( "unterminated quoted identifier" );
        if ( s.empty() ) throw Err( "zero-length delimited identifier" );
        r.push_back( { Tok::Ident, s } );
        continue;
      }
      if ( isdigit( c ) || ( c == '.' && isdigit( ( unsigned char )q[i + 1] ) ) )
      {
        size_t b = i;
        while ( i < q.size() && ( isdigit( ( unsigned char )q[i] ) || q[i] == '.' ) ) ++i;
        if ( ( q[i] == 'e' || q[i] == 'E' ) && ( isdigit( ( unsigned char )q[i + 1] ) || ( ( q[i + 1] == '-' || q[i + 1] == '+' ) && isdigit( ( unsigned char )q[i + 2] ) ) ) )
        { i += 2; while ( i < q.size() && isdigit( ( unsigned char )q[i] ) ) ++i; }
        if ( i < q.size() && isw( q[i] ) ) throw Err( "trailing junk after numeric literal" );
        r.push_back( { Tok::Num, q.substr( b, i - b ) } );
        continue;
      }
      if ( isw( c ) )
      {
        size_t b = i;
        while ( i < q.size() && isw( q[i] ) ) ++i;
        r.push_back( { Tok::Word, lower( q.substr( b, i - b ) ) } );
        continue;
      }
      for ( const char *op : { "::", "<>", "!=", "<=", ">=", "||" } )
        if ( q.compare( i, strlen( op ), op ) == 0 ) { r.push_back( { Tok::Op, op } ); i += strlen( op ); goto next; }
      if ( c == '\\' || c == '@' || c == '#' || c == '`' || c == '?' ) throw Err( std::string( "syntax error at or near \"" ) + char( c ) + "\"" );
      r.push_back( { Tok::Op, std::string( 1, char( c ) ) } );
      ++i;
      next:;
    }
    return r;
  }
  typedef std::vector<Tok> Toks;

  void sq( const std::string &sql )
  {
    char *e = nullptr;
    if ( sqlite3_exec( gDb, sql.c_str(), nullptr, nullptr, &e ) != SQLITE_OK )
    {
      std::string m = e ? e : "?";
      sqlite3_free( e );
      throw Err( m );
    }
  }
  std::string fmtDouble( double d, bool single )
  {
    if ( std::isinf( d ) ) return d < 0 ? "-Infinity" : "Infinity";
    if ( std::isnan( d ) ) return "NaN";
    char b[64];
    for ( int p = single ? 6 : 15; p <= 17; ++p )
    {
      snprintf( b, sizeof b, "%.*g", p, d );
      if ( single ? strtof( b, nullptr ) == ( float )d : strtod( b, nullptr ) == d ) break;
    }
    return b;
  }
  std::string columnType( const char *schema, const char *table, const char *col )
  {
    if ( !schema || !table || !col ) return "";
    sqlite3_stmt *st = nullptr;
    sqlite3_prepare_v2( gDb, "SELECT type FROM main.fk_columns WHERE schema=? AND tbl=? AND name=?", -1, &st, nullptr );
    std::string s[3] = { decName( schema ), decName( table ), decName( col ) }, r;
    for ( int i = 0; i < 3; ++i ) sqlite3_bind_text( st, i + 1, s[i].c_str(), s[i].size(), SQLITE_TRANSIENT );
    if ( sqlite3_step( st ) == SQLITE_ROW ) r = ( const char * )sqlite3_column_text( st, 0 );
    sqlite3_finalize( st );
    return r;
  }
  std::vector<Row> rows( const std::string &sql, bool *isQuery = nullptr )
  {
    sqlite3_stmt *st = nullptr;
    if ( sqlite3_prepare_v2( gDb, sql.c_str(), sql.size(), &st, nullptr ) != SQLITE_OK ) throw Err( sqlite3_errmsg( gDb ) );
    if ( isQuery ) *isQuery = sqlite3_column_count( st ) > 0;
    std::vector<Row> r;
    std::vector<std::string> types;
    int n = sqlite3_column_count( st ), rc;
    for ( int i = 0; i < n; ++i ) types.push_back( columnType( sqlite3_column_database_name( st, i ), sqlite3_column_table_name( st, i ), sqlite3_column_origin_name( st, i ) ) );
    while ( ( rc = sqlite3_step( st ) ) == SQLITE_ROW )
    {
      Row w;
      for ( int i = 0; i < n; ++i )
      {
        Cell c;
        int t = sqlite3_column_type( st, i );
        c.null = t == SQLITE_NULL;
        if ( t == SQLITE_FLOAT ) c.v = fmtDouble( sqlite3_column_double( st, i ), types[i] == "real" );
        else if ( t == SQLITE_BLOB )
        {
          c.v = "\\x";
          const unsigned char *b = ( const unsigned char * )sqlite3_column_blob( st, i );
          char h[3];
          for ( int k = 0; k < sqlite3_column_bytes( st, i ); ++k ) { snprintf( h, 3, "%02x", b[k] ); c.v += h; }
        }
        else if ( t != SQLITE_NULL ) c.v.assign( ( const char * )sqlite3_column_text( st, i ), sqlite3_column_bytes( st, i ) );
        if ( types[i] == "timestamp without time zone" ) { size_t p = c.v.find( 'T' ); if ( p != std::string::npos ) c.v[p] = ' '; if ( !c.v.empty() && c.v.back() == 'Z' ) c.v.pop_back(); }
        w.push_back( c );
      }
      r.push_back( w );
    }
    std::string e = sqlite3_errmsg( gDb );
    sqlite3_finalize( st );
    if ( rc != SQLITE_DONE ) throw Err( e );
    return r;
  }

  // ---- functions of the server
  void fnAsBinary( sqlite3_context *c, int, sqlite3_value **v )
  {
    if ( sqlite3_value_type( v[0] ) == SQLITE_NULL ) return;
    if ( sqlite3_value_type( v[0] ) != SQLITE_BLOB || sqlite3_value_bytes( v[0] ) < 4 ) { sqlite3_result_error( c, "function st_asbinary(text) does not exist", -1 ); return; }
    sqlite3_result_blob( c, ( const char * )sqlite3_value_blob( v[0] ) + 4, sqlite3_value_bytes( v[0] ) - 4, SQLITE_TRANSIENT );
  }
  bool unbytea( const std::string &s, std::string &out )
  {
    out.clear();
    if ( s.compare( 0, 2, "\\x" ) == 0 )
    {
      for ( size_t i = 2; i < s.size(); i += 2 )
      {
        if ( i + 1 >= s.size() || !isxdigit( ( unsigned char )s[i] ) || !isxdigit( ( unsigned char )s[i + 1] ) ) return false;
        out += ( char )strtol( s.substr( i, 2 ).c_str(), nullptr, 16 );
      }
      return true;
    }
    for ( size_t i = 0; i < s.size(); ++i )
    {
      if ( s[i] != '\\' ) { out += s[i]; continue; }
      if ( i + 1 < s.size() && s[i + 1] == '\\' ) { out += '\\'; ++i; continue; }
      if ( i + 3 < s.size() && s[i + 1] >= '0' && s[i + 1] <= '3' ) { out += ( char )strtol( s.substr( i + 1, 3 ).c_str(), nullptr, 8 ); i += 3; continue; }
      return false;
    }
    return true;
  }
  //! Length of the WKB geometry at the start, 0 if it is not one
  size_t wkbLen( const std::string &w, size_t p = 0, int depth = 0 )
  {
    if ( p + 5 > w.size() || ( unsigned char )w[p] > 1 || depth > 4 ) return 0;
    bool le = w[p] == 1;
    auto u32 = [&]( size_t q ) { uint32_t v = 0; for ( int i = 0; i < 4; ++i ) v |= uint32_t( ( unsigned char )w[q + ( le ? i : 3 - i )] ) << ( 8 * i ); return v; };
    uint32_t t = u32( p + 1 ), b = t % 1000, dim = t / 1000;
    if ( dim > 3 ) return 0;
    size_t cs = 8 * ( 2 + ( dim == 1 || dim == 2 ? 1 : dim == 3 ? 2 : 0 ) ), q = p + 5;
    if ( b == 1 ) return q + cs <= w.size() ? q + cs - p : 0;
    if ( q + 4 > w.size() ) return 0;
    uint32_t n = u32( q );
    q += 4;
    if ( n > w.size() ) return 0;
    if ( b == 2 ) return q + n * cs <= w.size() ? q + n * cs - p : 0;
    if ( b == 3 )
    {
      for ( uint32_t i = 0; i < n; ++i ) { if ( q + 4 > w.size() ) return 0; uint32_t m = u32( q ); q += 4; if ( m > w.size() || q + m * cs > w.size() ) return 0; q += m * cs; }
      return q - p;
    }
    if ( b >= 4 && b <= 7 ) { for ( uint32_t i = 0; i < n; ++i ) { size_t l = wkbLen( w, q, depth + 1 ); if ( !l ) return 0; q += l; } return q - p; }
    return 0;
  }
  void fnFromWkb( sqlite3_context *c, int n, sqlite3_value **v )
  {
    if ( sqlite3_value_type( v[0] ) == SQLITE_NULL ) return;
    std::string s( ( const char * )sqlite3_value_text( v[0] ), sqlite3_value_bytes( v[0] ) ), w;
    if ( !unbytea( s, w ) ) { sqlite3_result_error( c, "invalid input syntax for type bytea", -1 ); return; }
    // trailing bytes are ignored with a notice
    size_t l = wkbLen( w );
    if ( !l ) { sqlite3_result_error( c, "Invalid endian flag value encountered / WKB structure does not match expected size!", -1 ); return; }
    w.resize( l );
    int srid = n > 1 ? sqlite3_value_int( v[1] ) : 0;
    std::string r( 4, 0 );
    memcpy( &r[0], &srid, 4 );
    r += w;
    sqlite3_result_blob( c, r.data(), r.size(), SQLITE_TRANSIENT );
  }
  void fnSrid( sqlite3_context *c, int, sqlite3_value **v )
  {
    if ( sqlite3_value_type( v[0] ) == SQLITE_NULL ) return;
    int srid = 0;
    if ( sqlite3_value_bytes( v[0] ) >= 4 ) memcpy( &srid, sqlite3_value_blob( v[0] ), 4 );
    sqlite3_result_int( c, srid );
  }
  void fnGeomType( sqlite3_context *c, int, sqlite3_value **v )
  {
    if ( sqlite3_value_type( v[0] ) == SQLITE_NULL || sqlite3_value_bytes( v[0] ) < 9 ) return;
    const unsigned char *b = ( const unsigned char * )sqlite3_value_blob( v[0] ) + 4;
    sqlite3_result_int( c, b[0] ? b[1] + 256 * b[2] : b[4] + 256 * b[3] );
  }
  //! "2020-07-13T16:17:54.5Z" of the forms which PostgreSQL reads as a timestamp; "" if it is none
  std::string timestampOf( const std::string &s )
  {
    int y, mo, da, h = 0, mi = 0, se = 0, n = 0;
    if ( sscanf( s.c_str(), "%4d-%2d-%2d%n", &y, &mo, &da, &n ) != 3 || n != 10 || mo < 1 || mo > 12 || da < 1 || da > 31 ) return "";
    size_t i = 10;
    std::string frac;
    if ( i < s.size() )
    {
      if ( s[i] != 'T' && s[i] != ' ' ) return "";
      n = 0;
      if ( sscanf( s.c_str() + 11, "%2d:%2d:%2d%n", &h, &mi, &se, &n ) != 3 || n != 8 || h > 24 || mi > 59 || se > 60 ) return "";
      i = 19;
      if ( i < s.size() && s[i] == '.' )
      {
        size_t e = s.find_first_not_of( "0123456789", i + 1 );
        if ( e == std::string::npos ) e = s.size();
        frac = s.substr( i + 1, e - i - 1 );
        if ( frac.size() > 6 ) return "";   // would be rounded
        while ( !frac.empty() && frac.back() == '0' ) frac.pop_back();
        i = e;
      }
      if ( i < s.size() && s[i] == 'Z' ) ++i;
      if ( i != s.size() ) return "";
    }
    char b[64];
    snprintf( b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02d", y, mo, da, h, mi, se );
    return b + ( frac.empty() ? "" : "." + frac ) + "Z";
  }
  void fnTs( sqlite3_context *c, int, sqlite3_value **v )
  {
    if ( sqlite3_value_type( v[0] ) == SQLITE_NULL ) return;
    std::string r;
    if ( sqlite3_value_type( v[0] ) == SQLITE_TEXT ) r = timestampOf( std::string( ( const char * )sqlite3_value_text( v[0] ), sqlite3_value_bytes( v[0] ) ) );
    if ( r.empty() ) sqlite3_result_error( c, "invalid input syntax for type timestamp", -1 );
    else sqlite3_result_text( c, r.data(), r.size(), SQLITE_TRANSIENT );
  }
  int collTs( void *, int na, const void *a, int nb, const void *b )
  {
    std::string x( ( const char * )a, na ), y( ( const char * )b, nb ), p = timestampOf( x ), q = timestampOf( y );
    return p.empty() || q.empty() ? x.compare( y ) : p.compare( q );
  }
  void fnToChar( sqlite3_context *c, int, sqlite3_value **v )
  {
    if ( sqlite3_value_type( v[0] ) == SQLITE_NULL ) return;
    std::string t = ( const char * )sqlite3_value_text( v[0] ), f = ( const char * )sqlite3_value_text( v[1] ), r;
    auto at = [&]( const char *p, size_t i ) { return f.compare( i, strlen( p ), p ) == 0; };
    for ( size_t i = 0; i < f.size(); )
    {
      if ( at( "YYYY", i ) ) { r += t.substr( 0, 4 ); i += 4; }
      else if ( at( "MM", i ) ) { r += t.substr( 5, 2 ); i += 2; }
      else if ( at( "DD", i ) ) { r += t.substr( 8, 2 ); i += 2; }
      else if ( at( "HH24", i ) ) { r += t.substr( 11, 2 ); i += 4; }
      else if ( at( "HH", i ) ) { int h = atoi( t.substr( 11, 2 ).c_str() ) % 12; char b[8]; snprintf( b, 8, "%02d", h ? h : 12 ); r += b; i += at( "HH12", i ) ? 4 : 2; }
      else if ( at( "MI", i ) ) { r += t.substr( 14, 2 ); i += 2; }
      else if ( at( "SS", i ) ) { r += t.substr( 17, 2 ); i += 2; }
      else if ( at( "US", i ) || at( "MS", i ) )
      {
        std::string d = t.size() > 19 && t[19] == '.' ? t.substr( 20, t.find_first_not_of( "0123456789", 20 ) - 20 ) : "";
        d.resize( 6, '0' );
        r += d.substr( 0, f[i] == 'U' ? 6 : 3 );   // milliseconds are cut off as well
        i += 2;
      }
      else if ( f[i] == '"' ) { size_t e = f.find( '"', i + 1 ); r += f.substr( i + 1, e - i - 1 ); i = e + 1; }
      else r += f[i++];
    }
    sqlite3_result_text( c, r.data(), r.size(), SQLITE_TRANSIENT );
  }
  void fnFloat4( sqlite3_context *c, int, sqlite3_value **v )
  {
    if ( sqlite3_value_type( v[0] ) == SQLITE_NULL ) return;
    sqlite3_result_double( c, ( float )sqlite3_value_double( v[0] ) );
  }
  //! Assignment of a number to a text column: the number as PostgreSQL shows it
  void fnText( sqlite3_context *c, int, sqlite3_value **v )
  {
    if ( sqlite3_value_type( v[0] ) == SQLITE_NULL ) return;
    if ( sqlite3_value_type( v[0] ) == SQLITE_TEXT ) { sqlite3_result_value( c, v[0] ); return; }
    if ( sqlite3_value_type( v[0] ) != SQLITE_FLOAT ) { sqlite3_result_text( c, ( const char * )sqlite3_value_text( v[0] ), -1, SQLITE_TRANSIENT ); return; }
    double d = sqlite3_value_double( v[0] );
    char b[40];
    for ( int p = 1; p <= 17; ++p ) { snprintf( b, sizeof b, "%.*g", p, d ); if ( strtod( b, nullptr ) == d ) break; }
    if ( std::isinf( d ) ) strcpy( b, d < 0 ? "-Infinity" : "Infinity" );
    sqlite3_result_text( c, b, -1, SQLITE_TRANSIENT );
  }
  void fnNum( sqlite3_context *c, int, sqlite3_value **v )
  {
    if ( sqlite3_value_type( v[0] ) == SQLITE_NULL ) return;
    if ( sqlite3_value_type( v[0] ) != SQLITE_TEXT ) { sqlite3_result_double( c, sqlite3_value_double( v[0] ) ); return; }
    const char *s = ( const char * )sqlite3_value_text( v[0] );
    char *e;
    double d = strtod( s, &e );
    if ( e == s || *e ) sqlite3_result_error( c, "invalid input syntax for type double precision", -1 );
    else sqlite3_result_double( c, d );
  }
  void fnInt( sqlite3_context *c, int, sqlite3_value **v )
  {
    if ( sqlite3_value_type( v[0] ) == SQLITE_NULL ) return;
    if ( sqlite3_value_type( v[0] ) == SQLITE_FLOAT ) { sqlite3_result_int64( c, ( sqlite3_int64 )std::nearbyint( sqlite3_value_double( v[0] ) ) ); return; }
    std::string s = ( const char * )sqlite3_value_text( v[0] );
    char *e;
    long long l = strtoll( s.c_str(), &e, 10 );
    if ( s.empty() || *e ) sqlite3_result_error( c, "invalid input syntax for type integer", -1 );
    else sqlite3_result_int64( c, l );
  }
  void fnBool( sqlite3_context *c, int, sqlite3_value **v )
  {
    if ( sqlite3_value_type( v[0] ) == SQLITE_NULL ) return;
    std::string s = lower( ( const char * )sqlite3_value_text( v[0] ) );
    if ( s == "t" || s == "true" || s == "1" || s == "on" || s == "y" || s == "yes" ) sqlite3_result_text( c, "t", 1, SQLITE_STATIC );
    else if ( s == "f" || s == "false" || s == "0" || s == "off" || s == "n" || s == "no" ) sqlite3_result_text( c, "f", 1, SQLITE_STATIC );
    else sqlite3_result_error( c, "invalid input syntax for type boolean", -1 );
  }
  void fnBytea( sqlite3_context *c, int, sqlite3_value **v )
  {
    if ( sqlite3_value_type( v[0] ) == SQLITE_NULL ) return;
    if ( sqlite3_value_type( v[0] ) == SQLITE_BLOB ) { sqlite3_result_value( c, v[0] ); return; }
    if ( sqlite3_value_type( v[0] ) != SQLITE_TEXT ) { sqlite3_result_error( c, "column is of type bytea but expression is of type integer", -1 ); return; }
    std::string w;
    if ( !unbytea( std::string( ( const char * )sqlite3_value_text( v[0] ), sqlite3_value_bytes( v[0] ) ), w ) ) sqlite3_result_error( c, "invalid input syntax for type bytea", -1 );
    else sqlite3_result_blob( c, w.data(), w.size(), SQLITE_TRANSIENT );
  }

  // ---- translation of expressions
  std::string castTo( const std::string &type, const std::string &e )
  {
    if ( type == "real" || type == "float4" ) return "pg_float4(pg_num(" + e + "))";
    if ( type == "double precision" || type == "float8" || type == "numeric" ) return "pg_num(" + e + ")";
    if ( type == "integer" || type == "int" || type == "int4" || type == "bigint" || type == "int8" || type == "smallint" ) return "pg_int(" + e + ")";
    if ( type == "boolean" || type == "bool" ) return "pg_bool(" + e + ")";
    if ( type == "bytea" ) return "pg_bytea(" + e + ")";
    if ( type == "text" || type == "varchar" || type == "character varying" ) return "(" + e + " COLLATE BINARY)";
    if ( type == "citext" ) return "(" + e + " COLLATE NOCASE)";
    if ( type.compare( 0, 9, "timestamp" ) == 0 ) return "(" + e + ")";
    throw Err( "type \"" + type + "\" does not exist" );
  }
  const std::set<std::string> RESERVED = { "all", "and", "any", "as", "asc", "both", "case", "cast", "check", "collate", "column", "constraint", "create", "default", "desc", "distinct", "do", "else", "end", "except", "false", "for", "foreign", "from", "grant", "group", "having", "in", "into", "limit", "not", "null", "offset", "on", "only", "or", "order", "primary", "references", "select", "some", "table", "then", "to", "true", "union", "unique", "user", "using", "when", "where", "with" };
  std::string translate( const Toks &t )
  {
    std::vector<std::string> out;   // pieces
    long prim = -1;                 // piece where the last operand starts
    std::vector<long> paren;
    for ( size_t i = 0; i < t.size(); ++i )
    {
      const Tok &k = t[i];
      bool dotted = i && t[i - 1].k == Tok::Op && t[i - 1].s == ".";
      if ( k.k == Tok::Ident ) { if ( !dotted ) prim = out.size(); out.push_back( qi( encName( k.s ) ) ); }
      else if ( k.k == Tok::Str ) { prim = out.size(); out.push_back( qs( k.s ) ); }
      else if ( k.k == Tok::Num ) { prim = out.size(); out.push_back( k.s ); }
      else if ( k.k == Tok::Word )
      {
        bool call = i + 1 < t.size() && t[i + 1].k == Tok::Op && t[i + 1].s == "(";
        // a name after a dot or a plain word that is not followed by '(': keep; PostgreSQL's reserved words may not be table names
        if ( dotted && RESERVED.count( k.s ) ) { /* reserved words are allowed after a dot */ out.push_back( qi( k.s ) ); continue; }
        if ( k.s == "true" || k.s == "false" )
        {
          size_t j = i;
          while ( j && t[j - 1].s == "(" ) --j;
          if ( j && t[j - 1].k == Tok::Word && ( t[j - 1].s == "and" || t[j - 1].s == "or" || t[j - 1].s == "where" || t[j - 1].s == "not" || t[j - 1].s == "on" ) ) { prim = out.size(); out.push_back( k.s == "true" ? "1" : "0" ); continue; }
        }
        if ( k.s == "true" ) { prim = out.size(); out.push_back( "'t'" ); continue; }
        if ( k.s == "false" ) { prim = out.size(); out.push_back( "'f'" ); continue; }
        if ( !dotted && !RESERVED.count( k.s ) ) prim = out.size();
        if ( dotted || ( !call && !RESERVED.count( k.s ) && k.s != "is" && k.s != "insert" && k.s != "update" && k.s != "delete" && k.s != "set" && k.s != "values" && k.s != "exists" && k.s != "join" && k.s != "left" && k.s != "inner" && k.s != "full" && k.s != "outer" && k.s != "cross" && k.s != "natural" && k.s != "by" && k.s != "returning" && k.s != "like" && k.s != "between" && k.s != "intersect" && k.s != "escape" && k.s != "exists" && k.s != "cast" ) )
          out.push_back( qi( k.s ) );
        else out.push_back( k.s );
      }
      else if ( k.s == "(" ) { paren.push_back( ( out.size() && i && ( t[i - 1].k == Tok::Word ) && !RESERVED.count( t[i - 1].s ) ) ? ( long )out.size() - 1 : ( long )out.size() ); out.push_back( "(" ); prim = -1; }
      else if ( k.s == ")" ) { out.push_back( ")" ); if ( paren.empty() ) throw Err( "syntax error at or near \")\"" ); prim = paren.back(); paren.pop_back(); }
      else if ( k.s == "::" )
      {
        if ( prim < 0 ) throw Err( "syntax error at or near \"::\"" );
        std::string type;
        if ( i + 1 >= t.size() ) throw Err( "syntax error" );
        type = t[++i].s;
        if ( type == "double" && i + 1 < t.size() && t[i + 1].s == "precision" ) { type = "double precision"; ++i; }
        if ( type == "character" && i + 1 < t.size() && t[i + 1].s == "varying" ) { type = "varchar"; ++i; }
        if ( type == "timestamp" ) while ( i + 1 < t.size() && ( t[i + 1].s == "without" || t[i + 1].s == "time" || t[i + 1].s == "zone" ) ) ++i;
        std::string e;
        for ( size_t j = prim; j < out.size(); ++j ) e += ( j > ( size_t )prim ? " " : "" ) + out[j];
        out.resize( prim );
        out.push_back( castTo( type, e ) );
      }
      else { out.push_back( k.s ); if ( k.s != "." ) prim = -1; }
    }
    std::string r;
    for ( auto &p : out ) r += p + " ";
    return r;
  }

  // ---- statements
  struct Cur
  {
    const Toks &t;
    size_t i = 0;
    const Tok &peek( size_t n = 0 ) const { static const Tok end{ Tok::End, "" }; return i + n < t.size() ? t[i + n] : end; }
    bool is( const char *w, size_t n = 0 ) const { return ( peek( n ).k == Tok::Word || peek( n ).k == Tok::Op ) && peek( n ).s == w; }
    bool eat( const char *w ) { if ( !is( w ) ) return false; ++i; return true; }
    void need( const char *w ) { if ( !eat( w ) ) throw Err( "syntax error at or near \"" + peek().s + "\"" ); }
    std::string name()
    {
      if ( peek().k == Tok::Ident ) return t[i++].s;
      if ( peek().k == Tok::Word && !RESERVED.count( peek().s ) ) return t[i++].s;
      throw Err( "syntax error at or near \"" + peek().s + "\"" );
    }
  };
  bool hasSchema( const std::string &s ) { return !rows( "SELECT 1 FROM main.pg_namespace WHERE nspname=" + qs( s ) ).empty(); }
  void dropSchema( const std::string &s )
  {
    sq( "DETACH " + qi( encName( s ) ) );
    for ( const char *q : { "pg_namespace WHERE nspname=", "pg_tables WHERE schemaname=", "fk_columns WHERE schema=", "fk_index WHERE schema=", "geometry_columns WHERE f_table_schema=" } ) sq( std::string( "DELETE FROM main." ) + q + qs( s ) );
    for ( auto it = gSeq.begin(); it != gSeq.end(); ) it = it->first.compare( 0, s.size() + 1, s + "." ) == 0 ? gSeq.erase( it ) : ++it;
  }
  void createTable( Cur &c )
  {
    bool ine = false;
    if ( c.eat( "if" ) ) { c.need( "not" ); c.need( "exists" ); ine = true; }
    std::string schema = c.name();
    c.need( "." );
    std::string tbl = c.name();
    if ( !hasSchema( schema ) ) throw Err( "schema \"" + schema + "\" does not exist" );
    if ( !rows( "SELECT 1 FROM main.pg_tables WHERE schemaname=" + qs( schema ) + " AND tablename=" + qs( tbl ) ).empty() )
    {
      if ( ine ) return;
      throw Err( "relation \"" + tbl + "\" already exists" );
    }
    c.need( "(" );
    struct Col { std::string name, type, base, gt; int srid = 0; bool nn = false, serial = false; };
    std::vector<Col> cols;
    std::vector<std::string> pk;
    std::vector<std::vector<std::string>> uniq;
    std::string extra;
    while ( true )
    {
      if ( c.is( "primary" ) || c.is( "unique" ) )
      {
        bool p = c.eat( "primary" );
        if ( p ) c.need( "key" );
        else c.need( "unique" );
        c.need( "(" );
        std::vector<std::string> l;
        do l.push_back( c.name() ); while ( c.eat( "," ) );
        c.need( ")" );
        for ( auto &n : l ) if ( std::none_of( cols.begin(), cols.end(), [&]( const Col & x ) { return x.name == n; } ) ) throw Err( "column \"" + n + "\" named in key does not exist" );
        if ( p ) { if ( !pk.empty() ) throw Err( "multiple primary keys" ); pk = l; }
        else uniq.push_back( l );
      }
      else
      {
        Col x;
        x.name = c.name();
        for ( auto &o : cols ) if ( o.name == x.name ) throw Err( "column \"" + x.name + "\" specified more than once" );
        std::string ty = c.peek().k == Tok::Word ? c.t[c.i++].s : throw Err( "syntax error at or near \"" + c.peek().s + "\"" );
        if ( ty == "serial" ) { x.serial = x.nn = true; x.type = x.base = "integer"; }
        else if ( ty == "integer" || ty == "int" || ty == "int4" ) x.type = x.base = "integer";
        else if ( ty == "bigint" || ty == "smallint" ) x.type = x.base = ty;
        else if ( ty == "double" ) { c.need( "precision" ); x.type = x.base = "double precision"; }
        else if ( ty == "real" ) x.type = x.base = "real";
        else if ( ty == "boolean" || ty == "bool" ) x.type = x.base = "boolean";
        else if ( ty == "text" || ty == "citext" || ty == "bytea" ) x.type = x.base = ty;
        else if ( ty == "varchar" ) { x.base = "text"; x.type = "character varying"; if ( c.eat( "(" ) ) { x.type += "(" + c.peek().s + ")"; ++c.i; c.need( ")" ); } }
        else if ( ty == "timestamp" ) { x.type = x.base = "timestamp without time zone"; if ( c.eat( "without" ) ) { c.need( "time" ); c.need( "zone" ); } }
        else if ( ty == "geometry" )
        {
          x.type = x.base = "geometry";
          x.gt = "GEOMETRY";
          if ( c.eat( "(" ) )
          {
            std::string g = c.peek().k == Tok::Word ? c.t[c.i++].s : throw Err( "syntax error" );
            static const std::map<std::string, std::string> NAMES = { { "point", "Point" }, { "linestring", "LineString" }, { "polygon", "Polygon" }, { "pointz", "PointZ" }, { "linestringz", "LineStringZ" }, { "polygonz", "PolygonZ" }, { "pointm", "PointM" }, { "multipoint", "MultiPoint" }, { "multilinestring", "MultiLineString" }, { "multipolygon", "MultiPolygon" }, { "geometrycollection", "GeometryCollection" }, { "geometry", "Geometry" }, { "pointzm", "PointZM" }, { "linestringm", "LineStringM" }, { "linestringzm", "LineStringZM" }, { "polygonm", "PolygonM" }, { "polygonzm", "PolygonZM" } };
            if ( !NAMES.count( g ) ) throw Err( "Invalid geometry type modifier: " + g );
            bool neg = false;
            if ( c.eat( "," ) ) { neg = c.eat( "-" ); x.srid = atoi( c.peek().s.c_str() ) * ( neg ? -1 : 1 ); ++c.i; }
            if ( x.srid < 0 ) x.srid = 0;
            c.need( ")" );
            if ( x.srid && rows( "SELECT 1 FROM main.spatial_ref_sys WHERE srid=" + std::to_string( x.srid ) ).empty() ) { /* PostGIS only warns */ }
            x.type = "geometry(" + NAMES.at( g ) + ( x.srid ? "," + std::to_string( x.srid ) : "" ) + ")";
            for ( char &h : g ) h = toupper( h );
            x.gt = g;
          }
        }
        else throw Err( "type \"" + ty + "\" does not exist" );
        while ( !c.is( "," ) && !c.is( ")" ) )
        {
          if ( c.eat( "not" ) ) { c.need( "null" ); x.nn = true; }
          else if ( c.eat( "null" ) ) {}
          else if ( c.eat( "primary" ) ) { c.need( "key" ); if ( !pk.empty() ) throw Err( "multiple primary keys" ); pk = { x.name }; }
          else if ( c.eat( "unique" ) ) uniq.push_back( { x.name } );
          else throw Err( "syntax error at or near \"" + c.peek().s + "\"" );
        }
        cols.push_back( x );
      }
      if ( c.eat( "," ) ) continue;
      c.need( ")" );
      break;
    }
    for ( auto &x : cols ) if ( std::count( pk.begin(), pk.end(), x.name ) ) x.nn = true;
    auto E = []( const std::string & s ) { return qi( encName( s ) ); };
    std::string sql = "CREATE TABLE " + E( schema ) + "." + E( tbl ) + "(", fix;
    std::vector<std::string> texts;
    for ( size_t i = 0; i < cols.size(); ++i )
    {
      const Col &x = cols[i];
      std::string n = E( x.name );
      sql += ( i ? "," : "" ) + n;
      if ( x.base == "integer" ) sql += " INT CHECK(" + n + " BETWEEN -2147483648 AND 2147483647)";
      else if ( x.base == "smallint" ) sql += " INT CHECK(" + n + " BETWEEN -32768 AND 32767)";
      else if ( x.base == "bigint" ) sql += " INT";
      else if ( x.base == "double precision" ) sql += " REAL";
      else if ( x.base == "real" ) { sql += " REAL"; fix += ( fix.empty() ? "" : "," ) + n + "=pg_float4(" + n + ")"; }
      else if ( x.base == "boolean" ) sql += " TEXT CHECK(" + n + " IN ('t','f'))";
      else if ( x.base == "text" ) { sql += " ANY"; texts.push_back( n ); }
      else if ( x.base == "citext" ) sql += " TEXT COLLATE NOCASE";
      else if ( x.base == "bytea" ) { sql += " ANY"; fix += ( fix.empty() ? "" : "," ) + n + "=pg_bytea(" + n + ")"; }
      else if ( x.base == "timestamp without time zone" ) { sql += " TEXT COLLATE PGTS"; fix += ( fix.empty() ? "" : "," ) + n + "=pg_ts(" + n + ")"; }
      else
      {
        sql += " BLOB CHECK((st_srid(" + n + ")=" + std::to_string( x.srid ) + " OR " + std::to_string( x.srid ) + "=0)";
        static const std::map<std::string, int> CODE = { { "POINT", 1 }, { "LINESTRING", 2 }, { "POLYGON", 3 }, { "MULTIPOINT", 4 }, { "MULTILINESTRING", 5 }, { "MULTIPOLYGON", 6 }, { "GEOMETRYCOLLECTION", 7 }, { "POINTZ", 1001 }, { "LINESTRINGZ", 1002 }, { "POLYGONZ", 1003 }, { "POINTM", 2001 }, { "LINESTRINGM", 2002 }, { "POLYGONM", 2003 }, { "POINTZM", 3001 }, { "LINESTRINGZM", 3002 }, { "POLYGONZM", 3003 } };
        if ( CODE.count( x.gt ) ) sql += " AND pg_geomtype(" + n + ")=" + std::to_string( CODE.at( x.gt ) );
        sql += ")";
      }
      if ( x.nn ) sql += " NOT NULL";
    }
    auto list = [&]( const std::vector<std::string> &l ) { std::string r; for ( auto &n : l ) r += ( r.empty() ? "" : "," ) + E( n ); return r; };
    if ( !pk.empty() ) sql += ", PRIMARY KEY(" + list( pk ) + ")";
    for ( auto &u : uniq ) sql += ", UNIQUE(" + list( u ) + ")";
    sq( sql + ") STRICT" );
    // numbers assigned to text columns
    std::string conv, num;
    for ( auto &n : texts )
    {
      conv += ( conv.empty() ? "" : "," ) + n + "=pg_text(" + n + ")";
      num += ( num.empty() ? " WHEN " : " OR " ) + ( "typeof(NEW." + n ) + ") IN ('real','integer')";
    }
    for ( const char *op : { "INSERT", "UPDATE" } )
      if ( !texts.empty() )
        sq( "CREATE TRIGGER " + E( schema ) + "." + E( tbl + "~t" + op ) + " AFTER " + op + " ON " + E( tbl ) + ( texts.size() > 100 ? "" : num ) + " BEGIN UPDATE " + E( tbl ) + " SET " + conv + " WHERE rowid=NEW.rowid; END" );
    if ( !fix.empty() )
    {
      sq( "CREATE TRIGGER " + E( schema ) + "." + E( tbl + "~i" ) + " AFTER INSERT ON " + E( tbl ) + " BEGIN UPDATE " + E( tbl ) + " SET " + fix + " WHERE rowid=NEW.rowid; END" );
      sq( "CREATE TRIGGER " + E( schema ) + "." + E( tbl + "~u" ) + " AFTER UPDATE ON " + E( tbl ) + " BEGIN UPDATE " + E( tbl ) + " SET " + fix + " WHERE rowid=NEW.rowid; END" );
    }
    sq( "INSERT INTO main.pg_tables VALUES(" + qs( schema ) + "," + qs( tbl ) + ")" );
    int pos = 0, idx = 0;
    for ( auto &x : cols )
    {
      sq( "INSERT INTO main.fk_columns VALUES(" + qs( schema ) + "," + qs( tbl ) + "," + std::to_string( ++pos ) + "," + qs( x.name ) + "," + qs( x.type ) + "," + std::to_string( x.nn ) + "," + std::to_string( x.serial ) + ")" );
      if ( x.base == "geometry" )
      {
        // the view shows Z by a separate column, M by the name
        std::string gt = x.gt;
        int dim = 2;
        if ( gt.size() > 2 && gt.compare( gt.size() - 2, 2, "ZM" ) == 0 ) { gt.resize( gt.size() - 2 ); dim = 4; }
        else if ( gt.back() == 'Z' ) { gt.pop_back(); dim = 3; }
        else if ( gt.back() == 'M' ) dim = 3;
        sq( "INSERT INTO main.geometry_columns VALUES(" + qs( schema ) + "," + qs( tbl ) + "," + qs( x.name ) + "," + qs( gt ) + "," + std::to_string( x.srid ) + "," + std::to_string( dim ) + ")" );
      }
      if ( x.serial ) gSeq[schema + "." + tbl + "_" + x.name + "_seq"] = Seq();
    }
    ++idx;
    for ( auto &n : pk ) sq( "INSERT INTO main.fk_index VALUES(" + qs( schema ) + "," + qs( tbl ) + ",0," + qs( n ) + ",1)" );
    for ( auto &u : uniq ) { for ( auto &n : u ) sq( "INSERT INTO main.fk_index VALUES(" + qs( schema ) + "," + qs( tbl ) + "," + std::to_string( idx ) + "," + qs( n ) + ",0)" ); ++idx; }
  }
  //! name.name with PostgreSQL's quoting rules
  std::vector<std::string> splitName( const std::string &s )
  {
    std::vector<std::string> r;
    for ( auto &k : tokenize( s ) ) if ( k.k == Tok::Word || k.k == Tok::Ident ) r.push_back( k.s );
    return r;
  }
  std::string seqKey( const Toks &t, size_t &i )
  {
    std::string r;
    while ( i < t.size() && ( t[i].k == Tok::Word || t[i].k == Tok::Ident || t[i].s == "." ) )
    {
      r += t[i].s;
      ++i;
    }
    return r;
  }
  std::string quoteIfNeeded( const std::string &s )
  {
    bool plain = !s.empty() && ( islower( ( unsigned char )s[0] ) || s[0] == '_' );
    for ( char c : s ) plain = plain && ( islower( ( unsigned char )c ) || isdigit( ( unsigned char )c ) || c == '_' );
    return plain && !RESERVED.count( s ) ? s : qi( s );
  }
  std::string literalAfter( const Toks &t, const std::string &name )
  {
    for ( size_t i = 0; i + 2 < t.size(); ++i )
      if ( t[i].k == Tok::Word && t[i].s == name && t[i + 1].s == "=" && t[i + 2].k == Tok::Str ) return t[i + 2].s;
    throw Err( "fake server: cannot make out " + name );
  }
  void run( pg_conn *conn, const Toks &t, pg_result &res )
  {
    Cur c{ t };
    auto owner = [&]() { return conn->depth > 0; };
    if ( c.is( "begin" ) || c.is( "start" ) )
    {
      if ( conn->tx ) return;   // a warning only
      conn->snapshot = conn->readOnly = conn->taken = false;
      for ( size_t i = 0; i + 1 < t.size(); ++i )
      {
        conn->snapshot |= t[i].s == "repeatable" || t[i].s == "serializable";
        conn->readOnly |= t[i].s == "read" && t[i + 1].s == "only";
      }
      // a second connection's transaction nests in the first one's
      if ( conn->readOnly ) conn->depth = 0;
      else if ( gTxOwner ) { sq( "SAVEPOINT second" ); conn->depth = 2; }
      else { sq( "BEGIN" ); conn->depth = 1; gTxOwner = conn; }
      conn->tx = true;
      conn->aborted = false;
      return;
    }
    if ( c.is( "commit" ) || c.is( "end" ) || c.is( "rollback" ) || c.is( "abort" ) )
    {
      if ( !conn->tx ) return;
      bool commit = ( c.is( "commit" ) || c.is( "end" ) ) && !conn->aborted;
      conn->snapshot = conn->readOnly = false;
      if ( conn->depth == 0 ) {}
      else if ( conn->depth == 2 ) { if ( !commit ) sq( "ROLLBACK TO second" ); sq( "RELEASE second" ); }
      else { sq( commit ? "COMMIT" : "ROLLBACK" ); gTxOwner = nullptr; }
      conn->tx = conn->aborted = false;
      conn->depth = 0;
      return;
    }
    ( void )owner;
    if ( conn->aborted ) throw Err( "current transaction is aborted, commands ignored until end of transaction block" );
    conn->taken = true;
    if ( conn->readOnly && ( c.is( "create" ) || c.is( "drop" ) || c.is( "insert" ) || c.is( "update" ) || c.is( "delete" ) ) ) throw Err( "cannot execute statement in a read-only transaction" );
    if ( c.eat( "set" ) || c.eat( "lock" ) || c.eat( "analyze" ) ) return;
    if ( c.is( "create" ) && c.is( "schema", 1 ) )
    {
      c.i = 2;
      if ( c.eat( "if" ) ) { c.need( "not" ); c.need( "exists" ); if ( hasSchema( c.peek().s ) ) return; }
      std::string s = c.name();
      if ( hasSchema( s ) ) throw Err( "schema \"" + s + "\" already exists" );
      sq( "ATTACH ':memory:' AS " + qi( encName( s ) ) );
      sq( "INSERT INTO main.pg_namespace VALUES(" + qs( s ) + ")" );
      return;
    }
    if ( c.is( "drop" ) && c.is( "schema", 1 ) )
    {
      c.i = 2;
      bool ie = false;
      if ( c.eat( "if" ) ) { c.need( "exists" ); ie = true; }
      std::string s = c.name();
      if ( !hasSchema( s ) ) { if ( ie ) return; throw Err( "schema \"" + s + "\" does not exist" ); }
      bool cascade = c.eat( "cascade" );
      if ( !cascade && !rows( "SELECT 1 FROM main.pg_tables WHERE schemaname=" + qs( s ) ).empty() ) throw Err( "cannot drop schema because other objects depend on it" );
      dropSchema( s );
      return;
    }
    if ( c.is( "create" ) && c.is( "table", 1 ) ) { c.i = 2; createTable( c ); return; }
    if ( c.is( "create" ) && ( c.is( "index", 1 ) || c.is( "unique", 1 ) ) )
    {
      // CREATE [UNIQUE] INDEX name ON schema.table (cols)
      c.i = 1;
      bool u = c.eat( "unique" );
      c.need( "index" );
      std::string in = c.name();
      c.need( "on" );
      std::string s = c.name();
      c.need( "." );
      std::string tb = c.name();
      c.need( "(" );
      auto n = rows( "SELECT count(*) FROM main.fk_index WHERE schema=" + qs( s ) + " AND tbl=" + qs( tb ) );
      std::string l;
      do { std::string col = c.name(); l += ( l.empty() ? "" : "," ) + qi( encName( col ) ); sq( "INSERT INTO main.fk_index VALUES(" + qs( s ) + "," + qs( tb ) + "," + std::to_string( 100 + atoi( n[0][0].v.c_str() ) ) + "," + qs( col ) + ",0)" ); }
      while ( c.eat( "," ) );
      if ( u ) sq( "CREATE UNIQUE INDEX " + qi( encName( s ) ) + "." + qi( encName( in ) ) + " ON " + qi( encName( tb ) ) + "(" + l + ")" );
      return;
    }
    if ( c.is( "drop" ) && c.is( "table", 1 ) )
    {
      c.i = 2;
      std::string s = c.name();
      c.need( "." );
      std::string tb = c.name();
      sq( "DROP TABLE " + qi( encName( s ) ) + "." + qi( encName( tb ) ) );
      for ( const char *q : { "pg_tables WHERE schemaname=%s AND tablename=", "fk_columns WHERE schema=%s AND tbl=", "fk_index WHERE schema=%s AND tbl=", "geometry_columns WHERE f_table_schema=%s AND f_table_name=" } )
      {
        std::string w = q;
        w.replace( w.find( "%s" ), 2, qs( s ) );
        sq( "DELETE FROM main." + w + qs( tb ) );
      }
      return;
    }
    bool select = c.is( "select" ) || c.is( "with" );
    auto mentions = [&]( const char *w ) { for ( auto &k : t ) if ( k.k == Tok::Word && k.s == w ) return true; return false; };
    if ( select && mentions( "pg_attribute" ) )
    {
      // the query for the columns of a table; one row per column and index it is part of, unless only primary ones are asked for
      bool onlyPrimary = false, inJoin = false;
      for ( size_t i = 0; i < t.size(); ++i )
      {
        if ( t[i].s == "pg_index" ) inJoin = true;
        if ( t[i].s == "where" && inJoin ) break;
        if ( inJoin && t[i].s == "indisprimary" ) onlyPrimary = true;
      }
      std::string s = qs( literalAfter( t, "nspname" ) ), tb = qs( literalAfter( t, "relname" ) );
      res.rows = rows( "SELECT c.name, c.type, CASE i.prim WHEN 1 THEN 't' WHEN 0 THEN 'f' END, CASE c.nn WHEN 1 THEN 't' ELSE 'f' END, CASE c.serial WHEN 1 THEN 't' ELSE 'f' END "
                       "FROM main.fk_columns c LEFT JOIN main.fk_index i ON i.schema=c.schema AND i.tbl=c.tbl AND i.col=c.name" + std::string( onlyPrimary ? " AND i.prim" : "" ) +
                       " WHERE c.schema=" + s + " AND c.tbl=" + tb + " ORDER BY c.pos, i.idx" );
      if ( !res.rows.empty() )
      {
        // each table had one column more once; it and the system columns are in the catalog too
        bool positive = false, ordered = false;
        for ( size_t i = 0; i < t.size(); ++i )
        {
          positive |= t[i].s == "attnum" && i + 2 < t.size() && ( ( t[i + 1].s == ">" && t[i + 2].s == "0" ) || ( t[i + 1].s == ">=" && t[i + 2].s == "1" ) );
          ordered |= t[i].s == "order";
        }
        auto cell = []( const char *v ) { Cell c; c.null = !v; c.v = v ? v : ""; return c; };
        if ( !mentions( "attisdropped" ) ) res.rows.push_back( { cell( "........pg.dropped.9........" ), cell( "-" ), cell( nullptr ), cell( "f" ), cell( "f" ) } );
        if ( !positive ) res.rows.insert( res.rows.begin(), { cell( "ctid" ), cell( "tid" ), cell( nullptr ), cell( "t" ), cell( "f" ) } );
        if ( !ordered ) std::reverse( res.rows.begin(), res.rows.end() ); // any order will do
      }
      res.st = PGRES_TUPLES_OK;
      return;
    }
    if ( select && mentions( "pg_get_serial_sequence" ) )
    {
      std::vector<std::string> lit;
      for ( auto &k : t ) if ( k.k == Tok::Str ) lit.push_back( k.s );
      if ( lit.size() != 2 ) throw Err( "fake server: pg_get_serial_sequence" );
      auto n = splitName( lit[0] );
      if ( n.size() != 2 || rows( "SELECT 1 FROM main.pg_tables WHERE schemaname=" + qs( n[0] ) + " AND tablename=" + qs( n[1] ) ).empty() ) throw Err( "relation " + lit[0] + " does not exist" );
      std::string q = n[1] + "_" + lit[1] + "_seq";
      Cell v;
      if ( gSeq.count( n[0] + "." + q ) ) { v.null = false; v.v = quoteIfNeeded( n[0] ) + "." + quoteIfNeeded( q ); }
      res.rows = { { v } };
      res.st = PGRES_TUPLES_OK;
      return;
    }
    if ( select && ( mentions( "setval" ) || mentions( "nextval" ) || mentions( "currval" ) ) )
    {
      Cell v;
      v.null = false;
      size_t i = 0;
      while ( i < t.size() && t[i].k != Tok::Str ) ++i;
      if ( i == t.size() ) throw Err( "fake server: sequence" );
      auto n = splitName( t[i].s );
      std::string key = n.size() == 2 ? n[0] + "." + n[1] : t[i].s;
      if ( !gSeq.count( key ) ) throw Err( "relation \"" + t[i].s + "\" does not exist" );
      Seq &q = gSeq[key];
      if ( mentions( "setval" ) )
      {
        ++i;
        bool neg = false;
        while ( i < t.size() && t[i].k != Tok::Num ) { neg |= t[i].s == "-"; ++i; }
        if ( i == t.size() ) throw Err( "fake server: setval" );
        long long x = ( neg ? -1 : 1 ) * atoll( t[i].s.c_str() );
        if ( x < 1 || x > 2147483647 ) throw Err( "setval: value out of bounds for sequence" );
        q.last = x;
        q.called = true;
        for ( ; i < t.size(); ++i ) if ( t[i].s == "false" ) q.called = false;
        v.v = std::to_string( x );
      }
      else { if ( q.called ) ++q.last; q.called = true; v.v = std::to_string( q.last ); }
      res.rows = { { v } };
      res.st = PGRES_TUPLES_OK;
      return;
    }
    if ( select && ( mentions( "last_value" ) || mentions( "is_called" ) ) )
    {
      size_t i = 0;
      std::vector<std::string> what;
      while ( i < t.size() && t[i].s != "from" ) { if ( t[i].s == "last_value" || t[i].s == "is_called" ) what.push_back( t[i].s ); ++i; }
      std::string key = seqKey( t, ++i );
      if ( !gSeq.count( key ) ) throw Err( "relation \"" + key + "\" does not exist" );
      Row w;
      for ( auto &x : what ) { Cell v; v.null = false; v.v = x == "is_called" ? ( gSeq[key].called ? "t" : "f" ) : std::to_string( gSeq[key].last ); w.push_back( v ); }
      res.rows = { w };
      res.st = PGRES_TUPLES_OK;
      return;
    }
    std::string sql = translate( t );
    bool q = false;
    res.rows = rows( sql, &q );
    if ( q ) { res.st = PGRES_TUPLES_OK; res.tuples = std::to_string( res.rows.size() ); }
    else res.tuples = std::to_string( sqlite3_changes( gDb ) );
  }
  pg_result *exec( pg_conn *conn, const char *sql )
  {
    Posix posix;
    pg_result *r = new pg_result;
    ++gResults;
    std::string s = sql ? sql : "";
    gLog.push_back( s );
    bool implicit = false;
    try
    {
      if ( !utf8ok( s ) ) throw Err( "invalid byte sequence for encoding \"UTF8\"" );
      Toks t = tokenize( s ), part;
      std::vector<Toks> stmts;
      for ( auto &k : t )
        if ( k.k == Tok::Op && k.s == ";" ) { if ( !part.empty() ) stmts.push_back( part ); part.clear(); }
        else part.push_back( k );
      if ( !part.empty() ) stmts.push_back( part );
      if ( stmts.empty() ) r->st = PGRES_EMPTY_QUERY;
      bool schemaStmt = false;
      for ( auto &st : stmts ) for ( auto &k : st ) if ( k.s == "schema" ) schemaStmt = true;
      // several statements in one string are one transaction
      if ( stmts.size() > 1 && !conn->tx && !gTxOwner && !schemaStmt ) { sq( "BEGIN" ); implicit = true; }
      for ( auto &st : stmts )
      {
        r->rows.clear();
        r->tuples.clear();
        r->st = PGRES_COMMAND_OK;
        run( conn, st, *r );
      }
      if ( implicit ) sq( "COMMIT" );
    }
    catch ( Err &e )
    {
      if ( implicit ) sqlite3_exec( gDb, "ROLLBACK", nullptr, nullptr, nullptr );
      r->rows.clear();
      r->tuples.clear();
      r->st = PGRES_FATAL_ERROR;
      r->err = std::string( "ERROR:  " ) + e.what();
      if ( conn->tx ) conn->aborted = true;
    }
    return r;
  }
  void dropTx( pg_conn *c )
  {
    if ( !c->tx || !gDb ) return;
    c->snapshot = c->readOnly = false;
    if ( c->depth == 0 ) {}
    else if ( c->depth == 2 ) { sqlite3_exec( gDb, "ROLLBACK TO second; RELEASE second", nullptr, nullptr, nullptr ); }
    else { sqlite3_exec( gDb, "ROLLBACK", nullptr, nullptr, nullptr ); gTxOwner = nullptr; }
    c->tx = false;
    c->depth = 0;
  }
}

namespace fakepq
{
  void stop()
  {
    if ( gDb ) sqlite3_close( gDb );
    gDb = nullptr;
    gStarted = false;
    gTxOwner = nullptr;
    gSeq.clear();
  }
  void start()
  {
    stop();
    gLog.clear();
    gCalls = 0; gFailCall = gEditCall = -1; gFailHow = 0; gEditPending = false;
    if ( sqlite3_open_v2( ":memory:", &gDb, SQLITE_OPEN_READWRITE | SQLITE_OPEN_CREATE, nullptr ) != SQLITE_OK ) abort();
    sqlite3_db_config( gDb, SQLITE_DBCONFIG_DQS_DML, 0, nullptr );
    sqlite3_db_config( gDb, SQLITE_DBCONFIG_DQS_DDL, 0, nullptr );
    sqlite3_limit( gDb, SQLITE_LIMIT_ATTACHED, 10 );
    struct F { const char *n; int a; void ( *f )( sqlite3_context *, int, sqlite3_value ** ); };
    for ( auto &f : std::vector<F> { { "st_asbinary", 1, fnAsBinary }, { "st_geomfromwkb", 2, fnFromWkb }, { "st_geomfromwkb", 1, fnFromWkb }, { "st_srid", 1, fnSrid }, { "pg_geomtype", 1, fnGeomType },
  { "to_char", 2, fnToChar }, { "pg_float4", 1, fnFloat4 }, { "pg_num", 1, fnNum }, { "pg_text", 1, fnText }, { "pg_int", 1, fnInt }, { "pg_bool", 1, fnBool }, { "pg_bytea", 1, fnBytea }, { "pg_ts", 1, fnTs } } )
      sqlite3_create_function( gDb, f.n, f.a, SQLITE_UTF8 | SQLITE_DETERMINISTIC | SQLITE_INNOCUOUS, nullptr, f.f, nullptr, nullptr );
    sqlite3_create_collation( gDb, "PGTS", SQLITE_UTF8, nullptr, collTs );
    sq( "PRAGMA automatic_index=off; CREATE TABLE pg_namespace(nspname); CREATE TABLE pg_tables(schemaname, tablename);"
        "CREATE TABLE geometry_columns(f_table_schema, f_table_name, f_geometry_column, type, srid, coord_dimension);"
        "CREATE TABLE spatial_ref_sys(srid INTEGER PRIMARY KEY, auth_name, auth_srid, srtext);"
        "INSERT INTO spatial_ref_sys VALUES(4326,'EPSG',4326,'GEOGCS[\"WGS 84\"]'),(3857,'EPSG',3857,'PROJCS[\"it''s\"]'),(102100,'ESRI',53004,'PROJCS[\"x\"]');"
        "CREATE TABLE fk_columns(schema, tbl, pos, name, type, nn, serial); CREATE TABLE fk_index(schema, tbl, idx, col, prim);" );
    gStarted = true;
  }
  static pg_conn &admin() { static pg_conn c; return c; }
  std::string exec( const std::string &sql )
  {
    size_t keep = gLog.size();
    pg_result *r = ::exec( &admin(), sql.c_str() );
    gLog.resize( keep );
    std::string e = r->st == PGRES_FATAL_ERROR ? ( r->err.empty() ? "?" : r->err ) : "";
    delete r;
    --gResults;
    return e;
  }
  std::vector<Row> query( const std::string &sql )
  {
    size_t keep = gLog.size();
    pg_result *r = ::exec( &admin(), sql.c_str() );
    gLog.resize( keep );
    auto w = r->rows;
    if ( r->st == PGRES_FATAL_ERROR ) { fprintf( stderr, "fakepq: %s: %s\n", sql.c_str(), r->err.c_str() ); abort(); }
    delete r;
    --gResults;
    return w;
  }
  std::vector<std::string> tables( const std::string &schema )
  {
    std::vector<std::string> r;
    for ( auto &w : rows( "SELECT tablename FROM main.pg_tables WHERE schemaname=" + qs( schema ) ) ) r.push_back( w[0].v );
    return r;
  }
  std::vector<Column> columns( const std::string &schema, const std::string &table )
  {
    std::vector<Column> r;
    std::string w = " WHERE schema=" + qs( schema ) + " AND tbl=" + qs( table );
    for ( auto &c : rows( "SELECT name, type, nn, serial, name IN (SELECT col FROM main.fk_index" + w + " AND prim) FROM main.fk_columns" + w + " ORDER BY pos" ) )
      r.push_back( { c[0].v, c[1].v, c[2].v == "1", c[3].v == "1", c[4].v == "1" } );
    return r;
  }
  long long nextval( const std::string &s ) { auto it = gSeq.find( s ); return it == gSeq.end() ? -1 : it->second.last + it->second.called; }
  void failAt( long call, int how ) { gFailCall = call; gFailHow = how; gCalls = 0; }
  void editAt( long call, const std::string &sql ) { gEditCall = call; gEdit = sql; gEditPending = false; gCalls = 0; }
  long calls() { return gCalls; }
  int openResults() { return gResults; }
  int openConnections() { return gConns; }
  bool inTransaction() { return gTxOwner != nullptr; }
  const std::vector<std::string> &log() { return gLog; }
  void clearLog() { gLog.clear(); gCalls = 0; }
}

extern "C"
{
  PGconn *PQconnectdb( const char *info )
  {
    pg_conn *c = new pg_conn;
    ++gConns;
    bool fail = gStarted && gCalls++ == gFailCall;
    if ( !gStarted || fail || !info || strstr( info, "host=nowhere" ) ) { c->ok = false; c->err = "could not connect to server: Connection refused"; }
    return c;
  }
  PGresult *PQexec( PGconn *c, const char *sql )
  {
    if ( !c || !c->ok ) return nullptr;
    // somebody else's commit: a transaction that keeps its view of the data does not see it
    if ( gCalls == gEditCall ) gEditPending = true;
    if ( gEditPending && !( c->tx && c->snapshot && c->taken ) )
    {
      gEditPending = false;
      std::string e = fakepq::exec( gEdit );
      if ( !e.empty() ) { fprintf( stderr, "fakepq: %s: %s\n", gEdit.c_str(), e.c_str() ); abort(); }
    }
    if ( gCalls++ == gFailCall )
    {
      if ( gFailHow == 2 ) { dropTx( c ); return nullptr; }
      if ( gFailHow >= 3 ) { dropTx( c ); c->ok = false; c->err = "server closed the connection unexpectedly"; return nullptr; }
      pg_result *r = new pg_result;
      ++gResults;
      r->st = PGRES_FATAL_ERROR;
      r->err = "ERROR:  canceling statement due to conflict with recovery";
      // a failing statement ends or aborts the transaction; a failing commit has rolled back
      std::string s = sql ? sql : "";
      if ( lower( s ).compare( 0, 6, "commit" ) == 0 ) dropTx( c );
      else if ( c->tx ) c->aborted = true;
      return r;
    }
    return exec( c, sql );
  }
  char *PQgetvalue( const PGresult *r, int i, int j )
  {
    if ( !r || i < 0 || j < 0 || ( size_t )i >= r->rows.size() || ( size_t )j >= r->rows[i].size() ) return nullptr;
    return ( char * )r->rows[i][j].v.c_str();
  }
  int PQgetlength( const PGresult *r, int i, int j ) { return r && ( size_t )i < r->rows.size() && ( size_t )j < r->rows[i].size() ? r->rows[i][j].v.size() : 0; }
  int PQgetisnull( const PGresult *r, int i, int j ) { return !r || i < 0 || j < 0 || ( size_t )i >= r->rows.size() || ( size_t )j >= r->rows[i].size() || r->rows[i][j].null; }
  int PQntuples( const PGresult *r ) { return r ? r->rows.size() : 0; }
  int PQnfields( const PGresult *r ) { return r && !r->rows.empty() ? r->rows[0].size() : 0; }
  char *PQcmdTuples( PGresult *r ) { return r ? ( char * )r->tuples.c_str() : ( char * )""; }
  ExecStatusType PQresultStatus( const PGresult *r ) { return r ? r->st : PGRES_FATAL_ERROR; }
  char *PQresultErrorMessage( const PGresult *r ) { return r ? ( char * )r->err.c_str() : ( char * )""; }
  char *PQerrorMessage( const PGconn *c ) { return c ? ( char * )c->err.c_str() : ( char * )"connection pointer is NULL\n"; }
  ConnStatusType PQstatus( const PGconn *c ) { return c && c->ok ? CONNECTION_OK : CONNECTION_BAD; }
  void PQfinish( PGconn *c ) { if ( !c ) return; dropTx( c ); delete c; --gConns; }
  void PQclear( PGresult *r ) { if ( !r ) return; delete r; --gResults; }
  PGTransactionStatusType PQtransactionStatus( const PGconn *c ) { return !c || !c->ok ? PQTRANS_UNKNOWN : c->aborted ? PQTRANS_INERROR : c->tx ? PQTRANS_INTRANS : PQTRANS_IDLE; }
  char *PQescapeLiteral( PGconn *, const char *s, size_t n )
  {
    std::string v( s, strnlen( s, n ) ), r;
    bool bs = v.find( '\\' ) != std::string::npos;
    for ( char c : v ) { if ( c == '\'' || ( c == '\\' ) ) r += c; r += c; }
    return strdup( ( std::string( bs ? " E'" : "'" ) + r + "'" ).c_str() );
  }
  char *PQescapeIdentifier( PGconn *, const char *s, size_t n )
  {
    return strdup( qi( std::string( s, strnlen( s, n ) ) ).c_str() );
  }
  void PQfreemem( void *p ) { free( p ); }
}
