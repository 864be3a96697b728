// Common part of the explorers: values, an independent changeset codec, SQLite helpers, a JSON
// reader, and the driver that enumerates an indexed, finite space of cases with several workers.
#pragma once
#include <sqlite3.h>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <functional>
#include <stdexcept>
#include <map>
#include <set>
#include <memory>
#include <string>
#include <vector>
#include <algorithm>
#include "geodiff.h"

namespace mc
{
  // ------------------------------------------------------------------ values
  struct Val
  {
    enum T { Undef = 0, Int = 1, Real = 2, Text = 3, Blob = 4, Null = 5 };
    T t = Undef;
    int64_t i = 0;
    double d = 0;
    std::string s;
    bool operator==( const Val &o ) const;
    bool operator!=( const Val &o ) const { return !( *this == o ); }
    bool operator<( const Val &o ) const;
  };
  Val I( int64_t v );
  Val R( double v );
  Val T( const std::string &s );
  Val B( const std::string &s );
  Val N();
  Val U();
  typedef std::vector<Val> Row;
  std::string show( const Val &v );
  std::string show( const Row &r );
  std::string sqlLit( const Val &v );        //!< SQL literal that yields exactly this value
  std::string quoteId( const std::string &s );
  std::string enc( const Val &v );           //!< injective text encoding
  std::string hex( const std::string &s );
  std::string unhex( const std::string &s );

  // ------------------------------------------------------------------ changesets
  enum { OpInsert = 18, OpUpdate = 23, OpDelete = 9 };
  struct CTable
  {
    std::string name;
    std::vector<uint8_t> pk;
    bool operator==( const CTable &o ) const { return name == o.name && pk == o.pk; }
  };
  struct CEntry
  {
    int op = 0;
    int indirect = 0;
    Row o, n;            //!< old / new
    bool operator==( const CEntry &x ) const { return op == x.op && o == x.o && n == x.n; }
  };
  struct CGroup { CTable table; std::vector<CEntry> entries; };
  typedef std::vector<CGroup> CSet;
  //! Strict decoder written from docs/changeset-format.md; false + message if not exactly in format.
  bool decode( const std::string &bytes, CSet &out, std::string *err = nullptr );
  std::string encode( const CSet &cs );
  std::string encodeEntry( const CEntry &e );
  std::string encodeTable( const CTable &t );
  std::string varint( uint64_t v );
  std::string show( const CSet &cs );
  size_t countEntries( const CSet &cs );
  std::string canon( const CSet &cs );       //!< order-insensitive text form

  // ------------------------------------------------------------------ files
  std::string readFile( const std::string &p, bool *ok = nullptr );
  void writeFile( const std::string &p, const std::string &data );
  bool exists( const std::string &p );
  std::vector<std::string> listDir( const std::string &d );
  void clearDir( const std::string &d );     //!< removes the files (recursively) inside d
  void removeTree( const std::string &d );

  // ------------------------------------------------------------------ sqlite
  struct Db
  {
    sqlite3 *h = nullptr;
    Db() {}
    explicit Db( const std::string &path, bool gpkg = true, bool create = false );
    ~Db();
    Db( const Db & ) = delete;
    void exec( const std::string &sql );
    bool tryExec( const std::string &sql, std::string *err = nullptr );
    std::vector<Row> query( const std::string &sql );
    Val one( const std::string &sql );
  };
  //! Image (file bytes) of the database that the script builds from nothing
  std::string buildImage( const std::string &sql );
  const std::string &cachedImage( const std::string &sql );
  typedef std::map<std::string, std::vector<Row>> Content;   //!< table -> sorted rows
  enum ContentFlags { PkTablesOnly = 1, NoSequence = 2, NoDerived = 4 };
  Content content( sqlite3 *h, int flags = 0 );
  Content contentOf( const std::string &path, int flags = 0 );
  std::string schemaOf( const std::string &path );
  std::string show( const Content &c );
  std::string diffContent( const Content &want, const Content &got );
  //! everything: schema text, all tables incl. derived ones, integrity check
  std::string fullDump( const std::string &path );
  std::string integrity( const std::string &path );

  // ------------------------------------------------------------------ json
  struct Json
  {
    enum K { Null, Bool, Num, Str, Arr, Obj } k = Null;
    bool b = false;
    std::string s;               //!< string value, or the literal text of a number
    std::vector<Json> a;
    std::vector<std::pair<std::string, Json>> o;
    const Json *get( const std::string &key ) const;
  };
  //! strict RFC 8259 reader (UTF-8 checked, duplicate keys refused)
  bool parseJson( const std::string &txt, Json &out, std::string *err );
  std::string jsonStr( const std::string &s );
  std::string base64( const std::string &s );

  // ------------------------------------------------------------------ exploration
  uint64_t hash64( const std::string &s, uint64_t seed = 1469598103934665603ULL );

  struct CaseFail { std::string key, msg; };

  struct Ctx
  {
    uint64_t idx = 0;
    int worker = 0;
    bool verbose = false;
    bool thorough = false;
    std::string dir;                       //!< private scratch directory of this worker
    std::string p( const std::string &name ) const { return dir + "/" + name; }
    //! the case breaks the property; key classifies the failure
    [[noreturn]] void fail( const std::string &key, const std::string &msg ) const;
    void check( bool cond, const std::string &key, const std::string &msg ) const { if ( !cond ) fail( key, msg ); }
    void state( const std::string &canonical ) const;     //!< counts distinct states
    void transition( uint64_t n = 1 ) const;
    void trace( uint64_t n = 1 ) const;                   //!< model behaviours compared with the implementation
    void outcome( const std::string &label ) const;       //!< histogram of distinct observed outcomes
    void evaluation( uint64_t n = 1 ) const;
    void nontrivial( const std::string &canonical ) const;
    void note( const std::string &s ) const;              //!< printed when replaying
    std::string lastLog() const;                          //!< messages the library logged since resetLog()
    void resetLog() const;
  };

  struct Opts { bool thorough = false; int64_t seed = 1; };

  struct Check
  {
    std::string property, level = "model_checking", rule;
    std::vector<std::string> assumptions;
    std::vector<std::string> bounds;                      //!< what is enumerated completely
    uint64_t count = 0;
    std::function<void( const Ctx & )> run;
    std::function<std::string( uint64_t )> describe;
    double caseTimeout = 30;
    int workers = 8;
    bool captureLog = true;
    bool odd = false;                                     //!< every third case in a directory with an odd name, every fourth with all messages logged, every fifth in a locale with decimal commas and other cases of letters
    double deadline = 0;                                  //!< 0: from the tier
  };
  int checkMain( int argc, char **argv, const std::function<Check( const Opts & )> &make );

  // mixed-radix helper: takes digits off an index
  struct Dig
  {
    uint64_t v;
    explicit Dig( uint64_t x ) : v( x ) {}
    uint64_t take( uint64_t n ) { uint64_t r = v % n; v /= n; return r; }
  };
  double num( const std::string &s );    //!< strtod of the C locale
  std::string fmt( const char *f, ... ) __attribute__( ( format( printf, 1, 2 ) ) );
}
