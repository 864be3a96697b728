prop = "P13"
needs = "reading the changeset file fails midway (I/O error on the first or a later block)"
breaks = "whatever part of the changeset could be read is taken for the whole: with an error at the start it counts as empty, and applying, listing or inverting it reports success"
edits = {"geodiff/src/geodiffutils.cpp": [("""  if ( mAlloc != fread( mZ, 1, mAlloc, fp ) )
  {
    fclose( fp );
    throw GeoDiffException( "Unable to read " + filename + " to internal buffer" );
  }
""", """  size_t read = fread( mZ, 1, mAlloc, fp );
  mAlloc = read;
  mUsed = read;
""")]}
demo = r'''
#include <dlfcn.h>
#include <errno.h>
// a file that can be opened but not read: its content is on a failing disk
extern "C" size_t fread( void *p, size_t s, size_t n, FILE *f )
{
  static int gFail = getenv( "DEMO_FAIL" ) ? 1 : 0;
  if ( gFail ) { errno = EIO; return 0; }
  return ( ( size_t ( * )( void *, size_t, size_t, FILE * ) ) dlsym( RTLD_NEXT, "fread" ) )( p, s, n, f );
}
int main( int argc, char **argv )
{
  if ( getenv( "DEMO_FAIL" ) ) return GEODIFF_applyChangeset( "base.db", "cs" ) == GEODIFF_SUCCESS ? 50 : 0;
  two( "CREATE TABLE t(id INTEGER PRIMARY KEY, a); INSERT INTO t VALUES(1,'x');", "UPDATE t SET a='y';" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  setenv( "DEMO_FAIL", "1", 1 );
  int st = system( ( std::string( "'" ) + argv[0] + "'" ).c_str() );
  unsetenv( "DEMO_FAIL" );
  std::string got = query( "base.db", "SELECT a FROM t" );
  if ( st && got != query( "mod.db", "SELECT a FROM t" ) ) die( "success reported, content: " + got );
  return 0;
}
'''
