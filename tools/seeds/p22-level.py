prop = "P22"
needs = "the maximum level 0 (nothing), from the environment"
breaks = "the level 0 of GEODIFF_LOGGER_LEVEL is not taken: errors are still printed"
edits = {"geodiff/src/geodifflogger.cpp": [("  if ( envLevel >= 0 && envLevel", "  if ( envLevel > 0 && envLevel")]}
demo = r'''
int main()
{
  setenv( "GEODIFF_LOGGER_LEVEL", "0", 1 );
  FILE *f = freopen( "err", "w", stderr );
  fails( "apply", GEODIFF_applyChangeset( "missing.db", "missing" ) );
  fflush( f );
  same( "messages", slurp( "err" ), "" );
  return 0;
}
'''
