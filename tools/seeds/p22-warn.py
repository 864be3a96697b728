prop = "P22"
needs = "a failing apply with the maximum level set to warnings"
breaks = "warnings are passed as infos: not at all at level 2"
edits = {"geodiff/src/geodifflogger.cpp": [("  log( GEODIFF_LoggerLevel::LevelWarning, msg );", "  log( GEODIFF_LoggerLevel::LevelInfo, msg );")]}
demo = r'''
static int warnings = 0;
static void cb( GEODIFF_LoggerLevel level, const char * ) { warnings += level == LevelWarning; }
int main()
{
  two( "CREATE TABLE a(id INTEGER PRIMARY KEY, v);", "INSERT INTO a VALUES(1,2)" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  GEODIFF_setLoggerCallback( cb );
  GEODIFF_setMaximumLoggerLevel( LevelWarning );
  fails( "apply", GEODIFF_applyChangeset( "mod.db", "cs" ) );
  if ( !warnings ) die( "the conflict was not logged as a warning" );
  return 0;
}
'''
