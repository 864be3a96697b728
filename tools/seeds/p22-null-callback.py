prop = "P22"
needs = "a null callback set after another one"
breaks = "setting a null callback keeps the previous one instead of silencing the messages"
edits = {"geodiff/src/geodifflogger.cpp": [("""void Logger::setCallback( GEODIFF_LoggerCallback loggerCallback )
{
""", """void Logger::setCallback( GEODIFF_LoggerCallback loggerCallback )
{
  if ( !loggerCallback )
    loggerCallback = &StdoutLogger;
""")]}
demo = r'''
int main()
{
  // messages of the default callback go to the standard error stream
  setenv( "GEODIFF_LOGGER_LEVEL", "1", 1 );
  FILE *f = freopen( "err", "w", stderr );
  GEODIFF_setLoggerCallback( NULL );
  fails( "apply", GEODIFF_applyChangeset( "missing.db", "missing" ) );
  fflush( f );
  same( "messages", slurp( "err" ), "" );
  return 0;
}
'''
