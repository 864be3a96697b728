prop = "P17"
pg = True
needs = "a copy whose source holds something that cannot be read (an unsupported column type), onto a destination that exists"
breaks = "the destination is replaced before it is known that the source can be read: a failing copy loses it"
edits = {"geodiff/src/geodiff.cpp": [('''    // get source data
    {
      ChangesetWriter writer;
      if ( !writer.open( tmpFileChangeset.c_path() ) )
        throw GeoDiffException( "Unable to open changeset file for writing: " + tmpFileChangeset.path() );
      driverSrc->dumpData( writer );
      writer.close();
    }

    // create destination
    std::map<std::string, std::string> connDst;
    connDst["base"] = dst;
    if ( driverDstExtraInfo )
      connDst["conninfo"] = std::string( driverDstExtraInfo );
    driverDst->create( connDst, true );
''', '''    // create destination
    std::map<std::string, std::string> connDst;
    connDst["base"] = dst;
    if ( driverDstExtraInfo )
      connDst["conninfo"] = std::string( driverDstExtraInfo );
    driverDst->create( connDst, true );

    // get source data
    {
      ChangesetWriter writer;
      if ( !writer.open( tmpFileChangeset.c_path() ) )
        throw GeoDiffException( "Unable to open changeset file for writing: " + tmpFileChangeset.path() );
      driverSrc->dumpData( writer );
      writer.close();
    }
''')]}
demo = r'''
#include "fakepq.h"
int main()
{
  fakepq::start();
  if ( !fakepq::exec( "CREATE SCHEMA gd_a; CREATE TABLE gd_a.t(id integer PRIMARY KEY, v bytea); INSERT INTO gd_a.t VALUES(1, '\\x0102')" ).empty() ) return 9;
  spit( "copy.db", "" );
  unlink( "copy.db" );
  sql( "copy.db", "CREATE TABLE old(id INTEGER PRIMARY KEY, v); INSERT INTO old VALUES(1, 'valuable')" );
  std::string before = slurp( "copy.db" );
  fails( "copying an unsupported type", GEODIFF_makeCopy( "postgres", "host=fake", "gd_a", "sqlite", "", "copy.db" ) );
  if ( slurp( "copy.db" ) != before ) die( "the destination was lost" );
  return 0;
}
'''
