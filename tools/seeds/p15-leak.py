prop = "P15"
needs = "an in-place rebase that fails when the combined changes are applied (e.g. both sides took the same unique value)"
breaks = "the combined changeset is removed after it was applied, and stays in the temporary directory when applying it fails"
edits = {"geodiff/src/geodiff.cpp": [("""    TmpFile modified2final( root + "_modified2final.bin" );
    bool error = concatChangesets( modified2base.path(), base2their, theirs2final.path(), modified2final.path() );""",
"""    const std::string modified2final = root + "_modified2final.bin";
    bool error = concatChangesets( modified2base.path(), base2their, theirs2final.path(), modified2final );"""),
("""    if ( GEODIFF_applyChangesetEx( driverName, driverExtraInfo, modified, modified2final.c_path() ) != GEODIFF_SUCCESS )
    {
      Logger::instance().error( "Unable to perform GEODIFF_applyChangeset modified2final" );
      return GEODIFF_ERROR;
    }
""", """    if ( GEODIFF_applyChangesetEx( driverName, driverExtraInfo, modified, modified2final.c_str() ) != GEODIFF_SUCCESS )
    {
      Logger::instance().error( "Unable to perform GEODIFF_applyChangeset modified2final" );
      return GEODIFF_ERROR;
    }
    fileremove( modified2final );
""")]}
demo = r'''
int main()
{
  mkdir( "tmp", 0700 );
  setenv( "TMPDIR", "tmp/", 1 );
  two( "CREATE TABLE t(id INTEGER PRIMARY KEY, u UNIQUE); INSERT INTO t VALUES(1,'x'),(2,'y');", "UPDATE t SET u='new' WHERE id=1;" );
  spit( "theirs.db", slurp( "base.db" ) );
  sql( "theirs.db", "UPDATE t SET u='new' WHERE id=2;" );
  fails( "rebase", GEODIFF_rebase( "base.db", "theirs.db", "mod.db", "conflicts" ) );
  same( "left in the temporary directory", ls( "tmp" ), "" );
  return 0;
}
'''
