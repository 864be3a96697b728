prop = "P19"
needs = "GEODIFF_makeCopy with a null extra info for the destination driver"
breaks = "the destination's extra info is used without looking whether it is null"
edits = {"geodiff/src/geodiff.cpp": [("""    if ( driverDstExtraInfo )
      connDst["conninfo"] = std::string( driverDstExtraInfo );""", """    connDst["conninfo"] = std::string( driverDstExtraInfo );""")]}
demo = r'''
int main()
{
  sql( "src.db", "CREATE VIEW v AS SELECT 1;" );
  ok( "copy", GEODIFF_makeCopy( "sqlite", NULL, "src.db", "sqlite", NULL, "dst.db" ) );
  return 0;
}
'''
