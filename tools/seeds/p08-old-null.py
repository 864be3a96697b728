prop = "P08"
needs = "an update from NULL to a value, or a delete of a row with NULL"
breaks = "a recorded old value of NULL is left out of the JSON listing: it looks like an unchanged or unknown value"
edits = {"geodiff/src/changesetutils.cpp": [("""      std::string strValueNew = valueToJSON( valueNew );
      if ( !strValueOld.empty() )""", """      std::string strValueNew = valueToJSON( valueNew );
      if ( !strValueOld.empty() && valueOld.type() != Value::TypeNull )""")]}
demo = r'''
int main()
{
  two( "CREATE TABLE t(id INTEGER PRIMARY KEY, s TEXT); INSERT INTO t VALUES(1,NULL);", "UPDATE t SET s = 'x';" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  ok( "list", GEODIFF_listChanges( "cs", "json" ) );
  if ( slurp( "json" ).find( "\"old\": null" ) == std::string::npos ) die( "the old value NULL is missing: " + slurp( "json" ) );
  return 0;
}
'''
