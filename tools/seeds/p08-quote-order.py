prop = "P08"
needs = "a text value (or table name) with a double quote"
breaks = "the backslash that escapes a quote is escaped once more: the listing is not valid JSON"
edits = {"geodiff/src/changesetutils.cpp": [('''  val = replace( val, "\\\\", "\\\\\\\\" );\n''', '''  val = replace( val, "\\"", "\\\\\\"" );\n  val = replace( val, "\\\\", "\\\\\\\\" );\n'''), ('''  val = replace( val, "\\t", "\\\\t" );\n  val = replace( val, "\\"", "\\\\\\"" );\n''', '''  val = replace( val, "\\t", "\\\\t" );\n''')]}
demo = r'''
int main()
{
  two( "CREATE TABLE a(id INTEGER PRIMARY KEY, v);", "INSERT INTO a VALUES(1,'say \"hi\"')" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  ok( "list", GEODIFF_listChanges( "cs", "json" ) );
  if ( slurp( "json" ).find( "\"say \\\"hi\\\"\"" ) == std::string::npos ) die( slurp( "json" ) );
  return 0;
}
'''
