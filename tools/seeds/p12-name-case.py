prop = "P12"
needs = "columns whose names differ in the case of letters only"
breaks = "column names are compared without regard to case, such databases are taken for the same schema"
edits = {"geodiff/src/tableschema.h": [("    return name == other.name && type == other.type && isPrimaryKey", "    bool sameName = name.size() == other.name.size();\n    for ( size_t i = 0; sameName && i < name.size(); ++i )\n      sameName = ( name[i] | 32 ) == ( other.name[i] | 32 );\n    return sameName && type == other.type && isPrimaryKey")]}
demo = r'''
int main()
{
  two( "CREATE TABLE a(id INTEGER PRIMARY KEY, v);", "ALTER TABLE a RENAME COLUMN v TO V; INSERT INTO a VALUES(4,'m4')" );
  if ( GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) == GEODIFF_SUCCESS ) die( "not refused" );
  return 0;
}
'''
