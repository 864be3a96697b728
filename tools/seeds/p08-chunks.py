prop = "P08"
needs = "a blob longer than 4096 bytes"
breaks = "the base64 form in the JSON is made of pieces that are not a multiple of three bytes: padding in the middle"
edits = {"geodiff/src/changesetutils.cpp": [('''      std::string base64 = base64_encode( ( const unsigned char * ) value.getString().data(), value.getString().size() );
''', '''      std::string base64;
      const std::string &blob = value.getString();
      for ( size_t pos = 0; pos < blob.size(); pos += 4096 )
        base64 += base64_encode( ( const unsigned char * ) blob.data() + pos, std::min<size_t>( 4096, blob.size() - pos ) );
''')]}
demo = r'''
int main()
{
  two( "CREATE TABLE a(id INTEGER PRIMARY KEY, v);", "INSERT INTO a VALUES(1,zeroblob(6000))" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  ok( "list", GEODIFF_listChanges( "cs", "json" ) );
  if ( slurp( "json" ).find( "=" ) != std::string::npos ) die( "6000 bytes need no padding" );
  return 0;
}
'''
