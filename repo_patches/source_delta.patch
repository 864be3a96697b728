From d17e87dd1511e6972a95fe901a9f5d098b2949f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:53 +0000
Subject: [PATCH 01/49] fix: detect changes hidden by collation, numeric
 equality or lack of non-key columns

Rows were compared with IS NOT under the columns' collation and without
looking at the storage type or at primary key columns, so 'a' -> 'A' in a
NOCASE column or 1 -> 1.0 were lost, and a table consisting of primary key
columns only could not be compared at all (SQL syntax error).
---
 geodiff/src/drivers/sqlitedriver.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index fd237ab..9eb1cba 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -378,13 +378,15 @@ static std::string sqlFindModified( const std::string &tableName, const TableSch
       exprPk += sqlitePrintf( "\"%w\".\"%w\".\"%w\"=\"%w\".\"%w\".\"%w\"",
                               "main", tableName.c_str(), c.name.c_str(), "aux", tableName.c_str(), c.name.c_str() );
     }
-    else // not a primary key column
-    {
-      if ( !exprOther.empty() )
-        exprOther += " OR ";
-      exprOther += sqlitePrintf( "\"%w\".\"%w\".\"%w\" IS NOT \"%w\".\"%w\".\"%w\"",
-                                 "main", tableName.c_str(), c.name.c_str(), "aux", tableName.c_str(), c.name.c_str() );
-    }
+
+    // compare exactly, primary key columns as well: values which are "equal" only because of the column's
+    // collation or because of numeric comparison (e.g. 1 and 1.0) are still different values
+    if ( !exprOther.empty() )
+      exprOther += " OR ";
+    exprOther += sqlitePrintf( "(\"%w\".\"%w\".\"%w\" IS NOT \"%w\".\"%w\".\"%w\" COLLATE BINARY",
+                               "main", tableName.c_str(), c.name.c_str(), "aux", tableName.c_str(), c.name.c_str() );
+    exprOther += sqlitePrintf( " OR typeof(\"%w\".\"%w\".\"%w\") IS NOT typeof(\"%w\".\"%w\".\"%w\"))",
+                               "main", tableName.c_str(), c.name.c_str(), "aux", tableName.c_str(), c.name.c_str() );
   }
 
   std::string sql = sqlitePrintf( "SELECT * FROM \"%w\".\"%w\", \"%w\".\"%w\" WHERE %s AND (%s)",
-- 
2.43.0


From a69164038d2b79418b6003cd622c9e05bc77c323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:53 +0000
Subject: [PATCH 02/49] fix: texts with embedded NUL characters were truncated
 when compared and applied

---
 geodiff/src/drivers/sqlitedriver.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 9eb1cba..2ae1d8b 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -410,7 +410,10 @@ static bool valuesEqual( sqlite3_value *v1, sqlite3_value *v2 )
     return sqlite3_value_double( v1 ) == sqlite3_value_double( v2 );
   else if ( type1 == SQLITE_TEXT )
   {
-    return strcmp( ( const char * ) sqlite3_value_text( v1 ), ( const char * ) sqlite3_value_text( v2 ) ) == 0;
+    // texts may contain embedded NUL characters
+    const char *text1 = ( const char * ) sqlite3_value_text( v1 );
+    const char *text2 = ( const char * ) sqlite3_value_text( v2 );
+    return std::string( text1, sqlite3_value_bytes( v1 ) ) == std::string( text2, sqlite3_value_bytes( v2 ) );
   }
   else if ( type1 == SQLITE_BLOB )
   {
@@ -657,7 +660,7 @@ static void bindValue( sqlite3_stmt *stmt, int index, const Value &v )
   else if ( v.type() == Value::TypeNull )
     rc = sqlite3_bind_null( stmt, index );
   else if ( v.type() == Value::TypeText )
-    rc = sqlite3_bind_text( stmt, index, v.getString().c_str(), -1, SQLITE_TRANSIENT );
+    rc = sqlite3_bind_text( stmt, index, v.getString().c_str(), v.getString().size(), SQLITE_TRANSIENT );
   else if ( v.type() == Value::TypeBlob )
     rc = sqlite3_bind_blob( stmt, index, v.getString().c_str(), v.getString().size(), SQLITE_TRANSIENT );
   else
-- 
2.43.0


From 3ac53e48805e780b3f0b5d3572e21f5bba0e76c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:33 +0000
Subject: [PATCH 03/49] fix: tables with generated columns could not be
 compared, dumped or applied

SELECT * returns generated columns too, while PRAGMA table_info leaves them
out, so values were assigned to wrong columns.
---
 geodiff/src/drivers/sqlitedriver.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 2ae1d8b..51258cb 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -343,6 +343,19 @@ static std::string sqlitePrintf( const char *zFormat, ... )
   return res;
 }
 
+//! Returns comma separated list of the columns of the table's schema ("SELECT *" would also return generated columns)
+static std::string allColumnNames( const std::string &dbName, const std::string &tableName, const TableSchema &tbl )
+{
+  std::string columns;
+  for ( const TableColumnInfo &c : tbl.columns )
+  {
+    if ( !columns.empty() )
+      columns += ", ";
+    columns += sqlitePrintf( "\"%w\".\"%w\".\"%w\"", dbName.c_str(), tableName.c_str(), c.name.c_str() );
+  }
+  return columns;
+}
+
 //! Constructs SQL query to get all rows that do not exist in the other table (used for insert and delete)
 static std::string sqlFindInserted( const std::string &tableName, const TableSchema &tbl, bool reverse )
 {
@@ -358,7 +371,8 @@ static std::string sqlFindInserted( const std::string &tableName, const TableSch
     }
   }
 
-  std::string sql = sqlitePrintf( "SELECT * FROM \"%w\".\"%w\" WHERE NOT EXISTS ( SELECT 1 FROM \"%w\".\"%w\" WHERE %s)",
+  std::string sql = sqlitePrintf( "SELECT %s FROM \"%w\".\"%w\" WHERE NOT EXISTS ( SELECT 1 FROM \"%w\".\"%w\" WHERE %s)",
+                                  allColumnNames( reverse ? "aux" : "main", tableName, tbl ).c_str(),
                                   reverse ? "aux" : "main", tableName.c_str(),
                                   reverse ? "main" : "aux", tableName.c_str(), exprPk.c_str() );
   return sql;
@@ -389,7 +403,8 @@ static std::string sqlFindModified( const std::string &tableName, const TableSch
                                "main", tableName.c_str(), c.name.c_str(), "aux", tableName.c_str(), c.name.c_str() );
   }
 
-  std::string sql = sqlitePrintf( "SELECT * FROM \"%w\".\"%w\", \"%w\".\"%w\" WHERE %s AND (%s)",
+  std::string sql = sqlitePrintf( "SELECT %s, %s FROM \"%w\".\"%w\", \"%w\".\"%w\" WHERE %s AND (%s)",
+                                  allColumnNames( "main", tableName, tbl ).c_str(), allColumnNames( "aux", tableName, tbl ).c_str(),
                                   "main", tableName.c_str(), "aux", tableName.c_str(), exprPk.c_str(), exprOther.c_str() );
   return sql;
 }
@@ -951,7 +966,7 @@ void SqliteDriver::dumpData( ChangesetWriter &writer, bool useModified )
 
     bool first = true;
     Sqlite3Stmt statementI;
-    statementI.prepare( mDb, "SELECT * FROM \"%w\".\"%w\"", dbName.c_str(), tableName.c_str() );
+    statementI.prepare( mDb, "SELECT %s FROM \"%w\".\"%w\"", allColumnNames( dbName, tableName, tbl ).c_str(), dbName.c_str(), tableName.c_str() );
     while ( SQLITE_ROW == sqlite3_step( statementI.get() ) )
     {
       if ( first )
-- 
2.43.0


From ec6cdaa55a8a4e41c904f615e75a41b62eceaa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:03 +0000
Subject: [PATCH 04/49] fix: rebase with an empty changeset on either side
 overwrote an input instead of writing the output

filecopy() takes the destination first. With no changes of ours the rebased
changeset is empty as well.
---
 geodiff/src/geodiffrebase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 1bc459b..1bfb0a7 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -579,7 +579,7 @@ int rebase( const std::string &changeset_BASE_THEIRS,
   if ( reader_BASE_THEIRS.isEmpty() )
   {
     Logger::instance().info( " -- no rebase needed! (empty base2theirs) --\n" );
-    filecopy( changeset_BASE_MODIFIED, changeset_THEIRS_MODIFIED );
+    filecopy( changeset_THEIRS_MODIFIED, changeset_BASE_MODIFIED );
     return GEODIFF_SUCCESS;
   }
 
@@ -592,7 +592,7 @@ int rebase( const std::string &changeset_BASE_THEIRS,
   if ( reader_BASE_MODIFIED.isEmpty() )
   {
     Logger::instance().info( " -- no rebase needed! (empty base2modified) --\n" );
-    filecopy( changeset_BASE_THEIRS, changeset_THEIRS_MODIFIED );
+    filecopy( changeset_THEIRS_MODIFIED, changeset_BASE_MODIFIED );
     return GEODIFF_SUCCESS;
   }
 
-- 
2.43.0


From e06c3f084378efb92c6ac9d38a5597af689c2b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:26 +0000
Subject: [PATCH 05/49] fix: a constraint with ON CONFLICT ROLLBACK made the
 rest of a changeset be committed entry by entry

After such a constraint has rolled back the savepoint, following entries ran
in autocommit mode. Stop as soon as the transaction is gone.
---
 geodiff/src/drivers/sqlitedriver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 51258cb..de0bd42 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -720,6 +720,10 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
   ChangesetEntry entry;
   while ( reader.nextEntry( entry ) )
   {
+    // a constraint with ON CONFLICT ROLLBACK has ended our transaction - further changes would not be part of it
+    if ( sqlite3_get_autocommit( mDb->get() ) )
+      throw GeoDiffException( "Conflict encountered while applying changes, transaction has been rolled back" );
+
     if ( entry.table->name != lastTableName )
     {
       std::string tableName = entry.table->name;
-- 
2.43.0


From ef6a1191fc82cb452820fa12b13e547944f920e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:26 +0000
Subject: [PATCH 06/49] fix: rebase confused rows whose keys do not fit in int
 or have the same text hash

Keys were truncated to int, text keys were replaced by their (colliding) hash
that was also written to the output, and a row with key -1 was taken for a
deleted one. Identify rows by the value of their key.
---
 geodiff/src/changeset.h        |  14 ++++
 geodiff/src/changesetutils.cpp |   2 +-
 geodiff/src/geodiffrebase.cpp  | 142 +++++++++++++++++----------------
 geodiff/src/geodiffutils.cpp   |  24 ++----
 geodiff/src/geodiffutils.hpp   |   8 +-
 5 files changed, 99 insertions(+), 91 deletions(-)

diff --git a/geodiff/src/changeset.h b/geodiff/src/changeset.h
index 89ee970..83387b7 100644
--- a/geodiff/src/changeset.h
+++ b/geodiff/src/changeset.h
@@ -68,6 +68,20 @@ struct Value
       return !( *this == other );
     }
 
+    //! Arbitrary (but consistent) ordering, so that values may be used as keys
+    bool operator<( const Value &other ) const
+    {
+      if ( mType != other.mType )
+        return mType < other.mType;
+      if ( mType == TypeInt )
+        return getInt() < other.getInt();
+      if ( mType == TypeDouble )
+        return getDouble() < other.getDouble();
+      if ( mType == TypeText || mType == TypeBlob )
+        return getString() < other.getString();
+      return false;
+    }
+
     //! Possible value types
     enum Type
     {
diff --git a/geodiff/src/changesetutils.cpp b/geodiff/src/changesetutils.cpp
index 2d9b5dd..429f50d 100644
--- a/geodiff/src/changesetutils.cpp
+++ b/geodiff/src/changesetutils.cpp
@@ -254,7 +254,7 @@ std::string conflictToJSON( const ConflictFeature &conflict )
   std::string res = "      {\n";
   res += "        \"table\": \"" + std::string( conflict.tableName() ) + "\",\n";
   res += "        \"type\": \"" + status + "\",\n";
-  res += "        \"fid\": \"" + std::to_string( conflict.pk() ) + "\",\n";
+  res += "        \"fid\": " + ( conflict.pk().type() == Value::TypeInt ? "\"" + std::to_string( conflict.pk().getInt() ) + "\"" : valueToJSON( conflict.pk() ) ) + ",\n";
   res += "        \"changes\": [";
   bool first = true;
 
diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 1bfb0a7..0f4417b 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -9,6 +9,7 @@
 #include "geodifflogger.hpp"
 
 #include "changesetreader.h"
+#include "changesetutils.h"
 #include "changesetwriter.h"
 
 #include <memory>
@@ -20,6 +21,7 @@
 #include <algorithm>
 #include <functional>
 #include <iostream>
+#include <limits>
 #include <string>
 #include <vector>
 #include <map>
@@ -35,11 +37,11 @@
  */
 struct TableRebaseInfo
 {
-  std::set<int> inserted;           //!< pkeys that were inserted
-  std::set<int> deleted;            //!< pkeys that were deleted
-  std::map<int, std::vector<Value> > updated;  //!< new column values for each recorded row (identified by pkey)
+  std::set<Value> inserted;           //!< pkeys that were inserted
+  std::set<Value> deleted;            //!< pkeys that were deleted
+  std::map<Value, std::vector<Value> > updated;  //!< new column values for each recorded row (identified by pkey)
 
-  void dump_set( const std::set<int> &data, std::ostringstream &ret )
+  void dump_set( const std::set<Value> &data, std::ostringstream &ret )
   {
     if ( data.empty() )
       ret << "--none --";
@@ -47,7 +49,7 @@ struct TableRebaseInfo
     {
       for ( auto it : data )
       {
-        ret << it << ",";
+        ret << valueToJSON( it ) << ",";
       }
     }
     ret << std::endl;
@@ -60,7 +62,7 @@ struct TableRebaseInfo
     ret << "  deleted  ";
     dump_set( deleted, ret );
     ret << "  updated  ";
-    std::set<int> updatedPkeys;
+    std::set<Value> updatedPkeys;
     for ( auto pk : updated )
       updatedPkeys.insert( pk.first );
     dump_set( updatedPkeys, ret );
@@ -98,35 +100,35 @@ struct RebaseMapping
 {
 
   // table name -> old fid --> new fid
-  std::map<std::string, std::map < int, int > > mapIds;
+  std::map<std::string, std::map < Value, Value > > mapIds;
 
   // table name -> set of fids of inserts that have been untouched
   // (this is important because our mapping could cause FID conflicts
   // with FIDs that weren't previously in conflict, e.g. if 4,5,6
   // get mapped 4->6, 5->7 then the original 6 will need to be remapped
   // too: 6->8)
-  std::map<std::string, std::set<int> > unmappedInsertIds;
+  std::map<std::string, std::set<Value> > unmappedInsertIds;
 
-  // special pkey value for deleted rows
-  static const int INVALID_FID = -1;
+  // special pkey value for deleted rows (no real pkey is undefined)
+  static Value invalidPkey() { return Value(); }
 
-  void addPkeyMapping( const std::string &table, int id, int id2 )
+  void addPkeyMapping( const std::string &table, const Value &id, const Value &id2 )
   {
     auto ids = mapIds.find( table );
     if ( ids == mapIds.end() )
     {
-      std::map < int, int  > newSet;
-      newSet.insert( std::pair<int, int>( id, id2 ) );
+      std::map < Value, Value  > newSet;
+      newSet.insert( std::pair<Value, Value>( id, id2 ) );
       mapIds[table] = newSet;
     }
     else
     {
-      std::map < int, int  > &oldSet = ids->second;
-      oldSet.insert( std::pair<int, int>( id, id2 ) );
+      std::map < Value, Value  > &oldSet = ids->second;
+      oldSet.insert( std::pair<Value, Value>( id, id2 ) );
     }
   }
 
-  bool hasOldPkey( const std::string &table, int id ) const
+  bool hasOldPkey( const std::string &table, const Value &id ) const
   {
     auto mapId = mapIds.find( table );
     if ( mapId == mapIds.end() )
@@ -135,13 +137,13 @@ struct RebaseMapping
     }
     else
     {
-      const std::map < int, int  > &ids = mapId->second;
+      const std::map < Value, Value  > &ids = mapId->second;
       auto fid =  ids.find( id );
       return fid != ids.end();
     }
   }
 
-  int getNewPkey( const std::string &table, int id ) const
+  Value getNewPkey( const std::string &table, const Value &id ) const
   {
     auto ids = mapIds.find( table );
     if ( ids == mapIds.end() )
@@ -150,7 +152,7 @@ struct RebaseMapping
     }
     else
     {
-      const std::map < int, int  > &oldSet = ids->second;
+      const std::map < Value, Value  > &oldSet = ids->second;
       auto a = oldSet.find( id );
       if ( a == oldSet.end() )
         throw GeoDiffException( "internal error: _get_new MappingIds" );
@@ -176,7 +178,7 @@ struct RebaseMapping
         ret << "--none -- ";
       for ( auto it2 : it.second )
       {
-        ret << it2.first << "->" << it2.second << ",";
+        ret << valueToJSON( it2.first ) << "->" << valueToJSON( it2.second ) << ",";
       }
       ret << std::endl;
     }
@@ -192,12 +194,26 @@ struct RebaseMapping
 ///////////////////////////////////////
 
 
-int _get_primary_key( const ChangesetEntry &entry )
+Value _get_primary_key( const ChangesetEntry &entry )
 {
-  int fid;
+  Value pkey;
   int nFidColumn;
-  get_primary_key( entry, fid, nFidColumn );
-  return fid;
+  get_primary_key( entry, pkey, nFidColumn );
+  return pkey;
+}
+
+//! Returns the next unused value of an integer primary key
+Value _next_free_pkey( std::map<std::string, int64_t> &freeIndices, const std::string &tableName )
+{
+  auto it = freeIndices.find( tableName );
+  if ( it == freeIndices.end() )
+    throw GeoDiffException( "internal error: freeIndices" );
+  if ( it->second == std::numeric_limits<int64_t>::max() )
+    throw GeoDiffException( "no free primary key value in table " + tableName );
+
+  Value pkey;
+  pkey.setInt( ++it->second );
+  return pkey;
 }
 
 
@@ -206,7 +222,7 @@ int _parse_old_changeset( ChangesetReader &reader_BASE_THEIRS, DatabaseRebaseInf
   ChangesetEntry entry;
   while ( reader_BASE_THEIRS.nextEntry( entry ) )
   {
-    int pk = _get_primary_key( entry );
+    Value pk = _get_primary_key( entry );
 
     TableRebaseInfo &tableInfo = dbInfo.tables[entry.table->name];
 
@@ -232,16 +248,18 @@ int _parse_old_changeset( ChangesetReader &reader_BASE_THEIRS, DatabaseRebaseInf
 int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseRebaseInfo &dbInfo,
                                      RebaseMapping &mapping )
 {
-  // figure out first free primary key value when rebasing for each table
+  // figure out the highest primary key value used when rebasing for each table
   // TODO: should we consider all rows in the table instead of just the inserts? (maybe not needed - those were available in the other source too)
-  std::map<std::string, int> freeIndices;
-  for ( auto mapId : dbInfo.tables )
+  std::map<std::string, int64_t> freeIndices;
+  for ( const auto &mapId : dbInfo.tables )
   {
-    const std::set < int > &oldSet = mapId.second.inserted;
-    if ( oldSet.empty() )
-      continue;  // TODO: or set 0 to free indices??
-
-    freeIndices[mapId.first] = *std::max_element( oldSet.begin(), oldSet.end() ) + 1;
+    for ( const Value &pk : mapId.second.inserted )
+    {
+      if ( pk.type() != Value::TypeInt )
+        continue;
+      auto it = freeIndices.insert( std::make_pair( mapId.first, pk.getInt() ) ).first;
+      it->second = std::max( it->second, pk.getInt() );
+    }
   }
 
   ChangesetEntry entry;
@@ -256,19 +274,15 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
 
     if ( entry.op == ChangesetEntry::OpInsert )
     {
-      int pk = _get_primary_key( entry );
+      Value pk = _get_primary_key( entry );
 
       if ( tableInfo.inserted.find( pk ) != tableInfo.inserted.end() )
       {
         // conflict 2 concurrent inserts...
-        auto it = freeIndices.find( tableName );
-        if ( it == freeIndices.end() )
-          throw GeoDiffException( "internal error: freeIndices" );
-
-        mapping.addPkeyMapping( tableName, pk, it->second );
+        if ( pk.type() != Value::TypeInt )
+          throw GeoDiffException( "unable to rebase: both sides have inserted a row with primary key " + valueToJSON( pk ) + " to table " + tableName );
 
-        // increase counter
-        it->second ++;
+        mapping.addPkeyMapping( tableName, pk, _next_free_pkey( freeIndices, tableName ) );
       }
       else
       {
@@ -278,22 +292,22 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
     }
     else if ( entry.op == ChangesetEntry::OpUpdate )
     {
-      int pk = _get_primary_key( entry );
+      Value pk = _get_primary_key( entry );
 
       if ( tableInfo.deleted.find( pk ) != tableInfo.deleted.end() )
       {
         // update on deleted feature...
-        mapping.addPkeyMapping( tableName, pk, RebaseMapping::INVALID_FID );
+        mapping.addPkeyMapping( tableName, pk, RebaseMapping::invalidPkey() );
       }
     }
     else if ( entry.op == ChangesetEntry::OpDelete )
     {
-      int pk = _get_primary_key( entry );
+      Value pk = _get_primary_key( entry );
 
       if ( tableInfo.deleted.find( pk ) != tableInfo.deleted.end() )
       {
         // delete of deleted feature...
-        mapping.addPkeyMapping( tableName, pk, RebaseMapping::INVALID_FID );
+        mapping.addPkeyMapping( tableName, pk, RebaseMapping::invalidPkey() );
       }
     }
   }
@@ -305,26 +319,20 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
     std::string tableName = pair.first;
 
     // make a set of all new pkeys
-    std::set<int> usedNewPkeys;
+    std::set<Value> usedNewPkeys;
     for ( auto oldNewPair : mapping.mapIds[tableName] )
       usedNewPkeys.insert( oldNewPair.second );
 
-    std::set<int> pkeys = pair.second;
-    for ( int pk : pkeys )
+    std::set<Value> pkeys = pair.second;
+    for ( const Value &pk : pkeys )
     {
       if ( usedNewPkeys.find( pk ) != usedNewPkeys.end() )
       {
         // our mapping has previously introduced a new conflict in IDs -> remap this old pkey as well
 
-        auto it = freeIndices.find( tableName );
-        if ( it == freeIndices.end() )
-          throw GeoDiffException( "internal error: freeIndices (2)" );
-
-        mapping.addPkeyMapping( tableName, pk, it->second );
-        usedNewPkeys.insert( it->second );
-
-        // increase counter
-        it->second ++;
+        Value newPk = _next_free_pkey( freeIndices, tableName );
+        mapping.addPkeyMapping( tableName, pk, newPk );
+        usedNewPkeys.insert( newPk );
       }
     }
   }
@@ -343,8 +351,8 @@ bool _handle_insert( const ChangesetEntry &entry, const RebaseMapping &mapping,
   outEntry.newValues.resize( numColumns );
 
   // resolve primary key and patched primary key
-  int pk = _get_primary_key( entry );
-  int newPk = pk;
+  Value pk = _get_primary_key( entry );
+  Value newPk = pk;
 
   if ( mapping.hasOldPkey( entry.table->name, pk ) )
   {
@@ -356,7 +364,7 @@ bool _handle_insert( const ChangesetEntry &entry, const RebaseMapping &mapping,
   {
     if ( entry.table->primaryKeys[i] )
     {
-      outEntry.newValues[i].setInt( newPk );
+      outEntry.newValues[i] = newPk;
     }
     else
     {
@@ -375,8 +383,8 @@ bool _handle_delete( const ChangesetEntry &entry, const RebaseMapping &mapping,
   outEntry.oldValues.resize( numColumns );
 
   // resolve primary key and patched primary key
-  int pk = _get_primary_key( entry );
-  int newPk = pk;
+  Value pk = _get_primary_key( entry );
+  Value newPk = pk;
 
   if ( mapping.hasOldPkey( entry.table->name, pk ) )
   {
@@ -384,7 +392,7 @@ bool _handle_delete( const ChangesetEntry &entry, const RebaseMapping &mapping,
     newPk = mapping.getNewPkey( entry.table->name, pk );
 
     // conflict 2 concurrent deletes...
-    if ( newPk == RebaseMapping::INVALID_FID )
+    if ( newPk == RebaseMapping::invalidPkey() )
       return false;
   }
 
@@ -400,7 +408,7 @@ bool _handle_delete( const ChangesetEntry &entry, const RebaseMapping &mapping,
   {
     if ( entry.table->primaryKeys[i] )
     {
-      outEntry.oldValues[i].setInt( newPk );
+      outEntry.oldValues[i] = newPk;
     }
     else
     {
@@ -446,11 +454,11 @@ bool _handle_update( const ChangesetEntry &entry, const RebaseMapping &mapping,
   outEntry.newValues.resize( numColumns );
 
   // get values from patched (new) master
-  int pk = _get_primary_key( entry );
+  Value pk = _get_primary_key( entry );
   if ( mapping.hasOldPkey( entry.table->name, pk ) )
   {
-    int newPk = mapping.getNewPkey( entry.table->name, pk );
-    if ( newPk == RebaseMapping::INVALID_FID )
+    Value newPk = mapping.getNewPkey( entry.table->name, pk );
+    if ( newPk == RebaseMapping::invalidPkey() )
       return false;
   }
 
diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index 15368b9..f19c26b 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -376,7 +376,7 @@ bool isLayerTable( const std::string &tableName )
 
 ////
 
-void get_primary_key( const ChangesetEntry &entry, int &fid, int &nColumn )
+void get_primary_key( const ChangesetEntry &entry, Value &pkey, int &nColumn )
 {
   const std::vector<bool> &tablePkeys = entry.table->primaryKeys;
 
@@ -414,23 +414,9 @@ void get_primary_key( const ChangesetEntry &entry, int &fid, int &nColumn )
   if ( pkeyValue.type() == Value::TypeUndefined || pkeyValue.type() == Value::TypeNull )
     throw GeoDiffException( "internal error in _get_primary_key: unable to get value of primary key" );
 
-  if ( pkeyValue.type() == Value::TypeInt )
+  if ( pkeyValue.type() == Value::TypeInt || pkeyValue.type() == Value::TypeText )
   {
-    int val = pkeyValue.getInt();
-    fid = val;
-    return;
-  }
-  else if ( pkeyValue.type() == Value::TypeText )
-  {
-    std::string str = pkeyValue.getString();
-    const char *strData = str.data();
-    int hash = 0;
-    int len = str.size();
-    for ( int i = 0; i < len; i++ )
-    {
-      hash = 33 * hash + ( unsigned char )strData[i];
-    }
-    fid = hash;
+    pkey = pkeyValue;
   }
   else
   {
@@ -529,7 +515,7 @@ const char *TmpFile::c_path() const
   return mPath.c_str();
 }
 
-ConflictFeature::ConflictFeature( int pk,
+ConflictFeature::ConflictFeature( const Value &pk,
                                   const std::string &tableName )
   : mPk( pk )
   , mTableName( tableName )
@@ -551,7 +537,7 @@ std::string ConflictFeature::tableName() const
   return mTableName;
 }
 
-int ConflictFeature::pk() const
+Value ConflictFeature::pk() const
 {
   return mPk;
 }
diff --git a/geodiff/src/geodiffutils.hpp b/geodiff/src/geodiffutils.hpp
index bd396fb..67f4787 100644
--- a/geodiff/src/geodiffutils.hpp
+++ b/geodiff/src/geodiffutils.hpp
@@ -105,7 +105,7 @@ int indexOf( const std::vector<std::string> &arr, const std::string &val );
 std::string concatNames( const std::vector<std::string> &names );
 
 
-void get_primary_key( const ChangesetEntry &entry, int &fid, int &nColumn );
+void get_primary_key( const ChangesetEntry &entry, Value &pkey, int &nColumn );
 
 
 
@@ -167,15 +167,15 @@ class ConflictItem
 class ConflictFeature
 {
   public:
-    ConflictFeature( int pk,
+    ConflictFeature( const Value &pk,
                      const std::string &tableName );
     bool isValid() const;
     void addItem( const ConflictItem &item );
     std::string tableName() const;
-    int pk() const;
+    Value pk() const;
     std::vector<ConflictItem> items() const;
   private:
-    int mPk;
+    Value mPk;
     std::string mTableName;
     std::vector<ConflictItem> mItems;
 };
-- 
2.43.0


From 1c2dcd2c97c70a8de5e02950fb246e27b2fe8e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:52 +0000
Subject: [PATCH 07/49] fix: rebase reported conflicts for columns that only
 one side changed or both changed alike

A column that mine leaves alone got an old value without a new one, and a conflict
with an undefined value was reported.
---
 geodiff/src/changeset.h       | 2 +-
 geodiff/src/geodiffrebase.cpp | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/changeset.h b/geodiff/src/changeset.h
index 83387b7..0039828 100644
--- a/geodiff/src/changeset.h
+++ b/geodiff/src/changeset.h
@@ -52,7 +52,7 @@ struct Value
     {
       if ( mType != other.mType )
         return false;
-      if ( mType == TypeUndefined || mType == TypeUndefined )
+      if ( mType == TypeUndefined || mType == TypeNull )
         return true;
       if ( mType == TypeInt )
         return getInt() == other.getInt();
diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 0f4417b..0e0abac 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -475,12 +475,14 @@ bool _handle_update( const ChangesetEntry &entry, const RebaseMapping &mapping,
   for ( size_t i = 0; i < numColumns; i++ )
   {
     // if the value was patched in the previous commit, use that one as base
+    // (unless this entry does not touch the column: then there is no old value to record either)
     Value patchedVal = patchedVals[i];
-    if ( patchedVal.type() != Value::TypeUndefined )
+    if ( patchedVal.type() != Value::TypeUndefined && entry.newValues[i].type() != Value::TypeUndefined )
     {
       outEntry.oldValues[i] = patchedVal;
       // conflict for this value
-      _addConflictItem( conflictFeature, i, entry.oldValues[i], patchedVal, entry.newValues[i] );
+      if ( patchedVal != entry.newValues[i] )
+        _addConflictItem( conflictFeature, i, entry.oldValues[i], patchedVal, entry.newValues[i] );
     }
     else
     {
-- 
2.43.0


From d7441c2ffd84104aebe7225e84354803f1b9f902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:43 +0000
Subject: [PATCH 08/49] fix: rebase gave an inserted row the key of an existing
 row that was updated or deleted

The next free key was computed from the rows inserted by theirs only.
---
 geodiff/src/geodiffrebase.cpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 0e0abac..cf4fec2 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -202,6 +202,14 @@ Value _get_primary_key( const ChangesetEntry &entry )
   return pkey;
 }
 
+//! Makes sure that the primary key of an existing row does not get assigned to another row
+void _mark_used_pkey( std::map<std::string, int64_t> &freeIndices, const std::string &tableName, const Value &pkey )
+{
+  auto it = freeIndices.find( tableName );
+  if ( it != freeIndices.end() && pkey.type() == Value::TypeInt )
+    it->second = std::max( it->second, pkey.getInt() );
+}
+
 //! Returns the next unused value of an integer primary key
 Value _next_free_pkey( std::map<std::string, int64_t> &freeIndices, const std::string &tableName )
 {
@@ -249,7 +257,8 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
                                      RebaseMapping &mapping )
 {
   // figure out the highest primary key value used when rebasing for each table
-  // TODO: should we consider all rows in the table instead of just the inserts? (maybe not needed - those were available in the other source too)
+  // (rows that were updated or deleted on either side count too: they may exist when our inserts get applied)
+  // TODO: should we consider all rows in the table? (maybe not needed - those were available in the other source too)
   std::map<std::string, int64_t> freeIndices;
   for ( const auto &mapId : dbInfo.tables )
   {
@@ -257,12 +266,23 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
     {
       if ( pk.type() != Value::TypeInt )
         continue;
-      auto it = freeIndices.insert( std::make_pair( mapId.first, pk.getInt() ) ).first;
-      it->second = std::max( it->second, pk.getInt() );
+      freeIndices.insert( std::make_pair( mapId.first, pk.getInt() ) );
+      _mark_used_pkey( freeIndices, mapId.first, pk );
     }
+    for ( const Value &pk : mapId.second.deleted )
+      _mark_used_pkey( freeIndices, mapId.first, pk );
+    for ( const auto &updated : mapId.second.updated )
+      _mark_used_pkey( freeIndices, mapId.first, updated.first );
   }
 
   ChangesetEntry entry;
+  while ( reader.nextEntry( entry ) )
+  {
+    if ( entry.op != ChangesetEntry::OpInsert && freeIndices.find( entry.table->name ) != freeIndices.end() )
+      _mark_used_pkey( freeIndices, entry.table->name, _get_primary_key( entry ) );
+  }
+  reader.rewind();
+
   while ( reader.nextEntry( entry ) )
   {
     std::string tableName = entry.table->name;
-- 
2.43.0


From 5fe36ee9eebe16a53a41999a2918d7fa25098d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:47 +0000
Subject: [PATCH 09/49] fix: rebased changeset held headers of tables without
 any changes

A changeset without entries was therefore reported as having changes.
---
 geodiff/src/geodiffrebase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index cf4fec2..707dd39 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -576,11 +576,11 @@ int _prepare_new_changeset( ChangesetReader &reader, const std::string &changese
 
   for ( auto it : tableDefinitions )
   {
-    writer.beginTable( it.second );
-
     auto chit = tableChanges.find( it.first );
     if ( chit != tableChanges.end() )
     {
+      writer.beginTable( it.second );
+
       const std::vector<ChangesetEntry> &changes = chit->second;
       for ( const ChangesetEntry &entry : changes )
       {
-- 
2.43.0


From 45842d8534b9a327c767ad4cfc3a47f3600169d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:50 +0000
Subject: [PATCH 10/49] fix: conflict file of an earlier rebase was left behind
 when there were no conflicts

---
 geodiff/src/geodiff.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index ff4da8d..a5b50e2 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -203,6 +203,8 @@ int GEODIFF_createRebasedChangesetEx( const char *driverName,
     return GEODIFF_ERROR;
   }
 
+  fileremove( conflictfile );
+
   // TODO: use driverName + driverExtraInfo + base when creating rebased
   // changeset (e.g. to check whether a newly created ID is actually free)
 
@@ -378,6 +380,8 @@ int GEODIFF_rebase( const char *base,
     return GEODIFF_ERROR;
   }
 
+  fileremove( conflictfile );
+
   std::string root = std::string( modified );
 
   TmpFile base2theirs( root + "_base2theirs.bin" );
@@ -404,6 +408,8 @@ int GEODIFF_rebaseEx( const char *driverName,
     return GEODIFF_ERROR;
   }
 
+  fileremove( conflictfile );
+
   try
   {
     std::string root = tmpdir() + "geodiff_" + randomString( 6 );
-- 
2.43.0


From 391002307f5a58efaab750fd08703b732502909a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:58 +0000
Subject: [PATCH 11/49] fix: databases with triggers whose name needs quoting
 could not be changed

Also do not carry on if a trigger can't be dropped or recreated.
---
 geodiff/src/drivers/sqlitedriver.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index de0bd42..c469533 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -711,8 +711,9 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
   Sqlite3Stmt statament;
   for ( std::string name : triggerNames )
   {
-    statament.prepare( mDb, "drop trigger %s", name.c_str() );
-    sqlite3_step( statament.get() );
+    statament.prepare( mDb, "drop trigger \"%w\"", name.c_str() );
+    if ( sqlite3_step( statament.get() ) != SQLITE_DONE )
+      throw GeoDiffException( "Unable to drop trigger: " + name );
     statament.close();
   }
 
@@ -824,7 +825,8 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
   for ( std::string cmd : triggerCmds )
   {
     statament.prepare( mDb, "%s", cmd.c_str() );
-    sqlite3_step( statament.get() );
+    if ( sqlite3_step( statament.get() ) != SQLITE_DONE )
+      throw GeoDiffException( "Unable to recreate trigger: " + cmd );
     statament.close();
   }
 
-- 
2.43.0


From 8dad55b84cd935f1a1854b4b47c899dd624214ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:50 +0000
Subject: [PATCH 12/49] fix: crash and wrong row changed when applying a
 malformed changeset

Entries of a table without name, entries of a second table record with the same
name but other columns and updates without the old value of a key were not refused.
---
 geodiff/src/drivers/sqlitedriver.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index c469533..1c4ff82 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -725,7 +725,7 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
     if ( sqlite3_get_autocommit( mDb->get() ) )
       throw GeoDiffException( "Conflict encountered while applying changes, transaction has been rolled back" );
 
-    if ( entry.table->name != lastTableName )
+    if ( !stmtInsert || entry.table->name != lastTableName )
     {
       std::string tableName = entry.table->name;
       lastTableName = tableName;
@@ -734,15 +734,6 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
       if ( tbl.columns.size() == 0 )
         throw GeoDiffException( "No such table: " + tableName );
 
-      if ( tbl.columns.size() != entry.table->columnCount() )
-        throw GeoDiffException( "Wrong number of columns for table: " + tableName );
-
-      for ( size_t i = 0; i < entry.table->columnCount(); ++i )
-      {
-        if ( tbl.columns[i].isPrimaryKey != entry.table->primaryKeys[i] )
-          throw GeoDiffException( "Mismatch of primary keys in table: " + tableName );
-      }
-
       stmtInsert.reset( new Sqlite3Stmt );
       stmtInsert->prepare( mDb, sqlForInsert( tableName, tbl ) );
 
@@ -753,6 +744,16 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
       stmtDelete->prepare( mDb, sqlForDelete( tableName, tbl ) );
     }
 
+    // there may be several table records with the same name
+    if ( tbl.columns.size() != entry.table->columnCount() )
+      throw GeoDiffException( "Wrong number of columns for table: " + tbl.name );
+
+    for ( size_t i = 0; i < entry.table->columnCount(); ++i )
+    {
+      if ( tbl.columns[i].isPrimaryKey != entry.table->primaryKeys[i] )
+        throw GeoDiffException( "Mismatch of primary keys in table: " + tbl.name );
+    }
+
     if ( entry.op == SQLITE_INSERT )
     {
       for ( size_t i = 0; i < tbl.columns.size(); ++i )
@@ -776,6 +777,8 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
       {
         const Value &vOld = entry.oldValues[i];
         const Value &vNew = entry.newValues[i];
+        if ( vOld.type() == Value::TypeUndefined && ( tbl.columns[i].isPrimaryKey || vNew.type() != Value::TypeUndefined ) )
+          throw GeoDiffException( "Missing old value in update of table: " + tbl.name );
         sqlite3_bind_int( stmtUpdate->get(), static_cast<int>( i ) * 3 + 2, vNew.type() != Value::TypeUndefined );
         if ( vOld.type() != Value::TypeUndefined )
           bindValue( stmtUpdate->get(), static_cast<int>( i ) * 3 + 1, vOld );
-- 
2.43.0


From b627bcaebe071b01057fad62a90d731fbaa12f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:52 +0000
Subject: [PATCH 13/49] fix: reading past the end of truncated or corrupted
 changesets, corruption taken for the end of file

Also start a new table when inverting if only the columns of the table record differ.
---
 geodiff/src/changesetreader.cpp | 25 +++++++++++++++++++++----
 geodiff/src/changesetutils.cpp  |  2 +-
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/geodiff/src/changesetreader.cpp b/geodiff/src/changesetreader.cpp
index 27ca43c..a4936f1 100644
--- a/geodiff/src/changesetreader.cpp
+++ b/geodiff/src/changesetreader.cpp
@@ -12,6 +12,7 @@
 #include <assert.h>
 #include <memory.h>
 
+#include <algorithm>
 #include <sstream>
 
 
@@ -50,6 +51,9 @@ bool ChangesetReader::nextEntry( ChangesetEntry &entry )
     }
     else if ( type == ChangesetEntry::OpInsert || type == ChangesetEntry::OpUpdate || type == ChangesetEntry::OpDelete )
     {
+      if ( mCurrentTable.columnCount() == 0 )
+        throwReaderError( "nextEntry: entry without a table record" );
+
       int indirect = readByte();
       if ( type != ChangesetEntry::OpInsert )
         readRowValues( entry.oldValues );
@@ -60,6 +64,10 @@ bool ChangesetReader::nextEntry( ChangesetEntry &entry )
       entry.table = &mCurrentTable;
       return true;  // we're done!
     }
+    else
+    {
+      throwReaderError( "nextEntry: unexpected record type" );
+    }
   }
   return false;
 }
@@ -87,8 +95,13 @@ char ChangesetReader::readByte()
 int ChangesetReader::readVarint()
 {
   u32 value;
-  const unsigned char *ptr = ( const unsigned char * )mBuffer->c_buf() + mOffset;
-  int nBytes = getVarint32( ptr, value );
+  unsigned char data[9] = { 0 };  // a varint takes 1-9 bytes, there may be less left in the buffer
+  int nAvailable = std::min( 9, mBuffer->size() - mOffset );
+  if ( nAvailable > 0 )
+    memcpy( data, mBuffer->c_buf() + mOffset, nAvailable );
+  int nBytes = getVarint32( data, value );
+  if ( nBytes > nAvailable )
+    throwReaderError( "readVarint: at the end of buffer" );
   mOffset += nBytes;
   return value;
 }
@@ -123,6 +136,8 @@ void ChangesetReader::readRowValues( std::vector<Value> &values )
       // 64-bit int (big endian)
       int64_t v;
       uint64_t x;
+      if ( mBuffer->size() - mOffset < 8 )
+        throwReaderError( "readRowValues: int: at the end of buffer" );
       memcpy( &x, mBuffer->c_buf() + mOffset, 8 );
       mOffset += 8;
       x = be64toh( x ); // convert big endian to host
@@ -134,6 +149,8 @@ void ChangesetReader::readRowValues( std::vector<Value> &values )
       // 64-bit double (big endian)
       double v;
       uint64_t x;
+      if ( mBuffer->size() - mOffset < 8 )
+        throwReaderError( "readRowValues: double: at the end of buffer" );
       memcpy( &x, mBuffer->c_buf() + mOffset, 8 );
       mOffset += 8;
       x = be64toh( x ); // convert big endian to host
@@ -143,7 +160,7 @@ void ChangesetReader::readRowValues( std::vector<Value> &values )
     else if ( type == Value::TypeText || type == Value::TypeBlob ) // 0x03 or 0x04
     {
       int len = readVarint();
-      if ( mOffset + len > mBuffer->size() )
+      if ( len < 0 || len > mBuffer->size() - mOffset )
         throwReaderError( "readRowValues: text/blob: at the end of buffer" );
       values[i].setString( type == Value::TypeText ? Value::TypeText : Value::TypeBlob, mBuffer->c_buf() + mOffset, len );
       mOffset += len;
@@ -174,7 +191,7 @@ void ChangesetReader::readTableRecord()
   */
 
   int nCol = readVarint();
-  if ( nCol < 0 || nCol > 65536 )
+  if ( nCol <= 0 || nCol > 65536 )
     throwReaderError( "readByte: unexpected number of columns" );
 
   mCurrentTable.primaryKeys.clear();
diff --git a/geodiff/src/changesetutils.cpp b/geodiff/src/changesetutils.cpp
index 429f50d..b3d6d8b 100644
--- a/geodiff/src/changesetutils.cpp
+++ b/geodiff/src/changesetutils.cpp
@@ -29,7 +29,7 @@ void invertChangeset( ChangesetReader &reader, ChangesetWriter &writer )
   while ( reader.nextEntry( entry ) )
   {
     assert( entry.table );
-    if ( entry.table->name != currentTableName )
+    if ( entry.table->name != currentTableName || entry.table->primaryKeys != currentPkeys )
     {
       writer.beginTable( *entry.table );
       currentTableName = entry.table->name;
-- 
2.43.0


From 12514b8b83cf28f25f2db2c34f5869ba0f7dbceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:56 +0000
Subject: [PATCH 14/49] fix: rebase of changesets with different columns of a
 table read past the end of recorded values

---
 geodiff/src/geodiffrebase.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 707dd39..2e22bcb 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -37,6 +37,7 @@
  */
 struct TableRebaseInfo
 {
+  std::vector<bool> primaryKeys;      //!< columns of the table (and whether they are a part of the primary key)
   std::set<Value> inserted;           //!< pkeys that were inserted
   std::set<Value> deleted;            //!< pkeys that were deleted
   std::map<Value, std::vector<Value> > updated;  //!< new column values for each recorded row (identified by pkey)
@@ -233,6 +234,10 @@ int _parse_old_changeset( ChangesetReader &reader_BASE_THEIRS, DatabaseRebaseInf
     Value pk = _get_primary_key( entry );
 
     TableRebaseInfo &tableInfo = dbInfo.tables[entry.table->name];
+    if ( tableInfo.primaryKeys.empty() )
+      tableInfo.primaryKeys = entry.table->primaryKeys;
+    if ( tableInfo.primaryKeys != entry.table->primaryKeys )
+      throw GeoDiffException( "Mismatch of columns in table: " + entry.table->name );
 
     if ( entry.op == ChangesetEntry::OpInsert )
     {
@@ -291,6 +296,8 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
       continue;  // this table is not in our records at all - no rebasing needed
 
     const TableRebaseInfo &tableInfo = tableIt->second;
+    if ( tableInfo.primaryKeys != entry.table->primaryKeys )
+      throw GeoDiffException( "Mismatch of columns in table: " + tableName );
 
     if ( entry.op == ChangesetEntry::OpInsert )
     {
@@ -534,6 +541,8 @@ int _prepare_new_changeset( ChangesetReader &reader, const std::string &changese
     {
       tableDefinitions[tableName] = *entry.table;
     }
+    if ( tableDefinitions[tableName].primaryKeys != entry.table->primaryKeys )
+      throw GeoDiffException( "Mismatch of columns in table: " + tableName );
 
     auto tablesIt = dbInfo.tables.find( tableName );
     if ( tablesIt == dbInfo.tables.end() )
-- 
2.43.0


From 96c8c519d56e3f977d86d1495d0ba6886b7ae479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:22 +0000
Subject: [PATCH 15/49] fix: NULL arguments and unreadable changesets could
 terminate the process

---
 geodiff/src/geodiff.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index a5b50e2..4e559ea 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -154,7 +154,7 @@ int GEODIFF_createRebasedChangeset( const char *base,
                                     const char *conflictfile
                                   )
 {
-  if ( !conflictfile )
+  if ( !base || !modified || !changeset_their || !changeset || !conflictfile )
   {
     Logger::instance().error( "NULL arguments to GEODIFF_createRebasedChangeset" );
     return GEODIFF_ERROR;
@@ -270,12 +270,20 @@ int GEODIFF_changesCount( const char *changeset )
     return -1;
   }
 
-  int changesCount = 0;
-  ChangesetEntry entry;
-  while ( reader.nextEntry( entry ) )
-    ++changesCount;
+  try
+  {
+    int changesCount = 0;
+    ChangesetEntry entry;
+    while ( reader.nextEntry( entry ) )
+      ++changesCount;
 
-  return changesCount;
+    return changesCount;
+  }
+  catch ( GeoDiffException exc )
+  {
+    Logger::instance().error( exc );
+    return -1;
+  }
 }
 
 static int listChangesJSON( const char *changeset, const char *jsonfile, bool onlySummary )
@@ -322,7 +330,7 @@ int GEODIFF_listChangesSummary( const char *changeset, const char *jsonfile )
 
 int GEODIFF_invertChangeset( const char *changeset, const char *changeset_inv )
 {
-  if ( !changeset )
+  if ( !changeset || !changeset_inv )
   {
     Logger::instance().error( "NULL arguments to GEODIFF_invertChangeset" );
     return GEODIFF_ERROR;
@@ -402,7 +410,7 @@ int GEODIFF_rebaseEx( const char *driverName,
                       const char *base2their,
                       const char *conflictfile )
 {
-  if ( !base || !modified || !modified || !conflictfile )
+  if ( !driverName || !base || !modified || !base2their || !conflictfile )
   {
     Logger::instance().error( "NULL arguments to GEODIFF_rebase" );
     return GEODIFF_ERROR;
-- 
2.43.0


From eb55a3173a053849baf3663d5b4f1ec900381777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:07 +0000
Subject: [PATCH 16/49] fix: an error while reading rows was taken for the end
 of the result

Changesets, dumps and lists of tables were silently incomplete.
---
 geodiff/src/drivers/sqlitedriver.cpp | 16 ++++++++--------
 geodiff/src/drivers/sqliteutils.cpp  | 22 ++++++++++++++++------
 geodiff/src/drivers/sqliteutils.h    |  2 ++
 3 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 1c4ff82..00acbc4 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -178,7 +178,7 @@ std::vector<std::string> SqliteDriver::listTables( bool useModified )
                                " ORDER BY name";
   Sqlite3Stmt statement;
   statement.prepare( mDb, "%s", all_tables_sql.c_str() );
-  while ( SQLITE_ROW == sqlite3_step( statement.get() ) )
+  while ( statement.nextRow() )
   {
     const char *name = ( const char * )sqlite3_column_text( statement.get(), 0 );
     if ( !name )
@@ -222,7 +222,7 @@ bool tableExists( std::shared_ptr<Sqlite3Db> db, const std::string &tableName, c
   Sqlite3Stmt stmtHasGeomColumnsInfo;
   stmtHasGeomColumnsInfo.prepare( db, "SELECT name FROM \"%w\".sqlite_master WHERE type='table' "
                                   "AND name='%q'", dbName.c_str(), tableName.c_str() );
-  return sqlite3_step( stmtHasGeomColumnsInfo.get() ) == SQLITE_ROW;
+  return stmtHasGeomColumnsInfo.nextRow();
 }
 
 TableSchema SqliteDriver::tableSchema( const std::string &tableName, bool useModified )
@@ -237,7 +237,7 @@ TableSchema SqliteDriver::tableSchema( const std::string &tableName, bool useMod
 
   Sqlite3Stmt statement;
   statement.prepare( mDb, "PRAGMA '%q'.table_info('%q')", dbName.c_str(), tableName.c_str() );
-  while ( SQLITE_ROW == sqlite3_step( statement.get() ) )
+  while ( statement.nextRow() )
   {
     const unsigned char *zName = sqlite3_column_text( statement.get(), 1 );
     if ( zName == nullptr )
@@ -269,7 +269,7 @@ TableSchema SqliteDriver::tableSchema( const std::string &tableName, bool useMod
   int srsId = -1;
   Sqlite3Stmt stmtGeomCol;
   stmtGeomCol.prepare( mDb, "SELECT * FROM \"%w\".gpkg_geometry_columns WHERE table_name = '%q'", dbName.c_str(), tableName.c_str() );
-  if ( SQLITE_ROW == sqlite3_step( stmtGeomCol.get() ) )
+  if ( stmtGeomCol.nextRow() )
   {
     const unsigned char *chrColumnName = sqlite3_column_text( stmtGeomCol.get(), 1 );
     const unsigned char *chrTypeName = sqlite3_column_text( stmtGeomCol.get(), 2 );
@@ -304,7 +304,7 @@ TableSchema SqliteDriver::tableSchema( const std::string &tableName, bool useMod
   {
     Sqlite3Stmt stmtCrs;
     stmtCrs.prepare( mDb, "SELECT * FROM \"%w\".gpkg_spatial_ref_sys WHERE srs_id = %d", dbName.c_str(), srsId );
-    if ( SQLITE_ROW != sqlite3_step( stmtCrs.get() ) )
+    if ( !stmtCrs.nextRow() )
       throw GeoDiffException( "Unable to find entry in gpkg_spatial_ref_sys for srs_id = " + std::to_string( srsId ) );
 
     const unsigned char *chrAuthName = sqlite3_column_text( stmtCrs.get(), 2 );
@@ -469,7 +469,7 @@ static void handleInserted( const std::string &tableName, const TableSchema &tbl
   std::string sqlInserted = sqlFindInserted( tableName, tbl, reverse );
   Sqlite3Stmt statementI;
   statementI.prepare( db, "%s", sqlInserted.c_str() );
-  while ( SQLITE_ROW == sqlite3_step( statementI.get() ) )
+  while ( statementI.nextRow() )
   {
     if ( first )
     {
@@ -501,7 +501,7 @@ static void handleUpdated( const std::string &tableName, const TableSchema &tbl,
 
   Sqlite3Stmt statement;
   statement.prepare( db, "%s", sqlModified.c_str() );
-  while ( SQLITE_ROW == sqlite3_step( statement.get() ) )
+  while ( statement.nextRow() )
   {
     if ( first )
     {
@@ -976,7 +976,7 @@ void SqliteDriver::dumpData( ChangesetWriter &writer, bool useModified )
     bool first = true;
     Sqlite3Stmt statementI;
     statementI.prepare( mDb, "SELECT %s FROM \"%w\".\"%w\"", allColumnNames( dbName, tableName, tbl ).c_str(), dbName.c_str(), tableName.c_str() );
-    while ( SQLITE_ROW == sqlite3_step( statementI.get() ) )
+    while ( statementI.nextRow() )
     {
       if ( first )
       {
diff --git a/geodiff/src/drivers/sqliteutils.cpp b/geodiff/src/drivers/sqliteutils.cpp
index b6c1ba6..9c77449 100644
--- a/geodiff/src/drivers/sqliteutils.cpp
+++ b/geodiff/src/drivers/sqliteutils.cpp
@@ -135,6 +135,16 @@ void Sqlite3Stmt::close()
   }
 }
 
+bool Sqlite3Stmt::nextRow()
+{
+  int rc = sqlite3_step( mStmt );
+  if ( rc != SQLITE_ROW && rc != SQLITE_DONE )
+  {
+    throw GeoDiffException( "SQL query failed: " + std::string( sqlite3_errmsg( sqlite3_db_handle( mStmt ) ) ) );
+  }
+  return rc == SQLITE_ROW;
+}
+
 std::string Sqlite3Stmt::expandedSql() const
 {
   char *str = sqlite3_expanded_sql( mStmt );
@@ -233,7 +243,7 @@ void sqliteTriggers( std::shared_ptr<Sqlite3Db> db, std::vector<std::string> &tr
 
   Sqlite3Stmt statament;
   statament.prepare( db, "%s", "select name, sql from sqlite_master where type = 'trigger'" );
-  while ( SQLITE_ROW == sqlite3_step( statament.get() ) )
+  while ( statament.nextRow() )
   {
     const char *name = ( char * ) sqlite3_column_text( statament.get(), 0 );
     const char *sql = ( char * ) sqlite3_column_text( statament.get(), 1 );
@@ -300,7 +310,7 @@ ForeignKeys sqliteForeignKeys( std::shared_ptr<Sqlite3Db> db, const std::string
     {
       Sqlite3Stmt pStmt;     /* SQL statement being run */
       pStmt.prepare( db, "SELECT * FROM %s.pragma_foreign_key_list(%Q)", dbName.c_str(), fromTableName.c_str() );
-      while ( SQLITE_ROW == sqlite3_step( pStmt.get() ) )
+      while ( pStmt.nextRow() )
       {
         const char *fk_to_table = ( const char * )sqlite3_column_text( pStmt.get(), 2 );
         const char *fk_from = ( const char * )sqlite3_column_text( pStmt.get(), 3 );
@@ -344,7 +354,7 @@ void sqliteTables( std::shared_ptr<Sqlite3Db> db,
                                " ORDER BY name";
   Sqlite3Stmt statament;
   statament.prepare( db, "%s", all_tables_sql.c_str() );
-  while ( SQLITE_ROW == sqlite3_step( statament.get() ) )
+  while ( statament.nextRow() )
   {
     const char *name = ( const char * )sqlite3_column_text( statament.get(), 0 );
     if ( !name )
@@ -409,7 +419,7 @@ std::vector<std::string> sqliteColumnNames(
   */
   const char *zTab = tableName.c_str();
   pStmt.prepare( db, "PRAGMA %s.index_list=%Q", zDb.c_str(), zTab );
-  while ( SQLITE_ROW == sqlite3_step( pStmt.get() ) )
+  while ( pStmt.nextRow() )
   {
     if ( sqlite3_stricmp( ( const char * )sqlite3_column_text( pStmt.get(), 3 ), "pk" ) == 0 )
     {
@@ -425,7 +435,7 @@ std::vector<std::string> sqliteColumnNames(
     int nCol = 0;
     truePk = 0;
     pStmt.prepare( db, "PRAGMA %s.index_xinfo=%Q", zDb.c_str(), zPkIdxName.c_str() );
-    while ( SQLITE_ROW == sqlite3_step( pStmt.get() ) )
+    while ( pStmt.nextRow() )
     {
       nCol++;
       if ( sqlite3_column_int( pStmt.get(), 5 ) ) { nKey++; continue; }
@@ -451,7 +461,7 @@ std::vector<std::string> sqliteColumnNames(
 
   naz = nPK;
   az.resize( naz );
-  while ( SQLITE_ROW == sqlite3_step( pStmt.get() ) )
+  while ( pStmt.nextRow() )
   {
     int iPKey;
     std::string name = ( char * )sqlite3_column_text( pStmt.get(), 1 );
diff --git a/geodiff/src/drivers/sqliteutils.h b/geodiff/src/drivers/sqliteutils.h
index b6038f1..42adde3 100644
--- a/geodiff/src/drivers/sqliteutils.h
+++ b/geodiff/src/drivers/sqliteutils.h
@@ -43,6 +43,8 @@ class Sqlite3Stmt
     void prepare( std::shared_ptr<Sqlite3Db> db, const char *zFormat, ... );
     sqlite3_stmt *get();
     void close();
+    //! Steps to the next row of the result, returns false when there are no more rows. Throws GeoDiffException on error
+    bool nextRow();
     //! Returns SQL statement with bound parameters expanded
     std::string expandedSql() const;
   private:
-- 
2.43.0


From d7d69c55043300aa055a15b638ed37366242985a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:38 +0000
Subject: [PATCH 17/49] fix: failures to write an output file were not reported

Changesets, JSON and conflict files could be incomplete although success was returned.
---
 geodiff/src/changesetwriter.cpp |  7 +++++++
 geodiff/src/changesetwriter.h   |  3 +++
 geodiff/src/geodiff.cpp         | 15 +++++++++++----
 geodiff/src/geodiffrebase.cpp   |  5 +++--
 geodiff/src/geodiffutils.cpp    | 20 +++++++++++++++++---
 5 files changed, 41 insertions(+), 9 deletions(-)

diff --git a/geodiff/src/changesetwriter.cpp b/geodiff/src/changesetwriter.cpp
index 3b7b6fe..d3afadb 100644
--- a/geodiff/src/changesetwriter.cpp
+++ b/geodiff/src/changesetwriter.cpp
@@ -52,6 +52,13 @@ void ChangesetWriter::writeEntry( const ChangesetEntry &entry )
     writeRowValues( entry.newValues );
 }
 
+void ChangesetWriter::close()
+{
+  mFile.close();
+  if ( mFile.fail() )
+    throw GeoDiffException( "unable to write changeset" );
+}
+
 void ChangesetWriter::writeByte( char c )
 {
   mFile.write( &c, 1 );
diff --git a/geodiff/src/changesetwriter.h b/geodiff/src/changesetwriter.h
index 81a40b8..32dcfcf 100644
--- a/geodiff/src/changesetwriter.h
+++ b/geodiff/src/changesetwriter.h
@@ -33,6 +33,9 @@ class ChangesetWriter
     //! writes table change entry
     void writeEntry( const ChangesetEntry &entry );
 
+    //! closes the file. Throws GeoDiffException if anything could not be written
+    void close();
+
   private:
 
     void writeByte( char c );
diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index 4e559ea..1bbbeb4 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -95,6 +95,7 @@ int GEODIFF_createChangesetEx( const char *driverName, const char *driverExtraIn
     if ( !writer.open( changeset ) )
       throw GeoDiffException( "Unable to open changeset file for writing: " + std::string( changeset ) );
     driver->createChangeset( writer );
+    writer.close();
   }
   catch ( GeoDiffException exc )
   {
@@ -308,13 +309,13 @@ static int listChangesJSON( const char *changeset, const char *jsonfile, bool on
       res = changesetToJSONSummary( reader );
     else
       res = changesetToJSON( reader );
+    flushString( jsonfile, res );
   }
   catch ( GeoDiffException exc )
   {
     Logger::instance().error( exc );
     return GEODIFF_ERROR;
   }
-  flushString( jsonfile, res );
   return GEODIFF_SUCCESS;
 }
 
@@ -359,6 +360,7 @@ int GEODIFF_invertChangeset( const char *changeset, const char *changeset_inv )
   try
   {
     invertChangeset( reader, writer );
+    writer.close();
   }
   catch ( GeoDiffException exc )
   {
@@ -539,8 +541,10 @@ int GEODIFF_makeCopy( const char *driverSrcName, const char *driverSrcExtraInfo,
     // get source data
     {
       ChangesetWriter writer;
-      writer.open( tmpFileChangeset.c_path() );
+      if ( !writer.open( tmpFileChangeset.c_path() ) )
+        throw GeoDiffException( "Unable to open changeset file for writing: " + tmpFileChangeset.path() );
       driverSrc->dumpData( writer );
+      writer.close();
     }
 
     // create destination
@@ -556,7 +560,8 @@ int GEODIFF_makeCopy( const char *driverSrcName, const char *driverSrcExtraInfo,
     // insert data to destination
     {
       ChangesetReader reader;
-      reader.open( tmpFileChangeset.c_path() );
+      if ( !reader.open( tmpFileChangeset.c_path() ) )
+        throw GeoDiffException( "Unable to open changeset file for reading: " + tmpFileChangeset.path() );
       driverDst->applyChangeset( reader );
     }
   }
@@ -598,8 +603,10 @@ int GEODIFF_dumpData( const char *driverName, const char *driverExtraInfo, const
 
     // get source data
     ChangesetWriter writer;
-    writer.open( changeset );
+    if ( !writer.open( changeset ) )
+      throw GeoDiffException( "Unable to open changeset file for writing: " + std::string( changeset ) );
     driver->dumpData( writer );
+    writer.close();
   }
   catch ( GeoDiffException exc )
   {
diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 2e22bcb..ab7d553 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -597,6 +597,7 @@ int _prepare_new_changeset( ChangesetReader &reader, const std::string &changese
       }
     }
   }
+  writer.close();
 
   return GEODIFF_SUCCESS;
 }
@@ -673,7 +674,7 @@ bool concatChangesets( const std::string &A, const std::string &B, const std::st
     return true;
   }
 
-  sqlite3_changegroup *pGrp;
+  sqlite3_changegroup *pGrp = nullptr;
   int rc = sqlite3changegroup_new( &pGrp );
   if ( rc == SQLITE_OK ) rc = sqlite3changegroup_add( pGrp, bufA.size(), bufA.v_buf() );
   if ( rc == SQLITE_OK ) rc = sqlite3changegroup_add( pGrp, bufB.size(), bufB.v_buf() );
@@ -697,6 +698,6 @@ bool concatChangesets( const std::string &A, const std::string &B, const std::st
   if ( pGrp )
     sqlite3changegroup_delete( pGrp );
 
-  return false;
+  return rc != SQLITE_OK;
 }
 
diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index f19c26b..0182e8e 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -188,8 +188,11 @@ void Buffer::write( const std::string &filename )
   {
     throw GeoDiffException( "Unable to open " + filename + " for writing" );
   }
-  fwrite( mZ, mAlloc, 1, f );
-  fclose( f );
+  size_t written = fwrite( mZ, 1, mAlloc, f );
+  if ( fclose( f ) != 0 || written != ( size_t ) mAlloc )
+  {
+    throw GeoDiffException( "Unable to write " + filename );
+  }
 }
 
 const char *Buffer::c_buf() const
@@ -288,7 +291,16 @@ void filecopy( const std::string &to, const std::string &from )
   std::ifstream  src( from, std::ios::binary );
   std::ofstream  dst( to,   std::ios::binary );
 
-  dst << src.rdbuf();
+  if ( !src.is_open() || !dst.is_open() )
+    throw GeoDiffException( "Unable to copy " + from + " to " + to );
+
+  // operator<< would fail if there is nothing to copy
+  if ( src.peek() != std::ifstream::traits_type::eof() )
+    dst << src.rdbuf();
+
+  dst.close();
+  if ( src.bad() || dst.fail() )
+    throw GeoDiffException( "Unable to copy " + from + " to " + to );
 #endif
 }
 
@@ -430,6 +442,8 @@ void flushString( const std::string &filename, const std::string &str )
   std::ofstream out( filename );
   out << str;
   out.close();
+  if ( out.fail() )
+    throw GeoDiffException( "Unable to write " + filename );
 }
 
 std::string getEnvVar( std::string const &key, const std::string &defaultVal )
-- 
2.43.0


From 93532538bd5a056901cf6742e20492c13ed53dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:38 +0000
Subject: [PATCH 18/49] fix: size of files over 2 GB was truncated, a file of
 exactly 4 GB was taken for an empty one

---
 geodiff/src/geodiffutils.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index 0182e8e..d6fd7b7 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -25,6 +25,7 @@
 #include <gpkg.h>
 #include <locale>
 #include <codecvt>
+#include <limits>
 
 #ifdef _WIN32
 #define UNICODE
@@ -108,6 +109,11 @@ void Buffer::read( const std::string &filename )
     fclose( fp );
     throw GeoDiffException( "Unable to read file size of " + filename );
   }
+  if ( off_end > std::numeric_limits<int>::max() )
+  {
+    fclose( fp );
+    throw GeoDiffException( "File is too large: " + filename );
+  }
   mAlloc = ( size_t )off_end;
   mUsed = mAlloc;
 
-- 
2.43.0


From 5f37c1e8b97b24053655765cbefea4cd4890e6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:38 +0000
Subject: [PATCH 19/49] fix: an empty directory given as an output file was
 removed

---
 geodiff/src/geodiffutils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index d6fd7b7..cb43698 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -317,7 +317,7 @@ void fileremove( const std::string &path )
 #ifdef WIN32
     _wremove( stringToWString( path ).c_str() );
 #else
-    remove( path.c_str() );
+    unlink( path.c_str() );  // unlike remove() it does not remove directories
 #endif
   }
 }
-- 
2.43.0


From ed436a19940732cccf35e6f295f2edcf550f4ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:57 +0000
Subject: [PATCH 20/49] fix: errors were not logged by default, info messages
 never printed

The documented default level is 1 (errors), and level 3 prints infos.
---
 geodiff/src/geodifflogger.cpp | 9 ++++++---
 geodiff/src/geodiffrebase.cpp | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/geodiff/src/geodifflogger.cpp b/geodiff/src/geodifflogger.cpp
index 8350f4d..e750d22 100644
--- a/geodiff/src/geodifflogger.cpp
+++ b/geodiff/src/geodifflogger.cpp
@@ -8,14 +8,14 @@
 #include "geodiffutils.hpp"
 #include <iostream>
 
-int _envInt( const char *key )
+int _envInt( const char *key, int defaultVal )
 {
   char *val = getenv( key );
   if ( val )
   {
     return atoi( val );
   }
-  return 0;
+  return defaultVal;
 }
 
 void StdoutLogger( GEODIFF_LoggerLevel level, const char *msg )
@@ -28,6 +28,9 @@ void StdoutLogger( GEODIFF_LoggerLevel level, const char *msg )
     case LevelWarning:
       std::cout << "Warn: " << msg << std::endl;
       break;
+    case LevelInfo:
+      std::cout << "Info: " << msg << std::endl;
+      break;
     case LevelDebug:
       std::cout << "Debug: " << msg << std::endl;
       break;
@@ -38,7 +41,7 @@ void StdoutLogger( GEODIFF_LoggerLevel level, const char *msg )
 Logger::Logger()
 {
   // Sort out which
-  int envLevel = _envInt( "GEODIFF_LOGGER_LEVEL" );
+  int envLevel = _envInt( "GEODIFF_LOGGER_LEVEL", GEODIFF_LoggerLevel::LevelError );
   if ( envLevel >= 0 && envLevel <= GEODIFF_LoggerLevel::LevelDebug )
   {
     setMaxLogLevel( static_cast<GEODIFF_LoggerLevel>( envLevel ) );
diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index ab7d553..25197c0 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -579,7 +579,7 @@ int _prepare_new_changeset( ChangesetReader &reader, const std::string &changese
   ChangesetWriter writer;
   if ( !writer.open( changesetNew ) )
   {
-    std::cout << "unable to open file for writing " << changesetNew << std::endl;
+    Logger::instance().error( "unable to open file for writing " + changesetNew );
     return GEODIFF_ERROR;
   }
 
-- 
2.43.0


From 19ac768b7c20079b073e791c99d7a2148688c79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:43 +0000
Subject: [PATCH 21/49] fix: concurrent operations used the same temporary
 files

Names were made with unseeded rand(), so every process used the same ones, or
next to the output under a name that may be in use. Also accept TMPDIR
without a trailing slash.
---
 geodiff/src/geodiff.cpp      |  8 ++++----
 geodiff/src/geodiffutils.cpp | 23 +++++++++++++++++++++--
 geodiff/src/geodiffutils.hpp |  3 +++
 3 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index 1bbbeb4..9a29eef 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -176,7 +176,7 @@ int GEODIFF_createRebasedChangeset( const char *base,
       driver->checkCompatibleForRebase();  // will throw GeoDiffException in case of problems
     }
 
-    TmpFile changeset_BASE_MODIFIED( std::string( changeset ) + "_BASE_MODIFIED" );
+    TmpFile changeset_BASE_MODIFIED( std::string( changeset ) + "_BASE_MODIFIED_" + uniqueName() );
     int rc = GEODIFF_createChangeset( base, modified, changeset_BASE_MODIFIED.c_path() );
     if ( rc != GEODIFF_SUCCESS )
       return rc;
@@ -394,7 +394,7 @@ int GEODIFF_rebase( const char *base,
 
   std::string root = std::string( modified );
 
-  TmpFile base2theirs( root + "_base2theirs.bin" );
+  TmpFile base2theirs( root + "_base2theirs_" + uniqueName() + ".bin" );
   if ( GEODIFF_createChangeset( base, modified_their, base2theirs.c_path() ) != GEODIFF_SUCCESS )
   {
     Logger::instance().error( "Unable to perform GEODIFF_createChangeset base2theirs" );
@@ -422,7 +422,7 @@ int GEODIFF_rebaseEx( const char *driverName,
 
   try
   {
-    std::string root = tmpdir() + "geodiff_" + randomString( 6 );
+    std::string root = tmpdir() + "geodiff_" + uniqueName();
 
     // situation 1: base2theirs is null, so we do not need rebase. modified is already fine
     if ( !GEODIFF_hasChanges( base2their ) )
@@ -517,7 +517,7 @@ int GEODIFF_makeCopy( const char *driverSrcName, const char *driverSrcExtraInfo,
     return GEODIFF_ERROR;
   }
 
-  TmpFile tmpFileChangeset( tmpdir() + "geodiff_changeset" + std::to_string( rand() ) );
+  TmpFile tmpFileChangeset( tmpdir() + "geodiff_changeset_" + uniqueName() );
 
   try
   {
diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index cb43698..cff0884 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -21,6 +21,7 @@
 #include <iostream>
 #include <sstream>
 #include <algorithm>
+#include <atomic>
 #include <cctype>
 #include <gpkg.h>
 #include <locale>
@@ -472,7 +473,12 @@ std::string tmpdir()
 
   return wstringToString( tempDirPath );
 #else
-  return getEnvVar( "TMPDIR", "/tmp/" );
+  std::string path = getEnvVar( "TMPDIR", "/tmp/" );
+  if ( path.empty() )
+    path = "/tmp/";
+  if ( path.back() != '/' )
+    path += "/";
+  return path;
 #endif
 }
 
@@ -637,9 +643,22 @@ std::string randomString( size_t length )
     "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
     "abcdefghijklmnopqrstuvwxyz";
     const size_t max_index = ( sizeof( charset ) - 1 );
-    return charset[ rand() % max_index ];
+    unsigned char rnd;
+    sqlite3_randomness( 1, &rnd );  // unlike rand() it has a different seed in each process
+    return charset[ rnd % max_index ];
   };
   std::string str( length, 0 );
   std::generate_n( str.begin(), length, randchar );
   return str;
 }
+
+std::string uniqueName()
+{
+  static std::atomic<unsigned int> counter( 0 );
+#ifdef _WIN32
+  unsigned long pid = GetCurrentProcessId();
+#else
+  unsigned long pid = getpid();
+#endif
+  return std::to_string( pid ) + "_" + std::to_string( ++counter ) + "_" + randomString( 6 );
+}
diff --git a/geodiff/src/geodiffutils.hpp b/geodiff/src/geodiffutils.hpp
index 67f4787..1fbd836 100644
--- a/geodiff/src/geodiffutils.hpp
+++ b/geodiff/src/geodiffutils.hpp
@@ -118,6 +118,9 @@ std::string tmpdir();
 //! Returns string given number of random alpha-numeric characters
 std::string randomString( size_t length );
 
+//! string for names of temporary files: different in every call, thread and process
+std::string uniqueName();
+
 //! converts std::string to std::wstring
 std::wstring stringToWString( const std::string &str );
 
-- 
2.43.0


From a3b7dca9d2284e60399ac40f376c7ef23581ad4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:24 +0000
Subject: [PATCH 22/49] fix: JSON output was not valid or not exact for some
 values and table names

Backslashes and control characters in texts, special characters in table names,
non-finite numbers, and doubles that need more than 6 decimal places.
---
 geodiff/src/changesetutils.cpp | 47 +++++++++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 6 deletions(-)

diff --git a/geodiff/src/changesetutils.cpp b/geodiff/src/changesetutils.cpp
index b3d6d8b..4398d0b 100644
--- a/geodiff/src/changesetutils.cpp
+++ b/geodiff/src/changesetutils.cpp
@@ -11,6 +11,10 @@
 #include "changesetwriter.h"
 #include "tableschema.h"
 
+#include <cmath>
+#include <stdio.h>
+#include <stdlib.h>
+
 
 ChangesetTable schemaToChangesetTable( const std::string &tableName, const TableSchema &tbl )
 {
@@ -78,12 +82,43 @@ void invertChangeset( ChangesetReader &reader, ChangesetWriter &writer )
 
 std::string escapeJSONString( std::string val )
 {
-  //val = replace( val, "\\", "\\\\" );  // TODO: escaping of backslashes?
+  val = replace( val, "\\", "\\\\" );
   val = replace( val, "\n", "\\n" );
   val = replace( val, "\r", "\\r" );
   val = replace( val, "\t", "\\t" );
   val = replace( val, "\"", "\\\"" );
-  return "\"" + val + "\"";
+
+  // other control characters are not allowed in JSON strings either
+  std::string res;
+  for ( char c : val )
+  {
+    if ( ( unsigned char ) c < 0x20 )
+    {
+      char buf[8];
+      snprintf( buf, sizeof( buf ), "\\u%04x", c );
+      res += buf;
+    }
+    else
+    {
+      res += c;
+    }
+  }
+  return "\"" + res + "\"";
+}
+
+//! Returns the number in such a form that it can be read back without any loss
+static std::string doubleToJSON( double v )
+{
+  if ( !std::isfinite( v ) )
+    return "null";  // JSON has no representation of such numbers
+
+  std::string str = std::to_string( v );
+  if ( strtod( str.c_str(), nullptr ) == v )
+    return str;
+
+  char buf[32];
+  snprintf( buf, sizeof( buf ), "%.17g", v );
+  return buf;
 }
 
 std::string valueToJSON( const Value &value )
@@ -95,7 +130,7 @@ std::string valueToJSON( const Value &value )
     case Value::TypeInt:
       return std::to_string( value.getInt() );
     case Value::TypeDouble:
-      return std::to_string( value.getDouble() );
+      return doubleToJSON( value.getDouble() );
     case Value::TypeText:
       return escapeJSONString( value.getString() );
     case Value::TypeBlob:
@@ -122,7 +157,7 @@ std::string changesetEntryToJSON( const ChangesetEntry &entry )
     status = "delete";
 
   std::string res = "      {\n";
-  res += "        \"table\": \"" + entry.table->name + "\",\n";
+  res += "        \"table\": " + escapeJSONString( entry.table->name ) + ",\n";
   res += "        \"type\": \"" + status + "\",\n";
   res += "        \"changes\": [";
   bool first = true;
@@ -224,7 +259,7 @@ std::string changesetToJSONSummary( ChangesetReader &reader )
   {
     std::string tableJson;
     tableJson += "      {\n";
-    tableJson += "         \"table\": \"" + kv.first + "\",\n";
+    tableJson += "         \"table\": " + escapeJSONString( kv.first ) + ",\n";
     tableJson += "         \"insert\": " + std::to_string( kv.second.inserts ) + ",\n";
     tableJson += "         \"update\": " + std::to_string( kv.second.updates ) + ",\n";
     tableJson += "         \"delete\": " + std::to_string( kv.second.deletes ) + "\n";
@@ -252,7 +287,7 @@ std::string conflictToJSON( const ConflictFeature &conflict )
   std::string status = "conflict";
 
   std::string res = "      {\n";
-  res += "        \"table\": \"" + std::string( conflict.tableName() ) + "\",\n";
+  res += "        \"table\": " + escapeJSONString( conflict.tableName() ) + ",\n";
   res += "        \"type\": \"" + status + "\",\n";
   res += "        \"fid\": " + ( conflict.pk().type() == Value::TypeInt ? "\"" + std::to_string( conflict.pk().getInt() ) + "\"" : valueToJSON( conflict.pk() ) ) + ",\n";
   res += "        \"changes\": [";
-- 
2.43.0


From 31287663757decb5bd76164ab28e3338f38ee2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:27 +0000
Subject: [PATCH 23/49] fix: rebase did not refuse databases with implicit or
 differently spelled foreign keys

---
 geodiff/src/drivers/sqliteutils.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/geodiff/src/drivers/sqliteutils.cpp b/geodiff/src/drivers/sqliteutils.cpp
index 9c77449..7284dca 100644
--- a/geodiff/src/drivers/sqliteutils.cpp
+++ b/geodiff/src/drivers/sqliteutils.cpp
@@ -316,20 +316,17 @@ ForeignKeys sqliteForeignKeys( std::shared_ptr<Sqlite3Db> db, const std::string
         const char *fk_from = ( const char * )sqlite3_column_text( pStmt.get(), 3 );
         const char *fk_to = ( const char * )sqlite3_column_text( pStmt.get(), 4 );
 
-        if ( fk_to_table && fk_from && fk_to )
+        // the parent's column is NULL if the foreign key refers to its primary key implicitly
+        if ( fk_to_table && fk_from )
         {
           // TODO: this part is not speed-optimized and could be slower for databases with a lot of
           // columns and/or foreign keys. For each entry we grab column names again
           // and we search for index of value in plain std::vector array...
           std::vector<std::string> fromColumnNames = sqliteColumnNames( db, dbName, fromTableName );
           int fk_from_id = indexOf( fromColumnNames, fk_from );
-          if ( fk_from_id < 0 )
-            continue;
 
           std::vector<std::string> toColumnNames = sqliteColumnNames( db, dbName, fk_to_table );
-          int fk_to_id = indexOf( toColumnNames, fk_to );
-          if ( fk_to_id < 0 )
-            continue;
+          int fk_to_id = fk_to ? indexOf( toColumnNames, fk_to ) : -1;
 
           TableColumn from( fromTableName, fk_from_id );
           TableColumn to( fk_to_table, fk_to_id );
-- 
2.43.0


From d7f1b06f69f8c8c4a16533efb1a01b6d8bd4f424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:08 +0000
Subject: [PATCH 24/49] fix: crash when joining changesets with tables whose
 names differ only in case

---
 geodiff/src/geodiffrebase.cpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 25197c0..dae9f04 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -658,8 +658,33 @@ int rebase( const std::string &changeset_BASE_THEIRS,
   return GEODIFF_SUCCESS;
 }
 
+//! Throws an exception if tables with the same name (SQLite ignores its case) have different columns:
+//! sqlite3changegroup_add() does not check that for tables that follow each other in one changeset
+static void checkTablesForConcat( const std::vector<std::string> &changesets )
+{
+  std::map<std::string, std::vector<bool> > tables;
+  for ( const std::string &changeset : changesets )
+  {
+    ChangesetReader reader;
+    if ( !reader.open( changeset ) )
+      throw GeoDiffException( "Unable to open changeset: " + changeset );
+
+    ChangesetEntry entry;
+    while ( reader.nextEntry( entry ) )
+    {
+      std::string name = entry.table->name;
+      std::transform( name.begin(), name.end(), name.begin(), []( unsigned char c ) { return c >= 'A' && c <= 'Z' ? c - 'A' + 'a' : c; } );
+      auto it = tables.insert( std::make_pair( name, entry.table->primaryKeys ) ).first;
+      if ( it->second != entry.table->primaryKeys )
+        throw GeoDiffException( "Table " + entry.table->name + " does not have the same columns in changesets to be joined" );
+    }
+  }
+}
+
 bool concatChangesets( const std::string &A, const std::string &B, const std::string &C, const std::string &out )
 {
+  checkTablesForConcat( { A, B, C } );
+
   Buffer bufA;
   bufA.read( A );
 
-- 
2.43.0


From 07b91ab99b1542c9d4609c0dc7ed5d09579e38af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:53 +0000
Subject: [PATCH 25/49] fix: makeCopy reported success for an empty destination
 file name

---
 geodiff/src/drivers/sqliteutils.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geodiff/src/drivers/sqliteutils.cpp b/geodiff/src/drivers/sqliteutils.cpp
index 7284dca..4c59c2e 100644
--- a/geodiff/src/drivers/sqliteutils.cpp
+++ b/geodiff/src/drivers/sqliteutils.cpp
@@ -32,6 +32,12 @@ void Sqlite3Db::create( const std::string &filename )
 {
   close();
 
+  // sqlite would use a temporary database
+  if ( filename.empty() )
+  {
+    throw GeoDiffException( "Unable to create sqlite3 database - missing file name" );
+  }
+
   if ( fileexists( filename ) )
   {
     throw GeoDiffException( "Unable to create sqlite3 database - already exists: " + filename );
-- 
2.43.0


From 3daff2b44306f21c87fe2b8b8025c1078c0bca21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:32 +0000
Subject: [PATCH 26/49] fix: rebase with missing inputs left an old conflict
 file

---
 geodiff/src/geodiff.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index 9a29eef..d06e68d 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -384,14 +384,14 @@ int GEODIFF_rebase( const char *base,
     return GEODIFF_ERROR;
   }
 
+  fileremove( conflictfile );
+
   if ( !fileexists( base ) || !fileexists( modified_their ) || !fileexists( modified ) )
   {
     Logger::instance().error( "Missing input files in GEODIFF_rebase" );
     return GEODIFF_ERROR;
   }
 
-  fileremove( conflictfile );
-
   std::string root = std::string( modified );
 
   TmpFile base2theirs( root + "_base2theirs_" + uniqueName() + ".bin" );
-- 
2.43.0


From b0fe298c67385504585f9c33366e6c3b0c886a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:20 +0000
Subject: [PATCH 27/49] fix: a conflict file that cannot be removed went
 unnoticed

---
 geodiff/src/drivers/sqlitedriver.cpp |  4 +++-
 geodiff/src/geodiff.cpp              | 24 ++++++++++++++++++++----
 geodiff/src/geodiffutils.cpp         |  9 ++++++---
 geodiff/src/geodiffutils.hpp         |  4 ++--
 4 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 00acbc4..94043fe 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -142,7 +142,9 @@ void SqliteDriver::create( const DriverParametersMap &conn, bool overwrite )
 
   if ( overwrite )
   {
-    fileremove( base );  // remove if the file exists already
+    // remove if the file exists already
+    if ( !fileremove( base ) )
+      throw GeoDiffException( "Unable to remove " + base );
   }
 
   mDb = std::make_shared<Sqlite3Db>();
diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index d06e68d..6c6b72e 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -160,7 +160,11 @@ int GEODIFF_createRebasedChangeset( const char *base,
     Logger::instance().error( "NULL arguments to GEODIFF_createRebasedChangeset" );
     return GEODIFF_ERROR;
   }
-  fileremove( conflictfile );
+  if ( !fileremove( conflictfile ) )
+  {
+    Logger::instance().error( "Unable to remove " + std::string( conflictfile ) );
+    return GEODIFF_ERROR;
+  }
 
   try
   {
@@ -204,7 +208,11 @@ int GEODIFF_createRebasedChangesetEx( const char *driverName,
     return GEODIFF_ERROR;
   }
 
-  fileremove( conflictfile );
+  if ( !fileremove( conflictfile ) )
+  {
+    Logger::instance().error( "Unable to remove " + std::string( conflictfile ) );
+    return GEODIFF_ERROR;
+  }
 
   // TODO: use driverName + driverExtraInfo + base when creating rebased
   // changeset (e.g. to check whether a newly created ID is actually free)
@@ -384,7 +392,11 @@ int GEODIFF_rebase( const char *base,
     return GEODIFF_ERROR;
   }
 
-  fileremove( conflictfile );
+  if ( !fileremove( conflictfile ) )
+  {
+    Logger::instance().error( "Unable to remove " + std::string( conflictfile ) );
+    return GEODIFF_ERROR;
+  }
 
   if ( !fileexists( base ) || !fileexists( modified_their ) || !fileexists( modified ) )
   {
@@ -418,7 +430,11 @@ int GEODIFF_rebaseEx( const char *driverName,
     return GEODIFF_ERROR;
   }
 
-  fileremove( conflictfile );
+  if ( !fileremove( conflictfile ) )
+  {
+    Logger::instance().error( "Unable to remove " + std::string( conflictfile ) );
+    return GEODIFF_ERROR;
+  }
 
   try
   {
diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index cff0884..bf5a5f0 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -311,16 +311,19 @@ void filecopy( const std::string &to, const std::string &from )
 #endif
 }
 
-void fileremove( const std::string &path )
+bool fileremove( const std::string &path )
 {
   if ( fileexists( path ) )
   {
 #ifdef WIN32
-    _wremove( stringToWString( path ).c_str() );
+    return _wremove( stringToWString( path ).c_str() ) == 0;
 #else
-    unlink( path.c_str() );  // unlike remove() it does not remove directories
+    // unlike remove() it does not remove directories
+    struct stat buffer;
+    return unlink( path.c_str() ) == 0 || ( stat( path.c_str(), &buffer ) == 0 && S_ISDIR( buffer.st_mode ) );
 #endif
   }
+  return true;
 }
 
 bool fileexists( const std::string &path )
diff --git a/geodiff/src/geodiffutils.hpp b/geodiff/src/geodiffutils.hpp
index 1fbd836..f08dc3d 100644
--- a/geodiff/src/geodiffutils.hpp
+++ b/geodiff/src/geodiffutils.hpp
@@ -78,8 +78,8 @@ std::string conflict2Str( int c );
 //! copy file from to location. override if exists
 void filecopy( const std::string &to, const std::string &from );
 
-//! remove a file if exists
-void fileremove( const std::string &path );
+//! remove a file if exists, false if it could not be removed (directories are left alone)
+bool fileremove( const std::string &path );
 
 //! whether file exists
 bool fileexists( const std::string &path );
-- 
2.43.0


From 82eb867c3242609dc111bb99c333fea7a79676dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 28/49] fix: a PostgreSQL delete that matched no row was taken
 for success

The conflict was logged, but not counted: the rest of the changeset was committed.
---
 geodiff/src/drivers/postgresdriver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index b078586..480fae5 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -827,6 +827,7 @@ void PostgresDriver::applyChangeset( ChangesetReader &reader )
       if ( res.affectedRows() != "1" )
       {
         logApplyConflict( "delete_nothing", entry );
+        ++conflictCount;
         Logger::instance().warn( "Wrong number of affected rows! Expected 1, got: " + res.affectedRows() );
       }
     }
-- 
2.43.0


From 5eb137024643f0cee648e4b5a2e17d266789d0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 29/49] fix: PostgreSQL columns in several indexes were listed
 once per index

Tables with an index next to the primary key could not be compared or changed.
---
 geodiff/src/drivers/postgresdriver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 480fae5..652f255 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -252,7 +252,7 @@ TableSchema PostgresDriver::tableSchema( const std::string &tableName, bool useM
     "                 || '''::regclass)'"
     "       ) AS has_sequence"
     " FROM pg_catalog.pg_attribute a"
-    " LEFT JOIN pg_index i ON a.attrelid = i.indrelid AND a.attnum = ANY(i.indkey)"
+    " LEFT JOIN pg_index i ON a.attrelid = i.indrelid AND a.attnum = ANY(i.indkey) AND i.indisprimary"
     " WHERE"
     "   a.attnum > 0"
     "   AND NOT a.attisdropped"
-- 
2.43.0


From e37613378e83f4ac7c5292dd6d3b6ef90b5c6373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 30/49] fix: PostgreSQL tables whose name needs quoting could
 not be compared, dumped or created

---
 geodiff/src/drivers/postgresdriver.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 652f255..83eab5a 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -360,9 +360,9 @@ static std::string sqlFindInserted( const std::string &schemaNameBase, const std
   }
 
   std::string sql = "SELECT " + allColumnNames( tbl ) + " FROM " +
-                    quotedIdentifier( reverse ? schemaNameBase : schemaNameModified ) + "." + tableName +
+                    quotedIdentifier( reverse ? schemaNameBase : schemaNameModified ) + "." + quotedIdentifier( tableName ) +
                     " WHERE NOT EXISTS ( SELECT 1 FROM " +
-                    quotedIdentifier( reverse ? schemaNameModified : schemaNameBase ) + "." + tableName +
+                    quotedIdentifier( reverse ? schemaNameModified : schemaNameBase ) + "." + quotedIdentifier( tableName ) +
                     " WHERE " + exprPk + ")";
   return sql;
 }
@@ -896,7 +896,7 @@ void PostgresDriver::createTables( const std::vector<TableSchema> &tables )
   for ( const TableSchema &tbl : tables )
   {
     // TODO: in the future sqlite driver should not add any changes to meta tables
-    if ( tbl.name.rfind( "gpkg_" ) == 0 )
+    if ( tbl.name.rfind( "gpkg_", 0 ) == 0 )
       continue;   // skip any changes to GPKG meta tables
 
     std::string sql, pkeyCols, columns;
@@ -921,7 +921,7 @@ void PostgresDriver::createTables( const std::vector<TableSchema> &tables )
       }
     }
 
-    sql = "CREATE TABLE " + quotedIdentifier( mBaseSchema ) + "." + tbl.name + " (";
+    sql = "CREATE TABLE " + quotedIdentifier( mBaseSchema ) + "." + quotedIdentifier( tbl.name ) + " (";
     sql += columns;
     sql += ", PRIMARY KEY (" + pkeyCols + ")";
     sql += ");";
@@ -946,7 +946,7 @@ void PostgresDriver::dumpData( ChangesetWriter &writer, bool useModified )
       continue;  // ignore tables without primary key - they can't be compared properly
 
     std::string sql = "SELECT " + allColumnNames( tbl ) + " FROM " +
-                      quotedIdentifier( useModified ? mModifiedSchema : mBaseSchema ) + "." + tableName;
+                      quotedIdentifier( useModified ? mModifiedSchema : mBaseSchema ) + "." + quotedIdentifier( tableName );
 
     PostgresResult res( execSql( mConn, sql ) );
     int rows = res.rowCount();
-- 
2.43.0


From 5c7604f34ca6760d5be16e6d8c8d07a6a18670b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 31/49] fix: changes between NULL and a value were missing in
 PostgreSQL changesets

With one side NULL the condition is NULL, not true. Also changes of case in citext columns were
missing, and tables with key columns only gave a syntax error.
---
 geodiff/src/drivers/postgresdriver.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 83eab5a..1aaf931 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -388,14 +388,20 @@ static std::string sqlFindModified( const std::string &schemaNameBase, const std
 
       std::string colBase = "b." + quotedIdentifier( c.name );
       std::string colModified = "a." + quotedIdentifier( c.name );
-      exprOther += "NOT ((" + colBase + " IS NULL AND " + colModified + " IS NULL) OR (" + colBase + " = " + colModified + "))";
+      if ( c.type == "citext" )
+      {
+        // also differences of case are changes
+        colBase += "::text";
+        colModified += "::text";
+      }
+      exprOther += colBase + " IS DISTINCT FROM " + colModified;
     }
   }
 
   std::string sql = "SELECT " + allColumnNames( tbl, "a" ) + ", " + allColumnNames( tbl, "b" ) + " FROM " +
                     quotedIdentifier( schemaNameModified ) + "." + quotedIdentifier( tableName ) + " a, " +
                     quotedIdentifier( schemaNameBase ) + "." + quotedIdentifier( tableName ) + " b" +
-                    " WHERE " + exprPk + " AND (" + exprOther + ")";
+                    " WHERE " + exprPk + " AND (" + ( exprOther.empty() ? "FALSE" : exprOther ) + ")";
   return sql;
 }
 
-- 
2.43.0


From a1eb75658484afdceed3acc07ee3c70cc1f7ad3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 32/49] fix: crash when applying changesets with several
 records of a PostgreSQL table

Entries of a second table record with the same name but other columns were not refused, nor
those of a table without name.
---
 geodiff/src/drivers/postgresdriver.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 1aaf931..d9a9758 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -755,7 +755,7 @@ void PostgresDriver::applyChangeset( ChangesetReader &reader )
     if ( tableName.rfind( "gpkg_", 0 ) == 0 )
       continue;   // skip any changes to GPKG meta tables
 
-    if ( tableName != lastTableName )
+    if ( tbl.columns.empty() || tableName != lastTableName )
     {
       lastTableName = tableName;
       tbl = tableSchema( tableName );
@@ -763,15 +763,6 @@ void PostgresDriver::applyChangeset( ChangesetReader &reader )
       if ( tbl.columns.size() == 0 )
         throw GeoDiffException( "No such table: " + tableName );
 
-      if ( tbl.columns.size() != entry.table->columnCount() )
-        throw GeoDiffException( "Wrong number of columns for table: " + tableName );
-
-      for ( size_t i = 0; i < entry.table->columnCount(); ++i )
-      {
-        if ( tbl.columns[i].isPrimaryKey != entry.table->primaryKeys[i] )
-          throw GeoDiffException( "Mismatch of primary keys in table: " + tableName );
-      }
-
       // if a table has auto-incrementing pkey (using SEQUENCE object), we may need
       // to update the sequence value after doing some inserts (or subsequent INSERTs would fail)
       std::string seqName = getSequenceObjectName( tbl, autoIncrementPkeyIndex );
@@ -779,6 +770,16 @@ void PostgresDriver::applyChangeset( ChangesetReader &reader )
         tableNameToSequenceName[tableName] = seqName;
     }
 
+    // there may be several table records with the same name
+    if ( tbl.columns.size() != entry.table->columnCount() )
+      throw GeoDiffException( "Wrong number of columns for table: " + tableName );
+
+    for ( size_t i = 0; i < entry.table->columnCount(); ++i )
+    {
+      if ( tbl.columns[i].isPrimaryKey != entry.table->primaryKeys[i] )
+        throw GeoDiffException( "Mismatch of primary keys in table: " + tableName );
+    }
+
     if ( entry.op == ChangesetEntry::OpInsert )
     {
       std::string sql = sqlForInsert( mBaseSchema, tableName, tbl, entry.newValues );
-- 
2.43.0


From 0296e97f5c1612c2563121eaaa25f46d3a3022c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 33/49] fix: conflicting changes of citext columns were applied
 in PostgreSQL

Values that differ from the expected ones only in case were overwritten or deleted.
---
 geodiff/src/drivers/postgresdriver.cpp | 27 +++++++++++++-------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index d9a9758..dad8c4b 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -671,6 +671,17 @@ static std::string sqlForInsert( const std::string &schemaName, const std::strin
 }
 
 
+//! Condition that a column has the given value
+static std::string sqlColumnEquals( const TableColumnInfo &col, const Value &value )
+{
+  if ( value.type() == Value::TypeNull )
+    return quotedIdentifier( col.name ) + " IS NULL";
+
+  // unlike for other columns, comparison of citext columns ignores differences of case
+  return quotedIdentifier( col.name ) + ( col.type == "citext" ? "::text" : "" ) + " = " + valueToSql( value, col );
+}
+
+
 static std::string sqlForUpdate( const std::string &schemaName, const std::string &tableName, const TableSchema &tbl, const std::vector<Value> &oldValues, const std::vector<Value> &newValues )
 {
   std::string sql;
@@ -696,11 +707,7 @@ static std::string sqlForUpdate( const std::string &schemaName, const std::strin
       if ( !first )
         sql += " AND ";
       first = false;
-      sql += quotedIdentifier( tbl.columns[i].name );
-      if ( oldValues[i].type() == Value::TypeNull )
-        sql += " IS NULL";
-      else
-        sql += " = " + valueToSql( oldValues[i], tbl.columns[i] );
+      sql += sqlColumnEquals( tbl.columns[i], oldValues[i] );
     }
   }
 
@@ -716,15 +723,7 @@ static std::string sqlForDelete( const std::string &schemaName, const std::strin
   {
     if ( i > 0 )
       sql += " AND ";
-    if ( tbl.columns[i].isPrimaryKey )
-      sql += quotedIdentifier( tbl.columns[i].name ) + " = " + valueToSql( values[i], tbl.columns[i] );
-    else
-    {
-      if ( values[i].type() == Value::TypeNull )
-        sql += quotedIdentifier( tbl.columns[i].name ) + " IS NULL";
-      else
-        sql += quotedIdentifier( tbl.columns[i].name ) + " = " + valueToSql( values[i], tbl.columns[i] ) ;
-    }
+    sql += sqlColumnEquals( tbl.columns[i], values[i] );
   }
   return sql;
 }
-- 
2.43.0


From b645da41528ab7c487d557af935d1e4d4ae8185f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 34/49] fix: PostgreSQL rows were updated without checking the
 old values

An update that lacks the old value of the key or of a changed column (malformed changeset) could
change any rows or overwrite conflicting values.
---
 geodiff/src/drivers/postgresdriver.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index dad8c4b..5a29207 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -690,7 +690,12 @@ static std::string sqlForUpdate( const std::string &schemaName, const std::strin
   bool first = true;
   for ( size_t i = 0; i < tbl.columns.size(); ++i )
   {
-    if ( newValues[i].type() != Value::TypeUndefined )
+    // without old values we could not tell which row to change or whether there is a conflict
+    bool changed = newValues[i].type() != Value::TypeUndefined;
+    if ( ( changed || tbl.columns[i].isPrimaryKey ) && oldValues[i].type() == Value::TypeUndefined )
+      throw GeoDiffException( "Missing old value in an update of table: " + tableName );
+
+    if ( changed )
     {
       if ( !first )
         sql += ", ";
-- 
2.43.0


From d751380bb8f691e67789942a1ac5a71a7e54e404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 35/49] fix: real numbers were rounded when written to
 PostgreSQL

Values were written with six decimal digits, so that small ones became zero and later changes of the
rows were taken for conflicts. Values that do not fit integer or boolean columns were changed silently.
---
 geodiff/src/drivers/postgresdriver.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 5a29207..a30eda7 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -14,8 +14,12 @@
 #include "postgresutils.h"
 
 #include <algorithm>
+#include <cmath>
+#include <iomanip>
 #include <iostream>
+#include <locale>
 #include <memory.h>
+#include <sstream>
 
 
 /**
@@ -501,14 +505,28 @@ static std::string valueToSql( const Value &v, const TableColumnInfo &col )
   }
   else if ( v.type() == Value::TypeInt )
   {
-    if ( col.type == "boolean" )
+    if ( col.type == "bool" || col.type == "boolean" )
+    {
+      if ( v.getInt() != 0 && v.getInt() != 1 )
+        throw GeoDiffException( "Unexpected value of boolean column " + col.name + ": " + std::to_string( v.getInt() ) );
       return v.getInt() ? "'t'" : "'f'";
+    }
     else
       return std::to_string( v.getInt() );
   }
   else if ( v.type() == Value::TypeDouble )
   {
-    return std::to_string( v.getDouble() );
+    double d = v.getDouble();
+    if ( isColumnInt( col ) && d != std::floor( d ) )
+      throw GeoDiffException( "Unexpected value of integer column " + col.name + ": " + std::to_string( d ) );
+
+    // 17 significant digits are enough to keep the exact value. The type is needed because real columns
+    // would not be equal to their values in double precision
+    std::ostringstream stream;
+    stream.imbue( std::locale::classic() );
+    stream << std::setprecision( 17 ) << d;
+    std::string str = std::isinf( d ) ? ( d > 0 ? "Infinity" : "-Infinity" ) : stream.str();
+    return "'" + str + "'::" + ( col.type == "real" ? "real" : "double precision" );
   }
   else if ( v.type() == Value::TypeText || v.type() == Value::TypeBlob )
   {
-- 
2.43.0


From 1cb1d72e0fe2ee37139d876b82e44e7e90229d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 36/49] fix: GeoPackage geometries with an envelope could not
 be written to PostgreSQL

The envelope was taken for the geometry itself; values too short for a header crashed.
---
 geodiff/src/drivers/postgresdriver.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index a30eda7..c04f923 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -534,8 +534,14 @@ static std::string valueToSql( const Value &v, const TableColumnInfo &col )
     {
       // handling of geometries - they are encoded with GPKG header
       std::string gpkgWkb = v.getString();
-      std::string wkb( gpkgWkb.size() - 8, 0 );
-      memcpy( &wkb[0], &gpkgWkb[8], gpkgWkb.size() - 8 );
+      if ( v.type() != Value::TypeBlob || gpkgWkb.size() < 8 )
+        throw GeoDiffException( "Unexpected value of geometry column: " + col.name );
+      // the header may contain also an envelope (XY, XYZ, XYM, XYZM)
+      static const size_t envelopeSizes[8] = { 0, 32, 48, 48, 64, 0, 0, 0 };
+      size_t headerSize = 8 + envelopeSizes[( gpkgWkb[3] >> 1 ) & 7];
+      if ( gpkgWkb.size() <= headerSize )
+        throw GeoDiffException( "Unexpected value of geometry column: " + col.name );
+      std::string wkb = gpkgWkb.substr( headerSize );
       return "ST_GeomFromWKB('\\x" + bin2hex( wkb ) + "', " + std::to_string( col.geomSrsId ) + ")";
     }
     return quotedString( v.getString() );
-- 
2.43.0


From 2ba2df3c403a6d2cf885bce768d15c4298d56ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 37/49] fix: texts with embedded NUL characters were truncated
 when written to PostgreSQL

The rest of the SQL command was cut off as well. Binary data could be taken for another value.
---
 geodiff/src/drivers/postgresdriver.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index c04f923..46effd1 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -544,7 +544,16 @@ static std::string valueToSql( const Value &v, const TableColumnInfo &col )
       std::string wkb = gpkgWkb.substr( headerSize );
       return "ST_GeomFromWKB('\\x" + bin2hex( wkb ) + "', " + std::to_string( col.geomSrsId ) + ")";
     }
-    return quotedString( v.getString() );
+    std::string str = v.getString();
+    if ( v.type() == Value::TypeBlob )
+    {
+      if ( col.type != "bytea" )
+        throw GeoDiffException( "Unexpected binary value of column: " + col.name );
+      return "'\\x" + bin2hex( str ) + "'";
+    }
+    if ( str.find( '\0' ) != std::string::npos )
+      throw GeoDiffException( "Unexpected NUL character in text of column: " + col.name );
+    return quotedString( str );
   }
   else
   {
-- 
2.43.0


From 34aacb2818636d1fe4c565085cafd6244c6d6f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:36 +0000
Subject: [PATCH 38/49] fix: unused PostgreSQL sequence was not updated after
 inserting its first value

The next automatic key would have been 1 again. Also keys that are not integers and sequence
values over 2^31 terminated the process or the operation.
---
 geodiff/src/drivers/postgresdriver.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 46effd1..23b7305 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -834,6 +834,8 @@ void PostgresDriver::applyChangeset( ChangesetReader &reader )
 
       if ( autoIncrementPkeyIndex != -1 )
       {
+        if ( entry.newValues[autoIncrementPkeyIndex].type() != Value::TypeInt )
+          throw GeoDiffException( "Unexpected value of primary key in table: " + tableName );
         int64_t pkey = entry.newValues[autoIncrementPkeyIndex].getInt();
         if ( autoIncrementTablesToFix.find( tableName ) == autoIncrementTablesToFix.end() )
           autoIncrementTablesToFix[tableName] = pkey;
@@ -923,9 +925,10 @@ void PostgresDriver::updateSequenceObject( const std::string &seqName, int64_t m
 {
   PostgresResult resCurrVal( execSql( mConn, "SELECT last_value FROM " + seqName ) );
   std::string currValueStr = resCurrVal.value( 0, 0 );
-  int currValue = std::stoi( currValueStr );
+  int64_t currValue = std::stoll( currValueStr );
 
-  if ( currValue < maxValue )
+  // a sequence that has not been used yet would return its current value as the next one
+  if ( currValue <= maxValue )
   {
     Logger::instance().info( "Updating sequence " + seqName + " from " + std::to_string( currValue ) + " to " + std::to_string( maxValue ) );
 
-- 
2.43.0


From 0e3a122b1e39f2114e317e395dc2c4e6a4123076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:36 +0000
Subject: [PATCH 39/49] fix: losing the connection to PostgreSQL terminated the
 process

The rollback threw an exception from a destructor.
---
 geodiff/src/drivers/postgresdriver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 23b7305..2ba7241 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -45,7 +45,8 @@ class PostgresTransaction
       if ( mConn )
       {
         // we had some problems - roll back any pending changes
-        PostgresResult res( execSql( mConn, "ROLLBACK" ) );
+        // (execSql() would throw an exception from the destructor e.g. if the connection has been lost)
+        PostgresResult res( ::PQexec( mConn, "ROLLBACK" ) );
       }
     }
 
-- 
2.43.0


From a5c12842522d3cb83934de3b80991895198455fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:36 +0000
Subject: [PATCH 40/49] fix: memory of failed PostgreSQL connections was not
 released

---
 geodiff/src/drivers/postgresdriver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 2ba7241..f2568a9 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -102,7 +102,9 @@ void PostgresDriver::openPrivate( const DriverParametersMap &conn )
 
   if ( PQstatus( c ) != CONNECTION_OK )
   {
-    throw GeoDiffException( "Cannot connect to PostgreSQL database: " + std::string( PQerrorMessage( c ) ) );
+    std::string err( PQerrorMessage( c ) );
+    PQfinish( c );
+    throw GeoDiffException( "Cannot connect to PostgreSQL database: " + err );
   }
 
   mConn = c;
-- 
2.43.0


From 2d06fa85aaf9f66cc882fa70de54e02bbd68e25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:03 +0000
Subject: [PATCH 41/49] fix: changesets created during concurrent modifications
 mixed several states of the data

Tables were read one after another without a transaction.
---
 geodiff/src/drivers/postgresdriver.cpp | 15 ++++++++++++--
 geodiff/src/drivers/sqlitedriver.cpp   | 27 ++++++++++++++++++++++++++
 2 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index f2568a9..fe0c6ed 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -32,10 +32,10 @@
 class PostgresTransaction
 {
   public:
-    PostgresTransaction( PGconn *conn )
+    PostgresTransaction( PGconn *conn, const std::string &mode = std::string() )
       : mConn( conn )
     {
-      PostgresResult res( execSql( mConn, "BEGIN" ) );
+      PostgresResult res( execSql( mConn, "BEGIN" + mode ) );
       if ( res.status() != PGRES_COMMAND_OK )
         throw GeoDiffException( "Unable to start transaction" );
     }
@@ -71,6 +71,9 @@ static void logApplyConflict( const std::string &type, const ChangesetEntry &ent
   Logger::instance().warn( "CONFLICT: " + type + ":\n" + changesetEntryToJSON( entry ) );
 }
 
+//! Transaction mode where all queries see the same state of the database
+static const char *READ_SNAPSHOT = " ISOLATION LEVEL REPEATABLE READ READ ONLY";
+
 /////
 
 
@@ -648,6 +651,8 @@ void PostgresDriver::createChangeset( ChangesetWriter &writer )
   if ( !mConn )
     throw GeoDiffException( "Not connected to a database" );
 
+  PostgresTransaction transaction( mConn, READ_SNAPSHOT );
+
   std::vector<std::string> tablesBase = listTables( false );
   std::vector<std::string> tablesModified = listTables( true );
 
@@ -676,6 +681,8 @@ void PostgresDriver::createChangeset( ChangesetWriter &writer )
     handleInserted( mBaseSchema, mModifiedSchema, tableName, tbl, true, mConn, writer, first );   // DELETE
     handleUpdated( mBaseSchema, mModifiedSchema, tableName, tbl, mConn, writer, first );          // UPDATE
   }
+
+  transaction.commitChanges();
 }
 
 
@@ -988,6 +995,8 @@ void PostgresDriver::dumpData( ChangesetWriter &writer, bool useModified )
   if ( !mConn )
     throw GeoDiffException( "Not connected to a database" );
 
+  PostgresTransaction transaction( mConn, READ_SNAPSHOT );
+
   std::vector<std::string> tables = listTables();
   for ( const std::string &tableName : tables )
   {
@@ -1017,6 +1026,8 @@ void PostgresDriver::dumpData( ChangesetWriter &writer, bool useModified )
       writer.writeEntry( e );
     }
   }
+
+  transaction.commitChanges();
 }
 
 void PostgresDriver::checkCompatibleForRebase( bool )
diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 94043fe..3c5d09a 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -79,6 +79,29 @@ class Sqlite3SavepointTransaction
     std::shared_ptr<Sqlite3Db> mDb;
 };
 
+/**
+ * Makes all queries until the end of the scope see the same state of the databases,
+ * even if others are modifying them in the meanwhile.
+ */
+class Sqlite3ReadTransaction
+{
+  public:
+    Sqlite3ReadTransaction( std::shared_ptr<Sqlite3Db> db )
+      : mDb( db )
+    {
+      if ( sqlite3_exec( mDb.get()->get(), "BEGIN", 0, 0, 0 ) != SQLITE_OK )
+        throw GeoDiffException( "Unable to start transaction" );
+    }
+
+    ~Sqlite3ReadTransaction()
+    {
+      sqlite3_exec( mDb.get()->get(), "ROLLBACK", 0, 0, 0 );
+    }
+
+  private:
+    std::shared_ptr<Sqlite3Db> mDb;
+};
+
 
 ///////
 
@@ -543,6 +566,8 @@ static void handleUpdated( const std::string &tableName, const TableSchema &tbl,
 
 void SqliteDriver::createChangeset( ChangesetWriter &writer )
 {
+  Sqlite3ReadTransaction readTransaction( mDb );
+
   std::vector<std::string> tablesBase = listTables( false );
   std::vector<std::string> tablesModified = listTables( true );
 
@@ -967,6 +992,8 @@ void SqliteDriver::createTables( const std::vector<TableSchema> &tables )
 
 void SqliteDriver::dumpData( ChangesetWriter &writer, bool useModified )
 {
+  Sqlite3ReadTransaction readTransaction( mDb );
+
   std::string dbName = databaseName( useModified );
   std::vector<std::string> tables = listTables();
   for ( const std::string &tableName : tables )
-- 
2.43.0


From 660e524a7d419d62ed10b06450291b40312899d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:08 +0000
Subject: [PATCH 42/49] fix: texts written to PostgreSQL bytea columns were
 changed by escape sequences

---
 geodiff/src/drivers/postgresdriver.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index fe0c6ed..ddf8c4f 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -551,12 +551,10 @@ static std::string valueToSql( const Value &v, const TableColumnInfo &col )
       return "ST_GeomFromWKB('\\x" + bin2hex( wkb ) + "', " + std::to_string( col.geomSrsId ) + ")";
     }
     std::string str = v.getString();
-    if ( v.type() == Value::TypeBlob )
-    {
-      if ( col.type != "bytea" )
-        throw GeoDiffException( "Unexpected binary value of column: " + col.name );
+    if ( col.type == "bytea" )
       return "'\\x" + bin2hex( str ) + "'";
-    }
+    if ( v.type() == Value::TypeBlob )
+      throw GeoDiffException( "Unexpected binary value of column: " + col.name );
     if ( str.find( '\0' ) != std::string::npos )
       throw GeoDiffException( "Unexpected NUL character in text of column: " + col.name );
     return quotedString( str );
-- 
2.43.0


From e396093637a32db6a239b271f29c8049627ced07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:19 +0000
Subject: [PATCH 43/49] fix: keep Python logger callback alive as long as the
 library may call it

---
 pygeodiff/geodifflib.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pygeodiff/geodifflib.py b/pygeodiff/geodifflib.py
index e943fcd..1f71ada 100644
--- a/pygeodiff/geodifflib.py
+++ b/pygeodiff/geodifflib.py
@@ -46,6 +46,9 @@ def _parse_return_code(rc, msg):
     else:
         raise GeoDiffLibVersionError("Internal error (enum " + str(rc) + " not handled)")
 
+# callbacks in use, by handle of the library they were passed to
+_logger_callbacks = {}
+
 class GeoDiffLib:
     def __init__(self, name):
         if name is None:
@@ -90,9 +93,10 @@ class GeoDiffLib:
         func = self.lib.GEODIFF_setLoggerCallback
         CMPFUNC = ctypes.CFUNCTYPE(None, ctypes.c_int, ctypes.c_char_p)
         func.argtypes = [CMPFUNC]
-        # do not remove self, callback needs to be member
-        self.callbackLogger = CMPFUNC(callback)
-        func(self.callbackLogger)
+        callbackLogger = CMPFUNC(callback)
+        func(callbackLogger)
+        # the library goes on calling it even when this object is gone
+        _logger_callbacks[self.lib._handle] = callbackLogger
 
     def set_maximum_logger_level(self, maxLevel):
         func = self.lib.GEODIFF_setMaximumLoggerLevel
-- 
2.43.0


From 5ab4e275bc9ea524477ab2659c11038f4b4c6c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:36 +0000
Subject: [PATCH 44/49] fix: skip SQLite's internal tables, e.g. of ANALYZE

---
 geodiff/src/drivers/sqlitedriver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 3c5d09a..14ba6c6 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -231,8 +231,8 @@ std::vector<std::string> SqliteDriver::listTables( bool useModified )
     // table handled by triggers rtree_*_geometry_*
     if ( startsWith( tableName, "rtree_" ) )
       continue;
-    // internal table for AUTOINCREMENT
-    if ( tableName == "sqlite_sequence" )
+    // internal tables of SQLite: sqlite_sequence for AUTOINCREMENT, sqlite_stat1 and others for ANALYZE
+    if ( startsWith( tableName, "sqlite_" ) )
       continue;
 
     tableNames.push_back( tableName );
-- 
2.43.0


From 55e7ff65fee90880cb7d048098aff6eb21c72e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:36 +0000
Subject: [PATCH 45/49] fix: recognize Z values of PostgreSQL geometry columns

---
 geodiff/src/drivers/postgresdriver.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index ddf8c4f..ff60561 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -235,7 +235,7 @@ TableSchema PostgresDriver::tableSchema( const std::string &tableName, bool useM
   std::string schemaName = useModified ? mModifiedSchema : mBaseSchema;
 
   // try to figure out details of the geometry columns (if any)
-  std::string sqlGeomDetails = "SELECT f_geometry_column, type, srid FROM geometry_columns WHERE f_table_schema = " +
+  std::string sqlGeomDetails = "SELECT f_geometry_column, type, srid, coord_dimension FROM geometry_columns WHERE f_table_schema = " +
                                quotedString( schemaName ) + " AND f_table_name = " + quotedString( tableName );
   std::map<std::string, std::string> geomTypes;
   std::map<std::string, int> geomSrids;
@@ -245,6 +245,12 @@ TableSchema PostgresDriver::tableSchema( const std::string &tableName, bool useM
     std::string name = resGeomDetails.value( i, 0 );
     std::string type = resGeomDetails.value( i, 1 );
     std::string srid = resGeomDetails.value( i, 2 );
+    // only M values are shown in the type, Z values have to be recognized from the number of dimensions
+    std::string dimension = resGeomDetails.value( i, 3 );
+    if ( dimension == "3" && !type.empty() && type.back() != 'M' )
+      type += "Z";
+    else if ( dimension == "4" )
+      type += "ZM";
     int sridInt = srid.empty() ? -1 : atoi( srid.c_str() );
     geomTypes[name] = type;
     geomSrids[name] = sridInt;
-- 
2.43.0


From 67ae7af03aa85ffa20f117f8eaad01eeee1c4844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:36 +0000
Subject: [PATCH 46/49] fix: keep fractions of seconds of PostgreSQL timestamps

---
 geodiff/src/drivers/postgresdriver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index ff60561..3857daa 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -351,7 +351,8 @@ static std::string allColumnNames( const TableSchema &tbl, const std::string &pr
     {
       // by default postgresql would return date/time as a formatted string
       // e.g. "2020-07-13 16:17:54" but we want IS0-8601 format "2020-07-13T16:17:54Z"
-      columns += "to_char(" + name + ",'YYYY-MM-DD\"T\"HH24:MI:SS\"Z\"')";
+      // (or "2020-07-13T16:17:54.5Z" if there is a fraction of a second)
+      columns += "rtrim(rtrim(to_char(" + name + ",'YYYY-MM-DD\"T\"HH24:MI:SS.US'),'0'),'.') || 'Z'";
     }
     else
       columns += name;
-- 
2.43.0


From d536b8809a30f2254c44834b8c00d0885952907a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:50 +0000
Subject: [PATCH 47/49] fix: write numbers to JSON independently of the locale

---
 geodiff/src/changesetutils.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/geodiff/src/changesetutils.cpp b/geodiff/src/changesetutils.cpp
index 4398d0b..108f946 100644
--- a/geodiff/src/changesetutils.cpp
+++ b/geodiff/src/changesetutils.cpp
@@ -12,6 +12,9 @@
 #include "tableschema.h"
 
 #include <cmath>
+#include <iomanip>
+#include <locale>
+#include <sstream>
 #include <stdio.h>
 #include <stdlib.h>
 
@@ -112,13 +115,20 @@ static std::string doubleToJSON( double v )
   if ( !std::isfinite( v ) )
     return "null";  // JSON has no representation of such numbers
 
-  std::string str = std::to_string( v );
-  if ( strtod( str.c_str(), nullptr ) == v )
-    return str;
+  // the numbers must not depend on the locale
+  std::ostringstream stream;
+  stream.imbue( std::locale::classic() );
+  stream << std::fixed << v;
 
-  char buf[32];
-  snprintf( buf, sizeof( buf ), "%.17g", v );
-  return buf;
+  double readBack = 0;
+  std::istringstream reader( stream.str() );
+  reader.imbue( std::locale::classic() );
+  if ( reader >> readBack && readBack == v )
+    return stream.str();
+
+  stream.str( std::string() );
+  stream << std::defaultfloat << std::setprecision( 17 ) << v;
+  return stream.str();
 }
 
 std::string valueToJSON( const Value &value )
-- 
2.43.0


From e9d11e523153ba0ed688541c4373641c6a8ec82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:50 +0000
Subject: [PATCH 48/49] fix: read numbers of PostgreSQL independently of the
 locale

---
 geodiff/src/drivers/postgresdriver.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 3857daa..5541467 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -464,7 +464,13 @@ static Value resultToValue( const PostgresResult &res, int r, size_t i, const Ta
     }
     else if ( isColumnDouble( col ) )
     {
-      v.setDouble( atof( valueStr.c_str() ) );
+      // atof() would use the decimal separator of the locale
+      double d;
+      std::istringstream stream( valueStr );
+      stream.imbue( std::locale::classic() );
+      if ( !( stream >> d ) )
+        d = atof( valueStr.c_str() );  // infinity, not a number
+      v.setDouble( d );
     }
     else if ( isColumnText( col ) )
     {
-- 
2.43.0


From b693431fc04890b04818f27011fe5497f0d0c0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:50 +0000
Subject: [PATCH 49/49] fix: convert names of types to lower case independently
 of the locale

---
 geodiff/src/geodiffutils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index bf5a5f0..d997628 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -630,8 +630,9 @@ std::string concatNames( const std::vector<std::string> &names )
 std::string lowercaseString( const std::string &str )
 {
   std::string ret = str;
+  // unlike with std::tolower() the result does not depend on the locale
   std::transform( ret.begin(), ret.end(), ret.begin(),
-  []( unsigned char c ) { return std::tolower( c ); } );
+  []( unsigned char c ) { return c >= 'A' && c <= 'Z' ? c - 'A' + 'a' : c; } );
   return ret;
 }
 
-- 
2.43.0

