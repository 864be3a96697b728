// A PostgreSQL stand-in behind libpq's interface: a parser for the SQL subset in use, PostgreSQL's
// typing, transaction and name rules, with rows held by SQLite. One "server" per process, in memory.
#pragma once
#include <string>
#include <vector>

namespace fakepq
{
  struct Cell { bool null = true; std::string v; };
  typedef std::vector<Cell> Row;
  //! Starts an empty server (without one, connections fail)
  void start();
  void stop();
  //! Runs statements, returns the error message or an empty string
  std::string exec( const std::string &sql );
  std::vector<Row> query( const std::string &sql );
  struct Column { std::string name, type; bool notNull, serial, key; };
  //! Columns of a table, in order
  std::vector<Column> columns( const std::string &schema, const std::string &table );
  std::vector<std::string> tables( const std::string &schema );
  //! What the next insert without the key would get
  long long nextval( const std::string &seq );
  //! How: 1 an error, 2 no memory for the result, 3 the connection breaks, 4 it cannot be established
  void failAt( long call, int how );
  //! Statements somebody else commits right before the given call
  void editAt( long call, const std::string &sql );
  long calls();
  //! Results and connections not released
  int openResults();
  int openConnections();
  bool inTransaction();
  const std::vector<std::string> &log();
  void clearLog();
}
