// Interposition on the system calls that touch files, whoever makes them (SQLite, stdio, iostreams,
// direct calls): a seccomp filter turns each into SIGSYS, whose handler hands it to a hook. Nothing in
// the code under test is replaced, and it does not matter by which library function it does its I/O.
#pragma once
#include <string>
#include <vector>
#include <cstdint>
#include <sys/types.h>

namespace sysio
{
  enum Kind { Open, Read, Write, Sync, Trunc, Close, Unlink, Rename, Mkdir, Stat, Lock, Seek, Other, NKinds };
  const char *kindName( Kind k );
  static const int PathMax = 200;

  struct Call
  {
    long nr;
    long a[6];
    Kind kind;
    char path[PathMax];        //!< relative to the watched directory
    char path2[PathMax];       //!< target of a rename
    int fd;                    //!< or -1
    bool creates;              //!< open with O_CREAT
    bool writes;               //!< open for writing
    long off;                  //!< position of a read or write, -1: the current one
    size_t len;
  };
  //! returns what the system call shall return (a value or -errno); runs in a signal handler
  typedef long ( *Hook )( Call &c, void *arg );

  //! Installs the filter for this process (and its children); false if the system does not allow it.
  bool install();
  //! Watch the files below dir from now on (calls to others pass). Files opened earlier are not watched.
  void watch( const std::string &dir, Hook h, void *arg );
  void unwatch();
  //! performs the system call
  long real( const Call &c );
  long rawSyscall( long nr, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0 );
}
