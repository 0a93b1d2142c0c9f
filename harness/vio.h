// Interposed file-system calls of the library under test (linked with --wrap). While a span is open each call is
// numbered; the observer runs before and after each of them (and between the pieces of a write): what it can read from
// the directory then is what a process that dies at that point leaves behind. One call, or all calls from one on, can
// be made to fail.
#pragma once
#include "pbt.h"
#include <functional>
#include <string>
namespace vio
{
  enum Kind { FAIL, PARTIAL };
  struct Fault { int at = -1; Kind kind = FAIL; bool sticky = false; int err = 5; uint64_t part = 0; };
  void root (const char * dir);                                         // changing calls outside it are reported
  void begin (const std::function<void (const char *)> & observer, Fault f);
  int end ();                                                           // number of calls that were made
  bool fired ();                                                        // whether a call failed because of the plan
  const char * call ();                                                 // the call that failed first
}
