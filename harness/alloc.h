// Allocation ledger and fault injection.  The library archive is linked with
// its references to malloc, calloc, realloc, free, strdup and strndup renamed
// to vf_*, so the ledger sees exactly the library's own allocations.
#pragma once
#include <cstddef>
#include <string>
namespace alloc {
  void reset();                    // forget everything, no faults
  size_t live();                   // allocations not yet freed
  std::string leak();              // "" or a description of what is still allocated
  extern unsigned long long count; // allocations since reset()
  void fail_at(long k,bool persist); // k-th allocation from now (0-based) fails; persist: and all later ones
  void no_fail();
  extern bool paused;              // no faults and no counting while set
  struct Pause{ bool o; Pause():o(paused){paused=true;} ~Pause(){paused=o;} };
  bool failed();                   // did an injected fault happen?
  extern void (*yield)(int);       // called at each allocation, when set
  struct Scope{ Scope(){reset();} };
}
