// The heap of the library: calls of malloc() and free() in the library's own code come here.
#pragma once
#include <cstddef>

struct Heap
{
  bool on = false;         // count from here on
  long limit = -1;         // bytes that can be allocated at a time, -1: no limit
  long used = 0, peak = 0; // bytes
  long failures = 0;
  bool failing = false;    // nothing can be allocated
  long failAt = -1;        // this many allocations succeed, the next fails
  void start();            // forgets what was allocated before
  void stop();
};
extern Heap heap;
