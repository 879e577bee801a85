#include "heap.hpp"
#include <cstdlib>
#include <cstring>
#include <map>

Heap heap;
static std::map<void *, size_t> &blocks()
{
  static auto *m = new std::map<void *, size_t>;
  return *m;
}

void Heap::start()
{
  blocks().clear();
  *this = Heap();
  on = true;
}
void Heap::stop()
{
  blocks().clear();
  *this = Heap();
}

// The linker sends the calls here (see check).
extern "C"
{
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);

static void *take(void *p, size_t n)
{
  if (p)
  {
    blocks()[p] = n;
    heap.used += n;
    if (heap.used > heap.peak) heap.peak = heap.used;
  }
  return p;
}
static bool refused(long n)
{
  bool no = heap.failing || (heap.limit >= 0 && heap.used + n > heap.limit);
  if (heap.failAt >= 0 && heap.failAt-- == 0) no = true;
  if (no) ++heap.failures;
  return no;
}
static void give(void *p)
{
  auto it = blocks().find(p);
  if (it == blocks().end()) return;
  heap.used -= it->second;
  blocks().erase(it);
}

void *__wrap_malloc(size_t n)
{
  if (!heap.on) return __real_malloc(n);
  if (refused(n)) return nullptr;
  return take(__real_malloc(n), n);
}
void *__wrap_calloc(size_t k, size_t n)
{
  if (!heap.on) return __real_calloc(k, n);
  if (refused(k * n)) return nullptr;
  return take(__real_calloc(k, n), k * n);
}
void *__wrap_realloc(void *p, size_t n)
{
  if (!heap.on) return __real_realloc(p, n);
  auto it = blocks().find(p);
  if (refused((long) n - (it == blocks().end() ? 0 : (long) it->second))) return nullptr;
  give(p);
  return take(__real_realloc(p, n), n);
}
void __wrap_free(void *p)
{
  if (heap.on) give(p);
  __real_free(p);
}
}
