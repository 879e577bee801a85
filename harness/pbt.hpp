// A small property-based testing engine: every random choice of a case goes through one recorded
// choice sequence, so that a case can be replayed, mutated by a fuzzer and shrunk as one value.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <string>
#include <vector>

namespace pbt
{

struct Failure
{
  std::string msg;
};

// State of the running case that has to survive a crash of the process: lives in shared memory.
struct Shared
{
  static const uint32_t MAX_CHOICES = 1u << 18;
  static const uint32_t MAX_SPANS = 1u << 16;
  static const uint32_t TRACE = 1u << 17;
  volatile long long caseIndex;
  volatile int status; // 0 running, 1 passed, 2 failed, 3 overrun
  uint32_t nChoices;
  uint32_t nSpans;
  uint32_t traceLen;
  uint32_t msgLen;
  uint64_t choices[MAX_CHOICES];
  uint64_t maxes[MAX_CHOICES];
  uint32_t spanStart[MAX_SPANS];
  uint32_t spanEnd[MAX_SPANS];
  char trace[TRACE];
  char msg[8192];
};

class Case
{
public:
  // Generation from a seed.
  Case(Shared *sh, uint64_t seed, uint64_t stream);
  // Replay of recorded choices. Missing choices are 0.
  Case(Shared *sh, const std::vector<uint64_t> &choices);
  // Choices decoded from fuzzer bytes.
  Case(Shared *sh, const uint8_t *data, size_t size);

  uint64_t draw(uint64_t max); // uniform in [0,max]; 0 is the simplest value

  // lo..hi uniformly, lo being the simplest.
  long range(long lo, long hi) { return lo + (long) draw((uint64_t) (hi - lo)); }
  // lo..hi, biased towards the ends.
  long edgy(long lo, long hi);
  // true with pct percent; false is the simplest.
  bool chance(int pct) { return draw(99) >= (uint64_t) (100 - pct); }
  // Index by weight. Index 0 is the simplest.
  int weighted(std::initializer_list<int> weights);
  template <typename T> T pick(std::initializer_list<T> il) { return *(il.begin() + draw(il.size() - 1)); }
  template <typename T> const T &pickv(const std::vector<T> &v) { return v[draw(v.size() - 1)]; }
  uint8_t u8() { return (uint8_t) draw(255); }
  // Byte with special values more frequent.
  uint8_t sbyte();
  // Continue a sequence? Average length avg, at most max steps; counted by the caller's counter.
  bool more(int &count, int avg, int max);

  void log(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  void cls(const char *label);   // this case belongs to class <label>
  void count(const char *label, long n = 1);   // add to a total
  void nontrivial(bool yes = true) { isNontrivial |= yes; }
  void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3), noreturn));

  size_t openSpan();
  void closeSpan(size_t s);
  bool fuzzExhausted() const { return mode == FUZZ && fuzzPos >= fuzzSize; }

  bool isNontrivial = false;
  std::vector<std::string> classes;
  std::vector<std::pair<std::string, long>> counts;
  Shared *sh;

private:
  enum Mode { GEN, REPLAY, FUZZ } mode;
  uint64_t rng[2];
  const std::vector<uint64_t> *replay = nullptr;
  const uint8_t *fuzzData = nullptr;
  size_t fuzzSize = 0, fuzzPos = 0;
  uint64_t next();
};

struct Span
{
  Case &c;
  size_t s;
  explicit Span(Case &c) : c(c), s(c.openSpan()) {}
  ~Span() { c.closeSpan(s); }
};

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define STEP(c) pbt::Span PBT_CAT(span_, __LINE__)(c)

// A fixed scenario that is run before the generated cases. It fails by Case::fail() or by crashing.
// With an id that is listed in known_findings.txt a failure is a known finding, otherwise it is a violation.
struct Probe
{
  const char *id;
  const char *what;
  void (*run)(Case &);
};

struct Property
{
  const char *id;
  const char *title;
  const char *rule;      // how cases are made and what makes one non-trivial
  const char *level;
  long quickCases;
  long thoroughCases;
  void (*run)(Case &);
  std::vector<Probe> probes;
  std::vector<const char *> assumptions;
  long batch = 40;
  // For checks that enumerate a finite space: number of enumerated cases; 0 when random.
  long enumerated = 0;
  void (*runEnumerated)(Case &, long index) = nullptr;
};

extern Property property; // defined by each check

std::string hex(const uint8_t *p, size_t n);

}
