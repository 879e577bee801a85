// Circular buffer: bounded FIFO that drops the oldest entry when full, with correct metrics.
#include "pbt.hpp"
#include "world.hpp"
#include <CanTransport.h>
#include <CircularBuffer.h>
#include <memory>

using pbt::Case;

static VLCB::CANFrame make(uint32_t v)
{
  VLCB::CANFrame f;
  memset(&f, 0, sizeof f);
  f.id = v;
  f.len = v % 9;
  for (int i = 0; i < 8; ++i) f.data[i] = (uint8_t) (v * 31 + i);
  return f;
}
static uint32_t valueOf(const VLCB::CANFrame &f)
{
  VLCB::CANFrame g = make(f.id);
  return f.len == g.len && memcmp(f.data, g.data, 8) == 0 ? f.id : UINT32_MAX;
}

static void run(Case &c)
{
  int cap = 0;
  switch (c.weighted({5, 3, 2}))
  {
    case 0: cap = c.range(1, 8); break;
    case 1: cap = c.range(9, 127); break;
    case 2: cap = c.range(128, 255); break;
  }
  typedef VLCB::CircularBuffer<VLCB::CANFrame> B;
  c.log("capacity %d", cap);
  std::unique_ptr<B> b(new B(cap));
  std::deque<uint32_t> m;
  long puts = 0, gets = 0, over = 0, hwm = 0;
  uint32_t nextV = 1;
  bool wrapped = false, dropped = false;
  auto put = [&] {
    b->put(make(nextV));
    m.push_back(nextV++);
    ++puts;
    if ((int) m.size() > cap) { m.pop_front(); ++over; dropped = true; }
    if ((long) m.size() > hwm) hwm = m.size();
    if (puts > cap && gets > 0) wrapped = true;
  };
  auto popOne = [&] {
    if (m.empty()) return;
    uint32_t v = valueOf(b->pop());
    if (v != m.front()) c.fail("pop: returned entry %u, the oldest entry is %u", v, m.front());
    m.pop_front();
    ++gets;
  };
  auto checkState = [&] {
    bool av = b->available();
    if (av != !m.empty()) c.fail("available: says %d with %zu entries in the buffer", av, m.size());
    VLCB::CANFrame *p = b->peek();
    if (m.empty())
    {
      if (p) c.fail("peek: returned an entry of an empty buffer");
    }
    else
    {
      if (!p) c.fail("peek: returned nothing with %zu entries in the buffer", m.size());
      if (valueOf(*p) != m.front()) c.fail("peek: returned entry %u, the oldest entry is %u", p->id, m.front());
    }
    // The counters are kept in (at least) eight bits.
    if ((b->getNumberOfPuts() & 0xFF) != (puts & 0xFF)) c.fail("number of puts: %u after %ld puts", b->getNumberOfPuts(), puts);
    if ((b->getNumberOfGets() & 0xFF) != (gets & 0xFF)) c.fail("number of gets: %u after %ld gets", b->getNumberOfGets(), gets);
    if ((b->getOverflows() & 0xFF) != (over & 0xFF)) c.fail("overflows: %u after %ld overflows", b->getOverflows(), over);
    if ((long) b->getHighWaterMark() != hwm) c.fail("high water mark: %u, largest number of entries was %ld", b->getHighWaterMark(), hwm);
  };
  checkState();
  int n = 0;
  while (c.more(n, 25, 150))
  {
    STEP(c);
    switch (c.weighted({10, 8, 5, 5, 1}))
    {
      case 0: c.log("put"); put(); break;
      case 1: c.log("pop"); popOne(); break;
      case 2:
      {
        int k = c.range(1, cap + 3);
        c.log("put %d entries", k);
        for (int i = 0; i < k; ++i) { put(); if (k < 40) checkState(); }
        break;
      }
      case 3:
      {
        int k = c.range(1, cap);
        c.log("pop %d entries", k);
        for (int i = 0; i < k; ++i) { popOne(); if (k < 40) checkState(); }
        break;
      }
      case 4:
        c.log("clear");
        b->clear();
        m.clear();
        break;
    }
    checkState();
  }
  // What is left comes out in order.
  while (!m.empty()) popOne();
  checkState();
  if (wrapped) c.cls("indices wrapped around");
  if (dropped) c.cls("oldest entry dropped");
  if (cap > 127) c.cls("capacity over 127");
  if (cap == 1) c.cls("capacity 1");
  c.nontrivial(wrapped && dropped);
}

static void probeLarge(Case &c)
{
  typedef VLCB::CircularBuffer<VLCB::CANFrame> B;
  for (int cap = 1; cap <= 255; ++cap)
  {
    B b(cap);
    for (int i = 1; i <= cap + 2; ++i)
    {
      b.put(make(i));
      long want = i > cap ? cap : i;
      if ((long) b.getHighWaterMark() != want) c.fail("high water mark: %u after %d puts with capacity %d", b.getHighWaterMark(), i, cap);
    }
    for (int i = 3; i <= cap + 2; ++i)
    {
      uint32_t v = valueOf(b.pop());
      if ((long) v != i) c.fail("pop: returned %u instead of %d with capacity %d", v, i, cap);
    }
    if (b.available()) c.fail("available: buffer of capacity %d not empty after taking everything", cap);
  }
}

pbt::Property pbt::property = {
  "C01", "Circular buffer is a bounded FIFO with correct metrics",
  "Random sequences of put/pop/clear, single and in runs of up to capacity+3, on capacities 1..255, compared after every step with a queue model. Non-trivial: the indices wrapped around and an overflow dropped the oldest entry.",
  "exploration", 400000, 8000000, run,
  {{"every-capacity", "fill and drain at every capacity 1..255", probeLarge}},
  {"pop() is only called when available() is true, as its documentation requires", "counters are compared modulo 256"},
};
