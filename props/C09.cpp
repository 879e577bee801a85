// Event lookup through the RAM hash table against a scan of the stored records.
#include "rig.hpp"

struct Bench
{
  Case &c;
  int maxEvents, numEVs;
  unsigned base;
  std::unique_ptr<RamStorage> st;
  std::unique_ptr<VLCB::Configuration> conf;
  explicit Bench(Case &c) : c(c) {}

  const uint8_t *rec(int i) { return &st->mem[base + i * (4 + numEVs)]; }
  bool used(int i) { const uint8_t *r = rec(i); return !(r[0] == 0xFF && r[1] == 0xFF && r[2] == 0xFF && r[3] == 0xFF); }
  bool is(int i, unsigned nn, unsigned en) { const uint8_t *r = rec(i); return (r[0] << 8 | r[1]) == (int) nn && (r[2] << 8 | r[3]) == (int) en; }

  void lookup(unsigned nn, unsigned en)
  {
    int want = maxEvents;
    for (int i = maxEvents - 1; i >= 0; --i) if (is(i, nn, en)) want = i;
    int got = conf->findExistingEvent(nn, en);
    if (got == want) return;
    // The same event may be stored twice: then any of them will do.
    if (want < maxEvents && got < maxEvents && is(got, nn, en)) return;
    c.fail("lookup: event %u:%u found at %d, stored at %d (%d = not there)", nn, en, got, want, maxEvents);
  }
  void consistent(bool evs)
  {
    int n = 0, space = maxEvents;
    for (int i = maxEvents - 1; i >= 0; --i)
    {
      if (used(i)) ++n; else space = i;
      if ((conf->getEvTableEntry(i) != 0) != used(i)) c.fail("hash table: entry %d is %u, the slot is %s", i, conf->getEvTableEntry(i), used(i) ? "used" : "free");
    }
    if (conf->getEvTableEntry(maxEvents) != 0 && maxEvents < 255) c.fail("hash table: entry outside the table is %u", conf->getEvTableEntry(maxEvents));
    if (conf->numEvents() != n) c.fail("count: %d events, numEvents() is %u", n, conf->numEvents());
    int got = conf->findEventSpace();
    if (n == maxEvents ? got != maxEvents : got >= maxEvents || used(got))
      c.fail("free slot: findEventSpace() is %d, the lowest is %d of %d", got, space, maxEvents);
    if (evs && numEVs)
    {
      int ev = c.range(1, numEVs);
      int val = c.range(0, 6);
      int want = maxEvents;
      for (int i = maxEvents - 1; i >= 0; --i) if (used(i) && rec(i)[4 + ev - 1] == val) want = i;
      got = conf->findExistingEventByEv(ev, val);
      if (want == maxEvents ? got != want : got >= maxEvents || !used(got) || rec(got)[4 + ev - 1] != val)
        c.fail("lookup by variable: value %d of variable %d found at %d, stored at %d (%d = not there)", val, ev, got, want, maxEvents);
    }
    if (!st->problems.empty()) c.fail("storage: %s", st->problems[0].c_str());
  }
};

static void run(Case &c)
{
  Bench b(c);
  world.reset();
  b.maxEvents = c.weighted({7, 3}) == 0 ? c.range(1, 12) : c.edgy(1, 255);
  b.numEVs = c.chance(5) ? c.edgy(0, 251) : c.range(0, 4);
  int nvs = c.range(0, 9);
  b.base = 10 + nvs;
  b.st.reset(new RamStorage(b.base + b.maxEvents * (4 + b.numEVs)));
  storeIdentity(*b.st, K::MODE_NORMAL, 1, 300);
  auto boot = [&] {
    b.conf.reset(new VLCB::Configuration(b.st.get()));
    b.conf->EE_NUM_NVS = nvs;
    b.conf->EE_MAX_EVENTS = b.maxEvents;
    b.conf->EE_NUM_EVS = b.numEVs;
    b.conf->begin();
  };
  // Events: families that share one hash value, among them those whose hash would be 0.
  std::vector<std::pair<unsigned, unsigned>> pool;
  auto hashOf = [](unsigned nn, unsigned en) { return (7 * ((nn ^ (nn >> 8)) & 0xFF) + ((en ^ (en >> 8)) & 0xFF)) & 0x7F; };
  int families = c.range(1, 3);
  for (int f = 0; f < families; ++f)
  {
    unsigned target = c.pick({0, 0, 1, 127, 64, 5});
    int k = c.range(2, 6);
    for (int i = 0; i < k; ++i)
    {
      unsigned nn = c.chance(30) ? c.pick({0, 0xFFFF, 0xFF00, 0x00FF, 0x8080}) : c.range(0, 65535);
      unsigned e1 = c.u8();
      unsigned base = hashOf(nn, e1 << 8);
      // low byte chosen so that the hash is the target's
      unsigned lowb = ((target - 7 * ((nn ^ (nn >> 8)) & 0xFF)) & 0xFF) ^ e1;
      (void) base;
      unsigned en = e1 << 8 | (lowb & 0xFF);
      if (c.chance(50)) en ^= 0x80;
      if (nn == 0xFFFF && en == 0xFFFF) en = 0xFFFE;
      pool.emplace_back(nn, en);
      if (c.chance(30)) pool.emplace_back(nn ^ 0x0101, en);
      if (c.chance(20)) pool.emplace_back(en, nn);
      if (pool.back().first == 0xFFFF && pool.back().second == 0xFFFF) pool.back().first = 1;
    }
  }
  for (int i = c.range(1, 4); i > 0; --i) pool.emplace_back(c.range(0, 65534), c.range(0, 65535));
  boot();
  c.log("%d events of %d variables", b.maxEvents, b.numEVs);
  auto store = [&](int i, std::pair<unsigned, unsigned> e) {
    uint8_t d[4] = {(uint8_t) (e.first >> 8), (uint8_t) e.first, (uint8_t) (e.second >> 8), (uint8_t) e.second};
    b.conf->writeEvent(i, d);
    b.conf->updateEvHashEntry(i);
  };
  if (c.chance(25))
  {
    c.log("%s", "filled");
    int leave = c.range(-1, b.maxEvents - 1);
    for (int i = 0; i < b.maxEvents; ++i) if (i != leave) store(i, {1000 + i, i});
  }
  int n = 0, stores = 0, clears = 0, boots = 0;
  std::map<unsigned, std::set<int>> byHash;
  while (c.more(n, 25, 120))
  {
    STEP(c);
    switch (c.weighted({10, 5, 4, 2, 1, 1}))
    {
      case 0:
      {
        auto e = c.pickv(pool);
        int i;
        if (c.chance(40)) i = c.edgy(0, b.maxEvents - 1);
        else
        {
          i = b.conf->findEventSpace();
          if (i >= b.maxEvents) break;
        }
        c.log("store %u:%u at %d", e.first, e.second, i);
        store(i, e);
        ++stores;
        break;
      }
      case 1:
      {
        int i = c.edgy(0, b.maxEvents - 1);
        c.log("clear %d", i);
        b.conf->cleareventEEPROM(i);
        b.conf->updateEvHashEntry(i);
        ++clears;
        break;
      }
      case 2:
        if (b.numEVs)
        {
          int i = c.edgy(0, b.maxEvents - 1), ev = c.range(1, b.numEVs), v = c.range(0, 5);
          c.log("variable %d of %d = %d", ev, i, v);
          b.conf->writeEventEV(i, ev, v);
          if (b.conf->getEventEVval(i, ev) != v) c.fail("variable: %u read after writing %d", b.conf->getEventEVval(i, ev), v);
        }
        break;
      case 3:
        c.log("%s", "restart");
        boot();
        ++boots;
        break;
      case 4:
        // what NNCLR does
        c.log("%s", "clear all");
        for (int i = 0; i < b.maxEvents; ++i) b.conf->cleareventEEPROM(i);
        b.conf->clearEvHashTable();
        ++clears;
        break;
      case 5:
      {
        int i = c.edgy(0, b.maxEvents - 1);
        uint8_t d[4];
        b.conf->readEvent(i, d);
        if (memcmp(d, b.rec(i), 4)) c.fail("record: %d read as %s", i, pbt::hex(d, 4).c_str());
        break;
      }
    }
    auto e = c.pickv(pool);
    b.lookup(e.first, e.second);
    if (c.chance(20)) b.lookup(e.second, e.first);
    b.consistent(true);
  }
  for (auto &e : pool) b.lookup(e.first, e.second);
  for (int i = 0; i < b.maxEvents; ++i) if (b.used(i)) b.lookup(b.rec(i)[0] << 8 | b.rec(i)[1], b.rec(i)[2] << 8 | b.rec(i)[3]);
  b.consistent(false);
  for (int i = 0; i < b.maxEvents; ++i) if (b.used(i)) byHash[hashOf(b.rec(i)[0] << 8 | b.rec(i)[1], b.rec(i)[2] << 8 | b.rec(i)[3])].insert(i);
  bool collide = false, zero = false;
  for (auto &h : byHash)
  {
    if (h.second.size() > 1) collide = true;
    if (h.first == 0) zero = true;
  }
  if (collide) c.cls("events with the same hash stored");
  if (zero) c.cls("event with hash 0 stored");
  if (boots) c.cls("restart");
  if (b.maxEvents > 127) c.cls("table of more than 127 events");
  c.nontrivial(stores >= 3 && clears >= 1);
}

pbt::Property pbt::property = {
  "C09", "The event hash index always agrees with stored events",
  "Random sequences of storing, overwriting and clearing records, writing variables, clearing all and restarts, with events built to share hash values (also hash 0), on tables of 1..255 events; after each step lookups of pool events, by variable, the count, free slot and index are compared with a scan of the raw records. Non-trivial: at least 3 stores and a deletion.",
  "exploration", 250000, 4000000, run,
  {},
  {"event FFFF:FFFF is not stored: it is the mark of a free slot", "the index is updated after a write with updateEvHashEntry(), as all callers in the library do", "when the same event is stored at several indices any of them may be found"},
};
