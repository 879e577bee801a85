// Event teaching against a model of the event table.
#include "evmodel.hpp"

struct Bench
{
  Case &c;
  NodeConf nc;
  unsigned nn;
  EvTable t;
  bool learn = false;
  std::unique_ptr<RamStorage> st;
  std::unique_ptr<Node> node;
  std::vector<std::pair<unsigned, unsigned>> pool;
  int changes = 0, deletes = 0, reads = 0, full = 0, reuse = 0, restarts = 0, renames = 0, dups = 0;

  explicit Bench(Case &c) : c(c) {}

  void expect(const Msg &req, const Msgs &got, const Msgs &want)
  {
    if (got != want) c.fail("response: %s got %s, expected %s", req.str().c_str(), str(got).c_str(), str(want).c_str());
  }
  void expectAny(const Msg &req, const Msgs &got, const Msgs &want) { expect(req, sorted(got), sorted(want)); }
  Msg grsp(int op, int r) { return mk(K::GRSP, nn, {op, K::SERVICE_ID_OLD_TEACH, r}); }
  Msgs ok(int op) { return {mk(K::WRACK, nn), grsp(op, K::GRSP_OK)}; }
  Msgs err(int op, int e) { return {mk(K::CMDERR, nn, {e}), grsp(op, e)}; }
  Msgs ask(const Msg &m)
  {
    c.log("%s", m.str().c_str());
    Msgs r = node->ask(m);
    if (!st->problems.empty()) c.fail("storage: %s: %s", m.str().c_str(), st->problems[0].c_str());
    return r;
  }

  std::pair<unsigned, unsigned> anyEvent()
  {
    if (c.chance(25) && t.count())
    {
      std::vector<int> used;
      for (int i = 0; i < t.size(); ++i) if (t.slots[i].used) used.push_back(i);
      int i = c.pickv(used);
      return {t.slots[i].nn, t.slots[i].en};
    }
    return c.pickv(pool);
  }

  void learnEvent()
  {
    auto e = anyEvent();
    int ev = c.chance(85) ? c.range(1, std::max(1, nc.numEVs)) : (int) c.pick({0, nc.numEVs + 1, 255});
    int val = c.chance(70) ? c.range(0, 5) : c.u8();
    Msg m = mkev(K::EVLRN, e.first, e.second, {ev, val});
    if (c.chance(4)) m.d.resize(c.range(5, 6));
    Msgs got = ask(m);
    if (!learn) { expect(m, got, {}); return; }
    if (m.size() < 7) { expect(m, got, {grsp(K::EVLRN, K::CMDERR_INV_CMD)}); return; }
    int old = t.find(e.first, e.second);
    int cnt = t.count();
    int i = t.learn(e.first, e.second, ev, val);
    if (i < 0)
    {
      expectAny(m, got, err(K::EVLRN, -i));
      if (-i == K::CMDERR_TOO_MANY_EVENTS) ++full;
      return;
    }
    expectAny(m, got, ok(K::EVLRN));
    ++changes;
    if (deletes && t.count() > cnt) ++reuse;
    if (t.count() == cnt && old != i) ++renames;
    adopt(*node, t, i, nn, c);
  }

  void learnAt()
  {
    auto e = anyEvent();
    int i = c.chance(90) ? c.edgy(0, nc.maxEvents - 1) : (int) c.pick({nc.maxEvents, nc.maxEvents + 1, 255});
    if (i > 255) i = 255;
    int ev = c.chance(85) ? c.range(1, std::max(1, nc.numEVs)) : (int) c.pick({0, nc.numEVs + 1, 255});
    int val = c.chance(70) ? c.range(0, 5) : c.u8();
    Msg m = mkev(K::EVLRNI, e.first, e.second, {i, ev, val});
    if (c.chance(4)) m.d.resize(c.range(5, 7));
    Msgs got = ask(m);
    if (!learn) { expect(m, got, {}); return; }
    if (m.size() < 8) { expect(m, got, {grsp(K::EVLRNI, K::CMDERR_INV_CMD)}); return; }
    int old = t.find(e.first, e.second);
    int r = t.learnAt(i, e.first, e.second, ev, val);
    if (r == -K::CMDERR_INV_EN_IDX) { expect(m, got, {grsp(K::EVLRNI, K::CMDERR_INV_EN_IDX)}); return; }
    if (r < 0) { expectAny(m, got, err(K::EVLRNI, -r)); return; }
    expectAny(m, got, ok(K::EVLRNI));
    ++changes;
    if (old >= 0 && old != i) ++dups;
    adopt(*node, t, i, nn, c);
  }

  void unlearn()
  {
    auto e = c.chance(5) ? std::pair<unsigned, unsigned>(0xFFFF, 0xFFFF) : anyEvent();
    Msg m = mkev(K::EVULN, e.first, e.second);
    if (c.chance(4)) m.d.resize(c.range(3, 4));
    Msgs got = ask(m);
    if (!learn) { expect(m, got, {}); return; }
    if (m.size() < 5) { expect(m, got, {grsp(K::EVULN, K::CMDERR_INV_CMD)}); return; }
    int r = t.unlearn(e.first, e.second);
    if (r < 0) { expectAny(m, got, err(K::EVULN, -r)); return; }
    expectAny(m, got, ok(K::EVULN));
    ++deletes;
  }

  Msg enrsp(int i) { return mk(K::ENRSP, nn, {hi(t.slots[i].nn), lo(t.slots[i].nn), hi(t.slots[i].en), lo(t.slots[i].en), i}); }

  void readAll()
  {
    Msgs want;
    for (int i = 0; i < t.size(); ++i) if (t.slots[i].used) want.push_back(enrsp(i));
    Msg m = mk(K::NERD, nn);
    Msgs got = ask(m);
    if (!allOrLast(got, want)) expect(m, got, want);
    ++reads;
  }
  void readIndex(int i)
  {
    Msg m = mk(K::NENRD, nn, {i});
    if (i < t.size() && t.slots[i].used) { expect(m, ask(m), {enrsp(i)}); ++reads; }
    else expectAny(m, ask(m), err(K::NENRD, K::CMDERR_INV_EN_IDX));
  }
  void readVar(int i, int ev, bool shortMsg = false)
  {
    Msg m = mk(K::REVAL, nn, {i, ev});
    if (shortMsg)
    {
      m.d.resize(4);
      expect(m, ask(m), {grsp(K::REVAL, K::CMDERR_INV_CMD)});
    }
    else if (i >= t.size() || !t.slots[i].used) expectAny(m, ask(m), err(K::REVAL, K::CMDERR_INV_EN_IDX));
    else if (ev > nc.numEVs) expectAny(m, ask(m), err(K::REVAL, K::CMDERR_INV_EV_IDX));
    else if (ev == 0)
    {
      Msgs want{mk(K::NEVAL, nn, {i, 0, nc.numEVs})};
      for (int k = 1; k <= nc.numEVs; ++k) want.push_back(mk(K::NEVAL, nn, {i, k, t.slots[i].ev[k]}));
      Msgs got = ask(m);
      if (!allOrLast(got, want)) expect(m, got, want);
      ++reads;
    }
    else { expect(m, ask(m), {mk(K::NEVAL, nn, {i, ev, t.slots[i].ev[ev]})}); ++reads; }
  }
  void readLearn()
  {
    auto e = c.chance(5) ? std::pair<unsigned, unsigned>(0xFFFF, 0xFFFF) : anyEvent();
    int ev = c.chance(85) ? c.range(0, nc.numEVs) : (int) c.pick({nc.numEVs + 1, 255});
    Msg m = mkev(K::REQEV, e.first, e.second, {ev});
    if (c.chance(4)) m.d.resize(5);
    Msgs got = ask(m);
    if (!learn) { expect(m, got, {}); return; }
    if (m.size() < 6) { expect(m, got, {grsp(K::REQEV, K::CMDERR_INV_CMD)}); return; }
    int i = t.find(e.first, e.second);
    if (i < 0) { expectAny(m, got, err(K::REQEV, K::CMDERR_INVALID_EVENT)); return; }
    if (ev > nc.numEVs) { expectAny(m, got, err(K::REQEV, K::CMDERR_INV_EV_IDX)); return; }
    ++reads;
    if (ev) { expect(m, got, {mkev(K::EVANS, e.first, e.second, {ev, t.slots[i].ev[ev]})}); return; }
    Msgs want{mkev(K::EVANS, e.first, e.second, {0, nc.numEVs})};
    for (int k = 1; k <= nc.numEVs; ++k) want.push_back(mkev(K::EVANS, e.first, e.second, {k, t.slots[i].ev[k]}));
    if (!allOrLast(got, want)) expect(m, got, want);
  }
  void counts()
  {
    Msg m = mk(K::RQEVN, nn);
    expect(m, ask(m), {mk(K::NUMEV, nn, {t.count()})});
    m = mk(K::NNEVN, nn);
    expect(m, ask(m), {mk(K::EVNLF, nn, {t.size() - t.count()})});
  }

  void run()
  {
    nc.order = c.range(0, 3);
    nc.diag = c.chance(30);
    nc.services = c.chance(30) ? S_ALL : S_ALL & ~S_COE;
    nc.numNVs = c.range(0, 12);
    switch (c.weighted({6, 3, 1}))
    {
      case 0: nc.maxEvents = c.range(1, 6); break;
      case 1: nc.maxEvents = c.range(1, 29); break;
      default: nc.maxEvents = c.edgy(30, 255); break;
    }
    nc.numEVs = c.chance(3) ? 0 : c.chance(70) ? c.range(1, 4) : c.chance(90) ? c.range(1, 12) : c.edgy(13, 251);
    if (nc.numEVs > 12) nc.maxEvents = std::min(nc.maxEvents, 12);
    bool gap = c.chance(20);
    nc.eventsStart = gap ? 10 + nc.numNVs + c.range(1, 9) : 0;
    unsigned end = (gap ? nc.eventsStart : 10 + nc.numNVs) + nc.maxEvents * (4 + nc.numEVs);
    nn = c.pick({256, 1, 257, 65534, 0x1234, 65535});
    // Events of which many have the same hash, and some special ones.
    for (int i = c.range(2, 10); i > 0; --i)
    {
      switch (c.weighted({4, 2, 1, 1, 1}))
      {
        case 0: pool.emplace_back(c.pick({0x100, 0x101, 0x200, 0}), c.range(1, 4)); break;
        case 1: { unsigned k = c.u8(); pool.emplace_back(k << 8 | k, (unsigned) c.range(0, 3) * 0x0101); break; }
        case 2: pool.emplace_back(nn, c.range(1, 3)); break;
        case 3: pool.emplace_back(c.pick({0xFFFF, 0xFF00, 0x00FF, 0xFFFE}), c.pick({0xFFFE, 0, 0xFF, 0xFF00})); break;
        default: pool.emplace_back(c.u8() << 8 | c.u8(), c.u8() << 8 | c.u8()); if (pool.back().first == 0xFFFF && pool.back().second == 0xFFFF) pool.back().second = 1; break;
      }
    }
    world.reset();
    st.reset(new RamStorage(end));
    storeIdentity(*st, K::MODE_NORMAL, 7, nn);
    t = EvTable(nc.maxEvents, nc.numEVs);
    if (c.chance(15))
    {
      // A table that is already nearly full.
      c.log("%s", "prefilled");
      unsigned base = 10 + nc.numNVs;
      if (gap) base = nc.eventsStart;
      for (int i = 0; i < nc.maxEvents; ++i)
      {
        if (i == nc.maxEvents - 1 && c.chance(50)) break;
        unsigned en = 1000 + i;
        uint8_t rec[4] = {3, 0, (uint8_t) (en >> 8), (uint8_t) en};
        for (int k = 0; k < 4; ++k) st->mem[base + i * (4 + nc.numEVs) + k] = rec[k];
        for (int k = 0; k < nc.numEVs; ++k) st->mem[base + i * (4 + nc.numEVs) + 4 + k] = (uint8_t) (i + 1 + k);
        t.set(i, 0x300, en);
        for (int k = 0; k < nc.numEVs; ++k) t.slots[i].ev[k + 1] = (uint8_t) (i + 1 + k);
      }
    }
    node.reset(new Node(nc, st.get()));
    node->pad = &c;
    node->boot();
    node->takeFrames();
    c.log("%d events with %d EVs, NN %u, order %d", nc.maxEvents, nc.numEVs, nn, nc.order);
    int n = 0;
    while (c.more(n, 30, 150))
    {
      STEP(c);
      switch (c.weighted({14, 5, 6, 1, 3, 3, 4, 3, 2, 1, 1, 1}))
      {
        case 0: if (!learn && c.chance(80)) { ask(mk(K::NNLRN, nn)); learn = true; } learnEvent(); break;
        case 1: learnAt(); break;
        case 2: unlearn(); break;
        case 3:
        {
          Msg m = mk(K::NNCLR, nn);
          Msgs got = ask(m);
          if (!learn) expectAny(m, got, err(K::NNCLR, K::CMDERR_NOT_LRN));
          else { expectAny(m, got, ok(K::NNCLR)); deletes += t.count(); t.clear(); }
          break;
        }
        case 4: readAll(); break;
        case 5: readIndex(std::min(255L, c.edgy(0, nc.maxEvents))); break;
        case 6: readVar(std::min(255L, c.edgy(0, nc.maxEvents)), c.range(0, nc.numEVs + 1), c.chance(3)); break;
        case 7: readLearn(); break;
        case 8: counts(); break;
        case 9: ask(mk(K::NNULN, nn)); learn = false; break;
        case 10:
          c.log("%s", "restart");
          node->boot();
          node->takeFrames();
          learn = false;
          ++restarts;
          break;
        case 11:
        {
          auto e = c.pickv(pool);
          Msg m = mkev(c.pick({(int) K::ACON, (int) K::ACOF, (int) K::ASON, (int) K::AREQ, (int) K::ACON1}), e.first, e.second);
          ask(m);
          break;
        }
      }
    }
    // The whole table, read by index.
    counts();
    readAll();
    for (int i = 0; i < t.size(); ++i)
    {
      if (t.slots[i].used || i < 8) readIndex(i);
      if (t.slots[i].used) for (int e = 1; e <= nc.numEVs; ++e) readVar(i, e);
    }
    if (full) c.cls("new event refused, table full");
    if (reuse) c.cls("slot reused after a deletion");
    if (renames) c.cls("produced event got a new number");
    if (dups) c.cls("event stored at a second index");
    if (restarts && changes) c.cls("restart");
    if (nc.maxEvents > 29) c.cls("more than 29 slots");
    if (nc.numEVs > 28) c.cls("more than 28 variables");
    c.nontrivial(changes >= 3 && deletes && reads);
  }
};

static void run(Case &c)
{
  Bench b(c);
  b.run();
}

static void nerdAll(Case &c)
{
  world.reset();
  NodeConf nc;
  nc.maxEvents = 40;
  RamStorage st;
  storeIdentity(st, K::MODE_NORMAL, 5, 256);
  for (int i = 0; i < 40; ++i) st.mem[20 + 7 * i] = 1, st.mem[21 + 7 * i] = 0, st.mem[22 + 7 * i] = 0, st.mem[23 + 7 * i] = i + 1;
  Node node(nc, &st);
  node.boot();
  Msgs want;
  for (int i = 0; i < 40; ++i) want.push_back(mk(K::ENRSP, 256, {1, 0, 0, i + 1, i}));
  burst(c, "NERD of 40 events", node.ask(mk(K::NERD, 256)), want);
}

static void revalAll(Case &c)
{
  world.reset();
  NodeConf nc;
  nc.numEVs = 40;
  RamStorage st;
  storeIdentity(st, K::MODE_NORMAL, 5, 256);
  for (int i = 0; i < 44; ++i) st.mem[20 + i] = i;
  Node node(nc, &st);
  node.boot();
  Msgs want = {mk(K::NEVAL, 256, {0, 0, 40})};
  for (int i = 1; i <= 40; ++i) want.push_back(mk(K::NEVAL, 256, {0, i, 3 + i}));
  burst(c, "REVAL of all 40 variables of an event", node.ask(mk(K::REVAL, 256, {0, 0})), want);
}

pbt::Property pbt::property = {
  "C08", "The event table reflects exactly the teaching operations",
  "Random sequences of EVLRN, EVLRNI, EVULN, NNCLR, learn mode changes, restarts and all read requests on tables of 1..255 events with 0..12 and now and then up to 251 variables, with events from a small pool rich in hash collisions, on storage of exactly the layout's size and sometimes nearly full at the start; every response compared with a table model, the whole table read at the end. Non-trivial: at least 3 accepted changes, a deletion and a read.",
  "exploration", 100000, 1500000, run,
  {{"nerd-burst", "NERD reports all of 40 events", nerdAll}, {"reval-0-burst", "REVAL 0 reports all of 40 event variables", revalAll}},
  {"an event has at most 251 variables, as its size is held in one byte", "event FFFF:FFFF is not used: it is the mark of a free slot", "of more than 29 answers to one request only the last 25 must arrive (known findings nerd-burst and reval-0-burst)",
   "event variables that were never taught may have any value, but it must not change"},
};
