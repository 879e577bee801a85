// The event handler is called for exactly the stored events.
#include "evraw.hpp"

static const int LONG_OPS[] = {K::ACON, K::ACOF, K::ACON1, K::ACOF1, K::ACON2, K::ACOF2, K::ACON3, K::ACOF3, K::ARON, K::AROF};
static const int SHORT_OPS[] = {K::ASON, K::ASOF, K::ASON1, K::ASOF1, K::ASON2, K::ASOF2, K::ASON3, K::ASOF3};

static int kind(int op)
{
  for (int o : LONG_OPS) if (o == op) return 1;
  for (int o : SHORT_OPS) if (o == op) return 2;
  return 0;
}

// ARON1.. ARSON.. are left open by the documentation.
static bool open(int op)
{
  switch (op)
  {
    case K::ARON1: case K::AROF1: case K::ARON2: case K::AROF2: case K::ARON3: case K::AROF3:
    case K::ARSON: case K::ARSOF: case K::ARSON1: case K::ARSOF1: case K::ARSON2: case K::ARSOF2: case K::ARSON3: case K::ARSOF3:
      return true;
  }
  return false;
}

static void run(Case &c)
{
  world.reset();
  NodeConf nc;
  nc.order = c.range(0, 3);
  nc.diag = c.chance(50);
  nc.services = (c.chance(70) ? S_ALL & ~S_COE : S_MNS | S_CAN | S_CONS | S_TEACH) | (c.chance(10) ? S_SPY : 0);
  nc.numNVs = c.range(0, 12);
  nc.maxEvents = c.weighted({6, 2, 1}) == 0 ? c.range(1, 12) : c.edgy(1, 255);
  nc.numEVs = c.edgy(1, 12);
  unsigned base = 10 + nc.numNVs;
  if (c.chance(30))
  {
    base += c.range(1, 50);
    nc.eventsStart = base;
  }
  RamStorage st(base + (4 + nc.numEVs) * nc.maxEvents);
  RawEvents t{st, base, nc.maxEvents, nc.numEVs};
  unsigned nn = c.pick({256, 0x1234, 1, 0xFE01, 0xFFFF});
  bool normal = !c.chance(8);  // what has been taught is consumed also after the node number was given up
  if (normal) storeIdentity(st, K::MODE_NORMAL, 5, nn);
  else storeIdentity(st, K::MODE_UNINITIALISED, c.pick({0, 5}), c.pick<unsigned>({0, nn}));
  // A small universe of events, so that near misses are common.
  std::vector<unsigned> nns = {nn, 0, 257}, ens = {1, 2, 0x102};
  while (nns.size() < 5) nns.push_back(c.edgy(0, 65535));
  while (ens.size() < 6) ens.push_back(c.edgy(0, 65534));
  int fill = c.range(0, nc.maxEvents > 20 ? 20 : nc.maxEvents);
  int skip = c.chance(20) ? c.edgy(0, nc.maxEvents - fill) : 0;
  for (int i = 0; i < fill; ++i)
  {
    unsigned a = c.pickv(nns), b = c.pickv(ens);
    t.put(skip + i, a, b, {c.u8()});
  }
  Node node(nc, &st);
  node.handlers = !c.chance(3);
  node.boot();
  node.takeFrames();
  c.log("NN %u, %d of %d events from index %d, %d EVs, handler %d", nn, fill, nc.maxEvents, skip, nc.numEVs, node.handlers);
  int n = 0, hits = 0, misses = 0, taught = 0;
  bool learn = false;
  if (!normal && c.chance(30))
  {
    node.pressForSetup();
    node.advance(200);
    node.takeFrames();
    c.cls("setup mode");
  }
  if (!normal) c.cls("not in normal mode");
  while (c.more(n, 15, 80))
  {
    STEP(c);
    node.consumed.clear();
    int what = c.weighted({20, 3, 1, 1});
    if (what < 3 && !normal) what = 0;
    if (what == 1 || what == 2)
    {
      if (!learn) { node.ask(mk(K::NNLRN, nn), 120); learn = true; }
      Msg m;
      unsigned a = c.pickv(nns), b = c.pickv(ens);
      switch (c.weighted({5, 2, 4, 1}))
      {
        case 0: m = mkev(K::EVLRN, a, b, {(int) c.range(1, nc.numEVs), c.u8()}); break;
        case 1: m = mkev(K::EVLRNI, a, b, {(int) c.range(0, nc.maxEvents - 1), (int) c.range(1, nc.numEVs), c.u8()}); break;
        case 2: m = mkev(K::EVULN, a, b); break;
        case 3: m = mk(K::NNCLR, nn); break;
      }
      c.log("teach %s", m.str().c_str());
      node.ask(m, 120);
      ++taught;
      if (!node.consumed.empty()) c.fail("teaching message %s calls the event handler", m.str().c_str());
      continue;
    }
    if (what == 3)
    {
      c.log("%s", "restart");
      node.boot();
      learn = false;
      if (!node.consumed.empty()) c.fail("%s", "restart calls the event handler");
      continue;
    }
    // Some messages back to back.
    std::vector<Msg> in;
    int k = c.weighted({6, 1}) == 0 ? 1 : c.range(2, 12);
    for (int i = 0; i < k; ++i)
    {
      Msg m;
      unsigned a = c.pickv(nns), b = c.pickv(ens);
      int fromTable = c.range(0, nc.maxEvents - 1);
      if (c.chance(40) && t.used(fromTable)) { a = t.nn(fromTable); b = t.en(fromTable); }
      switch (c.weighted({8, 6, 3, 2}))
      {
        case 0: m = mkev(LONG_OPS[c.range(0, 9)], a, b); break;
        case 1: m = mkev(SHORT_OPS[c.range(0, 7)], c.chance(50) ? c.edgy(0, 65535) : a, b); break;
        case 2: // events' neighbours
          m = mkev(c.pick<int>({K::AREQ, K::ASRQ, K::EVULN, K::ARON1, K::ARSON, K::DTXC, 0x88, 0x92, 0xD3, 0xF6, 0xF7, 0xFA, 0x95, 0xB5, 0xB6, 0x97}), a, b);
          break;
        case 3:
        {
          int op = c.range(0, 255);
          // nothing that starts a longer conversation or changes state
          static const int no[] = {K::NNRSM, K::NNRST, K::SNN, K::MODE, K::NNLRN, K::NNULN, K::NNCLR, K::EVLRN, K::EVLRNI, K::EVULN, K::ENUM, K::CANID,
                                   K::RQNN, K::NERD, K::RQSD, K::RQNPN, K::RDGN, K::NVRD, K::REVAL, K::REQEV, K::NVSET, K::NVSETRD};
          for (int x : no) if (x == op) op = K::QLOC;
          m = mkev(op, a, b);
          break;
        }
      }
      // learn mode is off for teaching opcodes among these
      if ((m.op() == K::EVULN || m.op() == K::EVLRN) && learn) m.d[0] = K::QLOC;
      m.d.resize(1 + (m.op() >> 5));
      for (size_t j = 5; j < m.d.size(); ++j) m.d[j] = c.u8();
      in.push_back(m);
      c.log("%s", m.str().c_str());
    }
    auto before = t.bytes();
    for (auto &m : in) node.post(m, 120);
    node.pump();
    node.takeFrames();
    size_t pos = 0;
    for (auto &m : in)
    {
      int kd = m.size() >= 5 ? kind(m.op()) : 0;
      if (open(m.op()))
      {
        // may be delivered, but then as any other event
        if (pos < node.consumed.size() && node.consumed[pos].msg == m) ++pos;
        continue;
      }
      std::vector<int> where;
      if (kd == 1) where = t.find(m.nn(), m.en());
      if (kd == 2) where = t.find(0, m.en());
      if (where.empty() || !node.handlers)
      {
        if (kd) ++misses;
        continue;
      }
      ++hits;
      if (pos >= node.consumed.size()) c.fail("not told: %s is stored at index %d, the handler is not called for it", m.str().c_str(), where[0]);
      Heard &h = node.consumed[pos++];
      if (h.msg != m) c.fail("wrong message: handler is called with %s, expected %s", h.msg.str().c_str(), m.str().c_str());
      if (!has(where, h.index)) c.fail("wrong index: handler is called with index %d for %s, stored at index %d", h.index, m.str().c_str(), where[0]);
    }
    if (pos < node.consumed.size())
      c.fail("told too much: handler is called with index %d and %s", node.consumed[pos].index, node.consumed[pos].msg.str().c_str());
    if (t.bytes() != before) c.fail("%s", "consuming events changes the event table");
    if (!st.problems.empty()) c.fail("storage: %s", st.problems[0].c_str());
  }
  if (taught) c.cls("table changed by teaching");
  if (!node.handlers) c.cls("no handler");
  c.count("events delivered", hits);
  c.count("events not stored", misses);
  c.nontrivial(hits >= 2 && misses >= 1);
}

pbt::Property pbt::property = {
  "C15", "The application is told of exactly the events it has been taught",
  "Random event tables (including duplicates and gaps), event messages of all opcodes from a small universe of node and event numbers, other messages, teaching and restarts; the calls of the event handler are compared with a scan of the stored records. Non-trivial: at least two deliveries and one event that is not stored.",
  "exploration", 200000, 2500000, run,
  {},
  {"messages have the length of their opcode", "at most 12 messages arrive back to back", "responses with data (ARON1, ARSON and so on) may or may not be delivered"},
};
