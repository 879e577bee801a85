// Produced events: opcode, event, data, creation.
#include "evraw.hpp"

static const int ON_L[] = {K::ACON, K::ACON1, K::ACON2, K::ACON3}, OFF_L[] = {K::ACOF, K::ACOF1, K::ACOF2, K::ACOF3};
static const int ON_S[] = {K::ASON, K::ASON1, K::ASON2, K::ASON3}, OFF_S[] = {K::ASOF, K::ASOF1, K::ASOF2, K::ASOF3};

// The changes from before to after are exactly one new event for value v. Returns its index.
static int created(Case &c, const RawEvents &t, std::vector<uint8_t> before, unsigned nn, int v)
{
  auto after = t.bytes();
  int idx = -1;
  for (int i = 0; i < t.max; ++i)
  {
    bool diff = memcmp(&before[i * t.rec()], &after[i * t.rec()], t.rec()) != 0;
    if (!diff) continue;
    if (idx >= 0) c.fail("created: events %d and %d both change when value %d is sent", idx, i, v);
    idx = i;
  }
  if (idx < 0) c.fail("created: no event is stored for value %d", v);
  const uint8_t *b = &before[idx * t.rec()];
  if (!(b[0] == 0xFF && b[1] == 0xFF && b[2] == 0xFF && b[3] == 0xFF)) c.fail("created: index %d was in use and is overwritten for value %d", idx, v);
  if (t.nn(idx) != nn) c.fail("created: event for value %d has node number %u, this node is %u", v, t.nn(idx), nn);
  if (t.en(idx) == 0) c.fail("created: event for value %d has event number 0", v);
  if (t.find(nn, t.en(idx)).size() != 1) c.fail("created: event number %u for value %d was in use already", t.en(idx), v);
  if (t.ev(idx, 1) != v) c.fail("created: first event variable is %d, expected %d", t.ev(idx, 1), v);
  for (int k = 2; k <= t.numEVs; ++k)
    if (t.ev(idx, k) != 0) c.fail("created: event variable %d is %d, expected 0", k, t.ev(idx, k));
  return idx;
}

// All default events are there, exactly the missing ones are new.
static void defaults(Case &c, const RawEvents &t, std::vector<uint8_t> before, unsigned nn, int produced)
{
  std::set<int> had;
  auto after = t.bytes();
  int space = 0;
  for (int i = 0; i < t.max; ++i)
  {
    const uint8_t *b = &before[i * t.rec()];
    bool used = !(b[0] == 0xFF && b[1] == 0xFF && b[2] == 0xFF && b[3] == 0xFF);
    if (used) had.insert(b[4]);
    else ++space;
    if (used && memcmp(b, &after[i * t.rec()], t.rec())) c.fail("default events: event at index %d is altered", i);
  }
  int missing = 0;
  for (int v = 1; v <= produced; ++v) missing += !had.count(v);
  int want = missing < space ? missing : space, got = 0;
  std::set<int> fresh;
  for (int i = 0; i < t.max; ++i)
  {
    const uint8_t *b = &before[i * t.rec()];
    bool used = !(b[0] == 0xFF && b[1] == 0xFF && b[2] == 0xFF && b[3] == 0xFF);
    if (used || !t.used(i)) continue;
    ++got;
    int v = t.ev(i, 1);
    if (v < 1 || v > produced) c.fail("default events: event with value %d, expected 1..%d", v, produced);
    if (had.count(v)) c.fail("default events: value %d has an event already and gets another one at index %d", v, i);
    if (!fresh.insert(v).second) c.fail("default events: two new events for value %d", v);
    if (t.nn(i) != nn || t.en(i) == 0) c.fail("default events: %s for value %d, node number is %u", t.rowStr(i).c_str(), v, nn);
    if (t.find(nn, t.en(i)).size() != 1) c.fail("default events: number %u used twice", t.en(i));
    for (int k = 2; k <= t.numEVs; ++k)
      if (t.ev(i, k) != 0) c.fail("default events: variable %d of event for value %d is %d, expected 0", k, v, t.ev(i, k));
  }
  if (got != want) c.fail("default events: %d are created, expected %d (%d values, %d free slots)", got, want, produced, space);
}

static void run(Case &c)
{
  world.reset();
  NodeConf nc;
  nc.order = c.range(0, 3);
  nc.diag = c.chance(50);
  nc.services = c.chance(70) ? S_ALL & ~(c.chance(50) ? S_COE : 0) : S_MNS | S_CAN | S_PROD | S_TEACH;
  nc.numNVs = c.range(0, 4);
  nc.maxEvents = c.weighted({6, 2, 1}) == 0 ? c.range(1, 10) : c.edgy(1, 255);
  nc.numEVs = c.edgy(1, 8);
  nc.produced = c.chance(50) ? 0 : c.chance(80) ? c.range(0, nc.maxEvents > 8 ? 8 : nc.maxEvents) : c.edgy(0, nc.maxEvents);
  unsigned base = 10 + nc.numNVs;
  RamStorage st(base + (4 + nc.numEVs) * nc.maxEvents);
  RawEvents t{st, base, nc.maxEvents, nc.numEVs};
  unsigned nn = c.pick<unsigned>({256, 0x1234, 1, 0xFE01, 0x00FF, 0xFFFF});
  bool uninit = c.chance(40);
  if (!uninit) storeIdentity(st, K::MODE_NORMAL, 5, nn);
  else storeIdentity(st, K::MODE_UNINITIALISED, 5, 0);
  unsigned other = 258;
  int fill = c.chance(20) ? nc.maxEvents : c.range(0, nc.maxEvents > 20 ? 20 : nc.maxEvents);
  if (uninit && c.chance(60)) fill = 0;
  int skip = c.range(0, nc.maxEvents - fill);
  if (c.chance(50)) skip = 0;
  for (int i = 0; i < fill; ++i)
  {
    unsigned a = c.pick<unsigned>({nn, 0, other, 0xFF00, 0xFFFF});
    // distinct events
    t.put(skip + i, a, i + 1, {(int) c.range(0, 10), c.u8(), c.u8()});
  }
  Node node(nc, &st);
  auto before = t.bytes();
  node.boot();
  node.takeFrames();
  c.log("NN %u, %s, %d of %d events from %d, %d EVs, %d default events", nn, uninit ? "uninitialised" : "normal", fill, nc.maxEvents, skip, nc.numEVs, nc.produced);
  if (t.bytes() != before) c.fail("%s", "start changes the event table");
  auto enterNormal = [&] {
    before = t.bytes();
    bool inSetup = c.chance(50);
    if (inSetup) node.pressForSetup();
    node.takeFrames();
    for (int k = c.weighted({5, 3, 1}); k > 0; --k)
    {
      // Something happens at an input. Without a node number there is no event that could be created for it.
      int v = c.range(1, 10);
      if (!t.findEv1(v).empty()) continue;
      c.log("send value %d before setup", v);
      switch (c.range(0, 3))
      {
        case 0: node.prod->sendEvent(k & 1, v); break;
        case 1: node.prod->sendEvent(k & 1, v, 1); break;
        case 2: node.prod->sendEvent(k & 1, v, 1, 2); break;
        case 3: node.prod->sendEvent(k & 1, v, 1, 2, 3); break;
      }
      node.pump();
      if (t.bytes() != before) c.fail("before setup: sending value %d changes the event table", v);
      for (auto &m : node.takeMsgs()) if (m.size() >= 5 && m.op() != K::PNN) c.fail("before setup: sent %s", m.str().c_str());
      c.cls("events before setup");
    }
    if (!inSetup) node.pressForSetup();
    node.advance(150);
    node.ask(mk(K::SNN, nn), 120);
    if (node.controller->getModuleConfig()->currentMode != K::MODE_NORMAL) c.fail("%s", "SNN in setup mode does not lead to normal mode");
    if (!node.consumed.empty()) node.consumed.clear();
    defaults(c, t, before, nn, nc.produced);
    c.cls("default events created");
  };
  if (uninit) enterNormal();
  int n = 0, sent = 0, news = 0, fulls = 0, shorts = 0, again = 0;
  bool learn = false;
  std::set<int> made;
  while (c.more(n, 15, 80))
  {
    STEP(c);
    node.takeFrames();
    int what = c.weighted({24, 5, 1, 1, 1});
    if (what == 0)
    {
      int k = c.chance(85) ? 1 : c.range(2, 8);
      Msgs want;
      for (int i = 0; i < k; ++i)
      {
        int form = c.range(0, 3);
        bool state = c.chance(50);
        int v = c.chance(80) ? c.range(1, 10) : c.range(1, 255);
        uint8_t d[3] = {c.u8(), c.u8(), c.u8()};
        before = t.bytes();
        auto where = t.findEv1(v);
        int space = t.max - t.count();
        std::vector<std::pair<unsigned, unsigned>> id;
        for (int x : where) id.emplace_back(t.nn(x), t.en(x));
        c.log("send %d for value %d, %d bytes %02x %02x %02x", state, v, form, d[0], d[1], d[2]);
        switch (form)
        {
          case 0: node.prod->sendEvent(state, v); break;
          case 1: node.prod->sendEvent(state, v, d[0]); break;
          case 2: node.prod->sendEvent(state, v, d[0], d[1]); break;
          case 3: node.prod->sendEvent(state, v, d[0], d[1], d[2]); break;
        }
        if (!st.problems.empty()) c.fail("storage: %s", st.problems[0].c_str());
        if (where.empty() && space == 0)
        {
          ++fulls;
          if (t.bytes() != before) c.fail("full: sending value %d changes the full event table", v);
          continue;
        }
        if (where.empty())
        {
          int idx = created(c, t, before, nn, v);
          id.emplace_back(t.nn(idx), t.en(idx));
          where.push_back(idx);
          ++news;
          made.insert(v);
        }
        else
        {
          if (t.bytes() != before) c.fail("existing: value %d has an event at index %d, but sending it changes the event table", v, where[0]);
          if (made.count(v)) ++again;
        }
        // With several events for the value any of them will do; settle it by the message.
        Msg m;
        for (size_t j = 0; j < id.size(); ++j)
        {
          bool sh = id[j].first == 0;
          m = mkev((sh ? (state ? ON_S : OFF_S) : (state ? ON_L : OFF_L))[form], sh ? nn : id[j].first, id[j].second);
          for (int q = 0; q < form; ++q) m.d.push_back(d[q]);
          if (sh) ++shorts;
          if (id.size() == 1) break;
          // look at what was sent
          if (j == 0) { node.pump(); }
          Msgs got;
          for (auto &f : node.can->tx) if (f.len > 4) { Msg x; x.d.assign(f.data, f.data + f.len); got.push_back(x); }
          if (!got.empty() && got.back() == m) break;
        }
        want.push_back(m);
        ++sent;
      }
      node.pump();
      Msgs got = node.takeMsgs();
      if (got != want) c.fail("message: sent %s, expected %s", str(got).c_str(), str(want).c_str());
    }
    else if (what == 1)
    {
      if (!learn) { node.ask(mk(K::NNLRN, nn), 120); learn = true; }
      Msg m;
      unsigned a = c.pick<unsigned>({nn, 0, other, 0xFF00, 0xFFFF}), b = c.range(1, nc.maxEvents + 3);
      switch (c.weighted({4, 4, 4, 1}))
      {
        case 0: m = mkev(K::EVLRN, a, b, {(int) c.range(1, nc.numEVs), (int) c.range(0, 10)}); break;
        case 1: m = mkev(K::EVLRNI, a, b, {(int) c.range(0, nc.maxEvents - 1), (int) c.range(1, nc.numEVs), (int) c.range(0, 10)}); break;
        case 2:
        {
          int i = c.range(0, nc.maxEvents - 1);
          if (t.used(i) && c.chance(70)) { a = t.nn(i); b = t.en(i); }
          m = mkev(K::EVULN, a, b);
          break;
        }
        case 3: m = mk(K::NNCLR, nn); break;
      }
      c.log("teach %s", m.str().c_str());
      node.ask(m, 120);
    }
    else if (what == 2)
    {
      // another node number: by renegotiation, or through uninitialised mode with or without a restart
      int way = c.range(0, 2);
      nn = c.pick<unsigned>({256, 0x1234, 1, 0xFE01, 0x00FF, 0xFFFF});
      c.log("new NN %u: %s", nn, way == 0 ? "renegotiate" : way == 1 ? "through uninitialised" : "through uninitialised with restart");
      learn = false;
      if (way == 0) node.controller->putAction(VLCB::ACT_RENEGOTIATE);
      else node.controller->putAction(VLCB::ACT_CHANGE_MODE);
      node.pump();
      if (way == 2)
      {
        before = t.bytes();
        node.boot();
        if (t.bytes() != before) c.fail("%s", "restart changes the event table");
        node.takeFrames();
        enterNormal();
      }
      else
      {
        if (way == 1) node.pressForSetup();
        node.advance(150);
        node.ask(mk(K::SNN, nn), 120);
        if (node.controller->getModuleConfig()->nodeNum != nn) c.fail("%s", "SNN in setup mode does not set the node number");
      }
      learn = false;
      node.boot();
      node.consumed.clear();
    }
    else if (what == 3)
    {
      c.log("%s", "restart");
      before = t.bytes();
      node.boot();
      learn = false;
      if (t.bytes() != before) c.fail("%s", "restart changes the event table");
      if (!node.takeMsgs().empty()) c.fail("%s", "restart sends messages");
    }
    else
    {
      before = t.bytes();
      Msg m = mkev(c.pick<int>({K::ACON, K::ASON, K::ASOF1, K::AREQ, K::ASRQ, K::RQEVN, K::QNN}), c.pick<unsigned>({nn, other}), c.range(1, 4), {0});
      m.d.resize(1 + (m.op() >> 5));
      node.ask(m, 120);
      if (t.bytes() != before) c.fail("message %s changes the event table", m.str().c_str());
    }
  }
  c.count("events sent", sent);
  if (news) c.cls("event created on sending");
  if (again) c.cls("created event sent again");
  if (fulls) c.cls("full event table");
  if (shorts) c.cls("short event");
  c.nontrivial(sent >= 4 && (news || shorts || nc.produced));
}

static void all255(Case &c)
{
  world.reset();
  NodeConf nc;
  nc.numNVs = 0;
  nc.maxEvents = 255;
  nc.numEVs = 1;
  nc.produced = 255;
  RamStorage st(10 + 5 * 255);
  RawEvents t{st, 10, 255, 1};
  Node node(nc, &st);
  node.boot();
  auto before = t.bytes();
  node.toNormal(256);
  defaults(c, t, before, 256, 255);
}

pbt::Property pbt::property = {
  "C16", "Produced events use the right opcode, event and data, and get created once",
  "Random event tables, default events and starting modes, then random sendEvent calls of all forms mixed with teaching, clearing, renumbering, other messages and restarts. Messages and table changes are compared with what a scan of the stored records before the call demands. Non-trivial: at least four events sent and some created, short or default event.",
  "exploration", 150000, 2000000, run,
  {{"default-events-255", "255 default events are created and the node goes on", all255}},
  {"event values 1..255", "no more default events than the table has places", "at least one event variable"},
};
