// Consumption of the node's own events.
#include "evraw.hpp"

static const int LONG_OPS[] = {K::ACON, K::ACOF, K::ACON1, K::ACOF1, K::ACON2, K::ACOF2, K::ACON3, K::ACOF3};
static const int SHORT_OPS[] = {K::ASON, K::ASOF, K::ASON1, K::ASOF1, K::ASON2, K::ASOF2, K::ASON3, K::ASOF3};

static std::vector<int> where(const RawEvents &t, const Msg &m)
{
  if (m.size() < 5) return {};
  for (int o : LONG_OPS) if (o == m.op()) return t.find(m.nn(), m.en());
  for (int o : SHORT_OPS) if (o == m.op()) return t.find(0, m.en());
  if (m.op() == K::ARON || m.op() == K::AROF) return t.find(m.nn(), m.en());
  return {};
}

static bool isOpen(int op)
{
  switch (op)
  {
    case K::ARON1: case K::AROF1: case K::ARON2: case K::AROF2: case K::ARON3: case K::AROF3:
    case K::ARSON: case K::ARSOF: case K::ARSON1: case K::ARSOF1: case K::ARSON2: case K::ARSOF2: case K::ARSON3: case K::ARSOF3:
      return true;
  }
  return false;
}

static void run(Case &c)
{
  world.reset();
  NodeConf nc;
  bool coe = c.chance(70);
  nc.order = c.range(0, 3);
  nc.earlyConfig = c.chance(30);
  nc.diag = c.chance(50);
  nc.services = (c.chance(80) ? S_ALL : S_MNS | S_CAN | S_PROD | S_CONS | S_TEACH | S_COE) & ~(coe ? 0 : S_COE);
  nc.numNVs = c.range(0, 4);
  nc.maxEvents = c.weighted({6, 1}) == 0 ? c.range(2, 12) : c.edgy(2, 255);
  nc.numEVs = c.edgy(1, 6);
  unsigned base = 10 + nc.numNVs;
  RamStorage st(base + (4 + nc.numEVs) * nc.maxEvents);
  RawEvents t{st, base, nc.maxEvents, nc.numEVs};
  unsigned nn = c.pick<unsigned>({256, 0x1234, 1, 0xFE01, 0x00FF, 0xFFFF});
  bool fresh = c.chance(15);
  if (fresh) storeIdentity(st, K::MODE_UNINITIALISED, 5, 0);
  else storeIdentity(st, K::MODE_NORMAL, 5, nn);
  // Distinct events; the first event variables 1..12 are produced events, 0 are not.
  std::set<std::pair<unsigned, unsigned>> seen;
  int fill = c.range(0, nc.maxEvents > 12 ? 12 : nc.maxEvents);
  for (int i = 0; i < fill; ++i)
  {
    unsigned a = c.pick<unsigned>({nn, 0, 257}), b = c.range(1, 20);
    while (!seen.insert({a, b}).second) ++b;
    t.put(i, a, b, {c.chance(25) ? 0 : i + 1, c.u8()});
  }
  Node node(nc, &st);
  // The application reacts to some of its events by sending another one, a limited number of times.
  std::vector<std::pair<int, int>> reactions; // index -> value
  int budget = 0;
  Msgs reacted;
  auto produce = [&](bool state, int v, int form, const uint8_t *d, Msg *m) {
    auto w = t.findEv1(v);
    if (w.empty()) return false;
    unsigned a = t.nn(w[0]), e = t.en(w[0]);
    int op = form == 0 ? 0 : form == 1 ? 0x20 : form == 2 ? 0x40 : 0x60;
    if (m)
    {
      *m = mkev((a == 0 ? (state ? K::ASON : K::ASOF) : (state ? K::ACON : K::ACOF)) + op, a == 0 ? nn : a, e);
      for (int q = 0; q < form; ++q) m->d.push_back(d[q]);
    }
    switch (form)
    {
      case 0: node.prod->sendEvent(state, v); break;
      case 1: node.prod->sendEvent(state, v, d[0]); break;
      case 2: node.prod->sendEvent(state, v, d[0], d[1]); break;
      case 3: node.prod->sendEvent(state, v, d[0], d[1], d[2]); break;
    }
    return true;
  };
  node.onConsumed = [&](uint8_t index, const VlcbMessage *) {
    for (auto &r : reactions)
      if (r.first == index && budget > 0)
      {
        --budget;
        uint8_t none[3] = {};
        Msg m;
        if (produce(true, r.second, 0, none, &m)) reacted.push_back(m);
        return;
      }
  };
  node.boot();
  if (fresh) node.toNormal(nn);
  node.takeFrames();
  c.log("NN %u, COE %d, %d of %d events, order %d", nn, coe, fill, nc.maxEvents, nc.order);
  int n = 0, own = 0, ownStored = 0, foreign = 0, cascades = 0;
  bool learn = false, setup = false;
  int inSetup = 0;
  while (c.more(n, 15, 80))
  {
    STEP(c);
    if (n == 1 && (node.controller->getParam(K::PAR_FLAGS) & K::PF_COE) != (coe ? K::PF_COE : 0)) c.fail("%s", "flag: wrong after start");
    node.consumed.clear();
    node.takeFrames();
    reactions.clear();
    reacted.clear();
    budget = 0;
    int what = c.weighted({16, 8, 3, 1, 1});
    if (what == 2)
    {
      if (!learn) { node.ask(mk(K::NNLRN, nn), 120); learn = true; }
      unsigned a = c.pick<unsigned>({nn, 0, 257}), b = c.range(1, 20);
      Msg m = c.chance(60) ? mkev(K::EVLRN, a, b, {1, (int) c.range(0, 12)}) : mkev(K::EVULN, a, b);
      if (m.op() == K::EVLRN && t.find(a, b).size()) continue;   // keep the events distinct
      c.log("teach %s", m.str().c_str());
      node.consumed.clear();
      node.ask(m, 120);
      if (!node.consumed.empty()) c.fail("teaching message %s calls the event handler", m.str().c_str());
      continue;
    }
    if (what == 3)
    {
      c.log("%s", "restart");
      node.boot();
      learn = setup = false;
      continue;
    }
    if (what == 4)
    {
      setup = !setup;
      c.log("%s", setup ? "enter setup" : "cancel setup");
      node.controller->putAction(VLCB::ACT_RENEGOTIATE);
      node.pump();
      node.consumed.clear();
      continue;
    }
    auto before = t.bytes();
    Msgs stimulus;      // what the handler is to be tried with, in order
    Msgs bus;           // what must appear on the bus
    if (what == 0)
    {
      int k = c.chance(70) ? 1 : c.range(2, 6);
      if (k == 1 && c.chance(30))
      {
        // reactions make chains
        for (int i = 0; i < 3; ++i) reactions.emplace_back(c.range(0, fill ? fill - 1 : 0), c.range(1, 12));
        budget = c.range(1, 6);
      }
      for (int i = 0; i < k; ++i)
      {
        Msg m;
        uint8_t d[3] = {c.u8(), c.u8(), c.u8()};
        switch (c.weighted({8, 3, 3}))
        {
          case 0:
          {
            bool state = c.chance(50);
            int form = c.range(0, 3), v = c.range(1, 12);
            if (!produce(state, v, form, d, &m)) continue;
            break;
          }
          case 1: // an event response
          {
            int idx = c.range(0, nc.maxEvents - 1);
            if (!t.used(idx)) idx = 0;
            if (!t.used(idx)) continue;
            bool state = c.chance(50);
            node.prod->sendEventResponse(state, idx);
            bool sh = t.nn(idx) == 0;
            m = mkev(sh ? (state ? K::ARSON : K::ARSOF) : (state ? K::ARON : K::AROF), sh ? nn : t.nn(idx), t.en(idx));
            break;
          }
          case 2: // any message sent by the application
          {
            int op = c.weighted({4, 4, 2}) == 0 ? LONG_OPS[c.range(0, 7)] : c.chance(60) ? SHORT_OPS[c.range(0, 7)] : c.pick<int>({K::AREQ, K::ASRQ, K::DTXC, K::ACDAT, K::WRACK, 0xFA});
            int idx = c.range(0, nc.maxEvents - 1);
            m = mkev(op, c.pick<unsigned>({nn, 0, 257}), c.range(1, 20));
            if (t.used(idx)) m = mkev(op, t.nn(idx), t.en(idx));
            m.d.resize(1 + (op >> 5));
            for (size_t j = 5; j < m.d.size(); ++j) m.d[j] = d[j - 5];
            VlcbMessage vm;
            vm.len = m.size();
            memcpy(vm.data, m.d.data(), m.size());
            node.controller->sendMessage(&vm);
            break;
          }
        }
        c.log("send %s", m.str().c_str());
        bus.push_back(m);
        ++own;
        if (!where(t, m).empty()) { ++ownStored; inSetup += setup; }
        if (coe) stimulus.push_back(m);
      }
    }
    else
    {
      int k = c.range(1, 4);
      for (int i = 0; i < k; ++i)
      {
        int op = c.chance(50) ? LONG_OPS[c.range(0, 7)] : SHORT_OPS[c.range(0, 7)];
        Msg m = mkev(op, c.pick<unsigned>({nn, 0, 257}), c.range(1, 20));
        int idx = c.range(0, nc.maxEvents - 1);
        if (t.used(idx) && c.chance(60)) m = mkev(op, t.nn(idx), t.en(idx));
        m.d.resize(1 + (op >> 5));
        for (size_t j = 5; j < m.d.size(); ++j) m.d[j] = c.u8();
        c.log("receive %s", m.str().c_str());
        node.post(m, 120);
        stimulus.push_back(m);
        ++foreign;
      }
    }
    int started = budget;
    node.pump();
    Msgs got = node.takeMsgs();
    // Chains: each message sent from the handler follows the ones before it.
    bus.insert(bus.end(), reacted.begin(), reacted.end());
    if (got != bus) c.fail("bus: sent %s, expected %s", str(got).c_str(), str(bus).c_str());
    if (coe && what == 0) stimulus.insert(stimulus.end(), reacted.begin(), reacted.end());
    if (started - budget > 1) ++cascades;
    size_t pos = 0;
    for (auto &m : stimulus)
    {
      if (isOpen(m.op()))
      {
        if (pos < node.consumed.size() && node.consumed[pos].msg == m) ++pos;
        continue;
      }
      auto w = where(t, m);
      if (w.empty()) continue;
      if (pos >= node.consumed.size())
        c.fail("%s: %s is stored at index %d, the handler is not called for it", what == 0 ? "own event" : "received event", m.str().c_str(), w[0]);
      Heard &h = node.consumed[pos++];
      if (h.msg != m) c.fail("wrong message: handler is called with %s, expected %s", h.msg.str().c_str(), m.str().c_str());
      if (!has(w, h.index)) c.fail("wrong index: handler is called with index %d for %s, stored at index %d", h.index, m.str().c_str(), w[0]);
    }
    if (pos < node.consumed.size())
      c.fail("%s: handler is called with index %d and %s", coe || what == 1 ? "told too much" : "own event without the service", node.consumed[pos].index, node.consumed[pos].msg.str().c_str());
    if (t.bytes() != before) c.fail("%s", "the event table changes");
    bool flag = node.controller->getParam(K::PAR_FLAGS) & K::PF_COE;
    if (flag != coe) c.fail("flag: consume-own-events flag is %d, service present %d", flag, coe);
    if (!st.problems.empty()) c.fail("storage: %s", st.problems[0].c_str());
  }
  c.cls(coe ? "with the service" : "without the service");
  if (inSetup) c.cls("own event in setup mode");
  if (fresh) c.cls("set up by messages first");
  if (cascades) c.cls("chain of own events");
  c.count("own events sent", own);
  c.count("own events in the table", ownStored);
  c.count("events received", foreign);
  c.nontrivial(ownStored >= 2 && foreign >= 1);
}

pbt::Property pbt::property = {
  "C18", "A node consumes its own events exactly if it is configured to",
  "Nodes with and without the service in different service orders; random produced events, responses and messages sent by the application, events received, teaching, setup mode and restarts; the application may send further events from the handler. Handler calls are compared with a scan of the stored records. Non-trivial: at least two own events that are in the table and one received.",
  "exploration", 120000, 2000000, run,
  {},
  {"stored events are distinct", "at most 6 events are sent at once"},
};
