// Requests for the state of an event and the responses to them.
#include "evraw.hpp"

static const int ON_L[] = {K::ARON, K::ARON1, K::ARON2, K::ARON3}, OFF_L[] = {K::AROF, K::AROF1, K::AROF2, K::AROF3};
static const int ON_S[] = {K::ARSON, K::ARSON1, K::ARSON2, K::ARSON3}, OFF_S[] = {K::ARSOF, K::ARSOF1, K::ARSOF2, K::ARSOF3};

struct Answer
{
  bool state;
  int form;
  uint8_t d[3];
};

static void respond(Node &node, const Answer &a, int index)
{
  switch (a.form)
  {
    case 0: node.prod->sendEventResponse(a.state, index); break;
    case 1: node.prod->sendEventResponse(a.state, index, a.d[0]); break;
    case 2: node.prod->sendEventResponse(a.state, index, a.d[0], a.d[1]); break;
    case 3: node.prod->sendEventResponse(a.state, index, a.d[0], a.d[1], a.d[2]); break;
  }
}

static Msg expected(const RawEvents &t, const Answer &a, int index, unsigned nn)
{
  bool sh = t.nn(index) == 0;
  Msg m = mkev((sh ? (a.state ? ON_S : OFF_S) : (a.state ? ON_L : OFF_L))[a.form], sh ? nn : t.nn(index), t.en(index));
  for (int q = 0; q < a.form; ++q) m.d.push_back(a.d[q]);
  return m;
}

static void run(Case &c)
{
  world.reset();
  NodeConf nc;
  nc.order = c.range(0, 3);
  nc.diag = c.chance(50);
  nc.services = c.chance(70) ? S_ALL & ~S_COE : S_MNS | S_CAN | S_PROD | S_TEACH;
  nc.numNVs = c.range(0, 12);
  nc.maxEvents = c.weighted({6, 2, 1}) == 0 ? c.range(1, 12) : c.edgy(1, 255);
  nc.numEVs = c.edgy(1, 12);
  unsigned base = 10 + nc.numNVs;
  RamStorage st(base + (4 + nc.numEVs) * nc.maxEvents);
  RawEvents t{st, base, nc.maxEvents, nc.numEVs};
  unsigned nn = c.pick<unsigned>({256, 0x1234, 1, 0xFE01, 0x00FF, 0xFFFF});
  storeIdentity(st, K::MODE_NORMAL, 5, nn);
  std::vector<unsigned> nns = {nn, 0, 257}, ens = {1, 2, 0x102};
  while (nns.size() < 5) nns.push_back(c.edgy(0, 65535));
  while (ens.size() < 6) ens.push_back(c.edgy(0, 65534));
  int fill = c.range(0, nc.maxEvents > 20 ? 20 : nc.maxEvents);
  int skip = c.chance(20) ? c.edgy(0, nc.maxEvents - fill) : 0;
  for (int i = 0; i < fill; ++i)
  {
    unsigned a = c.pickv(nns), b = c.pickv(ens);
    t.put(skip + i, a, b, {c.chance(25) ? 0 : (int) c.range(1, 255), c.u8(), c.u8()});
  }
  Node node(nc, &st);
  node.handlers = !c.chance(5);
  // The application answers each request it is told of, in a random form, or not at all.
  std::vector<Answer> answers;
  std::vector<std::pair<int, Answer>> given;
  size_t nextAnswer = 0;
  node.onRequested = [&](uint8_t index, const VlcbMessage *) {
    if (nextAnswer < answers.size())
    {
      Answer a = answers[nextAnswer++];
      if (a.form < 0) return;
      given.emplace_back(index, a);
      respond(node, a, index);
    }
  };
  node.boot();
  node.takeFrames();
  c.log("NN %u, %d of %d events from index %d, %d EVs, handler %d", nn, fill, nc.maxEvents, skip, nc.numEVs, node.handlers);
  int n = 0, hits = 0, misses = 0, notProduced = 0, direct = 0;
  bool learn = false;
  auto answer = [&] {
    Answer a;
    a.form = c.range(0, 3);
    a.state = c.chance(50);
    for (auto &x : a.d) x = c.u8();
    return a;
  };
  while (c.more(n, 15, 80))
  {
    STEP(c);
    node.requested.clear();
    answers.clear();
    given.clear();
    nextAnswer = 0;
    int what = c.weighted({20, 3, 1, 4});
    if (what == 1)
    {
      if (!learn) { node.ask(mk(K::NNLRN, nn), 120); learn = true; }
      Msg m;
      unsigned a = c.pickv(nns), b = c.pickv(ens);
      int v = c.chance(30) ? 0 : c.range(1, 255);
      switch (c.weighted({5, 2, 4, 1}))
      {
        case 0: m = mkev(K::EVLRN, a, b, {c.chance(70) ? 1 : (int) c.range(1, nc.numEVs), v}); break;
        case 1: m = mkev(K::EVLRNI, a, b, {(int) c.range(0, nc.maxEvents - 1), c.chance(70) ? 1 : (int) c.range(1, nc.numEVs), v}); break;
        case 2: m = mkev(K::EVULN, a, b); break;
        case 3: m = mk(K::NNCLR, nn); break;
      }
      c.log("teach %s", m.str().c_str());
      node.ask(m, 120);
      if (!node.requested.empty()) c.fail("teaching message %s calls the request handler", m.str().c_str());
      continue;
    }
    if (what == 2)
    {
      c.log("%s", "restart");
      node.boot();
      node.takeFrames();
      learn = false;
      if (!node.requested.empty()) c.fail("%s", "restart calls the request handler");
      continue;
    }
    auto before = t.bytes();
    if (what == 3)
    {
      // responses sent by the application on its own
      Msgs want;
      int k = c.chance(70) ? 1 : c.range(2, 8);
      for (int i = 0; i < k; ++i)
      {
        int index = c.range(0, nc.maxEvents - 1);
        if (!t.used(index)) index = skip < nc.maxEvents ? skip : 0;
        if (!t.used(index)) continue;
        Answer a = answer();
        c.log("respond %d for index %d with %d bytes", a.state, index, a.form);
        respond(node, a, index);
        want.push_back(expected(t, a, index, nn));
        ++direct;
      }
      node.pump();
      Msgs got = node.takeMsgs();
      if (got != want) c.fail("response: sent %s, expected %s", str(got).c_str(), str(want).c_str());
      if (t.bytes() != before) c.fail("%s", "responding changes the event table");
      continue;
    }
    std::vector<Msg> in;
    int k = c.weighted({6, 1}) == 0 ? 1 : c.range(2, 6);
    for (int i = 0; i < k; ++i)
    {
      Msg m;
      unsigned a = c.pickv(nns), b = c.pickv(ens);
      int fromTable = c.range(0, nc.maxEvents - 1);
      if (c.chance(40) && t.used(fromTable)) { a = t.nn(fromTable); b = t.en(fromTable); }
      switch (c.weighted({8, 8, 3, 2}))
      {
        case 0: m = mkev(K::AREQ, a, b); break;
        case 1: m = mkev(K::ASRQ, c.pick<unsigned>({nn, 0, nn ^ 1, nn ^ 0x100, a}), b); break;
        case 2: m = mkev(c.pick<int>({K::ACON, K::ASON, K::ACOF1, K::ARON, K::ARSON, K::ASOF, K::ACON3, K::ASON2}), a, b); break;
        case 3: m = mkev(c.pick<int>({0x93, 0x9B, 0x82, 0xB2 - 0x20, 0xD3, 0xF6, 0xF7, 0xB5, 0xB6, 0x97, 0x98, 0xBA, 0xDA, 0xFA}), a, b); break;
      }
      if (m.op() == K::AREQ && i == 0 && c.chance(1)) m.d[0] = K::QLOC;
      m.d.resize(1 + (m.op() >> 5));
      if (c.chance(8)) m.d.resize(c.range(m.size(), 8)); // with more bytes than the opcode has
      for (size_t j = 5; j < m.d.size(); ++j) m.d[j] = c.u8();
      in.push_back(m);
      Answer a2 = answer();
      if (c.chance(15)) a2.form = -1;
      answers.push_back(a2);
      c.log("%s", m.str().c_str());
    }
    for (auto &m : in) node.post(m, 120);
    node.pump();
    Msgs got = node.takeMsgs();
    size_t pos = 0;
    for (auto &m : in)
    {
      std::vector<int> where;
      if (m.op() == K::AREQ) where = t.find(m.nn(), m.en());
      else if (m.op() == K::ASRQ && (m.nn() == 0 || m.nn() == nn)) where = t.find(0, m.en());
      else continue;
      int producers = 0;
      for (int x : where) producers += t.ev(x, 1) != 0;
      bool called = pos < node.requested.size() && node.requested[pos].msg == m;
      if (!producers || !node.handlers)
      {
        ++misses;
        if (!where.empty()) ++notProduced;
        continue; // an extra call shows as one too many
      }
      if (producers < (int) where.size() && !called) continue; // duplicates, one of them not a produced event
      ++hits;
      if (pos >= node.requested.size()) c.fail("not told: %s is for the event at index %d, the request handler is not called", m.str().c_str(), where[0]);
      Heard &h = node.requested[pos++];
      if (h.msg != m) c.fail("wrong message: the request handler is called with %s, expected %s", h.msg.str().c_str(), m.str().c_str());
      if (!has(where, h.index) || t.ev(h.index, 1) == 0) c.fail("wrong index: the request handler is called with index %d for %s, stored at index %d", h.index, m.str().c_str(), where[0]);
    }
    if (pos < node.requested.size())
      c.fail("told too much: the request handler is called with index %d and %s", node.requested[pos].index, node.requested[pos].msg.str().c_str());
    Msgs want;
    for (auto &g : given) want.push_back(expected(t, g.second, g.first, nn));
    if (got != want) c.fail("response: sent %s, expected %s", str(got).c_str(), str(want).c_str());
    if (t.bytes() != before) c.fail("%s", "a request changes the event table");
    if (!st.problems.empty()) c.fail("storage: %s", st.problems[0].c_str());
  }
  if (!node.handlers) c.cls("no handler");
  if (notProduced) c.cls("stored event that is not produced");
  if (direct) c.cls("unrequested response");
  c.count("requests delivered", hits);
  c.count("requests not for this node", misses);
  c.nontrivial(hits >= 2 && misses >= 1);
}

pbt::Property pbt::property = {
  "C17", "Event state requests reach the application and are answered correctly",
  "Random event tables and requests in long and short form from a small universe of events, mixed with other messages, teaching and restarts; the application answers in random forms from inside the handler or on its own. Handler calls and messages are compared with a scan of the stored records. Non-trivial: at least two requests delivered and one not for this node.",
  "exploration", 150000, 2000000, run,
  {},
  {"messages have at least the length of their opcode", "at most 6 messages arrive back to back", "responses are only sent for stored events"},
};
