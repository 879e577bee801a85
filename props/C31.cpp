// Several complete modules and a configuration tool on one CAN bus.
#include "evraw.hpp"
#include "longmsg.hpp"

struct Member;
static Member *running;

static const int LONG_OPS[] = {K::ACON, K::ACOF, K::ACON1, K::ACOF1, K::ACON2, K::ACOF2, K::ACON3, K::ACOF3};
static const int SHORT_OPS[] = {K::ASON, K::ASOF, K::ASON1, K::ASOF1, K::ASON2, K::ASOF2, K::ASON3, K::ASOF3};

static int eventForm(int op) // 2*data+off, or -1
{
  for (int i = 0; i < 8; ++i) if (LONG_OPS[i] == op || SHORT_OPS[i] == op) return i;
  return -1;
}
static bool shortOp(int op)
{
  for (int o : SHORT_OPS) if (o == op) return true;
  return false;
}

struct Member
{
  int id;
  NodeConf nc;
  RamStorage st{400};
  std::unique_ptr<RawEvents> t;
  std::unique_ptr<VLCB::LongMessageService> lm;
  std::unique_ptr<Node> node;
  std::unique_ptr<uint8_t[]> buf;
  byte ids[1];
  bool subscribed = false;
  std::vector<Piece> got;
  std::deque<CANFrame> out;
  std::vector<uint8_t> before;
  // A microcontroller has one set of parameters in static memory.
  unsigned char params[21];
  int chain = 0;               // events the handler still sends
  int chainVal = 0;

  unsigned nn() const { return st.mem[VLCB::LOCATION_NODE_NUMBER_HIGH] << 8 | st.mem[VLCB::LOCATION_NODE_NUMBER_LOW]; }
  bool normal() const { return st.mem[VLCB::LOCATION_MODE] == K::MODE_NORMAL; }
  unsigned canid() const { return st.mem[VLCB::LOCATION_CANID]; }
  std::string str() const { return "module " + std::to_string(id) + " (NN " + std::to_string(nn()) + ")"; }
};

static void lmHandler(void *p, unsigned len, uint8_t s, uint8_t st)
{
  running->got.push_back({s, st, Bytes((uint8_t *) p, (uint8_t *) p + len)});
}

struct OnBus { int from; CANFrame f; Msg m; };    // from: -1 is the tool

struct Bus
{
  Case &c;
  std::vector<std::unique_ptr<Member>> mods;
  std::deque<CANFrame> tool;
  unsigned toolId = 120;
  std::vector<OnBus> log;
  uint64_t sched = 0;
  long frames = 0;
  bool toolAnswers = true;

  explicit Bus(Case &c) : c(c) {}
  unsigned rnd(unsigned n)
  {
    if (!sched) return 0;
    sched ^= sched << 13; sched ^= sched >> 7; sched ^= sched << 17;
    return (sched >> 33) % n;
  }
  void post(const Msg &m)
  {
    c.log("tool: %s", m.str().c_str());
    tool.push_back(dataFrame(toolId, m));
  }
  void broadcast(int from, const CANFrame &f)
  {
    OnBus o{from, f, {}};
    if (!f.rtr && !f.ext) o.m.d.assign(f.data, f.data + (f.len > 8 ? 8 : f.len));
    c.log("%lu: %s from %d", world.ms, frameStr(f).c_str(), from);
    log.push_back(o);
    ++frames;
    for (auto &m : mods) if (m->id != from) m->node->can->rx.push_back(f);
    if (from >= 0 && f.rtr && toolAnswers) tool.push_back(emptyFrame(toolId));
  }
  void run1(Member &m)
  {
    running = &m;
    m.node->loop();
    m.lm->process(); // as a sketch does
    for (auto &f : m.node->takeFrames()) m.out.push_back(f);
  }
  // Every module runs at its own speed, then one frame crosses the bus. False when nothing is left to do.
  bool pass()
  {
    bool busy = false;
    int n = mods.size(), first = rnd(n);
    for (int i = 0; i < n; ++i)
    {
      Member &m = *mods[(first + i) % n];
      for (int k = 3 + rnd(3); k > 0; --k) run1(m);
      busy |= !m.node->can->rx.empty() || m.node->controller->pendingAction() || !m.out.empty();
    }
    busy |= !tool.empty();
    // Arbitration: the lowest identifier wins; equal ones in any order.
    int best = -2;
    unsigned long bestId = ~0ul;
    first = rnd(n + 1);
    for (int i = 0; i <= n; ++i)
    {
      int k = (first + i) % (n + 1) - 1;
      auto &q = k < 0 ? tool : mods[k]->out;
      if (!q.empty() && q.front().id < bestId) { best = k; bestId = q.front().id; }
    }
    if (best > -2)
    {
      auto &q = best < 0 ? tool : mods[best]->out;
      CANFrame f = q.front();
      q.pop_front();
      broadcast(best, f);
    }
    return busy;
  }
  // Until nothing happens any more and all timers have passed.
  void settle(const char *what)
  {
    size_t start = log.size();
    unsigned long until = world.ms + 300;
    for (int idle = 0; world.ms - until > 0x7FFFFFFFul;)
    {
      if (pass()) { idle = 0; if (rnd(3) == 1) ++world.ms; }
      else if (++idle >= 2) { world.ms += sched ? 1 + rnd(12) : 10; idle = 0; }
      if (log.size() - start > 700) c.fail("storm: after %s more than 700 frames without an end, the last one %s", what, frameStr(log.back().f).c_str());
    }
    while (pass()) {}
  }
  void begin()
  {
    log.clear();
    sched = c.chance(70) ? c.draw(0xFFFFFF) : 0;
    for (auto &m : mods)
    {
      m->before = m->st.mem;
      m->node->consumed.clear();
      m->got.clear();
      m->chain = 0;
    }
  }
  // Messages that a module has sent.
  Msgs sent(int from)
  {
    Msgs v;
    for (auto &o : log) if (o.from == from && o.m.size()) v.push_back(o.m);
    return v;
  }
  int count(int from, int op)
  {
    int n = 0;
    for (auto &m : sent(from)) n += m.op() == op;
    return n;
  }
  // Nothing but the CANID may have changed in the storage of all others.
  void unchanged(const char *what, std::set<int> except)
  {
    for (auto &m : mods)
    {
      if (except.count(m->id)) continue;
      auto a = m->before, b = m->st.mem;
      a[VLCB::LOCATION_CANID] = b[VLCB::LOCATION_CANID] = 0;
      for (size_t i = 0; i < a.size(); ++i)
        if (a[i] != b[i]) c.fail("others: %s changes storage address %zu of %s from %02X to %02X", what, i, m->str().c_str(), a[i], b[i]);
    }
  }
  // Every module's handler has been called for exactly the events on the bus that its table has.
  int events(const char *what)
  {
    int heard = 0;
    for (auto &p : mods)
    {
      Member &m = *p;
      std::vector<Heard> others = m.node->consumed;
      struct Want { Msg m; std::vector<int> where; bool must; };
      std::vector<Want> want, own;
      // An own event that was created in the meantime may be heard only after that.
      RamStorage then(m.st.mem.size());
      then.mem = m.before;
      RawEvents old{then, m.t->base, m.t->max, m.t->numEVs};
      for (auto &o : log)
      {
        int form = o.m.size() >= 5 ? eventForm(o.m.op()) : -1;
        if (form < 0) continue;
        unsigned nn = shortOp(o.m.op()) ? 0 : o.m.nn();
        auto where = m.t->find(nn, o.m.en());
        if (where.empty()) continue;
        if (o.from != m.id) want.push_back({o.m, where, !old.find(nn, o.m.en()).empty()});
        else if (m.nc.services & S_COE) own.push_back({o.m, where, true});
      }
      // What the handler heard has to be some merge of the two.
      std::set<std::pair<size_t, size_t>> at{{0, 0}};
      auto skip = [&] {
        for (auto x : std::set<std::pair<size_t, size_t>>(at))
          for (size_t i = x.first; i < want.size() && !want[i].must; ++i) at.insert({i + 1, x.second});
      };
      skip();
      for (auto &h : others)
      {
        ++heard;
        std::set<std::pair<size_t, size_t>> next;
        std::string expected;
        for (auto x : at)
        {
          if (x.first < want.size())
          {
            const Want &w = want[x.first];
            expected += w.m.str();
            if (w.m == h.msg && has(w.where, h.index)) next.insert({x.first + 1, x.second});
          }
          if (x.second < own.size())
          {
            const Want &w = own[x.second];
            expected += w.m.str();
            if (w.m == h.msg && has(w.where, h.index)) next.insert({x.first, x.second + 1});
          }
        }
        if (next.empty())
          c.fail("event: after %s %s is told of %s at index %d, expected %s", what, m.str().c_str(), h.msg.str().c_str(), h.index, expected.empty() ? "nothing" : expected.c_str());
        at = next;
        skip();
      }
      if (!at.count({want.size(), own.size()}))
      {
        auto x = *at.rbegin();
        c.fail("event: after %s %s is not told of %s", what, m.str().c_str(), (x.first < want.size() ? want[x.first] : own[x.second]).m.str().c_str());
      }
    }
    return heard;
  }
  void ends(const char *what)
  {
    for (auto &m : mods)
    {
      if (!m->st.problems.empty()) c.fail("storage: %s", m->st.problems[0].c_str());
      if (m->node->can->rx.size()) c.fail("deaf: after %s %s leaves frames", what, m->str().c_str());
    }
    for (auto &o : log)
      if (o.f.ext || o.f.len > 8 || (o.from >= 0 && (o.f.id & 0x7F) > 99)) c.fail("frame: after %s module %d sends %s", what, o.from, frameStr(o.f).c_str());
  }
};

static void run(Case &c)
{
  world.reset();
  world.ms = c.weighted({6, 2, 2}) == 0 ? 0 : c.chance(50) ? c.edgy(0, 4294000000l) : (unsigned long) -1 - c.range(0, 9000);
  Bus b(c);
  int n = c.range(2, 5);
  if (c.chance(30)) b.toolId = c.range(1, 127);
  std::vector<unsigned> nns;
  static const unsigned pool[] = {256, 257, 1, 0x00FF, 0x0101, 0xFE01, 0xFFFE, 0x1234};
  for (int i = 0; i < n; ++i)
  {
    std::unique_ptr<Member> m(new Member);
    m->id = i;
    m->nc.order = c.range(0, 3);
    m->nc.services = S_ALL & ~S_COE;
    if (c.chance(20)) m->nc.services |= S_COE;
    m->nc.diag = c.chance(20);
    m->nc.numNVs = c.range(0, 4);
    m->nc.maxEvents = c.range(1, 8);
    m->nc.numEVs = c.range(1, 3);
    m->nc.produced = c.chance(30) ? c.range(1, 3) : 0;
    unsigned base = 10 + m->nc.numNVs;
    m->t.reset(new RawEvents{m->st, base, m->nc.maxEvents, m->nc.numEVs});
    unsigned nn = pool[(c.range(0, 1) + i) % 8];
    for (unsigned x : nns) if (x == nn) nn = pool[(i + 2) % 8];
    for (unsigned x : nns) if (x == nn) nn = 300 + i;
    bool normal = c.chance(75);
    if (!normal) nn = 0;
    unsigned canid = normal ? c.weighted({5, 3, 1}) == 0 ? c.range(1, 3) : c.range(1, 99) : c.chance(70) ? 0 : c.range(1, 5);
    if (!c.chance(5)) storeIdentity(m->st, normal ? K::MODE_NORMAL : K::MODE_UNINITIALISED, canid, nn);
    else nn = 0; // new from the factory
    if (nn) nns.push_back(nn);
    if (nn && c.chance(60))
      for (int k = 0; k < m->nc.maxEvents; ++k)
      {
        unsigned a = c.chance(25) ? 0 : c.pickv(nns), e = c.range(1, 5);
        if (c.chance(70) && m->t->find(a, e).empty()) m->t->put(k, a, e, {(int) c.range(0, 5), c.u8(), c.u8()});
      }
    m->node.reset(new Node(m->nc, &m->st));
    m->lm.reset(new VLCB::LongMessageService);
    m->node->extra.push_back(m->lm.get());
    m->subscribed = c.chance(60);
    m->buf.reset(new uint8_t[80]);
    m->ids[0] = c.range(1, 2);
    Member *p = m.get();
    m->node->onConsumed = [p](uint8_t, const VlcbMessage *) {
      if (p->chain <= 0) return;
      --p->chain;
      p->node->prod->sendEvent(true, p->chainVal);
    };
    b.mods.push_back(std::move(m));
  }
  auto boot = [&](Member &m) {
    running = &m;
    m.node->onParams = [](VLCB::Parameters &p) { p.setFlags(0); };
    m.node->boot();
    for (int i = 0; i < 21; ++i) m.params[i] = m.node->controller->getParam(i);
    m.node->controller->setParams(m.params);
    if (m.subscribed) m.lm->subscribe(m.ids, 1, m.buf.get(), 80, lmHandler);
    m.lm->setDelay(2);
    for (auto &f : m.node->takeFrames()) m.out.push_back(f);
  };
  b.begin();
  for (auto &m : b.mods) boot(*m);
  b.settle("start");
  b.ends("start");
  for (auto &m : b.mods)
    c.log("module %d: NN %u, CANID %u, services %X, order %d, %d events of %d, %d default events%s", m->id, m->nn(), m->canid(), m->nc.services, m->nc.order, m->nc.maxEvents,
          m->nc.numEVs, m->nc.produced, m->subscribed ? ", subscribed" : "");
  auto newNumber = [&] {
    for (;;)
    {
      unsigned x = c.pick<unsigned>({300, 301, 302, 0x0100, 0x4321, 0xFF00, 0xFFFF, 0x0001, 310, 311, 312, 313, 314});
      bool used = false;
      for (auto &m : b.mods) used |= m->nn() == x;
      if (!used) return x;
      x = c.range(400, 60000);
      used = false;
      for (auto &m : b.mods) used |= m->nn() == x;
      if (!used) return x;
    }
  };
  int inSetup = -1;         // the module in setup mode
  int steps = 0, heardEvents = 0, converged = 0, renamed = 0, taught = 0, longs = 0;
  while (c.more(steps, 14, 50))
  {
    STEP(c);
    Member &m = *b.mods[c.range(0, n - 1)];
    unsigned nn = m.nn();
    b.begin();
    switch (c.weighted({8, 6, 4, 3, 4, 3, 2, 2, 3, 2}))
    {
      case 0: // events and long messages, all at the same time
      {
        int k = c.range(1, 4);
        if (c.chance(25))
          for (auto &x : b.mods)
            if (x->normal() && c.chance(60)) { x->chain = c.range(1, 2); x->chainVal = c.range(1, 4); }
        std::vector<int> expect(n, 0);
        for (int i = 0; i < k; ++i)
        {
          Member &s = *b.mods[c.range(0, n - 1)];
          if (c.chance(30) || !s.normal())
          {
            // the tool stands in for a module
            bool sh = c.chance(40);
            int form = c.range(0, 7);
            Msg e = mkev(sh ? SHORT_OPS[form] : LONG_OPS[form], nns.empty() || c.chance(20) ? 0x2222 : c.pickv(nns), c.range(1, 5));
            while (e.size() < 1u + (e.op() >> 5)) e.d.push_back(c.u8());
            b.post(e);
          }
          else
          {
            int v = c.range(1, 5), data = c.range(0, 3);
            bool on = c.chance(50);
            c.log("%s sends value %d %s, %d data bytes", s.str().c_str(), v, on ? "on" : "off", data);
            running = &s;
            if (!s.t->findEv1(v).empty() || s.t->count() < s.nc.maxEvents) ++expect[s.id];
            byte d[3] = {(byte) c.sbyte(), (byte) c.sbyte(), (byte) c.sbyte()};
            switch (data)
            {
              case 0: s.node->prod->sendEvent(on, v); break;
              case 1: s.node->prod->sendEvent(on, v, d[0]); break;
              case 2: s.node->prod->sendEvent(on, v, d[0], d[1]); break;
              case 3: s.node->prod->sendEvent(on, v, d[0], d[1], d[2]); break;
            }
          }
          for (int j = b.rnd(4); j > 0; --j) b.pass();
        }
        // Up to two long messages at the same time, on different streams
        Member *lmFrom[3] = {};
        Bytes text[3];
        for (int stream = 1; stream <= 2; ++stream)
        {
          if (!c.chance(20)) continue;
          Member *from = b.mods[c.range(0, n - 1)].get();
          if (from == lmFrom[1]) continue;
          lmFrom[stream] = from;
          for (int len = c.range(1, 60); len > 0; --len) text[stream].push_back(c.u8());
          c.log("%s sends %zu bytes on stream %d", from->str().c_str(), text[stream].size(), stream);
          running = from;
          if (!from->lm->sendLongMessage(text[stream].data(), text[stream].size(), stream)) c.fail("%s", "long message: refused");
          ++longs;
        }
        b.settle("events");
        heardEvents += b.events("events");
        for (auto &x : b.mods)
        {
          int sent = 0;
          for (auto &q : b.sent(x->id)) sent += eventForm(q.op()) >= 0;
          if (sent < expect[x->id]) c.fail("event: %s sends %d of %d events", x->str().c_str(), sent, expect[x->id]);
          if (!x->chainVal && sent > expect[x->id]) c.fail("event: %s sends %d instead of %d events", x->str().c_str(), sent, expect[x->id]);
          for (auto &q : b.sent(x->id))
            if (shortOp(q.op()) && q.nn() != x->nn()) c.fail("event: %s sends %s", x->str().c_str(), q.str().c_str());
          for (auto &q : b.sent(x->id))
            if (eventForm(q.op()) < 0 && q.op() != K::DTXC) c.fail("unasked: %s sends %s", x->str().c_str(), q.str().c_str());
          std::vector<Piece> want;
          int stream = x->ids[0];
          if (lmFrom[stream] && x.get() != lmFrom[stream] && x->subscribed) want.push_back({stream, LM_COMPLETE, text[stream]});
          if (x->got != want) c.fail("long message: %s receives %s, expected %s", x->str().c_str(), str(x->got).c_str(), str(want).c_str());
          x->chainVal = 0;
        }
        std::set<int> producers;
        for (auto &x : b.mods) producers.insert(x->id);
        for (auto &x : b.mods) if (!x->normal()) producers.erase(x->id);
        b.unchanged("events", producers);
        break;
      }
      case 1: // teaching by the tool
      {
        if (!nn) break;
        if (c.chance(40))
        {
          // before that, another one
          Member &o = *b.mods[c.range(0, n - 1)];
          if (o.nn()) b.post(mk(K::NNLRN, o.nn()));
        }
        b.post(mk(K::NNLRN, nn));
        int k = c.range(1, 3);
        for (int i = 0; i < k; ++i)
        {
          unsigned a = nns.empty() || c.chance(20) ? 0 : c.pickv(nns), e = c.range(1, 5);
          if (c.chance(75)) b.post(mkev(K::EVLRN, a, e, {(int) c.range(1, m.nc.numEVs), (int) c.range(0, 5)}));
          else if (c.chance(60)) b.post(mkev(K::EVULN, a, e));
          else b.post(mkev(K::EVLRNI, a, e, {(int) c.range(0, m.nc.maxEvents - 1), (int) c.range(1, m.nc.numEVs), (int) c.range(0, 5)}));
        }
        bool leave = c.chance(60);
        if (leave) b.post(mk(K::NNULN, nn));
        b.settle("teaching");
        b.unchanged("teaching another module", {m.id});
        int answers = 0;
        for (auto &q : b.sent(m.id)) if (q.op() == K::GRSP) ++answers;
        if (answers != k) c.fail("teaching: %s answers %d of %d", m.str().c_str(), answers, k);
        for (auto &x : b.mods) if (x->id != m.id && !b.sent(x->id).empty()) c.fail("teaching: %s answers instead", x->str().c_str());
        ++taught;
        break;
      }
      case 2: // a question for one
      {
        if (!nn) break;
        int what = c.range(0, 3);
        static const int answer[] = {K::NUMEV, K::PARAN, K::EVNLF, K::SD};
        Msg q = what == 0 ? mk(K::RQEVN, nn) : what == 1 ? mk(K::RQNPN, nn, {(int) c.range(1, 20)}) : what == 2 ? mk(K::NNEVN, nn) : mk(K::RQSD, nn, {0});
        b.post(q);
        b.settle("a question");
        b.unchanged("a question", {});
        for (auto &x : b.mods)
        {
          Msgs got = b.sent(x->id);
          size_t want = x->id != m.id ? 0 : 1;
          if (what == 3 && want)
          {
            // one for the number of services and one for each
            int services = x->node->list.size();
            want = 1 + services;
          }
          if (got.size() != want) c.fail("question: %s answers %s with %s", x->str().c_str(), q.str().c_str(), str(got).c_str());
          for (auto &g : got) if (g.op() != answer[what] || g.nn() != nn) c.fail("question: %s answers %s with %s", x->str().c_str(), q.str().c_str(), g.str().c_str());
        }
        break;
      }
      case 3: // who is there?
      {
        b.post(Msg{K::QNN});
        b.settle("QNN");
        b.unchanged("QNN", {});
        for (auto &x : b.mods)
        {
          Msgs got = b.sent(x->id);
          if (x->nn() == 0 ? !got.empty() : got.size() != 1 || got[0].op() != K::PNN || got[0].nn() != x->nn())
            c.fail("QNN: %s sends %s", x->str().c_str(), str(got).c_str());
        }
        break;
      }
      case 4: // button: setup
      {
        int pressed = 1;
        std::vector<Member *> who{&m};
        if (c.chance(25))
        {
          Member &o = *b.mods[c.range(0, n - 1)];
          if (&o != &m) { who.push_back(&o); ++pressed; }
        }
        for (auto x : who)
        {
          c.log("%s: button", x->str().c_str());
          running = x;
          x->node->controller->putAction(x->normal() ? VLCB::ACT_RENEGOTIATE : VLCB::ACT_CHANGE_MODE);
          for (int j = b.rnd(6); j > 0; --j) b.pass();
        }
        b.settle("button");
        b.unchanged("the button", {});
        // Who is in setup mode now?
        b.log.clear();
        b.post(Msg{K::RQNP});
        b.settle("RQNP");
        int now = -1, count = 0;
        for (auto &x : b.mods)
        {
          int a = b.count(x->id, K::PARAMS);
          if (a > 1) c.fail("setup: %s answers RQNP %d times", x->str().c_str(), a);
          if (a) { ++count; now = x->id; }
        }
        if (count > 1) c.fail("setup: %d modules are in setup mode at the same time", count);
        if (pressed == 1)
        {
          int want = inSetup == m.id ? -1 : m.id;
          if (now != want) c.fail("setup: after the button of %s module %d is in setup mode, expected %d", m.str().c_str(), now, want);
        }
        inSetup = now;
        break;
      }
      case 5: // the tool gives a number
      {
        unsigned x = newNumber();
        b.post(mk(K::SNN, x));
        b.settle("SNN");
        std::set<int> ch;
        if (inSetup >= 0) ch.insert(inSetup);
        b.unchanged("SNN", ch);
        for (auto &o : b.mods)
        {
          Msgs got = b.sent(o->id);
          if (o->id != inSetup) { if (!got.empty()) c.fail("SNN: %s answers %s", o->str().c_str(), str(got).c_str()); }
          else if (o->nn() != x || !o->normal() || got.empty() || got[0] != mk(K::NNACK, x)) c.fail("SNN: %s answers %s to SNN %u", o->str().c_str(), str(got).c_str(), x);
        }
        if (inSetup >= 0) { nns.push_back(x); ++renamed; }
        inSetup = -1;
        break;
      }
      case 6: // to uninitialised
      {
        if (!nn) break;
        b.post(mk(K::MODE, nn, {K::MODE_UNINITIALISED}));
        b.settle("MODE uninitialised");
        b.unchanged("MODE uninitialised for another module", {m.id});
        if (m.nn() != 0 || m.normal()) c.fail("MODE: %s is not uninitialised", m.str().c_str());
        if (inSetup == m.id) inSetup = -1;
        break;
      }
      case 7: // restart
      {
        c.log("%s: restart", m.str().c_str());
        m.out.clear();
        boot(m);
        b.settle("restart");
        b.unchanged("a restart", m.normal() && m.nc.produced ? std::set<int>{m.id} : std::set<int>{});
        if (inSetup == m.id) inSetup = -1;
        break;
      }
      case 8: // CANIDs are messed up
      {
        int k = c.range(1, 3);
        for (int i = 0; i < k; ++i)
        {
          Member &o = *b.mods[c.range(0, n - 1)];
          switch (c.range(0, 3))
          {
            case 0: if (o.nn()) b.post(mk(K::CANID, o.nn(), {(int) c.range(1, 4)})); break;
            case 1: if (o.nn()) b.post(mk(K::ENUM, o.nn())); break;
            case 2:
              c.log("%s: enumeration", o.str().c_str());
              running = &o;
              o.node->controller->putAction(VLCB::ACT_START_CAN_ENUMERATION);
              break;
            case 3: b.broadcast(-1, rtrFrame(c.range(1, 99))); break;
          }
          for (int j = b.rnd(8); j > 0; --j) b.pass();
        }
        b.settle("CANIDs");
        b.unchanged("CANID changes", {});
        break;
      }
      case 9: // everyone says something, twice; then all CANIDs differ. Whatever they say
      {
        std::set<int> producers;
        for (int round = 0; round < 3; ++round)
        {
          if (round == 2) b.log.clear();
          // Any message will do.
          switch (c.range(0, 2))
          {
            case 0: b.post(mk(K::RQEVN, 0x2222)); break;
            case 1: b.post(mkev(K::ACON3, 0x2222, 9, {1, 2, 3})); break;
            case 2: b.post(Msg{K::DTXC, 77, 9, 1, 2, 3, 4, 5}); break;
          }
          b.settle("the tool's message");
          for (auto &x : b.mods)
          {
            if (!x->nn()) continue;
            int v = c.range(1, 5), how = c.weighted({4, 2, 2});
            if (how == 1 && (!x->normal() || (x->t->findEv1(v).empty() && x->t->count() >= x->nc.maxEvents))) how = 2;
            int op = how == 0 ? K::NUMEV : how == 1 ? -1 : K::DTXC;
            running = x.get();
            if (how == 0) b.post(mk(K::RQEVN, x->nn()));
            else if (how == 1)
            {
              c.log("%s sends value %d", x->str().c_str(), v);
              producers.insert(x->id);
              x->node->prod->sendEvent(true, v, 7);
            }
            else
            {
              c.log("%s sends a long message", x->str().c_str());
              if (!x->lm->sendLongMessage("twenty bytes of text", 20, 9)) c.fail("%s", "long message: refused");
            }
            size_t from = b.log.size();
            b.settle("a message");
            bool said = false;
            for (; from < b.log.size(); ++from)
              said |= b.log[from].from == x->id && b.log[from].m.size() && (op >= 0 ? b.log[from].m.op() == op : eventForm(b.log[from].m.op()) >= 0);
            if (!said) c.fail("question: %s does not %s", x->str().c_str(), how ? "send its message" : "answer");
          }
        }
        std::map<unsigned, int> seen;
        seen[b.toolId] = -1;
        bool any = false;
        for (auto &o : b.log)
        {
          if (o.f.rtr) c.fail("CANID: %s does not keep its CANID %u", b.mods[o.from]->str().c_str(), (unsigned) o.f.id & 0x7F);
          if (o.from < 0) continue;
          any = true;
          unsigned id = o.f.id & 0x7F;
          if (id < 1 || id > 99) c.fail("CANID: %s has %u", b.mods[o.from]->str().c_str(), id);
          if (id != b.mods[o.from]->canid()) c.fail("CANID: %s uses %u, has stored %u", b.mods[o.from]->str().c_str(), id, b.mods[o.from]->canid());
          if (seen.count(id) && seen[id] != o.from) c.fail("CANID: module %d and module %d (-1: the tool) share %u for good", o.from, seen[id], id);
          seen[id] = o.from;
        }
        b.unchanged("questions", producers);
        converged += any;
        break;
      }
    }
    b.ends("this step");
  }
  c.count("frames on the bus", b.frames);
  c.count("events heard", heardEvents);
  if (converged) c.cls("CANIDs checked");
  if (renamed) c.cls("new node numbers");
  if (longs) c.cls("long messages");
  if (taught) c.cls("teaching");
  c.nontrivial(heardEvents > 0 && steps >= 5);
}

pbt::Property pbt::property = {
  "C31", "Modules on one bus get distinct CANIDs and hear each other's events",
  "Two to five complete nodes and a configuration tool on a simulated CAN bus with arbitration, each node at its own speed, in random histories of events (also sent from event handlers), long messages, teaching, questions, button presses, node numbers, restarts and CANID clashes; each node's storage, handler calls and messages are compared with what the frames on the bus demand. Non-trivial: an event was heard by another node in a history of five or more steps.",
  "exploration", 40000, 600000, run,
  {},
  {"frames reach all nodes in the same order and are not lost", "no two modules have been given the same node number", "the bus is slower than the main loops"},
};
