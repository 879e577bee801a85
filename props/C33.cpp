// Questions, diagnostics and idle time change nothing: a history with and without them gives the same behaviour.
#include "rig.hpp"

struct Op
{
  enum { MSG, QUESTION, REMOTE, ANSWER, TIME, ACTION, SEND, POWER } kind;
  Msg m;
  unsigned long dt = 0;
  int arg = 0, more = 0;
};

struct Result
{
  std::vector<Msgs> out;      // per own operation
  std::vector<uint8_t> mem;
  std::vector<Heard> consumed, requested;
  int answers = 0;
  long restarts = 0;
  std::string state;
};

static std::string stateOf(Node &n)
{
  char s[120];
  snprintf(s, sizeof s, "mode %d, node number %u, CANID %u, heartbeat %d, flags %02X", (int) n.config->currentMode, (unsigned) n.config->nodeNum, (unsigned) n.config->CANID,
           (int) n.config->heartbeat, (unsigned) n.controller->getParam(K::PAR_FLAGS));
  return s;
}

static Result play(const std::vector<Op> &ops, const NodeConf &nc, int mode, unsigned nn, unsigned long start, bool extra)
{
  world.reset();
  world.ms = start;
  Result r;
  RamStorage st(512);
  storeIdentity(st, mode, mode == K::MODE_NORMAL ? 10 : 0, nn, 1);
  Node node(nc, &st);
  node.boot();
  node.pump();
  node.takeFrames();
  long lost = 0;
  for (auto &o : ops)
  {
    if (o.kind == Op::QUESTION || o.kind == Op::REMOTE)
    {
      if (!extra) continue;
      size_t a = node.consumed.size(), b = node.requested.size();
      if (o.kind == Op::QUESTION) node.post(o.m, 110);
      else node.can->rx.push_back(rtrFrame(111, 0xB));
      node.pump();
      r.answers += node.takeFrames().size();
      node.requested.resize(b);
      if (node.consumed.size() != a) ++lost;
      continue;
    }
    switch (o.kind)
    {
      case Op::MSG: node.post(o.m, 100); break;
      case Op::ANSWER: node.can->rx.push_back(emptyFrame(o.arg, 0xB)); break;
      case Op::TIME: node.advance(o.dt, 10); break;
      case Op::ACTION: node.controller->putAction(o.arg == 0 ? VLCB::ACT_RENEGOTIATE : o.arg == 1 ? VLCB::ACT_START_CAN_ENUMERATION : VLCB::ACT_CHANGE_MODE); break;
      case Op::SEND: node.prod->sendEvent(o.arg & 1, 1 + (o.arg >> 1) % 3); break;
      case Op::POWER:
        node.off();
        node.boot();
        break;
      default: break;
    }
    node.pump();
    if (extra) for (int i = 0; i < o.more; ++i) node.loop();
    r.out.push_back(node.takeMsgs(true));
  }
  if (lost) r.state = "a question was taken for an event, ";
  r.mem = st.mem;
  r.consumed = node.consumed;
  r.requested = node.requested;
  r.restarts = world.restarts;
  r.state += stateOf(node);
  return r;
}

static Msg ownOp(Case &c, unsigned nn, const NodeConf &nc, bool diags, bool calm)
{
  unsigned en = c.range(1, calm ? 3 : 6), a = c.range(0, calm ? 1 : 2) * 256;
  // in a calm history the node keeps its number and its events
  switch (calm ? c.weighted({4, 2, 2, 8, 2, 1, 16, 4, 2, 0, 1, 1, 1, 0, 0, 1, 2, 1, 0, diags ? 3 : 0})
               : c.weighted({4, 6, 2, 8, 4, 3, 5, 2, 3, 4, 2, 2, 2, 2, 1, 2, 2, 1, 1, diags ? 3 : 0}))
  {
    case 0: return mk(c.chance(50) ? K::NVSET : K::NVSETRD, nn, {(int) c.range(1, nc.numNVs), c.u8()});
    case 1: return mk(K::NNLRN, nn);
    case 2: return mk(K::NNULN, nn);
    case 3: return mkev(K::EVLRN, a, en, {(int) c.range(1, nc.numEVs), c.chance(60) ? (int) c.range(0, 3) : c.u8()});
    case 4: return mkev(K::EVLRNI, a, en, {(int) c.range(0, nc.maxEvents - 1), (int) c.range(1, nc.numEVs), c.u8()});
    case 5: return mkev(K::EVULN, a, en);
    case 6:
    {
      Msg m = mkev(c.pick<int>({K::ACON, K::ACOF, K::ASON, K::ASOF, K::ACON1, K::ASOF2, K::ARON, K::AROF, K::ACOF3}), a, en);
      m.d.resize(1 + (m.op() >> 5));
      return m;
    }
    case 7: return mkev(c.chance(50) ? K::AREQ : K::ASRQ, a, en);
    case 8: return mk(K::MODE, nn, {c.pick({(int) K::MODE_HEARTBEAT_ON, (int) K::MODE_HEARTBEAT_OFF, (int) K::MODE_LEARN_ON, (int) K::MODE_LEARN_OFF, (int) K::MODE_NORMAL, (int) (calm ? K::MODE_NORMAL : K::MODE_SETUP), (int) (calm ? K::MODE_NORMAL : K::MODE_UNINITIALISED)})});
    case 9: return mk(K::SNN, c.pick<unsigned>({nn, 300, 256, 511}));
    case 10: return mk(K::RQNN, 700);
    case 11: return mk(K::CANID, nn, {(int) c.range(0, 100)});
    case 12: return mk(K::ENUM, nn);
    case 13: return mk(K::NNCLR, nn);
    case 14: return mk(K::NNRST, nn);
    case 15: return mk(K::NNLRN, nn + 1);
    case 16: return mk(c.pick<int>({K::RQNPN, K::NVRD, K::RQSD}), nn, {(int) c.range(0, 9)});
    case 17: return Msg{K::QNN};
    case 18: return mk(K::NNRSM, nn);
    default: return mk(K::RDGN, nn, {(int) c.range(1, 8), (int) c.range(1, 5)});
  }
}

static Msg question(Case &c, unsigned nn, const NodeConf &nc)
{
  unsigned en = c.range(1, 6), a = c.range(0, 2) * 256;
  Msg m;
  switch (c.range(0, 17))
  {
    case 0: m = Msg{K::QNN}; break;
    case 1: m = Msg{K::RQNP}; break;
    case 2: m = Msg{K::RQMN}; break;
    case 3: m = mk(K::RQNPN, nn, {(int) c.range(0, 22)}); break;
    case 4: m = mk(K::RQSD, nn, {(int) c.range(0, 9)}); break;
    case 5: m = mk(K::NVRD, nn, {(int) c.range(0, nc.numNVs + 1)}); break;
    case 6: m = mk(K::NERD, nn); break;
    case 7: m = mk(K::NENRD, nn, {(int) c.range(0, nc.maxEvents)}); break;
    case 8: m = mk(K::RQEVN, nn); break;
    case 9: m = mk(K::NNEVN, nn); break;
    case 10: m = mk(K::REVAL, nn, {(int) c.range(0, nc.maxEvents), (int) c.range(0, nc.numEVs + 1)}); break;
    case 11: m = mkev(K::REQEV, a, en, {(int) c.range(0, nc.numEVs + 1)}); break;
    case 12: m = mkev(K::AREQ, a, en); break;
    case 13: m = mkev(K::ASRQ, c.chance(50) ? 0 : nn, en); break;
    case 14: m = mk(K::RDGN, nn, {c.chance(40) ? 1 : (int) c.range(1, 9), c.chance(70) ? (int) c.range(0, 6) : (int) c.range(7, 20)}); break;
    case 15: m = mk(c.pick<int>({K::PNN, K::WRACK, K::NUMEV, K::EVNLF, K::GRSP, K::NVANS, K::HEARTB, K::SD, K::NNACK, K::CMDERR}), c.chance(50) ? nn : 900, {1, 2}); break;
    case 16: m = Msg{c.pick<int>({K::QLOC, K::RLOC, K::DSPD, K::KLOC, K::TON, K::TOF, K::FCLK, K::STAT, K::DFUN}), 1, 2}; break;
    default: m = mkev(c.pick<int>({K::ARSON, K::ARSOF, K::EVANS, K::ENRSP, K::NEVAL}), a, en); break;
  }
  if (m.size() > 3 && c.chance(8)) m.d.resize(c.range(3, m.size() - 1)); // too short
  return m;
}

static void run(Case &c)
{
  NodeConf nc;
  nc.order = c.range(0, 3);
  nc.services = c.chance(35) ? S_ALL : S_ALL & ~S_COE;
  nc.numNVs = c.range(1, 8);
  nc.maxEvents = c.range(1, 9);
  nc.numEVs = c.range(1, 5);
  nc.produced = c.range(0, std::min(2, nc.maxEvents));
  bool d1 = c.chance(50), d2 = c.chance(60) ? d1 : !d1;
  bool normal = c.chance(75), calm = normal && c.chance(45);
  unsigned nn = normal ? c.pick<unsigned>({256, 300, 1, 0xFFFF, 0x1234}) : 0;
  unsigned long start = c.chance(60) ? 100 : (unsigned long) -1 - c.range(0, 20000);
  c.log("NN %u, diagnostics %d and %d", nn, d1, d2);
  std::vector<Op> ops;
  int n = 0, own = 0;
  if (normal && c.chance(calm ? 90 : 40))
  {
    // a node that has been taught something
    auto add = [&](const Msg &m) {
      Op o;
      o.kind = Op::MSG;
      o.m = m;
      ops.push_back(o);
    };
    add(mk(K::NNLRN, nn));
    for (int i = c.range(1, 6); i > 0; --i)
      add(mkev(K::EVLRN, (int) c.range(0, calm ? 1 : 2) * 256, c.range(1, calm ? 3 : 6), {(int) c.range(1, nc.numEVs), (int) c.range(0, 4)}));
    if (c.chance(70)) add(mk(K::NNULN, nn));
    for (auto &o : ops) c.log("message %s", o.m.str().c_str());
  }
  while (c.more(n, 30, 120))
  {
    STEP(c);
    Op o;
    o.more = c.chance(20) ? c.range(1, 20) : 0;
    // most messages are for the number the node has after setup as well
    unsigned to = c.chance(80) ? nn : c.pick<unsigned>({300, 256, 511});
    switch (c.weighted({12, 14, 1, 1, 4, calm ? 0 : 2, 2, 1}))
    {
      case 0:
        o.kind = Op::MSG;
        o.m = ownOp(c, to, nc, d1 && d2, calm);
        c.log("message %s", o.m.str().c_str());
        ++own;
        break;
      case 1:
        o.kind = Op::QUESTION;
        o.m = question(c, to, nc);
        c.log("(question %s)", o.m.str().c_str());
        break;
      case 2:
        o.kind = Op::REMOTE;
        c.log("%s", "(remote request)");
        break;
      case 3:
        o.kind = Op::ANSWER;
        o.arg = c.range(1, 5);
        c.log("empty frame from CANID %d", o.arg);
        break;
      case 4:
        o.kind = Op::TIME;
        o.dt = c.chance(60) ? c.range(1, 130) : c.range(1, 6000);
        c.log("%lu ms", o.dt);
        break;
      case 5:
        o.kind = Op::ACTION;
        o.arg = c.range(0, 2);
        c.log("button %d", o.arg);
        ++own;
        break;
      case 6:
        o.kind = Op::SEND;
        o.arg = c.range(0, 7);
        c.log("own event %d", o.arg);
        ++own;
        break;
      case 7:
        o.kind = Op::POWER;
        c.log("%s", "power off and on");
        break;
    }
    ops.push_back(o);
  }
  // at last everything that has been counted, from the node with its number of the moment
  if (d1 && d2)
    for (unsigned to : {nn, 300u, 256u, 511u})
      for (int svc = 1; svc <= 9; ++svc)
        for (int code = 1; code <= (svc == 1 ? 5 : 3); ++code)
        {
          Op o;
          o.kind = Op::MSG;
          o.m = mk(K::RDGN, to, {svc, code});
          ops.push_back(o);
        }
  int mode = normal ? K::MODE_NORMAL : K::MODE_UNINITIALISED;
  NodeConf na = nc, nb = nc;
  na.diag = d1;
  nb.diag = d2;
  Result a = play(ops, na, mode, nn, start, false), b = play(ops, nb, mode, nn, start, true);
  size_t k = 0;
  for (auto &o : ops)
  {
    if (o.kind == Op::QUESTION || o.kind == Op::REMOTE) continue;
    if (a.out[k] != b.out[k])
      c.fail("behaviour: operation %zu%s%s sends %s, with questions before %s", k + 1, o.kind == Op::MSG ? " " : "", o.kind == Op::MSG ? o.m.str().c_str() : "", str(a.out[k]).c_str(), str(b.out[k]).c_str());
    ++k;
  }
  if (a.restarts != b.restarts) c.fail("restart: %ld restarts, with questions %ld", a.restarts, b.restarts);
  for (size_t i = 0; i < a.mem.size(); ++i)
    if (a.mem[i] != b.mem[i]) c.fail("storage: byte %zu is %u, with questions %u", i, a.mem[i], b.mem[i]);
  auto same = [](const std::vector<Heard> &x, const std::vector<Heard> &y) {
    if (x.size() != y.size()) return false;
    for (size_t i = 0; i < x.size(); ++i) if (x[i].index != y[i].index || x[i].msg != y[i].msg || x[i].at != y[i].at) return false;
    return true;
  };
  if (!same(a.consumed, b.consumed)) c.fail("events: the event handler is called %zu times, with questions %zu times or differently", a.consumed.size(), b.consumed.size());
  if (!same(a.requested, b.requested)) c.fail("requests: the request handler is called %zu times, with questions %zu times or differently", a.requested.size(), b.requested.size());
  if (a.state != b.state) c.fail("state: %s; with questions %s", a.state.c_str(), b.state.c_str());
  if (d1 != d2) c.cls("with and without diagnostics");
  if (!a.consumed.empty()) c.cls("events consumed");
  if (a.consumed.size() > 3) c.cls("more than three events consumed");
  if (a.restarts) c.cls("restarted by message");
  c.count("answers to questions", b.answers);
  c.nontrivial(b.answers >= 3 && own >= 3);
}

pbt::Property pbt::property = {
  "C33", "Questions, diagnostics and idle time change nothing",
  "Metamorphic: a random history of commands, teaching, events, own events, setup, enumeration with answers, buttons, time, restarts and power cycles is run twice, the second time with questions to the node mixed in (all requests for parameters, services, node variables, events, event states and diagnostics, valid and invalid, responses of others, remote requests), with idle passes of the main loop, and often with the other variant (with or without diagnostics) of the services. Every message sent by the other operations, the time of every handler call, the storage and the mode, numbers and flags must be the same. Non-trivial: at least three answers to questions and three operations that may change something.",
  "exploration", 150000, 1500000, run,
  {},
  {"the request handler of the application does not send anything", "answers to one question fit the action queue"},
};
