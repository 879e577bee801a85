// Messages for other nodes have no effect: the same history with and without them gives the same behaviour.
#include "rig.hpp"

struct Op
{
  enum { MSG, NOISE, TIME, BUTTON, SEND } kind;
  Msg m;
  unsigned long dt = 0;
  int arg = 0;
};

static const int ADDRESSED[] = {K::RQNPN, K::RQSD, K::MODE, K::NNRSM, K::NNRST, K::NNULN, K::RQEVN, K::NERD, K::NENRD, K::REVAL, K::NNCLR,
                                K::NNEVN, K::NVRD, K::NVSET, K::NVSETRD, K::CANID, K::ENUM, K::RDGN};
static const int OTHERS[] = {K::WRACK, K::PNN, K::NVANS, K::ENRSP, K::HEARTB, K::CMDERR, K::GRSP, K::NNACK, K::NNREL, K::PARAN, K::NUMEV, K::EVNLF,
                             K::NEVAL, K::PARAMS, K::NAME, K::SD, K::ESD, K::DGN};

static void teachOps(Case &c, unsigned nn, const NodeConf &nc, Op &o)
{
  unsigned en = c.range(1, 5), en2 = c.range(1, 3);
  switch (c.weighted({2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1}))
  {
    case 0: o.m = mk(K::NVSET, nn, {(int) c.range(1, nc.numNVs), c.u8()}); break;
    case 1: o.m = mk(K::NVRD, nn, {(int) c.range(0, nc.numNVs + 1)}); break;
    case 2: o.m = mk(K::NNLRN, nn); break;
    case 3: o.m = mk(K::NNULN, nn); break;
    case 4: o.m = mkev(K::EVLRN, en2 * 256, en, {(int) c.range(1, nc.numEVs), c.u8()}); break;
    case 5: o.m = mkev(K::EVULN, en2 * 256, en); break;
    case 6: o.m = mk(K::NERD, nn); break;
    case 7: o.m = mk(K::RQEVN, nn); break;
    case 8: o.m = mk(K::RQNPN, nn, {(int) c.range(0, 20)}); break;
    case 9: o.m = mk(K::QNN, 0); break;
    case 10: o.m = mk(K::MODE, nn, {c.pick({(int) K::MODE_HEARTBEAT_ON, (int) K::MODE_HEARTBEAT_OFF, (int) K::MODE_LEARN_ON, (int) K::MODE_LEARN_OFF, (int) K::MODE_NORMAL})}); break;
    case 11: o.m = mk(K::NNCLR, nn); break;
    case 12: o.m = mkev(K::ACON, en2 * 256, en); break;
    case 13: o.m = mkev(K::REQEV, en2 * 256, en, {(int) c.range(0, nc.numEVs)}); break;
    case 14: o.m = mk(K::CANID, nn, {(int) c.range(1, 99)}); break;
    case 15: o.m = mk(K::RQSD, nn, {(int) c.range(0, 8)}); break;
    case 16: o.m = mk(K::NNRST, nn); break;
  }
}

struct Result
{
  std::vector<Msgs> out;      // per own operation
  std::vector<uint8_t> mem;
  std::vector<Heard> consumed, requested;
  unsigned flags;
  Msgs noiseOut;
  long restarts;
};

static Result play(const std::vector<Op> &ops, const NodeConf &nc, unsigned nn, bool withNoise)
{
  world.reset();
  Result r;
  RamStorage st(1024);
  storeIdentity(st, K::MODE_NORMAL, 10, nn, 1);
  Node node(nc, &st);
  node.boot();
  node.takeFrames();
  Msgs cur;
  size_t quiet = 0;
  for (auto &o : ops)
  {
    switch (o.kind)
    {
      case Op::NOISE:
        if (withNoise)
        {
          node.post(o.m, 100);
          node.pump();
          Msgs m = node.takeMsgs(true);
          r.noiseOut.insert(r.noiseOut.end(), m.begin(), m.end());
        }
        break;
      case Op::MSG:
        node.post(o.m, 100);
        node.pump();
        r.out.push_back(node.takeMsgs(true));
        break;
      case Op::TIME:
        node.advance(o.dt, 50);
        r.out.push_back(node.takeMsgs(true));
        break;
      case Op::BUTTON:
        node.controller->putAction(o.arg == 0 ? VLCB::ACT_RENEGOTIATE : VLCB::ACT_START_CAN_ENUMERATION);
        node.pump();
        r.out.push_back(node.takeMsgs(true));
        break;
      case Op::SEND:
        node.prod->sendEvent(o.arg & 1, 1 + (o.arg >> 1) % 3);
        node.pump();
        r.out.push_back(node.takeMsgs(true));
        break;
    }
  }
  (void) quiet;
  r.mem = st.mem;
  r.consumed = node.consumed;
  r.requested = node.requested;
  r.restarts = world.restarts;
  r.flags = node.controller->getParam(K::PAR_FLAGS);
  return r;
}

static void run(Case &c)
{
  NodeConf nc;
  nc.order = c.range(0, 3);
  nc.services = c.chance(30) ? S_ALL : S_ALL & ~S_COE;
  nc.diag = c.chance(40);
  nc.numNVs = 5;
  nc.maxEvents = c.range(1, 8);
  nc.numEVs = c.range(1, 4);
  unsigned nn = c.pick({256, 260, 1, 255, 257, 0x0101, 0xFFFE, 500, 0xFFFF});
  std::vector<Op> ops;
  int n = 0, noise = 0;
  std::set<int> kinds;
  c.log("NN %u", nn);
  while (c.more(n, 20, 80))
  {
    STEP(c);
    Op o;
    switch (c.weighted({6, 10, 1, 1, 1}))
    {
      case 0:
        o.kind = Op::MSG;
        teachOps(c, nn, nc, o);
        c.log("message %s", o.m.str().c_str());
        break;
      case 1:
      {
        o.kind = Op::NOISE;
        // Another node's number: often one that differs in one byte only.
        unsigned other;
        switch (c.weighted({3, 2, 2, 1}))
        {
          case 0: other = (nn + c.range(1, 65535)) & 0xFFFF; break;
          case 1: other = nn ^ (c.range(1, 255) << 8); break;
          case 2: other = nn ^ c.range(1, 255); break;
          default: other = (nn & 0xFF) << 8 | nn >> 8; if (other == nn) other = 0; break;
        }
        if (c.chance(75)) o.m = mk(ADDRESSED[c.draw(sizeof ADDRESSED / sizeof *ADDRESSED - 1)], other);
        else o.m = mk(OTHERS[c.draw(sizeof OTHERS / sizeof *OTHERS - 1)], other);
        int k = c.range(0, 5);
        if (o.m.op() == K::MODE && c.chance(80))
        {
          o.m.d.push_back(c.pick({0xFF, 0, 1, 8, 9, 0xA, 0xB, 0xC, 0xD}));
          k = 0;
        }
        for (int i = 0; i < k; ++i) o.m.d.push_back(c.chance(70) ? c.range(0, 8) : c.sbyte());
        if (c.chance(5))
        {
          // too short for a node number
          o.m.d.resize(c.range(1, 2));
          if (o.m.size() == 2 && (nn & 0xFF) == 0 && o.m.d[1] == nn >> 8) o.m.d.resize(1);
        }
        c.log("for NN %u: %s", other, o.m.str().c_str());
        ++noise;
        kinds.insert(o.m.op());
        break;
      }
      case 2:
        o.kind = Op::TIME;
        o.dt = c.range(1, 6000);
        c.log("%lu ms", o.dt);
        break;
      case 3:
        o.kind = Op::BUTTON;
        o.arg = c.range(0, 1);
        c.log("button %d", o.arg);
        break;
      case 4:
        o.kind = Op::SEND;
        o.arg = c.range(0, 7);
        c.log("own event %d", o.arg);
        break;
    }
    ops.push_back(o);
  }
  Result a = play(ops, nc, nn, true), b = play(ops, nc, nn, false);
  if (!a.noiseOut.empty()) c.fail("response: to messages for other nodes: %s", str(a.noiseOut).c_str());
  size_t k = 0;
  for (auto &o : ops)
  {
    if (o.kind == Op::NOISE) continue;
    if (a.out[k] != b.out[k])
    {
      c.fail("behaviour: after messages for other nodes %s gets %s, without them %s", o.kind == Op::MSG ? o.m.str().c_str() : "an operation",
             str(a.out[k]).c_str(), str(b.out[k]).c_str());
    }
    ++k;
  }
  if (a.restarts != b.restarts) c.fail("restart: %ld restarts with messages for other nodes, %ld without them", a.restarts, b.restarts);
  for (size_t i = 0; i < a.mem.size(); ++i)
  {
    if (a.mem[i] != b.mem[i]) c.fail("storage: byte %zu is %u after messages for other nodes, %u without them", i, a.mem[i], b.mem[i]);
  }
  if (a.consumed.size() != b.consumed.size() || a.requested.size() != b.requested.size()) c.fail("events: the handlers were called %zu+%zu times with, %zu+%zu times without the messages for other nodes", a.consumed.size(), a.requested.size(), b.consumed.size(), b.requested.size());
  if (a.flags != b.flags) c.fail("flags: %02X after messages for other nodes, %02X without them", a.flags, b.flags);
  for (int op : kinds)
  {
    char s[32];
    snprintf(s, sizeof s, "opcode %02X for another node", op);
    c.cls(s);
  }
  c.nontrivial(noise >= 3 && k >= 2);
}

pbt::Property pbt::property = {
  "C05", "Messages addressed to other nodes have no effect",
  "Metamorphic: a random history of operations on the node is run twice, once with messages addressed to other node numbers (all addressed opcodes and all responses, any length and data) mixed in; no response to those, and every other response, the storage, the handler calls and the flags must be the same. Non-trivial: at least 3 foreign messages and 2 other operations.",
  "exploration", 250000, 4000000, run,
  {},
  {"NNLRN for another node is not included: ending learn mode is its specified effect (C14)", "the node is in normal or setup mode with a node number other than 0"},
};
