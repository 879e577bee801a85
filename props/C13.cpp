// The mode state machine against a model.
#include "rig.hpp"
#include <algorithm>

static constexpr int U = K::MODE_UNINITIALISED, S = K::MODE_SETUP, N = K::MODE_NORMAL;

static Msgs sorted(Msgs m) { std::sort(m.begin(), m.end()); return m; }
static const char *name(int m) { return m == U ? "uninitialised" : m == S ? "setup" : m == N ? "normal" : "none"; }

struct Bench
{
  Case &c;
  NodeConf nc;
  RamStorage st{256};
  std::unique_ptr<Node> node;
  int inst = U, stored = U;
  unsigned nn = 0;
  bool learn = false;
  int indicated = -1;
  int changes = 0, cancels = 0, setups = 0;
  long restarts = 0;
  explicit Bench(Case &c) : c(c) {}

  Msg grsp(int op, int r) { return mk(K::GRSP, nn, {op, K::SERVICE_ID_MNS, r}); }
  void go(int m) { if (m != inst) ++changes; inst = m; }

  void check(const char *what, const Msgs &want)
  {
    Msgs got = node->takeMsgs();
    if (sorted(got) != sorted(want)) c.fail("response: in %s mode, %s: sent %s, expected %s", name(inst), what, str(got).c_str(), str(want).c_str());
  }
  // What can be seen of the mode.
  void state(const char *what)
  {
    for (auto &s : node->spy->seen) if (s.mode >= 0) indicated = s.mode;
    node->spy->seen.clear();
    if (indicated != inst) c.fail("indication: %s: mode is %s, indicated is %s", what, name(inst), name(indicated));
    bool flag = node->controller->getParam(K::PAR_FLAGS) & K::PF_NORMAL;
    if (flag != (inst == N)) c.fail("flags: %s: normal flag %d in %s mode", what, flag, name(inst));
    if (node->config->nodeNum != nn) c.fail("node number: %s: %u, expected %u", what, node->config->nodeNum, nn);
    if (world.restarts != restarts) c.fail("restart: %s restarts the node", what);
    if ((int) node->config->currentMode != stored) c.fail("stored mode: %s: %s, expected %s", what, name(node->config->currentMode), name(stored));
  }
  void boot()
  {
    node->boot();
    node->takeFrames();
    inst = stored;
    learn = false;
    indicated = -1;
    restarts = world.restarts;
  }
  // Requests whose answer depends on the mode.
  void probe()
  {
    node->takeFrames();
    node->post(Msg{K::QNN}, 120);
    node->pump();
    int flags = node->controller->getParam(K::PAR_FLAGS);
    check("QNN", nn ? Msgs{mk(K::PNN, nn, {nc.manu, nc.moduleId, flags})} : Msgs{});
    node->post(Msg{K::RQNP}, 120);
    node->pump();
    check("RQNP", inst == S ? Msgs{Msg{K::PARAMS, nc.manu, nc.min, nc.moduleId, nc.maxEvents, nc.numEVs, nc.numNVs, nc.maj}} : Msgs{});
    node->post(Msg{K::RQMN}, 120);
    node->pump();
    Msg nm{K::NAME};
    for (int i = 0; i < 7; ++i) nm.d.push_back(nc.name[i]);
    check("RQMN", inst == S || learn ? Msgs{nm} : Msgs{});
  }
  void button(bool change)
  {
    c.log("%s", change ? "button: change mode" : "button: renegotiate");
    Msgs want;
    node->takeFrames();
    node->controller->putAction(change ? VLCB::ACT_CHANGE_MODE : VLCB::ACT_RENEGOTIATE);
    node->pump();
    if (change)
    {
      if (inst == U) { want = {mk(K::RQNN, nn)}; check("change mode", want); go(S); ++setups; }
      else
      {
        if (inst == N && nn) want = {mk(K::NNREL, nn)};
        check("change mode", want);
        go(U);
        stored = U;
        nn = 0;
      }
    }
    else
    {
      if (inst == S)
      {
        if (nn) want = {mk(K::NNACK, nn)};
        check("renegotiate", want);
        go(stored);
        ++cancels;
      }
      else if (inst == N) { want = {mk(K::RQNN, nn)}; check("renegotiate", want); go(S); ++setups; }
      else check("renegotiate", want);
    }
  }
  void send(const Msg &m)
  {
    c.log("%s", m.str().c_str());
    node->takeFrames();
    node->post(m, 120);
    node->pump();
  }
  void setNumber()
  {
    unsigned v = c.pick({256, 1, 0x1234, 0xFFFE, 257, 0xFF00, 0xFFFF, 0x00FF});
    Msg m = mk(K::SNN, v);
    bool shortMsg = c.chance(5);
    if (shortMsg) m.d.resize(2);
    send(m);
    if (inst != S) check("SNN", {});
    else if (shortMsg) check("short SNN", {grsp(K::SNN, K::CMDERR_INV_CMD)});
    else
    {
      check("SNN", {mk(K::NNACK, v)});
      nn = v;
      stored = N;
      go(N);
    }
  }
  void mode()
  {
    bool own = c.chance(nn ? 85 : 40); // without a number it is addressed with 0
    if (!own && nn == 0)
    {
      // Not for this node, which has no number.
      send(mk(K::MODE, c.range(1, 600), {c.pick({U, S, N, 8, 9, 0xC, 0xD, 0xE})}));
      check("MODE for another node", {});
      return;
    }
    int v = c.chance(70) ? c.pick({S, U, N}) : c.chance(60) ? c.range(2, 0x0E) : c.u8();
    Msg m = mk(K::MODE, own ? nn : nn ^ (1u << c.range(0, 15)), {v});
    if (own && c.chance(5))
    {
      m.d.resize(3);
      send(m);
      check("short MODE", {grsp(K::MODE, K::CMDERR_INV_CMD)});
      return;
    }
    send(m);
    if (!own) { check("MODE for another node", {}); return; }
    Msgs want;
    switch (v)
    {
      case U:
        if (inst == U) break;
        want = {grsp(K::MODE, K::GRSP_OK)};
        if (inst == N) want.push_back(mk(K::NNREL, nn));
        check("MODE uninitialised", want);
        go(U);
        stored = U;
        nn = 0;
        return;
      case S:
        if (inst == N)
        {
          check("MODE setup", {grsp(K::MODE, K::GRSP_OK), mk(K::RQNN, nn)});
          go(S);
          ++setups;
          return;
        }
        if (inst == S) want = {grsp(K::MODE, K::GRSP_INVALID_MODE)};
        break;
      case N:
        if (inst == N) want = {grsp(K::MODE, K::GRSP_OK)};
        if (inst == S) want = {grsp(K::MODE, K::GRSP_INVALID_MODE)};
        break;
      case K::MODE_HEARTBEAT_ON:
      case K::MODE_HEARTBEAT_OFF:
        break;
      default:
        if (inst != N) want = {grsp(K::MODE, K::CMDERR_INV_CMD)};
        if (nc.services & S_TEACH)
        {
          if (v == K::MODE_LEARN_ON) learn = true;
          if (v == K::MODE_LEARN_OFF) learn = false;
        }
        break;
    }
    char t[20];
    snprintf(t, sizeof t, "MODE %02X", v);
    check(t, want);
  }
};

static void run(Case &c)
{
  Bench b(c);
  world.reset();
  if (c.chance(20)) world.ms = (unsigned long) -c.range(1, 60000);
  NodeConf &nc = b.nc;
  nc.order = c.range(0, 3);
  nc.services = (c.chance(70) ? S_ALL & ~S_COE : S_MNS | S_CAN | S_TEACH) | S_SPY;
  if (c.chance(10)) nc.services &= ~S_TEACH;
  nc.diag = c.chance(40);
  nc.numNVs = c.range(0, 5);
  nc.maxEvents = c.range(1, 5);
  nc.numEVs = c.range(1, 3);
  nc.produced = c.chance(20) ? 1 : 0;
  switch (c.weighted({3, 3, 2, 1}))
  {
    case 0: b.nn = c.pick({256, 1, 0x1234, 0xFFFF}); b.stored = N; storeIdentity(b.st, N, 5, b.nn); break;
    case 1: storeIdentity(b.st, U, 0, 0); break;
    case 2: break; // virgin
    case 3:        // left in setup mode by some older version
      b.nn = c.pick({0, 256});
      storeIdentity(b.st, S, 5, b.nn);
      break;
  }
  b.node.reset(new Node(nc, &b.st));
  b.node->pad = &c;
  b.boot();
  b.state("start");
  c.log("starts %s, NN %u", name(b.inst), b.nn);
  int n = 0, restarts = 0;
  while (c.more(n, 25, 120))
  {
    STEP(c);
    switch (c.weighted({5, 5, 6, 6, 2, 4, 2, 2, 1, 3}))
    {
      case 0: b.button(true); break;
      case 1: b.button(false); break;
      case 2: b.setNumber(); break;
      case 3: b.mode(); break;
      case 4:
        b.send(mk(K::RQNN, c.pick({0u, 300u, b.nn})));
        b.check("RQNN", {});
        if (b.inst == S) { b.go(b.stored); ++b.cancels; }
        break;
      case 5: b.probe(); break;
      case 6:
      {
        unsigned long dt = c.range(1, 40000);
        c.log("%lu ms", dt);
        b.node->takeFrames();
        b.node->advance(dt, dt / 7 + 1);
        b.check("time passes", {});
        break;
      }
      case 7:
        c.log("%s", "restart");
        b.boot();
        ++restarts;
        break;
      case 9:
      {
        // Software reset, for this or another node.
        bool own = b.nn != 0 && c.chance(60);
        b.send(mk(K::NNRST, own ? b.nn : (b.nn + c.range(1, 65534)) % 65536));
        b.check("NNRST", {});
        if (!own) break;
        if (world.restarts != b.restarts + 1) c.fail("restart: %ld restarts with NNRST", world.restarts - b.restarts);
        b.restarts = world.restarts;
        b.inst = b.stored;
        b.learn = false;
        c.cls("software restart");
        ++restarts;
        break;
      }
      case 8:
      {
        if (!(nc.services & S_TEACH) || b.nn == 0) break;
        bool on = c.chance(50);
        b.send(mk(on ? K::NNLRN : K::NNULN, b.nn));
        b.check("learn mode", {});
        b.learn = on;
        break;
      }
    }
    b.state("after a step");
  }
  b.probe();
  b.boot();
  b.state("after the final restart");
  b.probe();
  if (b.cancels) c.cls("setup cancelled");
  if (restarts) c.cls("restart in the middle");
  if (b.setups) c.cls("setup mode entered");
  c.nontrivial(b.changes >= 3);
}

pbt::Property pbt::property = {
  "C13", "Mode changes follow the VLCB mode state machine",
  "Random sequences of button actions, SNN, RQNN, MODE with all values, learn mode commands, time, power cycles and software resets (NNRST), from all initial states; after each step all messages sent, the indicated mode, the normal flag, node number and stored mode are compared with a state machine model, and QNN, RQNP and RQMN are probed. Non-trivial: at least 3 mode changes.",
  "exploration", 150000, 2000000, run,
  {},
  {"node numbers other than 0 are assigned; messages addressed to node number 0 are not sent to a node without a number", "setup mode does not end by itself: the library has no timeout for it"},
};
