// Restarts: nothing that was configured is lost, on each kind of storage. A second node on plain RAM goes through the
// same history and shows what it should be.
#include "devices.hpp"

struct Pair
{
  Case &c;
  NodeConf nc;
  int dev;
  std::unique_ptr<VLCB::Storage> st;
  std::unique_ptr<RamStorage> ram;
  std::unique_ptr<Node> node, ref;
  bool setup = false;
  explicit Pair(Case &c) : c(c) {}

  unsigned nn() { return ref->config->nodeNum; }
  Msgs ask(const Msg &m)
  {
    c.log("%s", m.str().c_str());
    Msgs want = ref->ask(m, 120), got = node->ask(m, 120);
    if (want != got) c.fail("response: %s on %s: %s, expected %s", m.str().c_str(), deviceName(dev), str(got).c_str(), str(want).c_str());
    return got;
  }
  void both(const char *what, std::function<void(Node &)> f)
  {
    c.log("%s", what);
    ref->takeFrames();
    node->takeFrames();
    f(*ref);
    ref->pump();
    f(*node);
    node->pump();
    unsigned long until = world.ms + 400;
    while (world.ms < until) { world.ms += 30; ref->pump(); node->pump(); }
    Msgs want = ref->takeMsgs(), got = node->takeMsgs();
    if (want != got) c.fail("%s: on %s sends %s, expected %s", what, deviceName(dev), str(got).c_str(), str(want).c_str());
  }
  void start()
  {
    node.reset();
    st = openDevice(dev);
    node.reset(new Node(nc, st.get()));
    node->boot();
    ref.reset(new Node(nc, ram.get()));
    ref->boot();
    unsigned long until = world.ms + 300;
    while (world.ms < until) { world.ms += 30; ref->pump(); node->pump(); }
    node->takeFrames();
    ref->takeFrames();
  }
  void same(const char *when)
  {
    std::string d = different(dumpNode(*ref), dumpNode(*node));
    if (!d.empty()) c.fail("stored: %s on %s: %s", when, deviceName(dev), d.c_str());
  }
};

static void run(Case &c)
{
  Pair p(c);
  world.reset();
  p.dev = c.range(0, DEV_COUNT - 1);
  makeDevice(p.dev, c.pick({32, 64, 128}), c.pick({4096, 8192, 32768}));
  NodeConf &nc = p.nc;
  nc.order = c.range(0, 3);
  nc.services = S_ALL & ~S_COE;
  nc.numEVs = c.range(1, 5);
  nc.maxEvents = c.weighted({5, 1}) == 0 ? c.range(1, 10) : c.range(10, 80);
  nc.numNVs = c.chance(90) ? c.range(0, 20) : c.range(21, 120);
  nc.nvsStart = 10 + (c.chance(40) ? c.range(0, 600) : 0);
  unsigned base = nc.nvsStart + nc.numNVs, room = 2048 - nc.maxEvents * (4 + nc.numEVs);
  if (c.chance(50) && base < room) { nc.eventsStart = base = c.range(base, room); }
  p.ram.reset(new RamStorage(2048));
  c.log("%s, %d NVs at %u, %d events of %d variables at %u", deviceName(p.dev), nc.numNVs, nc.nvsStart, nc.maxEvents, nc.numEVs, base);
  if (c.chance(70))
  {
    // A module that was in use before.
    unsigned nn = c.pick({256, 0x1234, 257, 65534, 65535}), canid = c.range(1, 99);
    std::unique_ptr<VLCB::Storage> s = openDevice(p.dev);
    s->begin();
    storeIdentity(*s, K::MODE_NORMAL, canid, nn);
    storeIdentity(*p.ram, K::MODE_NORMAL, canid, nn);
  }
  p.start();
  p.same("at the start");
  int n = 0, changes = 0, restarts = 0;
  // Whether a heartbeat comes within its time.
  auto beats = [&] {
    unsigned long until = world.ms + 5200;
    p.node->takeFrames();
    while (world.ms < until) { world.ms += 100; p.ref->pump(); p.node->pump(); }
    for (auto &m : p.node->takeMsgs(true)) if (m.op() == K::HEARTB) return true;
    return false;
  };
  auto restart = [&](const char *what) {
    c.log("%s", what);
    Dump before = dumpNode(*p.node);
    bool setup = !p.node->ask(Msg{K::RQNP}, 120).empty(); // setup mode ends with the restart
    bool watch = !setup && p.node->config->currentMode == K::MODE_NORMAL && c.chance(50), beating = watch && beats();
    p.start();
    if (watch && p.node->config->currentMode == K::MODE_NORMAL && beats() != beating)
      c.fail("restart: on %s: there %s heartbeats before", deviceName(p.dev), beating ? "were" : "were no");
    std::string d = different(before, dumpNode(*p.node));
    if (!d.empty()) c.fail("restart: on %s: %s", deviceName(p.dev), d.c_str());
    p.same("after a restart");
    p.setup = false;
    ++restarts;
  };
  while (c.more(n, 15, 70))
  {
    STEP(c);
    unsigned nn = p.nn();
    switch (c.weighted({8, 12, 3, 2, 2, 2, 2, 2, 2, 1, 2, 1}))
    {
      case 0: p.ask(mk(K::NVSET, nn, {(int) c.edgy(1, std::max(1, nc.numNVs)), c.sbyte()})); ++changes; break;
      case 1:
        p.ask(mk(K::NNLRN, nn));
        p.ask(mkev(K::EVLRN, c.range(0, 3) * 256 + c.pick({0, 0, 255}), c.range(1, 6), {(int) c.range(1, nc.numEVs), c.sbyte()}));
        ++changes;
        break;
      case 2: p.ask(mkev(K::EVULN, c.range(0, 3) * 256, c.range(1, 6))); ++changes; break;
      case 3: p.ask(mk(K::MODE, nn, {c.pick({(int) K::MODE_HEARTBEAT_ON, (int) K::MODE_HEARTBEAT_OFF})})); ++changes; break;
      case 4: p.ask(mk(K::CANID, nn, {(int) c.range(1, 99)})); ++changes; break;
      case 5:
      {
        unsigned v = c.range(1, 65534);
        p.both("button: renegotiate", [](Node &x) { x.controller->putAction(VLCB::ACT_RENEGOTIATE); });
        if (c.chance(80)) p.ask(mk(K::SNN, v));
        ++changes;
        break;
      }
      case 6:
        p.both("button: change mode", [](Node &x) { x.controller->putAction(VLCB::ACT_CHANGE_MODE); });
        if (c.chance(60)) p.ask(mk(K::SNN, c.range(1, 65534)));
        ++changes;
        break;
      case 7:
      {
        int v = c.range(1, 6);
        p.both("own event", [v](Node &x) { x.prod->sendEvent(true, v); });
        ++changes;
        break;
      }
      case 8:
      {
        bool on = c.chance(50);
        p.both(on ? "event acknowledge on" : "event acknowledge off", [on](Node &x) { x.config->setEventAck(on); });
        break;
      }
      case 9:
        p.ask(mk(K::NNLRN, nn));
        p.ask(mk(K::NNCLR, nn));
        ++changes;
        break;
      case 10: restart("restart"); break;
      case 11:
        p.ask(mk(K::NNLRN, nn));
        p.ask(mkev(K::EVLRNI, c.range(1, 600), c.range(1, 600), {(int) c.edgy(0, nc.maxEvents - 1), (int) c.range(1, nc.numEVs), c.sbyte()}));
        ++changes;
        break;
    }
  }
  restart("final restart");
  if (world.badAccess) c.fail("storage: access outside the %s", deviceName(p.dev));
  c.cls(deviceName(p.dev));
  if (restarts > 1) c.cls("restart in the middle");
  c.nontrivial(changes >= 3);
}

pbt::Property pbt::property = {
  "C10", "Everything configured survives a restart on every storage type",
  "Random configuration histories (NVs, teaching, own events, node number, CANID, mode, heartbeat, event acknowledge) with restarts anywhere on one of four simulated storage devices with any layout within 2048 bytes; a dump through the protocol must be the same before and after each restart and the same as that of a node on plain RAM with the same history. Non-trivial: at least 3 changes.",
  "exploration", 35000, 500000, run,
  {},
  {"volatile state is not kept: setup and learn mode", "the I2C EEPROM has at least 4096 bytes with 16 bit addresses and pages of 32 or more bytes"},
};
