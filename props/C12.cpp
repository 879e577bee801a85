// Factory reset and first start, on each kind of storage.
#include "devices.hpp"

static void initialState(Case &c, Node &n, const char *when, int flag)
{
  VLCB::Configuration &k = *n.config;
  if (k.currentMode != MODE_UNINITIALISED) c.fail("mode: %s: mode is %u", when, k.currentMode);
  if (k.nodeNum) c.fail("node number: %s: %u", when, k.nodeNum);
  if (k.CANID) c.fail("CANID: %s: %u", when, k.CANID);
  if (k.heartbeat) c.fail("heartbeat: %s: on", when);
  if (k.eventAck) c.fail("event acknowledge: %s: on", when);
  for (int i = 1; i <= n.nc.numNVs; ++i) if (k.readNV(i)) c.fail("NV: %s: NV %d is %u", when, i, k.readNV(i));
  if (k.numEvents()) c.fail("events: %s: there are %u", when, k.numEvents());
  for (int i = 0; i < n.nc.maxEvents; ++i)
  {
    byte r[4];
    k.readEvent(i, r);
    if (r[0] != 0xFF || r[1] != 0xFF || r[2] != 0xFF || r[3] != 0xFF) c.fail("events: %s: slot %d has %s", when, i, pbt::hex(r, 4).c_str());
  }
  if (flag >= 0 && flag != k.isResetFlagSet()) c.fail("reset flag: %s: it is %s", when, k.isResetFlagSet() ? "set" : "not set");
  if (n.controller->getParam(K::PAR_FLAGS) & K::PF_NORMAL) c.fail("flags: %s: normal mode flag set", when);
}

static void run(Case &c)
{
  world.reset();
  NodeConf nc;
  int dev = c.range(0, DEV_COUNT - 1);
  makeDevice(dev, c.pick({32, 64, 128}), c.pick({4096, 8192, 32768}));
  unsigned size = deviceSize(dev);
  nc.order = c.range(0, 3);
  nc.services = S_ALL & ~S_COE;
  nc.numNVs = c.chance(85) ? c.range(0, 10) : c.edgy(0, 255);
  nc.maxEvents = c.chance(85) ? c.range(1, 10) : c.edgy(1, 255);
  nc.numEVs = c.chance(90) ? c.range(1, 4) : c.range(1, 251);
  unsigned need = nc.maxEvents * (4 + nc.numEVs);
  while (10 + nc.numNVs + need > size) { nc.numEVs = (nc.numEVs + 1) / 2; nc.maxEvents = (nc.maxEvents + 1) / 2; need = nc.maxEvents * (4 + nc.numEVs); }
  unsigned slack = size - (10 + nc.numNVs + need);
  nc.nvsStart = 10;
  if (c.chance(50))
  {
    unsigned a = c.edgy(0, slack);
    nc.nvsStart += a;
    slack -= a;
  }
  if (c.chance(50)) nc.eventsStart = nc.nvsStart + nc.numNVs + c.edgy(0, slack);
  unsigned evs = nc.eventsStart ? nc.eventsStart : nc.nvsStart + nc.numNVs;
  c.log("%s of %u bytes: %d NVs at %u, %d events of %d variables at %u", deviceName(dev), size, nc.numNVs, nc.nvsStart, nc.maxEvents, nc.numEVs, evs);
  std::unique_ptr<VLCB::Storage> st = openDevice(dev);
  std::unique_ptr<Node> n;
  auto boot = [&] {
    n.reset();
    st = openDevice(dev);
    n.reset(new Node(nc, st.get()));
    n->boot();
    n->takeFrames();
  };
  int what = c.weighted({4, 1});
  int changes = 0;
  if (what == 1)
  {
    boot();
    initialState(c, *n, "first start with erased memory", -1);
    long r = world.restarts;
    boot();
    initialState(c, *n, "second start", -1);
    if (world.restarts != r) c.fail("%s", "restart: another restart at the second start with erased memory");
    c.cls("first start with erased memory");
  }
  unsigned nn = c.pick({256, 0x1234, 1, 0xFFFE, 0xFFFF});
  if (what == 0)
  {
    // Arbitrary content.
    st->begin();
    int fill = c.weighted({3, 3, 1});
    for (int i = 0; i < nc.numNVs; ++i) if (fill) deviceByte(dev, nc.nvsStart + i) = c.sbyte();
    for (unsigned i = 0; i < need; ++i) if (fill == 2 || (fill == 1 && i < 200)) deviceByte(dev, evs + i) = c.chance(80) ? (uint8_t) (i * 7 + 1) : c.sbyte();
    if (fill == 1) deviceByte(dev, evs + need - c.range(1, 4)) = 1;
    storeIdentity(*st, K::MODE_NORMAL, c.range(1, 99), nn, c.range(0, 3));
    changes += fill;
  }
  boot();
  // A module that has never been set up, or has lost its node number, can be reset, too.
  bool uninit = c.chance(20);
  if (what == 1 && !uninit) n->toNormal(nn);
  if (what == 0 && uninit)
  {
    n->controller->putAction(VLCB::ACT_CHANGE_MODE);
    n->pump();
    n->takeFrames();
  }
  if (uninit)
  {
    if (n->config->currentMode != MODE_UNINITIALISED) c.fail("mode: %u before the reset", n->config->currentMode);
    n->config->clearResetFlag();
    if (nc.numNVs)
    {
      n->config->writeNV(c.range(1, nc.numNVs), c.range(1, 255));
      ++changes;
    }
    c.log("%s", "uninitialised");
    c.cls("reset of an uninitialised module");
  }
  nn = n->config->nodeNum;
  int k = 0;
  while (!uninit && c.more(k, 8, 30))
  {
    STEP(c);
    Msg m;
    switch (c.range(0, 5))
    {
      case 0: m = mk(K::NVSET, nn, {(int) c.edgy(1, std::max(1, nc.numNVs)), c.u8()}); break;
      case 1: case 2:
        n->ask(mk(K::NNLRN, nn), 120);
        m = mkev(K::EVLRNI, c.range(1, 500), c.range(1, 500), {(int) c.edgy(0, nc.maxEvents - 1), (int) c.range(1, nc.numEVs), c.u8()});
        break;
      case 3:
        n->ask(mk(K::NNLRN, nn), 120);
        m = mkev(K::EVLRN, c.range(1, 500), c.range(1, 500), {(int) c.range(1, nc.numEVs), c.u8()});
        break;
      case 4: m = mk(K::MODE, nn, {K::MODE_HEARTBEAT_ON}); break;
      case 5: m = mk(K::CANID, nn, {(int) c.range(1, 99)}); break;
    }
    c.log("%s", m.str().c_str());
    n->ask(m, 120);
    ++changes;
  }
  int how = uninit ? c.range(1, 2) : c.weighted({3, 1, 1});
  long restarts = world.restarts;
  if (how == 0)
  {
    if (c.chance(30))
    {
      // Somebody else's reset.
      Dump before = dumpNode(*n);
      Msgs r = n->ask(mk(K::NNRSM, nn ^ c.pick({1, 0x100, 0x8000})), 120);
      if (world.restarts != restarts) c.fail("%s", "other node: NNRSM for another node restarts this one");
      if (!r.empty()) c.fail("other node: NNRSM for another node gets %s", str(r).c_str());
      std::string d = different(before, dumpNode(*n));
      if (!d.empty()) c.fail("other node: NNRSM for another node: %s", d.c_str());
    }
    if (nn && c.chance(15))
    {
      n->controller->putAction(VLCB::ACT_RENEGOTIATE);
      n->pump();
      c.log("%s", "waiting for another node number");
      c.cls("reset in setup mode");
    }
    c.log("%s", "NNRSM");
    Msgs r = n->ask(mk(K::NNRSM, nn), 120);
    if (r != Msgs{mk(K::NNREL, nn)}) c.fail("NNRSM: gets %s, expected NNREL", str(r).c_str());
  }
  else
  {
    c.log("%s", "reset by the application");
    try
    {
      n->config->resetModule();
    }
    catch (Restart &)
    {
      if (how == 1) n->restart();
      else boot();
    }
  }
  if (world.restarts != restarts + 1) c.fail("restart: %ld restarts in a factory reset", world.restarts - restarts);
  if (c.chance(50)) boot();
  initialState(c, *n, "after a factory reset", true);
  if (c.chance(50))
  {
    n->config->clearResetFlag();
    boot();
    initialState(c, *n, "after a factory reset and another restart", false);
  }
  if (world.badAccess) c.fail("storage: access outside the %s", deviceName(dev));
  c.cls(deviceName(dev));
  if (evs + need > 4096) c.cls("events beyond address 4096");
  c.nontrivial(changes >= 2);
}

pbt::Property pbt::property = {
  "C12", "Factory reset returns the module to its initial state, whatever it held",
  "A module with random layout anywhere in one of four simulated memories, filled with arbitrary content and random configuration operations, is reset by NNRSM or by the application; it must restart once, after sending NNREL, and its state must be the initial one in every NV, event slot and setting. The same for first starts with erased memory. Non-trivial: at least 2 things were stored before.",
  "exploration", 50000, 900000, run,
  {},
  {"the reset flag is checked after a reset, not after the first start"},
};
