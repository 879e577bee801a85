// Arbitrary frames at any node: no memory or storage violation, only well-formed frames sent, still answering afterwards.
#include "rig.hpp"
#include <LongMessageService.h>

// Storage of exactly the layout's size that knows which addresses belong to the layout.
struct LayoutStorage : RamStorage
{
  std::vector<bool> allowed;
  std::string bad;
  bool resetting = false;
  explicit LayoutStorage(unsigned size) : RamStorage(size), allowed(size, false) {}
  void write(unsigned int a, byte v) override
  {
    if (!resetting && bad.empty() && (a >= mem.size() || !allowed[a])) bad = "write to address " + std::to_string(a);
    RamStorage::write(a, v);
  }
  void reset() override
  {
    resetting = true;
    RamStorage::reset();
    resetting = false;
  }
};

static const int OPS[] = {
  K::QNN, K::RQNP, K::RQMN, K::SNN, K::NNRSM, K::RQNN, K::NNREL, K::NNLRN, K::NNULN, K::NNCLR, K::NNEVN, K::NERD, K::RQEVN, K::ENUM, K::NNRST,
  K::NVRD, K::NENRD, K::RQNPN, K::CANID, K::MODE, K::RQSD, K::RDGN, K::NVSETRD, K::ACON, K::ACOF, K::AREQ, K::EVULN, K::NVSET, K::ASON, K::ASOF,
  K::ASRQ, K::REVAL, K::REQEV, K::EVLRN, K::EVLRNI, K::DTXC, K::ACON1, K::ACOF2, K::ACON3, K::ASON1, K::ASOF2, K::ASON3, K::ARON, K::AROF, K::BOOT,
  K::QLOC, K::HLT, K::ARST, K::RSTAT};

static volatile unsigned sink;
static long lmBad;
static unsigned lmLimit;
static void lmHandler(void *p, const unsigned int n, const byte, const byte status)
{
  if (n > lmLimit || status > 5) ++lmBad;
  for (unsigned i = 0; i < n; ++i) sink = sink + ((unsigned char *) p)[i];
}
static void lmHandlerEx(void *p, unsigned int n, byte s, byte status) { lmHandler(p, n, s, status); }

static void run(Case &c)
{
  world.reset();
  if (c.chance(20)) world.ms = (unsigned long) -c.range(1, 20000);
  NodeConf nc;
  nc.order = c.range(0, 3);
  nc.diag = c.chance(50);
  nc.services = c.chance(60) ? S_ALL : S_MNS | S_CAN;
  for (unsigned s : {S_NV, S_CONS, S_PROD, S_TEACH, S_COE}) if (c.chance(20)) nc.services ^= s;
  nc.numNVs = (int) c.edgy(0, c.chance(80) ? 6 : 255);
  nc.maxEvents = (int) c.edgy(0, c.chance(80) ? 8 : 255);
  nc.numEVs = (int) c.edgy(0, c.chance(80) ? 4 : 251);
  nc.produced = c.chance(50) || nc.numEVs == 0 ? 0 : c.range(0, std::min(nc.maxEvents, 4));
  nc.nvsStart = 10 + (c.chance(30) ? c.range(0, 9) : 0);
  unsigned evStart = nc.nvsStart + nc.numNVs;
  if (c.chance(30) || evStart == 0)
  {
    evStart += c.range(1, 9);
    nc.eventsStart = evStart;
  }
  unsigned rec = 4 + nc.numEVs;
  unsigned end = std::max(evStart + rec * nc.maxEvents, nc.nvsStart + nc.numNVs);
  LayoutStorage st(end);
  for (unsigned a = 0; a < 6; ++a) st.allowed[a] = true;
  for (int i = 0; i < nc.numNVs; ++i) st.allowed[nc.nvsStart + i] = true;
  for (unsigned i = 0; i < rec * nc.maxEvents; ++i) st.allowed[evStart + i] = true;

  unsigned nn = c.pick({0x102, 1, 0xFFFE, 0x100, 0x1234, 0xFFFF});
  int start = c.weighted({6, 2, 1, 2});
  st.resetting = true;
  switch (start)
  {
    case 0: storeIdentity(st, K::MODE_NORMAL, c.range(1, 99), nn, c.u8()); break;
    case 1: storeIdentity(st, K::MODE_UNINITIALISED, 0, 0); break;
    case 2: break;      // virgin
    case 3:             // anything at all
      for (auto &b : st.mem) b = c.sbyte();
      st.mem[0] = c.pick({1, 0xFF, 0});
      break;
  }
  if (start != 3 && nc.maxEvents && c.chance(50))
  {
    int k = c.chance(30) ? nc.maxEvents : c.range(1, nc.maxEvents);
    for (int i = 0; i < k; ++i)
    {
      unsigned a = evStart + rec * i;
      uint8_t d[4] = {1, (uint8_t) c.range(0, 3), 0, (uint8_t) c.range(1, 5)};
      for (int j = 0; j < 4; ++j) st.mem[a + j] = d[j];
      for (int j = 0; j < nc.numEVs; ++j) st.mem[a + 4 + j] = (uint8_t) (i + j + 1);
    }
  }
  st.resetting = false;

  // Long message services on buffers of exact size.
  std::unique_ptr<VLCB::LongMessageService> lm;
  std::unique_ptr<VLCB::LongMessageServiceEx> ex;
  std::unique_ptr<uint8_t[]> buf;
  byte streams[3] = {1, 2, c.u8()};
  int lmKind = c.weighted({2, 2, 2});
  lmBad = 0;
  unsigned blen = c.range(1, 70);
  lmLimit = blen;
  Node node(nc, &st);
  if (lmKind == 1)
  {
    lm.reset(new VLCB::LongMessageService);
    buf.reset(new uint8_t[blen]);
    lm->subscribe(streams, 3, buf.get(), blen, lmHandler);
    node.extra.push_back(lm.get());
  }
  else if (lmKind == 2)
  {
    ex.reset(new VLCB::LongMessageServiceEx);
    ex->allocateContexts(c.range(0, 3), blen, c.range(0, 2));
    ex->use_crc(c.chance(50));
    ex->subscribe(streams, 3, lmHandlerEx);
    node.extra.push_back(ex.get());
  }
  int echoes = 0;
  bool coe = nc.services & S_COE;
  node.onConsumed = [&](uint8_t i, const VlcbMessage *) {
    if (i >= nc.maxEvents) throw pbt::Failure{"handler: event index outside the table"};
    if (!coe && (nc.services & S_PROD) && nc.numEVs > 0 && nc.maxEvents > 0 && ++echoes < 20) node.prod->sendEvent(i & 1, 1 + i % 3);
  };
  node.onRequested = [&](uint8_t i, const VlcbMessage *) {
    if (i >= nc.maxEvents) throw pbt::Failure{"handler: event index outside the table"};
    node.prod->sendEventResponse(true, i);
  };
  c.log("%d NVs at %u, %d events of %d EVs at %u, services %X%s, long messages %d, start %d, NN %u, order %d", nc.numNVs, nc.nvsStart, nc.maxEvents,
        nc.numEVs, evStart, nc.services, nc.diag ? " diag" : "", lmKind, start, nn, nc.order);

  std::set<int> canids;
  auto verify = [&](const char *when) {
    if (!st.problems.empty()) c.fail("storage: %s: %s", when, st.problems[0].c_str());
    if (!st.bad.empty()) c.fail("storage: %s: %s, which is not in the layout", when, st.bad.c_str());
    if (lmBad) c.fail("long message: handler called with a bad length or status");
    canids.insert(node.config->CANID & 0x7F);
    for (auto &f : node.takeFrames())
    {
      std::string s = frameStr(f);
      if (f.ext || f.id > 0x7FF || f.len > 8) c.fail("frame sent: %s: not a standard frame", s.c_str());
      if (f.rtr ? f.len != 0 : f.len != 0 && f.len != 1 + (f.data[0] >> 5)) c.fail("frame sent: %s: wrong length", s.c_str());
      if (f.id >> 7 != 0xB) c.fail("frame sent: %s: wrong priority", s.c_str());
      if (!canids.count(f.id & 0x7F)) c.fail("frame sent: %s: not this node's CANID", s.c_str());
    }
    canids.clear();
    canids.insert(node.config->CANID & 0x7F);
  };
  auto track = [&] {
    // Like pump, but notes the CANIDs in use on the way.
    for (int idle = 0, i = 0; idle < 3 && i < 4000; ++i)
    {
      canids.insert(node.config->CANID & 0x7F);
      node.loop();
      if (lm) lm->process();
      if (ex) ex->process();
      if (node.can->rx.empty() && !node.controller->pendingAction()) ++idle;
      else idle = 0;
    }
  };

  node.boot();
  canids.insert(0);
  verify("start");
  int n = 0;
  long frames = 0, rare = 0;
  while (c.more(n, 40, 250))
  {
    STEP(c);
    switch (c.weighted({40, 5, 2, 1, 1, 1}))
    {
      case 0:
      {
        int burst = c.chance(85) ? 1 : c.range(2, 45);
        for (int b = 0; b < burst; ++b)
        {
          CANFrame f;
          memset(&f, 0, sizeof f);
          if (c.chance(3)) { f.ext = true; f.id = c.draw(0x1FFFFFFF); ++rare; }
          else f.id = c.chance(70) ? 0x580 | c.range(0, 127) : c.draw(0x7FF);
          if (c.chance(3)) { f.rtr = true; ++rare; }
          int op = c.chance(90) ? OPS[c.draw(sizeof OPS / sizeof *OPS - 1)] : c.u8();
          unsigned who = c.chance(75) ? node.config->nodeNum : c.pick({nn, 0u, 0x100u, 0xFFFFu, nn ^ 1});
          int full = 1 + (op >> 5);
          f.len = c.chance(80) ? full : c.range(0, 8);
          if (f.len != full) ++rare;
          f.data[0] = op;
          f.data[1] = who >> 8;
          f.data[2] = who;
          if (op == K::DTXC)
          {
            f.data[1] = c.chance(80) ? streams[c.range(0, 2)] : c.u8();
            f.data[2] = c.chance(50) ? c.range(0, 5) : c.u8();
          }
          else if (c.chance(20)) { f.data[1] = c.sbyte(); f.data[2] = c.sbyte(); }
          for (int i = 3; i < 8; ++i) f.data[i] = c.chance(60) ? c.range(0, 10) : c.sbyte();
          if (op == K::MODE && c.chance(80)) f.data[3] = c.pick({8, 0, 1, 9, 0xA, 0xB, 0xC, 0xD, 0xFF});
          if (op == K::DTXC && f.data[2] == 0 && c.chance(80)) f.data[7] = 0;
          c.log("%s", frameStr(f).c_str());
          node.can->rx.push_back(f);
          ++frames;
        }
        if (c.chance(90)) track();
        else node.loop();
        break;
      }
      case 1:
      {
        unsigned long dt = c.chance(80) ? c.range(1, 300) : c.range(1000, 12000);
        c.log("%lu ms", dt);
        for (int i = 0; i < 3; ++i) { world.ms += dt / 3 + 1; track(); }
        break;
      }
      case 2:
      {
        auto a = c.pick({VLCB::ACT_CHANGE_MODE, VLCB::ACT_RENEGOTIATE, VLCB::ACT_START_CAN_ENUMERATION});
        c.log("button: action %d", a);
        node.controller->putAction(a);
        track();
        break;
      }
      case 3:
        if ((nc.services & S_PROD) && nc.numEVs > 0 && nc.maxEvents > 0)
        {
          c.log("%s", "own event");
          node.prod->sendEvent(c.chance(50), c.range(1, 6));
          track();
        }
        break;
      case 4:
        c.log("%s", "restart");
        verify("before restart");
        node.boot();
        canids.insert(node.config->CANID & 0x7F);
        break;
      case 5:
        if (lm || ex)
        {
          static uint8_t text[300];
          c.log("%s", "send a long message");
          if (lm) lm->sendLongMessage(text, c.range(1, 300), streams[0]);
          else ex->sendLongMessage(text, c.range(1, 300), streams[c.range(0, 2)]);
          track();
        }
        break;
    }
    verify("in operation");
  }
  // Is it still alive? Let it settle, then set it up and ask.
  track();
  for (int i = 0; i < 60; ++i) { world.ms += 100; track(); }
  verify("settling");
  bool setup = false;
  for (int i = 0; i < 2 && !setup; ++i)
  {
    node.controller->putAction(VLCB::ACT_CHANGE_MODE);
    track();
    for (auto &m : node.takeMsgs()) if (m.op() == K::RQNN) setup = true;
  }
  if (!setup) c.fail("deaf: the node does not enter setup mode any more");
  for (int i = 0; i < 3; ++i) { world.ms += 100; track(); }
  Msgs got = node.ask(mk(K::SNN, 0x4321));
  bool ok = false;
  for (auto &m : got) ok |= m == mk(K::NNACK, 0x4321);
  if (!ok) c.fail("deaf: SNN gets %s", str(got).c_str());
  got = node.ask(mk(K::QNN, 0).op() ? Msg{K::QNN} : Msg());
  ok = false;
  for (auto &m : got) ok |= m.op() == K::PNN && m.nn() == 0x4321;
  if (!ok) c.fail("deaf: QNN gets %s", str(got).c_str());
  if ((nc.services & S_NV) && nc.numNVs)
  {
    node.ask(mk(K::NVSET, 0x4321, {nc.numNVs, 77}));
    got = node.ask(mk(K::NVRD, 0x4321, {nc.numNVs}));
    if (got != Msgs{mk(K::NVANS, 0x4321, {nc.numNVs, 77})}) c.fail("deaf: NVRD gets %s", str(got).c_str());
  }
  if (nc.services & S_TEACH)
  {
    got = node.ask(mk(K::RQEVN, 0x4321));
    if (got.size() != 1 || got[0].op() != K::NUMEV) c.fail("deaf: RQEVN gets %s", str(got).c_str());
    if (got[0][3] > nc.maxEvents) c.fail("state: %d events in a table of %d", got[0][3], nc.maxEvents);
  }
  verify("end");
  if (rare) c.cls("extended, remote or wrong length frames");
  if (nc.numNVs == 0 || nc.maxEvents == 0 || nc.numEVs == 0) c.cls("a count of zero in the configuration");
  if (lmKind == 1) c.cls("with long messages");
  if (lmKind == 2) c.cls("with extended long messages");
  if (start >= 2) c.cls("virgin or arbitrary storage at the start");
  c.count("frames", frames);
  c.nontrivial(frames >= 8 && rare);
}

pbt::Property pbt::property = {
  "C06", "No traffic can crash the node, corrupt its state or make it deaf",
  "Random frames (mostly addressed to this node and of known opcodes, any length, data, identifier and flags, single and in bursts), time steps, button actions and restarts on random service sets and configurations with storage of exactly the layout's size; any sanitizer report, storage access outside the memory, write outside the layout or malformed frame sent fails; at the end the node is set up anew and must answer. Non-trivial: at least 8 frames, one of them extended, remote or of unusual length.",
  "exploration", 150000, 2500000, run,
  {},
  {"the stored mode is one that the library stores (or setup)", "up to 251 event variables, so that the record size fits its byte", "frames longer than 8 bytes cannot occur on CAN", "bursts may overflow the action queue: then messages are lost, nothing else"},
};
