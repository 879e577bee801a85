// Power failure at every storage write of an operation: only what the operation changes may be affected.
#include "devices.hpp"

struct Op
{
  int kind;
  unsigned nn, en;
  int a, b;
};

struct Bench
{
  Case &c;
  NodeConf nc;
  int dev;                       // DEV_COUNT: plain RAM
  std::unique_ptr<VLCB::Storage> st;
  RamStorage ram{2048};
  explicit Bench(Case &c) : c(c) {}

  uint8_t &byteAt(unsigned a) { return dev == DEV_COUNT ? ram.mem[a] : deviceByte(dev, a); }
  std::vector<uint8_t> save()
  {
    std::vector<uint8_t> v(2048);
    for (unsigned a = 0; a < 2048; ++a) v[a] = byteAt(a);
    return v;
  }
  void restore(const std::vector<uint8_t> &v) { for (unsigned a = 0; a < 2048; ++a) byteAt(a) = v[a]; }
  std::unique_ptr<Node> boot()
  {
    VLCB::Storage *s;
    if (dev == DEV_COUNT) s = &ram;
    else { st = openDevice(dev); s = st.get(); }
    std::unique_ptr<Node> n(new Node(nc, s));
    n->boot();
    settle(*n);
    return n;
  }
  void settle(Node &n)
  {
    for (int i = 0; i < 12; ++i) { world.ms += 20; n.pump(); }
    n.takeFrames();
  }

  // The steps before the operation proper, which write nothing themselves (or are not to be interrupted).
  void prepare(Node &n, const Op &o)
  {
    unsigned nn = n.config->nodeNum;
    if (o.kind >= 1 && o.kind <= 4) n.ask(mk(K::NNLRN, nn), 120);
    if (o.kind == 7)
    {
      n.controller->putAction(n.config->currentMode == MODE_NORMAL ? VLCB::ACT_RENEGOTIATE : VLCB::ACT_CHANGE_MODE);
      n.pump();
      settle(n);
    }
  }
  void apply(Node &n, const Op &o)
  {
    unsigned nn = n.config->nodeNum;
    switch (o.kind)
    {
      case 0: n.ask(mk(o.en & 1 ? K::NVSET : K::NVSETRD, nn, {o.a, o.b}), 120); break;
      case 1: n.ask(mkev(K::EVLRN, o.nn, o.en, {o.a, o.b}), 120); break;
      case 2: n.ask(mkev(K::EVLRNI, o.nn, o.en, {o.b, o.a, (int) (o.en & 7)}), 120); break;
      case 3: n.ask(mkev(K::EVULN, o.nn, o.en), 120); break;
      case 4: n.ask(mk(K::NNCLR, nn), 120); break;
      case 5: n.ask(mk(K::MODE, nn, {o.a & 1 ? K::MODE_HEARTBEAT_ON : K::MODE_HEARTBEAT_OFF}), 120); break;
      case 6: n.ask(mk(K::CANID, nn, {1 + o.b % 99}), 120); break;
      case 7: n.ask(mk(K::SNN, o.nn), 120); settle(n); break;
      case 8: n.controller->putAction(VLCB::ACT_CHANGE_MODE); n.pump(); settle(n); break;
      case 9: n.prod->sendEvent(true, o.b % 6 + 1); n.pump(); break;
      case 10: n.ask(mk(K::ENUM, nn), 120); settle(n); break;
    }
  }
  Op gen(bool history)
  {
    Op o;
    o.kind = c.weighted({6, 8, 3, 3, 1, 2, 2, history ? 0 : 2, history ? 0 : 2, 3, 1});
    o.nn = o.kind == 7 || c.chance(20) ? c.pick({0x100, 0x201, 0x0101, 0xFF00, 0x00FF, 300}) : c.pick({0x100, 0x201});
    o.en = c.chance(20) ? c.pick({2, 0x103, 0xFFFF, 0xFF00, 4}) : c.pick({1, 0x103});
    o.a = c.range(1, std::max(1, o.kind == 0 ? nc.numNVs : nc.numEVs));
    o.b = o.kind == 2 ? c.range(0, nc.maxEvents - 1) : c.range(0, 255);
    return o;
  }
};

static const char *KIND[] = {"NV written", "event taught", "event taught by index", "event deleted", "events cleared", "heartbeat switched", "CANID set", "node number set",
                             "mode change by button", "own event", "enumeration"};

static void run(Case &c)
{
  Bench b(c);
  world.reset();
  NodeConf &nc = b.nc;
  b.dev = c.pick({(int) DEV_COUNT, (int) DEV_INTERNAL, (int) DEV_I2C, (int) DEV_DUE, (int) DEV_RP2040});
  makeDevice(b.dev, c.pick({32, 64, 128}));
  nc.numNVs = c.range(1, 6);
  nc.numEVs = c.range(1, 4);
  nc.maxEvents = c.range(1, 6);
  nc.order = c.range(0, 3);
  nc.nvsStart = 10 + c.range(0, 30);
  nc.produced = c.chance(20) ? c.range(0, nc.maxEvents) : 0;
  int start = c.weighted({5, 2});
  unsigned nn0 = c.pick({256, 0x1234, 0xFF01, 0x01FF});
  {
    VLCB::Storage *s = &b.ram;
    std::unique_ptr<VLCB::Storage> d;
    if (b.dev != DEV_COUNT) { d = openDevice(b.dev); s = d.get(); }
    s->begin();
    if (start == 0) storeIdentity(*s, K::MODE_NORMAL, 50, nn0, c.range(0, 3));
    else storeIdentity(*s, K::MODE_UNINITIALISED, 0, 0);
    for (int i = 0; i < nc.numNVs; ++i) s->write(nc.nvsStart + i, 20 + i);
  }
  std::unique_ptr<Node> n = b.boot();
  c.log("%s, %d NVs, %d events of %d variables, NN %u, start %d", b.dev == DEV_COUNT ? "RAM" : deviceName(b.dev), nc.numNVs, nc.maxEvents, nc.numEVs, nn0, start);
  int k = 0;
  while (c.more(k, 6, 20))
  {
    STEP(c);
    Op o = b.gen(true);
    c.log("%s (%u:%u %d %d)", KIND[o.kind], o.nn, o.en, o.a, o.b);
    b.prepare(*n, o);
    b.apply(*n, o);
  }
  // Power off, then the operation that is to be interrupted.
  Op o = b.gen(false);
  c.log("interrupted: %s (%u:%u %d %d)", KIND[o.kind], o.nn, o.en, o.a, o.b);
  n = b.boot();
  // From here on each run starts with this content.
  std::vector<uint8_t> content = b.save();
  unsigned long t0 = world.ms;
  Dump before = dumpNode(*n);
  n.reset();
  if (b.save() != content) c.fail("reading: a dump by messages changes the storage");

  n = b.boot();
  b.prepare(*n, o);
  Dump prepared = dumpNode(*n);
  long w0 = world.writesDone;
  b.apply(*n, o);
  long writes = world.writesDone - w0;
  n = b.boot();
  Dump after = dumpNode(*n);
  n.reset();
  std::set<std::string> changed;
  for (auto &x : before) if (after[x.first] != x.second || prepared[x.first] != x.second) changed.insert(x.first);

  long step = writes > 60 ? c.range(1, 7) : 1, cuts = 0;
  for (long cut = 0; cut < writes; cut += cut < 30 ? 1 : step)
  {
    b.restore(content);
    world.ms = t0;
    n = b.boot();
    b.prepare(*n, o);
    world.writesLeft = cut;
    bool died = false;
    try { b.apply(*n, o); }
    catch (PowerCut &) { died = true; }
    world.writesLeft = -1;
    n.reset();
    if (!died) continue;
    ++cuts;
    n = b.boot();
    Dump got = dumpNode(*n);
    for (auto &x : before)
    {
      if (changed.count(x.first)) continue;
      if (got[x.first] != x.second)
        c.fail("lost: power cut at write %ld of %ld while %s: %s was %s, is %s", cut + 1, writes, KIND[o.kind], x.first.c_str(), x.second.c_str(), got[x.first].c_str());
    }
    // It works.
    if (got["mode"] != before["mode"] && got["mode"] != after["mode"])
      c.fail("mode: power cut at write %ld of %ld while %s: mode was %s, is %s", cut + 1, writes, KIND[o.kind], before["mode"].c_str(), got["mode"].c_str());
    unsigned nn = n->config->nodeNum;
    Msgs r = n->ask(mk(K::NVSET, nn, {1, 123}), 120);
    r = n->ask(mk(K::NVRD, nn, {1}), 120);
    if (r != Msgs{mk(K::NVANS, nn, {1, 123})}) c.fail("works: after a power cut NVRD gets %s", str(r).c_str());
    n.reset();
  }
  if (!b.ram.problems.empty()) c.fail("storage: %s", b.ram.problems[0].c_str());
  c.count("power cuts", cuts);
  if (writes) c.cls(KIND[o.kind]);
  c.nontrivial(cuts > 0 && k > 0);
}

pbt::Property pbt::property = {
  "C11", "A power cut damages at most the item being written",
  "A random history, then one operation that is repeated with the power cut before each of its elementary storage writes (each byte) in turn; after the restart a dump through the protocol must agree with the one before in everything that the completed operation does not change, and the node must work. Non-trivial: at least one cut and a history before it.",
  "fault_enumeration", 80000, 1500000, run,
  {},
  {"storage that is written byte by byte: RAM, internal EEPROM, I2C EEPROM (bytes of a page in order) and Due emulation; the AVR flash erases a page of 512 bytes at a time and cannot give this guarantee",
   "node number FFFF is not used: with uninitialised mode it marks a module with erased memory", "factory reset is not interrupted, it changes everything"},
};
