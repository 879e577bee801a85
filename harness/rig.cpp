#include "rig.hpp"

RamStorage dummyStorage(64);

namespace VLCB
{
Configuration config(&dummyStorage); // referenced by the one-argument constructor of Controller
}

static Node *current = nullptr;

std::string str(const Msgs &v)
{
  std::string s;
  for (auto &m : v) s += m.str();
  return s.empty() ? "nothing" : s;
}

Msg mk(int op, unsigned nn, std::initializer_list<int> rest)
{
  Msg m{op, hi(nn), lo(nn)};
  for (int v : rest) m.d.push_back((uint8_t) v);
  return m;
}

Msg mkev(int op, unsigned nn, unsigned en, std::initializer_list<int> rest)
{
  Msg m{op, hi(nn), lo(nn), hi(en), lo(en)};
  for (int v : rest) m.d.push_back((uint8_t) v);
  return m;
}

// ---- RamStorage

static void problem(RamStorage &s, const char *what, unsigned a)
{
  char b[80];
  snprintf(b, sizeof b, "%s at address %u, storage has %zu bytes", what, a, s.mem.size());
  if (s.problems.size() < 10) s.problems.push_back(b);
}
byte RamStorage::read(unsigned int a)
{
  if (a >= mem.size()) { problem(*this, "read", a); return 0xFF; }
  return mem[a];
}
void RamStorage::write(unsigned int a, byte v)
{
  if (a >= mem.size()) { problem(*this, "write", a); return; }
  world.elementaryWrite();
  mem[a] = v;
  if (logWrites) writes.emplace_back(a, v);
}
byte RamStorage::readBytes(unsigned int a, byte n, byte dest[])
{
  for (int i = 0; i < n; ++i) dest[i] = read(a + i);
  return n;
}
void RamStorage::writeBytes(unsigned int a, const byte src[], byte n)
{
  for (int i = 0; i < n; ++i) write(a + i, src[i]);
}
void RamStorage::reset()
{
  ++resets;
  for (unsigned a = 10; a < mem.size(); ++a) write(a, 0xFF);
}

// ---- frames

CANFrame dataFrame(unsigned canid, const Msg &m, unsigned prio)
{
  CANFrame f;
  memset(&f, 0, sizeof f);
  f.id = (prio << 7) | (canid & 0x7F);
  f.len = (uint8_t) m.d.size();
  for (size_t i = 0; i < m.d.size() && i < 8; ++i) f.data[i] = m.d[i];
  return f;
}
CANFrame emptyFrame(unsigned canid, unsigned prio) { return dataFrame(canid, Msg(), prio); }
CANFrame rtrFrame(unsigned canid, unsigned prio)
{
  CANFrame f = emptyFrame(canid, prio);
  f.rtr = true;
  return f;
}
std::string frameStr(const CANFrame &f)
{
  char b[64];
  snprintf(b, sizeof b, "%s%s id %X ", f.ext ? "ext" : "std", f.rtr ? " rtr" : "", f.id);
  return b + std::string("[") + pbt::hex(f.data, f.len > 8 ? 8 : f.len) + "]";
}

// ---- services

void SpyService::process(const VLCB::Action *a)
{
  if (!a || !on) return;
  Seen s;
  s.type = a->actionType;
  s.mode = a->actionType == VLCB::ACT_INDICATE_MODE ? (int) a->mode : -1;
  if (a->actionType == VLCB::ACT_MESSAGE_IN || a->actionType == VLCB::ACT_MESSAGE_OUT)
  {
    const VlcbMessage &m = a->vlcbMessage;
    s.msg.d.assign(m.data, m.data + (m.len > 8 ? 8 : m.len));
  }
  seen.push_back(s);
}

static void consumedHandler(byte index, const VlcbMessage *m)
{
  if (!current) return;
  Heard h;
  h.index = index;
  h.at = world.ms;
  h.msg.d.assign(m->data, m->data + (m->len > 8 ? 8 : m->len));
  current->consumed.push_back(h);
  if (current->onConsumed) current->onConsumed(index, m);
}

static void requestedHandler(byte index, const VlcbMessage *m)
{
  if (!current) return;
  Heard h;
  h.index = index;
  h.at = world.ms;
  h.msg.d.assign(m->data, m->data + (m->len > 8 ? 8 : m->len));
  current->requested.push_back(h);
  if (current->onRequested) current->onRequested(index, m);
}

// ---- Node

static VLCB::Controller *makeController(VLCB::Configuration *c, const std::vector<VLCB::Service *> &l)
{
  switch (l.size())
  {
    case 1: return new VLCB::Controller(c, {l[0]});
    case 2: return new VLCB::Controller(c, {l[0], l[1]});
    case 3: return new VLCB::Controller(c, {l[0], l[1], l[2]});
    case 4: return new VLCB::Controller(c, {l[0], l[1], l[2], l[3]});
    case 5: return new VLCB::Controller(c, {l[0], l[1], l[2], l[3], l[4]});
    case 6: return new VLCB::Controller(c, {l[0], l[1], l[2], l[3], l[4], l[5]});
    case 7: return new VLCB::Controller(c, {l[0], l[1], l[2], l[3], l[4], l[5], l[6]});
    case 8: return new VLCB::Controller(c, {l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7]});
    case 9: return new VLCB::Controller(c, {l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8]});
    case 10: return new VLCB::Controller(c, {l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8], l[9]});
    case 11: return new VLCB::Controller(c, {l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8], l[9], l[10]});
    case 12: return new VLCB::Controller(c, {l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8], l[9], l[10], l[11]});
    case 13: return new VLCB::Controller(c, {l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8], l[9], l[10], l[11], l[12]});
    case 14: return new VLCB::Controller(c, {l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8], l[9], l[10], l[11], l[12], l[13]});
    case 15: return new VLCB::Controller(c, {l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8], l[9], l[10], l[11], l[12], l[13], l[14]});
    case 16: return new VLCB::Controller(c, {l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8], l[9], l[10], l[11], l[12], l[13], l[14], l[15]});
    case 17: return new VLCB::Controller(c, {l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8], l[9], l[10], l[11], l[12], l[13], l[14], l[15], l[16]});
    case 18: return new VLCB::Controller(c, {l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8], l[9], l[10], l[11], l[12], l[13], l[14], l[15], l[16], l[17]});
    case 19: return new VLCB::Controller(c, {l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8], l[9], l[10], l[11], l[12], l[13], l[14], l[15], l[16], l[17], l[18]});
    case 20: return new VLCB::Controller(c, {l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8], l[9], l[10], l[11], l[12], l[13], l[14], l[15], l[16], l[17], l[18], l[19]});
    case 21: return new VLCB::Controller(c, {l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8], l[9], l[10], l[11], l[12], l[13], l[14], l[15], l[16], l[17], l[18], l[19], l[20]});
    case 22: return new VLCB::Controller(c, {l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8], l[9], l[10], l[11], l[12], l[13], l[14], l[15], l[16], l[17], l[18], l[19], l[20], l[21]});
    case 23: return new VLCB::Controller(c, {l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8], l[9], l[10], l[11], l[12], l[13], l[14], l[15], l[16], l[17], l[18], l[19], l[20], l[21], l[22]});
    case 24: return new VLCB::Controller(c, {l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8], l[9], l[10], l[11], l[12], l[13], l[14], l[15], l[16], l[17], l[18], l[19], l[20], l[21], l[22], l[23]});
    case 25: return new VLCB::Controller(c, {l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8], l[9], l[10], l[11], l[12], l[13], l[14], l[15], l[16], l[17], l[18], l[19], l[20], l[21], l[22], l[23], l[24]});
    case 26: return new VLCB::Controller(c, {l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8], l[9], l[10], l[11], l[12], l[13], l[14], l[15], l[16], l[17], l[18], l[19], l[20], l[21], l[22], l[23], l[24], l[25]});
    case 27: return new VLCB::Controller(c, {l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8], l[9], l[10], l[11], l[12], l[13], l[14], l[15], l[16], l[17], l[18], l[19], l[20], l[21], l[22], l[23], l[24], l[25], l[26]});
    case 28: return new VLCB::Controller(c, {l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8], l[9], l[10], l[11], l[12], l[13], l[14], l[15], l[16], l[17], l[18], l[19], l[20], l[21], l[22], l[23], l[24], l[25], l[26], l[27]});
    case 29: return new VLCB::Controller(c, {l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8], l[9], l[10], l[11], l[12], l[13], l[14], l[15], l[16], l[17], l[18], l[19], l[20], l[21], l[22], l[23], l[24], l[25], l[26], l[27], l[28]});
    case 30: return new VLCB::Controller(c, {l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8], l[9], l[10], l[11], l[12], l[13], l[14], l[15], l[16], l[17], l[18], l[19], l[20], l[21], l[22], l[23], l[24], l[25], l[26], l[27], l[28], l[29]});
    case 31: return new VLCB::Controller(c, {l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8], l[9], l[10], l[11], l[12], l[13], l[14], l[15], l[16], l[17], l[18], l[19], l[20], l[21], l[22], l[23], l[24], l[25], l[26], l[27], l[28], l[29], l[30]});
    case 32: return new VLCB::Controller(c, {l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8], l[9], l[10], l[11], l[12], l[13], l[14], l[15], l[16], l[17], l[18], l[19], l[20], l[21], l[22], l[23], l[24], l[25], l[26], l[27], l[28], l[29], l[30], l[31]});
  }
  fprintf(stderr, "bad number of services\n");
  abort();
}

Node::~Node() { off(); }

void Node::off()
{
  if (current == this) current = nullptr;
  controller.reset();
  mns.reset();
  canService.reset();
  nv.reset();
  cons.reset();
  prod.reset();
  teach.reset();
  coe.reset();
  spy.reset();
  config.reset();
  can.reset();
  list.clear();
}

void Node::boot()
{
  if (can) can->tx.clear();
  restart();
  pump();
}

void Node::restart()
{
  std::vector<CANFrame> sent;                  // is on the bus and stays there
  if (can) sent = can->tx;
  for (int i = 0; i < 4; ++i)
  {
    try
    {
      build();
      can->tx.insert(can->tx.begin(), sent.begin(), sent.end());
      return;
    }
    catch (Restart &)
    {
      sent.insert(sent.end(), can->tx.begin(), can->tx.end());
    }
  }
  throw pbt::Failure{"restart: the node restarts again and again"};
}

// The objects are global in a sketch: memory is zero before they are constructed.
template <class T, class... A> static T *global(A &&...a)
{
  void *p = ::operator new(sizeof(T));
  memset(p, 0, sizeof(T));
  asm volatile("" : : "r"(p) : "memory");
  return new (p) T(std::forward<A>(a)...);
}

void Node::build()
{
  off();
  if (!dynamic_cast<RamStorage *>(storage))
  {
    powerUpFlash();
    powerUpEmulatedEeprom();
  }
  using namespace VLCB;
  current = this;
  can.reset(global<FakeCan>());
  config.reset(global<Configuration>(storage));
  config->EE_NVS_START = nc.nvsStart;
  config->EE_NUM_NVS = nc.numNVs;
  config->EE_EVENTS_START = nc.eventsStart;
  config->EE_MAX_EVENTS = nc.maxEvents;
  config->EE_NUM_EVS = nc.numEVs;
  config->EE_PRODUCED_EVENTS = nc.produced;
  if (nc.diag)
  {
    mns.reset(global<MinimumNodeServiceWithDiagnostics>());
    canService.reset(global<CanServiceWithDiagnostics>(can.get()));
    cons.reset(global<EventConsumerServiceWithDiagnostics>());
    prod.reset(global<EventProducerServiceWithDiagnostics>());
    teach.reset(global<EventTeachingServiceWithDiagnostics>());
  }
  else
  {
    mns.reset(global<MinimumNodeService>());
    canService.reset(global<CanService>(can.get()));
    cons.reset(global<EventConsumerService>());
    prod.reset(global<EventProducerService>());
    teach.reset(global<EventTeachingService>());
  }
  nv.reset(global<NodeVariableService>());
  coe.reset(global<ConsumeOwnEventsService>());
  spy.reset(global<SpyService>());

  list = extraFront;
  static const unsigned orders[][7] = {
    {S_MNS, S_CAN, S_NV, S_CONS, S_PROD, S_TEACH, S_COE},     // 4in4out
    {S_MNS, S_CAN, S_NV, S_CONS, S_TEACH, S_PROD, S_COE},     // 1in1out
    {S_CAN, S_MNS, S_NV, S_TEACH, S_CONS, S_PROD, S_COE},
    {S_COE, S_TEACH, S_PROD, S_CONS, S_NV, S_CAN, S_MNS},
  };
  for (unsigned s : orders[nc.order & 3])
  {
    if (!(nc.services & s)) continue;
    switch (s)
    {
      case S_MNS: list.push_back(mns.get()); break;
      case S_CAN: list.push_back(canService.get()); break;
      case S_NV: list.push_back(nv.get()); break;
      case S_CONS: list.push_back(cons.get()); break;
      case S_PROD: list.push_back(prod.get()); break;
      case S_TEACH: list.push_back(teach.get()); break;
      case S_COE: list.push_back(coe.get()); break;
    }
  }
  for (auto s : extra) list.push_back(s);
  if (nc.services & S_SPY) list.push_back(spy.get());
  controller.reset(makeController(config.get(), list));

  Parameters params(*config);
  params.setVersion(nc.maj, nc.min, nc.beta);
  params.setModuleId(nc.moduleId);
  params.setManufacturer(nc.manu);
  if (onParams) onParams(params);
  if (nc.earlyConfig) config->begin();
  controller->setParams(params.getParams());
  controller->setName((const unsigned char *) nc.name.c_str());
  if (handlers)
  {
    cons->setEventHandler(consumedHandler);
    prod->setRequestEventHandler(requestedHandler);
  }
  if (beforeBegin) beforeBegin();
  controller->begin();
}

void Node::loop()
{
  current = this;
  try
  {
    controller->process();
  }
  catch (Restart &)
  {
    restart();
  }
}

void Node::pump(int maxLoops)
{
  current = this;
  int idle = 0;
  for (int i = 0; i < maxLoops && idle < 3; ++i)
  {
    loop();
    if (can->rx.empty() && !controller->pendingAction()) ++idle;
    else idle = 0;
  }
}

std::vector<CANFrame> Node::takeFrames()
{
  std::vector<CANFrame> v;
  v.swap(can->tx);
  return v;
}

Msgs Node::takeMsgs(bool keepHeartbeat)
{
  Msgs v;
  for (auto &f : takeFrames())
  {
    if (f.rtr || f.ext || f.len == 0) continue;
    Msg m;
    m.d.assign(f.data, f.data + (f.len > 8 ? 8 : f.len));
    if (!keepHeartbeat && m.op() == OPC_HEARTB) continue;
    v.push_back(m);
  }
  return v;
}

void Node::post(const Msg &msg, unsigned canid)
{
  Msg m = msg;
  if (pad && m.size() < 8 && m.size() == 1u + (m.op() >> 5) && pad->chance(6))
  {
    size_t n = pad->range(m.size() + 1, 8);
    while (m.size() < n) m.d.push_back(pad->sbyte());
    pad->log("(with more bytes: %s)", m.str().c_str());
  }
  // Other modules use other priorities.
  can->rx.push_back(dataFrame(canid, m, pad && pad->chance(12) ? pad->range(0, 15) : 0xB));
}

Msgs Node::ask(const Msg &m, unsigned canid)
{
  takeFrames();
  post(m, canid);
  pump();
  return takeMsgs();
}

void Node::advance(unsigned long ms, unsigned long step)
{
  unsigned long end = world.ms + ms;
  while (world.ms != end)
  {
    unsigned long d = end - world.ms;
    world.ms += d < step ? d : step;
    pump();
  }
}

VlcbModeParams Node::storedMode() { return (VlcbModeParams) storage->read(VLCB::LOCATION_MODE); }

void Node::pressForSetup()
{
  controller->putAction(VLCB::ACT_CHANGE_MODE);
  pump();
}

Msgs Node::toNormal(unsigned nn)
{
  pressForSetup();
  advance(200);
  return ask(mk(OPC_SNN, nn));
}

void storeIdentity(VLCB::Storage &st, int mode, int canid, unsigned nn, int flags)
{
  st.write(VLCB::LOCATION_MODE, mode);
  st.write(VLCB::LOCATION_CANID, canid);
  st.write(VLCB::LOCATION_NODE_NUMBER_HIGH, hi(nn));
  st.write(VLCB::LOCATION_NODE_NUMBER_LOW, lo(nn));
  st.write(VLCB::LOCATION_FLAGS, flags);
  st.write(VLCB::LOCATION_RESET_FLAG, 0);
}
