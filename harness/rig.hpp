// A complete node built from the repository's classes on top of the simulated hardware.
#pragma once
#include "pbt.hpp"
#include "world.hpp"
#include "ops.hpp"

#include <Controller.h>
#include <Configuration.h>
#include <Parameters.h>
#include <CanService.h>
#include <CanServiceWithDiagnostics.h>
#include <CanTransport.h>
#include <ConsumeOwnEventsService.h>
#include <EventConsumerService.h>
#include <EventConsumerServiceWithDiagnostics.h>
#include <EventProducerService.h>
#include <EventProducerServiceWithDiagnostics.h>
#include <EventTeachingService.h>
#include <EventTeachingServiceWithDiagnostics.h>
#include <MinimumNodeService.h>
#include <MinimumNodeServiceWithDiagnostics.h>
#include <NodeVariableService.h>
#include <Storage.h>

#include <algorithm>
#include <memory>
#include <set>

using VLCB::CANFrame;
using VLCB::VlcbMessage;
using pbt::Case;

// ---- A message as a value. -----------------------------------------------------------------

struct Msg
{
  std::vector<uint8_t> d;
  Msg() {}
  Msg(std::initializer_list<int> il) { for (int v : il) d.push_back((uint8_t) v); }
  explicit Msg(const std::vector<uint8_t> &v) : d(v) {}
  uint8_t op() const { return d.empty() ? 0 : d[0]; }
  unsigned nn() const { return d.size() >= 3 ? d[1] << 8 | d[2] : 0; }
  unsigned en() const { return d.size() >= 5 ? d[3] << 8 | d[4] : 0; }
  size_t size() const { return d.size(); }
  uint8_t operator[](size_t i) const { return i < d.size() ? d[i] : 0; }
  bool operator==(const Msg &o) const { return d == o.d; }
  bool operator!=(const Msg &o) const { return d != o.d; }
  bool operator<(const Msg &o) const { return d < o.d; }
  std::string str() const { return "[" + pbt::hex(d.data(), d.size()) + "]"; }
};
typedef std::vector<Msg> Msgs;

std::string str(const Msgs &v);
// opcode + node number + bytes
Msg mk(int op, unsigned nn, std::initializer_list<int> rest = {});
// opcode + node number + event number + bytes
Msg mkev(int op, unsigned nn, unsigned en, std::initializer_list<int> rest = {});

inline int hi(unsigned v) { return (v >> 8) & 0xFF; }
inline int lo(unsigned v) { return v & 0xFF; }

// ---- Storage in RAM --------------------------------------------------------------------------

struct RamStorage : VLCB::Storage
{
  std::vector<uint8_t> mem;
  std::vector<std::string> problems;         // accesses outside the memory
  std::vector<std::pair<unsigned, uint8_t>> writes;
  bool logWrites = false;
  long resets = 0;
  explicit RamStorage(unsigned size = 4096) : mem(size, 0xFF) {}
  void begin() override {}
  byte read(unsigned int a) override;
  void write(unsigned int a, byte v) override;
  byte readBytes(unsigned int a, byte n, byte dest[]) override;
  void writeBytes(unsigned int a, const byte src[], byte n) override;
  void reset() override;
};

// ---- CAN transport in RAM ---------------------------------------------------------------------

struct FakeCan : VLCB::CanTransport
{
  std::deque<CANFrame> rx;
  std::vector<CANFrame> tx;
  bool accept = true;
  long resets = 0;
  unsigned rxCount = 0, txCount = 0, rxErr = 0, txErr = 0, status = 0;
  bool available() override { return !rx.empty(); }
  CANFrame getNextCanFrame() override
  {
    CANFrame f = rx.front();
    rx.pop_front();
    return f;
  }
  bool sendCanFrame(CANFrame *f) override
  {
    if (tx.size() > 20000) throw pbt::Failure{"runaway: more than 20000 frames sent without being asked"};
    tx.push_back(*f);
    return accept;
  }
  void reset() override { ++resets; }
  unsigned int receiveCounter() override { return rxCount; }
  unsigned int transmitCounter() override { return txCount; }
  unsigned int receiveErrorCounter() override { return rxErr; }
  unsigned int transmitErrorCounter() override { return txErr; }
  unsigned int errorStatus() override { return status; }
};

CANFrame dataFrame(unsigned canid, const Msg &m, unsigned prio = 0xB);
CANFrame emptyFrame(unsigned canid, unsigned prio = 0xB);
CANFrame rtrFrame(unsigned canid, unsigned prio = 0xB);
std::string frameStr(const CANFrame &f);

// ---- Services ---------------------------------------------------------------------------------

// Records the actions it is given.
struct SpyService : VLCB::Service
{
  struct Seen { VLCB::ACTION type; Msg msg; int mode; };
  std::vector<Seen> seen;
  bool on = true;
  VlcbServiceTypes getServiceID() const override { return SERVICE_ID_HIDDEN; }
  byte getServiceVersionID() const override { return 1; }
  void process(const VLCB::Action *a) override;
};

enum : unsigned
{
  S_MNS = 1, S_CAN = 2, S_NV = 4, S_CONS = 8, S_PROD = 16, S_TEACH = 32, S_COE = 64, S_SPY = 128, S_ALL = 127
};

struct NodeConf
{
  unsigned services = S_ALL & ~S_COE;
  bool diag = false;           // use the ...WithDiagnostics variants
  int order = 0;               // different service orders, as found in the example sketches
  unsigned nvsStart = 10;
  int numNVs = 10;
  unsigned eventsStart = 0;
  int maxEvents = 20;
  int numEVs = 3;
  int produced = 0;
  bool earlyConfig = false;    // the configuration is loaded before the parameters are set
  int maj = 2, min = 'a', beta = 1, moduleId = 99, manu = 165;
  std::string name = "VERIFY ";
};

struct Heard
{
  uint8_t index;
  Msg msg;
  unsigned long at;
};

struct Node
{
  NodeConf nc;
  VLCB::Storage *storage;      // not owned
  std::unique_ptr<FakeCan> can;
  std::unique_ptr<VLCB::Configuration> config;
  std::unique_ptr<VLCB::MinimumNodeService> mns;
  std::unique_ptr<VLCB::CanService> canService;
  std::unique_ptr<VLCB::NodeVariableService> nv;
  std::unique_ptr<VLCB::EventConsumerService> cons;
  std::unique_ptr<VLCB::EventProducerService> prod;
  std::unique_ptr<VLCB::EventTeachingService> teach;
  std::unique_ptr<VLCB::ConsumeOwnEventsService> coe;
  std::unique_ptr<SpyService> spy;
  std::vector<VLCB::Service *> extra;          // further services, at the end; not owned
  std::vector<VLCB::Service *> extraFront;     // further services, at the front; not owned
  std::vector<VLCB::Service *> list;
  std::unique_ptr<VLCB::Controller> controller;
  std::vector<Heard> consumed;
  std::vector<Heard> requested;
  std::function<void(uint8_t, const VlcbMessage *)> onConsumed, onRequested;
  bool handlers = true;
  std::function<void(VLCB::Parameters &)> onParams; // further calls on the parameters
  std::function<void()> beforeBegin;           // what a sketch does between construction and begin()
  Msgs spare;
  Case *pad = nullptr;                         // sometimes more bytes than the opcode has
  void build();

  Node(const NodeConf &nc, VLCB::Storage *st) : nc(nc), storage(st) {}
  ~Node();
  void boot();                                 // power up: build everything and begin(), also after a software restart
  void restart();                              // software restart: what has been sent stays on the bus
  void off();                                  // power down
  void pump(int maxLoops = 4000);              // run the main loop until there is nothing left to do
  void loop();                                 // one pass of the main loop
  Msgs takeMsgs(bool keepHeartbeat = false);   // messages sent since the last call
  std::vector<CANFrame> takeFrames();
  void post(const Msg &m, unsigned canid = 0x55);
  Msgs ask(const Msg &m, unsigned canid = 0x55); // deliver, run, collect the messages sent
  void advance(unsigned long ms, unsigned long step = 5); // time passes with the main loop running
  VlcbModeParams storedMode();

  // Short cuts that use nothing but messages.
  void pressForSetup();                        // long press of the button: ACT_CHANGE_MODE
  Msgs toNormal(unsigned nn);                  // from uninitialised through setup to normal
};

// Writes a state to storage as a module that has been set up earlier left it.
void storeIdentity(VLCB::Storage &st, int mode, int canid, unsigned nn, int flags = 0);

// Storage back ends --------------------------------------------------------------------------

extern RamStorage dummyStorage;
VLCB::Storage *makeDueStorage();
VLCB::Storage *makeFlashStorage();
void powerUpFlash();            // what these libraries keep in RAM is lost
void powerUpEmulatedEeprom();
VLCB::Storage *makeRp2040Storage();
VLCB::Storage *makeEsp32Storage();

// Known finding: of many answers only the last ones that fit the action queue arrive.
inline void burst(Case &c, const char *what, const Msgs &got, const Msgs &want)
{
  if (got == want) return;
  bool tail = got.size() >= 25 && got.size() < want.size() && std::equal(got.begin(), got.end(), want.end() - got.size());
  c.fail("%s%s: %zu of %zu answers arrive%s", tail ? "known: " : "", what, got.size(), want.size(), tail ? ", the first ones are lost" : ", or wrong ones");
}

// Many answers: all of them, or (that known finding) the last ones if they are more than the action queue takes.
inline bool allOrLast(const Msgs &got, const Msgs &want)
{
  return got == want || (want.size() > 29 && got.size() >= 25 && got.size() < want.size() && std::equal(got.begin(), got.end(), want.end() - got.size()));
}

// Which responses count as an error message?
inline bool isGrspError(const Msg &m) { return m.op() == 0xAF && m.size() >= 6 && m[5] != 0; }
