// Simulated ACAN2515 driver: queues with limited length, polling and interrupt service.
#pragma once
#include "world.hpp"
#include <ACAN2515.h>
#include <CanTransport.h>
#include <deque>
#include <map>
#include <memory>

struct ChipCan
{
  uint8_t cs, intPin;
  bool begun = false, ended = false, alive = true;
  int rxSize = 0, tx0 = 0, tx1 = 0, tx2 = 0;
  unsigned long osc = 0;
  const SPIClass *spi = nullptr;
  unsigned bitrate = 0;
  void (*isr)() = nullptr;
  std::deque<CANMessage> hw;       // arrived at the chip, not yet moved to the driver
  std::deque<CANMessage> rx;       // in the driver's receive queue
  std::deque<CANMessage> tx;       // accepted for sending
  uint8_t rec = 0, tec = 0, flags = 0;
  long isrCalls = 0;
  bool accept = true;              // does the transmit queue have room?
};

extern std::map<const ACAN2515 *, ChipCan> chips;
extern unsigned short chipBeginResult;
extern long chipLive;

struct SpiState
{
  long begun = 0;
  int tx = -1, rx = -1, sck = -1, cs = -1; // pins, RP2040
  bool pinsAfterBegin = false;
};
extern std::map<const SPIClass *, SpiState> spis;

// The transport as it is compiled for different boards.
struct Board
{
  virtual ~Board() {}
  virtual VLCB::CanTransport &transport() = 0;
  virtual ACAN2515 *chip() = 0;
  virtual const SPIClass *bus(int i) = 0;              // 0: the default
  virtual bool begin(bool poll, int bus) = 0;          // bus -1: by default
  virtual void reset() = 0;
  virtual void setPins(int cs, int irq, int mosi, int miso, int sck) = 0;
  virtual void setNumBuffers(int rx, int tx) = 0;      // tx -1: not given
  virtual void setOscFreq(unsigned long f) = 0;
};
std::unique_ptr<Board> makeBoard();
std::unique_ptr<Board> makeBoardRp2040();
std::unique_ptr<Board> makeBoardEsp8266();
