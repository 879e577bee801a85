#include "chip.hpp"

std::map<const ACAN2515 *, ChipCan> chips;
unsigned short chipBeginResult = 0;
long chipLive = 0;

static unsigned long lastOsc;
static unsigned lastRate;

ACAN2515Settings::ACAN2515Settings(unsigned long osc, unsigned int rate)
  : mRequestedMode(NormalMode), mReceiveBufferSize(32), mTransmitBuffer0Size(16), mTransmitBuffer1Size(0), mTransmitBuffer2Size(0)
{
  lastOsc = osc;
  lastRate = rate;
}

ACAN2515::ACAN2515(uint8_t cs, SPIClass &spi, uint8_t irq)
{
  ChipCan c;
  c.spi = &spi;
  c.cs = cs;
  c.intPin = irq;
  chips[this] = c;
  ++chipLive;
}
static void pull(ChipCan &c)
{
  while (!c.hw.empty() && (int) c.rx.size() < c.rxSize)
  {
    c.rx.push_back(c.hw.front());
    c.hw.pop_front();
  }
}
unsigned short ACAN2515::begin(const ACAN2515Settings &s, void (*isr)())
{
  ChipCan &c = chips[this];
  c.begun = true;
  c.rxSize = s.mReceiveBufferSize;
  c.tx0 = s.mTransmitBuffer0Size;
  c.tx1 = s.mTransmitBuffer1Size;
  c.tx2 = s.mTransmitBuffer2Size;
  c.osc = lastOsc;
  c.bitrate = lastRate;
  c.isr = isr;
  return chipBeginResult;
}
void ACAN2515::isr()
{
  ChipCan &c = chips[this];
  ++c.isrCalls;
  pull(c);
}
void ACAN2515::poll()
{
  ChipCan &c = chips[this];
  if (c.isr == nullptr) pull(c);
}
bool ACAN2515::available() { return !chips[this].rx.empty(); }
void ACAN2515::receive(CANMessage &m)
{
  ChipCan &c = chips[this];
  if (c.rx.empty()) return;
  m = c.rx.front();
  c.rx.pop_front();
}
bool ACAN2515::tryToSend(const CANMessage &m)
{
  ChipCan &c = chips[this];
  if (!c.accept) return false;
  c.tx.push_back(m);
  return true;
}
void ACAN2515::end() { chips[this].ended = true; }
uint16_t ACAN2515::receiveBufferCount() { return chips[this].rx.size(); }
uint16_t ACAN2515::receiveBufferPeakCount() { return chips[this].rx.size(); }
uint16_t ACAN2515::receiveBufferSize() { return chips[this].rxSize; }
uint16_t ACAN2515::transmitBufferCount(uint8_t) { return 0; }
uint16_t ACAN2515::transmitBufferPeakCount(uint8_t) { return 0; }
uint16_t ACAN2515::transmitBufferSize(uint8_t i) { ChipCan &c = chips[this]; return i == 0 ? c.tx0 : i == 1 ? c.tx1 : c.tx2; }
uint8_t ACAN2515::receiveErrorCounter() { return chips[this].rec; }
uint8_t ACAN2515::transmitErrorCounter() { return chips[this].tec; }
uint8_t ACAN2515::errorFlagRegister() { return chips[this].flags; }

// ---- SPI

std::map<const SPIClass *, SpiState> spis;
SPIClass SPI;
void SPIClass::begin() { ++spis[this].begun; }
