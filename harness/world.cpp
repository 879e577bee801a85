#include "world.hpp"
#include "pbt.hpp"
#include "esp_sim.hpp"

#define EEPROM EEPROM_not_here
#include <EEPROM.h>
#undef EEPROM
#include <SPI.h>
#include <Streaming.h>
#include <Wire.h>

#include "devices/DueFlashStorage.h"
#include "devices/Flash.h"
#undef EEPROM
#include "emu/EEPROM.h"

World world;

void World::reset()
{
  ms = 0;
  pinIn.clear();
  pinOut.clear();
  onPin = nullptr;
  serialIn.clear();
  serialOut.clear();
  serial2In.clear();
  serial2Out.clear();
  writesLeft = -1;
  writesDone = 0;
  eeprom.assign(4096, 0xFF);
  due.assign(65536, 0xFF);
  flash.assign(FLASH_TOTAL, 0xFF);
  badAccess = 0;
  i2c.clear();
  emu.assign(4096, 0xFF);
  emuRam.clear();
  emuFrom = emuTo = 0;
  restarts = 0;
  freeMemory = 4321;
}

EspClass ESP;
void EspClass::restart()
{
  ++world.restarts;
  throw Restart();
}
unsigned int EspClass::getFreeHeap() { return world.freeMemory; }

void World::elementaryWrite()
{
  if (writesLeft == 0) throw PowerCut();
  if (writesLeft > 0) --writesLeft;
  ++writesDone;
}

// ---- Arduino core

unsigned long millis() { return world.ms; }
void delay(unsigned int d) { world.ms += d; }
byte highByte(unsigned int v) { return (v >> 8) & 0xFF; }
byte lowByte(unsigned int v) { return v & 0xFF; }
void pinMode(int, PinMode) {}

void digitalWrite(int pin, int v)
{
  world.pinOut[pin] = v;
  if (world.onPin) world.onPin(pin, v);
}

byte digitalRead(int pin)
{
  auto it = world.pinIn.find(pin);
  return it == world.pinIn.end() ? HIGH : it->second;
}

// ---- Serial port

Serial_T Serial;
ENDL_T endl;

static std::deque<uint8_t> &in(const Serial_T *s) { return s == &Serial ? world.serialIn : world.serial2In; }
static void out(const Serial_T *p, const std::string &s)
{
  std::string &o = p == &Serial ? world.serialOut : world.serial2Out;
  if (o.size() > (1u << 20)) throw pbt::Failure{"runaway: more than 1 MB printed"};
  o += s;
}

void Serial_T::begin(int) {}
bool Serial_T::available() { return !in(this).empty(); }
char Serial_T::read()
{
  if (in(this).empty()) return (char) -1;
  char c = (char) in(this).front();
  in(this).pop_front();
  return c;
}
void Serial_T::flush() {}
unsigned char Serial_T::readBytesUntil(int term, char *s, int length)
{
  int n = 0;
  while (n < length && available())
  {
    char c = read();
    if (c == (char) term) break;
    s[n++] = c;
  }
  return n;
}
void Serial_T::print(const char *s) { out(this, s); }
void Serial_T::println(const char *s) { out(this, s); out(this, "\r\n"); }
Serial_T &operator<<(Serial_T &s, int v) { out(&s, std::to_string(v)); return s; }
Serial_T &operator<<(Serial_T &s, unsigned int v) { out(&s, std::to_string(v)); return s; }
Serial_T &operator<<(Serial_T &s, long v) { out(&s, std::to_string(v)); return s; }
Serial_T &operator<<(Serial_T &s, unsigned long v) { out(&s, std::to_string(v)); return s; }
Serial_T &operator<<(Serial_T &s, const char *v) { out(&s, v); return s; }
Serial_T &operator<<(Serial_T &s, const ENDL_T &) { out(&s, "\n"); return s; }

void printConfig() { out(&Serial, "> sketch configuration\n"); }

// ---- on-chip EEPROM

byte EEPROM_T::read(unsigned int a)
{
  if (a >= world.eeprom.size()) { ++world.badAccess; return 0xFF; }
  return world.eeprom[a];
}
void EEPROM_T::write(unsigned int a, byte v)
{
  if (a >= world.eeprom.size()) { ++world.badAccess; return; }
  world.elementaryWrite();
  world.eeprom[a] = v;
}

// ---- emulated EEPROM with a copy in RAM

EmulatedEeprom emulatedEeprom;
void powerUpEmulatedEeprom()
{
  world.emuRam.clear();
  world.emuFrom = world.emuTo = 0;
}
bool EmulatedEeprom::begin(size_t size)
{
  if (size == 0 || size > world.emu.size()) return false;
  world.emuRam.assign(world.emu.begin(), world.emu.begin() + size);
  world.emuFrom = world.emuTo = 0;
  return true;
}
byte EmulatedEeprom::read(int a)
{
  if (a < 0 || (size_t) a >= world.emuRam.size()) { ++world.badAccess; return 0; }
  return world.emuRam[a];
}
void EmulatedEeprom::write(int a, byte v)
{
  if (a < 0 || (size_t) a >= world.emuRam.size()) { ++world.badAccess; return; }
  if (world.emuRam[a] == v) return;
  world.emuRam[a] = v;
  if (world.emuFrom == world.emuTo) { world.emuFrom = a; world.emuTo = a + 1; }
  world.emuFrom = std::min<size_t>(world.emuFrom, a);
  world.emuTo = std::max<size_t>(world.emuTo, a + 1);
}
bool EmulatedEeprom::commit()
{
  if (world.emuRam.empty()) return false;
  if (world.emuFrom == world.emuTo) return true;
  world.elementaryWrite();
  std::copy(world.emuRam.begin() + world.emuFrom, world.emuRam.begin() + world.emuTo, world.emu.begin() + world.emuFrom);
  world.emuFrom = world.emuTo = 0;
  return true;
}

// ---- Due flash library

byte DueFlashStorage::read(uint32_t a)
{
  if (a >= world.due.size()) { ++world.badAccess; return 0xFF; }
  return world.due[a];
}
bool DueFlashStorage::write(uint32_t a, byte v)
{
  if (a >= world.due.size()) { ++world.badAccess; return false; }
  world.elementaryWrite();
  world.due[a] = v;
  return true;
}

// ---- AVR-Dx flash: pages are erased to 0xFF, writing can only clear bits.

FlashClass Flash;

uint8_t FlashClass::checkWritable() { return FLASHWRITE_OK; }
uint8_t FlashClass::readByte(uint32_t a)
{
  if (a >= FLASH_TOTAL) { ++world.badAccess; return 0xFF; }
  return world.flash[a];
}
uint8_t FlashClass::erasePage(uint32_t a, uint8_t pages)
{
  a &= ~511u;
  for (uint32_t i = a; i < a + 512u * (pages ? pages : 1); ++i)
  {
    if (i >= FLASH_TOTAL) { ++world.badAccess; return 1; }
    world.flash[i] = 0xFF;
  }
  return FLASHWRITE_OK;
}
uint8_t FlashClass::writeBytes(uint32_t a, const uint8_t *data, uint16_t n)
{
  for (uint16_t i = 0; i < n; ++i)
  {
    if (a + i >= FLASH_TOTAL) { ++world.badAccess; return 1; }
    world.flash[a + i] &= data[i];
  }
  return FLASHWRITE_OK;
}
uint8_t FlashClass::writeByte(uint32_t a, uint8_t v) { return writeBytes(a, &v, 1); }

// ---- I2C with EEPROM chips: 32 byte Wire buffer, page wrap on write, 5 ms write cycle.

TwoWire Wire;

static int wireTo = -1;
static std::vector<uint8_t> wireTx;
static std::deque<uint8_t> wireRx;

void TwoWire::begin()
{
  wireTo = -1;
  wireTx.clear();
  wireRx.clear();
}
void TwoWire::beginTransmission(byte a) { wireTo = a; wireTx.clear(); }
void TwoWire::write(int v)
{
  if (wireTx.size() < 32) wireTx.push_back((uint8_t) v);
}
static World::I2cEeprom *chip(int addr)
{
  auto it = world.i2c.find(addr);
  if (it == world.i2c.end()) return nullptr;
  World::I2cEeprom &e = it->second;
  if (e.busy && world.ms - e.busyUntil < 0x80000000ul) e.busy = false;
  if (e.busy)
  {
    world.ms += 1; // a refused transfer takes some time, too
    return nullptr;
  }
  return &e;
}
byte TwoWire::endTransmission()
{
  World::I2cEeprom *e = chip(wireTo);
  std::vector<uint8_t> tx;
  tx.swap(wireTx);
  if (!e) return 2;
  if (tx.size() >= 2)
  {
    e->pointer = (tx[0] << 8 | tx[1]) % e->mem.size();
    for (size_t i = 2; i < tx.size(); ++i)
    {
      world.elementaryWrite();
      e->mem[e->pointer] = tx[i];
      unsigned base = e->pointer / e->page * e->page;
      e->pointer = base + (e->pointer + 1 - base) % e->page;
    }
    if (tx.size() > 2) { e->busy = true; e->busyUntil = world.ms + 5; }
  }
  return 0;
}
void TwoWire::requestFrom(int a, int n)
{
  wireRx.clear();
  World::I2cEeprom *e = chip(a);
  if (!e) return;
  if (n > 32) n = 32;
  for (int i = 0; i < n; ++i)
  {
    wireRx.push_back(e->mem[e->pointer]);
    e->pointer = (e->pointer + 1) % e->mem.size();
  }
}
bool TwoWire::available() { return !wireRx.empty(); }
byte TwoWire::read()
{
  if (wireRx.empty()) return 0xFF;
  byte b = wireRx.front();
  wireRx.pop_front();
  return b;
}
