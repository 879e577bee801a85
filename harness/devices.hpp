// The kinds of non-volatile memory, and the reset of a node as a user sees it.
#pragma once
#include "rig.hpp"
#include <EepromExternalStorage.h>
#include <EepromInternalStorage.h>

enum Device { DEV_INTERNAL, DEV_I2C, DEV_DUE, DEV_FLASH, DEV_RP2040, DEV_ESP32, DEV_COUNT };

inline const char *deviceName(int d)
{
  static const char *n[] = {"internal EEPROM", "I2C EEPROM", "Due flash emulation", "AVR flash", "RP2040 EEPROM", "ESP32 EEPROM"};
  return n[d];
}

const int I2C_ADDRESS = 0x50;

// The memory area that a storage class offers.
inline unsigned deviceSize(int d)
{
  switch (d)
  {
    case DEV_INTERNAL: return (unsigned) world.eeprom.size();
    case DEV_I2C: return (unsigned) world.i2c[I2C_ADDRESS].mem.size();
    case DEV_DUE: return (unsigned) world.due.size();
    case DEV_RP2040: case DEV_ESP32: return (unsigned) world.emu.size();
    default: return 2048;
  }
}

inline void makeDevice(int d, unsigned page = 32, unsigned size = 4096)
{
  if (d == DEV_I2C)
  {
    World::I2cEeprom e;
    e.mem.assign(size, 0xFF);
    e.page = page;
    world.i2c[I2C_ADDRESS] = e;
  }
}

// What a restarted program has: a new object.
inline std::unique_ptr<VLCB::Storage> openDevice(int d)
{
  switch (d)
  {
    case DEV_INTERNAL: return std::unique_ptr<VLCB::Storage>(new VLCB::EepromInternalStorage);
    case DEV_I2C: return std::unique_ptr<VLCB::Storage>(new VLCB::EepromExternalStorage(I2C_ADDRESS));
    case DEV_DUE: return std::unique_ptr<VLCB::Storage>(makeDueStorage());
    case DEV_RP2040: return std::unique_ptr<VLCB::Storage>(makeRp2040Storage());
    case DEV_ESP32: return std::unique_ptr<VLCB::Storage>(makeEsp32Storage());
    default: return std::unique_ptr<VLCB::Storage>(makeFlashStorage());
  }
}

// One byte of the device, without the help of the storage class.
inline uint8_t &deviceByte(int d, unsigned a)
{
  switch (d)
  {
    case DEV_INTERNAL: return world.eeprom[a];
    case DEV_I2C: return world.i2c[I2C_ADDRESS].mem[a];
    case DEV_DUE: return world.due[a];
    case DEV_RP2040: case DEV_ESP32: return world.emu[a];
    default: return world.flash[FLASH_TOTAL - 2048 + a];
  }
}

typedef std::map<std::string, std::string> Dump;

// Everything that is stored, as the node reports it.
inline Dump dumpNode(Node &node, bool settings = true)
{
  Dump d;
  unsigned nn = node.config->nodeNum;
  auto val = [&](const Msg &req, int op) -> std::string {
    Msgs r = node.ask(req, 120);
    for (auto &m : r) if (m.op() == op && m.size() > 3) return pbt::hex(&m.d[3], m.size() - 3);
    return "nothing";
  };
  char k[60];
  if (settings)
  {
    d["mode"] = std::to_string(node.config->currentMode);
    d["node number"] = std::to_string(nn);
    d["CANID"] = std::to_string(node.config->CANID);
    d["heartbeat"] = node.config->heartbeat ? "on" : "off";
    d["event acknowledge"] = node.config->eventAck ? "on" : "off";
  }
  if (node.nc.services & S_NV)
    for (int i = 1; i <= node.nc.numNVs; ++i)
    {
      snprintf(k, sizeof k, "NV %d", i);
      d[k] = val(mk(K::NVRD, nn, {i}), K::NVANS);
    }
  for (int i = 0; i < node.nc.maxEvents; ++i)
  {
    snprintf(k, sizeof k, "event %d", i);
    std::string e = val(mk(K::NENRD, nn, {i}), K::ENRSP);
    if (e != "nothing")
      for (int v = 1; v <= node.nc.numEVs; ++v) e += ", " + val(mk(K::REVAL, nn, {i, v}), K::NEVAL);
    d[k] = e;
  }
  return d;
}

// The first difference, or an empty string.
inline std::string different(const Dump &a, const Dump &b)
{
  for (auto &x : a)
  {
    auto it = b.find(x.first);
    if (it == b.end()) return x.first + " is missing";
    if (it->second != x.second) return x.first + " was " + x.second + ", is " + it->second;
  }
  return "";
}
