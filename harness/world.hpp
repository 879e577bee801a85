// The simulated hardware around the library: clock, pins, serial port, I2C EEPROM, flash, CAN chip.
#pragma once
#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <string>
#include <vector>

#include <ACAN2515.h>
#include <Arduino.h>

struct ChipCan; // one simulated ACAN2515 controller

struct World
{
  unsigned long ms = 0;
  std::map<int, int> pinIn;                       // what digitalRead() sees; default HIGH
  std::map<int, int> pinOut;                      // last digitalWrite()
  std::function<void(int, int)> onPin;            // called on every digitalWrite()
  std::deque<uint8_t> serialIn;
  std::string serialOut;
  std::deque<uint8_t> serial2In;                  // any serial port other than Serial
  std::string serial2Out;

  // Power failure: number of elementary memory writes still done. Negative: no failure.
  long writesLeft = -1;
  long writesDone = 0;

  // On-chip EEPROM, Due flash, NOR flash of AVR-Dx.
  std::vector<uint8_t> eeprom;
  std::vector<uint8_t> due;
  std::vector<uint8_t> flash;
  long badAccess = 0;                             // accesses outside the memory

  // I2C EEPROM with 16 bit addresses and pages.
  struct I2cEeprom
  {
    std::vector<uint8_t> mem;
    unsigned int page = 64;
    unsigned long busyUntil = 0;
    bool busy = false;
    unsigned int pointer = 0;
  };
  std::map<int, I2cEeprom> i2c;
  // EEPROM emulation with a copy in RAM, as on ESP32 and RP2040
  std::vector<uint8_t> emu, emuRam;
  size_t emuFrom = 0, emuTo = 0;                  // what is not committed

  long restarts = 0;                              // software restarts
  unsigned freeMemory = 4321;

  void reset();
  void elementaryWrite(); // throws PowerCut
};

struct PowerCut {};
struct Restart {};      // thrown when the library restarts the processor

extern World world;

const unsigned FLASH_TOTAL = 131072; // PROGMEM_SIZE of the simulated AVR-Dx
