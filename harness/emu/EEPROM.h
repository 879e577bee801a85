// Stand-in for the EEPROM libraries of ESP32 and RP2040, which keep a copy of the content in RAM.
#pragma once
#include <Arduino.h>
struct EmulatedEeprom
{
  bool begin(size_t size);
  byte read(int address);
  void write(int address, byte value);
  bool commit();
};
extern EmulatedEeprom emulatedEeprom;
#define EEPROM emulatedEeprom
