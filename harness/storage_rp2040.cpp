// The repository's internal EEPROM storage, compiled for RP2040.
#ifndef ARDUINO_ARCH_RP2040
#error compile with -DARDUINO_ARCH_RP2040
#endif
#define EepromInternalStorage EepromInternalStorageRP2040
#include "EepromInternalStorage.cpp"
void powerUpEmulatedEeprom();
VLCB::Storage *makeRp2040Storage()
{
  powerUpEmulatedEeprom();
  return new VLCB::EepromInternalStorageRP2040;
}
