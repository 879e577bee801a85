// The repository's internal EEPROM storage, compiled for ESP32.
#ifndef ESP32
#error compile with -DESP32
#endif
#define EepromInternalStorage EepromInternalStorageESP32
#include "EepromInternalStorage.cpp"
void powerUpEmulatedEeprom();
VLCB::Storage *makeEsp32Storage()
{
  powerUpEmulatedEeprom();
  return new VLCB::EepromInternalStorageESP32;
}
