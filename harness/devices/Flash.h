// Stand-in for the DxCore Flash library.
#pragma once
#include <cstdint>
#define FLASHWRITE_OK 0
#define PROGMEM_SIZE 131072
struct FlashClass
{
  uint8_t checkWritable();
  uint8_t readByte(uint32_t address);
  uint8_t erasePage(uint32_t address, uint8_t pages = 1);
  uint8_t writeBytes(uint32_t address, const uint8_t *data, uint16_t length);
  uint8_t writeByte(uint32_t address, uint8_t data);
};
extern FlashClass Flash;
