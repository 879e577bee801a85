// The repository's CAN2515, compiled for RP2040.
#ifndef ARDUINO_ARCH_RP2040
#error compile with -DARDUINO_ARCH_RP2040
#endif
#include "chip.hpp"
struct SPIClassRP2040 : SPIClass
{
  void pin(int SpiState::*p, int v)
  {
    SpiState &s = spis[this];
    s.*p = v;
    if (s.begun) s.pinsAfterBegin = true;
  }
  bool setTX(int p) { pin(&SpiState::tx, p); return true; }
  bool setRX(int p) { pin(&SpiState::rx, p); return true; }
  bool setSCK(int p) { pin(&SpiState::sck, p); return true; }
  bool setCS(int p) { pin(&SpiState::cs, p); return true; }
  bool setMOSI(int p) { return setTX(p); }
  bool setMISO(int p) { return setRX(p); }
};
SPIClassRP2040 spiRp2040;
#define SPI spiRp2040
#define CAN2515 CAN2515RP2040
#include "CAN2515.cpp"
#define BOARD_SPI SPIClassRP2040
#define BOARD_PINS t.setPins(cs, irq, mosi, miso, sck)
#include "board.inc"
std::unique_ptr<Board> makeBoardRp2040() { return std::unique_ptr<Board>(new ThisBoard); }
