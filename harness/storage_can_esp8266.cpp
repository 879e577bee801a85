// The repository's CAN2515, compiled for ESP8266.
#ifndef ESP8266
#error compile with -DESP8266
#endif
#include "chip.hpp"
#define CAN2515 CAN2515ESP8266
#include "CAN2515.cpp"
#define BOARD_SPI SPIClass
#define BOARD_PINS t.setPins(cs, irq)
#include "board.inc"
std::unique_ptr<Board> makeBoardEsp8266() { return std::unique_ptr<Board>(new ThisBoard); }
