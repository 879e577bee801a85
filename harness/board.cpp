// The repository's CAN2515 as the tests compile it.
#include "chip.hpp"
#include <CAN2515.h>
#define BOARD_SPI SPIClass
#define BOARD_PINS t.setPins(cs, irq)
#include "board.inc"
std::unique_ptr<Board> makeBoard() { return std::unique_ptr<Board>(new ThisBoard); }
