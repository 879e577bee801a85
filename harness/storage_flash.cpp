// The repository's flash storage, compiled for AVR-Dx.
#ifndef DXCORE
#error compile with -DDXCORE
#endif
#include "FlashStorage.cpp"
#include "world.hpp"

// A restart: the page cache in RAM is lost. As it is global in the library, a write to page 0 brings it
// to its initial position, without any effect on the flash itself.
void powerUpFlash()
{
  VLCB::FlashStorage s;
  std::vector<uint8_t> content = world.flash;
  long bad = world.badAccess, left = world.writesLeft, done = world.writesDone;
  world.writesLeft = -1;
  s.begin();
  s.write(0, 0);
  world.flash = content;
  world.badAccess = bad;
  world.writesLeft = left;
  world.writesDone = done;
}

VLCB::Storage *makeFlashStorage()
{
  powerUpFlash();
  return new VLCB::FlashStorage;
}
