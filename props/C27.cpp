// The storage classes as byte arrays.
#include "devices.hpp"

static void run(Case &c)
{
  world.reset();
  world.ms = c.chance(80) ? 0 : c.edgy(0, 4294000000l);
  int d = c.range(0, DEV_COUNT - 1);
  unsigned page = 32, size = 4096;
  if (d == DEV_I2C)
  {
    page = c.pick<unsigned>({32, 16, 64, 128});
    size = c.pick<unsigned>({4096, 8192, 32768, 65536});
    makeDevice(d, page, size);
  }
  // A second chip on the bus, and what else is in the flash
  if (d == DEV_I2C) world.i2c[I2C_ADDRESS + 1] = world.i2c[I2C_ADDRESS];
  size = deviceSize(d);
  auto random = [&] { return c.u8(); };
  std::vector<uint8_t> model(size, 0xFF);
  if (c.chance(50)) // what was there before
  {
    uint32_t s = c.range(0, 10000) * 2654435761u + 1;
    for (unsigned a = 0; a < size; ++a)
    {
      s = s * 1664525u + 1013904223u;
      deviceByte(d, a) = model[a] = s >> 24;
    }
  }
  uint8_t codeMark = random();
  if (d == DEV_FLASH) world.flash[FLASH_TOTAL - 2049] = codeMark; // the program ends here
  std::unique_ptr<VLCB::Storage> st = openDevice(d);
  st->begin();
  c.log("%s, %u bytes, page %u", deviceName(d), size, page);
  c.cls(deviceName(d));

  int unit = d == DEV_FLASH ? 512 : d == DEV_I2C ? page : 256;
  std::vector<unsigned> hot; // addresses that are used again
  auto address = [&](unsigned len) -> unsigned {
    unsigned a;
    switch (c.weighted({3, 3, 2, 2}))
    {
      case 0: a = c.range(0, std::min(size - 1, 300u)); break;
      case 1: // around a page boundary
        a = (unsigned) (c.range(1, size / unit) * unit - c.range(0, std::min<unsigned>(len + 1, unit)));
        break;
      case 2: a = c.edgy(0, size - 1); break;
      default: a = hot.empty() ? 0 : c.pickv(hot); break;
    }
    if (a + len > size) a = size - len;
    if (a == size) --a;
    hot.push_back(a);
    return a;
  };
  auto verifyDevice = [&](const char *what) {
    const uint8_t *p = &deviceByte(d, 0);
    if (memcmp(p, model.data(), size) != 0)
      for (unsigned a = 0; a < size; ++a)
        if (p[a] != model[a]) c.fail("%s: address %u of the device is %02x, expected %02x", what, a, p[a], model[a]);
    if (world.badAccess) c.fail("%s: access outside the device", what);
  };
  int n = 0, writes = 0, crossing = 0;
  while (c.more(n, 25, 120))
  {
    STEP(c);
    switch (c.weighted({4, 6, 3, 5, 1, 1}))
    {
      case 0:
      {
        unsigned a = address(1);
        int v = st->read(a);
        c.log("read %u: %02x", a, v);
        if (v != model[a]) c.fail("read of address %u returns %02x, written was %02x", a, v, model[a]);
        break;
      }
      case 1:
      {
        unsigned len = c.chance(70) ? c.range(1, 40) : c.edgy(0, 255);
        unsigned a = address(len);
        std::unique_ptr<uint8_t[]> src(new uint8_t[len]);
        uint8_t seed = random(), add = random();
        for (unsigned i = 0; i < len; ++i) src[i] = model[a + i] = seed += add * 2 + 1;
        c.log("write %u bytes at %u", len, a);
        st->writeBytes(a, src.get(), len);
        ++writes;
        if (len && a / unit != (a + len - 1) / unit)
        {
          ++crossing;
          c.cls("write across a page boundary");
        }
        if (len > 200) c.cls("long write");
        verifyDevice("block write");
        break;
      }
      case 2:
      {
        unsigned a = address(1);
        model[a] = c.sbyte();
        c.log("write %u: %02x", a, model[a]);
        st->write(a, model[a]);
        ++writes;
        verifyDevice("write");
        break;
      }
      case 3:
      {
        unsigned len = c.chance(70) ? c.range(1, 40) : c.edgy(0, 255);
        unsigned a = address(len);
        std::vector<uint8_t> before = {random()};
        std::unique_ptr<uint8_t[]> dst(new uint8_t[len]);
        memset(dst.get(), before[0], len);
        byte r = st->readBytes(a, len, dst.get());
        c.log("read %u bytes at %u", len, a);
        if (r != len) c.fail("read of %u bytes at %u returns the length %u", len, a, r);
        for (unsigned i = 0; i < len; ++i)
          if (dst[i] != model[a + i]) c.fail("read of %u bytes at %u: byte %u is %02x, written was %02x", len, a, i, dst[i], model[a + i]);
        break;
      }
      case 4:
        c.log("%s", "restart");
        st = openDevice(d);
        st->begin();
        verifyDevice("restart");
        break;
      case 5:
        c.log("%s", "reset");
        st->reset();
        c.cls("reset");
        for (unsigned a = 0; a < size; ++a)
        {
          uint8_t v = deviceByte(d, a);
          bool mustKeep = d != DEV_DUE && d != DEV_FLASH && a < 10;
          bool mustErase = d != DEV_DUE && d != DEV_FLASH ? a >= 10 && a < 4096 : d == DEV_FLASH && a >= 10;
          if (mustErase ? v != 0xFF : v != model[a] && (mustKeep || v != 0xFF)) c.fail("after a reset address %u is %02x, was %02x", a, v, model[a]);
          model[a] = v;
        }
        if (world.badAccess) c.fail("%s", "reset accesses addresses outside the device");
        break;
    }
  }
  // All of it through the interface
  for (unsigned a = 0; a < size; a += 255)
  {
    uint8_t b[255];
    unsigned len = std::min(255u, size - a);
    if (st->readBytes(a, len, b) != len || memcmp(b, &model[a], len)) c.fail("at the end the block at %u reads differently", a);
    if (size > 4096 && a > 2000 && a < size - 600) a = size - 600;
  }
  verifyDevice("the end");
  if (d == DEV_FLASH)
  {
    if (world.flash[FLASH_TOTAL - 2049] != codeMark) c.fail("%s", "the program in front of the flash area is changed");
    for (unsigned a = 0; a < FLASH_TOTAL - 2049; ++a)
      if (world.flash[a] != 0xFF) c.fail("flash outside the area is changed at %u", a);
  }
  if (d == DEV_I2C)
    for (unsigned a = 0; a < world.i2c[I2C_ADDRESS + 1].mem.size(); ++a)
      if (world.i2c[I2C_ADDRESS + 1].mem[a] != 0xFF) c.fail("%s", "another chip on the bus is written");
  c.nontrivial(crossing > 0 || (writes > 1 && d != DEV_I2C && d != DEV_FLASH));
}

pbt::Property pbt::property = {
  "C27", "Every storage type is a faithful byte array",
  "Random sequences of single and block reads and writes (0 to 255 bytes, biased to page boundaries, the ends of the device and addresses used before), "
  "restarts and resets on the storage classes over simulated devices: on-chip EEPROM, the EEPROM emulations of RP2040 and ESP32 with a copy in RAM that has to be committed, I2C EEPROM chips of different size and page length with "
  "32-byte Wire buffer, page wrap-around and write time, Due flash emulation, AVR-Dx flash with erase blocks where writing only clears bits. After each "
  "write the whole device is compared with a byte array, also what lies outside the area. Non-trivial: a block crossed a page boundary (devices with "
  "pages), or there were several writes.",
  "exploration", 60000, 2000000, run, {}, {"Addresses are within the device", "begin() is called once after a start"}};
