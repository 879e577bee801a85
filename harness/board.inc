// A Board for the class CAN2515 as it is compiled here.
namespace
{
struct ThisBoard : Board
{
  VLCB::CAN2515 t;
  BOARD_SPI other;
  VLCB::CanTransport &transport() override { return t; }
  ACAN2515 *chip() override { return t.canp; }
  const SPIClass *bus(int i) override { return i > 0 ? &other : &SPI; }
  bool begin(bool poll, int bus) override
  {
    if (bus > 0) return t.begin(poll, other);
    if (bus == 0) return t.begin(poll, SPI);
    return poll ? t.begin(true) : t.begin();
  }
  void reset() override { t.reset(); }
  void setPins(int cs, int irq, int mosi, int miso, int sck) override { BOARD_PINS; }
  void setNumBuffers(int rx, int tx) override { tx < 0 ? t.setNumBuffers(rx) : t.setNumBuffers(rx, tx); }
  void setOscFreq(unsigned long f) override { t.setOscFreq(f); }
};
}
