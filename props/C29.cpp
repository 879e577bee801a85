// The MCP2515 transport over a simulated driver.
#include "rig.hpp"
#include "chip.hpp"

static std::string cmStr(const CANMessage &m)
{
  char b[60];
  snprintf(b, sizeof b, "%x%s%s [%d] ", (unsigned) m.id, m.ext ? " ext" : "", m.rtr ? " rtr" : "", m.len);
  return b + pbt::hex(m.data, m.len > 8 ? 8 : m.len);
}

static CANMessage randomFrame(Case &c)
{
  CANMessage m;
  memset(&m, 0, sizeof m);
  m.ext = c.chance(30);
  m.rtr = c.chance(20);
  m.id = m.ext ? (uint32_t) c.edgy(0, 0x1FFFFFFF) : (uint32_t) c.edgy(0, 0x7FF);
  m.len = c.range(0, 8);
  for (int i = 0; i < m.len; ++i) m.data[i] = c.sbyte();
  return m;
}

template <typename A, typename B> static bool same(const A &a, const B &b)
{
  return a.id == b.id && a.ext == b.ext && a.rtr == b.rtr && a.len == b.len && (a.rtr || memcmp(a.data, b.data, a.len) == 0);
}

static void run(Case &c)
{
  world.reset();
  chips.clear();
  chipLive = 0;
  chipBeginResult = 0;
  spis.clear();
  int board = c.weighted({4, 2, 1});
  std::unique_ptr<Board> b = board == 0 ? makeBoard() : board == 1 ? makeBoardRp2040() : makeBoardEsp8266();
  VLCB::CanTransport &t = b->transport();
  bool poll = c.chance(50);
  int cs = 10, irq = 2, nrx = 4, ntx = 2, mosi = -1, miso = -1, sck = -1;
  unsigned long osc = 16000000;
  if (board == 1 || c.chance(50))
  {
    cs = c.u8();
    irq = c.range(0, 254);
    mosi = c.u8();
    miso = c.u8();
    sck = c.u8();
    b->setPins(cs, irq, mosi, miso, sck);
  }
  if (c.chance(50))
  {
    nrx = c.range(1, 255);
    if (c.chance(20)) b->setNumBuffers(nrx, -1), ntx = 0;
    else b->setNumBuffers(nrx, ntx = c.range(1, 255));
  }
  if (c.chance(50)) b->setOscFreq(osc = c.pick<unsigned long>({8000000, 20000000, 4000000}));
  int bus = c.range(-1, 1);
  if (c.chance(10))
  {
    chipBeginResult = c.range(1, 65535);
    c.log("begin() fails with %u", chipBeginResult);
    if (b->begin(poll, bus)) c.fail("begin() succeeds, driver reports %u", chipBeginResult);
    chipBeginResult = 0;
    c.cls("driver error at begin");
    spis.clear();
  }
  if (!b->begin(poll, bus)) c.fail("%s", "begin() fails");
  auto checkSetup = [&](const char *what) {
    if (!chips.count(b->chip())) c.fail("%s: no driver", what);
    ChipCan &ch = chips[b->chip()];
    if (!ch.begun) c.fail("%s: driver is not started", what);
    if (ch.cs != cs || ch.intPin != (poll ? 255 : irq)) c.fail("%s: pins %d, %d", what, ch.cs, ch.intPin);
    if (poll != (ch.isr == nullptr)) c.fail("%s: interrupt handler %s", what, ch.isr ? "set" : "missing");
    if (ch.rxSize != nrx || ch.tx0 != ntx || ch.tx1 != (board == 2) || ch.tx2 != (board == 2)) c.fail("%s: buffers %d, %d, %d, %d, expected %d, %d", what, ch.rxSize, ch.tx0, ch.tx1, ch.tx2, nrx, ntx);
    const SPIClass *bp = b->bus(bus);
    if (ch.spi != bp) c.fail("%s: the driver uses another SPI", what);
    for (auto &x : spis) if (x.first != bp) c.fail("%s: another SPI is used", what);
    SpiState &sp = spis[bp];
    if (!sp.begun) c.fail("%s: SPI is not started", what);
    if (board == 1 && (sp.tx != mosi || sp.rx != miso || sp.sck != sck || sp.cs != cs))
      c.fail("%s: SPI pins %d, %d, %d, %d, expected %d, %d, %d, %d", what, sp.tx, sp.rx, sp.sck, sp.cs, mosi, miso, sck, cs);
    if (board == 1 && sp.pinsAfterBegin && !strcmp(what, "begin")) c.fail("%s: SPI pins are set after its start", what);
    if (ch.osc != osc || ch.bitrate != 125000) c.fail("%s: oscillator %lu, bit rate %u", what, ch.osc, ch.bitrate);
  };
  checkSetup("begin");
  c.cls(board == 0 ? "standard board" : board == 1 ? "RP2040" : "ESP8266");
  c.log("%s, buffers %d, %d", poll ? "polling" : "interrupts", nrx, ntx);
  c.cls(poll ? "polling" : "interrupts");
  unsigned sent = 0, rcvd = 0, total = 0;
  std::deque<CANMessage> waiting;
  auto compareCounters = [&] {
    if (t.transmitCounter() != sent) c.fail("transmit counter %u, %u frames were sent", t.transmitCounter(), sent);
    if (t.receiveCounter() != rcvd) c.fail("receive counter %u, %u frames were received", t.receiveCounter(), rcvd);
  };
  auto take = [&](int max) {
    while (max-- > 0)
    {
      ChipCan &ch = chips[b->chip()];
      if (!poll && !ch.hw.empty() && (int) ch.rx.size() < ch.rxSize)
      {
        if (!ch.isr) c.fail("%s", "interrupt without handler");
        ch.isr();
      }
      bool av = t.available();
      if (av != !waiting.empty()) c.fail("available() is %d, %zu frames have arrived", (int) av, waiting.size());
      if (!av) break;
      VLCB::CANFrame f;
      memset(&f, 0xA5, sizeof f);
      f = t.getNextCanFrame();
      ++rcvd;
      ++total;
      if (!same(f, waiting.front())) c.fail("received %s, on the bus was %s", frameStr(f).c_str(), cmStr(waiting.front()).c_str());
      waiting.pop_front();
    }
    compareCounters();
  };
  int n = 0, resets = 0, refused = 0;
  while (c.more(n, 20, 100))
  {
    STEP(c);
    switch (c.weighted({6, 6, 5, 1, 1, 1}))
    {
      case 0: // send
      {
        ChipCan &ch = chips[b->chip()];
        size_t before = ch.tx.size();
        CANMessage m = randomFrame(c);
        VLCB::CANFrame f;
        memset(&f, 0x5A, sizeof f);
        f.id = m.id;
        f.ext = m.ext;
        f.rtr = m.rtr;
        f.len = m.len;
        memcpy(f.data, m.data, m.len);
        VLCB::CANFrame copy = f;
        ch.accept = c.chance(80);
        bool r = t.sendCanFrame(&f);
        c.log("send %s%s", cmStr(m).c_str(), ch.accept ? "" : ", queue is full");
        if (r != ch.accept) c.fail("sendCanFrame() returns %d, queue is %s", (int) r, ch.accept ? "free" : "full");
        if (ch.tx.size() != before + (ch.accept ? 1 : 0)) c.fail("%s", "number of frames in the queue is wrong");
        if (ch.accept && !same(ch.tx.back(), m)) c.fail("sent %s, in the queue is %s", cmStr(m).c_str(), cmStr(ch.tx.back()).c_str());
        if (!same(copy, f)) c.fail("%s", "the caller's frame is changed");
        if (ch.accept) ++sent, ++total;
        else ++refused;
        compareCounters();
        break;
      }
      case 1: // frames arrive
      {
        int k = c.range(1, 6);
        c.log("%d frames arrive", k);
        while (k--)
        {
          CANMessage m = randomFrame(c);
          chips[b->chip()].hw.push_back(m);
          waiting.push_back(m);
        }
        break;
      }
      case 2: take(c.range(0, 8)); break;
      case 3:
      {
        c.log("%s", "reset");
        b->reset();
        checkSetup("reset");
        waiting.clear(); // what had not been fetched is lost
        chips[b->chip()].hw.clear();
        chips[b->chip()].rx.clear();
        sent = rcvd = 0;
        ++resets;
        compareCounters();
        break;
      }
      case 4:
      {
        ChipCan &ch = chips[b->chip()];
        ch.rec = c.u8();
        ch.tec = c.u8();
        ch.flags = c.u8();
        if (t.receiveErrorCounter() != ch.rec || t.transmitErrorCounter() != ch.tec || t.errorStatus() != ch.flags)
          c.fail("error counters %u, %u, status %u, in the chip %u, %u, %u", t.receiveErrorCounter(), t.transmitErrorCounter(), t.errorStatus(), ch.rec, ch.tec, ch.flags);
        break;
      }
      case 5: // many at once
      {
        int k = c.range(1, 70);
        for (int i = 0; i < k; ++i)
        {
          VLCB::CANFrame f = dataFrame(c.range(1, 99), Msg{K::ACON, 1, 2, hi(i), lo(i)});
          chips[b->chip()].accept = true;
          if (!t.sendCanFrame(&f)) c.fail("%s", "frame refused, the queue is free");
          ++sent;
          ++total;
        }
        compareCounters();
        break;
      }
    }
  }
  take(1000);
  if (!waiting.empty()) c.fail("%zu frames are not received", waiting.size());
  if (resets) c.cls("reset");
  if (refused) c.cls("transmit queue full");
  c.count("frames", total);
  c.nontrivial(total > 3);
}

pbt::Property pbt::property = {
  "C29", "The MCP2515 transport moves frames unaltered and counts them",
  "Random sequences of sending random frames (standard and extended, remote, 0 to 8 bytes) with free and full transmit queue, arrival of frames, fetching, "
  "resets and error counters, in polling and interrupt mode with random pins, buffers and oscillator, over a simulated driver. Frames are compared field by "
  "field and in order in both directions, the counters with the number of frames since the start or reset, the driver's settings before and after a reset. "
  "Non-trivial: more than three frames were moved.",
  "exploration", 100000, 4000000, run, {}, {"One transport in interrupt mode at a time", "The driver library is simulated", "Frames are fetched only when available() is true"}};
