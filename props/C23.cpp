// CAN frames over a serial line.
#include "gridconnect.hpp"
#include <SerialGC.h>

static std::string printable(const std::string &s)
{
  std::string r;
  char b[8];
  for (unsigned char ch : s)
    if (ch >= 32 && ch < 127) r += ch;
    else { snprintf(b, sizeof b, "\\x%02x", ch); r += b; }
  return r;
}

struct Expected
{
  std::vector<CANFrame> frames;
  long damaged = 0;      // messages of at most 28 characters that are not well-formed
  long tooLong = 0;
  bool open = false;     // unused identifier bits: delivered or not
};

// What a receiver has to find in a stream.
static Expected scan(const std::string &stream)
{
  Expected e;
  std::string cur;
  bool in = false;
  for (char ch : stream)
  {
    if (ch >= 'a' && ch <= 'z') ch -= 32;
    if (ch == ':') { cur = ":"; in = true; continue; }
    if (!in) continue;
    cur += ch;
    if (ch == ';')
    {
      in = false;
      CANFrame f;
      if (cur.size() > 28) ++e.tooLong;
      else switch (gc::decode(cur, f))
      {
        case gc::GOOD: e.frames.push_back(f); break;
        case gc::UNUSED_BITS: e.open = true; e.frames.push_back(f); break;
        case gc::BAD: ++e.damaged; break;
      }
    }
  }
  return e;
}

static std::string piece(Case &c)
{
  std::string s = gc::encode(gc::random(c));
  static const char chars[] = "0123456789ABCDEFabcdefgGSXNRsxnr:;:; \r\n-@\x80\xff";
  auto ch = [&] { return c.chance(85) ? chars[c.range(0, sizeof chars - 2)] : (char) c.range(0, 255); };
  switch (c.weighted({10, 5, 4, 3, 2, 2, 1}))
  {
    case 0: return s;
    case 1: // damaged
      switch (c.range(0, 4))
      {
        case 0: s[c.range(0, s.size() - 1)] = ch(); break;
        case 1: s.insert(s.begin() + c.range(0, s.size() - 1), ch()); break;
        case 2: s.erase(c.range(0, s.size() - 1), 1); break;
        case 3: s.insert(c.range(1, s.size() - 1), std::string(c.range(1, 20), '0')); break;
        case 4: std::swap(s[c.range(0, s.size() - 1)], s[c.range(0, s.size() - 1)]); break;
      }
      return s;
    case 2: return s.substr(0, c.range(1, s.size() - 1)); // cut off
    case 3: // garbage
    {
      std::string g;
      int len = c.range(1, 12);
      for (int i = 0; i < len; ++i) g += ch();
      return g;
    }
    case 4: return c.pick<std::string>({"\r\n", "\n", " ", ";", ":", "::", ";;", ":;", ":S", ":X", ":N;", ":S0000N"});
    case 5: // far too long
    {
      int len = c.range(20, 70);
      std::string g = c.chance(80) ? ":" : "";
      for (int i = 0; i < len; ++i) g += c.chance(90) ? "0123456789ABCDEF"[c.range(0, 15)] : ch();
      if (c.chance(50)) g += ';';
      return g;
    }
    case 6:
      for (auto &x : s) if (x >= 'A' && x <= 'Z') x += 32; // lower case is understood on the line
      return s;
  }
  return s;
}

static void run(Case &c)
{
  world.reset();
  VLCB::SerialGC t;
  t.begin();
  // Another port with traffic of its own must not matter.
  Serial_T port2;
  VLCB::SerialGC other(port2);
  bool two = c.chance(20);
  if (two) other.begin();
  world.serialOut.clear();
  std::string stream;
  std::vector<CANFrame> got;
  unsigned sent = 0, sendErr = 0;
  bool bad = false;
  auto poll = [&](int times) {
    for (int i = 0; i < times; ++i)
    {
      if (t.available())
      {
        got.push_back(t.getNextCanFrame());
        if (two && c.chance(30) && other.available()) other.getNextCanFrame();
        if (got.size() > 10000) c.fail("%s", "frames without end");
      }
    }
  };
  int n = 0, pieces = 0;
  while (c.more(n, 12, 60))
  {
    STEP(c);
    if (c.chance(25))
    {
      CANFrame f = gc::random(c);
      bool cannot = c.chance(15);
      if (cannot) { if (c.chance(50)) f.len = c.range(9, 12); else f.id = f.ext ? 0x20000000 : 0x800; }
      c.log("send %s%s", cannot ? "invalid " : "", frameStr(f).c_str());
      world.serialOut.clear();
      bool ok = t.sendCanFrame(&f);
      ++sent;
      if (cannot)
      {
        ++sendErr;
        if (ok || !world.serialOut.empty()) c.fail("a frame that cannot be encoded: returns %d, writes \"%s\"", ok, printable(world.serialOut).c_str());
      }
      else if (!ok || world.serialOut != gc::encode(f)) c.fail("sent wrong: %s as \"%s\", returns %d", frameStr(f).c_str(), printable(world.serialOut).c_str(), ok);
      continue;
    }
    if (two && c.chance(40))
    {
      std::string s = piece(c);
      c.log("other line \"%s\"", printable(s).c_str());
      for (char ch : s) world.serial2In.push_back((uint8_t) ch);
      for (int i = c.range(0, 60); i > 0; --i) if (other.available()) other.getNextCanFrame();
      continue;
    }
    std::string s = piece(c);
    ++pieces;
    c.log("line \"%s\"", printable(s).c_str());
    stream += s;
    // It arrives in parts, polled in between.
    size_t pos = 0;
    while (pos < s.size())
    {
      size_t k = c.chance(60) ? s.size() - pos : c.range(1, s.size() - pos);
      for (size_t i = 0; i < k; ++i) world.serialIn.push_back((uint8_t) s[pos + i]);
      pos += k;
      poll(c.chance(60) ? 80 : c.range(0, 8));
    }
    if (c.chance(3)) t.reset();
  }
  poll(stream.size() + 40);
  if (!world.serialIn.empty()) c.fail("%zu characters are left unread", world.serialIn.size());
  Expected e = scan(stream);
  if (e.open) bad = true;
  size_t i = 0, j = 0;
  for (; i < e.frames.size(); ++i)
  {
    if (j < got.size() && gc::same(got[j], e.frames[i])) { ++j; continue; }
    if (e.open) continue;
    c.fail("frame %zu of %zu: got %s, expected %s", i + 1, e.frames.size(), j < got.size() ? frameStr(got[j]).c_str() : "nothing", frameStr(e.frames[i]).c_str());
  }
  if (j < got.size()) c.fail("delivered too much: %s", frameStr(got[j]).c_str());
  long rx = t.receiveCounter(), err = t.receiveErrorCounter();
  if (rx - err != (long) got.size()) c.fail("counters: %ld received, %ld of them errors, but %zu frames delivered", rx, err, got.size());
  if (!bad && (err < e.damaged || err > e.damaged + e.tooLong)) c.fail("counters: %ld receive errors, expected %ld (and up to %ld that are too long)", err, e.damaged, e.tooLong);
  if (t.transmitErrorCounter() != sendErr || (t.transmitCounter() != sent && t.transmitCounter() != sent - sendErr))
    c.fail("counters: %u sent, %u errors, expected %u and %u", t.transmitCounter(), t.transmitErrorCounter(), sent, sendErr);
  if (two) c.cls("two serial ports");
  if (e.damaged) c.cls("damaged messages");
  if (e.tooLong) c.cls("too long messages");
  c.count("frames delivered", got.size());
  c.nontrivial(got.size() >= 2 && pieces > (int) got.size());
}

pbt::Property pbt::property = {
  "C23", "The serial CAN transport finds every frame in any byte stream",
  "Random streams of valid, damaged, cut-off and overlong messages, garbage, stray start and end characters, delivered in random parts with random polling, and frames sent in between; frames delivered and counters are compared with an independent scan of the stream. Non-trivial: at least two frames delivered and something else on the line.",
  "exploration", 150000, 2500000, run,
  {},
  {"a frame that is announced is fetched before the next poll", "damaged messages longer than 28 characters may or may not be counted as errors"},
};
