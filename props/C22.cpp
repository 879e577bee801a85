// GridConnect codec.
#include "gridconnect.hpp"
#include <GridConnect.h>

static std::string printable(const std::string &s)
{
  std::string r;
  char b[8];
  for (unsigned char ch : s)
    if (ch >= 32 && ch < 127) r += ch;
    else { snprintf(b, sizeof b, "\\x%02x", ch); r += b; }
  return r;
}

static void decodeOne(Case &c, const std::string &s)
{
  // The text in memory of its own, so that the sanitizer sees any access outside.
  std::unique_ptr<char[]> buf(new char[s.size() + 1]);
  memcpy(buf.get(), s.c_str(), s.size() + 1);
  CANFrame got, want;
  memset(&got, 0xA5, sizeof got);
  got.ext = got.rtr = c.chance(50);
  bool ok = VLCB::decodeGridConnect(buf.get(), &got);
  gc::Verdict v = gc::decode(s.c_str(), want); // up to the first NUL
  if (memcmp(buf.get(), s.c_str(), s.size() + 1)) c.fail("decode \"%s\": changes the text", printable(s).c_str());
  if (v == gc::BAD && ok) c.fail("accepted: \"%s\" is not well-formed but is decoded to %s", printable(s).c_str(), frameStr(got).c_str());
  if (v == gc::GOOD && !ok) c.fail("refused: \"%s\" is well-formed", printable(s).c_str());
  if (ok && !gc::same(got, want)) c.fail("decoded wrong: \"%s\" to %s, expected %s", printable(s).c_str(), frameStr(got).c_str(), frameStr(want).c_str());
  c.cls(v == gc::BAD ? "malformed text" : v == gc::GOOD ? "well-formed text" : "text with unused identifier bits");
}

static void run(Case &c)
{
  int n = 0;
  while (c.more(n, 6, 30))
  {
    STEP(c);
    switch (c.weighted({6, 1, 8, 3, 2}))
    {
      case 0: // there and back
      {
        CANFrame f = gc::random(c);
        c.log("frame %s", frameStr(f).c_str());
        std::unique_ptr<char[]> buf(new char[30]);
        memset(buf.get(), 'Z', 30);
        CANFrame copy = f;
        if (!VLCB::encodeGridConnect(buf.get(), &f)) c.fail("encode refuses %s", frameStr(f).c_str());
        if (memcmp(&copy, &f, sizeof f)) c.fail("encode changes the frame %s", frameStr(copy).c_str());
        std::string want = gc::encode(f);
        if (strnlen(buf.get(), 30) == 30 || want != buf.get()) c.fail("encoded wrong: %s to \"%s\", expected \"%s\"", frameStr(f).c_str(), printable(std::string(buf.get(), strnlen(buf.get(), 30))).c_str(), want.c_str());
        CANFrame back;
        memset(&back, 0x5A, sizeof back);
        back.ext = back.rtr = true;
        if (!VLCB::decodeGridConnect(buf.get(), &back) || !gc::same(f, back)) c.fail("round trip: %s becomes %s", frameStr(f).c_str(), frameStr(back).c_str());
        c.nontrivial();
        c.count("round trips");
        break;
      }
      case 1: // frames that cannot be encoded
      {
        CANFrame f = gc::random(c);
        if (c.chance(50)) f.len = c.edgy(9, 255);
        else f.id = f.ext ? c.edgy(0x20000000l, 0xFFFFFFFFl) : c.edgy(0x800, 0xFFFFFFFFl);
        c.log("bad frame, id %X ext %d len %d", f.id, f.ext, f.len);
        std::unique_ptr<char[]> buf(new char[30]);
        memset(buf.get(), 0, 30);
        if (VLCB::encodeGridConnect(buf.get(), &f)) c.fail("encodes a frame with id %X ext %d len %d as \"%s\"", f.id, f.ext, f.len, buf.get());
        break;
      }
      case 2: // well-formed text, damaged
      {
        std::string s = gc::encode(gc::random(c));
        int k = c.weighted({2, 6, 2, 1});
        static const char chars[] = "0123456789ABCDEFabcdefgGSXNRsxnr:; \t-+@`/?_\x7f\x80\xff";
        auto ch = [&] { return c.chance(85) ? chars[c.range(0, sizeof chars - 2)] : (char) c.range(1, 255); };
        for (int i = 0; i < k; ++i)
        {
          size_t pos = s.empty() ? 0 : c.range(0, s.size() - 1);
          if (c.chance(15) && s.size() > 8) pos = c.pick<size_t>({0, 1, 2, 5, 6, 7, s.size() - 1, s.size() - 2});
          switch (c.range(0, 5))
          {
            case 0: if (!s.empty()) s[pos] = ch(); break;
            case 1: s.insert(s.begin() + pos, ch()); break;
            case 2: if (!s.empty()) s.erase(pos, 1); break;
            case 3: s.resize(pos); break;
            case 4: s += ch(); break;
            case 5: s.insert(pos, s.substr(pos, c.range(1, 6))); break;
          }
        }
        c.log("\"%s\"", printable(s).c_str());
        decodeOne(c, s);
        if (k) c.nontrivial();
        break;
      }
      case 3: // text from the grammar's characters
      {
        std::string s;
        if (c.chance(90)) s += ':';
        s += c.pick({'S', 'X', 'N', 's'});
        int len = c.range(0, 34);
        for (int i = 0; i < len; ++i) s += c.weighted({20, 2, 1, 1}) == 0 ? "0123456789ABCDEF"[c.range(0, 15)] : c.pick({'N', 'R', ';', ':', 'a'});
        if (s.size() > 6 && c.chance(60)) s[s[1] == 'X' && s.size() > 10 ? 10 : 6] = c.pick({'N', 'R'});
        if (c.chance(80)) s += ';';
        c.log("\"%s\"", printable(s).c_str());
        decodeOne(c, s);
        break;
      }
      case 4: // anything
      {
        std::string s;
        int len = c.edgy(0, 60);
        for (int i = 0; i < len; ++i) s += (char) c.range(1, 255);
        c.log("\"%s\"", printable(s).c_str());
        decodeOne(c, s);
        break;
      }
    }
  }
}

// All identifiers of standard frames and all single-bit patterns of extended ones, each length.
static void exhaustive(Case &c, long index)
{
  CANFrame f;
  memset(&f, 0, sizeof f);
  f.rtr = index & 1;
  f.len = index / 2 % 9;
  index /= 18;
  f.ext = index >= 2048;
  f.id = f.ext ? (uint32_t) (1u << (index - 2048) % 29) ^ ((index - 2048) / 29 ? 0x1FFFFFFF : 0) : (uint32_t) index;
  for (int i = 0; i < 8; ++i) f.data[i] = (uint8_t) (index * 37 + i * 73 + f.len);
  char buf[30];
  if (!VLCB::encodeGridConnect(buf, &f)) c.fail("encode refuses %s", frameStr(f).c_str());
  if (gc::encode(f) != buf) c.fail("encoded wrong: %s to \"%s\", expected \"%s\"", frameStr(f).c_str(), buf, gc::encode(f).c_str());
  CANFrame back;
  if (!VLCB::decodeGridConnect(buf, &back) || !gc::same(f, back)) c.fail("round trip: %s becomes %s", frameStr(f).c_str(), frameStr(back).c_str());
  c.nontrivial();
  c.cls("enumerated frame");
}

pbt::Property pbt::property = {
  "C22", "GridConnect encoding and decoding are exact inverses and reject bad input",
  "Random frames encoded and decoded again; frames that cannot be encoded; well-formed texts with characters replaced, inserted, deleted, cut or repeated, texts from the grammar's characters and arbitrary bytes, each in heap memory of exactly its size; compared with an independent codec. Enumerated in addition: all standard identifiers and single-bit patterns of extended ones with every length and both frame types. Non-trivial: a round trip or a damaged text.",
  "exploration", 400000, 6000000, run,
  {},
  {"identifier bits that have no meaning in the text form may be refused or ignored", "the buffer for encoding has 30 bytes, as in SerialGC"},
  400, (2048 + 58) * 18, exhaustive,
};
