// Independent GridConnect codec.
#pragma once
#include "rig.hpp"

namespace gc
{
inline std::string encode(const CANFrame &f)
{
  static const char *H = "0123456789ABCDEF";
  std::string s = ":";
  auto byte = [&](unsigned b) { s += H[(b >> 4) & 15]; s += H[b & 15]; };
  if (f.ext)
  {
    s += 'X';
    byte(f.id >> 21);
    byte((f.id >> 18 & 7) << 5 | (f.id >> 16 & 3));
    byte(f.id >> 8);
    byte(f.id);
  }
  else
  {
    s += 'S';
    byte(f.id >> 3);
    byte((f.id & 7) << 5);
  }
  s += f.rtr ? 'R' : 'N';
  for (int i = 0; i < f.len; ++i) byte(f.data[i]);
  return s + ";";
}

enum Verdict { BAD, GOOD, UNUSED_BITS };   // UNUSED_BITS: identifier bits that have no meaning are set

inline int hexDigit(char c)
{
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'A' && c <= 'F') return c - 'A' + 10;
  return -1;
}

inline Verdict decode(const std::string &s, CANFrame &f)
{
  memset(&f, 0, sizeof f);
  if (s.size() < 2 || s[0] != ':' || (s[1] != 'S' && s[1] != 'X')) return BAD;
  size_t idLen = s[1] == 'S' ? 4 : 8;
  if (s.size() < 2 + idLen + 2) return BAD;
  uint32_t raw = 0;
  for (size_t i = 0; i < idLen; ++i)
  {
    int h = hexDigit(s[2 + i]);
    if (h < 0) return BAD;
    raw = raw << 4 | h;
  }
  bool odd = false;
  if (s[1] == 'S')
  {
    f.id = raw >> 5;
    odd = raw & 0x1F;
  }
  else
  {
    f.ext = true;
    f.id = (raw >> 24) << 21 | (raw >> 21 & 7) << 18 | (raw >> 16 & 3) << 16 | (raw & 0xFFFF);
    odd = raw & 0x001C0000;
  }
  size_t p = 2 + idLen;
  if (s[p] == 'R') f.rtr = true;
  else if (s[p] != 'N') return BAD;
  ++p;
  if (s.back() != ';') return BAD;
  size_t digits = s.size() - 1 - p;
  if (digits % 2 || digits > 16) return BAD;
  f.len = digits / 2;
  for (int i = 0; i < f.len; ++i)
  {
    int a = hexDigit(s[p + 2 * i]), b = hexDigit(s[p + 2 * i + 1]);
    if (a < 0 || b < 0) return BAD;
    f.data[i] = a << 4 | b;
  }
  return odd ? UNUSED_BITS : GOOD;
}

inline bool same(const CANFrame &a, const CANFrame &b)
{
  return a.id == b.id && a.ext == b.ext && a.rtr == b.rtr && a.len == b.len && memcmp(a.data, b.data, a.len) == 0;
}

inline CANFrame random(Case &c)
{
  CANFrame f;
  memset(&f, 0, sizeof f);
  f.ext = c.chance(40);
  f.rtr = c.chance(25);
  f.id = c.chance(50) ? c.edgy(0, f.ext ? 0x1FFFFFFF : 0x7FF) : f.ext ? 1u << c.range(0, 28) : 1u << c.range(0, 10);
  f.len = c.edgy(0, 8);
  for (int i = 0; i < f.len; ++i) f.data[i] = c.sbyte();
  return f;
}
}
