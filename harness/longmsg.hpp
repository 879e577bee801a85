// Long messages as the protocol describes them, independent of the library.
#pragma once
#include "rig.hpp"
#include <LongMessageService.h>

typedef std::vector<uint8_t> Bytes;

enum { LM_INCOMPLETE, LM_COMPLETE, LM_SEQUENCE, LM_TIMEOUT, LM_CRC, LM_TRUNCATED };

inline const char *statusName(int s)
{
  static const char *n[] = {"INCOMPLETE", "COMPLETE", "SEQUENCE_ERROR", "TIMEOUT", "CRC_ERROR", "TRUNCATED"};
  return s >= 0 && s <= 5 ? n[s] : "?";
}

// What a handler was given.
struct Piece
{
  int stream, status;
  Bytes b;
  bool operator==(const Piece &o) const { return stream == o.stream && status == o.status && b == o.b; }
  bool operator!=(const Piece &o) const { return !(*this == o); }
  std::string str() const
  {
    std::string s = "(stream " + std::to_string(stream) + " " + statusName(status) + " " + std::to_string(b.size()) + " bytes";
    if (!b.empty()) s += " " + pbt::hex(b.data(), std::min<size_t>(b.size(), 24)) + (b.size() > 24 ? "..." : "");
    return s + ")";
  }
};

inline std::string str(const std::vector<Piece> &v)
{
  if (v.empty()) return "nothing";
  std::string s;
  for (size_t i = 0; i < v.size() && i < 6; ++i) s += v[i].str() + " ";
  if (v.size() > 6) s += "... " + std::to_string(v.size()) + " pieces";
  return s;
}

// CRC-16 with the reflected CCITT polynomial, the two bytes swapped.
inline unsigned lmCrc(const Bytes &b)
{
  unsigned crc = 0xFFFF;
  for (uint8_t x : b)
  {
    crc ^= x;
    for (int i = 0; i < 8; ++i) crc = crc & 1 ? crc >> 1 ^ 0x8408 : crc >> 1;
  }
  crc ^= 0xFFFF;
  return crc >> 8 | (crc & 0xFF) << 8;
}

inline Msg lmHeader(int stream, unsigned len, unsigned crc = 0, int flags = 0)
{
  return Msg{0xE9, stream, 0, hi(len), lo(len), hi(crc), lo(crc), flags};
}

inline unsigned lmFragments(unsigned len) { return (len + 4) / 5; }

// Fragment number i = 1...
inline Msg lmFragment(int stream, const Bytes &b, unsigned i)
{
  Msg m{0xE9, stream, (int) (i & 0xFF), 0, 0, 0, 0, 0};
  for (unsigned k = 0; k < 5; ++k)
  {
    size_t pos = (size_t) (i - 1) * 5 + k;
    if (pos < b.size()) m.d[3 + k] = b[pos];
  }
  return m;
}

// Sometimes a checksum of which one byte, or both, are 0.
inline void lmSpecialCrc(Case &c, Bytes &b)
{
  int kind = c.range(0, 2);
  if (kind == 2 && b.size() < 2) kind = 0;
  if (b.size() > 300) return;
  unsigned n = kind == 2 ? 65536 : 256;
  for (unsigned k = 0; k < n; ++k)
  {
    b.back() = k & 0xFF;
    if (kind == 2) b[b.size() - 2] = k >> 8;
    unsigned crc;
    if (kind == 2)
    {
      static thread_local Bytes head;
      static thread_local unsigned state;
      if (k == 0)
      {
        head.assign(b.begin(), b.end() - 2);
        state = lmCrc(head);
        state = (state >> 8 | (state & 0xFF) << 8) ^ 0xFFFF;
      }
      unsigned s = state;
      for (int j = 2; j >= 1; --j)
      {
        s ^= b[b.size() - j];
        for (int i = 0; i < 8; ++i) s = s & 1 ? s >> 1 ^ 0x8408 : s >> 1;
      }
      crc = s ^ 0xFFFF;
    }
    else crc = lmCrc(b);
    if (kind == 0 ? (crc & 0xFF) == 0 : kind == 1 ? crc >> 8 == 0 : crc == 0) return;
  }
}

inline Bytes lmContent(Case &c, unsigned len)
{
  Bytes b(len);
  if (len <= 24 && c.chance(50))
    for (auto &x : b) x = c.sbyte();
  else
  {
    uint32_t s = c.range(0, 100000) * 2654435761u + 12345;
    for (auto &x : b)
    {
      s = s * 1664525u + 1013904223u;
      x = s >> 24;
    }
  }
  if (len && c.chance(3)) lmSpecialCrc(c, b);
  return b;
}
