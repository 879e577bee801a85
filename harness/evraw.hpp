// The stored event table as it lies in storage: the records are the truth the library's lookups are compared with.
#pragma once
#include "rig.hpp"

struct RawEvents
{
  RamStorage &st;
  unsigned base;
  int max, numEVs;
  unsigned rec() const { return 4 + numEVs; }
  const uint8_t *at(int i) const { return &st.mem[base + i * rec()]; }
  unsigned nn(int i) const { return at(i)[0] << 8 | at(i)[1]; }
  unsigned en(int i) const { return at(i)[2] << 8 | at(i)[3]; }
  bool used(int i) const { return nn(i) != 0xFFFF || en(i) != 0xFFFF; }
  int ev(int i, int k) const { return at(i)[3 + k]; }
  int count() const
  {
    int n = 0;
    for (int i = 0; i < max; ++i) n += used(i);
    return n;
  }
  std::vector<int> find(unsigned n, unsigned e) const
  {
    std::vector<int> v;
    for (int i = 0; i < max; ++i) if (used(i) && nn(i) == n && en(i) == e) v.push_back(i);
    return v;
  }
  std::vector<int> findEv1(int val) const
  {
    std::vector<int> v;
    for (int i = 0; i < max; ++i) if (used(i) && ev(i, 1) == val) v.push_back(i);
    return v;
  }
  void put(int i, unsigned n, unsigned e, std::initializer_list<int> evs = {})
  {
    uint8_t *p = &st.mem[base + i * rec()];
    p[0] = hi(n); p[1] = lo(n); p[2] = hi(e); p[3] = lo(e);
    int k = 0;
    for (int v : evs) if (k < numEVs) p[4 + k++] = v;
  }
  std::vector<uint8_t> bytes() const { return std::vector<uint8_t>(st.mem.begin() + base, st.mem.begin() + base + max * rec()); }
  std::string rowStr(int i) const
  {
    return std::to_string(i) + ":" + std::to_string(nn(i)) + "/" + std::to_string(en(i));
  }
};

inline bool has(const std::vector<int> &v, int x)
{
  for (int y : v) if (x == y) return true;
  return false;
}
