// Model of the table of taught events, as seen from the protocol.
#pragma once
#include "rig.hpp"

struct EvTable
{
  static constexpr int UNKNOWN = -1;       // event variable that was never taught
  struct Slot
  {
    bool used = false;
    unsigned nn = 0, en = 0;
    std::vector<int> ev;               // ev[1..numEVs]
  };
  int numEVs;
  std::vector<Slot> slots;

  EvTable(int maxEvents = 0, int numEVs = 0) : numEVs(numEVs), slots(maxEvents)
  {
    for (auto &s : slots) s.ev.assign(numEVs + 1, UNKNOWN);
  }
  int size() const { return (int) slots.size(); }
  int count() const
  {
    int n = 0;
    for (auto &s : slots) n += s.used;
    return n;
  }
  int find(unsigned nn, unsigned en) const
  {
    for (int i = 0; i < size(); ++i) if (slots[i].used && slots[i].nn == nn && slots[i].en == en) return i;
    return -1;
  }
  int findByEv1(int v) const
  {
    if (numEVs < 1) return -1;
    for (int i = 0; i < size(); ++i) if (slots[i].used && slots[i].ev[1] == v) return i;
    return -1;
  }
  int freeSlot() const
  {
    for (int i = 0; i < size(); ++i) if (!slots[i].used) return i;
    return -1;
  }
  void set(int i, unsigned nn, unsigned en)
  {
    if (!slots[i].used) slots[i].ev.assign(numEVs + 1, UNKNOWN);
    slots[i].used = true;
    slots[i].nn = nn;
    slots[i].en = en;
  }
  // Return the slot, or -error.
  int learn(unsigned nn, unsigned en, int ev, int val)
  {
    if (ev == 0 || ev > numEVs) return -K::CMDERR_INV_EV_IDX;
    int i = -1;
    if (ev == 1 && val != 0) i = findByEv1(val);
    if (i < 0) i = find(nn, en);
    if (i < 0) i = freeSlot();
    if (i < 0) return -K::CMDERR_TOO_MANY_EVENTS;
    set(i, nn, en);
    slots[i].ev[ev] = val;
    return i;
  }
  int learnAt(int i, unsigned nn, unsigned en, int ev, int val)
  {
    if (i >= size()) return -K::CMDERR_INV_EN_IDX;
    if (ev == 0 || ev > numEVs) return -K::CMDERR_INV_EV_IDX;
    set(i, nn, en);
    slots[i].ev[ev] = val;
    return i;
  }
  int unlearn(unsigned nn, unsigned en)
  {
    int i = find(nn, en);
    if (i < 0) return -K::CMDERR_INVALID_EVENT;
    slots[i].used = false;
    return i;
  }
  void clear() { for (auto &s : slots) s.used = false; }
};

inline Msgs sorted(Msgs m) { std::sort(m.begin(), m.end()); return m; }

// Reads the event variables of a slot that were never taught, so that the model knows them from now on.
inline void adopt(Node &node, EvTable &t, int i, unsigned nn, Case &c)
{
  for (int e = 1; e <= t.numEVs; ++e)
  {
    if (t.slots[i].ev[e] != EvTable::UNKNOWN) continue;
    Msg req = mk(K::REVAL, nn, {i, e});
    Msgs got = node.ask(req);
    if (got.size() != 1 || got[0].size() != 6 || !(got[0] == mk(K::NEVAL, nn, {i, e, got[0][5]})))
      c.fail("read: variable %d of event %d just stored: %s", e, i, str(got).c_str());
    t.slots[i].ev[e] = got[0][5];
  }
}
