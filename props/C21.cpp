// Heartbeats.
#include "rig.hpp"
#include <climits>

static void run(Case &c)
{
  world.reset();
  switch (c.weighted({4, 3, 2, 2}))
  {
    case 0: world.ms = c.range(0, 20000); break;
    case 1: world.ms = ULONG_MAX - (unsigned long) c.range(0, 200000); break;
    case 2: world.ms = 0xFFFFFFFFul - (unsigned long) c.range(0, 200000); break;
    case 3: world.ms = (unsigned long) c.edgy(0, LONG_MAX); break;
  }
  NodeConf nc;
  nc.order = c.range(0, 3);
  nc.diag = c.chance(30);
  nc.services = c.chance(50) ? S_ALL & ~S_COE : S_MNS | S_CAN;
  RamStorage st;
  unsigned nn = c.pick<unsigned>({256, 0x1234, 1, 0xFE01, 0x00FF, 0xFFFF});
  bool enabled = c.chance(75), stored = enabled;
  enum { UNINIT, SETUP, NORMAL } mode = c.chance(85) ? NORMAL : UNINIT, before = mode;
  if (mode == NORMAL) storeIdentity(st, K::MODE_NORMAL, 5, nn, enabled);
  else storeIdentity(st, K::MODE_UNINITIALISED, 5, 0, enabled);
  // other flags must not matter
  if (c.chance(20)) st.mem[4] |= c.pick({2, 0xFE});
  c.log("start at %lu, NN %u, mode %d, enabled %d", world.ms, nn, mode, enabled);
  Node node(nc, &st);
  node.pad = &c;
  bool known = false;          // has there been a heartbeat since the start?
  unsigned long last = 0, activeFor = 0, lastMs = world.ms;
  int seq = -1, beats = 0;
  bool active = mode == NORMAL && enabled;
  Msgs other;
  // Look at what was sent now, at one point of time.
  auto look = [&](const char *what, bool mayChange = false) {
    Msgs got = node.takeMsgs(true);
    int nb = 0;
    other.clear();
    for (auto &m : got)
    {
      if (m.op() != K::HEARTB) { other.push_back(m); continue; }
      ++nb;
      if (!active && !mayChange) c.fail("%s: heartbeat %s, mode %d, enabled %d", what, m.str().c_str(), mode, enabled);
      if (m.size() != 6 || m.nn() != nn) c.fail("%s: heartbeat %s, node number is %u", what, m.str().c_str(), nn);
      if (seq >= 0 && m[3] != ((seq + 1) & 0xFF)) c.fail("%s: sequence number %d after %d", what, m[3], seq);
      seq = m[3];
    }
    unsigned long el = world.ms - last;
    if (nb > 1) c.fail("%s: %d heartbeats at a time", what, nb);
    if (nb && known && el < 5000) c.fail("%s: heartbeat %lu ms after the last one", what, el);
    if (!nb && active && !mayChange)
    {
      if (known && el > 5000) c.fail("%s: no heartbeat %lu ms after the last one", what, el);
      if (!known && activeFor > 5000) c.fail("%s: no heartbeat in the first %lu ms", what, activeFor);
    }
    if (nb) { known = true; last = world.ms; ++beats; }
  };
  auto settle = [&](bool nowActive) {
    if (!nowActive || !active) activeFor = 0;
    active = nowActive;
  };
  (void) lastMs;
  node.boot();
  look("start");
  int n = 0, changes = 0, restarts = 0, many = 0;
  while (c.more(n, 20, 120))
  {
    STEP(c);
    int what = c.weighted({16, 3, 2, 2, 2, 2, 1, 1, 1});
    switch (what)
    {
      case 0: // time
      {
        int times = c.chance(97) ? 1 : c.range(250, 300);
        if (times > 1) ++many;
        unsigned long d = c.pick<unsigned long>({1, 1000, 4999, 5000, 5001, 2500, 5002, 10000, 70000});
        if (c.chance(40)) d = c.range(1, 12000);
        c.log("%d times %lu ms", times, d);
        for (int i = 0; i < times; ++i)
        {
          world.ms += d;
          if (active) activeFor += d;
          node.pump();
          look("time");
        }
        break;
      }
      case 1: // heartbeat command
      case 2: // for another node
      {
        bool on = c.chance(50);
        unsigned a = what == 1 ? nn : nn ^ (1u << c.range(0, 15));
        if (a == 0 || mode == UNINIT) break;
        if (what == 1 && mode == SETUP) break;
        c.log("MODE heartbeat %d for %u", on, a);
        if (what == 1) { enabled = stored = on; ++changes; }
        bool was = active;
        settle(mode == NORMAL && enabled);
        node.post(mk(K::MODE, a, {on ? K::MODE_HEARTBEAT_ON : K::MODE_HEARTBEAT_OFF}), 120);
        node.pump();
        look("heartbeat command", was != active);
        break;
      }
      case 3: // setup and back
      {
        if (mode == UNINIT)
        {
          node.controller->putAction(VLCB::ACT_CHANGE_MODE);
          before = UNINIT;
          mode = SETUP;
        }
        else if (mode == NORMAL)
        {
          node.controller->putAction(VLCB::ACT_RENEGOTIATE);
          before = NORMAL;
          mode = SETUP;
        }
        else if (before == NORMAL && c.chance(40))
        {
          node.controller->putAction(VLCB::ACT_RENEGOTIATE);
          mode = NORMAL;
        }
        else
        {
          unsigned x = c.pick<unsigned>({256, 0x1234, 1, 0xFE01, 0x00FF});
          node.post(mk(K::SNN, x), 120);
          nn = x;
          mode = NORMAL;
        }
        c.log("mode %d, NN %u", mode, nn);
        settle(mode == NORMAL && enabled);
        node.pump();
        look("mode change", true);
        break;
      }
      case 4: // other traffic
      {
        if (mode != NORMAL) break;
        Msg m;
        if (c.chance(50))
        {
          m = mk(c.pick<int>({K::QNN, K::RQNPN, K::MODE, K::MODE, K::HEARTB, K::NNLRN, K::NNULN}), nn, {c.pick<int>({1, 7, K::MODE_NORMAL, K::MODE_LEARN_ON, K::MODE_EVENT_ACK_ON, K::MODE_EVENT_ACK_OFF})});
          if (m.op() == K::HEARTB) m = mk(K::HEARTB, 300, {c.u8(), 0, 0});
        }
        else
        {
          // Commands that mean nothing here, or that are for or from another node
          unsigned a = c.chance(40) ? nn : c.chance(50) ? nn ^ (1u << c.range(0, 15)) : (unsigned) c.edgy(0, 65535);
          switch (c.range(0, 5))
          {
            case 0: m = mk(K::SNN, a); break;
            case 1: m = Msg{c.pick<int>({K::RQNP, K::RQMN})}; break;
            case 2: m = mk(c.pick<int>({K::RQNN, K::NNACK, K::NNREL, K::PNN, K::RQSD, K::NVRD, K::NERD, K::RQEVN, K::RDGN}), a, {(int) c.range(0, 3), (int) c.range(0, 3)}); break;
            case 3: m = mkev(c.chance(50) ? K::ACON : K::ASOF, a, c.range(0, 3)); break;
            case 4:
              // for another node: reset, restart, another mode
              if (a == nn) a ^= 1;
              m = mk(c.pick<int>({K::MODE, K::MODE, K::NNRSM, K::NNRST}), a, {c.pick<int>({K::MODE_UNINITIALISED, K::MODE_SETUP, K::MODE_HEARTBEAT_OFF, K::MODE_HEARTBEAT_ON, 0x0F})});
              break;
            case 5: m = Msg{K::MODE, hi(nn), lo(nn)}; break;
          }
        }
        c.log("%s", m.str().c_str());
        node.post(m, 120);
        node.pump();
        look("traffic");
        break;
      }
      case 5: // nothing
        node.pump();
        look("pass");
        break;
      case 6:
        c.log("%s", "restart");
        if (mode == SETUP) mode = before;
        enabled = stored;
        known = false;
        seq = -1;
        settle(false);
        settle(mode == NORMAL && enabled);
        node.boot();
        look("restart");
        ++restarts;
        break;
      case 7: // to uninitialised
        if (mode != NORMAL) break;
        c.log("%s", "to uninitialised");
        mode = UNINIT;
        settle(false);
        node.controller->putAction(VLCB::ACT_CHANGE_MODE);
        node.pump();
        look("to uninitialised", true);
        break;
      case 8: // the application's own switch, not stored
      {
        bool on = c.chance(50);
        c.log("setHeartBeat(%d)", on);
        enabled = on;
        bool was = active;
        settle(mode == NORMAL && enabled);
        node.mns->setHeartBeat(on);
        node.pump();
        look("setHeartBeat", was != active);
        break;
      }
    }
    if (!!(st.mem[4] & 1) != stored) c.fail("the stored setting is %d, expected %d", st.mem[4] & 1, stored);
  }
  if (restarts) c.cls("restart");
  if (changes) c.cls("setting changed");
  if (many) c.cls("more than 250 periods");
  c.count("heartbeats", beats);
  c.nontrivial(beats >= 3);
}

pbt::Property pbt::property = {
  "C21", "Heartbeats come every five seconds when and only when enabled",
  "Random time steps from random start times including both sides of the wraps of 32 and 64 bit clocks, mode changes, heartbeat commands for this and other nodes, other traffic and restarts; each pass of the main loop is checked for the heartbeat that has to come or must not come then, its node number and sequence number. Non-trivial: at least three heartbeats.",
  "exploration", 150000, 2500000, run,
  {},
  {"the first heartbeat after start may come at any time within five seconds", "a period of exactly 5000 ms may be counted as elapsed or not"},
};
