// Learn mode: who switches it, what it guards.
#include "rig.hpp"

static void run(Case &c)
{
  world.reset();
  NodeConf nc;
  nc.order = c.range(0, 3);
  nc.diag = c.chance(40);
  nc.services = c.chance(80) ? S_ALL & ~S_COE : S_MNS | S_CAN | S_TEACH;
  nc.numNVs = c.range(0, 3);
  nc.maxEvents = c.range(1, 8);
  nc.numEVs = c.range(1, 4);
  unsigned base = 10 + nc.numNVs, rec = 4 + nc.numEVs;
  RamStorage st(base + rec * nc.maxEvents);
  unsigned nn = c.pick({256, 0x1234, 1, 0xFF01, 0xFFFF});
  storeIdentity(st, K::MODE_NORMAL, 5, nn);
  int fill = c.range(0, nc.maxEvents), zero = c.range(0, 1);
  bool own = c.chance(30);
  for (int i = 0; i < fill; ++i)
  {
    uint8_t e[4] = {1, 0, 0, (uint8_t) (i + zero)};
    if (own) { e[0] = hi(nn); e[1] = lo(nn); }
    for (int k = 0; k < 4; ++k) st.mem[base + i * rec + k] = e[k];
    for (int k = 0; k < nc.numEVs; ++k) st.mem[base + i * rec + 4 + k] = i + k;
  }
  Node node(nc, &st);
  node.boot();
  node.takeFrames();
  bool learn = false;
  enum { UNINIT, NORMAL, SETUP } mode = NORMAL;
  int modes = 0;
  c.log("NN %u, %d of %d events", nn, fill, nc.maxEvents);
  auto events = [&] { return std::vector<uint8_t>(st.mem.begin() + base, st.mem.end()); };
  auto taught = [&](unsigned a, unsigned b) {
    for (int i = 0; i < nc.maxEvents; ++i)
    {
      const uint8_t *r = &st.mem[base + i * rec];
      if ((unsigned) (r[0] << 8 | r[1]) == a && (unsigned) (r[2] << 8 | r[3]) == b) return true;
    }
    return false;
  };
  auto other = [&]() -> unsigned {
    unsigned o = c.chance(50) ? nn ^ (1u << c.range(0, 15)) : c.range(1, 65535);
    return o == nn ? nn ^ 1 : o;
  };
  int n = 0, guarded = 0, effective = 0, switches = 0, restarts = 0;
  while (c.more(n, 25, 120))
  {
    STEP(c);
    bool was = learn;
    auto before = events();
    Msg m;
    bool teach = false, mustWork = false;
    unsigned tn = c.pick({256u, 512u, 0u, nn}), te = c.range(0, 10);
    switch (c.weighted({5, 4, 3, 3, 3, 12, 6, 3, 4, 4, 4, 1, 2, 1, 2}))
    {
      case 0: m = mk(K::NNLRN, nn); learn = true; break;
      case 1: m = mk(K::NNULN, nn); learn = false; break;
      case 2: m = mk(K::NNLRN, other()); learn = false; break;
      case 3: m = mk(K::MODE, nn, {K::MODE_LEARN_ON}); learn = true; break;
      case 4: m = mk(K::MODE, nn, {K::MODE_LEARN_OFF}); learn = false; break;
      case 5: m = mkev(K::EVLRN, tn, te, {(int) c.range(1, nc.numEVs), c.u8()}); teach = true; break;
      case 6: m = mkev(K::EVLRNI, tn, te, {(int) c.range(0, nc.maxEvents - 1), (int) c.range(1, nc.numEVs), c.u8()}); teach = true; mustWork = true; break;
      case 7: m = mk(K::NNCLR, nn); teach = true; break;
      case 8: m = mkev(K::EVULN, tn, te); teach = true; break;
      case 9: // for other nodes: no effect
        m = mk(c.pick({(int) K::NNULN, (int) K::MODE, (int) K::NNCLR, (int) K::MODE}), other());
        if (m.op() == K::MODE) m.d.push_back(c.pick({K::MODE_LEARN_ON, K::MODE_LEARN_OFF}));
        break;
      case 10: // anything else
      {
        static const std::set<int> own{K::NNLRN, K::NNULN, K::NNRSM, K::NNRST, K::SNN, K::RQNN, K::EVLRN, K::EVULN, K::EVLRNI, K::NNCLR};
        int op = c.chance(50) ? c.u8() : c.pick({(int) K::QNN, (int) K::RQEVN, (int) K::NERD, (int) K::ACON, (int) K::ASOF, (int) K::NNEVN, (int) K::NVRD, (int) K::MODE, (int) K::REQEV, (int) K::WRACK});
        if (own.count(op)) op = K::MODE;
        m = mk(op, c.chance(80) ? nn : other());
        while (m.size() < 8) m.d.push_back(c.chance(50) ? c.range(0, 4) : c.sbyte());
        if (op == K::MODE)
          while (m[3] == K::MODE_UNINITIALISED || m[3] == K::MODE_SETUP || m[3] == K::MODE_LEARN_ON || m[3] == K::MODE_LEARN_OFF) m.d[3] = c.u8() | 2;
        m.d.resize(op == K::MODE || c.chance(80) ? 1 + (op >> 5) : c.range(op == K::MODE ? 4 : 1, 8));
        break;
      }
      case 11:
        c.log("%s", "restart");
        node.boot();
        learn = false;
        mode = nn ? NORMAL : UNINIT;
        ++restarts;
        break;
      case 13:
        // Software reset.
        m = mk(K::NNRST, c.chance(60) ? nn : other());
        if (m.nn() == nn) { learn = false; mode = nn ? NORMAL : UNINIT; ++restarts; }
        break;
      case 14:
        // Changes of the mode of operation leave learn mode alone.
        ++modes;
        switch (c.range(0, 3))
        {
          case 0:
            m = mk(K::MODE, nn, {K::MODE_SETUP});
            if (mode == NORMAL) mode = SETUP;
            break;
          case 1:
          {
            unsigned to = c.chance(50) && nn ? nn : c.range(1, 65535);
            m = mk(K::SNN, to);
            if (mode == SETUP) { mode = NORMAL; nn = to; }
            break;
          }
          case 2:
            m = mk(K::RQNN, other());
            if (mode == SETUP) mode = nn ? NORMAL : UNINIT;
            break;
          case 3:
            c.log("%s", "button: change mode");
            node.controller->putAction(VLCB::ACT_CHANGE_MODE);
            node.pump();
            if (mode == UNINIT) mode = SETUP;
            else { mode = UNINIT; nn = 0; }
            break;
        }
        break;
      case 12:
      {
        unsigned long dt = c.range(1, 20000);
        c.log("%lu ms", dt);
        node.advance(dt, dt / 5 + 1);
        break;
      }
    }
    node.takeFrames();
    Msgs got;
    if (teach && c.chance(5))
      while (m.size() < 8 && c.chance(70)) m.d.push_back(c.sbyte()); // longer than it needs to be
    if (!m.d.empty())
    {
      c.log("%s", m.str().c_str());
      got = node.ask(m, 120);
    }
    if (!st.problems.empty()) c.fail("storage: %s", st.problems[0].c_str());
    auto after = events();
    if (teach && !was)
    {
      ++guarded;
      if (after != before) c.fail("unguarded: %s outside learn mode changes the event table", m.str().c_str());
    }
    if (!teach && after != before) c.fail("unguarded: the event table changes without a teaching message (%s)", m.str().c_str());
    if (teach && was)
    {
      bool refused = false;
      for (auto &r : got) refused |= r.op() == K::CMDERR || isGrspError(r);
      if (mustWork && (refused || !taught(tn, te))) c.fail("learn mode: %s in learn mode gets %s and is not stored", m.str().c_str(), str(got).c_str());
      if (m.op() == K::EVLRN && !refused && !taught(tn, te)) c.fail("learn mode: %s accepted but not stored", m.str().c_str());
      if (m.op() == K::EVULN && !refused && after == before) c.fail("learn mode: %s accepted but nothing deleted", m.str().c_str());
      if (m.op() == K::NNCLR)
        for (int i = 0; i < nc.maxEvents; ++i)
          for (int k = 0; k < 4; ++k)
            if (after[i * rec + k] != 0xFF) c.fail("learn mode: event %d is left after NNCLR", i);
      ++effective;
    }
    if (learn != was) ++switches;
    bool flag = node.controller->getParam(K::PAR_FLAGS) & K::PF_LRN;
    if (flag != learn) c.fail("learn flag: %d after %s, expected %d", flag, m.d.empty() ? "a restart or time" : m.str().c_str(), learn);
    if (c.chance(30))
    {
      got = node.ask(mk(K::RQNPN, nn, {K::PAR_FLAGS}), 120);
      if (got.size() != 1 || got[0].op() != K::PARAN || !(got[0][4] & K::PF_LRN) != !learn) c.fail("learn flag: RQNPN gets %s, learn mode is %d", str(got).c_str(), learn);
    }
  }
  if (restarts) c.cls("restart");
  if (modes) c.cls("mode of operation changed");
  if (guarded) c.cls("teaching outside learn mode");
  if (effective) c.cls("teaching in learn mode");
  c.nontrivial(switches >= 2 && guarded && effective);
}

pbt::Property pbt::property = {
  "C14", "Events can only be taught in learn mode, which only this node's commands set",
  "Random sequences of learn mode commands for this and other nodes, teaching messages, any other messages, changes of the mode of operation, time and restarts; the learn flag is compared with a model after each step, and the event table in storage must not change outside learn mode or by any other message. Non-trivial: learn mode switched twice and teaching both inside and outside it.",
  "exploration", 200000, 2500000, run,
  {},
  {"MODE messages have their full length"},
};
