// CANID self-enumeration: triggers, window, choice of a free id, persistence, acknowledgement.
#include "rig.hpp"

static void run(Case &c)
{
  world.reset();
  if (c.chance(25)) world.ms = (unsigned long) -1 - (unsigned long) c.range(0, 400); // the clock wraps
  else world.ms = c.range(0, 10000);
  unsigned canid = c.edgy(1, 127);
  unsigned nn = c.edgy(1, 65535);
  RamStorage st(512);
  bool normal = c.chance(70);
  storeIdentity(st, normal ? K::MODE_NORMAL : K::MODE_UNINITIALISED, normal ? canid : 0, normal ? nn : 0);
  if (!normal) { canid = 0; nn = 0; }
  NodeConf nc;
  nc.services = S_CAN | S_MNS | (c.chance(30) ? S_ALL : 0);
  nc.order = c.range(0, 3);
  Node node(nc, &st);
  node.pad = &c;
  node.boot();
  node.takeFrames();
  c.log("start: %s, CANID %u, NN %u", normal ? "normal" : "uninitialised", canid, nn);

  bool enumerating = false, fromEnum = false;
  unsigned long started = 0;
  std::set<unsigned> seen;
  bool setup = false;
  int rounds = 0, withAnswers = 0;

  auto expectFrames = [&](unsigned rtr, unsigned empties, unsigned nnack, unsigned id) {
    unsigned r = 0, e = 0, a = 0;
    for (auto &f : node.takeFrames())
    {
      if (f.rtr) ++r;
      else if (f.len == 0) ++e;
      else if (f.data[0] == K::NNACK)
      {
        ++a;
        if (f.len != 3 || (unsigned) (f.data[1] << 8 | f.data[2]) != nn) c.fail("nnack: acknowledgement %s, node number is %u", frameStr(f).c_str(), nn);
      }
      if ((f.id & 0x7F) != id && f.data[0] != K::NNACK) c.fail("frame: sent with CANID %u, this node's is %u", f.id & 0x7F, id);
      if (f.data[0] == K::NNACK && (f.id & 0x7F) != id) c.fail("frame: acknowledgement sent with CANID %u, this node's is %u", f.id & 0x7F, id);
    }
    if (r != rtr) c.fail("rtr: %u RTR frames sent, expected %u", r, rtr);
    if (e != empties) c.fail("answer: %u empty frames sent, expected %u", e, empties);
    if (a != nnack) c.fail("nnack: %u NNACK sent, expected %u", a, nnack);
  };
  auto checkId = [&] {
    if (node.config->CANID != canid) c.fail("canid: in use %u, expected %u", node.config->CANID, canid);
    if (st.read(VLCB::LOCATION_CANID) != canid) c.fail("canid: stored %u, expected %u", st.read(VLCB::LOCATION_CANID), canid);
  };
  auto trigger = [&](bool byEnum) {
    unsigned rtr = 0;
    if (!enumerating)
    {
      enumerating = true;
      fromEnum = byEnum;
      started = world.ms;
      seen.clear();
      rtr = 1;
      ++rounds;
    }
    return rtr;
  };

  int n = 0;
  while (c.more(n, 25, 120))
  {
    STEP(c);
    int kind = c.weighted({6, 2, 2, 2, 3, 5, 1, 2});
    switch (kind)
    {
      case 0:
      {
        int k = c.weighted({5, 2, 1, 1});
        unsigned a, b, gap = 0;
        if (k == 0) a = b = c.chance(60) ? c.range(0, 20) : c.range(0, 127);
        else if (k == 1) { a = 1; b = c.range(1, 40); }
        else if (k == 2) { a = c.range(1, 3); b = c.range(100, 127); }
        else { a = 1; b = 127; gap = c.chance(50) ? c.range(0, 15) * 8 + c.pick<int>({0, 0, 7}) : c.range(1, 127); }
        c.log("empty frames from CANID %u..%u", a, b);
        if (gap) c.log("but not from %u", gap);
        unsigned prio = c.chance(75) ? 0xB : c.range(0, 15);
        if (prio != 0xB) c.log("with priority %u", prio);
        for (unsigned i = a; i <= b; ++i)
        {
          if (i == gap) continue;
          node.can->rx.push_back(emptyFrame(i, prio));
          node.pump();
          if (enumerating && i > 0) { seen.insert(i); }
        }
        if (enumerating) ++withAnswers;
        expectFrames(0, 0, 0, canid);
        break;
      }
      case 1:
      {
        Msg m{c.pick({(int) K::ACON, (int) K::WRACK, (int) K::QLOC}), 1, 2, 3, 4};
        m.d.resize(c.range(1, 5));
        m.d[0] = K::NNULN; // harmless
        if (m.d.size() > 1) m.d[1] = hi(nn + 1);
        if (m.d.size() > 2) m.d[2] = lo(nn + 1);
        c.log("frame with data from this node's CANID %u", canid);
        node.post(m, canid);
        node.pump();
        expectFrames(trigger(false), 0, 0, canid);
        break;
      }
      case 2:
      {
        bool mine = c.chance(60);
        unsigned to = mine ? nn : (nn + c.range(1, 65535)) & 0xFFFF;
        c.log("ENUM to NN %u%s", to, mine ? " (this node)" : "");
        unsigned from = (canid + c.range(1, 126)) & 0x7F;
        if (from == canid) from = (canid + 1) & 0x7F;
        node.post(mk(K::ENUM, to), from);
        node.pump();
        expectFrames(mine ? trigger(true) : 0, 0, 0, canid);
        break;
      }
      case 3:
        c.log("button: enumerate");
        node.controller->putAction(VLCB::Action{VLCB::ACT_START_CAN_ENUMERATION, {}});
        node.pump();
        expectFrames(trigger(false), 0, 0, canid);
        break;
      case 4:
      {
        unsigned from = c.range(0, 127);
        if (from == canid) from = (from + 1) & 0x7F;
        if (c.chance(50))
        {
          c.log("RTR from CANID %u", from);
          node.can->rx.push_back(rtrFrame(from, c.chance(75) ? 0xB : c.range(0, 15)));
          node.pump();
          expectFrames(0, 1, 0, canid);
        }
        else
        {
          c.log("frame with data from CANID %u", from);
          node.post(mk(K::NNULN, (nn + 1) & 0xFFFF), from);
          node.pump();
          expectFrames(0, 0, 0, canid);
        }
        break;
      }
      case 5:
      {
        unsigned long dt = c.weighted({3, 3, 1}) == 1 ? c.range(95, 105) : c.chance(6) ? c.edgy(200, 100000) : c.range(1, 60);
        c.log("%lu ms", dt);
        world.ms += dt;
        node.pump();
        unsigned ack = 0;
        if (enumerating && world.ms - started >= 100)
        {
          enumerating = false;
          unsigned id = 1;
          while (seen.count(id)) ++id;
          if (id <= 127) canid = id;
          else
          {
            canid = node.config->CANID; // nothing is free: any choice
            if (canid > 127) c.fail("canid: %u is not a CANID", canid);
            c.cls("no free CANID");
          }
          ack = fromEnum;
          c.log("enumeration ends, CANID %u", canid);
          c.cls(fromEnum ? "enumeration by ENUM completed" : "enumeration completed");
          if (seen.size() > 1) c.cls("with several answers");
        }
        expectFrames(0, 0, ack, canid);
        break;
      }
      case 6:
        if (enumerating) break;
        c.log("restart");
        node.boot();
        node.takeFrames();
        setup = false;
        break;
      case 7:
        if (normal || setup || enumerating) break;
        c.log("button: set-up");
        node.controller->putAction(VLCB::ACT_CHANGE_MODE);
        node.pump();
        setup = true;
        expectFrames(trigger(false), 0, 0, canid);
        c.cls("enumeration on entering setup");
        break;
    }
    checkId();
  }
  c.nontrivial(rounds >= 1 && withAnswers >= 1);
}

pbt::Property pbt::property = {
  "C03", "CANID self-enumeration finds the lowest free id and keeps it",
  "Random sequences of triggers (own CANID seen on a data frame, ENUM for this or another node, button, entry to setup), answers from any set of CANIDs, other traffic, time steps around the 100 ms window (also across the wrap of millis()) and restarts, compared after each step with a model. Non-trivial: an enumeration ran and got answers.",
  "exploration", 350000, 6000000, run,
  {},
  {"each step's frames are processed before the clock moves on"},
};
