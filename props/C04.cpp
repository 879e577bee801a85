// Setting the CANID by OPC_CANID.
#include "rig.hpp"

static void run(Case &c)
{
  world.reset();
  unsigned canid = c.edgy(1, 127);
  unsigned nn = c.edgy(1, 65535);
  RamStorage st(512);
  storeIdentity(st, K::MODE_NORMAL, canid, nn);
  NodeConf nc;
  nc.services = S_CAN | S_MNS | (c.chance(50) ? S_ALL : 0);
  nc.order = c.range(0, 3);
  nc.diag = c.chance(50);
  Node node(nc, &st);
  node.pad = &c;
  node.boot();
  c.log("CANID %u NN %u", canid, nn);
  int n = 0, good = 0, bad = 0;
  while (c.more(n, 12, 60))
  {
    STEP(c);
    node.takeFrames();
    switch (c.weighted({20, 6, 4, 4, 3, 2}))
    {
      case 0:
      {
        int id = c.weighted({3, 1, 1}) == 0 ? c.edgy(1, 99) : c.pick({0, 100, 127, 128, 129, 199, 227, 255, 1, 99});
        if (c.chance(10)) id = c.u8();
        c.log("set CANID %d", id);
        unsigned from = (canid + 1) & 0x7F;
        Msgs r = node.ask(mk(K::CANID, nn, {id}), from);
        std::sort(r.begin(), r.end());
        Msgs want;
        if (id >= 1 && id <= 99)
        {
          canid = id;
          want = {mk(K::WRACK, nn), mk(K::GRSP, nn, {K::CANID, K::SERVICE_ID_CAN, K::GRSP_OK})};
          ++good;
        }
        else
        {
          want = {mk(K::CMDERR, nn, {K::CMDERR_INV_EN_IDX}), mk(K::GRSP, nn, {K::CANID, K::SERVICE_ID_CAN, K::CMDERR_INV_EN_IDX})};
          ++bad;
        }
        std::sort(want.begin(), want.end());
        if (r != want) c.fail("response: to setting CANID %d is %s, expected %s", id, str(r).c_str(), str(want).c_str());
        break;
      }
      case 1:
      {
        unsigned other = (nn + c.range(1, 65535)) & 0xFFFF;
        int id = c.range(1, 99);
        c.log("set CANID %d of NN %u", id, other);
        Msgs r = node.ask(mk(K::CANID, other, {id}), (canid + 1) & 0x7F);
        if (!r.empty()) c.fail("other: response %s to a message for another node", str(r).c_str());
        break;
      }
      case 2:
        c.log("restart");
        node.boot();
        break;
      case 3:
      {
        c.log("ask for the CANID in use");
        node.takeFrames();
        node.can->rx.push_back(rtrFrame((canid + 1) & 0x7F));
        node.post(mk(K::QNN, 0), (canid + 1) & 0x7F);
        node.pump();
        auto fs = node.takeFrames();
        if (fs.size() != 2) c.fail("answers: %zu frames, expected 2", fs.size());
        for (auto &f : fs) if ((f.id & 0x7F) != canid) c.fail("frame: sent with CANID %u, this node's is %u", f.id & 0x7F, canid);
        break;
      }
      case 4:
      {
        // While an enumeration is running: at once, until the enumeration finds an id.
        c.log("enumeration");
        node.controller->putAction(VLCB::ACT_START_CAN_ENUMERATION);
        node.pump();
        std::set<unsigned> seen;
        int k = c.range(0, 5);
        for (int i = 0; i < k; ++i)
        {
          unsigned a = c.range(1, 6);
          seen.insert(a);
          node.can->rx.push_back(emptyFrame(a));
          node.pump();
        }
        node.advance(c.range(0, 90));
        int id = c.edgy(1, 99);
        c.log("set CANID %d", id);
        node.ask(mk(K::CANID, nn, {id}), (canid + 1) & 0x7F);
        if (node.config->CANID != id || st.read(VLCB::LOCATION_CANID) != id) c.fail("canid: in use %u, stored %u, expected %d during an enumeration", node.config->CANID, st.read(VLCB::LOCATION_CANID), id);
        node.advance(200);
        canid = 1;
        while (seen.count(canid)) ++canid;
        break;
      }
      case 5:
      {
        // Without an id: must not be taken for one.
        Msg m = mk(K::CANID, nn);
        c.log("set CANID without an id");
        Msgs r = node.ask(m, (canid + 1) & 0x7F);
        for (auto &x : r)
          if ((x.op() != K::CMDERR && x.op() != K::GRSP) || (x.op() == K::GRSP && x.d.back() == K::GRSP_OK))
            c.fail("short: response %s to setting no CANID", str(r).c_str());
        if (r.empty()) c.fail("short: no error for a message without an id");
        ++bad;
        break;
      }
    }
    if (node.config->CANID != canid) c.fail("canid: in use %u, expected %u", node.config->CANID, canid);
    if (st.read(VLCB::LOCATION_CANID) != canid) c.fail("canid: stored %u, expected %u", st.read(VLCB::LOCATION_CANID), canid);
  }
  c.nontrivial(good && bad);
}

static void probeAll(Case &c)
{
  for (int id = 0; id < 256; ++id)
  {
    world.reset();
    RamStorage st(512);
    storeIdentity(st, K::MODE_NORMAL, 120, 260);
    Node node(NodeConf(), &st);
    node.boot();
    node.ask(mk(K::CANID, 260, {id}));
    int want = id >= 1 && id <= 99 ? id : 120;
    if (node.config->CANID != want) c.fail("canid: %u in use after setting %d, expected %d", node.config->CANID, id, want);
    node.boot();
    if (node.config->CANID != want) c.fail("canid: %u in use after setting %d and restart, expected %d", node.config->CANID, id, want);
  }
}

pbt::Property pbt::property = {
  "C04", "A CANID set by message is validated, used and kept",
  "Random sequences of OPC_CANID for this and other nodes with ids in and out of 1..99, restarts and checks of the identifier of sent frames, against a model; plus all 256 ids once. Non-trivial: at least one accepted and one refused id.",
  "exploration", 300000, 6000000, run,
  {{"all-ids", "every id 0..255 once", probeAll}},
  {},
};
