// Node parameters and service discovery.
#include "rig.hpp"
#include <LongMessageService.h>

struct OtherService : VLCB::Service
{
  int id, version;
  OtherService(int id, int version) : id(id), version(version) {}
  VlcbServiceTypes getServiceID() const override { return (VlcbServiceTypes) id; }
  byte getServiceVersionID() const override { return version; }
  void process(const VLCB::Action *) override {}
};

static void run(Case &c)
{
  world.reset();
  NodeConf nc;
  nc.order = c.range(0, 3);
  nc.earlyConfig = c.chance(30);
  nc.diag = c.chance(50);
  nc.services = S_MNS | S_CAN;
  for (unsigned s : {S_NV, S_CONS, S_PROD, S_TEACH, S_COE}) if (c.chance(60)) nc.services |= s;
  if (c.chance(30)) nc.services |= S_SPY;
  nc.numNVs = c.edgy(0, 255);
  nc.maxEvents = c.edgy(0, 255);
  nc.numEVs = c.edgy(0, 12);
  nc.maj = c.edgy(0, 255);
  nc.min = c.edgy(0, 255);
  nc.beta = c.edgy(0, 255);
  nc.moduleId = c.edgy(0, 255);
  nc.manu = c.edgy(0, 255);
  nc.name = "";
  for (int i = 0; i < 7; ++i) nc.name += (char) c.range(32, 126);
  RamStorage st(10 + nc.numNVs + (4 + nc.numEVs) * nc.maxEvents);
  unsigned nn = c.pick<unsigned>({256, 0x1234, 1, 0xFE01, 0x00FF, 0xFFFF});
  int stored = c.weighted({4, 2, 1});
  if (stored == 0) storeIdentity(st, K::MODE_NORMAL, 5, nn, c.range(0, 1));
  else if (stored == 1) storeIdentity(st, K::MODE_UNINITIALISED, 5, 0);
  std::vector<std::unique_ptr<VLCB::Service>> others;
  Node node(nc, &st);
  node.pad = &c;
  // Further services of the application, before and after
  int n1 = c.chance(60) ? 0 : c.range(1, 3), n2 = c.chance(50) ? 0 : c.range(1, 2);
  static void (*ignore)(void *, unsigned int, byte, byte) = nullptr;
  (void) ignore;
  for (int i = 0; i < n1 + n2; ++i)
  {
    int id = c.pick<int>({0, 9, 10, 17, 100, 255, 11, 16});
    others.emplace_back(new OtherService(id, c.u8()));
    (i < n1 ? node.extraFront : node.extra).push_back(others.back().get());
  }
  if (c.chance(25))
  {
    others.emplace_back(new VLCB::LongMessageService);
    node.extra.push_back(others.back().get());
  }
  uint8_t cpuMan = K::CPUM_ATMEL, cpuId = 50;
  std::string cpuName = "????";
  bool cpu = c.chance(40);
  if (cpu)
  {
    cpuMan = c.u8();
    cpuId = c.u8();
    cpuName = "";
    for (int i = 0; i < 4; ++i) cpuName += (char) c.range(32, 126);
    node.onParams = [&](VLCB::Parameters &p) { p.setProcessor(cpuMan, cpuId, cpuName.c_str()); };
  }
  node.boot();
  node.takeFrames();
  struct Svc { int id, ver; };
  std::vector<Svc> svcs;
  // What is known to be there, in the order of the list given to the controller.
  auto known = [&](VLCB::Service *s) -> Svc {
    if (s == node.mns.get()) return {1, 1};
    if (s == node.nv.get()) return {2, 1};
    if (s == node.canService.get()) return {3, 2};
    if (s == node.teach.get()) return {4, 1};
    if (s == node.prod.get()) return {5, 1};
    if (s == node.cons.get()) return {6, 1};
    if (s == node.coe.get()) return {8, 1};
    if (s == node.spy.get()) return {0, 1};
    for (auto &o : others)
      if (o.get() == s)
      {
        if (auto x = dynamic_cast<OtherService *>(s)) return {x->id, x->version};
        return {17, 1};
      }
    return {-1, -1};
  };
  for (auto s : node.list) svcs.push_back(known(s));
  int visible = 0;
  for (auto &s : svcs) visible += s.id != 0;
  int svcFlags = K::PF_VLCB;
  if (nc.services & S_PROD) svcFlags |= K::PF_PRODUCER;
  if (nc.services & S_CONS) svcFlags |= K::PF_CONSUMER;
  if (nc.services & S_COE) svcFlags |= K::PF_COE;
  c.log("NN %u, stored mode %d, services %x, %zu in all, %d visible, %d events %d EVs %d NVs", nn, stored, nc.services, svcs.size(), visible, nc.maxEvents, nc.numEVs, nc.numNVs);
  enum { UNINIT, SETUP, NORMAL } mode = stored == 0 ? NORMAL : UNINIT, before = mode;
  bool learn = false;
  auto params = [&] {
    std::vector<int> p(21, 0);
    p[0] = 20;
    p[1] = nc.manu;
    p[2] = nc.min;
    p[3] = nc.moduleId;
    p[4] = nc.maxEvents;
    p[5] = nc.numEVs;
    p[6] = nc.numNVs;
    p[7] = nc.maj;
    p[8] = svcFlags | (mode == NORMAL ? K::PF_NORMAL : 0) | (learn ? K::PF_LRN : 0);
    p[9] = cpuId;
    p[10] = K::PB_CAN;
    for (int i = 0; i < 4; ++i) p[15 + i] = (uint8_t) cpuName[i];
    p[19] = cpuMan;
    p[20] = nc.beta;
    for (auto &x : p) x &= 0xFF;
    return p;
  };
  int n = 0, reqs = 0, errs = 0, changes = 0;
  while (c.more(n, 12, 60))
  {
    STEP(c);
    if (c.chance(30))
    {
      ++changes;
      switch (c.weighted({3, 2, 2, 2, 1}))
      {
        case 0:
          if (mode == SETUP)
          {
            nn = c.pick<unsigned>({256, 0x1234, 1, 0xFE01, 0x00FF, 0xFFFF});
            node.advance(150);
            node.ask(mk(K::SNN, nn), 120);
            mode = NORMAL;
          }
          else if (mode == UNINIT)
          {
            node.pressForSetup();
            node.advance(150);
            before = UNINIT;
            mode = SETUP;
          }
          else
          {
            node.controller->putAction(VLCB::ACT_RENEGOTIATE);
            node.pump();
            before = NORMAL;
            mode = SETUP;
          }
          break;
        case 1:
          if (nc.services & S_TEACH && mode == NORMAL)
          {
            learn = !learn;
            node.ask(mk(learn ? K::NNLRN : K::NNULN, nn), 120);
          }
          break;
        case 2:
          node.boot();
          learn = false;
          if (mode == SETUP) mode = before;
          break;
        case 3:
          if (mode == SETUP)
          {
            node.ask(mk(K::RQNN, 300), 120);
            mode = before;
          }
          break;
        case 4:
          if (mode == NORMAL && !learn)
          {
            node.pressForSetup();
            mode = UNINIT;
          }
          break;
      }
      // Learn mode while setting up is left open.
      if (learn && mode != NORMAL)
      {
        node.boot();
        learn = false;
        mode = before;
      }
      c.log("mode %d, learn %d, NN %u", mode, learn, nn);
      node.takeFrames();
      continue;
    }
    auto p = params();
    Msg req;
    Msgs want;
    bool skip = false;
    switch (c.weighted({4, 1, 5, 1, 2, 2, 2, 1}))
    {
      case 0: // RQNPN
      {
        int i = c.edgy(1, 20);
        req = mk(K::RQNPN, nn, {i});
        want = {mk(K::PARAN, nn, {i, p[i]})};
        skip = mode != NORMAL;
        break;
      }
      case 1:
        req = mk(K::RQNPN, nn, {0});
        for (int i = 0; i <= 20; ++i) want.push_back(mk(K::PARAN, nn, {i, p[i]}));
        skip = mode != NORMAL;
        break;
      case 2: // RQSD
      {
        int i = c.range(0, svcs.size() + 2);
        if (c.chance(10)) i = c.edgy(0, 255);
        req = mk(K::RQSD, nn, {i});
        skip = mode != NORMAL;
        if (i == 0)
        {
          want.push_back(mk(K::SD, nn, {0, 0, visible}));
          for (size_t k = 0; k < svcs.size(); ++k)
            if (svcs[k].id) want.push_back(mk(K::SD, nn, {(int) k + 1, svcs[k].id, svcs[k].ver}));
        }
        else if (i > (int) svcs.size() || svcs[i - 1].id == 0)
        {
          want = {mk(K::GRSP, nn, {K::RQSD, K::SERVICE_ID_MNS, K::GRSP_INVALID_SERVICE})};
          ++errs;
        }
        else want = {mk(K::ESD, nn, {i, svcs[i - 1].id, 0, 0, 0})};
        break;
      }
      case 3: // errors of RQNPN and short messages
        skip = mode != NORMAL;
        switch (c.range(0, 2))
        {
          case 0:
            req = mk(K::RQNPN, nn, {(int) c.edgy(21, 255)});
            want = {mk(K::CMDERR, nn, {K::CMDERR_INV_PARAM_IDX}), mk(K::GRSP, nn, {K::RQNPN, K::SERVICE_ID_MNS, K::CMDERR_INV_PARAM_IDX})};
            break;
          case 1:
            req = mk(K::RQNPN, nn);
            want = {mk(K::GRSP, nn, {K::RQNPN, K::SERVICE_ID_MNS, K::CMDERR_INV_CMD})};
            break;
          case 2:
            req = mk(K::RQSD, nn);
            want = {mk(K::GRSP, nn, {K::RQSD, K::SERVICE_ID_MNS, K::CMDERR_INV_CMD})};
            break;
        }
        if (!skip) ++errs;
        break;
      case 4: // QNN
        req = Msg{K::QNN};
        want = {mk(K::PNN, nn, {p[1], p[3], p[8]})};
        skip = mode != NORMAL;
        break;
      case 5: // RQNP
        req = Msg{K::RQNP};
        if (mode == SETUP) want = {Msg{K::PARAMS, p[1], p[2], p[3], p[4], p[5], p[6], p[7]}};
        break;
      case 6: // RQMN
      {
        req = Msg{K::RQMN};
        Msg m{K::NAME};
        for (char ch : nc.name) m.d.push_back(ch);
        if (mode == SETUP || learn) want = {m};
        break;
      }
      case 7: // through the controller's interface
        for (int i = 0; i <= 20; ++i)
          if (node.controller->getParam((VlcbParams) i) != p[i]) c.fail("getParam(%d) is %d, expected %d", i, node.controller->getParam((VlcbParams) i), p[i]);
        continue;
    }
    if (skip) continue;
    c.log("%s", req.str().c_str());
    ++reqs;
    Msgs got = node.ask(req, 120);
    // CMDERR and GRSP in either order
    if (got.size() == 2 && want.size() == 2 && want[0].op() == K::CMDERR) { std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); }
    if (got != want) c.fail("%s: gets %s, expected %s", req.str().c_str(), str(got).c_str(), str(want).c_str());
  }
  if (svcs.size() != (size_t) visible) c.cls("hidden services");
  if (others.size()) c.cls("application's services");
  if (changes) c.cls("mode changes");
  if (errs) c.cls("invalid index or short request");
  if (cpu) c.cls("processor set by application");
  c.count("requests", reqs);
  c.nontrivial(reqs >= 4);
}

pbt::Property pbt::property = {
  "C19", "Node parameters and services are reported truthfully",
  "Random configuration values, versions, names and processors, random sets and orders of services including hidden and unknown ones, mode changes and restarts; every request form with every index is compared with a model of the parameter block and the service list. Non-trivial: at least four requests.",
  "exploration", 200000, 2500000, run,
  {},
  {"at most 14 services, so that the answers fit the action queue", "requests by node number are made in normal mode"},
};
