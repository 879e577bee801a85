// Diagnostics.
#include "evraw.hpp"
#include <LongMessageService.h>

enum { ANY = -1 };

struct Model
{
  unsigned consumed = 0, produced = 0, taught = 0, nnChanges = 0;
};

struct Svc
{
  int id;
  std::vector<std::function<long()>> diags; // value or ANY
};

static void run(Case &c)
{
  world.reset();
  world.ms = c.chance(70) ? 0 : c.edgy(0, 4294000000l);
  NodeConf nc;
  nc.order = c.range(0, 3);
  nc.diag = true;
  nc.services = S_MNS | S_CAN;
  for (unsigned s : {S_NV, S_CONS, S_PROD, S_TEACH}) if (c.chance(75)) nc.services |= s;
  if (c.chance(15)) nc.services |= S_COE;
  if (c.chance(30)) nc.services |= S_SPY;
  nc.numNVs = c.range(0, 3);
  nc.maxEvents = c.range(1, 12);
  nc.numEVs = c.range(1, 4);
  unsigned base = 10 + nc.numNVs;
  RamStorage st(base + (4 + nc.numEVs) * nc.maxEvents);
  RawEvents t{st, base, nc.maxEvents, nc.numEVs};
  unsigned nn = c.pick<unsigned>({256, 0x1234, 1, 0xFE01, 0x00FF, 0xFFFF});
  storeIdentity(st, K::MODE_NORMAL, 5, nn);
  int fill = c.range(0, nc.maxEvents);
  for (int i = 0; i < fill; ++i) t.put(i, c.pick<unsigned>({nn, 0, 257}), i + 1, {i + 1, c.u8()});
  std::unique_ptr<VLCB::LongMessageService> lm;
  Node node(nc, &st);
  node.pad = &c;
  std::vector<std::unique_ptr<SpyService>> front;
  for (int k = c.chance(25) ? 1 : c.chance(10) ? c.range(2, 20) : 0; k > 0; --k)
  {
    front.emplace_back(new SpyService);
    node.extraFront.push_back(front.back().get());
  }
  if (c.chance(25))
  {
    lm.reset(new VLCB::LongMessageService);
    node.extra.push_back(lm.get());
  }
  node.boot();
  node.takeFrames();
  Model md;
  unsigned long bootMs = world.ms;
  (void) bootMs;
  auto fn = [](std::function<long()> f) { return f; };
  auto zero = fn([] { return (long) ANY; });
  auto services = [&] {
    std::vector<Svc> v;
    for (auto s : node.list)
    {
      Svc x{ANY, {}};
      if (s == node.mns.get())
        x = {1, {zero, fn([] { return (long) (world.ms / 1000 >> 16 & 0xFFFF); }), fn([] { return (long) (world.ms / 1000 & 0xFFFF); }), zero,
                 fn([&] { return (long) (md.nnChanges & 0xFFFF); }), zero}};
      else if (s == node.canService.get())
      {
        x = {3, std::vector<std::function<long()>>(18, zero)};
        x.diags[0] = fn([&] { return (long) (node.can->rxErr & 0xFFFF); });
        x.diags[1] = fn([&] { return (long) (node.can->txErr & 0xFFFF); });
        x.diags[2] = fn([&] { return (long) (node.can->status & 0xFFFF); });
        x.diags[5] = fn([&] { return (long) (node.can->txCount & 0xFFFF); });
        x.diags[8] = fn([&] { return (long) (node.can->rxCount & 0xFFFF); });
      }
      else if (s == node.teach.get()) x = {4, {fn([&] { return (long) (md.taught & 0xFFFF); })}};
      else if (s == node.prod.get()) x = {5, {fn([&] { return (long) (md.produced & 0xFFFF); })}};
      else if (s == node.cons.get()) x = {6, {fn([&] { return (long) (md.consumed & 0xFFFF); })}};
      else if (s == node.nv.get()) x = {2, {}};
      else if (s == node.coe.get()) x = {8, {}};
      else if (s == lm.get()) x = {17, {}};
      else x = {0, {}}; // hidden
      v.push_back(x);
    }
    return v;
  };
  auto svcs = services();
  int burst = 0;
  for (auto &s : svcs) if (s.id) burst += 1 + s.diags.size();
  c.log("NN %u, services %x, %zu in all, all diagnostics are %d messages, %d of %d events", nn, nc.services, svcs.size(), burst, fill, nc.maxEvents);
  bool learn = false;
  int n = 0, reads = 0, ops = 0, bursts = 0, errs = 0;
  bool nonzero = false;
  // One diagnostic: dgn with the value the model has.
  auto matches = [&](const Msg &m, int idx, int code, long val) {
    if (val == ANY) return m.size() == 7 && mk(K::DGN, nn, {idx, code, m[5], m[6]}) == m;
    return m == mk(K::DGN, nn, {idx, code, hi(val), lo(val)});
  };
  while (c.more(n, 15, 60))
  {
    STEP(c);
    node.takeFrames();
    int what = c.weighted({8, 4, 4, 4, 2, 2, 2, 1});
    switch (what)
    {
      case 0: // read
      case 5:
      {
        ++reads;
        int idx = c.range(0, svcs.size() + 1), code = c.range(0, 20);
        if (c.chance(10)) idx = c.edgy(0, 255);
        if (c.chance(10)) code = c.edgy(0, 255);
        if (idx >= 1 && idx <= (int) svcs.size() && c.chance(50)) code = svcs[idx - 1].diags.empty() ? 0 : c.range(0, svcs[idx - 1].diags.size());
        Msg req = mk(K::RDGN, nn, {idx, code});
        if (c.chance(4)) req.d.resize(c.range(3, 4));
        else if (c.chance(4)) { req = mk(K::RDGN, nn ^ 1, {idx, code}); }
        Msgs got = node.ask(req, 120);
        c.log("%s: %s", req.str().c_str(), str(got).c_str());
        if (req.nn() != nn)
        {
          if (!got.empty()) c.fail("%s is for another node, gets %s", req.str().c_str(), str(got).c_str());
        }
        else if (req.size() < 5)
        {
          ++errs;
          if (got != Msgs{mk(K::GRSP, nn, {K::RDGN, K::SERVICE_ID_MNS, K::CMDERR_INV_CMD})}) c.fail("short request: gets %s", str(got).c_str());
        }
        else if (idx > (int) svcs.size() || (idx > 0 && svcs[idx - 1].id == 0))
        {
          ++errs;
          if (got != Msgs{mk(K::GRSP, nn, {K::RDGN, K::SERVICE_ID_MNS, K::GRSP_INVALID_SERVICE})}) c.fail("unknown service %d: gets %s", idx, str(got).c_str());
        }
        else if (idx > 0 && code > (int) svcs[idx - 1].diags.size())
        {
          ++errs;
          if (got.size() != 1 || got[0].size() != 6 || got[0].op() != K::GRSP || got[0].nn() != nn || got[0][3] != K::RDGN || got[0][5] != K::GRSP_INVALID_DIAGNOSTIC ||
              (got[0][4] != idx && got[0][4] != svcs[idx - 1].id && got[0][4] != K::SERVICE_ID_MNS))
            c.fail("unknown diagnostic %d of service %d: gets %s", code, idx, str(got).c_str());
        }
        else if (idx > 0 && code > 0)
        {
          long v = svcs[idx - 1].diags[code - 1]();
          if (v > 0) nonzero = true;
          if (got.size() != 1 || !matches(got[0], idx, code, v)) c.fail("diagnostic %d of service %d (type %d): gets %s, expected value %ld", code, idx, svcs[idx - 1].id, str(got).c_str(), v);
        }
        else
        {
          // Of more answers than the action queue takes the first ones are lost (known finding rdgn-all-services).
          const long answers = got.size();
          long pos = idx == 0 && burst > 29 && answers >= 25 && answers < burst ? answers - burst : 0;
          for (int i = 1; i <= (int) svcs.size(); ++i)
          {
            if ((idx && i != idx) || !svcs[i - 1].id) continue;
            auto &d = svcs[i - 1].diags;
            if (pos >= 0 && (pos >= answers || !matches(got[pos], i, 0, d.size()))) c.fail("number of diagnostics of service %d: gets %s, expected %zu", i, pos < answers ? got[pos].str().c_str() : "nothing", d.size());
            ++pos;
            for (int k = 1; k <= (int) d.size(); ++k, ++pos)
            {
              long v = d[k - 1]();
              if (v > 0) nonzero = true;
              if (pos >= 0 && (pos >= answers || !matches(got[pos], i, k, v)))
                c.fail("all diagnostics: diagnostic %d of service %d (type %d): gets %s, expected value %ld", k, i, svcs[i - 1].id, pos < answers ? got[pos].str().c_str() : "nothing", v);
            }
          }
          if (pos != answers) c.fail("all diagnostics: gets more than expected: %s", got[pos].str().c_str());
        }
        break;
      }
      case 1: // consume
      {
        int times = c.chance(97) ? 1 : c.range(200, 600);
        if (times > 1) ++bursts;
        int i = c.range(0, nc.maxEvents);
        int form = c.range(0, 9);
        static const int longs[] = {K::ACON, K::ACOF, K::ACON1, K::ACOF1, K::ACON2, K::ACOF2, K::ACON3, K::ACOF3, K::ARON, K::AROF};
        static const int shorts[] = {K::ASON, K::ASOF, K::ASON1, K::ASOF1, K::ASON2, K::ASOF2, K::ASON3, K::ASOF3, K::ASON, K::ASOF};
        Msg m = mkev(longs[form], 300, 1);
        if (i < nc.maxEvents && t.used(i)) m = t.nn(i) == 0 ? mkev(shorts[form], c.range(0, 3), t.en(i)) : mkev(longs[form], t.nn(i), t.en(i));
        while (m.size() < 1u + (m.op() >> 5)) m.d.push_back(c.u8());
        c.log("%d times %s", times, m.str().c_str());
        for (int k = 0; k < times; ++k)
        {
          node.post(m, 120);
          node.loop();
          node.loop();
        }
        node.pump();
        break;
      }
      case 2: // produce
      {
        if (!(nc.services & S_PROD)) continue;
        int times = c.chance(97) ? 1 : c.range(200, 600);
        if (times > 1) ++bursts;
        int v = c.range(1, 14), form = c.range(0, 3);
        bool state = c.chance(50);
        byte d[3] = {(byte) c.sbyte(), (byte) c.sbyte(), (byte) c.sbyte()};
        c.log("%d times send value %d %d, %d data bytes %02X %02X %02X", times, v, state, form, d[0], d[1], d[2]);
        for (int k = 0; k < times; ++k)
        {
          switch (form)
          {
            case 0: node.prod->sendEvent(state, v); break;
            case 1: node.prod->sendEvent(state, v, d[0]); break;
            case 2: node.prod->sendEvent(state, v, d[0], d[1]); break;
            case 3: node.prod->sendEvent(state, v, d[0], d[1], d[2]); break;
          }
          node.pump();
          md.produced += node.takeMsgs().size();
        }
        break;
      }
      case 3: // teach
      {
        if (!(nc.services & S_TEACH)) continue;
        if (!learn || c.chance(10))
        {
          learn = !learn;
          node.ask(mk(learn ? K::NNLRN : K::NNULN, nn), 120);
        }
        unsigned a = c.pick<unsigned>({nn, 0, 257}), b = c.range(1, 14);
        Msg m;
        switch (c.range(0, 3))
        {
          case 0: m = mkev(K::EVLRN, a, b, {(int) c.range(0, nc.numEVs + 1), (int) c.range(0, 14)}); break;
          case 1: m = mkev(K::EVLRNI, a, b, {(int) c.range(0, nc.maxEvents), (int) c.range(0, nc.numEVs + 1), (int) c.range(0, 14)}); break;
          case 2: m = mkev(K::EVULN, a, b); break;
          case 3: m = mk(K::RQEVN, nn); break;
        }
        if (c.chance(5)) m.d.resize(5);
        if (m.op() == K::EVULN || m.op() == K::RQEVN || m.size() > 5 || true)
        {
          Msgs got = node.ask(m, 120);
          bool ok = false;
          for (auto &x : got) if (x.op() == K::WRACK) ok = true;
          if (ok && (m.op() == K::EVLRN || m.op() == K::EVLRNI)) ++md.taught;
          c.log("%s: %s", m.str().c_str(), str(got).c_str());
        }
        break;
      }
      case 4: // node number
      {
        bool cancel = c.chance(30);
        int times = c.chance(97) ? 1 : c.range(200, 600);
        if (times > 1) { ++bursts; cancel = false; }
        unsigned x = 0;
        for (int k = 0; k < times; ++k)
        {
          node.controller->putAction(VLCB::ACT_RENEGOTIATE);
          node.pump();
          if (cancel) node.controller->putAction(VLCB::ACT_RENEGOTIATE);
          node.pump();
          x = c.pick<unsigned>({256, 0x1234, 1, 0xFE01, 0x00FF});
          if (times > 1) x = 256 + k;
          node.ask(mk(K::SNN, x), 120);
          if (!cancel)
          {
            nn = x;
            ++md.nnChanges;
          }
        }
        c.log("%d node numbers, last %u, cancelled %d", times, x, cancel);
        // not an event of interest
        break;
      }
      case 6: // counters of the transport, time
      {
        node.can->rxErr = c.edgy(0, 70000);
        node.can->txErr = c.edgy(0, 70000);
        node.can->status = c.edgy(0, 65535);
        node.can->rxCount = c.edgy(0, 200000);
        node.can->txCount = c.edgy(0, 200000);
        unsigned long dt = c.chance(50) ? c.range(0, 5000) : c.edgy(0, 400000000l);
        if (world.ms + dt > 4294967295ul) dt = 0;
        world.ms += dt;
        node.pump();
        c.log("time %lu", world.ms);
        break;
      }
      case 7:
        c.log("%s", "restart");
        node.boot();
        svcs = services();
        node.consumed.clear();
        md = Model();
        learn = false;
        break;
    }
    ++ops;
    // handler calls are what counts for the consumer
    md.consumed += node.consumed.size();
    node.consumed.clear();
    if (!st.problems.empty()) c.fail("storage: %s", st.problems[0].c_str());
  }
  if (bursts) c.cls("more than 200 events at a time");
  if (errs) c.cls("invalid request");
  c.cls(burst <= 29 ? "all services fit the queue" : "all services do not fit the queue");
  c.count("reads", reads);
  c.nontrivial(reads >= 2 && nonzero);
}

// More than 65535 of each.
static void wrap(Case &c)
{
  world.reset();
  NodeConf nc;
  nc.diag = true;
  RamStorage st;
  storeIdentity(st, K::MODE_NORMAL, 5, 256);
  Node node(nc, &st);
  node.boot();
  node.ask(mk(K::NNLRN, 256));
  const unsigned N = 65536 + 300;
  for (unsigned i = 0; i < N; ++i)
  {
    node.ask(mkev(K::EVLRN, 300, 1, {1, 7}));
    node.post(mkev(K::ACON, 300, 1));
    node.pump();
    node.prod->sendEvent(true, 7);
    node.pump();
    node.consumed.clear();
    node.can->tx.clear();
    node.controller->putAction(VLCB::ACT_RENEGOTIATE);
    node.pump();
    node.ask(mk(K::SNN, 256));
    node.ask(mk(K::NNLRN, 256));
    node.can->tx.clear();
  }
  Msgs nnGot = node.ask(mk(K::RDGN, 256, {1, 5}));
  if (nnGot != Msgs{mk(K::DGN, 256, {1, 5, hi(300), lo(300)})}) c.fail("after %u node numbers the node reports %s", N, str(nnGot).c_str());
  for (int idx : {4, 5, 6})
  {
    Msgs got = node.ask(mk(K::RDGN, 256, {idx, 1}));
    if (got != Msgs{mk(K::DGN, 256, {idx, 1, hi(300), lo(300)})}) c.fail("after %u operations service %d reports %s", N, idx, str(got).c_str());
  }
}

// All diagnostics of a node with all services are more messages than the action queue holds.
static void allServices(Case &c)
{
  world.reset();
  NodeConf nc;
  nc.diag = true;
  RamStorage st;
  storeIdentity(st, K::MODE_NORMAL, 5, 256);
  Node node(nc, &st);
  node.boot();
  Msgs got = node.ask(mk(K::RDGN, 256, {0, 0})), want;
  const int count[] = {6, 18, 0, 1, 1, 1};
  for (int i = 0; i < 6; ++i)
  {
    want.push_back(mk(K::DGN, 256, {i + 1, 0, 0, count[i]}));
    for (int k = 1; k <= count[i]; ++k) want.push_back(mk(K::DGN, 256, {i + 1, k, 0, 0}));
  }
  burst(c, "RDGN for all services", got, want);
}

pbt::Property pbt::property = {
  "C20", "Diagnostics report what actually happened",
  "Random sets and orders of services; events consumed, produced and taught (also hundreds at a time), node number changes, transport counters, time and restarts; requests of every form and index are compared with counters kept by the check. Non-trivial: at least two reads and a counter that is not zero.",
  "exploration", 150000, 2000000, run,
  {{"counter-wrap", "counters of events go on from 0 after 65535", wrap},
   {"rdgn-all-services", "RDGN 0: all diagnostics of a node with all services are reported", allServices}},
  {"diagnostics that are documented as not implemented may have any value", "of more than 29 answers to one request only the last 25 must arrive (known finding rdgn-all-services)"},
};
