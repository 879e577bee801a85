// Node variables against an array of bytes.
#include "rig.hpp"

static Msgs sorted(Msgs m) { std::sort(m.begin(), m.end()); return m; }

static Msgs errors(unsigned nn, int op, int err, bool cmderr)
{
  Msgs m{mk(K::GRSP, nn, {op, K::SERVICE_ID_NV, err})};
  if (cmderr) m.push_back(mk(K::CMDERR, nn, {err}));
  return sorted(m);
}

struct Bench
{
  Case &c;
  NodeConf nc;
  unsigned nn;
  std::vector<uint8_t> nv;     // the model
  std::unique_ptr<RamStorage> st;
  std::unique_ptr<Node> node;
  int writes = 0, readsBack = 0, bad = 0, restarts = 0;
  std::set<int> written;

  explicit Bench(Case &c) : c(c) {}

  // Bytes outside the node variables must not change.
  template <typename F> void keepsRest(const char *what, F f)
  {
    std::vector<uint8_t> before = st->mem;
    f();
    for (size_t i = 0; i < before.size(); ++i)
    {
      if (i >= nc.nvsStart && i < nc.nvsStart + nc.numNVs) continue;
      if (before[i] != st->mem[i]) c.fail("storage: %s changed byte %zu outside the node variables from %u to %u", what, i, before[i], st->mem[i]);
    }
    if (!st->problems.empty()) c.fail("storage: %s: %s", what, st->problems[0].c_str());
  }

  void expect(const Msg &req, const Msgs &got, const Msgs &want)
  {
    if (got != want) c.fail("response: %s got %s, expected %s", req.str().c_str(), str(got).c_str(), str(want).c_str());
  }

  void request(Msg req)
  {
    // Bytes after the ones the message needs make no difference.
    int op = req.op();
    Msgs got;
    keepsRest(req.str().c_str(), [&] { got = node->ask(req); });
    size_t need = op == K::NVRD ? 4 : 5;
    int N = nc.numNVs;
    if (req.size() < need)
    {
      expect(req, sorted(got), errors(nn, op, K::CMDERR_INV_CMD, false));
      ++bad;
      return;
    }
    int idx = req[3];
    if (op == K::NVRD)
    {
      if (idx > N) { expect(req, sorted(got), errors(nn, op, K::CMDERR_INV_NV_IDX, true)); ++bad; }
      else if (idx == 0)
      {
        Msgs want{mk(K::NVANS, nn, {0, N})};
        for (int i = 1; i <= N; ++i) want.push_back(mk(K::NVANS, nn, {i, nv[i]}));
        if (!allOrLast(got, want)) expect(req, got, want);
      }
      else
      {
        expect(req, got, {mk(K::NVANS, nn, {idx, nv[idx]})});
        if (written.count(idx)) ++readsBack;
      }
      return;
    }
    if (idx == 0 || idx > N) { expect(req, sorted(got), errors(nn, op, K::CMDERR_INV_NV_IDX, true)); ++bad; return; }
    nv[idx] = req[4];
    written.insert(idx);
    ++writes;
    if (op == K::NVSET) expect(req, got, {mk(K::WRACK, nn)});
    else expect(req, got, {mk(K::NVANS, nn, {idx, nv[idx]})});
  }

  int anyIndex()
  {
    int N = nc.numNVs;
    switch (c.weighted({8, 2, 1, 1}))
    {
      case 0: return N > 0 ? c.edgy(1, N) : c.range(0, 255);
      case 1: return std::min(255, std::max(0, N + (int) c.range(-1, 2)));
      case 2: return 0;
      default: return c.u8();
    }
  }

  void run()
  {
    switch (c.weighted({4, 3, 1, 1}))
    {
      case 0: nc.numNVs = c.range(1, 10); break;
      case 1: nc.numNVs = c.range(0, 28); break;
      case 2: nc.numNVs = c.edgy(29, 255); break;
      default: nc.numNVs = c.pick({0, 1, 127, 128, 254, 255}); break;
    }
    nc.order = c.range(0, 3);
    nc.diag = c.chance(30);
    nc.services = c.chance(20) ? S_ALL : S_ALL & ~S_COE;
    nc.nvsStart = c.pick({10, 11, 16, 40, 250});
    nc.maxEvents = c.range(0, 6);
    nc.numEVs = c.range(1, 4);
    bool gap = c.chance(20);
    nc.eventsStart = gap ? nc.nvsStart + nc.numNVs + c.range(1, 9) : 0;
    unsigned end = (gap ? nc.eventsStart : nc.nvsStart + nc.numNVs) + nc.maxEvents * (4 + nc.numEVs);
    nn = c.pick({256, 1, 257, 65534, 0x1234, 65535});
    world.reset();
    st.reset(new RamStorage(end));
    nv.assign(256, 0);
    for (int i = 1; i <= nc.numNVs; ++i) st->mem[nc.nvsStart + i - 1] = nv[i] = c.chance(50) ? 0xFF : c.u8();
    storeIdentity(*st, K::MODE_NORMAL, 7, nn);
    node.reset(new Node(nc, st.get()));
    node->pad = &c;
    node->boot();
    node->takeFrames();
    c.log("%d NVs from %u, storage of %u bytes, order %d", nc.numNVs, nc.nvsStart, end, nc.order);
    int n = 0;
    while (c.more(n, 25, 120))
    {
      STEP(c);
      switch (c.weighted({6, 5, 4, 2, 2, 1, 1}))
      {
        case 0: { Msg m = mk(K::NVSET, nn, {anyIndex(), c.sbyte()}); c.log("NVSET %d=%d", m[3], m[4]); request(m); break; }
        case 1:
        {
          int i = anyIndex();
          c.log("NVRD %d", i);
          request(mk(K::NVRD, nn, {i}));
          break;
        }
        case 2: { Msg m = mk(K::NVSETRD, nn, {anyIndex(), c.sbyte()}); c.log("NVSETRD %d=%d", m[3], m[4]); request(m); break; }
        case 3:
        {
          // short or long message
          int op = c.pick({(int) K::NVRD, (int) K::NVSET, (int) K::NVSETRD});
          Msg m = mk(op, nn);
          int k = c.range(0, 5);
          for (int i = 0; i < k; ++i) m.d.push_back(i == 0 ? anyIndex() : c.sbyte());
          c.log("%s", m.str().c_str());
          request(m);
          break;
        }
        case 4:
        {
          // other traffic
          Msg m;
          unsigned other = nn ^ c.pick({1, 256, 0x8000});
          int i = anyIndex(), v = c.u8();
          switch (c.range(0, 8))
          {
            case 0: m = mk(K::NVSET, other, {i, v}); break;
            case 1: m = mk(K::NVSETRD, other, {i, v}); break;
            case 2: m = mk(K::NNLRN, nn); break;
            case 3: m = mkev(K::EVLRN, 500, i, {1 + v % nc.numEVs, v}); break;
            case 4: m = mkev(K::EVLRNI, 500, i, {v % (nc.maxEvents + 1), 1, v}); break;
            case 5: m = mkev(K::ACON, 500, i); break;
            case 6: m = mk(K::NNCLR, nn); break;
            case 7: m = mk(K::CANID, nn, {1 + v % 99}); break;
            case 8: m = mk(K::MODE, nn, {K::MODE_HEARTBEAT_OFF}); break;
          }
          c.log("other %s", m.str().c_str());
          node->ask(m);
          break;
        }
        case 5:
          c.log("restart");
          node->boot();
          node->takeFrames();
          ++restarts;
          break;
        case 6:
          c.log("%s", "renegotiate or cancel");
          node->controller->putAction(VLCB::ACT_RENEGOTIATE);
          node->pump();
          node->takeFrames();
          break;
      }
    }
    for (int i = 1; i <= nc.numNVs; ++i)
    {
      Msg m = mk(K::NVRD, nn, {i});
      expect(m, node->ask(m), {mk(K::NVANS, nn, {i, nv[i]})});
    }
    if (nc.numNVs > 28) c.cls("more than 28 NVs");
    if (nc.numNVs == 255) c.cls("255 NVs");
    if (nc.numNVs == 0) c.cls("no NVs");
    if (restarts && writes) c.cls("writes and a restart");
    if (bad) c.cls("invalid request");
    c.nontrivial(writes >= 2 && (readsBack || restarts));
  }
};

static void run(Case &c)
{
  Bench b(c);
  b.run();
}

static void readAll(Case &c)
{
  world.reset();
  NodeConf nc;
  nc.numNVs = 40;
  RamStorage st;
  storeIdentity(st, K::MODE_NORMAL, 5, 256);
  Node node(nc, &st);
  node.boot();
  Msgs want = {mk(K::NVANS, 256, {0, 40})};
  for (int i = 1; i <= 40; ++i)
  {
    node.ask(mk(K::NVSET, 256, {i, 3 * i}));
    want.push_back(mk(K::NVANS, 256, {i, 3 * i}));
  }
  burst(c, "NVRD 0 of 40 node variables", node.ask(mk(K::NVRD, 256, {0})), want);
}

pbt::Property pbt::property = {
  "C07", "Node variables behave as an array of bytes",
  "Random sequences of NVRD/NVSET/NVSETRD with valid, boundary and invalid indices, every value and length, mixed with requests for other nodes, event teaching, restarts and renegotiation, on 0..255 node variables in storage of exactly the layout's size; every response compared with an array model, all NVs read at the end. Non-trivial: at least two writes and a read of a written NV or a restart.",
  "exploration", 150000, 2000000, run,
  {{"nvrd-0-burst", "NVRD 0 reports all of 40 node variables", readAll}},
  {"of more than 29 answers to one request only the last 25 must arrive (known finding nvrd-0-burst)"},
};
