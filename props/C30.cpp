// The serial console.
#include "evraw.hpp"
#include <SerialUserInterface.h>

// All numbers in a text, decimal or hexadecimal.
static std::vector<long> numbers(const std::string &s)
{
  std::vector<long> v;
  for (size_t i = 0; i < s.size();)
  {
    if (isdigit((unsigned char) s[i]))
    {
      bool hex = s[i] == '0' && i + 1 < s.size() && (s[i + 1] == 'x' || s[i + 1] == 'X');
      char *e;
      v.push_back(strtol(s.c_str() + i, &e, hex ? 16 : 10));
      i = e - s.c_str();
    }
    else ++i;
  }
  return v;
}

static std::string list(const std::vector<long> &v)
{
  std::string s;
  for (size_t i = 0; i < v.size() && i < 40; ++i) s += std::to_string(v[i]) + " ";
  return s + (v.size() > 40 ? "..." : "");
}

static std::string after(const std::string &s, const char *mark)
{
  size_t p = s.find(mark);
  return p == std::string::npos ? "" : s.substr(p + strlen(mark));
}

static void run(Case &c)
{
  world.reset();
  NodeConf nc;
  nc.order = c.range(0, 3);
  nc.services |= S_SPY;
  nc.numNVs = c.chance(80) ? c.range(0, 30) : c.edgy(0, 255);
  nc.maxEvents = c.chance(80) ? c.range(1, 20) : c.edgy(1, 255);
  nc.numEVs = c.chance(80) ? c.range(1, 6) : c.edgy(1, 251);
  unsigned base = 10 + nc.numNVs;
  RamStorage st(base + (4 + nc.numEVs) * nc.maxEvents);
  RawEvents t{st, base, nc.maxEvents, nc.numEVs};
  int mode = c.pick<int>({K::MODE_NORMAL, K::MODE_UNINITIALISED}), stored = mode;
  unsigned nn = mode == K::MODE_NORMAL ? c.pick<unsigned>({300, 1, 65534, 0x1234}) : 0;
  storeIdentity(st, mode, nn ? c.edgy(0, 99) : c.pick({0, 0, 7}), nn);
  for (int i = 1; i <= nc.numNVs; ++i) st.mem[10 + i - 1] = c.sbyte();
  int fill = c.range(0, nc.maxEvents);
  for (int i = 0; i < fill; ++i)
    if (c.chance(80))
    {
      int pos = c.range(0, nc.maxEvents - 1);
      t.put(pos, c.pick<unsigned>({nn, 0, 257, 65535}), c.chance(50) ? i : c.edgy(0, 65534));
      for (int k = 0; k < nc.numEVs; ++k) st.mem[base + pos * t.rec() + 4 + k] = c.sbyte();
    }
  Node node(nc, &st);
  FakeCan counters;
  std::unique_ptr<VLCB::SerialUserInterface> ui;
  // The console is given the transport it has to show.
  ui.reset(new VLCB::SerialUserInterface(&counters));
  (c.chance(50) ? node.extraFront : node.extra).push_back(ui.get());
  node.boot();
  node.takeFrames();
  node.spy->seen.clear();
  world.serialOut.clear();
  c.log("%d NVs, %d events of %d, %d EVs, mode %d, NN %u", nc.numNVs, t.count(), nc.maxEvents, nc.numEVs, mode, nn);
  auto modeText = [&](const std::string &s, const char *what) {
    bool n = s.find("NORMAL") != std::string::npos, u = s.find("UNINITIALISED") != std::string::npos, p = s.find("SETUP") != std::string::npos;
    if (n != (mode == K::MODE_NORMAL) || u != (mode == K::MODE_UNINITIALISED) || p != (mode == K::MODE_SETUP)) c.fail("%s: text '%s', mode is %d", what, s.substr(0, 100).c_str(), mode);
  };
  static const char known[] = "nevchym*s\r\n";
  int n = 0, shows = 0;
  while (c.more(n, 12, 50))
  {
    STEP(c);
    world.serialOut.clear();
    node.spy->seen.clear();
    if (c.chance(25))
    {
      // something happens that changes what is shown
      switch (c.weighted({3, 3, 2, 1, 2}))
      {
        case 0:
          if (mode == K::MODE_NORMAL && nc.numNVs) node.ask(mk(K::NVSET, nn, {(int) c.range(1, nc.numNVs), c.u8()}), 120);
          break;
        case 1:
          if (mode == K::MODE_NORMAL)
          {
            node.ask(mk(K::NNLRN, nn), 120);
            unsigned en = c.range(0, 50);
            if (c.chance(70)) node.ask(mkev(K::EVLRN, 258, en, {(int) c.range(1, nc.numEVs), c.u8()}), 120);
            else node.ask(mkev(K::EVULN, 258, en), 120);
            node.ask(mk(K::NNULN, nn), 120);
          }
          break;
        case 2:
          if (mode == K::MODE_SETUP)
          {
            node.advance(150);
            node.spy->seen.clear();
            world.serialOut.clear();
            nn = c.range(1, 65534);
            node.ask(mk(K::SNN, nn), 120);
            mode = stored = K::MODE_NORMAL;
            modeText(world.serialOut, "node number assigned");
          }
          break;
        case 3:
          node.ask(mk(K::CANID, nn, {(int) c.range(1, 99)}), 120);
          break;
        case 4:
          counters.rxCount = c.edgy(0, 0xFFFFFFFFl);
          counters.txCount = c.edgy(0, 0xFFFFFFFFl);
          counters.rxErr = c.u8();
          counters.txErr = c.u8();
          counters.status = c.u8();
          break;
      }
      continue;
    }
    char ch = c.chance(80) ? known[c.range(0, sizeof known - 2)] : (char) c.u8();
    std::vector<uint8_t> mem = st.mem;
    VlcbModeParams m0 = node.config->currentMode;
    unsigned canid = node.config->CANID, canidStored = st.mem[1];
    long r0 = counters.resets, rr = node.can->resets, restarts = world.restarts;
    world.freeMemory = c.range(0, 100000);
    world.serialIn.push_back((uint8_t) ch);
    node.pump();
    std::string out = world.serialOut;
    std::vector<long> got, want;
    if (!world.serialIn.empty()) c.fail("command %d is not read", ch);
    Msgs msgs = node.takeMsgs();
    int changes = 0;
    for (auto &s : node.spy->seen) changes += s.type == VLCB::ACT_CHANGE_MODE;
    if (changes != (ch == 's')) c.fail("command '%c' (%d) leads to %d requests to change the mode", ch, ch, changes);
    if (counters.resets - r0 != (ch == 'y')) c.fail("command '%c' (%d) resets the transport", ch, ch);
    if (node.can->resets != rr) c.fail("%s", "another transport is reset");
    if (world.restarts - restarts != (ch == '*')) c.fail("command '%c' (%d) restarts the node %ld times", ch, ch, world.restarts - restarts);
    if (ch == '*')
    {
      // no more than a restart: what is stored stays
      mode = stored;
      if (st.mem != mem) c.fail("%s", "restart by command: the storage is changed");
      if (!msgs.empty()) c.fail("restart by command: sends %s", str(msgs).c_str());
      if (node.config->currentMode != stored || node.config->nodeNum != nn || node.config->CANID != canidStored) c.fail("%s", "restart by command: the configuration is changed");
      c.cls("restart");
      continue;
    }
    if (ch == 's')
    {
      c.log("%s", "s");
      if (mode == K::MODE_UNINITIALISED) mode = K::MODE_SETUP;
      else
      {
        mode = stored = K::MODE_UNINITIALISED;
        nn = 0;
      }
      modeText(out, "command s");
      c.cls("mode change");
      node.advance(150);
      node.takeMsgs();
      continue;
    }
    if (!msgs.empty()) c.fail("command '%c' (%d) sends %s", ch, ch, str(msgs).c_str());
    if (st.mem != mem) c.fail("command '%c' (%d) changes the storage", ch, ch);
    if (node.config->currentMode != m0 || node.config->nodeNum != nn || node.config->CANID != canid) c.fail("command '%c' (%d) changes the configuration", ch, ch);
    switch (ch)
    {
      case 'n':
      {
        std::string s = after(out, "mode = ");
        const char *ms = stored == K::MODE_NORMAL ? "Normal" : "Uninitialised";
        if (s.compare(0, strlen(ms), ms) != 0 && !(mode == K::MODE_SETUP && s.compare(0, 5, "Setup") == 0)) c.fail("mode shown as '%s', expected %s", s.substr(0, 20).c_str(), ms);
        got = numbers(after(out, "CANID = "));
        want = {(long) canidStored, (long) nn};
        if (canid != canidStored) c.fail("%s", "harness: CANID");
        if (got != want) c.fail("node shown as '%s', expected CANID %u, node number %u", s.substr(0, 80).c_str(), canid, nn);
        if (out.find("sketch configuration") == std::string::npos) c.fail("%s", "the sketch's configuration is not shown");
        ++shows;
        break;
      }
      case 'e':
      {
        int used = t.count();
        want = {nc.maxEvents, nc.numEVs, (long) t.rec(), used, nc.maxEvents - used, (long) (used * t.rec()), (long) (nc.maxEvents * t.rec())};
        for (int k = 1; k <= nc.numEVs; ++k) want.push_back(k);
        std::vector<size_t> hashes;
        for (int i = 0; i < nc.maxEvents; ++i)
          if (t.used(i))
          {
            want.push_back(i);
            for (unsigned k = 0; k < t.rec(); ++k) want.push_back(t.at(i)[k]);
            hashes.push_back(want.size());
            want.push_back(-1);
          }
        got = numbers(out);
        for (size_t h : hashes)
          if (h < got.size())
          {
            if (got[h] < 1 || got[h] > 255) c.fail("hash of an event is shown as %ld", got[h]);
            want[h] = got[h];
          }
        if (got != want) c.fail("events shown as %s, expected %s", list(got).c_str(), list(want).c_str());
        ++shows;
        if (used) c.cls("events shown");
        break;
      }
      case 'v':
        got = numbers(out);
        for (int i = 1; i <= nc.numNVs; ++i)
        {
          want.push_back(i);
          want.push_back(st.mem[10 + i - 1]);
          want.push_back(st.mem[10 + i - 1]);
        }
        if (got != want) c.fail("variables shown as %s, expected %s", list(got).c_str(), list(want).c_str());
        ++shows;
        if (nc.numNVs) c.cls("variables shown");
        break;
      case 'c':
        got = numbers(out);
        want = {(long) counters.rxCount, (long) counters.txCount, (long) counters.rxErr, (long) counters.txErr, (long) counters.status};
        if (got != want) c.fail("counters shown as %s, expected %s", list(got).c_str(), list(want).c_str());
        ++shows;
        break;
      case 'm':
        if (numbers(out) != std::vector<long>{(long) world.freeMemory}) c.fail("free memory shown as '%s', expected %u", out.c_str(), world.freeMemory);
        break;
      case 'h': case 'y': break;
      case '\r': case '\n':
        if (out.find("unknown") != std::string::npos) c.fail("end of line: '%s'", out.c_str());
        break;
      default:
        if (out.find("unknown") == std::string::npos) c.fail("unknown command %d gives '%s'", ch, out.substr(0, 60).c_str());
        c.cls("unknown command");
        break;
    }
  }
  // the same at the end of a burst of input
  std::vector<uint8_t> mem = st.mem;
  int k = c.range(0, 20);
  world.serialOut.clear();
  std::string in;
  long restarts = world.restarts, stars = 0;
  for (int i = 0; i < k; ++i)
  {
    char ch = c.chance(30) ? known[c.range(0, sizeof known - 2)] : (char) c.u8();
    if (ch == 's') ch = 'c';
    stars += ch == '*';
    in += ch;
    world.serialIn.push_back((uint8_t) ch);
  }
  for (int i = 0; i < k; ++i) node.loop();
  node.pump();
  if (!world.serialIn.empty()) c.fail("%zu of %d characters are not read", world.serialIn.size(), k);
  if (world.restarts - restarts != stars) c.fail("%ld restarts, %ld times command *", world.restarts - restarts, stars);
  if (st.mem != mem) c.fail("%s", "the storage is changed");
  if (!node.takeMsgs().empty()) c.fail("%s", "messages are sent");
  c.nontrivial(shows > 1);
  c.count("displays", shows);
}

pbt::Property pbt::property = {
  "C30", "Serial commands show the node's state and change nothing by surprise",
  "Nodes of random configuration (up to 255 variables and events) and stored content with the serial console at either end of the service list; random "
  "commands and other bytes, in between changes of variables, events, node number, CANID and counters by messages. The numbers printed are compared with the "
  "bytes in storage and the state of the node; after every command storage, configuration, messages, mode requests and transport resets and restarts of the processor are compared. "
  "Non-trivial: at least two displays were compared.",
  "exploration", 150000, 5000000, run, {}, {"At most 251 event variables"}};
