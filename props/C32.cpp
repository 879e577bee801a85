// The example sketches, unchanged, as complete modules: switches, lamps, button, CAN chip or serial port, EEPROM.
#include "sketches.hpp"
#include <sys/wait.h>
#include <unistd.h>

enum { OFF, ON, FLASH_SLOW, FLASH_FAST, DARK };

struct Ev
{
  unsigned nn, en;
  std::vector<int> ev;
};

static const int BUTTON = 8, YELLOW = 7, GREEN = 4;

struct Module
{
  Case &c;
  const Sketch &s;
  // what is stored
  bool normal = false;
  unsigned nn = 0;
  std::vector<Ev> events;
  std::vector<int> nvs;
  // what is lost at power down
  std::vector<int> lamps;
  std::vector<bool> states;
  bool learn = false;
  std::vector<bool> pressed;
  std::string printed;
  std::vector<CANFrame> frames;
  long restarts = 0;

  Module(Case &c, const Sketch &s) : c(c), s(s), nvs(s.nvs, 0), lamps(s.outputs.size(), OFF), states(s.inputs.size(), false), pressed(s.inputs.size(), false) {}
  bool four() const { return s.inputs.size() == 4; }
  bool one() const { return s.inputs.size() == 1; }

  void collect()
  {
    printed += world.serialOut;
    if (s.serialBus)
    {
      std::string &t = world.serialOut;
      for (size_t i = 0; i < t.size(); ++i)
      {
        if (t[i] != ':') continue;
        size_t e = t.find(';', i);
        CANFrame f;
        if (e != std::string::npos && gc::decode(t.substr(i, e - i + 1), f) == gc::GOOD) { frames.push_back(f); i = e; }
      }
    }
    else
    {
      auto &tx = chips[s.chip()].tx;
      for (auto &m : tx)
      {
        CANFrame f;
        f.id = m.id;
        f.ext = m.ext;
        f.rtr = m.rtr;
        f.len = m.len;
        memcpy(f.data, m.data, 8);
        frames.push_back(f);
      }
      tx.clear();
    }
    world.serialOut.clear();
  }
  void loop()
  {
    if (!s.serialBus)
    {
      ChipCan &ch = chips[s.chip()];
      if (!ch.hw.empty() && ch.isr) ch.isr();
    }
    try { s.loop(); }
    catch (Restart)
    {
      ++restarts;
      collect();
      power();
      return;
    }
    collect();
  }
  void ms(long n, int step = 1)
  {
    for (long t = 0; t < n; t += step)
    {
      world.ms += step;
      loop();
      loop();
    }
  }
  void power()
  {
    for (auto &l : lamps) l = OFF;
    for (size_t i = 0; i < states.size(); ++i) states[i] = false;
    learn = false;
    if (!s.serialBus) chips.clear();
    for (int n = 0;; ++n)
    {
      if (n == 3) c.fail("%s", "start: the sketch restarts for ever");
      s.construct();
      try { s.setup(); break; }
      catch (Restart)
      {
        c.log("%s", "restarts itself");
        world.pinIn[BUTTON] = HIGH;
        printed += world.serialOut;
        world.serialOut.clear();
      }
    }
    printed += world.serialOut;
    world.serialOut.clear();
  }
  // A module as it comes from the factory.
  void clear()
  {
    events.clear();
    normal = false;
    nn = 0;
    nvs.assign(s.nvs, 0);
  }
  void deliver(const CANFrame &f)
  {
    if (s.serialBus) for (char x : gc::encode(f)) world.serialIn.push_back(x);
    else
    {
      CANMessage m;
      memset(&m, 0, sizeof m);
      m.id = f.id;
      m.ext = f.ext;
      m.rtr = f.rtr;
      m.len = f.len;
      memcpy(m.data, f.data, 8);
      chips[s.chip()].hw.push_back(m);
    }
    for (int i = 0; i < 25 || (s.serialBus && !world.serialIn.empty() && i < 200); ++i) { if (i % 5 == 0) ++world.ms; loop(); }
  }
  Msgs taken()
  {
    Msgs v;
    for (auto &f : frames)
      if (!f.rtr && f.len && f.data[0] != K::HEARTB) { Msg m; m.d.assign(f.data, f.data + f.len); v.push_back(m); }
    frames.clear();
    return v;
  }
  Msgs ask(const Msg &m)
  {
    c.log("message %s", m.str().c_str());
    frames.clear();
    deliver(dataFrame(101, m));
    return taken();
  }
  void expect(const char *what, const Msgs &got, const Msgs &want)
  {
    if (got != want) c.fail("%s: sent %s, expected %s", what, str(got).c_str(), str(want).c_str());
  }
  int find(unsigned n, unsigned e) const
  {
    for (size_t i = 0; i < events.size(); ++i) if (events[i].nn == n && events[i].en == e) return i;
    return -1;
  }
  int findInput(int v) const
  {
    for (size_t i = 0; i < events.size(); ++i) if (events[i].ev[0] == v) return i;
    return -1;
  }
  int createDefault(int v)
  {
    unsigned e = 1;
    while (find(nn, e) >= 0) ++e;
    Ev x{nn, e, std::vector<int>(s.evs, 0)};
    x.ev[0] = v;
    events.push_back(x);
    return events.size() - 1;
  }
  static bool shortEvent(int op) { return (op & 0x18) == 0x18; }
  // The lamps after an event on the bus.
  void consume(const Msg &m)
  {
    int op = m.op();
    bool answer = op == K::ARON || op == K::AROF;
    bool known = answer || op == K::ACON || op == K::ACOF || op == K::ASON || op == K::ASOF || op == K::ACON1 || op == K::ACOF1 || op == K::ASON2 || op == K::ASOF2;
    if (!known) return;
    bool on = op == K::ACON || op == K::ASON || op == K::ACON1 || op == K::ASON2 || op == K::ARON;
    bool sh = op == K::ASON || op == K::ASOF || op == K::ASON2 || op == K::ASOF2;
    int i = find(sh ? 0 : m.nn(), m.en());
    if (i < 0) return;
    // 4in4out looks at plain events only
    if (four() && op != K::ACON && op != K::ACOF && op != K::ASON && op != K::ASOF) return;
    for (size_t l = 0; l < lamps.size(); ++l)
    {
      int v = events[i].ev[l + 1];
      if (on) { if (v >= 1 && v <= (four() ? 3 : 2)) lamps[l] = v; }
      else if (v > 0) lamps[l] = OFF;
    }
  }
  void checkLamps(const char *what)
  {
    for (size_t l = 0; l < lamps.size(); ++l)
    {
      if (lamps[l] != ON && lamps[l] != OFF) continue;
      int level = world.pinOut[s.outputs[l]];
      if ((level != LOW) != ((lamps[l] == ON) != s.activeLow)) c.fail("lamp: after %s lamp %zu is %s", what, l + 1, lamps[l] == ON ? "off" : "on");
    }
    if (normal && (world.pinOut[YELLOW] != HIGH || world.pinOut[GREEN] == HIGH)) c.fail("mode: after %s the LEDs do not show normal mode", what);
    if (!normal && (world.pinOut[YELLOW] == HIGH || world.pinOut[GREEN] != HIGH)) c.fail("mode: after %s the LEDs do not show uninitialised mode", what);
  }
  void watchLamps()
  {
    std::vector<int> changes(lamps.size()), last(lamps.size());
    for (size_t l = 0; l < lamps.size(); ++l) last[l] = world.pinOut[s.outputs[l]];
    for (int t = 0; t < 1500; t += 10)
    {
      world.ms += 10;
      loop();
      for (size_t l = 0; l < lamps.size(); ++l)
      {
        int now = world.pinOut[s.outputs[l]];
        changes[l] += now != last[l];
        last[l] = now;
      }
    }
    for (size_t l = 0; l < lamps.size(); ++l)
    {
      int lo = lamps[l] == FLASH_SLOW ? 2 : lamps[l] == FLASH_FAST ? 5 : 0, hi = lamps[l] == FLASH_SLOW ? 4 : lamps[l] == FLASH_FAST ? 7 : 0;
      if (changes[l] < lo || changes[l] > hi) c.fail("flash: lamp %zu, which should %s, changes %d times in 1.5 s", l + 1, lo == 0 ? "not flash" : lo == 2 ? "flash slowly" : "flash fast", changes[l]);
      if (lo) c.cls("flashing lamp");
    }
  }
  void hold(long time)
  {
    world.pinIn[BUTTON] = LOW;
    ms(time, 50);
    world.pinIn[BUTTON] = HIGH;
    ms(4);
  }
  void setUp(unsigned number, bool fresh)
  {
    c.log("set up as %u", number);
    frames.clear();
    hold(fresh ? 4300 : 1500);
    ms(140, 5);
    Msgs got = taken();
    expect("setup", got, {mk(K::RQNN, nn)});
    std::string nm(s.moduleName);
    Msg name{K::NAME};
    for (char x : nm) name.d.push_back(x);
    expect("name", ask(Msg{K::RQMN}), {name});
    got = ask(Msg{K::RQNP});
    if (got.size() != 1 || got[0].op() != K::PARAMS || got[0][1] != 13 || got[0][3] != s.moduleId || got[0][4] != s.maxEvents || got[0][5] != s.evs || got[0][6] != s.nvs)
      c.fail("parameters: %s", str(got).c_str());
    got = ask(mk(K::SNN, number));
    ms(150, 5);
    for (auto &m : taken()) got.push_back(m);
    expect("SNN", got, {mk(K::NNACK, number)});
    nn = number;
    normal = true;
    if (fresh) for (int v = 1; v <= s.produced; ++v) if (findInput(v) < 0) createDefault(v);
  }
  // The messages for a new level at an input.
  Msgs inputChange(int i)
  {
    bool send = false, on = false;
    if (four())
    {
      switch (nvs[i])
      {
        case 1: send = true; on = states[i] = pressed[i]; break;
        case 2: if (pressed[i]) send = on = states[i] = true; break;
        case 3: if (pressed[i]) { send = true; states[i] = false; } break;
        case 4: if (pressed[i]) { send = true; on = states[i] = !states[i]; } break;
      }
    }
    else
    {
      send = true;
      on = pressed[i];
    }
    if (!send || nn == 0) return {};
    int k = findInput(i + 1);
    if (k < 0) { k = createDefault(i + 1); c.cls("event made for an input"); }
    bool sh = events[k].nn == 0;
    Msg m = mkev(sh ? (on ? K::ASON : K::ASOF) : (on ? K::ACON : K::ACOF), sh ? nn : events[k].nn, events[k].en);
    consume(m);
    return {m};
  }
};

static void run(Case &c)
{
  world.reset();
  chips.clear();
  chipLive = 0;
  chipBeginResult = 0;
  spis.clear();
  world.ms = c.weighted({6, 2, 2}) == 0 ? 10 : c.chance(50) ? c.edgy(0, 4294000000l) : (unsigned long) -1 - c.range(0, 20000);
  const Sketch &s = sketches[c.weighted({8, 4, 3, 3, 1})];
  c.cls(s.name);
  Module m(c, s);
  if (!c.chance(20)) for (int i = 0; i < 200; ++i) world.eeprom[i] = 0; // used before, or by something else
  else c.cls("blank EEPROM");
  bool clean = world.eeprom[0] == 0xFF;
  if (!clean)
  {
    // as after a reset with the button
    world.pinIn[BUTTON] = LOW;
    m.power();
    if (world.pinIn[BUTTON] != HIGH) c.fail("%s", "reset: the button at the start does nothing");
  }
  else m.power();
  m.ms(8);
  m.checkLamps("the start");
  m.expect("start", m.taken(), {});
  int n = 0, sent = 0, heard = 0, taught = 0, longs = 0;
  auto number = [&] { return c.pick<unsigned>({300, 1, 0x0100, 0xFFFF, 65534, 0x1234}); };
  while (c.more(n, 26, 90))
  {
    STEP(c);
    if (!m.normal && (n > 1 || c.chance(80)))
    {
      bool held = false;
      for (bool p : m.pressed) held |= p;
      m.setUp(number(), true);
      m.checkLamps("setup");
      continue;
    }
    if (m.events.size() > 26) break;
    switch (c.weighted({10, 8, 6, 2, 3, 4, 2, 3, 3, 2, 1, 2, 1, 6}))
    {
      case 0: // an input
      {
        if (s.inputs.empty()) break;
        int i = c.range(0, s.inputs.size() - 1);
        m.frames.clear();
        m.pressed[i] = !m.pressed[i];
        c.log("input %d is %s", i + 1, m.pressed[i] ? "pressed" : "released");
        if (m.four() && c.chance(30))
          for (int k = c.range(1, 3); k > 0; --k)
          {
            // it bounces
            world.pinIn[s.inputs[i]] = m.pressed[i] ? LOW : HIGH;
            m.ms(c.range(1, 3));
            world.pinIn[s.inputs[i]] = m.pressed[i] ? HIGH : LOW;
            m.ms(c.range(1, 3));
          }
        world.pinIn[s.inputs[i]] = m.pressed[i] ? LOW : HIGH;
        m.ms(12);
        Msgs want = m.inputChange(i);
        m.expect("input", m.taken(), want);
        sent += want.size();
        break;
      }
      case 1: // an event on the bus
      {
        if (s.evs == 0 || s.inputs.empty()) break;
        unsigned a = number(), e = c.range(1, 8);
        if (!m.events.empty() && c.chance(75)) { const Ev &x = c.pickv(m.events); a = x.nn; e = x.en; }
        bool sh = a == 0 || c.chance(10);
        Msg q = sh ? mkev(c.pick<int>({K::ASON, K::ASOF, K::ASON2, K::ASOF2}), a == 0 ? number() : a, e)
                   : mkev(c.pick<int>({K::ACON, K::ACOF, K::ACON1, K::ACOF1, K::ARON, K::AROF}), a, e);
        if (m.one() && (q.op() == K::ARON || q.op() == K::AROF)) q.d[0] = K::ACON; // known finding response-inverted
        q.d.resize(1 + (q.op() >> 5));
        auto before = m.lamps;
        m.expect("event", m.ask(q), {});
        m.consume(q);
        heard += before != m.lamps;
        break;
      }
      case 2: // teach all variables of an event
      {
        if (s.evs == 0 || !m.normal || m.events.size() > 24) break;
        if (!m.learn) { m.ask(mk(K::NNLRN, m.nn)); m.learn = true; }
        unsigned a = c.chance(30) ? 0 : c.chance(40) ? m.nn : number(), e = c.range(1, 8);
        int old = m.find(a, e);
        int v = c.chance(60) || s.inputs.empty() ? 0 : c.range(1, s.inputs.size());
        if (m.four() && c.chance(10)) v = c.range(5, 255);
        int owner = v ? m.findInput(v) : -1;
        if (owner >= 0 && old >= 0 && old != owner) { v = m.events[old].ev[0]; owner = old; }
        std::vector<int> evs{v};
        for (int k = 2; k <= s.evs; ++k) evs.push_back(c.chance(80) ? c.range(0, 3) : c.u8());
        for (int k = 1; k <= s.evs; ++k)
        {
          Msgs got = m.ask(mkev(K::EVLRN, a, e, {k, evs[k - 1]}));
          bool ok = false;
          for (auto &x : got) { ok |= x == mk(K::WRACK, m.nn); if (x.op() == K::CMDERR || isGrspError(x)) c.fail("teach: answer %s", str(got).c_str()); }
          if (!ok) c.fail("teach: answer %s", str(got).c_str());
        }
        int k = owner >= 0 ? owner : old;
        if (k < 0) { m.events.push_back({}); k = m.events.size() - 1; }
        m.events[k] = {a, e, evs};
        ++taught;
        break;
      }
      case 3: // unlearn
      {
        if (m.events.empty() || !m.normal) break;
        if (!m.learn) { m.ask(mk(K::NNLRN, m.nn)); m.learn = true; }
        int k = c.range(0, m.events.size() - 1);
        m.ask(mkev(K::EVULN, m.events[k].nn, m.events[k].en));
        m.events.erase(m.events.begin() + k);
        if (c.chance(50)) { m.ask(mk(K::NNULN, m.nn)); m.learn = false; }
        break;
      }
      case 4: // node variable
      {
        if (!s.nvs || !m.normal) break;
        int i = c.range(1, s.nvs), v = c.chance(90) ? c.range(0, 4) : c.u8();
        m.ask(mk(K::NVSET, m.nn, {i, v}));
        m.nvs[i - 1] = v;
        break;
      }
      case 5: // request for the state of an input
      {
        if (!m.normal || m.events.empty()) break;
        const Ev &x = c.pickv(m.events);
        if (m.four() && x.ev[0] > 4) break; // known finding request-no-switch
        Msg q = x.nn == 0 ? mkev(K::ASRQ, c.chance(50) ? 0 : m.nn, x.en) : mkev(K::AREQ, x.nn, x.en);
        Msgs want;
        if (m.four() && x.ev[0] >= 1 && x.ev[0] <= 4)
        {
          bool on = m.states[x.ev[0] - 1];
          want.push_back(x.nn == 0 ? mkev(on ? K::ARSON : K::ARSOF, m.nn, x.en) : mkev(on ? K::ARON : K::AROF, x.nn, x.en));
          m.consume(want[0]);
        }
        m.expect("request", m.ask(q), want);
        if (!want.empty()) c.cls("state requested");
        break;
      }
      case 6: // power off and on
      {
        c.log("%s", "power off and on");
        m.frames.clear();
        m.power();
        Msgs want;
        if (m.one() && m.pressed[0]) want = m.inputChange(0);
        m.ms(8);
        m.expect("start", m.taken(), want);
        c.cls("restart");
        break;
      }
      case 7:
        m.frames.clear();
        m.watchLamps();
        m.expect("time", m.taken(), {});
        break;
      case 8: // questions
      {
        if (!m.normal) break;
        switch (c.range(0, 4))
        {
          case 0:
          {
            Msgs got = m.ask(Msg{K::QNN});
            if (got.size() != 1 || got[0].op() != K::PNN || got[0].nn() != m.nn || got[0][3] != 13 || got[0][4] != s.moduleId) c.fail("QNN: answer %s", str(got).c_str());
            break;
          }
          case 1: if (s.evs) m.expect("RQEVN", m.ask(mk(K::RQEVN, m.nn)), {mk(K::NUMEV, m.nn, {(int) m.events.size()})}); break;
          case 2: if (s.evs) m.expect("NNEVN", m.ask(mk(K::NNEVN, m.nn)), {mk(K::EVNLF, m.nn, {s.maxEvents - (int) m.events.size()})}); break;
          case 3:
            if (s.nvs)
            {
              int i = c.range(1, s.nvs);
              m.expect("NVRD", m.ask(mk(K::NVRD, m.nn, {i})), {mk(K::NVANS, m.nn, {i, m.nvs[i - 1]})});
            }
            break;
          case 4:
          {
            int p = c.pick<int>({1, 3, 4, 5, 6});
            int v = p == 1 ? 13 : p == 3 ? s.moduleId : p == 4 ? s.maxEvents : p == 5 ? s.evs : s.nvs;
            m.expect("RQNPN", m.ask(mk(K::RQNPN, m.nn, {p})), {mk(K::PARAN, m.nn, {p, v})});
            break;
          }
        }
        break;
      }
      case 9: // the serial port
      {
        if (s.serialBus || !strcmp(s.name, "VLCB_long_message_example")) break;
        const char *cmd = c.pick<const char *>({"n", "e", "v", "c", "h", "m", "\r\n", "?", "y", "*"});
        c.log("serial port: %s", cmd);
        m.frames.clear();
        m.printed.clear();
        long r = m.restarts;
        for (const char *p = cmd; *p; ++p) world.serialIn.push_back(*p);
        m.ms(8);
        Msgs want;
        if (m.restarts > r && m.one() && m.pressed[0]) want = m.inputChange(0);
        if ((m.restarts > r) != (*cmd == '*')) c.fail("serial: command %s restarts the module %ld times", cmd, m.restarts - r);
        m.expect("serial", m.taken(), want);
        if (strchr("nevcm", *cmd) && m.printed.empty()) c.fail("serial: command %s prints nothing", cmd);
        break;
      }
      case 10: // reset with the button at the start
      {
        c.log("%s", "reset with the button");
        world.pinIn[BUTTON] = LOW;
        m.power();
        world.pinIn[BUTTON] = HIGH;
        m.clear();
        m.ms(8);
        m.taken();
        c.cls("reset");
        break;
      }
      case 11: // too short for the debouncing
      {
        if (!m.four()) break;
        int i = c.range(0, 3);
        m.frames.clear();
        world.pinIn[s.inputs[i]] = m.pressed[i] ? HIGH : LOW;
        m.ms(c.range(1, 4));
        world.pinIn[s.inputs[i]] = m.pressed[i] ? LOW : HIGH;
        m.ms(12);
        m.expect("glitch", m.taken(), {});
        break;
      }
      case 12: // another number
        if (m.normal) m.setUp(number(), false);
        m.learn = false;
        break;
      case 13: // long messages
      {
        if (strcmp(s.name, "VLCB_long_message_example") || !m.normal) break;
        Bytes text;
        for (int len = c.range(1, 45); len > 0; --len) text.push_back(c.range('a', 'z'));
        if (text.size() == 32) text.pop_back(); // known finding print-full-buffer
        std::string t((char *) text.data(), text.size());
        m.frames.clear();
        m.printed.clear();
        ++longs;
        if (c.chance(50))
        {
          int stream = c.range(1, 4);
          c.log("long message %s on stream %d", t.c_str(), stream);
          m.deliver(dataFrame(101, lmHeader(stream, text.size(), c.chance(50) ? lmCrc(text) : 0)));
          for (unsigned i = 1; i <= lmFragments(text.size()); ++i) m.deliver(dataFrame(101, lmFragment(stream, text, i)));
          m.ms(10);
          m.expect("long message", m.taken(), {});
          size_t p = m.printed.find("> received long message");
          if (stream == 4)
          {
            if (p != std::string::npos) c.fail("%s", "long message: of a stream that is not subscribed");
            break;
          }
          if (p == std::string::npos) c.fail("%s", "long message: nothing printed");
          unsigned gs = 0, gl = 0;
          char got[100] = {};
          if (sscanf(m.printed.c_str() + p, "> received long message, stream = %u, len = %u, msg = |%99[^|]|", &gs, &gl, got) != 3) c.fail("long message: printed %s", m.printed.c_str() + p);
          bool whole = t.size() <= 32;
          if ((int) gs != stream || gl != strlen(got) || (whole ? t != got : t.size() < gl || t.substr(t.size() - gl) != got))
            c.fail("long message: printed %s for %s", m.printed.c_str() + p, t.c_str());
        }
        else
        {
          t = t.substr(0, 31);
          text.resize(t.size());
          c.log("send %s", t.c_str());
          for (char x : "l" + t + "\n") if (x) world.serialIn.push_back(x);
          m.ms(30L * (lmFragments(t.size()) + 3), 5);
          Msgs want{lmHeader(2, t.size())}, got = m.taken();
          for (unsigned i = 1; i <= lmFragments(t.size()); ++i) want.push_back(lmFragment(2, text, i));
          for (size_t i = 0; i < want.size() && i < got.size(); ++i)
          {
            // what follows the text does not matter
            if (i == want.size() - 1) for (size_t k = 3 + (t.size() - 1) % 5 + 1; k < 8; ++k) if (k < got[i].d.size()) got[i].d[k] = 0;
          }
          m.expect("long message", got, want);
        }
        break;
      }
    }
    m.ms(7);
    m.checkLamps("this step");
  }
  c.count("events sent", sent);
  c.count("events obeyed", heard);
  if (taught) c.cls("teaching");
  if (longs) c.cls("long messages");
  c.nontrivial(sent + heard + longs >= 2 || (s.evs == 0 && n >= 4));
}

// The recorded defects of the sketches, each with the failure it has to show. Tried in a child, as they may crash.
static void tryOut(Case &c, const std::function<void()> &scenario, std::vector<const char *> marks, const char *what)
{
  int p[2];
  if (pipe(p)) return;
  pid_t pid = fork();
  if (pid == 0)
  {
    dup2(p[1], 2);
    close(p[0]);
    try { scenario(); } catch (...) { _exit(1); }
    _exit(0);
  }
  close(p[1]);
  std::string text;
  char buf[4096];
  for (ssize_t n; (n = read(p[0], buf, sizeof buf)) != 0;)
  {
    if (n > 0) text.append(buf, n);
    else if (errno != EINTR) break;
  }
  close(p[0]);
  int status = 0;
  while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return;
  for (auto m : marks) if (text.find(m) == std::string::npos) c.fail("sketch: %s", text.empty() ? "fails in another way" : text.substr(0, 300).c_str());
  c.fail("known: %s", what);
}

static void start(Module &m)
{
  world.reset();
  chips.clear();
  chipLive = 0;
  chipBeginResult = 0;
  spis.clear();
  world.ms = 10;
  for (int i = 0; i < 200; ++i) world.eeprom[i] = 0;
  world.pinIn[BUTTON] = LOW;
  m.power();
  m.ms(8);
  m.setUp(300, true);
  m.ask(mk(K::NNLRN, m.nn));
  m.learn = true;
}

static void responseInverted(Case &c)
{
  for (int i = 1; i <= 2; ++i)
    tryOut(c, [&] {
      Module m(c, sketches[i]);
      start(m);
      m.ask(mkev(K::EVLRN, 500, 7, {1, 0}));
      m.ask(mkev(K::EVLRN, 500, 7, {2, 1}));
      int pin = sketches[i].outputs[0];
      auto level = [&](int op) { m.ask(mkev(op, 500, 7)); m.ms(5); return world.pinOut[pin] != LOW; };
      if (!level(K::ACON) || level(K::ACOF)) return; // C15
      bool on = level(K::ARON);
      level(K::ACON);
      bool off = !level(K::AROF);
      if (on && off) return;
      fprintf(stderr, "ARON: lamp is %s, AROF: lamp is %s", on ? "on" : "off", off ? "off" : "on");
      _exit(1);
    }, {"ARON: lamp is off, AROF: lamp is on"}, "VLCB_1in1out and VLCB_SerialGC_1in1out take ARON for off and AROF for on");
}

static void requestNoSwitch(Case &c)
{
  tryOut(c, [&] {
    Module m(c, sketches[0]);
    start(m);
    m.ask(mkev(K::EVLRN, 500, 7, {1, 5}));
    Msgs got = m.ask(mkev(K::AREQ, 500, 7));
    if (got.empty()) return;
    fprintf(stderr, "response %s", str(got).c_str());
    _exit(1);
  }, {"VLCB_4in4out.ino", "index 4 out of bounds for type 'bool[4]'"}, "VLCB_4in4out answers a request for an event whose EV1 names no switch from outside its table of states");
}

static void printFullBuffer(Case &c)
{
  tryOut(c, [&] {
    Module m(c, sketches[3]);
    start(m);
    Bytes text(32, 'x');
    m.deliver(dataFrame(101, lmHeader(1, 32)));
    m.printed.clear();
    for (unsigned i = 1; i <= lmFragments(32); ++i) m.deliver(dataFrame(101, lmFragment(1, text, i)));
    m.ms(10);
    if (m.printed.find("|" + std::string(32, 'x') + "|") == std::string::npos) { fprintf(stderr, "printed %s", m.printed.c_str()); _exit(1); }
  }, {"global-buffer-overflow", "skl::lmsg_in"}, "VLCB_long_message_example prints beyond its receive buffer when a message fills it");
}

pbt::Property pbt::property = {
  "C32", "The example sketches work as documented, from switch to lamp",
  "The example sketches of the repository are compiled unchanged and run on a simulated board: switches (with bouncing), lamps, button, CAN chip or GridConnect on the serial port, EEPROM, restarts. Random histories of switch changes, events, requests, teaching, node variables, setup, resets, serial commands and long messages; a model written from the documentation of the examples predicts every message and lamp. Non-trivial: at least two events sent or obeyed or long messages (for the empty sketch, four steps).",
  "exploration", 80000, 1500000, run,
  {{"response-inverted", "1in1out sketches obey event responses", responseInverted},
   {"request-no-switch", "4in4out answers requests only for its switches", requestNoSwitch},
   {"print-full-buffer", "the long message sketch prints a message of 32 bytes", printFullBuffer}},
  {"1in1out: no ARON and AROF (known finding response-inverted); 4in4out: no request for an event whose first variable is above 4 (known finding request-no-switch); no long message of 32 bytes (known finding print-full-buffer)",
   "what the documentation of the examples leaves open is not tested: inputs during setup, more events than fit into the table"},
};
