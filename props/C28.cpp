// Push button and LEDs.
#include "rig.hpp"
#include <LEDUserInterface.h>

// One LED, as a pin level at the time of each look. Steps are loops of the program.
struct LedModel
{
  bool on = false, blink = false;
  bool pulse = false, dontCare = false;
  unsigned long pulseStart = 0;
  bool known = false;               // time of the last change while blinking is known
  unsigned long lastToggle = 0, blinkStart = 0;
  void set(bool s) { on = s; blink = false; }
  void startBlink()
  {
    if (!blink)
    {
      known = false;
      blinkStart = world.ms;
    }
    blink = true;
  }
};

static void look(Case &c, const char *name, LedModel &l, int pin)
{
  bool level = world.pinOut.count(pin) && world.pinOut[pin] == HIGH;
  if (l.pulse && world.ms - l.pulseStart >= 5) l.pulse = false;
  if (l.blink)
  {
    if (l.pulse) c.fail("%s", "harness: pulse while blinking");
    bool toggled = level != l.on;
    if (l.known)
    {
      if (toggled != (world.ms - l.lastToggle >= 500)) c.fail("%s LED %s %lu ms after the last change while blinking", name, toggled ? "changes" : "does not change", world.ms - l.lastToggle);
    }
    else if (!toggled && world.ms - l.blinkStart >= 500) c.fail("%s LED does not blink, %lu ms have passed", name, world.ms - l.blinkStart);
    if (toggled)
    {
      l.known = true;
      l.lastToggle = world.ms;
      l.on = level;
      c.count("blinks");
    }
  }
  else if (!l.dontCare && level != (l.on || l.pulse)) c.fail("%s LED is %s, expected %s%s", name, level ? "on" : "off", l.on || l.pulse ? "on" : "off", l.pulse ? " (activity)" : "");
}

static long duration(Case &c)
{
  switch (c.weighted({4, 3, 3}))
  {
    case 0: return c.pick<long>({500, 1000, 2000, 4000}) + c.range(-3, 3);
    case 1: return c.pick<long>({1, 50, 300, 700, 1500, 3000, 4500, 6000});
    default: return c.chance(90) ? c.edgy(1, 8000) : c.edgy(1, 4000000);
  }
}

static void runNode(Case &c)
{
  const int GREEN = 4, YELLOW = 7, BUTTON = 8;
  RamStorage st;
  NodeConf nc;
  nc.order = c.range(0, 3);
  nc.services = (nc.services | S_SPY) & (c.chance(50) ? ~0u : ~(unsigned) (S_NV | S_TEACH));
  int mode = c.pick<int>({K::MODE_NORMAL, K::MODE_UNINITIALISED}), stored = mode;
  unsigned nn = mode == K::MODE_NORMAL ? 300 : 0;
  storeIdentity(st, mode, nn ? 5 : 0, nn);
  bool pressed = c.chance(10);
  world.pinIn[BUTTON] = pressed ? LOW : HIGH;
  VLCB::LEDUserInterface ui(GREEN, YELLOW, BUTTON);
  Node node(nc, &st);
  (c.chance(50) ? node.extraFront : node.extra).push_back(&ui);
  node.boot();
  LedModel green, yellow;
  bool hold = false;
  unsigned long pressedAt = world.ms;
  auto indicate = [&] {
    int m = hold ? K::MODE_SETUP : mode;
    green.set(m == K::MODE_UNINITIALISED);
    if (m == K::MODE_SETUP) yellow.startBlink();
    else yellow.set(m == K::MODE_NORMAL);
  };
  auto activity = [&] {
    for (auto &f : node.takeFrames())
      if (!f.rtr && !f.ext && f.len > 0)
      {
        green.pulse = true;
        green.pulseStart = world.ms;
      }
  };
  indicate();
  activity();
  node.spy->seen.clear();
  c.log("mode %d, button %s, UI %s", mode, pressed ? "pressed" : "released", node.extra.empty() ? "first" : "last");
  int presses = 0;
  // One pass at the present time.
  auto poll = [&](bool received) {
    int expect = -1, other = -2;
    bool now = world.pinIn[BUTTON] == LOW;
    if (now != pressed)
    {
      pressed = now;
      unsigned long dur = world.ms - pressedAt;
      if (now)
      {
        pressedAt = world.ms;
        hold = false;
      }
      else
      {
        ++presses;
        expect = dur < 500 ? VLCB::ACT_START_CAN_ENUMERATION : dur >= 1000 && dur < 2000 ? VLCB::ACT_RENEGOTIATE : dur > 4000 ? VLCB::ACT_CHANGE_MODE : -1;
        // "1 to 2 seconds" leaves this open
        if (dur == 2000) other = VLCB::ACT_RENEGOTIATE;
        c.log("released after %lu ms", dur);
        c.cls(dur < 500 ? "short press" : dur < 1000 ? "0.5 to 1 s" : dur < 2000 ? "medium press" : dur <= 4000 ? "2 to 4 s" : "long press");
      }
    }
    if (received)
    {
      green.pulse = true;
      green.pulseStart = world.ms;
    }
    node.pump();
    std::vector<int> acts;
    for (auto &s : node.spy->seen)
      if (s.type == VLCB::ACT_CHANGE_MODE || s.type == VLCB::ACT_RENEGOTIATE || s.type == VLCB::ACT_START_CAN_ENUMERATION) acts.push_back(s.type);
    node.spy->seen.clear();
    int act = acts.empty() ? -1 : acts[0];
    if (other != -2 && (act == -1 || act == other)) expect = act;
    if (act != expect) c.fail("action %d, expected %d (-1: none, %d: enumeration, %d: change mode, %d: renegotiate)", act, expect, VLCB::ACT_START_CAN_ENUMERATION, VLCB::ACT_CHANGE_MODE, VLCB::ACT_RENEGOTIATE);
    int was = mode;
    if (act == VLCB::ACT_CHANGE_MODE)
    {
      if (mode == K::MODE_UNINITIALISED) mode = K::MODE_SETUP;
      else mode = stored = K::MODE_UNINITIALISED;
    }
    if (act == VLCB::ACT_RENEGOTIATE)
    {
      if (mode == K::MODE_NORMAL) mode = K::MODE_SETUP;
      else if (mode == K::MODE_SETUP) mode = stored;
    }
    // A new node number needs a CANID as well; any other action is one too many.
    size_t allowed = act == -1 ? 0 : 1;
    if (act == VLCB::ACT_CHANGE_MODE && mode == K::MODE_SETUP && acts.size() == 2 && acts[1] == VLCB::ACT_START_CAN_ENUMERATION) allowed = 2;
    if (acts.size() != allowed) c.fail("%zu actions for one press", acts.size());
    if (!pressed) hold = false;
    if (pressed && world.ms - pressedAt > 4000) hold = true;
    if (was != mode || hold) indicate();
    activity();
    look(c, "green", green, GREEN);
    look(c, "yellow", yellow, YELLOW);
    if ((bool) ui.isButtonPressed() != pressed) c.fail("isButtonPressed() is %d", (int) ui.isButtonPressed());
  };
  auto pass = [&](unsigned long ms) {
    // in steps
    long step = c.pick<long>({1, 7, 50, 100, 499, 500, 1000});
    long steps = ms / step;
    if (steps > 60) step = std::max(1ul, ms / 60);
    while (ms)
    {
      unsigned long d = std::min<unsigned long>(ms, step);
      world.ms += d;
      ms -= std::min(ms, d);
      poll(false);
    }
  };
  poll(false);
  int n = 0;
  while (c.more(n, 8, 40))
  {
    STEP(c);
    switch (c.weighted({6, 3, 2, 1}))
    {
      case 0: // press or release
      {
        if (pressed)
        {
          long d = duration(c);
          unsigned long sofar = world.ms - pressedAt;
          if ((unsigned long) d > sofar + 1) pass(d - sofar - 1);
          world.ms += (unsigned long) d > world.ms - pressedAt ? d - (world.ms - pressedAt) : 1;
          world.pinIn[BUTTON] = HIGH;
          poll(false);
          if (mode == K::MODE_SETUP) c.cls("setup");
        }
        else
        {
          c.log("%s", "pressed");
          world.ms += c.range(0, 2);
          world.pinIn[BUTTON] = LOW;
          poll(false);
        }
        break;
      }
      case 1: // activity
      {
        if (hold) break;
        Msg m = c.chance(70) ? mkev(K::ACON + c.range(0, 1), 301, c.range(0, 3)) : Msg{K::QNN};
        c.log("bus activity %s", m.str().c_str());
        node.post(m, 120);
        poll(true);
        c.cls("activity");
        int looks = c.range(0, 4);
        while (looks--)
        {
          world.ms += c.range(0, 3);
          poll(false);
        }
        break;
      }
      case 2:
        pass(c.chance(70) ? c.range(0, 1500) : c.edgy(0, 5000));
        break;
      case 3: // node number assigned
        if (mode != K::MODE_SETUP || hold) break;
        c.log("%s", "node number assigned");
        pass(150);
        if (hold) break;
        mode = stored = K::MODE_NORMAL;
        node.post(mk(K::SNN, 300), 120);
        {
          // the mode is shown as soon as the message has been handled
          bool p = pressed;
          indicate();
          poll(true);
          pressed = p;
        }
        c.cls("setup completed");
        break;
    }
  }
  c.count("presses", presses);
  c.nontrivial(presses > 1);
}

static void runLed(Case &c)
{
  c.cls("LED on its own");
  VLCB::LED led(3);
  LedModel m;
  led.run();
  int n = 0;
  while (c.more(n, 25, 100))
  {
    STEP(c);
    switch (c.weighted({5, 2, 2, 2, 2, 2}))
    {
      case 0: world.ms += c.weighted({1, 1}) ? c.pick<int>({499, 500, 501, 250, 1000}) : c.range(0, 8); break;
      case 1: c.log("%lu on", world.ms); led.on(); m.set(true); break;
      case 2: c.log("%lu off", world.ms); led.off(); m.set(false); break;
      case 3: c.log("%lu blink", world.ms); if (m.pulse) break; led.blink(); m.startBlink(); break;
      case 4: if (m.blink) break; c.log("%lu toggle", world.ms); led.toggle(); m.on = !m.on; break;
      case 5:
        if (m.blink) break;
        c.log("%lu pulse", world.ms);
        led.pulse();
        m.pulse = true;
        m.pulseStart = world.ms;
        break;
    }
    if (m.blink && m.pulse) m.pulse = world.ms - m.pulseStart < 5;
    led.run();
    if (m.blink && m.pulse) m.dontCare = true;
    look(c, "the", m, 3);
    m.dontCare = false;
    if (led.getState() != m.on) c.fail("getState() is %d, expected %d", (int) led.getState(), (int) m.on);
    c.nontrivial();
  }
}

static void runSwitch(Case &c)
{
  c.cls("switch on its own");
  int active = c.range(0, 1);
  world.pinIn[9] = !active;
  VLCB::Switch sw(9, active);
  bool level = !active;
  unsigned long changed = 0, lastDur = 0;
  bool any = false;
  int n = 0;
  while (c.more(n, 25, 100))
  {
    STEP(c);
    world.ms += c.chance(50) ? c.range(0, 10) : c.edgy(0, 100000);
    bool now = c.chance(40) ? !level : level;
    world.pinIn[9] = now;
    bool change = now != level;
    sw.run();
    c.log("%lu level %d", world.ms, (int) now);
    if (change)
    {
      if (any) lastDur = world.ms - changed;
      changed = world.ms;
      level = now;
    }
    if ((bool) sw.stateChanged() != change) c.fail("stateChanged() is %d", (int) sw.stateChanged());
    if ((bool) sw.getState() != now) c.fail("getState() is %d", (int) sw.getState());
    if (sw.isPressed() != (now == (bool) active)) c.fail("isPressed() is %d", (int) sw.isPressed());
    if (change && any && sw.getLastStateDuration() != lastDur) c.fail("getLastStateDuration() is %lu, expected %lu", sw.getLastStateDuration(), lastDur);
    any |= change;
    if (any && sw.getLastStateChangeTime() != changed) c.fail("getLastStateChangeTime() is %lu, expected %lu", sw.getLastStateChangeTime(), changed);
    if (any && sw.getCurrentStateDuration() != world.ms - changed) c.fail("getCurrentStateDuration() is %lu, expected %lu", sw.getCurrentStateDuration(), world.ms - changed);
    c.nontrivial(any);
  }
}

static void run(Case &c)
{
  world.reset();
  world.ms = c.weighted({6, 2, 2}) == 0 ? 1000 : c.chance(50) ? c.edgy(0, 4294000000l) : (unsigned long) -1 - c.range(0, 20000);
  switch (c.weighted({8, 1, 1}))
  {
    case 0: runNode(c); break;
    case 1: runLed(c); break;
    case 2: runSwitch(c); break;
  }
}

pbt::Property pbt::property = {
  "C28", "Button and LEDs follow the documented user interface",
  "A node with the LED user interface at either end of the service list, the button pressed for random times (biased to the limits of 0.5, 1, 2 and 4 "
  "seconds), bus activity, assignment of node numbers and pauses, polled at random intervals, the clock also starting shortly before its wrap. After "
  "each pass the levels of both LED pins are compared with a model of mode, blinking and activity, and the actions that other services see with the one "
  "for the duration of the press. The LED and Switch classes also on their own. Non-trivial: the button was pressed and released more than once, or a "
  "single LED or switch was operated.",
  "exploration", 150000, 6000000, run, {}, {"A press of exactly 2000 ms may renegotiate or not", "The button is free of bounce longer than one polling interval"}};
