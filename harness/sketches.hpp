// The example sketches of the repository as they are, on the simulated board.
#pragma once
#include "longmsg.hpp"
#include "gridconnect.hpp"
#include "chip.hpp"
#include <Bounce2.h>
#include <CAN2515.h>
#include <SerialGC.h>
#include <LED.h>
#include <LEDUserInterface.h>
#include <SerialUserInterface.h>
#include <Streaming.h>
#include <Switch.h>
#include <new>

const byte A0 = 14, A1 = 15, A2 = 16, A3 = 17;
#include "VLCB_4in4out/LEDControl.h"
#include "VLCB_4in4out/LEDControl.cpp"

namespace sk4 {
#include "VLCB_4in4out/VLCB_4in4out.ino"
}
namespace sk1 {
#include "VLCB_1in1out/VLCB_1in1out.ino"
}
namespace skg {
#include "VLCB_SerialGC_1in1out/VLCB_SerialGC_1in1out.ino"
}
namespace skl {
#include "VLCB_long_message_example/VLCB_long_message_example.ino"
}
namespace ske {
#include "VLCB_empty/VLCB_empty.ino"
}

// An object as the constructor leaves it after power up.
template <typename T, typename... A> void renew(T &x, A &&... a)
{
  memset((void *) &x, 0, sizeof x);
  new ((void *) &x) T(std::forward<A>(a)...);
}

struct Sketch
{
  const char *name;
  int moduleId;
  const char *moduleName;
  int nvs, maxEvents, evs, produced;
  std::vector<int> inputs, outputs;
  bool activeLow;                     // outputs
  bool serialBus;                     // the bus is on the serial port
  void (*construct)();
  void (*setup)();
  void (*loop)();
  ACAN2515 *(*chip)();
};

static const Sketch sketches[] = {
  {"VLCB_4in4out", 82, "4IN4OUT", 4, 64, 5, 4, {14, 15, 16, 17}, {3, 5, 6, 9}, true, false,
   [] {
     using namespace sk4;
     renew(modconfig);
     renew(can2515);
     renew(ledUserInterface, LED_GRN, LED_YLW, SWITCH0);
     renew(serialUserInterface, &can2515);
     renew(mnService);
     renew(canService, &can2515);
     renew(nvService);
     renew(coeService);
     renew(ecService);
     renew(etService);
     renew(epService);
     renew(controller, &modconfig, std::initializer_list<VLCB::Service *>{&mnService, &ledUserInterface, &serialUserInterface, &canService, &nvService, &ecService, &epService, &etService, &coeService});
     for (auto &x : moduleSwitch) renew(x);
     for (auto &x : moduleLED) renew(x);
     for (auto &x : state) x = false;
   },
   sk4::setup, sk4::loop, [] { return sk4::can2515.canp; }},
  {"VLCB_1in1out", 99, "1IN1OUT", 10, 32, 2, 1, {5}, {6}, false, false,
   [] {
     using namespace sk1;
     renew(modconfig);
     renew(can2515);
     renew(ledUserInterface, LED_GRN, LED_YLW, SWITCH0);
     renew(serialUserInterface, &can2515);
     renew(mnService);
     renew(canService, &can2515);
     renew(nvService);
     renew(coeService);
     renew(ecService);
     renew(etService);
     renew(epService);
     renew(controller, &modconfig, std::initializer_list<VLCB::Service *>{&mnService, &ledUserInterface, &serialUserInterface, &canService, &nvService, &ecService, &epService, &etService, &coeService});
     renew(moduleSwitch, 5);
     renew(moduleLED, 6);
   },
   sk1::setup, sk1::loop, [] { return sk1::can2515.canp; }},
  {"VLCB_SerialGC_1in1out", 99, "1IN1OUT", 10, 32, 2, 1, {5}, {6}, false, true,
   [] {
     using namespace skg;
     renew(modconfig);
     renew(serialGC);
     renew(ledUserInterface, LED_GRN, LED_YLW, SWITCH0);
     renew(mnService);
     renew(canService, &serialGC);
     renew(nvService);
     renew(coeService);
     renew(ecService);
     renew(etService);
     renew(epService);
     renew(controller, &modconfig, std::initializer_list<VLCB::Service *>{&mnService, &ledUserInterface, &canService, &nvService, &ecService, &epService, &etService, &coeService});
     renew(moduleSwitch, 5);
     renew(moduleLED, 6);
   },
   skg::setup, skg::loop, nullptr},
  {"VLCB_long_message_example", 99, "LMSGEX ", 10, 32, 1, 1, {}, {}, false, false,
   [] {
     using namespace skl;
     renew(userInterface, LED_GRN, LED_YLW, SWITCH0);
     renew(modconfig);
     renew(can2515);
     renew(mnService);
     renew(canService, &can2515);
     renew(nvService);
     renew(lmsg);
     renew(ecService);
     renew(etService);
     renew(epService);
     renew(controller, &modconfig, std::initializer_list<VLCB::Service *>{&mnService, &userInterface, &canService, &nvService, &lmsg, &ecService, &epService, &etService});
     memset(lmsg_in, 0, sizeof lmsg_in);
     memset(lmsg_out, 0, sizeof lmsg_out);
   },
   skl::setup, skl::loop, [] { return skl::can2515.canp; }},
  {"VLCB_empty", 98, "EMPTY  ", 0, 0, 0, 0, {}, {}, false, false,
   [] {
     using namespace ske;
     renew(modconfig);
     renew(can2515);
     renew(ledUserInterface, LED_GRN, LED_YLW, SWITCH0);
     renew(serialUserInterface, &can2515);
     renew(mnService);
     renew(canService, &can2515);
     renew(controller, &modconfig, std::initializer_list<VLCB::Service *>{&mnService, &ledUserInterface, &serialUserInterface, &canService});
   },
   ske::setup, ske::loop, [] { return ske::can2515.canp; }},
};
