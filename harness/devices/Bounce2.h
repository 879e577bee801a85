// Debounced input, as the library of this name has it.
#pragma once
#include <Arduino.h>

class Bounce
{
  int pin = -1;
  unsigned long wait = 10, since = 0;
  bool stable = true, last = true, change = false;
public:
  void attach(int p, PinMode m)
  {
    pin = p;
    pinMode(p, m);
    stable = last = digitalRead(p);
    since = millis();
    change = false;
  }
  void interval(unsigned ms) { wait = ms; }
  bool update()
  {
    bool now = digitalRead(pin);
    change = false;
    if (now != last)
    {
      last = now;
      since = millis();
    }
    else if (now != stable && millis() - since >= wait)
    {
      stable = now;
      change = true;
    }
    return change;
  }
  bool changed() const { return change; }
  bool fell() const { return change && !stable; }
  bool rose() const { return change && stable; }
  bool read() const { return stable; }
};
