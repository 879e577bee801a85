// Included before Configuration.cpp, which is compiled for an ESP32: makes restarts visible.
#pragma once
struct EspClass
{
  void restart();
  unsigned int getFreeHeap();
};
extern EspClass ESP;
