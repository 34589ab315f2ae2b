#pragma once
#include "sim_arduino.h"

typedef bool boolean;
typedef uint8_t byte;
#define LOW 0x0
#define HIGH 0x1
#define INPUT 0x01
#define OUTPUT 0x03
#define PULLUP 0x04
#define INPUT_PULLUP 0x05
#define PULLDOWN 0x08
#define INPUT_PULLDOWN 0x09
#define OPEN_DRAIN 0x10
#define OUTPUT_OPEN_DRAIN 0x13
#define LSBFIRST 0
#define MSBFIRST 1

inline void pinMode(uint8_t pin, uint8_t mode) { SIM_STUB; sim::pinLog.push_back({ 'm', pin, mode }); sim::pinMode_[pin] = mode; }
inline void digitalWrite(uint8_t pin, uint8_t val) { SIM_STUB; sim::pinLog.push_back({ 'w', pin, val }); sim::pinLevel[pin] = val != 0; }
inline int digitalRead(uint8_t pin) { SIM_STUB; sim::pinLog.push_back({ 'r', pin, 0 }); if (sim::readLevel) return sim::readLevel(pin) ? HIGH : LOW; return sim::pinLevel[pin] ? HIGH : LOW; }
inline uint16_t analogRead(uint8_t pin) { SIM_STUB; sim::pinLog.push_back({ 'a', pin, 0 }); return uint16_t(sim::analogLevel[pin]); }

#include "HardwareSerial.h"
