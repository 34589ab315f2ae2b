#pragma once
#include "Arduino.h"

namespace sim
{
// One I2C transaction as seen on the bus.
struct I2cTransaction
{
    bool receive;
    int address;
    std::vector<uint8_t> data;      // bytes written (by the master) or offered (by the device)
    int result;                     // endTransmission status, or bytes received
    bool ended;
    bool stop;
};
struct I2c
{
    std::vector<I2cTransaction> log;
    bool open = false;
    size_t bufferSize = 128;
    std::vector<uint8_t> rxBuffer;
    size_t rxPos = 0;
    int misuse = 0;                                            // calls outside a transaction
    std::function<int(I2cTransaction &)> endResult;            // 0: success
    std::function<size_t(int address, size_t asked)> received; // how many bytes the device delivers
    std::function<uint8_t(size_t)> deviceByte;
};
inline std::array<I2c, 2> i2c;
}

class TwoWire
{
public:
    explicit TwoWire(uint8_t bus = 0) : bus(bus) {}
    bool begin() { SIM_STUB; return true; }
    bool begin(int, int, uint32_t = 0) { SIM_STUB; return true; }
    void setClock(uint32_t) {}
    void beginTransmission(uint16_t address)
    {
        SIM_STUB;
        auto &b = sim::i2c[bus];
        if (b.open) ++b.misuse;
        b.open = true;
        b.log.push_back({ false, address, {}, -1, false, true });
    }
    void beginTransmission(uint8_t address) { SIM_STUB; beginTransmission(uint16_t(address)); }
    void beginTransmission(int address) { SIM_STUB; beginTransmission(uint16_t(address)); }
    size_t write(uint8_t v) { SIM_STUB; return write(&v, 1); }
    size_t write(int v) { SIM_STUB; return write(uint8_t(v)); }
    size_t write(const uint8_t* data, size_t n)
    {
        SIM_STUB;
        auto &b = sim::i2c[bus];
        if (!b.open) { ++b.misuse; return 0; }
        auto &d = b.log.back().data;
        size_t k = std::min(n, b.bufferSize - std::min(b.bufferSize, d.size()));
        d.insert(d.end(), data, data + k);
        return k;
    }
    uint8_t endTransmission(bool sendStop = true)
    {
        SIM_STUB;
        auto &b = sim::i2c[bus];
        if (!b.open) { ++b.misuse; return 4; }
        b.open = false;
        auto &t = b.log.back();
        t.ended = true; t.stop = sendStop;
        t.result = b.endResult ? b.endResult(t) : 0;
        return uint8_t(t.result);
    }
    size_t requestFrom(uint16_t address, size_t size, bool sendStop)
    {
        SIM_STUB;
        auto &b = sim::i2c[bus];
        if (b.open) ++b.misuse;
        size_t n = b.received ? b.received(address, size) : size;
        n = std::min(n, std::min(size, b.bufferSize));
        b.rxBuffer.clear(); b.rxPos = 0;
        for (size_t i = 0; i < n; ++i) b.rxBuffer.push_back(b.deviceByte ? b.deviceByte(i) : uint8_t(i));
        b.log.push_back({ true, address, b.rxBuffer, int(n), true, sendStop });
        return n;
    }
    uint8_t requestFrom(uint16_t address, uint8_t size, uint8_t sendStop) { SIM_STUB; return uint8_t(requestFrom(address, size_t(size), bool(sendStop))); }
    uint8_t requestFrom(uint16_t address, uint8_t size, bool sendStop) { SIM_STUB; return uint8_t(requestFrom(address, size_t(size), sendStop)); }
    uint8_t requestFrom(uint8_t address, uint8_t size, uint8_t sendStop) { SIM_STUB; return uint8_t(requestFrom(uint16_t(address), size_t(size), bool(sendStop))); }
    uint8_t requestFrom(uint16_t address, uint8_t size) { SIM_STUB; return uint8_t(requestFrom(address, size_t(size), true)); }
    uint8_t requestFrom(uint8_t address, uint8_t size) { SIM_STUB; return uint8_t(requestFrom(uint16_t(address), size_t(size), true)); }
    uint8_t requestFrom(int address, int size, int sendStop) { SIM_STUB; return uint8_t(requestFrom(uint16_t(address), size_t(size), bool(sendStop))); }
    uint8_t requestFrom(int address, int size) { SIM_STUB; return uint8_t(requestFrom(uint16_t(address), size_t(size), true)); }
    int available() { SIM_STUB; auto &b = sim::i2c[bus]; return int(b.rxBuffer.size() - b.rxPos); }
    int read() { SIM_STUB; auto &b = sim::i2c[bus]; return b.rxPos < b.rxBuffer.size() ? b.rxBuffer[b.rxPos++] : -1; }
    int peek() { SIM_STUB; auto &b = sim::i2c[bus]; return b.rxPos < b.rxBuffer.size() ? b.rxBuffer[b.rxPos] : -1; }
    size_t readBytes(uint8_t* data, size_t n) { SIM_STUB; size_t k = 0; while (k < n && available()) data[k++] = uint8_t(read()); return k; }
    size_t readBytes(char* data, size_t n) { SIM_STUB; return readBytes(reinterpret_cast<uint8_t*>(data), n); }
    void flush() {}

private:
    uint8_t bus;
};
inline TwoWire Wire { 0 };
inline TwoWire Wire1 { 1 };
