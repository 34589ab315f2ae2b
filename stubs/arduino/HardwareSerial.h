#pragma once
#include "Arduino.h"

class Print
{
public:
    virtual ~Print() = default;
    virtual size_t write(uint8_t c) = 0;
    virtual size_t write(const uint8_t* buffer, size_t size) = 0;
    size_t write(const char* s) { SIM_STUB; return s ? write(reinterpret_cast<const uint8_t*>(s), strlen(s)) : 0; }
    size_t write(const char* s, size_t n) { SIM_STUB; return write(reinterpret_cast<const uint8_t*>(s), n); }
    virtual int availableForWrite() { SIM_STUB; return 0; }
    virtual void flush() {}
};

class Stream : public Print
{
public:
    virtual int available() = 0;
    virtual int read() = 0;
    virtual int peek() = 0;
};

class HardwareSerial : public Stream
{
public:
    explicit HardwareSerial(int num = 0) : num(num) {}

    void begin(uint32_t) {}
    void end() {}
    int available() override
    {
        SIM_STUB;
        sim::advance(sim::pollCostUs);
        int n = 0;
        for (size_t i = port().rxPos; i < port().rx.size() && port().rx[i].at <= sim::nowUs; ++i) ++n;
        return n;
    }
    int availableForWrite() override { SIM_STUB; return 128; }
    int read() override
    {
        SIM_STUB;
        sim::advance(sim::pollCostUs);
        return port().ready() ? port().take() : -1;
    }
    size_t read(uint8_t* buffer, size_t size)
    {
        SIM_STUB;
        sim::advance(sim::pollCostUs);
        size_t n = 0;
        while (n < size && port().ready()) buffer[n++] = port().take();
        return n;
    }
    size_t read(char* buffer, size_t size) { SIM_STUB; return read(reinterpret_cast<uint8_t*>(buffer), size); }
    int peek() override
    {
        SIM_STUB;
        sim::advance(sim::pollCostUs);
        return port().ready() ? port().rx[port().rxPos].value : -1;
    }
    // waits for every byte at most the configured time
    size_t readBytes(uint8_t* buffer, size_t length)
    {
        SIM_STUB;
        size_t n = 0;
        while (n < length)
        {
            int c = timedRead();
            if (c < 0) break;
            buffer[n++] = uint8_t(c);
        }
        return n;
    }
    size_t readBytes(char* buffer, size_t length) { SIM_STUB; return readBytes(reinterpret_cast<uint8_t*>(buffer), length); }
    size_t readBytesUntil(char terminator, char* buffer, size_t length)
    {
        SIM_STUB;
        size_t n = 0;
        while (n < length)
        {
            int c = timedRead();
            if (c < 0 || (char)c == terminator) break;
            buffer[n++] = char(c);
        }
        return n;
    }
    size_t readBytesUntil(char terminator, uint8_t* buffer, size_t length)
    {
        SIM_STUB;
        return readBytesUntil(terminator, reinterpret_cast<char*>(buffer), length);
    }
    void setTimeout(uint32_t timeout) { SIM_STUB; port().timeout = timeout; }
    uint32_t getTimeout() const { SIM_STUB; return sim::ports[num].timeout; }
    void flush() override { SIM_STUB; flush(true); }
    void flush(bool) { SIM_STUB; ++port().flushes; port().txOut = port().tx.size(); }

    using Print::write;
    size_t write(uint8_t c) override { SIM_STUB; return write(&c, 1); }
    size_t write(const uint8_t* buffer, size_t size) override
    {
        SIM_STUB;
        auto &p = port();
        ++p.writes;
        size_t n = p.accept ? p.accept(buffer, size) : size;
        p.tx.insert(p.tx.end(), buffer, buffer + n);
        return n;
    }
    size_t write(uint32_t n) { SIM_STUB; return write(uint8_t(n)); }
    size_t write(int n) { SIM_STUB; return write(uint8_t(n)); }
    operator bool() const { SIM_STUB; return true; }

private:
    sim::Port &port() const { SIM_STUB; return sim::ports[num]; }
    int timedRead()
    {
        SIM_STUB;
        auto &p = port();
        sim::advance(sim::pollCostUs);
        if (p.ready()) return p.take();
        const uint64_t deadline = sim::nowUs + uint64_t(p.timeout) * 1000;
        if (p.rxPos < p.rx.size() && p.rx[p.rxPos].at < deadline)
        {
            sim::advance(p.rx[p.rxPos].at - sim::nowUs);
            return p.take();
        }
        sim::advance(deadline - sim::nowUs);
        return -1;
    }
    int num;
};

inline HardwareSerial Serial { 0 };
inline HardwareSerial Serial1 { 1 };
inline HardwareSerial Serial2 { 2 };

// On the real platforms long has 32 bits; sources that end their includes here see it that way too.
#ifdef MC_LONG32
#define long int
#endif
