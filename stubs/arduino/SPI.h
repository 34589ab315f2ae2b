#pragma once
#include "Arduino.h"

#define SPI_MODE0 0
#define SPI_MODE1 1
#define SPI_MODE2 2
#define SPI_MODE3 3

class SPISettings
{
public:
    SPISettings() = default;
    SPISettings(uint32_t clock, uint8_t bitOrder, uint8_t dataMode) : clock(clock), bitOrder(bitOrder), dataMode(dataMode) {}
    uint32_t clock = 1000000;
    uint8_t bitOrder = MSBFIRST;
    uint8_t dataMode = SPI_MODE0;
};

namespace sim
{
struct Spi
{
    std::vector<uint8_t> mosi;       // every byte clocked out
    size_t clocked = 0;
    int open = 0;                    // nesting of transactions
    int begun = 0, ended = 0, outside = 0;
    uint32_t clock = 0;
    int bitOrder = -1, dataMode = -1;
    std::function<uint8_t(size_t)> miso = [](size_t i) { SIM_STUB; return uint8_t(i * 7 + 3); };
    uint8_t exchange(uint8_t out)
    {
        SIM_STUB;
        if (!open) ++outside;
        mosi.push_back(out);
        return miso(clocked++);
    }
};
inline std::array<Spi, 2> spi;
}

class SPIClass
{
public:
    explicit SPIClass(uint8_t bus = 0) : bus(bus) {}
    void begin(int8_t = -1, int8_t = -1, int8_t = -1, int8_t = -1) {}
    void end() {}
    void beginTransaction(SPISettings s) { SIM_STUB; auto &b = sim::spi[bus]; ++b.open; ++b.begun; b.clock = s.clock; b.bitOrder = s.bitOrder; b.dataMode = s.dataMode; }
    void endTransaction() { SIM_STUB; auto &b = sim::spi[bus]; --b.open; ++b.ended; }
    uint8_t transfer(uint8_t data) { SIM_STUB; return sim::spi[bus].exchange(data); }
    uint16_t transfer16(uint16_t data) { SIM_STUB; uint16_t hi = transfer(uint8_t(data >> 8)); return uint16_t(hi << 8 | transfer(uint8_t(data))); }
    uint32_t transfer32(uint32_t data) { SIM_STUB; uint32_t hi = transfer16(uint16_t(data >> 16)); return hi << 16 | transfer16(uint16_t(data)); }
    void transfer(void* data, uint32_t size) { SIM_STUB; auto p = static_cast<uint8_t*>(data); for (uint32_t i = 0; i < size; ++i) p[i] = transfer(p[i]); }
    void transfer(const uint8_t* in, uint8_t* out, uint32_t size) { SIM_STUB; transferBytes(in, out, size); }
    void transferBytes(const uint8_t* data, uint8_t* out, uint32_t size)
    {
        SIM_STUB;
        for (uint32_t i = 0; i < size; ++i)
        {
            uint8_t r = transfer(data ? data[i] : uint8_t(0xFF));
            if (out) out[i] = r;
        }
    }
    void write(uint8_t data) { SIM_STUB; transfer(data); }
    void write16(uint16_t data) { SIM_STUB; transfer16(data); }
    void write32(uint32_t data) { SIM_STUB; transfer32(data); }
    void writeBytes(const uint8_t* data, uint32_t size) { SIM_STUB; transferBytes(data, nullptr, size); }

private:
    uint8_t bus;
};
inline SPIClass SPI { 0 };
