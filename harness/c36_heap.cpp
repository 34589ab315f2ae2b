// C36: the heap is watched during every operation of the library (only the simulated environment may use it).
#include "mc.h"
#ifdef PLAT_ARDUINO
#include <Arduino.h>
#include "arduino/GpioPinDefinition.h"
#include "arduino/I2CBus.h"
#include "arduino/PacketUartImpl.h"
#include "arduino/SpiBus.h"
#elif defined(PLAT_ESP)
#include <esp_timer.h>
#include <esp_sleep.h>
#include <driver/gpio.h>
#include <driver/i2c.h>
#include <driver/spi_master.h>
#include <driver/uart.h>
#include <esp_adc/adc_oneshot.h>
#include "esp32-esp-idf/GpioPinDefinition.h"
#include "esp32-esp-idf/I2CBus.h"
#include "esp32-esp-idf/PacketUartImpl.h"
#include "esp32-esp-idf/SleepFunctions.h"
#include "esp32-esp-idf/SpiBus.h"
#else
#include <algorithm>
#include <cstdlib>
#include <iterator>
#include <type_traits>
#include "BufferedOut.h"
#include "EndianConversion.h"
#include "PersistentStorage.h"
#include "graphics/Canvas.h"
#include "graphics/EmbeddedFont.h"
#include "graphics/EmbeddedFonts.h"
#include "graphics/GFXFontsAdapter.h"
#include "graphics/SimpleFrameBuffer.h"
#endif
#ifndef PLAT_CORE
#include "AnalogPin.h"
#include "Debug.h"
#include "Delays.h"
#include "GpioDigitalPin.h"
#include "I2CDevice.h"
#include "PacketUart.h"
#include "SerialOut.h"
#include "SpiDevice.h"
#endif
#include <limits>
#include <memory>
#include <string>
#include <vector>

// ---- the heap ------------------------------------------------------------------------------------
namespace
{
volatile int watched = 0;
volatile long uses = 0;
volatile size_t lastSize = 0;
inline void used(size_t n)
{
#ifdef PLAT_CORE
    if (watched) { uses = uses + 1; lastSize = n; }
#else
    if (watched && !sim::inside) { uses = uses + 1; lastSize = n; }
#endif
}
}
extern "C"
{
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void* malloc(size_t n) { used(n); return __libc_malloc(n); }
void* calloc(size_t k, size_t n) { used(k * n); return __libc_calloc(k, n); }
void* realloc(void* p, size_t n) { used(n); return __libc_realloc(p, n); }
void* memalign(size_t a, size_t n) { used(n); return __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { used(n); return __libc_memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n) { used(n); *p = __libc_memalign(a, n); return *p ? 0 : 12; }
}

namespace
{
struct Watch
{
    Watch() { uses = 0; watched = 1; }
    ~Watch() { watched = 0; }
};
void verdict(const char* what)
{
    watched = 0;
    mc::step();
    if (uses) mc::fail("%s takes %zu bytes from the heap", what, size_t(lastSize));
}
// one operation under watch
#define OP(what, ...) do { { Watch mc_watch; __VA_ARGS__; } verdict(what); } while (0)

const size_t kLengths[] = { 0, 1, 2, 3, 4, 5, 7, 8, 9, 14, 15, 16, 17, 22, 23, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4096, 8192, 65535, 65536, 70000 };
constexpr size_t kMaxLength = 70000;
std::string* gText = nullptr;
std::vector<uint8_t>* gBytes = nullptr;
void prepare()
{
    if (!gText) gText = new std::string(kMaxLength + 1, 'x');
    if (!gBytes) gBytes = new std::vector<uint8_t>(kMaxLength + 1, 0x5A);
}
}

// the watch itself works: it sees the heap used, and only then
MC_SCENARIO(watch, 1, 1)
{
    const int kind = mc::choose(7, "kind");
    long seen = 0;
    {
        Watch w;
        switch (kind)
        {
            case 0: break;
            case 1: { auto p = new int; *static_cast<volatile int*>(p) = 1; delete p; break; }
            case 2: { auto p = new char[100]; *static_cast<volatile char*>(p) = 1; delete[] p; break; }
            case 3: { std::string s(40, 'x'); static_cast<volatile char*>(&s[0])[0] = 1; break; }
            case 4: { std::vector<int> v(3); static_cast<volatile int*>(v.data())[0] = 1; break; }
            case 5: { auto p = malloc(10); *static_cast<volatile char*>(p) = 1; free(p); break; }
            case 6: { try { throw std::string("x"); } catch (const std::string &) {} break; }
        }
        seen = uses;
    }
    if ((seen > 0) != (kind > 0)) mc::fail("harness error: the heap use of kind %d is %s", kind, seen ? "seen" : "not seen");
    mc::step();
    mc::state(mc::Hash().u(kind));
}

#ifdef PLAT_CORE
namespace
{
template<size_t N> struct Value { uint8_t b[N]; };
template<size_t N> void access(embedded::PersistentStorage &s, std::string_view name)
{
    static Value<N> v {};
    bool ok = false, there = false;
    v.b[0] = uint8_t(name.size());
    OP("storing", ok = s.set(name, v));
    OP("loading", there = bool(s.get<Value<N>>(name)));
    mc::state(mc::Hash().u(N).u(name.size()).u(ok).u(there));
}
}
// storages of every size, names of every length, values of several sizes, full storages, overwriting, attaching again
MC_SCENARIO(storage, 16, 1)
{
    prepare();
    const size_t n = mc::pick(kLengths, "capacity");
    std::unique_ptr<uint8_t[]> memory(new uint8_t[n]());
    const embedded::BytesView view(memory.get(), n);
    const bool init = mc::flag("initialise");
    std::unique_ptr<embedded::PersistentStorage> place(static_cast<embedded::PersistentStorage*>(operator new(sizeof(embedded::PersistentStorage))));
    OP("attaching", new (place.get()) embedded::PersistentStorage(view, init));
    static const char* const names[] = { "", "a", "ab", "abc", "abcd", "b", "wxyz" };
    for (int round = 0; round < 3; ++round)
    {
        for (auto name : names)
            switch (mc::thorough || round == 0 ? mc::choose(4, "size") : (round + int(name[0])) % 4)
            {
                case 0: access<1>(*place, name); break;
                case 1: access<4>(*place, name); break;
                case 2: access<40>(*place, name); break;
                default: access<3000>(*place, name); break;
            }
        for (size_t l : kLengths) access<4>(*place, std::string_view(*gText).substr(0, l));
        OP("attaching again", new (place.get()) embedded::PersistentStorage(view, false));
    }
}

namespace
{
constexpr int kItems = 46;
void item(embedded::BufferedOut &o, int k)
{
    using B = embedded::BufferedOut;
    switch (k)
    {
        case 0: OP("an int", o << std::numeric_limits<int>::min()); break;
        case 1: OP("an int", o << 0); break;
        case 2: OP("an unsigned", o << 4294967295u); break;
        case 3: OP("a long", o << std::numeric_limits<long>::min()); break;
        case 4: OP("an unsigned long", o << std::numeric_limits<unsigned long>::max()); break;
        case 5: OP("a long long", o << std::numeric_limits<long long>::min()); break;
        case 6: OP("an unsigned long long", o << std::numeric_limits<unsigned long long>::max()); break;
        case 7: OP("a float", o << 0.0f); break;
        case 8: OP("a float", o << -1.5f); break;
        case 9: OP("a float", o << 2147483520.0f); break;
        case 10: OP("a float", o << 1e30f); break;
        case 11: OP("a float", o << -std::numeric_limits<float>::infinity()); break;
        case 12: OP("a float", o << std::numeric_limits<float>::quiet_NaN()); break;
        case 13: OP("a float", o << 1e-40f); break;
        case 14: OP("a byte", o << (unsigned char)0xA5); break;
        case 15: OP("a character", o << 'c'); break;
        case 16: OP("precision", o << B::precision { 1 }); break;
        case 17: OP("precision", o << B::precision { 9 }); break;
        case 18: OP("precision", o << B::precision { 60 }); break;
        case 19: OP("width", o << B::width { 5 }); break;
        case 20: OP("width", o << B::width { 17 }); break;
        case 21: OP("width", o << B::width { 300 }); break;
        case 22: OP("fill", o << B::fill { '0' }); break;
        case 23: OP("clear", o.clear()); break;
        case 24: OP("the views", (void)o.data(); (void)o.asStringView(); (void)o.size(); (void)o.capacity()); break;
        case 25: OP("addChar", o.addChar('z')); break;
        default:
        {
            static const size_t l[] = { 0, 1, 15, 16, 23, 64, 129, 300, 1025, 70000 };
            const int i = (k - 26) % 10;
            if (k < 36) { if (i & 1) OP("a string view", o << std::string_view(*gText).substr(0, l[i])); else { const std::string s = gText->substr(0, l[i]); OP("a text", o << s.c_str()); } }
            else OP("bytes", o << embedded::ConstBytesView(gBytes->data(), l[i]));
        }
    }
}
}
// all sequences of items and settings
MC_SCENARIO(output, 48, 2)
{
    prepare();
    static const size_t sizes[] = { 0, 1, 2, 8, 16, 17, 33, 300, 1100, 70001 };
    const size_t n = mc::pick(sizes, "buffer size");
    std::unique_ptr<char[]> buffer(new char[n]);
    std::unique_ptr<embedded::BufferedOut> place(static_cast<embedded::BufferedOut*>(operator new(sizeof(embedded::BufferedOut))));
    OP("an output", new (place.get()) embedded::BufferedOut(embedded::MemoryView<char>(buffer.get(), n)));
    for (int i = 0, depth = mc::thorough ? 3 : 2; i < depth; ++i) item(*place, mc::choose(kItems, "item"));
    // every item once more in this state
    for (int k = 0; k < kItems; ++k) if (k != 23) item(*place, k);
    mc::state(mc::Hash().u(n).bytes(buffer.get(), std::min<size_t>(n, 40)));
}
MC_SCENARIO(views, 16, 1)
{
    prepare();
    const size_t n = mc::pick(kLengths, "size");
    for (size_t a : kLengths)
        for (size_t b : kLengths)
        {
            const embedded::BytesView v(gBytes->data(), n);
            const embedded::MemoryView<char> c(&(*gText)[0], n);
            OP("views", (void)v.subspan(a, b); (void)v.first(a).last(b); (void)v.as_bytes(); (void)std::string_view(c); (void)v.size_bytes());
        }
    uint32_t x = uint32_t(n) * 2654435761u;
    OP("byte order", x = embedded::changeEndianess(x) ^ embedded::changeEndianess(uint16_t(x)); (void)embedded::changeEndianessToFloat(x); embedded::changeEndianess16x2(&x));
    mc::state(mc::Hash().u(n));
}

namespace
{
// a font of all codes whose glyphs are up to 40 pixels wide
const embedded::fonts::FontDescriptor &wideFont()
{
    static std::vector<uint8_t> bits(256 * 40, 0xA5);
    static std::vector<embedded::fonts::GlyphDescriptor> g = []
    {
        std::vector<embedded::fonts::GlyphDescriptor> r;
        for (int i = 0; i < 224; ++i) r.push_back({ uint16_t(i * 25), { uint8_t(i % 41), uint8_t(i % 5) }, uint8_t(i % 43), { int8_t(i % 9 - 4), int8_t(i % 11 - 5) } });
        return r;
    }();
    static const embedded::fonts::FontDescriptor d { { bits.data(), bits.size() }, { g.data(), g.size() }, 0x20, 0xFF, 12 };
    return d;
}
template<int W, int H, uint8_t Depth> void picture()
{
    prepare();
    std::unique_ptr<SimpleFrameBuffer<W, H, Depth>> f(static_cast<SimpleFrameBuffer<W, H, Depth>*>(operator new(sizeof(SimpleFrameBuffer<W, H, Depth>))));
    OP("a frame buffer", new (f.get()) SimpleFrameBuffer<W, H, Depth>());
    std::unique_ptr<Canvas> c(static_cast<Canvas*>(operator new(sizeof(Canvas))));
    OP("a canvas", new (c.get()) Canvas(*f));
    const auto rotation = Canvas::Rotation(mc::choose(4, "rotation"));
    const bool wide = mc::flag("font");
    const embedded::fonts::EmbeddedFont own(wideFont());
    const embedded::fonts::EmbeddedFont &font = wide ? own : embedded::fonts::FreeSans15pt;
    static const int places[] = { -1000, -3, 0, 7, 60, 2000 };
    const int x = mc::pick(places, "x"), y = mc::pick(places, "y");
    OP("rotation", c->setRotation(rotation); (void)c->getSize(); (void)c->getRotation(); (void)c->getImage());
    OP("a colour", c->setColor(0x12345678));
    OP("a clear", c->clear(0x87654321));
    OP("a pixel", c->drawPixel({ x, y }));
    for (int ex : places)
        for (int ey : places)
        {
            OP("a line", c->drawLine({ x, y }, { ex, ey }));
            OP("a rectangle", c->drawRectangle({ { x, y }, { ex, ey } }));
            OP("a filled rectangle", c->drawFilledRectangle({ { x, y }, { ex, ey } }));
        }
    for (int r : { 0, 1, 2, 3, 10, 33, 64, 150, 300 })
    {
        OP("a circle", c->drawCircle({ x, y }, r));
        OP("a filled circle", c->drawCircle({ x, y }, r, true));
    }
    for (int code = 0; code < 256; ++code)
    {
        OP("a look-up", (void)font.getBitmap(char(code)));
        OP("a character", (void)c->drawCharAt({ x, y }, char(code), font));
    }
    for (size_t l : kLengths)
    {
        if (l > 600 && !mc::thorough) break;
        if (l > 9000) break;
        OP("text bounds", (void)font.getTextBounds(std::string_view(*gText).substr(0, l)));
        OP("a text", c->drawStringAt({ x, y }, std::string_view(*gText).substr(0, l), font));
    }
    const auto image = f->getImage();
    mc::state(mc::Hash().u(Depth).bytes(image.begin(), image.size()));
}
}
MC_SCENARIO(graphics, 48, 3)
{
    switch (mc::choose(7, "depth"))
    {
        case 0: picture<64, 40, 1>(); break;
        case 1: picture<64, 40, 2>(); break;
        case 2: picture<64, 40, 4>(); break;
        case 3: picture<64, 40, 8>(); break;
        case 4: picture<64, 40, 16>(); break;
        case 5: picture<64, 40, 24>(); break;
        default: picture<64, 40, 32>(); break;
    }
}
#else
namespace
{
#ifdef PLAT_ARDUINO
inline int count(int) { return 0; }
#endif
void fresh()
{
    prepare();
    sim::nowUs = 0; sim::bootUs = 0; sim::pollCostUs = 50; sim::horizonUs = ~0ull;
    sim::onHorizon = nullptr; sim::tick = nullptr;
    for (auto &p : sim::ports) p = {};
#ifdef PLAT_ARDUINO
    for (auto &b : sim::i2c) b = {};
    sim::spi = {};
    sim::pinLog.clear();
#else
    sim::fault = nullptr; sim::clockCost = nullptr; sim::lightSleep = nullptr; sim::deepSleep = nullptr; sim::i2cResult = nullptr;
    for (auto &h : sim::spi) for (auto d : h.devices) delete d;
    sim::spi = {};
    for (auto l : sim::i2cLinks) delete l;
    sim::i2cLinks.clear(); sim::i2cLog.clear(); sim::i2cProbes.clear();
    sim::gpioLog.clear(); sim::armed.clear(); sim::adcReads.clear();
    for (auto &u : sim::adcUnit) { delete u; u = nullptr; }
#endif
}
constexpr int kItems = 24;
void item(embedded::SerialOut &o, int k)
{
    switch (k)
    {
        case 0: OP("an int", o << std::numeric_limits<int>::min()); break;
        case 1: OP("an unsigned", o << 4294967295u); break;
        case 2: OP("a long", o << std::numeric_limits<long>::min()); break;
        case 3: OP("an unsigned long", o << std::numeric_limits<unsigned long>::max()); break;
        case 4: OP("a long long", o << std::numeric_limits<long long>::min()); break;
        case 5: OP("an unsigned long long", o << std::numeric_limits<unsigned long long>::max()); break;
        case 6: OP("a float", o << -12345.678f); break;
        case 7: OP("precision", o << embedded::SerialOut::precision { 5 }); break;
        case 8: OP("a byte", o << (unsigned char)7); break;
        case 9: OP("end", o << embedded::SerialOut::end {}); break;
        case 10: OP("end of line", o << embedded::SerialOut::endl {}); break;
        case 11: OP("infinity", o << std::numeric_limits<float>::infinity()); break;
        default:
        {
            static const size_t l[] = { 0, 15, 16, 64, 129, 1025 };
            const int i = (k - 12) % 6;
            const std::string s = gText->substr(0, l[i]);
            if (k < 18) OP("a text", o << s.c_str());
            else OP("bytes", o << embedded::ConstBytesView(gBytes->data(), l[i]));
        }
    }
}
}
// lines on the serial port, with ports that take all, a part, or nothing
MC_SCENARIO(serialOut, 48, 2)
{
    fresh();
    static const size_t sizes[] = { 1, 2, 16, 40, 130, 300, 2100, 65535 };
    const size_t n = mc::pick(sizes, "buffer size");
    const int takes = mc::choose(3, "the port takes");
    for (auto &p : sim::ports) p.accept = [takes](const uint8_t*, size_t n) -> decltype(sim::ports[0].accept(nullptr, 0)) { return takes == 0 ? n : takes == 1 ? n / 2 : 0; };
    std::unique_ptr<char[]> buffer(new char[n]);
    embedded::PacketUart::UartDevice device(1);
    embedded::PacketUart uart(device);
    std::unique_ptr<embedded::SerialOut> place(static_cast<embedded::SerialOut*>(operator new(sizeof(embedded::SerialOut))));
    OP("an output", new (place.get()) embedded::SerialOut(embedded::MemoryView<char>(buffer.get(), n), uart));
    for (int i = 0, depth = mc::thorough ? 3 : 2; i < depth; ++i) item(*place, mc::choose(kItems, "item"));
    for (int k = 0; k < kItems; ++k) item(*place, k);
    OP("a debug message", DEBUG_LOG("text " << n << " and more " << 1.5f));
    mc::state(mc::Hash().u(n).u(takes).u(sim::ports[1].tx.size()));
}
// every receive and send call: lengths, timeouts, lines with all, some and none of the bytes
MC_SCENARIO(uart, 48, 2)
{
    fresh();
    const size_t n = mc::pick(kLengths, "size");
    if (n > 65535) mc::prune();
    static const uint16_t timeouts[] = { 0, 1, 20, 1000, 65535 };
    const uint16_t timeout = mc::pick(timeouts, "timeout");
    const int fill = mc::choose(4, "line");
    embedded::PacketUart::UartDevice device(1);
    std::unique_ptr<embedded::PacketUart> uart(static_cast<embedded::PacketUart*>(operator new(sizeof(embedded::PacketUart))));
    OP("a UART", new (uart.get()) embedded::PacketUart(device));
    const int offset = mc::choose(4, "offset of the buffer");
    std::unique_ptr<uint8_t[]> memory(new uint8_t[n + 4]);
    uint8_t* const buffer = memory.get() + offset;
    struct Horizon {};
    sim::horizonUs = 200000000;
    sim::onHorizon = [] { throw Horizon {}; };
    auto line = [&]
    {
        auto &p = sim::ports[1];
        p.rx.clear(); p.rxPos = 0; p.consumedAt.clear();
        const size_t k = fill == 0 ? 0 : fill == 1 ? n / 2 : fill == 2 ? n : n + 10;
        p.rx.push_back({ sim::nowUs, '<' });
        for (size_t i = 1; i < k; ++i) p.rx.push_back({ sim::nowUs + (i < 100 ? i * 10 : 1000), uint8_t(i + 1 == k && fill == 3 ? '>' : 'a') });
    };
    // a call that never returns leaves by the exception of the simulation, which is not the library's
    auto call = [&](const char* what, auto f)
    {
        line();
        sim::horizonUs = sim::nowUs + 200000000;
        bool left = false;
        { Watch w; try { f(); } catch (const Horizon &) { left = true; } }
        if (left) { watched = 0; uses = 0; sim::inside = 0; }
        verdict(what);
    };
    call("Receive", [&] { uart->Receive(buffer, uint16_t(n), timeout); });
    call("ReceiveUntil", [&] { uart->ReceiveUntil(buffer, uint16_t(n), '>', timeout); });
    call("ReceiveBetween", [&] { uart->ReceiveBetween(buffer, uint16_t(n), '<', '>', timeout); });
    call("ReceiveBetween with equal marks", [&] { uart->ReceiveBetween(buffer, uint16_t(n), '<', '<', timeout); });
    call("ReceiveUntil with another mark", [&] { uart->ReceiveUntil(buffer, uint16_t(n), 0xFF, timeout); });
    call("ReceiveBetween with the marks 0 and 0xFF", [&] { uart->ReceiveBetween(buffer, uint16_t(n), 0, 0xFF, timeout); });
    call("Send", [&] { uart->Send(buffer, uint16_t(n), timeout); });
    mc::state(mc::Hash().u(n).u(timeout).u(fill).u(offset).u(sim::nowUs));
}
MC_SCENARIO(spi, 16, 2)
{
    fresh();
    const size_t n = mc::pick(kLengths, "size");
    if (n > 65535) mc::prune();
    // buffers at every offset from an aligned address
    const int txOffset = mc::choose(4, "offset of the data sent"), rxOffset = mc::choose(4, "offset of the data received");
    std::unique_ptr<uint8_t[]> txMemory(new uint8_t[n + 4]()), rxMemory(new uint8_t[n + 4]);
    uint8_t* const tx = txMemory.get() + txOffset;
    uint8_t* const rx = rxMemory.get() + rxOffset;
#ifdef PLAT_ARDUINO
    embedded::SpiBus bus(SPI);
    const bool full = true;
#else
    const bool full = mc::flag("duplex");
    embedded::GpioPinDefinition a { 1 }, b { 2 }, c { 3 };
    const int fails = mc::choose(8, "the failing driver call") - 1;
    int calls = 0;
    sim::fault = [&](const char*) { return calls++ == fails ? ESP_ERR_NO_MEM : ESP_OK; };
    embedded::SpiBus bus(1);
    OP("the set-up", bus.init(a, b, c, 1000000, full ? embedded::SpiBus::DuplexMode::Full : embedded::SpiBus::DuplexMode::Half));
#endif
    std::unique_ptr<embedded::SpiDevice> d(static_cast<embedded::SpiDevice*>(operator new(sizeof(embedded::SpiDevice))));
    OP("a device", new (d.get()) embedded::SpiDevice(bus));
    OP("sendSync", d->sendSync(tx, uint16_t(n), 10));
    OP("receiveSync", d->receiveSync(rx, uint16_t(n), 10));
    if (full) OP("sendAndReceive", d->sendAndReceive(tx, rx, uint16_t(n), 10));
#ifndef PLAT_ARDUINO
    OP("the release", bus.release());
    OP("another release", bus.release());
    sim::fault = nullptr;
#endif
    mc::state(mc::Hash().u(n).u(full).u(txOffset).u(rxOffset));
}
MC_SCENARIO(i2c, 16, 2)
{
    fresh();
    const size_t n = mc::pick(kLengths, "size");
    if (n > 65535) mc::prune();
    const int answer = mc::choose(3, "answer");
    // buffers at every offset from an aligned address
    const int txOffset = mc::choose(4, "offset of the data sent"), rxOffset = mc::choose(4, "offset of the data received");
    std::unique_ptr<uint8_t[]> txMemory(new uint8_t[n + 4]()), rxMemory(new uint8_t[n + 4]);
    uint8_t* const tx = txMemory.get() + txOffset;
    uint8_t* const rx = rxMemory.get() + rxOffset;
#ifdef PLAT_ARDUINO
    embedded::I2CBus bus(Wire);
    for (auto &b : sim::i2c) { b.endResult = [=](sim::I2cTransaction &) { return answer ? answer + 1 : 0; }; b.received = [=](int, size_t asked) { return answer == 1 ? 0 : answer == 2 ? asked / 2 : asked; }; }
#else
    embedded::I2CBus bus(0);
    sim::i2cResult = [=](bool, int, int, size_t) -> esp_err_t { return answer == 0 ? ESP_OK : answer == 1 ? ESP_FAIL : ESP_ERR_TIMEOUT; };
    OP("the set-up", bus.init(1, 2, 100000));
    OP("a probe", bus.testAddress(0x33));
#endif
    std::unique_ptr<embedded::I2CDevice> d(static_cast<embedded::I2CDevice*>(operator new(sizeof(embedded::I2CDevice))));
    OP("a device", new (d.get()) embedded::I2CDevice(bus, 0x33));
    OP("sendSync", d->sendSync(tx, uint16_t(n)));
    OP("receiveSync", d->receiveSync(rx, uint16_t(n)));
    OP("sendThenReceive", d->sendThenReceive(tx, uint16_t(n), rx, uint16_t(n)));
    OP("a bus reset", bus.resetBus());
    mc::state(mc::Hash().u(n).u(answer).u(txOffset).u(rxOffset));
}
MC_SCENARIO(pins, 16, 1)
{
    fresh();
    const int number = mc::choose(256, "pin");
    const int direction = mc::choose(2, "direction"), pull = mc::choose(3, "pull mode");
#ifdef PLAT_ESP
    const int fails = mc::choose(6, "the failing driver call") - 1;
    int calls = 0;
    sim::fault = [&](const char*) { return calls++ == fails ? ESP_ERR_INVALID_STATE : ESP_OK; };
#endif
    embedded::GpioPinDefinition definition { uint8_t(number) };
    std::unique_ptr<embedded::GpioDigitalPin> pin(static_cast<embedded::GpioDigitalPin*>(operator new(sizeof(embedded::GpioDigitalPin))));
    OP("a pin", new (pin.get()) embedded::GpioDigitalPin(definition));
    OP("the set-up", pin->init(embedded::GpioDigitalPin::Direction(direction), embedded::GpioDigitalPin::PullMode(pull)));
    OP("set", pin->set(); pin->reset(); pin->set(true); pin->set(false); (void)pin->check());
    OP("a selection", { embedded::ChipSelector s(*pin); });
    std::unique_ptr<embedded::AnalogPin> analog(static_cast<embedded::AnalogPin*>(operator new(sizeof(embedded::AnalogPin))));
    OP("an analog pin", new (analog.get()) embedded::AnalogPin(definition));
    for (int i = 0; i < 3; ++i) OP("a reading", (void)analog->singleRead());
#ifdef PLAT_ESP
    sim::fault = nullptr;
#endif
    mc::state(mc::Hash().u(number).u(direction).u(pull));
}
MC_SCENARIO(delays, 16, 1)
{
    fresh();
    sim::pollCostUs = 1000;
    static const uint32_t times[] = { 0, 1, 2, 9, 10, 11, 99, 1000, 65536, 1000000 };
    const uint32_t t = mc::pick(times, "time");
    sim::bootUs = mc::flag("wrap") ? 0xFFFFFFFFull * 1000 : 0;
    OP("delay", embedded::delay(t));
    OP("delayMicroseconds", embedded::delayMicroseconds(t));
    OP("the clocks", (void)embedded::getMillisecondTicks(); (void)embedded::getMicrosecondTicks());
#ifdef PLAT_ESP
    const int fails = mc::choose(4, "the failing driver call") - 1;
    int calls = 0;
    sim::fault = [&](const char*) { return calls++ == fails ? ESP_FAIL : ESP_OK; };
    OP("a light sleep", embedded::ligntSleep(t));
    OP("a deep sleep", embedded::deepSleep(t));
    sim::fault = nullptr;
    const int port = mc::choose(3, "port");
    sim::ports[port] = {};
    OP("the set-up of a UART", embedded::SimpleUartDevice::init(port, 1, 2, 9600));
    OP("the set-up of a UART again", embedded::SimpleUartDevice::init(port, 1, 2, 9600));
#endif
    mc::state(mc::Hash().u(t).u(sim::nowUs));
}
#endif
