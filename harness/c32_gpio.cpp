// C32: digital pins and chip selection on both platforms; the whole pin state is compared after every operation.
#include "mc.h"
#ifdef PLAT_ARDUINO
#include <Arduino.h>
#include "arduino/GpioPinDefinition.h"
#else
#include <driver/gpio.h>
#include "esp32-esp-idf/GpioPinDefinition.h"
#endif
#include "GpioDigitalPin.h"
#include <memory>
#include <stdexcept>

namespace
{
using Pin = embedded::GpioDigitalPin;
using embedded::ChipSelector;
constexpr int kPins =
#ifdef PLAT_ARDUINO
    256;
#else
    64;
#endif
struct PinState
{
    int level, direction, pull;     // direction -1: never configured, 0 input, 1 output; pull 0 up 1 down 2 none
    bool operator==(const PinState &o) const { return level == o.level && direction == o.direction && pull == o.pull; }
};
struct Board
{
    std::vector<PinState> expected;
    bool fails = false;
    explicit Board(int level = 0)
    {
#ifdef PLAT_ARDUINO
        sim::pinLog.clear();
        sim::pinLevel.fill(level);
        sim::pinMode_.fill(0);
#else
        sim::gpio = {};
        for (auto &g : sim::gpio) g.level = level;
        sim::gpioLog.clear();
        sim::fault = nullptr;
#endif
        expected.assign(kPins, { level, -1, -1 });
    }
    ~Board()
    {
#ifndef PLAT_ARDUINO
        sim::fault = nullptr;
#endif
    }
    static bool valid(int pin)
    {
#ifdef PLAT_ARDUINO
        return true;
#else
        return pin < 40 && pin != 24 && !(pin >= 28 && pin <= 31);
#endif
    }
    static PinState actual(int pin)
    {
#ifdef PLAT_ARDUINO
        const int m = sim::pinMode_[pin], pull = m & (PULLUP | PULLDOWN);
        const int rest = m & ~(PULLUP | PULLDOWN);
        return { sim::pinLevel[pin], m == 0 ? -1 : rest == INPUT ? 0 : rest == OUTPUT ? 1 : 99, m == 0 ? -1 : pull == PULLUP ? 0 : pull == PULLDOWN ? 1 : pull == 0 ? 2 : 99 };
#else
        auto &g = sim::gpio[pin];
        return { g.level, g.mode == -1 ? -1 : g.mode == GPIO_MODE_INPUT ? 0 : g.mode == GPIO_MODE_OUTPUT ? 1 : 99,
                 g.mode == -1 ? -1 : g.up == 1 && g.down == 0 ? 0 : g.up == 0 && g.down == 1 ? 1 : g.up == 0 && g.down == 0 ? 2 : 99 };
#endif
    }
    static void drive(int pin, int level)
    {
#ifdef PLAT_ARDUINO
        sim::pinLevel[pin] = level;
#else
        sim::gpio[pin].level = level;
#endif
    }
    void compare(const char* what)
    {
        mc::step();
        for (int i = 0; i < kPins; ++i)
        {
            const PinState a = actual(i), &e = expected[i];
            MC_CHECK(a == e, "%s: pin %d has level %d, direction %d, pull mode %d instead of %d, %d, %d", what, i, a.level, a.direction, a.pull, e.level, e.direction, e.pull);
        }
    }
    // levels written since the last call, as (pin, level)
    std::vector<std::pair<int, int>> written()
    {
        std::vector<std::pair<int, int>> r;
#ifdef PLAT_ARDUINO
        for (auto &e : sim::pinLog) if (e.op == 'w') r.push_back({ e.pin, e.value != 0 });
        sim::pinLog.clear();
#else
        for (auto &e : sim::gpioLog) if (e.op == 'w') r.push_back({ e.pin, e.value != 0 });
        sim::gpioLog.clear();
#endif
        return r;
    }
};
const char* const kOps[] = { "set", "reset", "set(true)", "set(false)", "check", "init", "level from outside", "select", "deselect" };

void init(Board &board, const Pin &p, int number, int direction, int pull, bool driverFails, int defaults = 0)
{
    using D = Pin::Direction;
    using M = Pin::PullMode;
    bool failed = !Board::valid(number);
#ifndef PLAT_ARDUINO
    sim::fault = [&](const char*) -> esp_err_t { if (!driverFails) return ESP_OK; failed = true; return ESP_FAIL; };
#else
    (void)driverFails;
#endif
    const D d = direction ? D::Output : D::Input;
    const M m = pull == 0 ? M::Up : pull == 1 ? M::Down : M::None;
    const bool ok = defaults == 2 ? p.init() : defaults == 1 ? p.init(d) : p.init(d, m);
#ifndef PLAT_ARDUINO
    sim::fault = nullptr;
#endif
    if (defaults == 2) direction = 1;
    if (defaults) pull = 2;
    mc::note("init pin %d direction %d pull %d -> %d", number, direction, pull, int(ok));
    MC_CHECK(ok == !failed, "init of pin %d reports %d", number, int(ok));
    if (ok && number < kPins) { board.expected[number].direction = direction; board.expected[number].pull = pull; }
    board.compare("init");
    MC_CHECK(board.written().empty(), "init writes a level");
}
}

// every pin, operation, direction and pull mode, from both levels
MC_SCENARIO(everyPin, 16, 2)
{
    const int level = mc::choose(2, "level");
    const int op = mc::choose(6, "operation");
    const int direction = op == 5 ? mc::choose(2, "direction") : 0, pull = op == 5 ? mc::choose(3, "pull mode") : 0;
    const int variant = op == 5 ? mc::choose(4, "variant") : 0;
    for (int n = 0; n < 256; ++n)
    {
        Board board(level);
        embedded::GpioPinDefinition def { uint8_t(n) };
        const Pin p(def);
        mc::note("%s pin %d", kOps[op], n);
        switch (op)
        {
            case 0: p.set(); break;
            case 1: p.reset(); break;
            case 2: p.set(true); break;
            case 3: p.set(false); break;
            case 4: { const bool v = p.check(); MC_CHECK(n >= kPins || v == bool(level), "reading pin %d returns %d instead of %d", n, int(v), level); break; }
            case 5: init(board, p, n, direction, pull, variant == 3, variant == 3 ? 0 : variant); continue;
        }
        if (op < 4 && n < kPins) board.expected[n].level = op == 0 || op == 2;
        board.compare(kOps[op]);
        if (op == 4 && n < kPins)
        {
            board.drive(n, !level);
            board.expected[n].level = !level;
            MC_CHECK(p.check() == !level, "reading pin %d returns %d instead of %d", n, level, !level);
            board.compare(kOps[op]);
        }
        mc::state(mc::Hash().u(n).u(op).u(level));
    }
}
// a pin definition that is changed later: the pin object refers to it
MC_SCENARIO(histories, 48, 3)
{
    mc::budget(2);
    Board board(mc::choose(2, "level"));
    static const int numbers[] = { 0, 7, 32, 39 };
    embedded::GpioPinDefinition defs[4];
    std::unique_ptr<Pin> pins[4];
    for (int i = 0; i < 4; ++i) { defs[i].pin = uint8_t(numbers[i]); pins[i].reset(new Pin(defs[i])); }
    const int n = mc::thorough ? 5 : 4;
    for (int k = 0; k < n; ++k)
    {
        const int i = mc::choose(4, "pin"), op = mc::choose(7, "operation");
        auto &e = board.expected[numbers[i]];
        mc::note("%s pin %d", kOps[op], numbers[i]);
        board.written();
        switch (op)
        {
            case 0: pins[i]->set(); e.level = 1; break;
            case 1: pins[i]->reset(); e.level = 0; break;
            case 2: pins[i]->set(true); e.level = 1; break;
            case 3: pins[i]->set(false); e.level = 0; break;
            case 4: { const bool v = pins[i]->check(); MC_CHECK(v == bool(e.level), "reading pin %d returns %d instead of %d", numbers[i], int(v), e.level); break; }
            case 5: init(board, *pins[i], numbers[i], (k + i) & 1, (k * 2 + i) % 3, mc::deviate(2, "driver") != 0); break;
            case 6: e.level = !e.level; board.drive(numbers[i], e.level); break;
        }
        board.compare(kOps[op]);
        const auto w = board.written();
        MC_CHECK(op < 4 ? !w.empty() : w.empty(), "%s writes %zu levels", kOps[op], w.size());
        for (auto &x : w) MC_CHECK(x.first == numbers[i] && x.second == e.level, "%s drives pin %d to %d in passing", kOps[op], x.first, x.second);
    }
    mc::Hash h;
    for (auto &e : board.expected) h.u(e.level).u(e.direction + 1).u(e.pull + 1);
    mc::state(h);
}
// chip selections begun and ended in every order over four pins, with other traffic on the pins in between
MC_SCENARIO(selections, 48, 3)
{
    Board board(mc::choose(2, "level"));
    static const int numbers[] = { 5, 15, 33, 4 };
    embedded::GpioPinDefinition defs[4];
    std::unique_ptr<Pin> pins[4];
    std::unique_ptr<ChipSelector> selected[4];
    for (int i = 0; i < 4; ++i) { defs[i].pin = uint8_t(numbers[i]); pins[i].reset(new Pin(defs[i])); }
    const int n = mc::thorough ? 8 : 6;
    for (int k = 0; k < n; ++k)
    {
        const int i = mc::choose(4, "pin");
        auto &e = board.expected[numbers[i]];
        board.written();
        const bool begin = !selected[i];
        if (begin) { selected[i].reset(new ChipSelector(*pins[i])); e.level = 0; }
        else { selected[i].reset(); e.level = 1; }
        mc::note("%s pin %d", begin ? "select" : "deselect", numbers[i]);
        board.compare(begin ? "selection" : "end of selection");
        for (auto &x : board.written()) MC_CHECK(x.first == numbers[i] && x.second == e.level, "a selection drives pin %d to %d in passing", x.first, x.second);
        for (int j = 0; j < 4; ++j)
            if (selected[j]) MC_CHECK(!pins[j]->check(), "pin %d is not low although selected", numbers[j]);
    }
    mc::Hash h;
    for (auto &e : board.expected) h.u(e.level);
    mc::state(h);
}
// a line that reads otherwise than it is driven (held by another device, or an output whose input is switched off)
MC_SCENARIO(heldLines, 8, 2)
{
    struct Reset { ~Reset() { sim::readLevel = nullptr; } } atEnd;
    Board board(mc::choose(2, "level"));
    static const int numbers[] = { 4, 33 };
    embedded::GpioPinDefinition defs[2] = { { 4 }, { 33 } };
    const Pin pins[] = { Pin(defs[0]), Pin(defs[1]) };
    std::unique_ptr<ChipSelector> selected[2];
    int reads[2] = { mc::choose(2, "reads"), mc::choose(2, "reads") };
    sim::readLevel = [&](int n) { return n == numbers[0] ? reads[0] : n == numbers[1] ? reads[1] : 0; };
    for (int k = 0; k < (mc::thorough ? 6 : 5); ++k)
    {
        const int i = mc::choose(2, "pin"), op = mc::choose(5, "operation");
        auto &e = board.expected[numbers[i]];
        const char* what = "a selection";
        switch (op)
        {
            case 0: pins[i].set(); e.level = 1; what = kOps[0]; break;
            case 1: pins[i].set(false); e.level = 0; what = kOps[3]; break;
            case 2:
                what = selected[i] ? "the end of a selection" : "a selection";
                e.level = selected[i] ? 1 : 0;
                if (selected[i]) selected[i].reset(); else selected[i].reset(new ChipSelector(pins[i]));
                break;
            case 3: reads[i] = !reads[i]; what = "another reading"; break;
            default: MC_CHECK(pins[i].check() == bool(reads[i]), "reading pin %d returns %d instead of %d", numbers[i], !reads[i], reads[i]); what = kOps[4]; break;
        }
        mc::note("%s, pin %d", what, numbers[i]);
        board.compare(what);
    }
    mc::Hash h;
    for (int i = 0; i < 2; ++i) h.u(board.expected[numbers[i]].level).u(reads[i]).u(selected[i] != nullptr);
    mc::state(h);
    for (int i = 0; i < 2; ++i) if (selected[i]) { selected[i].reset(); board.expected[numbers[i]].level = 1; board.compare("the end of a selection"); }
}
// scopes left normally, early and by an exception, up to three deep
namespace
{
void scope(Board &board, const Pin* pins, const int* numbers, int depth, int maxDepth, int how)
{
    ChipSelector s(pins[depth]);
    board.expected[numbers[depth]].level = 0;
    board.compare("entering a scope");
    try
    {
        if (depth + 1 < maxDepth)
        {
            scope(board, pins, numbers, depth + 1, maxDepth, how / 3);
            board.expected[numbers[depth + 1]].level = 1;
            board.compare("leaving an inner scope");
        }
    }
    catch (const std::runtime_error &)
    {
        board.expected[numbers[depth + 1]].level = 1;
        board.compare("leaving an inner scope by an exception");
        if (how % 3 == 2) throw;
    }
    if (how % 3 == 0) return;
    if (how % 3 == 1) throw std::runtime_error("leave");
}
}
MC_SCENARIO(scopes, 8, 1)
{
    const int level = mc::choose(2, "level"), depth = 1 + mc::choose(4, "depth"), how = mc::choose(81, "ways out");
    const int numbers[] = { 2, 33, 21, 0 };
    embedded::GpioPinDefinition defs[4] = { { 2 }, { 33 }, { 21 }, { 0 } };
    const Pin pins[] = { Pin(defs[0]), Pin(defs[1]), Pin(defs[2]), Pin(defs[3]) };
    Board board(level);
    try { scope(board, pins, numbers, 0, depth, how); } catch (const std::runtime_error &) {}
    board.expected[numbers[0]].level = 1;
    board.compare("leaving the outermost scope");
}
