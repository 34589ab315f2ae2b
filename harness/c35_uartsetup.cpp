// C35: set-up of serial ports with every configuration, in every order, with failing driver calls.
#include "mc.h"
#include <driver/uart.h>
#include "esp32-esp-idf/SimpleUartDevice.h"

namespace
{
using U = embedded::SimpleUartDevice;
struct Wanted { int rx, tx, baud; U::DataBits data; U::ParityCheck parity; U::StopBits stop; U::FlowControl flow; };
const U::DataBits kData[] = { U::DataBits::Bits5, U::DataBits::Bits6, U::DataBits::Bits7, U::DataBits::Bits8 };
const U::ParityCheck kParity[] = { U::ParityCheck::None, U::ParityCheck::Even, U::ParityCheck::Odd };
const U::StopBits kStop[] = { U::StopBits::Bits1, U::StopBits::Bit1_5, U::StopBits::Bits2 };
const U::FlowControl kFlow[] = { U::FlowControl::Disable, U::FlowControl::RTS, U::FlowControl::CTS, U::FlowControl::RTS_CTS };
// what the driver is to be told, by meaning and not by number
const uart_word_length_t kDriverData[] = { UART_DATA_5_BITS, UART_DATA_6_BITS, UART_DATA_7_BITS, UART_DATA_8_BITS };
const uart_parity_t kDriverParity[] = { UART_PARITY_DISABLE, UART_PARITY_EVEN, UART_PARITY_ODD };
const uart_stop_bits_t kDriverStop[] = { UART_STOP_BITS_1, UART_STOP_BITS_1_5, UART_STOP_BITS_2 };
const uart_hw_flowcontrol_t kDriverFlow[] = { UART_HW_FLOWCTRL_DISABLE, UART_HW_FLOWCTRL_RTS, UART_HW_FLOWCTRL_CTS, UART_HW_FLOWCTRL_CTS_RTS };
struct Choice { int rx, tx, baud, data, parity, stop, flow, defaults; };     // defaults: so many of the last arguments are left out

struct Driver
{
    bool failed = false;
    Driver()
    {
        for (auto &p : sim::ports) p = sim::Port {};
        sim::fault = [this](const char* call) -> esp_err_t
        {
            static const esp_err_t errors[] = { ESP_OK, ESP_FAIL, ESP_ERR_INVALID_ARG };
            const int e = mc::deviate(3, call);
            if (e) { failed = true; mc::note("%s fails", call); }
            return errors[e];
        };
    }
    ~Driver() { sim::fault = nullptr; }
};
bool same(const sim::Port &a, const sim::Port &b)
{
    return a.installed == b.installed && a.installs == b.installs && a.configs == b.configs && a.pinCalls == b.pinCalls && a.rxBuffer == b.rxBuffer
        && a.txPin == b.txPin && a.rxPin == b.rxPin && a.rtsPin == b.rtsPin && a.ctsPin == b.ctsPin && a.writes == b.writes && a.waits == b.waits && !memcmp(&a.config, &b.config, sizeof(a.config));
}
void init(Driver &d, int n, const Choice &c)
{
    const auto before = sim::ports;
    auto &p = sim::ports[n];
    d.failed = false;
    bool ok = false, aborted = false;
    try
    {
        const auto data = kData[c.data]; const auto parity = kParity[c.parity]; const auto stop = kStop[c.stop]; const auto flow = kFlow[c.flow];
        ok = c.defaults == 0 ? U::init(n, c.rx, c.tx, c.baud, data, parity, stop, flow) : c.defaults == 1 ? U::init(n, c.rx, c.tx, c.baud, data, parity, stop)
           : c.defaults == 2 ? U::init(n, c.rx, c.tx, c.baud, data, parity) : c.defaults == 3 ? U::init(n, c.rx, c.tx, c.baud, data) : U::init(n, c.rx, c.tx, c.baud);
    }
    catch (const sim::Abort &) { aborted = true; }
    mc::step();
    mc::note("port %d: %s", n, aborted ? "abort" : ok ? "ready" : "failed");
    for (int i = 0; i < 3; ++i) MC_CHECK(i == n || same(sim::ports[i], before[i]), "port %d is touched by the set-up of port %d", i, n);
    if (before[n].installed)
    {
        MC_CHECK(ok && !aborted, "a port that is ready is not reported so");
        MC_CHECK(same(p, before[n]), "a port that is ready is touched");
        return;
    }
    MC_CHECK(ok == !d.failed, "set-up reports %s although the driver %s", ok ? "success" : "failure", d.failed ? "failed" : "did not fail");
    if (aborted)        // the chip starts again: nothing of it remains
    {
        for (auto &x : sim::ports) x = sim::Port {};
        return;
    }
    if (!ok) { MC_CHECK(!p.installed, "a failed set-up leaves the driver installed, to be taken as ready later"); return; }
    MC_CHECK(p.installed && p.installs == before[n].installs + 1, "the driver is installed %d times", p.installs - before[n].installs);
    MC_CHECK(p.configs > before[n].configs && p.pinCalls > before[n].pinCalls, "the port is not configured");
    const int data = c.defaults > 3 ? 3 : c.data, parity = c.defaults > 2 ? 0 : c.parity, stop = c.defaults > 1 ? 0 : c.stop, flow = c.defaults > 0 ? 0 : c.flow;
    MC_CHECK(p.config.baud_rate == c.baud, "baud rate %d instead of %d", p.config.baud_rate, c.baud);
    MC_CHECK(p.config.data_bits == kDriverData[data], "data bits %d instead of %d", p.config.data_bits, kDriverData[data]);
    MC_CHECK(p.config.parity == kDriverParity[parity], "parity %d instead of %d", p.config.parity, kDriverParity[parity]);
    MC_CHECK(p.config.stop_bits == kDriverStop[stop], "stop bits %d instead of %d", p.config.stop_bits, kDriverStop[stop]);
    MC_CHECK(p.config.flow_ctrl == kDriverFlow[flow], "flow control %d instead of %d", p.config.flow_ctrl, kDriverFlow[flow]);
    MC_CHECK(!(flow & 1) || (p.config.rx_flow_ctrl_thresh > 0 && p.config.rx_flow_ctrl_thresh < UART_HW_FIFO_LEN(n)), "flow control threshold %d", p.config.rx_flow_ctrl_thresh);
    MC_CHECK(p.rxPin == c.rx && p.txPin == c.tx, "pins rx %d tx %d instead of %d, %d", p.rxPin, p.txPin, c.rx, c.tx);
    MC_CHECK(p.rtsPin == UART_PIN_NO_CHANGE && p.ctsPin == UART_PIN_NO_CHANGE, "flow control pins %d %d", p.rtsPin, p.ctsPin);
    mc::state(mc::Hash().u(n).u(c.rx).u(c.tx).u(c.baud).u(data).u(parity).u(stop).u(flow));
}
}

// every combination of formats on every port
MC_SCENARIO(formats, 48, 3)
{
    Driver d;
    const int n = mc::choose(3, "port");
    Choice c {};
    c.data = mc::choose(4, "data bits"); c.parity = mc::choose(3, "parity"); c.stop = mc::choose(3, "stop bits"); c.flow = mc::choose(4, "flow control");
    c.defaults = mc::choose(5, "defaults");
    static const int bauds[] = { 0, 1, 300, 9600, 65535, 65536, 115200, 921600, 5000000, 16777216, 2147483647 };
    c.rx = 16; c.tx = 17;
    for (int baud : bauds)
    {
        for (auto &p : sim::ports) p = sim::Port {};
        c.baud = baud;
        init(d, n, c);
    }
}
MC_SCENARIO(pins, 16, 2)
{
    Driver d;
    const int n = mc::choose(3, "port"), flow = mc::choose(4, "flow control");
    for (int rx = -1; rx < 64; ++rx)
        for (int tx = -1; tx < 64; ++tx)
        {
            for (auto &p : sim::ports) p = sim::Port {};
            init(d, n, { rx, tx, 115200 + rx * 64 + tx, 3, 0, 0, flow, 0 });
        }
}
// set-ups in every order over three ports, with failing driver calls; a port in use by another part of the program
MC_SCENARIO(histories, 48, 3)
{
    Driver d;
    mc::budget(mc::thorough ? 3 : 2);
    const int foreign = mc::choose(4, "port in use");
    if (foreign < 3) { sim::ports[foreign].installed = true; sim::ports[foreign].installs = 1; sim::ports[foreign].rxBuffer = 256; sim::ports[foreign].config.baud_rate = 4711; }
    static const Choice choices[] = { { 16, 17, 9600, 3, 0, 0, 0, 4 }, { 4, 5, 115200, 2, 1, 2, 3, 0 }, { -1, 23, 300, 0, 2, 1, 1, 0 } };
    const int n = mc::thorough ? 5 : 4;
    for (int k = 0; k < n; ++k)
    {
        const int op = mc::choose(4, "operation");
        if (op == 3) { const int port = k % 3; uart_driver_delete(uart_port_t(port)); mc::note("port %d closed", port); continue; }
        init(d, op, choices[mc::choose(3, "configuration")]);
    }
}
