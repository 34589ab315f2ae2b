#pragma once
#include "hal/uart_types.h"
#include "freertos/FreeRTOS.h"
#include "freertos/task.h"
#define UART_PIN_NO_CHANGE (-1)
#define UART_HW_FIFO_LEN(n) (128)
#define UART_FIFO_LEN 128
#define UART_BITRATE_MAX 5000000
typedef void* QueueHandle_t;

namespace sim
{
struct RxByte { uint64_t at; uint8_t value; };
struct Port
{
    std::vector<RxByte> rx;
    size_t rxPos = 0;
    std::vector<uint64_t> consumedAt;
    std::vector<uint8_t> tx;
    size_t txOut = 0;
    int writes = 0, waits = 0;
    std::function<int(const uint8_t*, size_t n)> accept;       // result of a write (-1: error)
    std::function<bool()> readFails;                           // this read call reports an error
    bool installed = false;
    int installs = 0, rxBuffer = 0, configs = 0, pinCalls = 0;
    uart_config_t config {};
    int txPin = -2, rxPin = -2, rtsPin = -2, ctsPin = -2;
    bool ready() const { SIM_STUB; return rxPos < rx.size() && rx[rxPos].at <= nowUs; }
    uint8_t take() { SIM_STUB; consumedAt.push_back(nowUs); return rx[rxPos++].value; }
};
inline std::array<Port, 3> ports;
}

inline bool uart_is_driver_installed(uart_port_t n) { SIM_STUB; return sim::ports[n].installed; }
inline esp_err_t uart_param_config(uart_port_t n, const uart_config_t* c)
{
    SIM_STUB;
    esp_err_t e = sim::outcome("uart_param_config");
    if (e == ESP_OK) { sim::ports[n].config = *c; ++sim::ports[n].configs; }
    return e;
}
inline esp_err_t uart_set_pin(uart_port_t n, int tx, int rx, int rts, int cts)
{
    SIM_STUB;
    esp_err_t e = sim::outcome("uart_set_pin");
    auto &p = sim::ports[n];
    if (e == ESP_OK) { p.txPin = tx; p.rxPin = rx; p.rtsPin = rts; p.ctsPin = cts; ++p.pinCalls; }
    return e;
}
inline esp_err_t uart_driver_install(uart_port_t n, int rxBuffer, int txBuffer, int, QueueHandle_t*, int)
{
    SIM_STUB;
    auto &p = sim::ports[n];
    if (rxBuffer <= 128) return ESP_FAIL;
    if (p.installed) return ESP_FAIL;
    esp_err_t e = sim::outcome("uart_driver_install");
    if (e == ESP_OK) { p.installed = true; ++p.installs; p.rxBuffer = rxBuffer; }
    return e;
}
inline esp_err_t uart_driver_delete(uart_port_t n) { SIM_STUB; sim::ports[n].installed = false; return ESP_OK; }
inline int uart_read_bytes(uart_port_t n, void* buf, uint32_t length, TickType_t ticks)
{
    SIM_STUB;
    auto &p = sim::ports[n];
    sim::advance(sim::pollCostUs);
    if (p.readFails && p.readFails()) return -1;
    auto out = static_cast<uint8_t*>(buf);
    const uint64_t deadline = sim::nowUs + uint64_t(ticks) * portTICK_PERIOD_MS * 1000;
    uint32_t got = 0;
    while (got < length)
    {
        if (p.ready()) { out[got++] = p.take(); continue; }
        if (p.rxPos < p.rx.size() && p.rx[p.rxPos].at < deadline) { sim::advance(p.rx[p.rxPos].at - sim::nowUs); continue; }
        if (deadline > sim::nowUs) sim::advance(deadline - sim::nowUs);
        break;
    }
    return int(got);
}
inline esp_err_t uart_get_buffered_data_len(uart_port_t n, size_t* size)
{
    SIM_STUB;
    sim::advance(sim::pollCostUs);
    *size = 0;
    auto &p = sim::ports[n];
    for (size_t i = p.rxPos; i < p.rx.size() && p.rx[i].at <= sim::nowUs; ++i) ++*size;
    return ESP_OK;
}
inline int uart_write_bytes(uart_port_t n, const void* data, size_t size)
{
    SIM_STUB;
    auto &p = sim::ports[n];
    ++p.writes;
    auto b = static_cast<const uint8_t*>(data);
    int k = p.accept ? p.accept(b, size) : int(size);
    if (k > 0) p.tx.insert(p.tx.end(), b, b + k);
    return k;
}
inline esp_err_t uart_wait_tx_done(uart_port_t n, TickType_t)
{
    SIM_STUB;
    auto &p = sim::ports[n];
    ++p.waits; p.txOut = p.tx.size();
    return sim::outcome("uart_wait_tx_done");
}
inline esp_err_t uart_flush_input(uart_port_t n) { SIM_STUB; auto &p = sim::ports[n]; while (p.ready()) p.take(); return ESP_OK; }
inline esp_err_t uart_flush(uart_port_t n) { SIM_STUB; return uart_flush_input(n); }
inline esp_err_t uart_set_baudrate(uart_port_t n, uint32_t v) { SIM_STUB; esp_err_t e = sim::outcome("uart_set_baudrate"); if (e == ESP_OK) sim::ports[n].config.baud_rate = int(v); return e; }
inline esp_err_t uart_set_word_length(uart_port_t n, uart_word_length_t v) { SIM_STUB; esp_err_t e = sim::outcome("uart_set_word_length"); if (e == ESP_OK) sim::ports[n].config.data_bits = v; return e; }
inline esp_err_t uart_set_parity(uart_port_t n, uart_parity_t v) { SIM_STUB; esp_err_t e = sim::outcome("uart_set_parity"); if (e == ESP_OK) sim::ports[n].config.parity = v; return e; }
inline esp_err_t uart_set_stop_bits(uart_port_t n, uart_stop_bits_t v) { SIM_STUB; esp_err_t e = sim::outcome("uart_set_stop_bits"); if (e == ESP_OK) sim::ports[n].config.stop_bits = v; return e; }
inline esp_err_t uart_set_hw_flow_ctrl(uart_port_t n, uart_hw_flowcontrol_t v, uint8_t t) { SIM_STUB; esp_err_t e = sim::outcome("uart_set_hw_flow_ctrl"); if (e == ESP_OK) { sim::ports[n].config.flow_ctrl = v; sim::ports[n].config.rx_flow_ctrl_thresh = t; } return e; }
