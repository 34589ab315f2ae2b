#pragma once
#include "hal/i2c_types.h"
#include "freertos/FreeRTOS.h"
#define I2C_SCLK_SRC_FLAG_FOR_NOMAL (0)
typedef void* i2c_cmd_handle_t;
typedef struct
{
    i2c_mode_t mode;
    int sda_io_num;
    int scl_io_num;
    bool sda_pullup_en;
    bool scl_pullup_en;
    union
    {
        struct { uint32_t clk_speed; } master;
        struct { uint8_t addr_10bit_en; uint16_t slave_addr; uint32_t maximum_speed; } slave;
    };
    uint32_t clk_flags;
} i2c_config_t;

namespace sim
{
struct I2cTransfer { bool receive; int port; int address; std::vector<uint8_t> data; TickType_t ticks; esp_err_t result; };
inline std::vector<I2cTransfer> i2cLog;
inline std::function<esp_err_t(bool receive, int port, int address, size_t size)> i2cResult;
inline std::function<uint8_t(size_t)> i2cByte = [](size_t i) { SIM_STUB; return uint8_t(i * 5 + 1); };
struct I2cLink { std::string ops; std::vector<uint8_t> bytes; bool ack = true; std::vector<uint8_t*> reads; };
inline std::set<I2cLink*> i2cLinks;
inline int i2cLinkErrors = 0;
struct I2cPort { i2c_config_t config {}; int configs = 0, installs = 0; bool installed = false; };
inline std::array<I2cPort, 2> i2cPorts;
struct I2cProbe { int port; std::string ops; std::vector<uint8_t> bytes; bool ack; };
inline std::vector<I2cProbe> i2cProbes;
inline I2cLink* link(i2c_cmd_handle_t h)
{
    SIM_STUB;
    auto l = static_cast<I2cLink*>(h);
    if (!i2cLinks.count(l)) { ++i2cLinkErrors; return nullptr; }
    return l;
}
}
inline esp_err_t i2c_param_config(i2c_port_t n, const i2c_config_t* c)
{
    SIM_STUB;
    esp_err_t e = sim::outcome("i2c_param_config");
    if (e == ESP_OK) { sim::i2cPorts[n].config = *c; ++sim::i2cPorts[n].configs; }
    return e;
}
inline esp_err_t i2c_driver_install(i2c_port_t n, i2c_mode_t mode, size_t, size_t, int)
{
    SIM_STUB;
    esp_err_t e = sim::outcome("i2c_driver_install");
    if (e == ESP_OK) { sim::i2cPorts[n].installed = true; ++sim::i2cPorts[n].installs; }
    return e;
}
inline esp_err_t i2c_driver_delete(i2c_port_t n) { SIM_STUB; sim::i2cPorts[n].installed = false; return ESP_OK; }
inline esp_err_t i2c_master_write_to_device(i2c_port_t n, uint8_t address, const uint8_t* data, size_t size, TickType_t ticks)
{
    SIM_STUB;
    esp_err_t e = sim::i2cResult ? sim::i2cResult(false, n, address, size) : ESP_OK;
    sim::i2cLog.push_back({ false, n, address, std::vector<uint8_t>(data, data + size), ticks, e });
    return e;
}
inline esp_err_t i2c_master_read_from_device(i2c_port_t n, uint8_t address, uint8_t* data, size_t size, TickType_t ticks)
{
    SIM_STUB;
    esp_err_t e = sim::i2cResult ? sim::i2cResult(true, n, address, size) : ESP_OK;
    if (e == ESP_OK) for (size_t i = 0; i < size; ++i) data[i] = sim::i2cByte(i);
    sim::i2cLog.push_back({ true, n, address, std::vector<uint8_t>(data, data + size), ticks, e });
    return e;
}
inline esp_err_t i2c_master_write_read_device(i2c_port_t n, uint8_t address, const uint8_t* wr, size_t wn, uint8_t* rd, size_t rn, TickType_t ticks)
{
    SIM_STUB;
    esp_err_t e = i2c_master_write_to_device(n, address, wr, wn, ticks);
    return e != ESP_OK ? e : i2c_master_read_from_device(n, address, rd, rn, ticks);
}
inline i2c_cmd_handle_t i2c_cmd_link_create()
{
    SIM_STUB;
    auto l = new sim::I2cLink;
    sim::i2cLinks.insert(l);
    return l;
}
inline void i2c_cmd_link_delete(i2c_cmd_handle_t h)
{
    SIM_STUB;
    if (auto l = sim::link(h)) { sim::i2cLinks.erase(l); delete l; }
}
inline esp_err_t i2c_master_start(i2c_cmd_handle_t h) { SIM_STUB; auto l = sim::link(h); if (!l) return ESP_ERR_INVALID_ARG; l->ops += 'S'; return ESP_OK; }
inline esp_err_t i2c_master_stop(i2c_cmd_handle_t h) { SIM_STUB; auto l = sim::link(h); if (!l) return ESP_ERR_INVALID_ARG; l->ops += 'P'; return ESP_OK; }
inline esp_err_t i2c_master_write_byte(i2c_cmd_handle_t h, uint8_t b, bool ack)
{
    SIM_STUB;
    auto l = sim::link(h); if (!l) return ESP_ERR_INVALID_ARG;
    l->ops += 'W'; l->bytes.push_back(b); l->ack = l->ack && ack; return ESP_OK;
}
inline esp_err_t i2c_master_write(i2c_cmd_handle_t h, const uint8_t* d, size_t n, bool ack)
{
    SIM_STUB;
    for (size_t i = 0; i < n; ++i) i2c_master_write_byte(h, d[i], ack);
    return ESP_OK;
}
inline esp_err_t i2c_master_read(i2c_cmd_handle_t h, uint8_t* d, size_t n, i2c_ack_type_t)
{
    SIM_STUB;
    auto l = sim::link(h); if (!l || !n) return ESP_ERR_INVALID_ARG;
    for (size_t i = 0; i < n; ++i) { l->ops += 'R'; l->reads.push_back(d + i); }
    return ESP_OK;
}
inline esp_err_t i2c_master_read_byte(i2c_cmd_handle_t h, uint8_t* d, i2c_ack_type_t a) { SIM_STUB; return i2c_master_read(h, d, 1, a); }
#define I2C_LINK_RECOMMENDED_SIZE(n) (400 * (n) + 64)
inline i2c_cmd_handle_t i2c_cmd_link_create_static(uint8_t*, uint32_t) { SIM_STUB; return i2c_cmd_link_create(); }
inline void i2c_cmd_link_delete_static(i2c_cmd_handle_t h) { SIM_STUB; i2c_cmd_link_delete(h); }
inline esp_err_t i2c_master_cmd_begin(i2c_port_t n, i2c_cmd_handle_t h, TickType_t ticks)
{
    SIM_STUB;
    auto l = sim::link(h); if (!l) return ESP_ERR_INVALID_ARG;
    if (l->bytes.size() <= 1 && l->reads.empty())
    {
        sim::i2cProbes.push_back({ n, l->ops, l->bytes, l->ack });
        return sim::outcome("i2c_master_cmd_begin");
    }
    // a whole transfer made of single operations: start, address, data, stop
    const bool receive = l->bytes.size() == 1 && l->bytes[0] & 1;
    const size_t size = receive ? l->reads.size() : l->bytes.size() - 1;
    std::string wanted = "SW" + std::string(size, receive ? 'R' : 'W') + "P";
    if (l->ops != wanted || (receive ? false : l->bytes[0] & 1 || !l->reads.empty())) { ++sim::i2cLinkErrors; return ESP_ERR_INVALID_ARG; }
    if (!receive) return i2c_master_write_to_device(n, l->bytes[0] >> 1, l->bytes.data() + 1, size, ticks);
    std::vector<uint8_t> in(size);
    esp_err_t e = i2c_master_read_from_device(n, l->bytes[0] >> 1, in.data(), size, ticks);
    if (e == ESP_OK) for (size_t i = 0; i < size; ++i) *l->reads[i] = in[i];
    return e;
}
