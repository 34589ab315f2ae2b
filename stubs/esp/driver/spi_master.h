#pragma once
#include "sim_esp.h"
#include "soc/lldesc.h"
#include "freertos/FreeRTOS.h"
typedef enum { SPI1_HOST = 0, SPI2_HOST = 1, SPI3_HOST = 2, SPI_HOST_MAX } spi_host_device_t;
typedef enum { SPI_DMA_DISABLED = 0, SPI_DMA_CH1 = 1, SPI_DMA_CH2 = 2, SPI_DMA_CH_AUTO = 3 } spi_dma_chan_t;
typedef spi_dma_chan_t spi_common_dma_t;
#define SPICOMMON_BUSFLAG_MASTER (1 << 0)
#define SPICOMMON_BUSFLAG_NATIVE_PINS (1 << 1)
#define SPICOMMON_BUSFLAG_IOMUX_PINS (1 << 1)
#define SPI_DEVICE_HALFDUPLEX (1 << 4)
#define SPI_TRANS_USE_RXDATA (1 << 2)
#define SPI_TRANS_USE_TXDATA (1 << 3)
typedef struct
{
    int mosi_io_num, miso_io_num, sclk_io_num, quadwp_io_num, quadhd_io_num;
    int data4_io_num, data5_io_num, data6_io_num, data7_io_num;
    int max_transfer_sz;
    uint32_t flags;
    int intr_flags;
} spi_bus_config_t;
struct spi_transaction_t;
typedef void (*transaction_cb_t)(spi_transaction_t* trans);
typedef struct
{
    uint8_t command_bits, address_bits, dummy_bits, mode;
    uint16_t duty_cycle_pos, cs_ena_pretrans;
    uint8_t cs_ena_posttrans;
    int clock_speed_hz;
    int input_delay_ns;
    int spics_io_num;
    uint32_t flags;
    int queue_size;
    transaction_cb_t pre_cb, post_cb;
} spi_device_interface_config_t;
struct spi_transaction_t
{
    uint32_t flags;
    uint16_t cmd;
    uint64_t addr;
    size_t length;
    size_t rxlength;
    void* user;
    union { const void* tx_buffer; uint8_t tx_data[4]; };
    union { void* rx_buffer; uint8_t rx_data[4]; };
};
struct spi_device_t { int host; spi_device_interface_config_t config; };
typedef spi_device_t* spi_device_handle_t;

namespace sim
{
struct SpiTransfer { size_t txBytes, rxBytes; };
struct SpiHost
{
    bool initialized = false;
    spi_bus_config_t config {};
    std::set<spi_device_t*> devices;
    int inits = 0, frees = 0, adds = 0, removes = 0;
    std::vector<uint8_t> mosi;          // every byte sent
    size_t clockedIn = 0;               // bytes received so far
    std::vector<SpiTransfer> transfers;
};
inline std::array<SpiHost, 3> spi;
inline std::string spiMisuse;           // what the code under test did wrong, if anything
inline std::function<uint8_t(size_t)> spiMiso = [](size_t i) { SIM_STUB; return uint8_t(i * 7 + 3); };
inline void spiWrong(const char* what) { SIM_STUB; if (spiMisuse.empty()) spiMisuse = what; }
}
inline esp_err_t spi_bus_initialize(spi_host_device_t host, const spi_bus_config_t* c, spi_dma_chan_t)
{
    SIM_STUB;
    auto &h = sim::spi[host];
    if (h.initialized) return ESP_ERR_INVALID_STATE;
    esp_err_t e = sim::outcome("spi_bus_initialize");
    if (e == ESP_OK) { h.initialized = true; h.config = *c; ++h.inits; }
    return e;
}
inline esp_err_t spi_bus_add_device(spi_host_device_t host, const spi_device_interface_config_t* c, spi_device_handle_t* out)
{
    SIM_STUB;
    auto &h = sim::spi[host];
    if (!h.initialized) { sim::spiWrong("device added to a bus that is not initialised"); return ESP_ERR_INVALID_STATE; }
    esp_err_t e = sim::outcome("spi_bus_add_device");
    if (e != ESP_OK) return e;
    auto d = new spi_device_t { host, *c };
    h.devices.insert(d); ++h.adds;
    *out = d;
    return ESP_OK;
}
inline esp_err_t spi_bus_remove_device(spi_device_handle_t d)
{
    SIM_STUB;
    if (!d) { sim::spiWrong("null device removed"); return ESP_ERR_INVALID_ARG; }
    for (auto &h : sim::spi) if (h.devices.count(d))
    {
        esp_err_t e = sim::outcome("spi_bus_remove_device");
        if (e != ESP_OK) return e;
        h.devices.erase(d); ++h.removes;
        delete d;
        return ESP_OK;
    }
    sim::spiWrong("device removed twice");
    return ESP_ERR_INVALID_ARG;
}
inline esp_err_t spi_bus_free(spi_host_device_t host)
{
    SIM_STUB;
    auto &h = sim::spi[host];
    if (!h.initialized) { sim::spiWrong("bus freed that is not initialised"); return ESP_ERR_INVALID_STATE; }
    if (!h.devices.empty()) { sim::spiWrong("bus freed with a device on it"); return ESP_ERR_INVALID_STATE; }
    esp_err_t e = sim::outcome("spi_bus_free");
    if (e == ESP_OK) { h.initialized = false; ++h.frees; }
    return e;
}
inline esp_err_t spi_device_polling_transmit(spi_device_handle_t d, spi_transaction_t* t)
{
    SIM_STUB;
    sim::SpiHost* host = nullptr;
    for (auto &h : sim::spi) if (d && h.devices.count(d)) host = &h;
    if (!host) { if (d) sim::spiWrong("transfer on a released device"); return ESP_ERR_INVALID_ARG; }
    const bool half = d->config.flags & SPI_DEVICE_HALFDUPLEX;
    const bool tx = t->flags & SPI_TRANS_USE_TXDATA || t->tx_buffer, rx = t->flags & SPI_TRANS_USE_RXDATA || t->rx_buffer;
    if (t->length % 8 || t->rxlength % 8) { sim::spiWrong("length is not a whole number of bytes"); return ESP_ERR_INVALID_ARG; }
    if (!half && t->rxlength > t->length) return ESP_ERR_INVALID_ARG;   // as the driver does
    size_t txn = tx ? t->length / 8 : 0, rxn = rx ? (t->rxlength ? t->rxlength : t->length) / 8 : 0;
    if (half && rx && !t->rxlength) rxn = t->length / 8;
    const size_t limit = size_t(host->config.max_transfer_sz);
    if (txn > limit || rxn > limit) { sim::spiWrong("transfer longer than the bus allows"); return ESP_ERR_INVALID_ARG; }
    if (txn > LLDESC_MAX_NUM_PER_DESC || rxn > LLDESC_MAX_NUM_PER_DESC) { sim::spiWrong("transfer longer than the hardware limit"); return ESP_ERR_INVALID_ARG; }
    esp_err_t e = sim::outcome("spi_device_polling_transmit");
    if (e != ESP_OK) return e;
    host->transfers.push_back({ txn, rxn });
    auto out = t->flags & SPI_TRANS_USE_TXDATA ? t->tx_data : static_cast<const uint8_t*>(t->tx_buffer);
    auto in = t->flags & SPI_TRANS_USE_RXDATA ? t->rx_data : static_cast<uint8_t*>(t->rx_buffer);
    if (txn) host->mosi.insert(host->mosi.end(), out, out + txn);
    for (size_t i = 0; i < rxn; ++i) in[i] = sim::spiMiso(host->clockedIn++);
    return ESP_OK;
}
inline esp_err_t spi_device_transmit(spi_device_handle_t d, spi_transaction_t* t) { SIM_STUB; return spi_device_polling_transmit(d, t); }
inline esp_err_t spi_device_acquire_bus(spi_device_handle_t, uint32_t) { SIM_STUB; return ESP_OK; }
inline void spi_device_release_bus(spi_device_handle_t) {}
inline esp_err_t spi_device_polling_start(spi_device_handle_t d, spi_transaction_t* t, TickType_t) { SIM_STUB; return spi_device_polling_transmit(d, t); }
inline esp_err_t spi_device_polling_end(spi_device_handle_t, TickType_t) { return ESP_OK; }
namespace sim { inline std::map<spi_device_handle_t, std::vector<spi_transaction_t*>> spiQueued; }
inline esp_err_t spi_device_queue_trans(spi_device_handle_t d, spi_transaction_t* t, TickType_t)
{
    SIM_STUB;
    esp_err_t e = spi_device_polling_transmit(d, t);
    if (e == ESP_OK) sim::spiQueued[d].push_back(t);
    return e;
}
inline esp_err_t spi_device_get_trans_result(spi_device_handle_t d, spi_transaction_t** t, TickType_t)
{
    SIM_STUB;
    auto &q = sim::spiQueued[d];
    if (q.empty()) return ESP_ERR_TIMEOUT;
    *t = q.front(); q.erase(q.begin());
    return ESP_OK;
}
