// A minimal ESP-IDF for demonstrations: virtual time, scripted drivers.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <functional>
#include <set>
#include <string>
#include <vector>
#include <algorithm>

typedef int esp_err_t;
#define ESP_OK 0
#define ESP_FAIL -1
#define ESP_ERR_NO_MEM 0x101
#define ESP_ERR_INVALID_ARG 0x102
#define ESP_ERR_INVALID_STATE 0x103
#define ESP_ERR_TIMEOUT 0x107

#ifndef STUB_TICK_MS
#define STUB_TICK_MS 10
#endif
#define configTICK_RATE_HZ (1000 / STUB_TICK_MS)
#define portTICK_PERIOD_MS ((uint32_t)STUB_TICK_MS)
#define portMAX_DELAY 0xffffffffu
typedef uint32_t TickType_t;
typedef int BaseType_t;
#define pdMS_TO_TICKS(ms) ((TickType_t)(((uint64_t)(ms) * configTICK_RATE_HZ) / 1000))

namespace stub
{
struct Restart {};
inline uint64_t us = 0;
inline std::function<void()> onTime;
inline void pass(uint64_t t) { us += t; if (onTime) onTime(); }
inline std::set<std::string> fail;                       // calls that fail, once each
inline std::function<void(const char*)> another;         // another task, which runs during a driver call
inline void give(const char* n) { if (another) { auto f = another; another = nullptr; f(n); another = f; } }
inline esp_err_t call(const char* n, esp_err_t e = ESP_FAIL) { pass(1); give(n); return fail.erase(n) ? e : ESP_OK; }

struct Uart
{
    bool installed = false, configured = false, pinsSet = false;
    int rxPin = -2, txPin = -2, baud = 0;
    std::deque<uint8_t> rx;
    std::vector<uint8_t> tx;
    uint64_t byteUs = 10, txEnd = 0;
    bool broken = false;
    std::function<void(Uart&)> poll;
};
inline Uart uart;
inline std::vector<uint8_t> portTx[3];
struct Spi { bool several = false; std::vector<uint8_t> hostOut[4]; bool initialised = false; int devices = 0; uint32_t maxTransfer = 0; std::vector<uint8_t> out; uint8_t next = 1; bool misuse = false; int failAt = -1, count = 0; size_t partial = 0; };
inline Spi spi;
struct I2c { bool installed = false, configured = false; int links = 0; std::set<int> present; std::vector<uint8_t> seen; };
inline I2c i2c;
inline int pins[64];
struct Pin { int mode, up, down; };
inline Pin pinModes[64];
struct Adc { int claimed = 0; int value = 123; };
inline Adc adc;
struct Sleep { uint64_t timer = 0; bool refuse = false; uint64_t refusal = 1; uint64_t early = 0; bool deep = false; };
inline Sleep sleep;
}
#define ESP_ERROR_CHECK(x) do { if ((x) != ESP_OK) throw stub::Restart(); } while (0)
#define ESP_ERROR_CHECK_WITHOUT_ABORT(x) (x)
inline void esp_restart() { throw stub::Restart(); }

inline int64_t esp_timer_get_time() { stub::pass(1); return (int64_t)stub::us; }
inline void vTaskDelay(TickType_t n) { uint64_t t = STUB_TICK_MS * 1000ull; stub::pass(n ? (stub::us / t + n) * t - stub::us : 1); }
inline TickType_t xTaskGetTickCount() { stub::pass(1); return (TickType_t)(stub::us / (STUB_TICK_MS * 1000ull)); }
inline void esp_rom_delay_us(uint32_t t) { stub::pass(t); }
#define taskYIELD() stub::pass(1)

// sleep
inline esp_err_t esp_sleep_enable_timer_wakeup(uint64_t t) { stub::sleep.timer = t; return ESP_OK; }
inline esp_err_t esp_light_sleep_start()
{
    if (stub::sleep.refuse) { stub::pass(stub::sleep.refusal); return ESP_ERR_INVALID_STATE; }
    uint64_t t = stub::sleep.timer;
    if (stub::sleep.early && stub::sleep.early < t) { t = stub::sleep.early; stub::sleep.early = 0; }
    stub::pass(t);
    return ESP_OK;
}
inline void esp_deep_sleep_start() { stub::sleep.deep = true; stub::pass(stub::sleep.timer); }

// uart
typedef int uart_port_t;
enum uart_word_length_t { UART_DATA_5_BITS, UART_DATA_6_BITS, UART_DATA_7_BITS, UART_DATA_8_BITS };
enum uart_stop_bits_t { UART_STOP_BITS_1 = 1, UART_STOP_BITS_1_5, UART_STOP_BITS_2 };
enum uart_parity_t { UART_PARITY_DISABLE = 0, UART_PARITY_EVEN = 2, UART_PARITY_ODD = 3 };
enum uart_hw_flowcontrol_t { UART_HW_FLOWCTRL_DISABLE, UART_HW_FLOWCTRL_RTS, UART_HW_FLOWCTRL_CTS, UART_HW_FLOWCTRL_CTS_RTS };
enum uart_sclk_t { UART_SCLK_APB };
struct uart_config_t { int baud_rate; uart_word_length_t data_bits; uart_parity_t parity; uart_stop_bits_t stop_bits; uart_hw_flowcontrol_t flow_ctrl; uint8_t rx_flow_ctrl_thresh; uart_sclk_t source_clk; struct { uint32_t x; } flags; };
#define UART_PIN_NO_CHANGE (-1)
#define UART_HW_FIFO_LEN(n) 128
inline bool uart_is_driver_installed(uart_port_t) { return stub::uart.installed; }
inline esp_err_t uart_param_config(uart_port_t, const uart_config_t* c) { auto e = stub::call("uart_param_config"); if (!e) { stub::uart.configured = true; stub::uart.baud = c->baud_rate; } return e; }
inline esp_err_t uart_set_pin(uart_port_t, int tx, int rx, int, int) { auto e = stub::call("uart_set_pin"); if (!e) { stub::uart.pinsSet = true; stub::uart.txPin = tx; stub::uart.rxPin = rx; } return e; }
inline esp_err_t uart_driver_install(uart_port_t, int, int, int, void*, int) { auto e = stub::call("uart_driver_install"); if (!e) stub::uart.installed = true; return e; }
inline int uart_write_bytes(uart_port_t port, const void* p, size_t n)
{
    if (stub::call("uart_write_bytes")) return -1;
    auto b = (const uint8_t*)p;
    stub::portTx[port].insert(stub::portTx[port].end(), b, b + n);
    stub::uart.tx.insert(stub::uart.tx.end(), b, b + n);
    stub::uart.txEnd = std::max(stub::uart.txEnd, stub::us) + n * stub::uart.byteUs;
    return (int)n;
}
inline esp_err_t uart_wait_tx_done(uart_port_t, TickType_t t)
{
    uint64_t end = t == portMAX_DELAY ? UINT64_MAX : stub::us + t * STUB_TICK_MS * 1000ull;
    bool done = stub::uart.txEnd <= end;
    uint64_t to = std::min(stub::uart.txEnd, end);
    if (to > stub::us) stub::pass(to - stub::us);
    return done ? ESP_OK : ESP_ERR_TIMEOUT;
}
inline int uart_read_bytes(uart_port_t, void* buf, uint32_t n, TickType_t t)
{
    if (stub::call("uart_read_bytes")) return -1;
    auto p = (uint8_t*)buf;
    uint32_t i = 0;
    uint64_t end = stub::us + t * STUB_TICK_MS * 1000ull;
    while (i < n)
    {
        if (stub::uart.poll) stub::uart.poll(stub::uart);
        if (!stub::uart.rx.empty()) { p[i++] = stub::uart.rx.front(); stub::uart.rx.pop_front(); continue; }
        if (stub::us >= end) break;
        stub::pass(100);
    }
    return (int)i;
}

// gpio
typedef int gpio_num_t;
enum gpio_mode_t { GPIO_MODE_INPUT = 1, GPIO_MODE_OUTPUT = 2 };
enum gpio_pullup_t { GPIO_PULLUP_DISABLE, GPIO_PULLUP_ENABLE };
enum gpio_pulldown_t { GPIO_PULLDOWN_DISABLE, GPIO_PULLDOWN_ENABLE };
enum gpio_int_type_t { GPIO_INTR_DISABLE };
struct gpio_config_t { uint64_t pin_bit_mask; gpio_mode_t mode; gpio_pullup_t pull_up_en; gpio_pulldown_t pull_down_en; gpio_int_type_t intr_type; };
#define GPIO_IS_VALID_GPIO(n) ((n) < 40)
inline esp_err_t gpio_set_level(gpio_num_t n, uint32_t v) { stub::pins[n] = v; return ESP_OK; }
inline int gpio_get_level(gpio_num_t n) { return stub::pins[n]; }
inline esp_err_t gpio_config(const gpio_config_t* c)
{
    if (auto e = stub::call("gpio_config")) return e;
    for (int i = 0; i < 40; ++i) if (c->pin_bit_mask >> i & 1) stub::pinModes[i] = { c->mode, c->pull_up_en, c->pull_down_en };
    return ESP_OK;
}
inline esp_err_t gpio_set_direction(gpio_num_t n, gpio_mode_t m) { if (auto e = stub::call("gpio_set_direction")) return e; stub::pinModes[n].mode = m; return ESP_OK; }

// spi
typedef int spi_host_device_t;
struct spi_bus_config_t { int mosi_io_num, miso_io_num, sclk_io_num, quadwp_io_num, quadhd_io_num, max_transfer_sz; uint32_t flags; };
struct spi_device_interface_config_t { uint8_t mode; int clock_speed_hz, spics_io_num; uint32_t flags; int queue_size; };
struct spi_transaction_t { uint32_t flags; size_t length, rxlength; void* user; const void* tx_buffer; void* rx_buffer; };
struct spi_device_t { int x; };
typedef spi_device_t* spi_device_handle_t;
#define SPICOMMON_BUSFLAG_MASTER 1
#define SPICOMMON_BUSFLAG_NATIVE_PINS 2
#define SPI_DEVICE_HALFDUPLEX 16
#define SPI_DMA_CH_AUTO 3
#define LLDESC_MAX_NUM_PER_DESC 4092
inline esp_err_t spi_bus_initialize(spi_host_device_t, const spi_bus_config_t* c, int)
{
    if (stub::spi.initialised && !stub::spi.several) return ESP_ERR_INVALID_STATE;
    auto e = stub::call("spi_bus_initialize");
    if (!e) { stub::spi.initialised = true; stub::spi.maxTransfer = c->max_transfer_sz; }
    return e;
}
inline esp_err_t spi_bus_add_device(spi_host_device_t host, const spi_device_interface_config_t*, spi_device_handle_t* h)
{
    auto e = stub::call("spi_bus_add_device");
    if (!e) { static spi_device_t d[4]; d[host].x = host; *h = &d[host]; ++stub::spi.devices; }
    return e;
}
inline esp_err_t spi_bus_remove_device(spi_device_handle_t h)
{
    if (!h || !stub::spi.devices) { stub::spi.misuse = true; return ESP_ERR_INVALID_ARG; }
    auto e = stub::call("spi_bus_remove_device");
    if (!e) --stub::spi.devices;
    return e;
}
inline esp_err_t spi_bus_free(spi_host_device_t)
{
    if (!stub::spi.initialised || stub::spi.devices) { stub::spi.misuse = true; return ESP_ERR_INVALID_STATE; }
    auto e = stub::call("spi_bus_free");
    if (!e) stub::spi.initialised = false;
    return e;
}
inline esp_err_t spi_device_polling_transmit(spi_device_handle_t h, spi_transaction_t* t)
{
    if (!h) { stub::spi.misuse = true; return ESP_ERR_INVALID_ARG; }
    stub::give("spi_device_polling_transmit");
    if (t->length > 8 * stub::spi.maxTransfer || t->rxlength > 8 * stub::spi.maxTransfer) return ESP_ERR_INVALID_ARG;
    auto tx = (const uint8_t*)t->tx_buffer;
    if (stub::spi.count++ == stub::spi.failAt)
    {
        if (tx) stub::spi.out.insert(stub::spi.out.end(), tx, tx + std::min(stub::spi.partial, t->length / 8));
        return ESP_FAIL;
    }
    auto rx = (uint8_t*)t->rx_buffer;
    if (tx) for (size_t i = 0; i < t->length / 8; ++i) { stub::spi.out.push_back(tx[i]); stub::spi.hostOut[h->x].push_back(tx[i]); }
    if (rx) for (size_t i = 0; i < t->rxlength / 8; ++i) rx[i] = stub::spi.next++;
    return ESP_OK;
}
inline esp_err_t spi_device_transmit(spi_device_handle_t h, spi_transaction_t* t) { return spi_device_polling_transmit(h, t); }

// i2c
typedef int i2c_port_t;
enum i2c_mode_t { I2C_MODE_SLAVE, I2C_MODE_MASTER };
enum { I2C_MASTER_WRITE, I2C_MASTER_READ };
#define I2C_SCLK_SRC_FLAG_FOR_NOMAL 0
struct i2c_config_t { i2c_mode_t mode; int sda_io_num, scl_io_num; bool sda_pullup_en, scl_pullup_en; struct { uint32_t clk_speed; } master; uint32_t clk_flags; };
struct stub_link { std::vector<int> ops; };
typedef stub_link* i2c_cmd_handle_t;
inline esp_err_t i2c_param_config(i2c_port_t, const i2c_config_t*) { auto e = stub::call("i2c_param_config"); if (!e) stub::i2c.configured = true; return e; }
inline esp_err_t i2c_driver_install(i2c_port_t, i2c_mode_t, size_t, size_t, int) { if (stub::i2c.installed) return ESP_FAIL; auto e = stub::call("i2c_driver_install"); if (!e) stub::i2c.installed = true; return e; }
inline i2c_cmd_handle_t i2c_cmd_link_create() { if (stub::call("i2c_cmd_link_create")) return nullptr; ++stub::i2c.links; return new stub_link; }
inline void i2c_cmd_link_delete(i2c_cmd_handle_t h) { if (h) { --stub::i2c.links; delete h; } }
inline esp_err_t i2c_master_start(i2c_cmd_handle_t h) { return h ? stub::call("i2c_master_start", ESP_ERR_NO_MEM) : ESP_ERR_INVALID_ARG; }
inline esp_err_t i2c_master_stop(i2c_cmd_handle_t h) { return h ? stub::call("i2c_master_stop", ESP_ERR_NO_MEM) : ESP_ERR_INVALID_ARG; }
inline esp_err_t i2c_master_write_byte(i2c_cmd_handle_t h, uint8_t b, bool) { if (!h) return ESP_ERR_INVALID_ARG; auto e = stub::call("i2c_master_write_byte", ESP_ERR_NO_MEM); if (!e) h->ops.push_back(b); return e; }
inline esp_err_t i2c_master_cmd_begin(i2c_port_t, i2c_cmd_handle_t h, TickType_t)
{
    if (!h) return ESP_ERR_INVALID_ARG;
    if (!stub::i2c.installed) return ESP_ERR_INVALID_STATE;
    if (auto e = stub::call("i2c_master_cmd_begin", ESP_ERR_TIMEOUT)) return e;
    for (int b: h->ops) if (!stub::i2c.present.count(b >> 1)) return ESP_FAIL;
    return ESP_OK;
}
inline esp_err_t i2c_master_write_to_device(i2c_port_t, uint8_t a, const uint8_t* p, size_t n, TickType_t)
{
    if (auto e = stub::call("i2c_master_write_to_device")) return e;
    if (a && !stub::i2c.present.count(a)) return ESP_FAIL;
    stub::i2c.seen.insert(stub::i2c.seen.end(), p, p + n);
    return ESP_OK;
}
inline esp_err_t i2c_master_read_from_device(i2c_port_t, uint8_t a, uint8_t* p, size_t n, TickType_t)
{
    if (auto e = stub::call("i2c_master_read_from_device")) return e;
    if (!stub::i2c.present.count(a)) return ESP_FAIL;
    for (size_t i = 0; i < n; ++i) p[i] = (uint8_t)(i + 1);
    return ESP_OK;
}

// adc
enum adc_unit_t { ADC_UNIT_1, ADC_UNIT_2 };
typedef int adc_channel_t;
#define SOC_ADC_PERIPH_NUM 2
#define SOC_ADC_MAX_CHANNEL_NUM 4
#define SOC_GPIO_PIN_COUNT 40
constexpr int adc_channel_io_map[2][4] = { { 32, 33, 34, 35 }, { 12, 13, 14, 15 } };
enum { ADC_RTC_CLK_SRC_DEFAULT, ADC_ULP_MODE_DISABLE = 0, ADC_ATTEN_DB_12 = 3, ADC_BITWIDTH_12 = 12 };
struct adc_oneshot_unit_init_cfg_t { adc_unit_t unit_id; int clk_src; int ulp_mode; };
struct adc_oneshot_chan_cfg_t { int atten; int bitwidth; };
typedef int* adc_oneshot_unit_handle_t;
inline esp_err_t adc_oneshot_new_unit(const adc_oneshot_unit_init_cfg_t* c, adc_oneshot_unit_handle_t* h)
{
    if (stub::adc.claimed & (1 << c->unit_id)) return ESP_ERR_INVALID_STATE;
    if (auto e = stub::call("adc_oneshot_new_unit")) return e;
    stub::adc.claimed |= 1 << c->unit_id;
    *h = new int(c->unit_id);
    return ESP_OK;
}
inline esp_err_t adc_oneshot_config_channel(adc_oneshot_unit_handle_t, adc_channel_t c, const adc_oneshot_chan_cfg_t*) { if (c < 0 || c >= SOC_ADC_MAX_CHANNEL_NUM) return ESP_ERR_INVALID_ARG; return stub::call("adc_oneshot_config_channel"); }
inline esp_err_t adc_oneshot_read(adc_oneshot_unit_handle_t, adc_channel_t, int* r) { if (auto e = stub::call("adc_oneshot_read")) return e; *r = stub::adc.value; return ESP_OK; }
inline esp_err_t adc_oneshot_del_unit(adc_oneshot_unit_handle_t h) { stub::adc.claimed &= ~(1 << *h); delete h; return ESP_OK; }
inline void adc_power_acquire() {}
inline void adc_power_release() {}
