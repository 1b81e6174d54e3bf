// Simulated ESP-IDF (v5 flavour with the legacy I2C driver). All vendor headers forward here.
#pragma once
#include <assert.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

// ---------------------------------------------------------------- errors
typedef int esp_err_t;
#define ESP_OK 0
#define ESP_FAIL -1
#define ESP_ERR_NO_MEM 0x101
#define ESP_ERR_INVALID_ARG 0x102
#define ESP_ERR_INVALID_STATE 0x103
#define ESP_ERR_INVALID_SIZE 0x104
#define ESP_ERR_NOT_FOUND 0x105
#define ESP_ERR_NOT_SUPPORTED 0x106
#define ESP_ERR_TIMEOUT 0x107
#define ESP_ERR_INVALID_RESPONSE 0x108
#define ESP_ERR_INVALID_CRC 0x109
#define ESP_ERR_INVALID_VERSION 0x10A
#define ESP_ERR_INVALID_MAC 0x10B
#define ESP_ERR_NOT_FINISHED 0x10C
#define ESP_ERR_NOT_ALLOWED 0x10D
#define ESP_ERR_SLEEP_REJECT 0x110
#define ESP_ERR_SLEEP_TOO_SHORT_SLEEP_DURATION 0x111
extern "C" {
[[noreturn]] void sim_esp_abort(const char* expr, int rc);
const char* esp_err_to_name(esp_err_t code);
[[noreturn]] void esp_restart(void);
[[noreturn]] void esp_system_abort(const char* details);
}
#define ESP_ERROR_CHECK(x) do { esp_err_t err_rc_ = (x); if (err_rc_ != ESP_OK) sim_esp_abort(#x, err_rc_); } while (0)
#define ESP_ERROR_CHECK_WITHOUT_ABORT(x) ({ esp_err_t err_rc_ = (x); err_rc_; })
#define ESP_RETURN_ON_ERROR(x, tag, ...) do { esp_err_t err_rc_ = (x); if (err_rc_ != ESP_OK) return err_rc_; } while (0)
#define ESP_RETURN_VOID_ON_ERROR(x, tag, ...) do { esp_err_t err_rc_ = (x); if (err_rc_ != ESP_OK) return; } while (0)
#define ESP_RETURN_ON_FALSE(x, code, tag, ...) do { if (!(x)) return code; } while (0)
#define ESP_RETURN_VOID_ON_FALSE(x, tag, ...) do { if (!(x)) return; } while (0)
#define ESP_GOTO_ON_ERROR(x, label, tag, ...) do { esp_err_t err_rc_ = (x); if (err_rc_ != ESP_OK) { ret = err_rc_; goto label; } } while (0)
#define ESP_GOTO_ON_FALSE(x, code, label, tag, ...) do { if (!(x)) { ret = code; goto label; } } while (0)
#define ESP_EARLY_LOGE(tag, ...) do {} while (0)
#define ESP_EARLY_LOGW(tag, ...) do {} while (0)
#define ESP_EARLY_LOGI(tag, ...) do {} while (0)
#define ESP_LOG_BUFFER_HEX(tag, buffer, length) do {} while (0)
#define ESP_LOGE(tag, ...) do {} while (0)
#define ESP_LOGW(tag, ...) do {} while (0)
#define ESP_LOGI(tag, ...) do {} while (0)
#define ESP_LOGD(tag, ...) do {} while (0)
#define ESP_LOGV(tag, ...) do {} while (0)
#define IRAM_ATTR
#define DRAM_ATTR
#define SIM_STR2(x) #x
#define SIM_STR(x) SIM_STR2(x)
#define RTC_DATA_ATTR __attribute__((section(".simrtcdata." SIM_STR(__COUNTER__))))
#define RTC_NOINIT_ATTR __attribute__((section(".simrtcnoinit." SIM_STR(__COUNTER__))))
#define __NOINIT_ATTR __attribute__((section(".simrtcram." SIM_STR(__COUNTER__))))
#define RTC_FAST_NOINIT_ATTR RTC_NOINIT_ATTR
#define RTC_SLOW_NOINIT_ATTR RTC_NOINIT_ATTR
#define RTC_RODATA_ATTR RTC_DATA_ATTR
#define COREDUMP_DRAM_ATTR
#define DMA_ATTR __attribute__((aligned(4)))
#define WORD_ALIGNED_ATTR __attribute__((aligned(4)))
#define RTC_IRAM_ATTR
#define RTC_SLOW_ATTR RTC_DATA_ATTR
#define RTC_FAST_ATTR RTC_DATA_ATTR
#define NOINLINE_ATTR __attribute__((noinline))
#define FORCE_INLINE_ATTR static inline __attribute__((always_inline))
#define BIT(n) (1UL << (n))
#define BIT64(n) (1ULL << (n))
#define ESP_IDF_VERSION_VAL(major, minor, patch) (((major) << 16) | ((minor) << 8) | (patch))
#define ESP_IDF_VERSION_MAJOR 5
#define ESP_IDF_VERSION_MINOR 1
#define ESP_IDF_VERSION_PATCH 4
#define ESP_IDF_VERSION ESP_IDF_VERSION_VAL(5, 1, 4)
#define MALLOC_CAP_8BIT (1 << 2)
#define MALLOC_CAP_DMA (1 << 3)
#define MALLOC_CAP_INTERNAL (1 << 11)
#define MALLOC_CAP_DEFAULT (1 << 12)
#define heap_caps_malloc(size, caps) ((void)(caps), malloc(size))
#define heap_caps_calloc(n, size, caps) ((void)(caps), calloc(n, size))
#define heap_caps_free(p) free(p)

// ---------------------------------------------------------------- FreeRTOS
#ifndef SIM_TICK_MS
#define SIM_TICK_MS 10
#endif
typedef uint32_t TickType_t;
typedef int BaseType_t;
typedef unsigned int UBaseType_t;
#define portTICK_PERIOD_MS ((TickType_t)SIM_TICK_MS)
#define configTICK_RATE_HZ (1000 / SIM_TICK_MS)
#define CONFIG_FREERTOS_HZ configTICK_RATE_HZ
#define portTICK_RATE_MS portTICK_PERIOD_MS
#define portMAX_DELAY ((TickType_t)0xffffffffUL)
#define pdMS_TO_TICKS(ms) ((TickType_t)(((TickType_t)(ms) * (TickType_t)configTICK_RATE_HZ) / (TickType_t)1000U))
#define pdTICKS_TO_MS(t) ((TickType_t)(((uint64_t)(t) * 1000U) / configTICK_RATE_HZ))
#define pdTRUE 1
#define pdFALSE 0
#define pdPASS 1
#define pdFAIL 0
extern "C" {
void vTaskDelay(TickType_t ticks);
TickType_t xTaskGetTickCount(void);
void taskYIELD_impl(void);
uint32_t esp_log_timestamp(void);
BaseType_t xTaskDelayUntil(TickType_t* prev, TickType_t inc);
}
#define taskYIELD() taskYIELD_impl()
#define portYIELD() taskYIELD_impl()
#define xTaskGetTickCountFromISR() xTaskGetTickCount()
#define configASSERT(x) assert(x)
#define vTaskDelayUntil(p, i) ((void)xTaskDelayUntil(p, i))
typedef struct { uint32_t owner; uint32_t count; } portMUX_TYPE;
#define portMUX_INITIALIZER_UNLOCKED { 0, 0 }
extern "C" void sim_critical(int enter);
#define portENTER_CRITICAL(m) ((void)(m), sim_critical(1))
#define portEXIT_CRITICAL(m) ((void)(m), sim_critical(0))
#define taskENTER_CRITICAL(m) portENTER_CRITICAL(m)
#define taskEXIT_CRITICAL(m) portEXIT_CRITICAL(m)
#include "hal/semaphores.h"
extern "C" void sim_scheduler(int suspend);
#define vTaskSuspendAll() sim_scheduler(1)
#define xTaskResumeAll() (sim_scheduler(0), pdTRUE)
#define portENTER_CRITICAL_SAFE(m) portENTER_CRITICAL(m)
#define portEXIT_CRITICAL_SAFE(m) portEXIT_CRITICAL(m)
#define portENTER_CRITICAL_ISR(m) portENTER_CRITICAL(m)
#define portEXIT_CRITICAL_ISR(m) portEXIT_CRITICAL(m)
#define portMUX_INITIALIZE(m) (*(m) = portMUX_INITIALIZER_UNLOCKED)
#define spinlock_initialize(m) portMUX_INITIALIZE(m)
// ---------------------------------------------------------------- timers
extern "C" {
int64_t esp_timer_get_time(void);
void esp_rom_delay_us(uint32_t us);
uint64_t esp_rtc_get_time_us(void);
void ets_delay_us(uint32_t us);
}

// ---------------------------------------------------------------- sleep
typedef enum { ESP_SLEEP_WAKEUP_UNDEFINED, ESP_SLEEP_WAKEUP_ALL, ESP_SLEEP_WAKEUP_EXT0, ESP_SLEEP_WAKEUP_EXT1, ESP_SLEEP_WAKEUP_TIMER, ESP_SLEEP_WAKEUP_GPIO = 7, ESP_SLEEP_WAKEUP_UART } esp_sleep_source_t;
typedef esp_sleep_source_t esp_sleep_wakeup_cause_t;
extern "C" {
esp_err_t esp_sleep_enable_timer_wakeup(uint64_t time_in_us);
esp_err_t esp_sleep_disable_wakeup_source(esp_sleep_source_t source);
esp_sleep_wakeup_cause_t esp_sleep_get_wakeup_cause(void);
typedef enum { ESP_RST_UNKNOWN, ESP_RST_POWERON, ESP_RST_EXT, ESP_RST_SW, ESP_RST_PANIC, ESP_RST_INT_WDT, ESP_RST_TASK_WDT, ESP_RST_WDT, ESP_RST_DEEPSLEEP, ESP_RST_BROWNOUT, ESP_RST_SDIO } esp_reset_reason_t;
esp_reset_reason_t esp_reset_reason(void);
esp_err_t esp_light_sleep_start(void);
esp_err_t esp_deep_sleep_try_to_start(void);
esp_err_t esp_deep_sleep_try(uint64_t time_in_us);
[[noreturn]] void esp_deep_sleep_start(void);
[[noreturn]] void esp_deep_sleep(uint64_t time_in_us);
}

// ---------------------------------------------------------------- GPIO
typedef int gpio_num_t_;
typedef enum { GPIO_NUM_NC = -1, GPIO_NUM_0 = 0, GPIO_NUM_1, GPIO_NUM_2, GPIO_NUM_3, GPIO_NUM_4, GPIO_NUM_5, GPIO_NUM_6, GPIO_NUM_7, GPIO_NUM_8, GPIO_NUM_9,
    GPIO_NUM_10, GPIO_NUM_11, GPIO_NUM_12, GPIO_NUM_13, GPIO_NUM_14, GPIO_NUM_15, GPIO_NUM_16, GPIO_NUM_17, GPIO_NUM_18, GPIO_NUM_19,
    GPIO_NUM_20, GPIO_NUM_21, GPIO_NUM_22, GPIO_NUM_23, GPIO_NUM_25 = 25, GPIO_NUM_26, GPIO_NUM_27, GPIO_NUM_28, GPIO_NUM_29,
    GPIO_NUM_30, GPIO_NUM_31, GPIO_NUM_32, GPIO_NUM_33, GPIO_NUM_34, GPIO_NUM_35, GPIO_NUM_36, GPIO_NUM_37, GPIO_NUM_38, GPIO_NUM_39, GPIO_NUM_MAX = 40 } gpio_num_t;
typedef enum { GPIO_MODE_DISABLE = 0, GPIO_MODE_INPUT = 1, GPIO_MODE_OUTPUT = 2, GPIO_MODE_OUTPUT_OD = 6, GPIO_MODE_INPUT_OUTPUT_OD = 7, GPIO_MODE_INPUT_OUTPUT = 3 } gpio_mode_t;
typedef enum { GPIO_PULLUP_DISABLE = 0, GPIO_PULLUP_ENABLE = 1 } gpio_pullup_t;
typedef enum { GPIO_PULLDOWN_DISABLE = 0, GPIO_PULLDOWN_ENABLE = 1 } gpio_pulldown_t;
typedef enum { GPIO_INTR_DISABLE = 0, GPIO_INTR_POSEDGE = 1, GPIO_INTR_NEGEDGE = 2, GPIO_INTR_ANYEDGE = 3, GPIO_INTR_LOW_LEVEL = 4, GPIO_INTR_HIGH_LEVEL = 5, GPIO_INTR_MAX } gpio_int_type_t;
typedef enum { GPIO_PULLUP_ONLY, GPIO_PULLDOWN_ONLY, GPIO_PULLUP_PULLDOWN, GPIO_FLOATING } gpio_pull_mode_t;
typedef struct
{
    uint64_t pin_bit_mask;
    gpio_mode_t mode;
    gpio_pullup_t pull_up_en;
    gpio_pulldown_t pull_down_en;
    gpio_int_type_t intr_type;
} gpio_config_t;
#define SOC_GPIO_PIN_COUNT 40
#define GPIO_IS_VALID_GPIO(n) ((n) >= 0 && (n) < 40 && (n) != 20 && (n) != 24 && !((n) >= 28 && (n) <= 31))
#define GPIO_IS_VALID_OUTPUT_GPIO(n) (GPIO_IS_VALID_GPIO(n) && (n) < 34)
extern "C" {
esp_err_t gpio_set_level(gpio_num_t pin, uint32_t level);
int gpio_get_level(gpio_num_t pin);
esp_err_t gpio_config(const gpio_config_t* conf);
esp_err_t gpio_reset_pin(gpio_num_t pin);
esp_err_t gpio_set_direction(gpio_num_t pin, gpio_mode_t mode);
esp_err_t gpio_set_pull_mode(gpio_num_t pin, gpio_pull_mode_t pull);
esp_err_t gpio_pullup_en(gpio_num_t pin);
esp_err_t gpio_pullup_dis(gpio_num_t pin);
esp_err_t gpio_pulldown_en(gpio_num_t pin);
esp_err_t gpio_pulldown_dis(gpio_num_t pin);
esp_err_t gpio_input_enable(gpio_num_t pin);
esp_err_t gpio_input_disable(gpio_num_t pin);
esp_err_t gpio_output_enable(gpio_num_t pin);
esp_err_t gpio_output_disable(gpio_num_t pin);
esp_err_t gpio_intr_enable(gpio_num_t pin);
esp_err_t gpio_intr_disable(gpio_num_t pin);
esp_err_t gpio_set_intr_type(gpio_num_t pin, gpio_int_type_t type);
void esp_rom_gpio_pad_select_gpio(uint32_t pin);
void gpio_pad_select_gpio(uint32_t pin);
}

// ---------------------------------------------------------------- ADC
typedef enum { ADC_UNIT_1, ADC_UNIT_2 } adc_unit_t;
typedef enum { ADC_CHANNEL_0, ADC_CHANNEL_1, ADC_CHANNEL_2, ADC_CHANNEL_3, ADC_CHANNEL_4, ADC_CHANNEL_5, ADC_CHANNEL_6, ADC_CHANNEL_7, ADC_CHANNEL_8, ADC_CHANNEL_9 } adc_channel_t;
typedef enum { ADC_ATTEN_DB_0 = 0, ADC_ATTEN_DB_2_5 = 1, ADC_ATTEN_DB_6 = 2, ADC_ATTEN_DB_12 = 3, ADC_ATTEN_DB_11 = 3 } adc_atten_t;
typedef enum { ADC_BITWIDTH_DEFAULT = 0, ADC_BITWIDTH_9 = 9, ADC_BITWIDTH_10 = 10, ADC_BITWIDTH_11 = 11, ADC_BITWIDTH_12 = 12, ADC_BITWIDTH_13 = 13 } adc_bitwidth_t;
typedef enum { ADC_ULP_MODE_DISABLE = 0, ADC_ULP_MODE_FSM = 1, ADC_ULP_MODE_RISCV = 2 } adc_ulp_mode_t;
typedef enum { ADC_RTC_CLK_SRC_RC_FAST = 1, ADC_RTC_CLK_SRC_DEFAULT = 1 } adc_oneshot_clk_src_t;
typedef struct adc_oneshot_unit_ctx_t* adc_oneshot_unit_handle_t;
typedef struct { adc_unit_t unit_id; adc_oneshot_clk_src_t clk_src; adc_ulp_mode_t ulp_mode; } adc_oneshot_unit_init_cfg_t;
typedef struct { adc_atten_t atten; adc_bitwidth_t bitwidth; } adc_oneshot_chan_cfg_t;
#define SOC_ADC_PERIPH_NUM 2
#define SOC_ADC_MAX_CHANNEL_NUM 10
extern "C" {
extern const int adc_channel_io_map[SOC_ADC_PERIPH_NUM][SOC_ADC_MAX_CHANNEL_NUM];
esp_err_t adc_oneshot_new_unit(const adc_oneshot_unit_init_cfg_t* cfg, adc_oneshot_unit_handle_t* ret);
esp_err_t adc_oneshot_config_channel(adc_oneshot_unit_handle_t h, adc_channel_t ch, const adc_oneshot_chan_cfg_t* cfg);
esp_err_t adc_oneshot_read(adc_oneshot_unit_handle_t h, adc_channel_t ch, int* out);
esp_err_t adc_oneshot_del_unit(adc_oneshot_unit_handle_t h);
esp_err_t adc_oneshot_channel_to_io(adc_unit_t unit, adc_channel_t ch, int* io);
esp_err_t adc_oneshot_io_to_channel(int io, adc_unit_t* unit, adc_channel_t* ch);
void adc_power_acquire(void);
void adc_power_release(void);
}

// ---------------------------------------------------------------- I2C (legacy driver)
typedef int i2c_port_t;
enum { I2C_NUM_0 = 0, I2C_NUM_1 = 1, I2C_NUM_MAX = 2 };
typedef enum { I2C_MODE_SLAVE = 0, I2C_MODE_MASTER = 1, I2C_MODE_MAX } i2c_mode_t;
typedef enum { I2C_MASTER_WRITE = 0, I2C_MASTER_READ = 1 } i2c_rw_t;
typedef enum { I2C_MASTER_ACK = 0, I2C_MASTER_NACK = 1, I2C_MASTER_LAST_NACK = 2 } i2c_ack_type_t;
typedef void* i2c_cmd_handle_t;
#define I2C_SCLK_SRC_FLAG_FOR_NOMAL 0
typedef struct
{
    i2c_mode_t mode;
    int sda_io_num;
    int scl_io_num;
    bool sda_pullup_en;
    bool scl_pullup_en;
    union
    {
        struct { uint32_t clk_speed; } master;
        struct { uint8_t addr_10bit_en; uint16_t slave_addr; uint32_t maximum_speed; } slave;
    };
    uint32_t clk_flags;
} i2c_config_t;
extern "C" {
esp_err_t i2c_param_config(i2c_port_t port, const i2c_config_t* conf);
esp_err_t i2c_driver_install(i2c_port_t port, i2c_mode_t mode, size_t rx, size_t tx, int flags);
esp_err_t i2c_driver_delete(i2c_port_t port);
i2c_cmd_handle_t i2c_cmd_link_create(void);
i2c_cmd_handle_t i2c_cmd_link_create_static(uint8_t* buffer, uint32_t size);
void i2c_cmd_link_delete(i2c_cmd_handle_t h);
void i2c_cmd_link_delete_static(i2c_cmd_handle_t h);
esp_err_t i2c_master_start(i2c_cmd_handle_t h);
esp_err_t i2c_master_write_byte(i2c_cmd_handle_t h, uint8_t data, bool ack_en);
esp_err_t i2c_master_write(i2c_cmd_handle_t h, const uint8_t* data, size_t n, bool ack_en);
esp_err_t i2c_master_read_byte(i2c_cmd_handle_t h, uint8_t* data, i2c_ack_type_t ack);
esp_err_t i2c_master_read(i2c_cmd_handle_t h, uint8_t* data, size_t n, i2c_ack_type_t ack);
esp_err_t i2c_master_stop(i2c_cmd_handle_t h);
esp_err_t i2c_master_cmd_begin(i2c_port_t port, i2c_cmd_handle_t h, TickType_t ticks);
esp_err_t i2c_master_write_to_device(i2c_port_t port, uint8_t addr, const uint8_t* p, size_t n, TickType_t ticks);
esp_err_t i2c_master_read_from_device(i2c_port_t port, uint8_t addr, uint8_t* p, size_t n, TickType_t ticks);
esp_err_t i2c_master_write_read_device(i2c_port_t port, uint8_t addr, const uint8_t* w, size_t wn, uint8_t* r, size_t rn, TickType_t ticks);
esp_err_t i2c_set_timeout(i2c_port_t port, int timeout);
esp_err_t i2c_get_timeout(i2c_port_t port, int* timeout);
esp_err_t i2c_filter_enable(i2c_port_t port, uint8_t cycles);
esp_err_t i2c_filter_disable(i2c_port_t port);
esp_err_t i2c_reset_tx_fifo(i2c_port_t port);
esp_err_t i2c_reset_rx_fifo(i2c_port_t port);
}
#define I2C_LINK_RECOMMENDED_SIZE(n) (64 * (n) + 64)

// ---------------------------------------------------------------- UART
typedef int uart_port_t;
#define UART_NUM_0 0
#define UART_NUM_1 1
#define UART_NUM_2 2
#define UART_NUM_MAX 3
#define UART_PIN_NO_CHANGE (-1)
#define UART_HW_FIFO_LEN(n) 128
#define UART_FIFO_LEN 128
typedef enum { UART_DATA_5_BITS = 0, UART_DATA_6_BITS, UART_DATA_7_BITS, UART_DATA_8_BITS, UART_DATA_BITS_MAX } uart_word_length_t;
typedef enum { UART_STOP_BITS_1 = 1, UART_STOP_BITS_1_5 = 2, UART_STOP_BITS_2 = 3, UART_STOP_BITS_MAX } uart_stop_bits_t;
typedef enum { UART_PARITY_DISABLE = 0, UART_PARITY_EVEN = 2, UART_PARITY_ODD = 3 } uart_parity_t;
typedef enum { UART_HW_FLOWCTRL_DISABLE = 0, UART_HW_FLOWCTRL_RTS = 1, UART_HW_FLOWCTRL_CTS = 2, UART_HW_FLOWCTRL_CTS_RTS = 3, UART_HW_FLOWCTRL_MAX } uart_hw_flowcontrol_t;
typedef enum { UART_SCLK_APB = 1, UART_SCLK_DEFAULT = 1, UART_SCLK_REF_TICK = 2 } uart_sclk_t;
typedef struct
{
    int baud_rate;
    uart_word_length_t data_bits;
    uart_parity_t parity;
    uart_stop_bits_t stop_bits;
    uart_hw_flowcontrol_t flow_ctrl;
    uint8_t rx_flow_ctrl_thresh;
    uart_sclk_t source_clk;
    struct { uint32_t allow_pd : 1; uint32_t backup_before_sleep : 1; } flags;
} uart_config_t;
typedef enum { UART_MODE_UART = 0, UART_MODE_RS485_HALF_DUPLEX = 1, UART_MODE_IRDA = 2 } uart_mode_t;
#define UART_BITRATE_MAX 5000000
typedef void* QueueHandle_t;
#define ESP_INTR_FLAG_IRAM (1 << 10)
extern "C" {
bool uart_is_driver_installed(uart_port_t port);
esp_err_t uart_param_config(uart_port_t port, const uart_config_t* conf);
esp_err_t uart_set_pin(uart_port_t port, int tx, int rx, int rts, int cts);
esp_err_t uart_driver_install(uart_port_t port, int rx, int tx, int queue, QueueHandle_t* q, int flags);
esp_err_t uart_driver_delete(uart_port_t port);
int uart_write_bytes(uart_port_t port, const void* src, size_t n);
int uart_tx_chars(uart_port_t port, const char* src, uint32_t n);
int uart_read_bytes(uart_port_t port, void* buf, uint32_t n, TickType_t ticks);
esp_err_t uart_wait_tx_done(uart_port_t port, TickType_t ticks);
esp_err_t uart_flush(uart_port_t port);
esp_err_t uart_flush_input(uart_port_t port);
esp_err_t uart_get_buffered_data_len(uart_port_t port, size_t* n);
esp_err_t uart_set_baudrate(uart_port_t port, uint32_t baud);
esp_err_t uart_get_baudrate(uart_port_t port, uint32_t* baud);
esp_err_t uart_set_word_length(uart_port_t port, uart_word_length_t bits);
esp_err_t uart_set_stop_bits(uart_port_t port, uart_stop_bits_t bits);
esp_err_t uart_set_parity(uart_port_t port, uart_parity_t parity);
esp_err_t uart_set_hw_flow_ctrl(uart_port_t port, uart_hw_flowcontrol_t flow, uint8_t threshold);
esp_err_t uart_set_mode(uart_port_t port, uart_mode_t mode);
esp_err_t uart_set_rx_timeout(uart_port_t port, uint8_t threshold);
esp_err_t uart_set_rx_full_threshold(uart_port_t port, int threshold);
esp_err_t uart_set_tx_empty_threshold(uart_port_t port, int threshold);
esp_err_t uart_get_tx_buffer_free_size(uart_port_t port, size_t* n);
esp_err_t uart_wait_tx_idle_polling(uart_port_t port);
}

// ---------------------------------------------------------------- SPI
typedef enum { SPI1_HOST = 0, SPI2_HOST = 1, SPI3_HOST = 2, SPI_HOST_MAX } spi_host_device_t;
typedef enum { SPI_DMA_DISABLED = 0, SPI_DMA_CH1 = 1, SPI_DMA_CH2 = 2, SPI_DMA_CH_AUTO = 3 } spi_dma_chan_t;
typedef struct spi_device_t* spi_device_handle_t;
typedef struct
{
    union { int mosi_io_num; int data0_io_num; };
    union { int miso_io_num; int data1_io_num; };
    int sclk_io_num;
    union { int quadwp_io_num; int data2_io_num; };
    union { int quadhd_io_num; int data3_io_num; };
    int data4_io_num, data5_io_num, data6_io_num, data7_io_num;
    int max_transfer_sz;
    uint32_t flags;
    int isr_cpu_id;
    int intr_flags;
} spi_bus_config_t;
typedef struct spi_transaction_t
{
    uint32_t flags;
    uint16_t cmd;
    uint64_t addr;
    size_t length;
    size_t rxlength;
    void* user;
    union { const void* tx_buffer; uint8_t tx_data[4]; };
    union { void* rx_buffer; uint8_t rx_data[4]; };
} spi_transaction_t;
typedef void (*transaction_cb_t)(spi_transaction_t*);
typedef struct
{
    uint8_t command_bits, address_bits, dummy_bits, mode;
    int clock_source;
    uint16_t duty_cycle_pos, cs_ena_pretrans;
    uint8_t cs_ena_posttrans;
    int clock_speed_hz;
    int input_delay_ns;
    int spics_io_num;
    uint32_t flags;
    int queue_size;
    transaction_cb_t pre_cb, post_cb;
} spi_device_interface_config_t;
#define SPICOMMON_BUSFLAG_MASTER (1 << 0)
#define SPICOMMON_BUSFLAG_IOMUX_PINS (1 << 1)
#define SPICOMMON_BUSFLAG_NATIVE_PINS SPICOMMON_BUSFLAG_IOMUX_PINS
#define SPI_DEVICE_TXBIT_LSBFIRST (1 << 0)
#define SPI_DEVICE_3WIRE (1 << 2)
#define SPI_DEVICE_HALFDUPLEX (1 << 4)
#define SPI_DEVICE_NO_DUMMY (1 << 6)
#define SPI_TRANS_USE_RXDATA (1 << 2)
#define SPI_TRANS_USE_TXDATA (1 << 3)
#define LLDESC_MAX_NUM_PER_DESC 4092
#define SPI_MAX_DMA_LEN 4092
#define SPI_DEVICE_RXBIT_LSBFIRST (1 << 1)
#define SPI_DEVICE_BIT_LSBFIRST (SPI_DEVICE_TXBIT_LSBFIRST | SPI_DEVICE_RXBIT_LSBFIRST)
#define SPI_SWAP_DATA_TX(data, len) (__builtin_bswap32((uint32_t)(data)) >> (32 - (len)))
#define SPI_SWAP_DATA_RX(data, len) (__builtin_bswap32((uint32_t)(data)) >> (32 - (len)))
#define SPI_MASTER_FREQ_8M 8000000
#define SPI_MASTER_FREQ_10M 10000000
#define SPI_MASTER_FREQ_20M 20000000
#define SPI_MASTER_FREQ_40M 40000000
#define SPI_MASTER_FREQ_80M 80000000
extern "C" {
esp_err_t spi_bus_initialize(spi_host_device_t host, const spi_bus_config_t* cfg, spi_dma_chan_t dma);
esp_err_t spi_bus_free(spi_host_device_t host);
esp_err_t spi_bus_add_device(spi_host_device_t host, const spi_device_interface_config_t* cfg, spi_device_handle_t* handle);
esp_err_t spi_bus_remove_device(spi_device_handle_t handle);
esp_err_t spi_device_polling_transmit(spi_device_handle_t handle, spi_transaction_t* t);
esp_err_t spi_device_transmit(spi_device_handle_t handle, spi_transaction_t* t);
esp_err_t spi_device_queue_trans(spi_device_handle_t handle, spi_transaction_t* t, TickType_t ticks);
esp_err_t spi_device_get_trans_result(spi_device_handle_t handle, spi_transaction_t** t, TickType_t ticks);
esp_err_t spi_device_get_actual_freq(spi_device_handle_t handle, int* khz);
esp_err_t spi_device_polling_start(spi_device_handle_t handle, spi_transaction_t* t, TickType_t ticks);
esp_err_t spi_device_polling_end(spi_device_handle_t handle, TickType_t ticks);
esp_err_t spi_device_acquire_bus(spi_device_handle_t handle, TickType_t ticks);
void spi_device_release_bus(spi_device_handle_t handle);
esp_err_t spi_bus_get_max_transaction_len(spi_host_device_t host, size_t* max_bytes);
}
