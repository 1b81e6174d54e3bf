#include "sim_esp.h"
#include <sys/mman.h>
#include <cstdarg>
#include <deque>

using namespace hal;
static u64 sim_semaphore_deadline(TickType_t ticks);
#include "hal/semaphores.inc"

namespace hal
{
Esp esp;
struct CmdLink
{
    enum Op { Start, Write, Read, Stop };
    struct Cmd { Op op; std::vector<u8> w; u8* r; size_t n; bool ack = true; };
    bool alive, isStatic;
    std::vector<Cmd> cmds;
    const void* memory = nullptr;
};
static std::vector<CmdLink*> links;      // every link of this run, also deleted ones

void esp_boot(Boot kind)
{
    const bool restart = esp.restarted && esp.restartReason == "esp_restart", panic = esp.restarted && !restart;
    esp = Esp();
    esp.wakeCause = kind == Boot::Wake ? ESP_SLEEP_WAKEUP_TIMER : ESP_SLEEP_WAKEUP_UNDEFINED;
    esp.resetReason = kind == Boot::Wake ? ESP_RST_DEEPSLEEP : kind == Boot::Power ? ESP_RST_POWERON : restart ? ESP_RST_SW : panic ? ESP_RST_PANIC : ESP_RST_EXT;
    clear_poll();
    resetSemaphores();
    reset_statics();
    reset_retained(kind);
}
void reset_platform()
{
    resetSemaphores();
    esp = Esp();
    for (auto l: links) delete l;
    links.clear();
}
void misuse(const char* fmt, ...)
{
    char b[200];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    logf("MISUSE %s", b);
    if (esp.misuse.empty()) esp.misuse = b;
}
int adc_value(int unit, int channel, u64 n) { return (int)(mix(unit * 16 + channel, n) % 4096); }
}

#define FAILS(name) (fails(name) ? true : false)

extern "C" {
// ---------------------------------------------------------------- system
void sim_esp_abort(const char* expr, int rc)
{
    Stub s;
    logf("ESP_ERROR_CHECK failed: %s", expr);
    esp.restarted = true;
    esp.restartReason = expr;
    crash_here();
}
void esp_restart(void)
{
    Stub s;
    esp.restarted = true;
    esp.restartReason = "esp_restart";
    logf("esp_restart");
    crash_here();
}
void esp_system_abort(const char* d) { sim_esp_abort(d, -1); }
const char* esp_err_to_name(esp_err_t) { return "ESP_ERR"; }
const char* esp_err_to_name_r(esp_err_t, char* buffer, size_t n) { if (n) snprintf(buffer, n, "ESP_ERR"); return buffer; }

// ---------------------------------------------------------------- time
int64_t esp_timer_get_time(void)
{
    Stub s;
    clock_read();
    return (int64_t)device_us();
}
void esp_rom_delay_us(uint32_t us)
{
    Stub s;
    clear_poll();
    advance(us);
    vendor_call(1);
}
void ets_delay_us(uint32_t us) { esp_rom_delay_us(us); }
static u64 tick_deadline(TickType_t ticks, bool finite = false)
{
    if (ticks == portMAX_DELAY && !finite) return UINT64_MAX;
    u64 t = (device_us() / TickUs + ticks) * TickUs;
    return t > device_us() ? now() + (t - device_us()) : now();
}
static u64 sim_semaphore_deadline(TickType_t ticks) { return tick_deadline(ticks, true); }
void vTaskDelay(TickType_t ticks)
{
    Stub s;
    clear_poll();
    if (ticks)
    {
        wait_until(tick_deadline(ticks, true), nullptr);
    }
    else { advance(5); yield_point("yield"); }
    vendor_call(2);
}
TickType_t xTaskGetTickCount(void)
{
    Stub s;
    clock_read();
    return (TickType_t)(device_us() / TickUs);
}
BaseType_t xTaskDelayUntil(TickType_t* prev, TickType_t inc)
{
    Stub s;
    u32 cur = (u32)(device_us() / TickUs);
    u32 target = *prev + inc;
    bool wait = cur < *prev ? target < *prev && target > cur : target < *prev || target > cur;
    *prev = target;
    if (wait) vTaskDelay(target - cur);
    return wait ? pdTRUE : pdFALSE;
}
uint32_t esp_log_timestamp(void) { Stub s; clock_read(); return (uint32_t)(device_us() / 1000); }
uint64_t esp_rtc_get_time_us(void) { return (uint64_t)esp_timer_get_time(); }
void sim_scheduler(int suspend) { critical_section(suspend); }
void sim_critical(int enter) { critical_section(enter); }
void taskYIELD_impl(void)
{
    Stub s;
    vendor_call(1);
    yield_point("yield");
}

// ---------------------------------------------------------------- sleep
esp_err_t esp_sleep_enable_timer_wakeup(uint64_t us)
{
    Stub s;
    clear_poll();
    vendor_call(3);
    esp.timerWakeup = true;
    esp.timerUs = us;
    logf("timer wakeup in %llu us", (unsigned long long)us);
    return ESP_OK;
}
esp_err_t esp_sleep_disable_wakeup_source(esp_sleep_source_t source)
{
    Stub s;
    vendor_call(1);
    if (source == ESP_SLEEP_WAKEUP_TIMER || source == ESP_SLEEP_WAKEUP_ALL) esp.timerWakeup = false;
    return ESP_OK;
}
esp_sleep_wakeup_cause_t esp_sleep_get_wakeup_cause(void) { Stub s; return (esp_sleep_wakeup_cause_t)esp.wakeCause; }
esp_reset_reason_t esp_reset_reason(void) { Stub s; return (esp_reset_reason_t)esp.resetReason; }
esp_err_t esp_light_sleep_start(void)
{
    Stub s;
    clear_poll();
    ++esp.lightSleeps;
    vendor_call(10);
    esp.wakeCause = ESP_SLEEP_WAKEUP_UNDEFINED;
    if (chance(esp.rejects, 16))
    {
        fault("light sleep rejected");
        // before it refuses, it may have waited for output to drain
        if (choose(2)) wait_until(now() + choose(80000), nullptr);
        esp.lastReject = now();
        return ESP_ERR_SLEEP_REJECT;
    }
    if (esp.timerWakeup && esp.timerUs < 300)
    {
        logf("light sleep too short");
        return ESP_ERR_SLEEP_TOO_SHORT_SLEEP_DURATION;
    }
    u64 d = esp.timerWakeup ? esp.timerUs : UINT64_MAX;
    esp.wakeCause = ESP_SLEEP_WAKEUP_TIMER;
    if (chance(esp.earlyWake, 16))
    {
        u64 lim = std::min<u64>(d, 4000000000ull);
        u64 e = choose((u32)lim);
        if (choose(2)) e >>= choose(20);
        fault("light sleep ends early");
        d = e;
        esp.wakeCause = ESP_SLEEP_WAKEUP_GPIO;
    }
    if (d == UINT64_MAX) violate("sleeps-forever", "light sleep without a wakeup source");
    logf("light sleep for %llu us", (unsigned long long)d);
    wait_until(now() + d, nullptr);
    vendor_call(150 + choose(200));
    return ESP_OK;
}
void esp_deep_sleep_start(void)
{
    Stub s;
    vendor_call(5);
    esp.deepSleeping = true;
    esp.deepSleepUs = esp.timerWakeup ? esp.timerUs : UINT64_MAX;
    logf("deep sleep for %llu us", (unsigned long long)esp.deepSleepUs);
    crash_here();
}
esp_err_t esp_deep_sleep_try_to_start(void) { esp_deep_sleep_start(); }
esp_err_t esp_deep_sleep_try(uint64_t us) { esp_deep_sleep(us); }
void esp_deep_sleep(uint64_t us)
{
    esp_sleep_enable_timer_wakeup(us);
    esp_deep_sleep_start();
}

// ---------------------------------------------------------------- GPIO
esp_err_t gpio_set_level(gpio_num_t pin, uint32_t level)
{
    Stub s;
    if (!GPIO_IS_VALID_OUTPUT_GPIO((int)pin)) return ESP_ERR_INVALID_ARG;
    gpio_write((unsigned)pin, level != 0);
    return ESP_OK;
}
int gpio_get_level(gpio_num_t pin) { Stub s; vendor_call(1); return pin >= 0 && pin < 40 ? gpio.read(pin) : 0; }
esp_err_t gpio_config(const gpio_config_t* conf)
{
    Stub s;
    vendor_call(3);
    for (int pin = 0; pin < 64; ++pin)
        if (conf->pin_bit_mask >> pin & 1)
            if (!GPIO_IS_VALID_GPIO(pin) || ((conf->mode & GPIO_MODE_OUTPUT) && !GPIO_IS_VALID_OUTPUT_GPIO(pin))) return ESP_ERR_INVALID_ARG;
    if (!conf->pin_bit_mask) return ESP_ERR_INVALID_ARG;
    if (FAILS("gpio_config")) return ESP_FAIL;
    for (int pin = 0; pin < 64; ++pin)
        if (conf->pin_bit_mask >> pin & 1)
        {
            gpio.mode[pin] = { true, (conf->mode & GPIO_MODE_INPUT) != 0, (conf->mode & GPIO_MODE_OUTPUT) != 0, conf->pull_up_en == GPIO_PULLUP_ENABLE, conf->pull_down_en == GPIO_PULLDOWN_ENABLE };
            logf("pin %d configured mode %d up %d down %d", pin, conf->mode, conf->pull_up_en, conf->pull_down_en);
        }
    return ESP_OK;
}
esp_err_t gpio_reset_pin(gpio_num_t pin)
{
    Stub s;
    vendor_call(3);
    if (!GPIO_IS_VALID_GPIO((int)pin)) return ESP_ERR_INVALID_ARG;
    gpio.mode[pin] = { true, false, false, true, false };
    return ESP_OK;
}
esp_err_t gpio_set_direction(gpio_num_t pin, gpio_mode_t mode)
{
    Stub s;
    vendor_call(1);
    if (!GPIO_IS_VALID_GPIO((int)pin) || ((mode & GPIO_MODE_OUTPUT) && !GPIO_IS_VALID_OUTPUT_GPIO((int)pin))) return ESP_ERR_INVALID_ARG;
    if (FAILS("gpio_set_direction")) return ESP_FAIL;
    gpio.mode[pin].configured = true;
    gpio.mode[pin].input = mode & GPIO_MODE_INPUT;
    gpio.mode[pin].output = mode & GPIO_MODE_OUTPUT;
    return ESP_OK;
}
esp_err_t gpio_set_pull_mode(gpio_num_t pin, gpio_pull_mode_t pull)
{
    Stub s;
    vendor_call(1);
    if (!GPIO_IS_VALID_GPIO((int)pin)) return ESP_ERR_INVALID_ARG;
    if (FAILS("gpio_set_pull_mode")) return ESP_FAIL;
    gpio.mode[pin].up = pull == GPIO_PULLUP_ONLY || pull == GPIO_PULLUP_PULLDOWN;
    gpio.mode[pin].down = pull == GPIO_PULLDOWN_ONLY || pull == GPIO_PULLUP_PULLDOWN;
    return ESP_OK;
}

static esp_err_t pinBit(gpio_num_t pin, const char* name, bool Gpio::Mode::*field, bool value)
{
    Stub s;
    vendor_call(1);
    if (!GPIO_IS_VALID_GPIO((int)pin)) return ESP_ERR_INVALID_ARG;
    if (FAILS(name)) return ESP_FAIL;
    gpio.mode[pin].*field = value;
    return ESP_OK;
}
esp_err_t gpio_pullup_en(gpio_num_t pin) { return pinBit(pin, "gpio_pullup_en", &Gpio::Mode::up, true); }
esp_err_t gpio_pullup_dis(gpio_num_t pin) { return pinBit(pin, "gpio_pullup_dis", &Gpio::Mode::up, false); }
esp_err_t gpio_pulldown_en(gpio_num_t pin) { return pinBit(pin, "gpio_pulldown_en", &Gpio::Mode::down, true); }
esp_err_t gpio_pulldown_dis(gpio_num_t pin) { return pinBit(pin, "gpio_pulldown_dis", &Gpio::Mode::down, false); }
esp_err_t gpio_input_enable(gpio_num_t pin) { return pinBit(pin, "gpio_input_enable", &Gpio::Mode::input, true); }
esp_err_t gpio_input_disable(gpio_num_t pin) { return pinBit(pin, "gpio_input_disable", &Gpio::Mode::input, false); }
esp_err_t gpio_output_enable(gpio_num_t pin)
{
    if (!GPIO_IS_VALID_OUTPUT_GPIO((int)pin)) return ESP_ERR_INVALID_ARG;
    return pinBit(pin, "gpio_output_enable", &Gpio::Mode::output, true);
}
esp_err_t gpio_output_disable(gpio_num_t pin) { return pinBit(pin, "gpio_output_disable", &Gpio::Mode::output, false); }
static esp_err_t pinCall(gpio_num_t pin)
{
    Stub s;
    vendor_call(1);
    return GPIO_IS_VALID_GPIO((int)pin) ? ESP_OK : ESP_ERR_INVALID_ARG;
}
esp_err_t gpio_intr_enable(gpio_num_t pin) { return pinCall(pin); }
esp_err_t gpio_intr_disable(gpio_num_t pin) { return pinCall(pin); }
esp_err_t gpio_set_intr_type(gpio_num_t pin, gpio_int_type_t) { return pinCall(pin); }
void esp_rom_gpio_pad_select_gpio(uint32_t pin) { pinCall((gpio_num_t)pin); }
void gpio_pad_select_gpio(uint32_t pin) { pinCall((gpio_num_t)pin); }

// ---------------------------------------------------------------- ADC
static int task() { return in_task() ? current_task() : 0; }
// The table ends where its page does, and the page behind it cannot be read.
struct alignas(4096) AdcMapPage
{
    char before[4096 - sizeof(int) * SOC_ADC_PERIPH_NUM * SOC_ADC_MAX_CHANNEL_NUM];
    int map[SOC_ADC_PERIPH_NUM][SOC_ADC_MAX_CHANNEL_NUM];
    char after[4096];
};
extern const AdcMapPage adcMapPage;
const AdcMapPage adcMapPage __attribute__((used)) = { {}, {
    { 36, 37, 38, 39, 32, 33, 34, 35, -1, -1 },
    { 4, 0, 2, 15, 13, 12, 14, 27, 25, 26 },
}, {} };
static_assert(sizeof(int) * SOC_ADC_PERIPH_NUM * SOC_ADC_MAX_CHANNEL_NUM == 80);
asm(".globl adc_channel_io_map\n.set adc_channel_io_map, adcMapPage + 4016\n");
static const int adcMapGuard = mprotect((void*)adcMapPage.after, sizeof adcMapPage.after, PROT_NONE);
struct adc_oneshot_unit_ctx_t { int unit; bool alive; bool configured[10]; };
static adc_oneshot_unit_ctx_t adcUnits[400];
static u32 adcUnitsUsed;
esp_err_t adc_oneshot_new_unit(const adc_oneshot_unit_init_cfg_t* cfg, adc_oneshot_unit_handle_t* ret)
{
    Stub s;
    vendor_call(20);
    if (!cfg || !ret || cfg->unit_id < 0 || cfg->unit_id > 1) return ESP_ERR_INVALID_ARG;
    if (FAILS("adc_oneshot_new_unit")) return ESP_ERR_NO_MEM;
    if (esp.adcClaimed[cfg->unit_id]) { esp.adcConflict[task()] = true; logf("ADC unit %d is already claimed", cfg->unit_id); return ESP_ERR_NOT_FOUND; }
    if (esp.adcReads == 0 && !esp.adcClaimed[0] && !esp.adcClaimed[1]) adcUnitsUsed = 0;
    esp.adcClaimed[cfg->unit_id] = true;
    auto &u = adcUnits[adcUnitsUsed++ % 400];
    u = { cfg->unit_id, true, {} };
    *ret = &u;
    return ESP_OK;
}
static bool adcHandle(adc_oneshot_unit_handle_t h, const char* f)
{
    if (!h) return false;
    if (h < adcUnits || h >= adcUnits + 400 || !h->alive) { misuse("%s on an ADC handle that is not open", f); return false; }
    return true;
}
esp_err_t adc_oneshot_config_channel(adc_oneshot_unit_handle_t h, adc_channel_t ch, const adc_oneshot_chan_cfg_t* cfg)
{
    Stub s;
    vendor_call(5);
    if (!adcHandle(h, "adc_oneshot_config_channel") || !cfg || ch < 0 || ch > 9) return ESP_ERR_INVALID_ARG;
    if (FAILS("adc_oneshot_config_channel")) return ESP_ERR_INVALID_ARG;
    h->configured[ch] = true;
    return ESP_OK;
}
esp_err_t adc_oneshot_read(adc_oneshot_unit_handle_t h, adc_channel_t ch, int* out)
{
    Stub s;
    vendor_call(30);
    esp.lastAdcOk = false;
    if (!adcHandle(h, "adc_oneshot_read") || !out || ch < 0 || ch > 9) return ESP_ERR_INVALID_ARG;
    if (!h->configured[ch])
    {
        // the driver does not check this: it converts with the lowest attenuation and says that all went well
        logf("channel %d of unit %d is converted without having been configured", ch, h->unit + 1);
        *out = 4094;
        return ESP_OK;
    }
    ++esp.adcReads;
    if (FAILS("adc_oneshot_read"))
    {
        *out = 2989;                     // whatever the hardware left there
        return ESP_ERR_TIMEOUT;
    }
    esp.lastAdcUnit = h->unit;
    esp.lastAdcChannel = ch;
    esp.lastAdcValue = adc_value(h->unit, ch, esp.adcReads);
    if (chance(1, 8)) esp.lastAdcValue = choose(2) ? 4095 : 0;
    esp.lastAdcOk = true;
    esp.adcDelivered.push_back({ task(), h->unit, ch, esp.lastAdcValue });
    *out = esp.lastAdcValue;
    return ESP_OK;
}
esp_err_t adc_oneshot_del_unit(adc_oneshot_unit_handle_t h)
{
    Stub s;
    vendor_call(5);
    if (!adcHandle(h, "adc_oneshot_del_unit")) return ESP_ERR_INVALID_ARG;
    h->alive = false;
    esp.adcClaimed[h->unit] = false;
    return ESP_OK;
}
esp_err_t adc_oneshot_io_to_channel(int io, adc_unit_t* unit, adc_channel_t* ch)
{
    Stub s;
    for (int u = 0; u < 2; ++u)
        for (int c = 0; c < 10; ++c)
            if (io >= 0 && adc_channel_io_map[u][c] == io) { *unit = (adc_unit_t)u; *ch = (adc_channel_t)c; return ESP_OK; }
    return ESP_ERR_NOT_FOUND;
}
esp_err_t adc_oneshot_channel_to_io(adc_unit_t unit, adc_channel_t ch, int* io)
{
    Stub s;
    if (unit < 0 || unit > 1 || ch < 0 || ch > 9 || !io || adc_channel_io_map[unit][ch] < 0) return ESP_ERR_INVALID_ARG;
    *io = adc_channel_io_map[unit][ch];
    return ESP_OK;
}
void adc_power_acquire(void) { ++esp.adcPower; }
void adc_power_release(void) { --esp.adcPower; }

// ---------------------------------------------------------------- I2C
esp_err_t i2c_param_config(i2c_port_t port, const i2c_config_t* conf)
{
    Stub s;
    vendor_call(10);
    if (port < 0 || port > 1 || !conf) return ESP_ERR_INVALID_ARG;
    if (FAILS("i2c_param_config")) return ESP_ERR_INVALID_ARG;
    esp.i2c[port].configured = true;
    esp.i2c[port].config = *conf;
    return ESP_OK;
}
esp_err_t i2c_driver_install(i2c_port_t port, i2c_mode_t mode, size_t, size_t, int)
{
    Stub s;
    vendor_call(20);
    if (port < 0 || port > 1) return ESP_ERR_INVALID_ARG;
    if (esp.i2c[port].installed) return ESP_FAIL;
    if (FAILS("i2c_driver_install")) return ESP_FAIL;
    esp.i2c[port].installed = true;
    esp.i2c[port].mode = mode;
    return ESP_OK;
}
esp_err_t i2c_driver_delete(i2c_port_t port)
{
    Stub s;
    vendor_call(5);
    if (port < 0 || port > 1 || !esp.i2c[port].installed) return ESP_ERR_INVALID_ARG;
    esp.i2c[port].installed = false;
    return ESP_OK;
}
static void forgetOldLinks()
{
    if (links.size() < 1000) return;
    size_t n = 0;
    for (size_t i = 0; i < links.size(); ++i)
    {
        if (links[i]->alive || i >= 500) links[n++] = links[i];
        else delete links[i];
    }
    links.resize(n);
}
i2c_cmd_handle_t i2c_cmd_link_create(void)
{
    Stub s;
    vendor_call(2);
    if (FAILS("i2c_cmd_link_create")) return nullptr;
    auto l = new CmdLink { true, false, {} };
    forgetOldLinks();
    links.push_back(l);
    ++esp.liveCmdLinks;
    return l;
}
i2c_cmd_handle_t i2c_cmd_link_create_static(uint8_t* memory, uint32_t size)
{
    Stub s;
    vendor_call(2);
    for (auto x: links)
        if (x->alive && x->isStatic && x->memory == memory) misuse("i2c_cmd_link_create_static in memory that another open command link uses");
    auto l = new CmdLink { true, true, {} };
    l->memory = memory;
    forgetOldLinks();
    links.push_back(l);
    return l;
}
static CmdLink* link(i2c_cmd_handle_t h, const char* f)
{
    if (!h) return nullptr;
    auto l = (CmdLink*)h;
    bool known = false;
    for (auto x: links) known = known || x == l;
    if (!known || !l->alive) { misuse("%s on a command link that is not open", f); return nullptr; }
    return l;
}
void i2c_cmd_link_delete(i2c_cmd_handle_t h)
{
    Stub s;
    if (auto l = link(h, "i2c_cmd_link_delete")) { l->alive = false; if (!l->isStatic) --esp.liveCmdLinks; }
}
void i2c_cmd_link_delete_static(i2c_cmd_handle_t h)
{
    Stub s;
    if (auto l = link(h, "i2c_cmd_link_delete_static")) l->alive = false;
}
static esp_err_t append(i2c_cmd_handle_t h, const char* f, CmdLink::Cmd c)
{
    Stub s;
    auto l = link(h, f);
    if (!l) return ESP_ERR_INVALID_ARG;
    if (FAILS(f)) return ESP_ERR_NO_MEM;
    l->cmds.push_back(std::move(c));
    return ESP_OK;
}
esp_err_t i2c_master_start(i2c_cmd_handle_t h) { return append(h, "i2c_master_start", { CmdLink::Start, {}, nullptr, 0 }); }
esp_err_t i2c_master_stop(i2c_cmd_handle_t h) { return append(h, "i2c_master_stop", { CmdLink::Stop, {}, nullptr, 0 }); }
esp_err_t i2c_master_write_byte(i2c_cmd_handle_t h, uint8_t d, bool ack) { return append(h, "i2c_master_write_byte", { CmdLink::Write, { d }, nullptr, 0, ack }); }
esp_err_t i2c_master_write(i2c_cmd_handle_t h, const uint8_t* d, size_t n, bool ack) { return append(h, "i2c_master_write", { CmdLink::Write, std::vector<u8>(d, d + n), nullptr, 0, ack }); }
esp_err_t i2c_master_read_byte(i2c_cmd_handle_t h, uint8_t* d, i2c_ack_type_t) { return append(h, "i2c_master_read_byte", { CmdLink::Read, {}, d, 1 }); }
esp_err_t i2c_master_read(i2c_cmd_handle_t h, uint8_t* d, size_t n, i2c_ack_type_t) { return append(h, "i2c_master_read", { CmdLink::Read, {}, d, n }); }

static esp_err_t code(I2cBus::Result r)
{
    return r == I2cBus::Ok ? ESP_OK : r == I2cBus::Timeout ? ESP_ERR_TIMEOUT : ESP_FAIL;
}
static esp_err_t i2c_write_dev(int port, u16 addr, const u8* p, size_t n, bool stop)
{
    stub_touch(p, n, false);
    return code(i2c[port].write(addr, p, n, stop));
}
static esp_err_t i2c_read_dev(int port, u16 addr, u8* p, size_t n)
{
    stub_touch(p, n, true);
    size_t got;
    return code(i2c[port].read(addr, p, n, got));
}
static esp_err_t i2c_ready(i2c_port_t port)
{
    if (port < 0 || port > 1) return ESP_ERR_INVALID_ARG;
    if (!esp.i2c[port].installed) return ESP_ERR_INVALID_STATE;
    return ESP_OK;
}
esp_err_t i2c_master_cmd_begin(i2c_port_t port, i2c_cmd_handle_t h, TickType_t)
{
    Stub s;
    clear_poll();
    vendor_call(10);
    if (auto e = i2c_ready(port)) return e;
    auto l = link(h, "i2c_master_cmd_begin");
    if (!l) return ESP_ERR_INVALID_ARG;
    // Transfers are delimited by start conditions; the byte after one is the address.
    size_t i = 0;
    auto &c = l->cmds;
    while (i < c.size())
    {
        if (c[i].op != CmdLink::Start) { if (c[i].op == CmdLink::Stop) { ++i; continue; } return ESP_FAIL; }
        ++i;
        std::vector<u8> w;
        std::vector<std::pair<u8*, size_t>> r;
        const bool ack = i >= c.size() || c[i].ack;     // without it nobody looks whether the address is acknowledged
        while (i < c.size() && (c[i].op == CmdLink::Write || c[i].op == CmdLink::Read))
        {
            if (c[i].op == CmdLink::Write) w.insert(w.end(), c[i].w.begin(), c[i].w.end());
            else r.push_back({ c[i].r, c[i].n });
            ++i;
        }
        bool stop = i < c.size() && c[i].op == CmdLink::Stop;
        if (w.empty()) return ESP_FAIL;
        u16 addr = w[0] >> 1;
        if (w[0] & 1)
        {
            size_t n = 0;
            for (auto &x: r) n += x.second;
            std::vector<u8> buf(n);
            size_t got;
            auto res = i2c[port].read(addr, buf.data(), n, got, stop);
            size_t k = 0;
            for (auto &x: r)
                for (size_t j = 0; j < x.second && k < got; ++j)
                {
                    stub_touch(x.first + j, 1, true);
                    x.first[j] = buf[k++];
                }
            if (res && (ack || res != I2cBus::AddressNack)) return code(res);
        }
        else
        {
            stub_touch(w.data() + 1, w.size() - 1, false);
            auto res = i2c[port].write(addr, w.data() + 1, w.size() - 1, stop);
            if (res && (ack || res != I2cBus::AddressNack)) return code(res);
        }
    }
    return ESP_OK;
}
esp_err_t i2c_master_write_to_device(i2c_port_t port, uint8_t addr, const uint8_t* p, size_t n, TickType_t)
{
    Stub s;
    clear_poll();
    vendor_call(10);
    if (auto e = i2c_ready(port)) return e;
    if (FAILS("i2c_master_write_to_device")) return ESP_ERR_NO_MEM;
    return i2c_write_dev(port, addr, p, n, true);
}
esp_err_t i2c_master_read_from_device(i2c_port_t port, uint8_t addr, uint8_t* p, size_t n, TickType_t)
{
    Stub s;
    clear_poll();
    vendor_call(10);
    if (auto e = i2c_ready(port)) return e;
    if (n == 0) return ESP_ERR_INVALID_ARG;
    if (FAILS("i2c_master_read_from_device")) return ESP_ERR_NO_MEM;
    return i2c_read_dev(port, addr, p, n);
}
esp_err_t i2c_master_write_read_device(i2c_port_t port, uint8_t addr, const uint8_t* w, size_t wn, uint8_t* r, size_t rn, TickType_t)
{
    Stub s;
    clear_poll();
    vendor_call(10);
    if (auto e = i2c_ready(port)) return e;
    if (auto e = i2c_write_dev(port, addr, w, wn, false)) return e;
    return i2c_read_dev(port, addr, r, rn);
}
esp_err_t i2c_set_timeout(i2c_port_t, int) { Stub s; vendor_call(1); return ESP_OK; }
esp_err_t i2c_get_timeout(i2c_port_t, int* t) { Stub s; vendor_call(1); *t = 32000; return ESP_OK; }
esp_err_t i2c_filter_enable(i2c_port_t, uint8_t) { Stub s; vendor_call(1); return ESP_OK; }
esp_err_t i2c_filter_disable(i2c_port_t) { Stub s; vendor_call(1); return ESP_OK; }
esp_err_t i2c_reset_tx_fifo(i2c_port_t) { return ESP_OK; }
esp_err_t i2c_reset_rx_fifo(i2c_port_t) { return ESP_OK; }

// ---------------------------------------------------------------- UART
bool uart_is_driver_installed(uart_port_t port) { Stub s; vendor_call(1); return port >= 0 && port < 3 && esp.uart[port].installed; }
esp_err_t uart_param_config(uart_port_t port, const uart_config_t* conf)
{
    Stub s;
    vendor_call(10);
    if (port < 0 || port > 2 || !conf) return ESP_ERR_INVALID_ARG;
    ++esp.uart[port].touched;
    if (FAILS("uart_param_config")) return ESP_FAIL;
    esp.uart[port].configured = true;
    esp.uart[port].config = *conf;
    return ESP_OK;
}
esp_err_t uart_set_pin(uart_port_t port, int tx, int rx, int, int)
{
    Stub s;
    vendor_call(10);
    if (port < 0 || port > 2) return ESP_ERR_INVALID_ARG;
    ++esp.uart[port].touched;
    if (FAILS("uart_set_pin")) return ESP_FAIL;
    esp.uart[port].pins = true;
    if (tx != UART_PIN_NO_CHANGE) esp.uart[port].tx = tx;
    if (rx != UART_PIN_NO_CHANGE) esp.uart[port].rx = rx;
    return ESP_OK;
}
esp_err_t uart_driver_install(uart_port_t port, int rx, int tx, int, QueueHandle_t*, int)
{
    Stub s;
    vendor_call(30);
    if (port < 0 || port > 2 || rx <= UART_HW_FIFO_LEN(port)) return ESP_ERR_INVALID_ARG;
    ++esp.uart[port].touched;
    if (esp.uart[port].installed) { logf("UART driver is already installed"); return ESP_FAIL; }
    if (FAILS("uart_driver_install")) return ESP_ERR_NO_MEM;
    esp.uart[port].installed = true;
    esp.uart[port].rxBuffer = rx;
    esp.uart[port].txBuffer = tx;
    ++esp.uart[port].installs;
    return ESP_OK;
}
esp_err_t uart_driver_delete(uart_port_t port)
{
    Stub s;
    vendor_call(5);
    if (port < 0 || port > 2) return ESP_ERR_INVALID_ARG;
    ++esp.uart[port].touched;
    esp.uart[port].installed = false;
    return ESP_OK;
}
esp_err_t uart_set_baudrate(uart_port_t port, uint32_t baud)
{
    Stub s;
    vendor_call(5);
    ++esp.uart[port].touched;
    esp.uart[port].config.baud_rate = (int)baud;
    return ESP_OK;
}
static bool uartSet(uart_port_t port)
{
    vendor_call(2);
    if (port < 0 || port > 2) return false;
    ++esp.uart[port].touched;
    return true;
}
esp_err_t uart_get_baudrate(uart_port_t port, uint32_t* baud) { Stub s; vendor_call(2); if (port < 0 || port > 2) return ESP_FAIL; *baud = (uint32_t)esp.uart[port].config.baud_rate; return ESP_OK; }
esp_err_t uart_set_word_length(uart_port_t port, uart_word_length_t bits) { Stub s; if (!uartSet(port)) return ESP_FAIL; esp.uart[port].config.data_bits = bits; return ESP_OK; }
esp_err_t uart_set_stop_bits(uart_port_t port, uart_stop_bits_t bits) { Stub s; if (!uartSet(port)) return ESP_FAIL; esp.uart[port].config.stop_bits = bits; return ESP_OK; }
esp_err_t uart_set_parity(uart_port_t port, uart_parity_t parity) { Stub s; if (!uartSet(port)) return ESP_FAIL; esp.uart[port].config.parity = parity; return ESP_OK; }
esp_err_t uart_set_hw_flow_ctrl(uart_port_t port, uart_hw_flowcontrol_t flow, uint8_t) { Stub s; if (!uartSet(port)) return ESP_FAIL; esp.uart[port].config.flow_ctrl = flow; return ESP_OK; }
esp_err_t uart_set_mode(uart_port_t port, uart_mode_t) { Stub s; return uartSet(port) ? ESP_OK : ESP_FAIL; }
esp_err_t uart_set_rx_timeout(uart_port_t port, uint8_t) { Stub s; return uartSet(port) ? ESP_OK : ESP_FAIL; }
esp_err_t uart_set_rx_full_threshold(uart_port_t port, int) { Stub s; return uartSet(port) ? ESP_OK : ESP_FAIL; }
esp_err_t uart_set_tx_empty_threshold(uart_port_t port, int) { Stub s; return uartSet(port) ? ESP_OK : ESP_FAIL; }
esp_err_t uart_get_tx_buffer_free_size(uart_port_t port, size_t* n) { Stub s; vendor_call(2); if (port < 0 || port > 2 || !n) return ESP_FAIL; *n = (size_t)esp.uart[port].txBuffer; return ESP_OK; }
esp_err_t uart_wait_tx_idle_polling(uart_port_t port)
{
    Stub s;
    clear_poll();
    vendor_call(2);
    if (port < 0 || port > 2) return ESP_ERR_INVALID_ARG;
    wait_until(uart[port].txIdle, nullptr);
    return ESP_OK;
}
int uart_write_bytes(uart_port_t port, const void* src, size_t n)
{
    Stub s;
    clear_poll();
    vendor_call(5);
    if (port < 0 || port > 2 || !esp.uart[port].installed) return -1;
    auto &u = uart[port];
    auto p = (const u8*)src;
    stub_touch(p, n, false);
    u.offered.emplace_back(p, p + n);
    if (n == 0) { u.acceptedPerCall.push_back(0); return 0; }
    if (FAILS("uart_write_bytes"))
    {
        u.acceptedPerCall.push_back(0);
        return -1;
    }
    size_t k = n;
    if (FAILS("uart_write_bytes accepts less")) k = choose((u32)n);
    u.acceptedPerCall.push_back(k);
    u.accepted += k;
    u.put(p, k);
    logf("UART%d write %zu bytes %s -> %zu", port, n, hex(p, n, 12).c_str(), k);
    return (int)k;
}
int uart_tx_chars(uart_port_t port, const char* src, uint32_t n)
{
    Stub s;
    vendor_call(3);
    if (port < 0 || port > 2 || !esp.uart[port].installed) return -1;
    auto &u = uart[port];
    // as many as the FIFO takes now
    u64 queued = 0;
    while (queued < u.line.size() && u.line[u.line.size() - 1 - queued].left > now()) ++queued;
    size_t k = std::min<size_t>(n, u.fifo > queued ? u.fifo - queued : 0);
    stub_touch(src, k, false);
    u.offered.emplace_back((const u8*)src, (const u8*)src + n);
    u.acceptedPerCall.push_back(k);
    u.accepted += k;
    u.put((const u8*)src, k);
    return (int)k;
}
int uart_read_bytes(uart_port_t port, void* buf, uint32_t n, TickType_t ticks)
{
    Stub s;
    if (port < 0 || port > 2 || !esp.uart[port].installed) { vendor_call(3); return -1; }
    auto &u = uart[port];
    if (FAILS("uart_read_bytes"))
    {
        ++u.errors;
        vendor_call(5);
        return -1;
    }
    u64 end = tick_deadline(ticks);
    auto p = (u8*)buf;
    u32 count = 0;
    u.poll();
    bool useful = u.available() > 0;
    while (count < n)
    {
        if (!u.available() && !wait_until(end, [&] { return u.available() > 0; })) break;
        stub_touch(p + count, 1, true);
        p[count++] = u.pop();
        if (u.chunkTimeout) end = tick_deadline(ticks);
    }
    poll_cost(useful || ticks);
    return (int)count;
}
esp_err_t uart_wait_tx_done(uart_port_t port, TickType_t ticks)
{
    Stub s;
    clear_poll();
    vendor_call(2);
    if (port < 0 || port > 2 || !esp.uart[port].installed) return ESP_FAIL;
    auto &u = uart[port];
    u64 end = tick_deadline(ticks);
    wait_until(std::min(end, u.txIdle), nullptr);
    return u.idle() ? ESP_OK : ESP_ERR_TIMEOUT;
}
esp_err_t uart_flush_input(uart_port_t port)
{
    Stub s;
    vendor_call(2);
    if (port < 0 || port > 2) return ESP_FAIL;
    uart[port].discard();
    return ESP_OK;
}
esp_err_t uart_flush(uart_port_t port) { return uart_flush_input(port); }
esp_err_t uart_get_buffered_data_len(uart_port_t port, size_t* n)
{
    Stub s;
    poll_cost(uart[port].available());
    if (port < 0 || port > 2 || !esp.uart[port].installed) return ESP_FAIL;
    *n = uart[port].available();
    return ESP_OK;
}

// ---------------------------------------------------------------- SPI
esp_err_t spi_bus_initialize(spi_host_device_t host, const spi_bus_config_t* cfg, spi_dma_chan_t)
{
    Stub s;
    vendor_call(20);
    if (host < 0 || host > 2 || !cfg) return ESP_ERR_INVALID_ARG;
    auto &h = esp.spi[host];
    if (h.initialised) { logf("SPI host %d is already initialised", host); return ESP_ERR_INVALID_STATE; }
    if (FAILS("spi_bus_initialize")) return ESP_ERR_NO_MEM;
    h.initialised = true;
    h.config = *cfg;
    h.maxBytes = cfg->max_transfer_sz > 0 ? (size_t)cfg->max_transfer_sz : 4092;
    h.maxBytes = (h.maxBytes + 4091) / 4092 * 4092;
    return ESP_OK;
}
esp_err_t spi_bus_free(spi_host_device_t host)
{
    Stub s;
    vendor_call(10);
    if (host < 0 || host > 2) return ESP_ERR_INVALID_ARG;
    auto &h = esp.spi[host];
    if (!h.initialised) { misuse("spi_bus_free of a bus that is not initialised"); return ESP_ERR_INVALID_STATE; }
    if (h.devices) { logf("SPI host %d still has devices", host); return ESP_ERR_INVALID_STATE; }
    if (FAILS("spi_bus_free")) return ESP_ERR_INVALID_STATE;
    h.initialised = false;
    return ESP_OK;
}
esp_err_t spi_bus_add_device(spi_host_device_t host, const spi_device_interface_config_t* cfg, spi_device_handle_t* handle)
{
    Stub s;
    vendor_call(10);
    if (host < 0 || host > 2 || !cfg || !handle) return ESP_ERR_INVALID_ARG;
    auto &h = esp.spi[host];
    if (!h.initialised) return ESP_ERR_INVALID_STATE;
    if (FAILS("spi_bus_add_device")) return choose(2) ? ESP_ERR_NO_MEM : ESP_ERR_NOT_FOUND;
    if (esp.spiDevicesUsed == 200) return ESP_ERR_NO_MEM;
    auto &d = esp.spiDevices[esp.spiDevicesUsed++];
    d.alive = true;
    d.host = host;
    d.flags = cfg->flags;
    d.frequency = cfg->clock_speed_hz;
    d.mode = cfg->mode;
    ++h.devices;
    *handle = &d;
    return ESP_OK;
}
static bool spiHandle(spi_device_handle_t d, const char* f)
{
    if (!d) return false;
    if (d < esp.spiDevices || d >= esp.spiDevices + 200 || !d->alive) { misuse("%s with an SPI device handle that was released or never given out", f); return false; }
    return true;
}
esp_err_t spi_bus_remove_device(spi_device_handle_t d)
{
    Stub s;
    vendor_call(10);
    if (!spiHandle(d, "spi_bus_remove_device")) return ESP_ERR_INVALID_ARG;
    if (FAILS("spi_bus_remove_device")) return ESP_ERR_INVALID_STATE;
    d->alive = false;
    --esp.spi[d->host].devices;
    return ESP_OK;
}
esp_err_t spi_device_polling_transmit(spi_device_handle_t d, spi_transaction_t* t)
{
    Stub s;
    clear_poll();
    vendor_call(5);
    if (!spiHandle(d, "spi_device_polling_transmit") || !t) return ESP_ERR_INVALID_ARG;
    auto &h = esp.spi[d->host];
    const bool half = d->flags & SPI_DEVICE_HALFDUPLEX;
    auto tx = (const u8*)(t->flags & SPI_TRANS_USE_TXDATA ? t->tx_data : t->tx_buffer);
    auto rx = (u8*)(t->flags & SPI_TRANS_USE_RXDATA ? t->rx_data : t->rx_buffer);
    if (!half && t->rxlength == 0) t->rxlength = t->length;
    if (!half && t->rxlength > t->length) { logf("rx length > tx length in full duplex mode"); return ESP_ERR_INVALID_ARG; }
    if (t->length > h.maxBytes * 8 || t->rxlength > h.maxBytes * 8) { logf("transfer longer than the host's maximum"); return ESP_ERR_INVALID_ARG; }
    if (half && tx && rx && t->length && t->rxlength) { logf("half duplex with both phases"); return ESP_ERR_INVALID_ARG; }
    size_t nt = (t->length + 7) / 8, nr = (t->rxlength + 7) / 8;
    size_t partial = SIZE_MAX;
    if (FAILS("spi_device_polling_transmit"))
    {
        if (choose(2) == 0)
        {
            hal::spi[d->host].failedAt = std::min(hal::spi[d->host].failedAt, hal::spi[d->host].log.size());
            return ESP_ERR_NO_MEM;
        }
        partial = choose((u32)std::max(nt, nr) + 1);
        fault("SPI transfer stops part-way");
    }
    int dev = (int)(d - esp.spiDevices);
    u64 tr = ++spi[d->host].transactions;
    auto &line = spi[d->host];
    if (half)
    {
        if (tx && nt)
        {
            stub_touch(tx, nt, false);
            for (size_t i = 0; i < nt && i < partial; ++i) line.exchange(tx[i], dev, tr, d->frequency, true, false);
        }
        if (rx && nr)
        {
            stub_touch(rx, nr, true);
            for (size_t i = 0; i < nr && i < partial; ++i) rx[i] = line.exchange(0, dev, tr, d->frequency, false, true);
        }
    }
    else
    {
        if (tx) stub_touch(tx, nt, false);
        if (rx) stub_touch(rx, nr, true);
        for (size_t i = 0; i < nt && i < partial; ++i)
        {
            u8 r = line.exchange(tx ? tx[i] : 0, dev, tr, d->frequency, tx != nullptr, rx && i < nr);
            if (rx && i < nr) rx[i] = r;
        }
    }
    logf("SPI transfer tx %zu %s rx %zu%s", tx ? nt : 0, tx ? hex(tx, nt, 6).c_str() : "", rx ? nr : 0, partial == SIZE_MAX ? "" : " FAILED");
    if (partial != SIZE_MAX) line.failedAt = std::min(line.failedAt, line.log.size());
    vendor_call(2 * std::max(nt, nr));
    return partial == SIZE_MAX ? ESP_OK : ESP_ERR_TIMEOUT;
}
esp_err_t spi_device_transmit(spi_device_handle_t d, spi_transaction_t* t) { return spi_device_polling_transmit(d, t); }
esp_err_t spi_device_polling_start(spi_device_handle_t d, spi_transaction_t* t, TickType_t) { return spi_device_polling_transmit(d, t); }
esp_err_t spi_device_polling_end(spi_device_handle_t, TickType_t) { return ESP_OK; }
// A queued transfer is carried out at once; its result is kept until it is fetched.
esp_err_t spi_device_queue_trans(spi_device_handle_t d, spi_transaction_t* t, TickType_t)
{
    auto e = spi_device_polling_transmit(d, t);
    if (e == ESP_OK) d->queued.push_back(t);
    return e;
}
esp_err_t spi_device_get_trans_result(spi_device_handle_t d, spi_transaction_t** t, TickType_t ticks)
{
    Stub s;
    clear_poll();
    vendor_call(2);
    if (!spiHandle(d, "spi_device_get_trans_result") || !t) return ESP_ERR_INVALID_ARG;
    if (d->queued.empty())
    {
        if (ticks == portMAX_DELAY) violate("waits-forever", "waiting for the result of an SPI transfer that was never queued");
        return ESP_ERR_TIMEOUT;
    }
    *t = d->queued.front();
    d->queued.erase(d->queued.begin());
    return ESP_OK;
}
esp_err_t spi_device_get_actual_freq(spi_device_handle_t d, int* khz)
{
    Stub s;
    if (!spiHandle(d, "spi_device_get_actual_freq") || !khz) return ESP_ERR_INVALID_ARG;
    *khz = d->frequency / 1000;
    return ESP_OK;
}
esp_err_t spi_device_acquire_bus(spi_device_handle_t d, TickType_t) { Stub s; return spiHandle(d, "spi_device_acquire_bus") ? ESP_OK : ESP_ERR_INVALID_ARG; }
void spi_device_release_bus(spi_device_handle_t d) { Stub s; spiHandle(d, "spi_device_release_bus"); }
esp_err_t spi_bus_get_max_transaction_len(spi_host_device_t host, size_t* n)
{
    Stub s;
    if (host < 0 || host > 2 || !n || !esp.spi[host].initialised) return ESP_ERR_INVALID_STATE;
    *n = esp.spi[host].maxBytes;
    return ESP_OK;
}
}
