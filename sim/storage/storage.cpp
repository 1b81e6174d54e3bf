// Persistent storage in battery backed memory: a device that stores objects and
// is reset at any instant, seen through a reference model.
#include "core/sim.h"
#include "storage/shim.h"
#include <algorithm>
#include <cstring>
#include <map>
#include <string>

using namespace sim;

namespace
{
constexpr size_t Header = 6;    // size of a record header, part of the documented capacity

struct Rec
{
    std::string key;
    std::vector<u8> data;
    size_t off = 0;             // where its header starts in the region
};

// Keys are compared without trailing NULs.
std::string norm(std::string k)
{
    while (!k.empty() && k.back() == 0) k.pop_back();
    return k;
}
std::string show(const std::string &k)
{
    std::string s;
    for (unsigned char c: k)
    {
        if (c >= 33 && c < 127 && c != '\\') s += (char)c;
        else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); s += b; }
    }
    return "'" + s + "'";
}

struct World
{
    u8* region = nullptr;
    size_t size = 0;
    std::vector<u8> objectSpace;
    u8* object = nullptr;
    std::vector<Rec> recs;              // what the storage must hold, in the order stored
    std::vector<std::string> keys;      // keys used in this run
    std::vector<std::string> longKeys;
    std::vector<size_t> types;          // indices of shim::ops used in this run
    bool modelValid = true;             // false once unspecified records exist (after damage)
    bool crowd = false;                 // hundreds of small records
    World* peer = nullptr;              // another storage on the same device
    u32 tagCounter = 0;

    size_t used() const
    {
        size_t n = 0;
        for (auto &r: recs) n += Header + r.data.size();
        return n;
    }
    Rec* find(const std::string &k, size_t n)
    {
        for (auto &r: recs) if (r.key == k && r.data.size() == n) return &r;
        return nullptr;
    }
    bool inTask = false;                // the step limit is set for all tasks together
    void limit(size_t extra = 0) { if (!inTask) set_step_limit(100000 + 2000 * size + 60 * extra); }

    void open(bool init)
    {
        objectSpace.assign(shim::storage_object_size() + 64, 0xAA);
        object = (u8*)(((uintptr_t)objectSpace.data() + 15) & ~(uintptr_t)15);
        limit();
        Cut c;
        shim::storage_open(object, region, size, init);
    }
    // The storage object's life ends; the region stays.
    void close()
    {
        objectSpace.assign(objectSpace.size(), 0xEE);
        object = nullptr;
    }
    // The device restarts: everything but the regions is gone.
    void reset()
    {
        close();
        if (peer) peer->close();
        reset_statics();
    }
    void use()
    {
        if (!object) open(false);
    }

    // Old stack contents become part of what a careless implementation returns.
    bool get(const std::string &k, size_t t, std::vector<u8> &out)
    {
        use();
        auto &op = shim::ops[t];
        out.assign(op.size, 0xCD);
        limit(op.size);
        Cut c;
        return op.get(object, k, out.data());
    }
    bool set(const std::string &k, size_t t, const std::vector<u8> &data)
    {
        use();
        auto &op = shim::ops[t];
        limit(op.size);
        Cut c;
        return op.set(object, k, data.data());
    }

    std::vector<u8> payload(size_t n)
    {
        std::vector<u8> d(n);
        u64 s = mix(0xFACE, ++tagCounter * 977 + n);
        u32 style = choose(6);
        for (size_t i = 0; i < n; ++i)
        {
            if (i % 8 == 0) s = mix(s, i);
            d[i] = (u8)(s >> (8 * (i % 8)));
        }
        // Contents that look like record headers, or like nothing.
        if (style == 1) std::fill(d.begin(), d.end(), 0);
        if (style == 2) std::fill(d.begin(), d.end(), 0xFF);
        if (style == 3)
        {
            auto &k = keys[choose((u32)keys.size())];
            auto &op = shim::ops[types[choose((u32)types.size())]];
            size_t sz = op.size + Header;
            std::string h;
            h += (char)(sz & 255);
            h += (char)(sz >> 8 & 255);
            for (size_t i = 0; i < 4; ++i) h += i < k.size() ? k[i] : 0;
            u32 shift = choose(6);
            for (size_t i = 0; i < n; ++i) d[i] = h[(i + shift) % 6];
        }
        if (style == 4)
        {
            // small numbers, as record sizes are
            const u64 salt = choose(0x7fffffff);
            for (size_t i = 0; i < n; ++i)
            {
                const u64 r = i < 40 ? choose(32) : mix(salt, i) >> 13 & 31;
                d[i] = r & 1 ? (u8)(1 + (r >> 1)) : (u8)0;
            }
        }
        return d;
    }

    // Contents that differ from other contents in as little as a comparison may overlook.
    void vary(std::vector<u8> &d, const std::vector<u8> &from)
    {
        if (d.size() != from.size() || d.empty()) return;
        d = from;
        const u32 how = choose(6);
        const size_t at = how < 2 ? d.size() - 1 : choose((u32)d.size());
        switch (how)
        {
        case 0: case 1: case 2: d[at] ^= (u8)(1u << choose(8)); break;
        case 3: std::swap(d[at], d[choose((u32)d.size())]); break;
        case 4: { d[at]++; d[choose((u32)d.size())]--; break; }     // the same sum
        case 5: break;                                              // the same contents
        }
    }

    // Every key of the run under every size of the run against the model.
    void checkAll(const char* prop, const char* code, const std::string &when, const std::string &exceptKey = "\x01none")
    {
        if (!modelValid) return;
        std::vector<u8> got;
        // With hundreds of records a sample of the keys has to do, except at the end.
        bool sample = crowd && when != "at the end of the run";
        size_t n = 0;
        for (auto &k: keys)
            for (auto t: types)
            {
                if (sample && n++ + 4 < keys.size() * types.size() && mix(tagCounter, n) % (keys.size() * types.size()) >= 12) continue;
                if (k == exceptKey) continue;
                auto &op = shim::ops[t];
                Rec* r = find(norm(k), op.size);
                bool have = get(k, t, got);
                if (have != (r != nullptr))
                    fail(prop, code, "%s: key %s (%zu bytes) is %s", when.c_str(), show(k).c_str(), op.size, have ? "readable but was never stored" : "gone");
                else if (have && got != r->data)
                    fail(prop, code, "%s: key %s (%zu bytes) reads %s, stored was %s", when.c_str(), show(k).c_str(), op.size,
                         hex(got.data(), got.size()).c_str(), hex(r->data.data(), r->data.size()).c_str());
            }
    }
    u64 digest() const
    {
        u64 h = mix(size, recs.size());
        for (auto &r: recs)
        {
            h = mix(h, r.data.size());
            for (char c: r.key) h = mix(h, (u8)c);
        }
        return h;
    }
};

// Hundreds of small records: more than any counter of eight bits, or a bounded loop, can follow.
void setupCrowd(World &w)
{
    w.crowd = true;
    w.size = range(1500, 6000);
    w.region = arena_alloc(w.size, choose(8), 0xA5);
    arena_watch(w.region);
    size_t t = choose(2) ? choose(2) : choose(8);
    w.types.push_back(t);
    if (chance(1, 4)) w.types.push_back(t + 1);
    size_t n = w.size / (Header + shim::ops[t].size) + choose(20);
    if (chance(1, 3)) n = 200 + choose(80);
    for (size_t i = 0; i < n; ++i)
    {
        char b[8];
        snprintf(b, sizeof b, "%03zx", i);
        w.keys.push_back(b);
    }
    w.longKeys.push_back("abcdefgh");
    w.longKeys.push_back("00000");
}
void prefill(World &w)
{
    size_t n = chance(1, 2) ? w.keys.size() : 230 + choose(60);
    size_t t = w.types[0];
    for (size_t i = 0; i < n && i < w.keys.size(); ++i)
    {
        std::vector<u8> d(shim::ops[t].size);
        for (size_t j = 0; j < d.size(); ++j) d[j] = (u8)(mix(i, j) >> 9);
        bool fits = w.used() + Header + d.size() <= w.size;
        if (w.find(norm(w.keys[i]), d.size())) continue;
        bool ok = w.set(w.keys[i], t, d);
        if (ok && fits) w.recs.push_back({ norm(w.keys[i]), d, w.used() });
        if (ok == fits) continue;
        fail("P05", ok ? "stored-beyond-capacity" : "space-lost", "storing %zu bytes as the %zuth key %s with %zu of %zu bytes used", d.size(), w.recs.size() + 1, ok ? "succeeded" : "failed", w.used(), w.size);
        discard("wrong capacity (P05)");
    }
    logf("%zu records", w.recs.size());
    if (w.recs.size() > 255) probe("more than 255 records");
}

bool isFocus(const char* a) { return focus(a); }

void setup(World &w)
{
    if (chance(1, 64)) return setupCrowd(w);
    u32 kind = choose(24);
    if (kind == 23)
    {
        w.size = range(65000, 200000);
        // as many bytes as sixteen bits can count, and a few more
        if (chance(1, 3)) w.size = 65536 * (1 + choose(2)) + choose(24) - 8;
    }
    else if (kind >= 21) w.size = range(0, 24);
    else if (kind >= 17) w.size = range(600, 9000);
    else w.size = range(24, 420);
    bool big = w.size >= 65000;
    w.region = arena_alloc(w.size, choose(8), 0xA5);
    arena_watch(w.region);

    static const char* const pool[] = { "a", "b", "key", "key1", "key2", "test", "", "A", "k", "ke", "tes", "cfg", "wifi", "\xff\xfe", "zzzz", "yek1" };
    u32 n = range(2, 7);
    for (u32 i = 0; i < n; ++i)
    {
        std::string k = pick(pool);
        if (chance(1, 12)) k += '\0';                       // trailing NUL
        if (chance(1, 16)) k = std::string("a\0b", 3);      // embedded NUL
        if (k.size() <= 4 && std::find(w.keys.begin(), w.keys.end(), k) == w.keys.end()) w.keys.push_back(k);
    }
    if (w.keys.empty()) w.keys.push_back("a");
    static const char* const longPool[] = { "key12", "testing", "abcdefgh", "wifi-password" };
    w.longKeys.push_back(pick(longPool));
    w.longKeys.push_back(w.keys[0] + std::string(5 - std::min<size_t>(4, w.keys[0].size()), 'x'));
    w.longKeys.push_back(w.keys[0] + std::string(5, '\0'));
    for (auto &k: w.keys) if (k.size() == 4) w.longKeys.push_back(k + pick<const char*>({ "x", "1", k.c_str(), "2abc" }));

    u32 m = range(1, 5);
    for (u32 i = 0; i < m; ++i)
    {
        size_t t;
        do t = choose((u32)shim::opsCount);
        while (!big && shim::ops[t].size > 1000 && w.size < 5000 && chance(7, 8));
        w.types.push_back(t);
    }
    if (big) for (size_t t = 0; t < shim::opsCount; ++t) if (shim::ops[t].size >= 65528 && chance(1, 3)) w.types.push_back(t);
    std::sort(w.types.begin(), w.types.end());
    w.types.erase(std::unique(w.types.begin(), w.types.end()), w.types.end());
}

// The type whose size makes the next record end exactly at (or one byte past) the end of the region.
int exactType(World &w, long delta)
{
    long want = (long)w.size - (long)w.used() - (long)Header + delta;
    for (size_t t = 0; t < shim::opsCount; ++t) if ((long)shim::ops[t].size == want) return (int)t;
    return -1;
}

struct Step { std::string key; size_t type; std::vector<u8> data; Rec* old; bool fits; };

Step drawStore(World &w)
{
    Step s;
    u32 what = choose(8);
    s.key = w.keys[choose((u32)w.keys.size())];
    s.type = w.types[choose((u32)w.types.size())];
    if (what >= 6)
    {
        // fill the region to the last byte, or ask for one byte too many
        int t = exactType(w, what == 7 ? 1 : -(int)choose(3));
        if (t >= 0)
        {
            s.type = (size_t)t;
            if (std::find(w.types.begin(), w.types.end(), s.type) == w.types.end() && w.types.size() < 9) w.types.push_back(s.type);
            probe("store up to the end of the region");
        }
    }
    s.old = w.find(norm(s.key), shim::ops[s.type].size);
    if ((isFocus("P02") && s.old && chance(2, 3)) || (isFocus("P03") && !s.old && !w.recs.empty() && chance(2, 3)))
    {
        if (isFocus("P03"))
        {
            auto &r = w.recs[choose((u32)w.recs.size())];
            for (auto &k: w.keys) if (norm(k) == r.key) s.key = k;
            for (auto t: w.types) if (shim::ops[t].size == r.data.size()) s.type = t;
        }
        else
        {
            s.key = w.keys[choose((u32)w.keys.size())];
        }
        s.old = w.find(norm(s.key), shim::ops[s.type].size);
    }
    s.data = w.payload(shim::ops[s.type].size);
    if (s.old ? chance(1, 3) : !w.recs.empty() && chance(1, 8)) w.vary(s.data, s.old ? s.old->data : w.recs[choose((u32)w.recs.size())].data);
    s.fits = w.used() + Header + s.data.size() <= w.size && Header + s.data.size() <= 0xFFFF;
    return s;
}

void doStore(World &w)
{
    Step s = drawStore(w);
    logf("store %s %zu bytes %s%s", show(s.key).c_str(), s.data.size(), hex(s.data.data(), s.data.size(), 8).c_str(), s.old ? " (overwrite)" : s.fits ? "" : " (does not fit)");
    bool ok = w.set(s.key, s.type, s.data);
    logf(" -> %d", ok);
    if (s.old)
    {
        if (!ok) fail("P05", "overwrite-refused", "storing to the existing key %s of %zu bytes failed", show(s.key).c_str(), s.data.size());
        if (!ok) fail("P03", "overwrite-refused", "the existing key %s of %zu bytes cannot be stored again", show(s.key).c_str(), s.data.size());
        if (!ok) discard("store failed (P05)");
        s.old->data = s.data;
        w.checkAll("P01", "acknowledged-object-wrong", "after a successful store of " + show(s.key));
        w.checkAll("P03", "overwrite-damaged", "after overwriting " + show(s.key));
        w.checkAll("P05", "store-changed-objects", "after a store");
        return;
    }
    if (ok)
    {
        std::vector<u8> got;
        if (Header + s.data.size() > 0xFFFF)
        {
            // More than the record format can describe: fine only if it can be read back.
            probe("oversized object accepted");
            const bool lost = !w.get(s.key, s.type, got) || got != s.data;
            if (lost) fail("P05", "stored-beyond-capacity", "storing %zu bytes under %s succeeded although the record's size has no room for them", s.data.size(), show(s.key).c_str());
            if (lost)
                fail("P01", "oversized-object-lost", "storing %zu bytes under %s succeeded, but they cannot be read back", s.data.size(), show(s.key).c_str());
            discard("oversized object");
        }
        if (!s.fits)
        {
            fail("P05", "stored-beyond-capacity", "storing %zu bytes under %s succeeded with %zu of %zu bytes used", s.data.size(), show(s.key).c_str(), w.used(), w.size);
            discard("stored beyond capacity (P05)");
        }
        w.recs.push_back({ norm(s.key), s.data, w.used() });
        w.checkAll("P01", "acknowledged-object-wrong", "after a successful store of " + show(s.key));
        w.checkAll("P02", "add-damaged", "after a successful add of " + show(s.key));
        w.checkAll("P05", "store-changed-objects", "after a store");
    }
    else
    {
        if (s.fits)
        {
            fail("P05", "space-lost", "storing %zu bytes under the new key %s failed with %zu of %zu bytes used", s.data.size(), show(s.key).c_str(), w.used(), w.size);
            discard("space lost (P05)");
        }
        w.checkAll("P05", "failed-store-changed-objects", "after a failed store of " + show(s.key));
        w.checkAll("P01", "acknowledged-object-wrong", "after a failed store of " + show(s.key));
    }
}

void doLongKey(World &w)
{
    auto &k = w.longKeys[choose((u32)w.longKeys.size())];
    size_t t = w.types[choose((u32)w.types.size())];
    auto data = w.payload(shim::ops[t].size);
    logf("store long key %s %zu bytes", show(k).c_str(), data.size());
    const bool other = norm(k).size() > 4;      // not another spelling of a shorter key
    std::vector<u8> got;
    if (other && w.get(k, t, got)) fail("P01", "unstored-object-readable", "%s, which was never stored, reads %s", show(k).c_str(), hex(got.data(), got.size()).c_str());
    bool ok = w.set(k, t, data);
    logf(" -> %d", ok);
    if (ok)
    {
        if (!w.get(k, t, got) || got != data)
            fail("P01", "long-key-lost", "storing under %s succeeded, but it cannot be read back", show(k).c_str());
        if (other) w.checkAll("P01", "acknowledged-object-wrong", "after the store of " + show(k));
        discard("long key accepted");
    }
    w.checkAll("P01", "acknowledged-object-wrong", "after the refused store of " + show(k));
    w.checkAll("P05", "failed-store-changed-objects", "after the refused store of " + show(k));
}

// A store, cut off by a reset after some of its memory writes.
void doCrashedStore(World &w)
{
    Step s = drawStore(w);
    if (Header + s.data.size() > 0xFFFF) return;
    u64 most = Header + s.data.size() + 16;
    u64 at = choose(4) == 0 ? 1 + choose((u32)most) : 1 + choose((u32)std::min<u64>(most, 14));
    if (chance(1, 4)) at = s.data.size() + choose(14) + 1;
    logf("store %s %zu bytes %s%s, reset before its write %llu", show(s.key).c_str(), s.data.size(), hex(s.data.data(), s.data.size(), 8).c_str(),
         s.old ? " (overwrite)" : s.fits ? "" : " (does not fit)", (unsigned long long)at);
    set_crash_after(at);
    bool acked = false;
    bool finished = run_crashable([&] { acked = w.set(s.key, s.type, s.data); });
    set_crash_after(0);
    if (!finished)
    {
        fault(s.old ? "reset during an overwrite" : "reset during an add");
        logf("reset during the store");
    }
    else
    {
        fault("reset right after a store");
        logf(" -> %d, then reset", acked);
    }
    w.reset();
    w.open(false);
    std::vector<u8> got;
    bool have = w.get(s.key, s.type, got);
    const std::string when = "after a reset that interrupted storing " + show(s.key);
    if (s.old)
    {
        bool isNew = have && got == s.data, isOld = have && got == s.old->data;
        if (finished && !isNew) fail("P03", "acknowledged-overwrite-lost", "%s was overwritten, then reset: it reads %s", show(s.key).c_str(), have ? hex(got.data(), got.size()).c_str() : "nothing");
        if (finished && !isNew) fail("P01", "acknowledged-object-wrong", "%s was overwritten, then reset: it reads %s", show(s.key).c_str(), have ? hex(got.data(), got.size()).c_str() : "nothing");
        if (!have) fail("P03", "overwritten-key-gone", "%s the key is gone", when.c_str());
        if (!have) discard("overwritten key gone (P03)");
        if (!isNew && !isOld)
        {
            bool mixture = true;
            for (size_t i = 0; i < got.size(); ++i) mixture = mixture && (got[i] == s.data[i] || got[i] == s.old->data[i]);
            if (mixture && !finished)
                finding("P03", "torn-overwrite", "%s it reads a mixture of the old and the new object: old %s, new %s, read %s", when.c_str(),
                        hex(s.old->data.data(), got.size()).c_str(), hex(s.data.data(), got.size()).c_str(), hex(got.data(), got.size()).c_str());
            else fail("P03", "overwrite-garbage", "%s it reads %s, which is neither the old object %s nor the new one %s", when.c_str(), hex(got.data(), got.size()).c_str(),
                      hex(s.old->data.data(), got.size()).c_str(), hex(s.data.data(), got.size()).c_str());
        }
        s.old->data = got;
        w.checkAll("P03", "overwrite-damaged-others", when);
        w.checkAll("P01", "acknowledged-object-wrong", when);
        w.checkAll("P02", "add-damaged", when);
        return;
    }
    if (have)
    {
        if (got != s.data) fail("P02", "partial-object-readable", "%s (new key, %zu bytes) it reads %s instead of %s", when.c_str(), got.size(), hex(got.data(), got.size()).c_str(), hex(s.data.data(), got.size()).c_str());
        if (got != s.data) discard("partial object (P02)");
        if (!s.fits) { fail("P05", "stored-beyond-capacity", "%s it is there although it does not fit", when.c_str()); discard("stored beyond capacity (P05)"); }
        w.recs.push_back({ norm(s.key), s.data, w.used() });
        probe("interrupted add is complete");
    }
    else
    {
        if (finished && acked) fail("P01", "acknowledged-object-wrong", "storing %s succeeded, then reset: it is gone", show(s.key).c_str());
        if (finished && acked) fail("P02", "acknowledged-add-lost", "storing %s succeeded, then reset: it is gone", show(s.key).c_str());
        if (finished && acked) discard("acknowledged add lost (P01)");
        if (!finished) probe("interrupted add is absent");
    }
    w.checkAll("P02", "add-damaged", when);
    w.checkAll("P01", "acknowledged-object-wrong", when);
    w.checkAll("P05", "store-changed-objects", when);
}
} // namespace

SIM_SCENARIO(storage, "P01 P02 P03 P05")
{
    World first, second;
    setup(first);
    logf("region of %zu bytes, %zu keys, %zu sizes", first.size, first.keys.size(), first.types.size());
    bool two = chance(1, 3);
    if (two)
    {
        u32 extra = choose(3);
        setup(second);
        if (extra && !first.crowd && !second.crowd)
        {
            second.keys = first.keys;
            second.longKeys = first.longKeys;
            if (extra == 2) second.types = first.types;
        }
        logf("and one of %zu bytes, %zu keys, %zu sizes", second.size, second.keys.size(), second.types.size());
        first.peer = &second;
        second.peer = &first;
        probe("two storages");
    }
    auto start = [&](World &w) {
        w.open(true);
        w.checkAll(focus_id(), "not-empty", "after initialisation");
        if (w.crowd) prefill(w);
    };
    start(first);
    bool secondStarted = false;
    bool resets = false;
    if (!first.types.empty() && chance(1, 80))
    {
        // stored first, so that what follows overwrites it
        doStore(first);
        const bool stores = choose(2);
        if (!first.recs.empty() && first.recs[0].data.size() <= 300)
        {
            auto &r = first.recs[0];
            size_t t = 0;
            while (shim::ops[t].size != r.data.size()) ++t;
            routine(stores ? "an object is stored again" : "an object is read", [&] {
                std::vector<u8> got;
                if (stores) first.set(r.key, t, r.data);
                else first.get(r.key, t, got);
            }, 1);
            first.checkAll(focus_id(), "object-lost", "after the same object was stored or read many times");
        }
    }
    u32 steps = range(4, first.size > 60000 || first.crowd ? 12 : thorough() ? 60 : 36);
    for (u32 i = 0; i < steps; ++i)
    {
        Span sp;
        bool other = two && choose(2);
        World &w = other ? second : first;
        if (other)
        {
            if (!secondStarted) start(second);
            secondStarted = true;
            logf("the other storage:");
        }
        u32 what = choose(17);
        if (what <= 5) doStore(w);
        else if (what <= 11) { doCrashedStore(w); resets = true; }
        else if (what == 12 && isFocus("P01")) doLongKey(w);
        else if (what <= 14)
        {
            fault("reset between stores");
            logf("reset");
            w.reset();
            w.open(false);
            resets = true;
            w.checkAll("P01", "acknowledged-object-wrong", "after a reset");
            w.checkAll("P02", "unstored-object-appeared", "after a reset");
            w.checkAll("P03", "object-lost", "after a reset");
        }
        else if (what == 16)
        {
            logf("reopen");
            w.close();
            w.open(false);
            w.checkAll("P01", "acknowledged-object-wrong", "after reopening the region");
        }
        else if (chance(1, 4))
        {
            // the region is given up and used afresh, after a reset perhaps in the middle of it
            if (chance(1, 2))
            {
                logf("reset while the region is initialised");
                set_crash_after(1 + choose((u32)std::min<size_t>(w.size + 1, 60000)));
                bool finished = run_crashable([&] { w.open(true); });
                set_crash_after(0);
                if (!finished) fault("reset during initialisation");
                w.reset();
                resets = true;
            }
            logf("initialise");
            w.close();
            w.recs.clear();
            w.open(true);
            w.checkAll(focus_id(), "not-empty", "after initialisation");
            probe("initialised again");
        }
        else if (isFocus("P05"))
        {
            // exhaust the space, byte by byte where possible
            int t = exactType(w, 0);
            if (t >= 0) w.types.push_back((size_t)t);
        }
        if (two && w.peer != &second) first.checkAll(focus_id(), "other-storage-changed", "after a step on the other storage");
        else if (two && secondStarted) second.checkAll(focus_id(), "other-storage-changed", "after a step on the other storage");
        state(w.digest());
    }
    if (resets) probe("run with resets");
    first.checkAll(focus_id(), "final-state-wrong", "at the end of the run");
    if (secondStarted) second.checkAll(focus_id(), "final-state-wrong", "at the end of the run");
}

// Two storages, each used by a task of its own.
SIM_SCENARIO(storage_tasks, "P01 P05")
{
    World w[2];
    for (auto &x: w)
    {
        setup(x);
        x.inTask = true;
        logf("region of %zu bytes, %zu keys, %zu sizes", x.size, x.keys.size(), x.types.size());
    }
    if (choose(2) && !w[0].crowd && !w[1].crowd)
    {
        w[1].keys = w[0].keys;
        w[1].types = w[0].types;
    }
    set_step_limit(200000000);
    set_instruction_preemption(pick({ 60u, 15u, 300u, 2000u }));
    for (auto &x: w)
        spawn(&x == w ? "storage0" : "storage1", [&x] {
            x.open(true);
            x.checkAll(focus_id(), "not-empty", "after initialisation");
            const u32 steps = range(2, 8);
            for (u32 s = 0; s < steps; ++s)
            {
                if (choose(5)) doStore(x);
                else
                {
                    logf("reopen");
                    x.close();
                    x.open(false);
                    x.checkAll(focus_id(), "final-state-wrong", "after reopening the region");
                }
                state(x.digest());
            }
            x.checkAll(focus_id(), "final-state-wrong", "at the end of the run");
        });
    run_tasks();
}

// ------------------------------------------------------------------ damage
namespace
{
void flip(World &w, size_t off)
{
    u8 old = w.region[off];
    u32 how = choose(5);
    u8 v;
    if (how == 0) v = old ^ (u8)(1u << choose(8));
    else if (how == 1) v = 0;
    else if (how == 2) v = 0xFF;
    else if (how == 3) v = (u8)choose(256);
    else v = (u8)(1 + choose(8));
    w.region[off] = v;
    logf("byte %zu of the region changes from %02x to %02x", off, old, v);
}
void fillGarbage(World &w)
{
    u32 style = choose(5);
    if (style == 4)
    {
        // headers chained at random
        size_t pos = 0;
        memset(w.region, 0, w.size);
        while (pos + 2 <= w.size && chance(9, 10))
        {
            u32 sz = choose(40);
            if (chance(1, 10)) sz = choose(65536);
            w.region[pos] = (u8)sz;
            w.region[pos + 1] = (u8)(sz >> 8);
            auto &k = w.keys[choose((u32)w.keys.size())];
            for (size_t i = 0; i < 4 && pos + 2 + i < w.size; ++i) w.region[pos + 2 + i] = i < k.size() ? (u8)k[i] : 0;
            pos += std::max<u32>(sz, 1);
        }
        return;
    }
    u64 s = mix(choose(0x7fffffff), 77);
    for (size_t i = 0; i < w.size; ++i)
    {
        s = mix(s, i);
        u8 r = (u8)(s >> 20);
        w.region[i] = style == 0 ? r : style == 1 ? (u8)(r & 15) : style == 2 ? (u8)(r % 8 == 0 ? s >> 30 & 31 : 0) : (u8)(i % 2 ? 0 : r & 31);
    }
}
}

SIM_SCENARIO(damage, "P04")
{
    World w;
    setup(w);
    if (w.size > 30000 && chance(3, 4)) w.size = range(40, 4000);
    logf("region of %zu bytes", w.size);
    std::vector<u8> got;
    bool garbage = chance(1, 4) && w.size > 0;
    if (garbage)
    {
        fillGarbage(w);
        fault("region full of garbage");
        w.modelValid = false;
    }
    else
    {
        w.open(true);
        u32 n = range(1, 9);
        for (u32 i = 0; i < n; ++i)
        {
            Span sp;
            auto k = w.keys[choose((u32)w.keys.size())];
            size_t t = w.types[choose((u32)w.types.size())];
            auto d = w.payload(shim::ops[t].size);
            if (d.size() + Header > 0xFFFF) continue;
            if (!w.set(k, t, d)) continue;
            logf("stored %s %zu bytes", show(k).c_str(), d.size());
            if (auto r = w.find(norm(k), d.size())) r->data = d;
            else w.recs.push_back({ norm(k), d, w.used() });
        }
    }
    u32 rounds = range(1, 6);
    for (u32 round = 0; round < rounds; ++round)
    {
        Span sp;
        size_t firstBad = w.size + 1;      // offset of the first damaged record header
        bool live = !garbage && chance(1, 2);
        if (!live && !(garbage && round == 0)) { w.reset(); }
        if (!(garbage && round == 0) && w.size)
        {
            u32 n = range(1, 4);
            for (u32 i = 0; i < n; ++i)
            {
                size_t off = choose((u32)w.size);
                u32 aim = choose(3);
                if (!w.recs.empty() && aim)
                {
                    auto &r = w.recs[choose((u32)w.recs.size())];
                    off = aim == 1 ? r.off + choose(6) : r.off + Header + choose((u32)r.data.size());
                    if (chance(1, 3)) off = r.off + choose(2);
                }
                if (off >= w.size) continue;
                // What the model says about this byte.
                bool inData = false;
                u8 before = w.region[off];
                for (auto &r: w.recs)
                {
                    if (off >= r.off + Header && off < r.off + Header + r.data.size())
                    {
                        inData = true;
                        flip(w, off);
                        r.data[off - r.off - Header] = w.region[off];
                    }
                    else if (off >= r.off && off < r.off + Header)
                    {
                        inData = true;
                        flip(w, off);
                        if (w.region[off] != before) firstBad = std::min(firstBad, r.off);
                    }
                    if (inData) break;
                }
                if (!inData)
                {
                    flip(w, off);
                    if (w.region[off] != before) firstBad = std::min(firstBad, w.used());
                }
                fault(live ? "byte changes while open" : "byte changes before reopening");
            }
        }
        // Records from the first damaged header on are unspecified.
        size_t keep = 0;
        while (keep < w.recs.size() && w.recs[keep].off < firstBad) ++keep;
        bool cut = keep < w.recs.size() || firstBad <= w.size;
        bool tailUnknown = cut || !w.modelValid;
        w.recs.resize(keep);
        if (!live)
        {
            logf("reopen");
            w.open(false);
        }
        auto checkKnown = [&](const char* when) {
            for (auto &r: w.recs)
                for (auto &k: w.keys)
                    if (norm(k) == r.key)
                        for (size_t t = 0; t < shim::opsCount; ++t)
                            if (shim::ops[t].size == r.data.size())
                            {
                                bool have = w.get(k, t, got);
                                if (!have || got != r.data)
                                    fail("P04", have ? "undamaged-object-changed" : "undamaged-object-lost", "%s: the object under %s (%zu bytes, record at %zu) before the first damaged header at %zu %s%s", when,
                                         show(k).c_str(), r.data.size(), r.off, firstBad, have ? "reads " : "is gone", have ? hex(got.data(), got.size()).c_str() : "");
                                break;
                            }
        };
        checkKnown("after the damage");
        // Operations on whatever is there now: they stay inside the region and
        // terminate (the simulator sees every access), and on a reopened region
        // an acknowledged store reads back.
        u32 n = range(1, 6);
        std::map<std::pair<std::string, size_t>, std::vector<u8>> acked;
        for (u32 i = 0; i < n; ++i)
        {
            Span sp2;
            auto k = w.keys[choose((u32)w.keys.size())];
            size_t t = w.types[choose((u32)w.types.size())];
            if (chance(1, 2))
            {
                bool have = w.get(k, t, got);
                logf("read %s %zu bytes -> %s", show(k).c_str(), shim::ops[t].size, have ? hex(got.data(), got.size(), 8).c_str() : "nothing");
                auto a = acked.find({ norm(k), shim::ops[t].size });
                if (a != acked.end() && (!have || got != a->second))
                    fail("P04", "store-after-damage-lost", "%s was stored successfully after the damaged region was reopened, now it reads %s instead of %s", show(k).c_str(),
                         have ? hex(got.data(), got.size()).c_str() : "nothing", hex(a->second.data(), a->second.size()).c_str());
            }
            else
            {
                auto d = w.payload(shim::ops[t].size);
                bool ok = w.set(k, t, d);
                logf("store %s %zu bytes -> %d", show(k).c_str(), d.size(), ok);
                if (!ok || d.size() + Header > 0xFFFF) continue;
                if (auto r = w.find(norm(k), d.size())) r->data = d;
                else if (!live && !tailUnknown) w.recs.push_back({ norm(k), d, w.used() });
                else if (live && !tailUnknown) w.recs.push_back({ norm(k), d, w.used() });
                if (!live)
                {
                    acked[{ norm(k), d.size() }] = d;
                    bool have = w.get(k, t, got);
                    if (!have || got != d)
                        fail("P04", "store-after-damage-lost", "storing %s (%zu bytes) in a reopened damaged region succeeded, but reading it back gives %s", show(k).c_str(), d.size(),
                             have ? hex(got.data(), got.size()).c_str() : "nothing");
                }
            }
            checkKnown("after an operation");
        }
        // Acknowledged stores survive the next reset as well.
        if (!live && chance(1, 2))
        {
            logf("reset, reopen");
            w.reset();
            w.open(false);
            for (auto &[kt, d]: acked)
                for (auto &k: w.keys)
                    if (norm(k) == kt.first)
                        for (size_t t = 0; t < shim::opsCount; ++t)
                            if (shim::ops[t].size == kt.second)
                            {
                                bool have = w.get(k, t, got);
                                if (!have || got != d)
                                    fail("P04", "store-after-damage-lost", "%s (%zu bytes), stored successfully in a reopened damaged region, reads %s after a reset", show(k).c_str(), d.size(),
                                         have ? hex(got.data(), got.size()).c_str() : "nothing");
                                break;
                            }
            checkKnown("after a reset");
        }
        if (cut)
        {
            // From here on only this prefix is known, and what else is there is not.
            w.modelValid = false;
        }
        state(mix(w.digest(), (live ? 1 : 0) + firstBad * 2));
        if (!w.modelValid && !garbage) { if (chance(1, 3)) break; }
    }
}
