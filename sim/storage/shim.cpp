#include "shim.h"
#include "PersistentStorage.h"
#include <new>

namespace shim
{
using embedded::PersistentStorage;
template<size_t N> struct Bytes { uint8_t b[N]; };
struct Pair { uint16_t a, b; };
struct Wide { uint64_t a; uint32_t b, c; };

// The object lives where any caller's object would: in properly aligned memory.
template<class T>
bool set(void* s, std::string_view key, const void* bytes)
{
    return static_cast<PersistentStorage*>(s)->set(key, *static_cast<const T*>(bytes));
}
template<class T>
bool get(const void* s, std::string_view key, void* bytes)
{
    auto r = static_cast<const PersistentStorage*>(s)->get<T>(key);
    if (!r) return false;
    for (size_t i = 0; i < sizeof(T); ++i) static_cast<unsigned char*>(bytes)[i] = reinterpret_cast<const unsigned char*>(&*r)[i];
    return true;
}
#define OP(T) { sizeof(T), #T, set<T>, get<T> }
#define B(N) OP(Bytes<N>)
const Ops ops[] = {
    B(1), B(2), B(3), B(4), B(5), B(6), B(7), B(8), B(9), B(10), B(11), B(12), B(13), B(14), B(15), B(16),
    B(17), B(18), B(19), B(20), B(21), B(22), B(23), B(24), B(26), B(28), B(30), B(31), B(32), B(33), B(36), B(40),
    B(48), B(64), B(96), B(100), B(128), B(249), B(250), B(251), B(255), B(256), B(257), B(300), B(512), B(1000),
    B(4096), B(32767), B(32768), B(65528), B(65529), B(65530), B(65531), B(65535), B(65536), B(65537), B(70000),
    OP(uint8_t), OP(uint16_t), OP(uint32_t), OP(uint64_t), OP(float), OP(Pair), OP(Wide),
};
const size_t opsCount = sizeof ops / sizeof *ops;
size_t storage_object_size() { return sizeof(PersistentStorage); }
void storage_open(void* object, uint8_t* region, size_t size, bool init)
{
    // a storage that is not told otherwise initialises its region
    if (init && size % 2) new(object) PersistentStorage(embedded::BytesView(region, size));
    else new(object) PersistentStorage(embedded::BytesView(region, size), init);
}
}
