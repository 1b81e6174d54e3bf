// Type-erased access to the PersistentStorage templates.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string_view>
namespace shim
{
struct Ops
{
    size_t size;
    const char* type;
    bool (*set)(void* storage, std::string_view key, const void* bytes);
    bool (*get)(const void* storage, std::string_view key, void* bytes);
};
extern const Ops ops[];
extern const size_t opsCount;
size_t storage_object_size();
void storage_open(void* object, uint8_t* region, size_t size, bool init);
}
