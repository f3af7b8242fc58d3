#include "core/decode.h"
#include "core/typed.h"
#include <dots/serialization/CborSerializer.h>
#include <dots/serialization/ExperimentalCborSerializer.h>

namespace vf
{
    using namespace dots::serialization;
    std::string cborEncodeLib(Format f, const dt::Struct& s, dots::property_set_t mask)
    {
        auto b = f == Format::Cbor ? CborSerializer::Serialize(s, mask) : ExperimentalCborSerializer::Serialize(s, mask);
        return { reinterpret_cast<const char*>(b.data()), b.size() };
    }
    template <typename Ser>
    static void run(const char* data, size_t size, dt::Struct& s, uint32_t mask, bool asTyped)
    {
        Ser ser;
        ser.setInput(reinterpret_cast<const uint8_t*>(data), size);
        auto go = [&](auto& x) { ser.deserialize(x, dots::property_set_t{ mask }); };
        if (asTyped) typed(s, go); else go(s);
    }
    void cborDecodeLib(Format f, const char* data, size_t size, dt::Struct& s, uint32_t mask, bool asTyped)
    {
        if (f == Format::Cbor) run<CborSerializer>(data, size, s, mask, asTyped);
        else run<ExperimentalCborSerializer>(data, size, s, mask, asTyped);
    }
    void cborDecodeValueLib(Format f, const char* data, size_t size, int which)
    {
        auto* p = reinterpret_cast<const uint8_t*>(data);
        decodeValues(which, [&](auto& v)
        {
            if (f == Format::Cbor) { CborSerializer ser; ser.setInput(p, size); ser.deserialize(v); }
            else { ExperimentalCborSerializer ser; ser.setInput(p, size); ser.deserialize(v); }
        });
    }
}
