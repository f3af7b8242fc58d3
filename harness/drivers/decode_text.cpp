#include "core/decode.h"
#include "core/typed.h"
#include <dots/serialization/JsonSerializer.h>
#include <dots/serialization/StringSerializer.h>
#include <dots/serialization/RapidJsonSerializer.h>

namespace vf
{
    using namespace dots::serialization;
    std::string cborEncodeLib(Format f, const dt::Struct& s, dots::property_set_t mask);
    void cborDecodeLib(Format f, const char* data, size_t size, dt::Struct& s, uint32_t mask, bool asTyped);
    void cborDecodeValueLib(Format f, const char* data, size_t size, int which);

    std::string libEncode(Format f, const dt::Struct& s, dots::property_set_t mask, Rng* layout)
    {
        TextOptions o;
        if (layout) o.style = static_cast<TextOptions::Style>(layout->below(3));
        switch (f)
        {
            case Format::Json: return JsonSerializer::Serialize(s, mask, o);
            case Format::String: return StringSerializer::Serialize(s, mask, o);
            case Format::Rapid: return RapidJsonSerializer<>::Serialize(s, mask);
            default: return cborEncodeLib(f, s, mask);
        }
    }
    template <typename F>
    static void with(Format f, const char* data, size_t size, bool strict, F&& run)
    {
        TextOptions o;
        o.policy = strict ? TextOptions::Strict : TextOptions::Relaxed;
        switch (f)
        {
            case Format::Json: { JsonSerializer ser{ o }; ser.setInput(data, size); run(ser); break; }
            case Format::String: { StringSerializer ser{ o }; ser.setInput(data, size); run(ser); break; }
            default: { RapidJsonSerializer<> ser{ std::string_view{ data, size } }; run(ser); }
        }
    }
    void libDecode(Format f, const char* data, size_t size, dt::Struct& s, uint32_t mask, bool asTyped, bool strict)
    {
        if (isBinary(f)) return cborDecodeLib(f, data, size, s, mask, asTyped);
        auto go = [&](auto& x) { with(f, data, size, strict, [&](auto& ser) { ser.deserialize(x, dots::property_set_t{ mask }); }); };
        if (asTyped) typed(s, go); else go(s);
    }
    void libDecodeValue(Format f, const char* data, size_t size, int which)
    {
        if (isBinary(f)) return cborDecodeValueLib(f, data, size, which);
        decodeValues(which, [&](auto& v) { with(f, data, size, false, [&](auto& ser) { ser.deserialize(v); }); });
    }
}
