// Decoding hostile input under a memory and time budget.
#pragma once
#include "types_pick.h"
#include <VSub.dots.h>
#include <VEnum.dots.h>

namespace vf
{
    enum class Format { Cbor, XCbor, Json, String, Rapid };
    inline const char* formatName(Format f) { const char* n[] = { "cbor", "experimental-cbor", "json", "string", "rapidjson" }; return n[static_cast<int>(f)]; }
    inline bool isBinary(Format f) { return f == Format::Cbor || f == Format::XCbor; }

    // encodes with random layout options where the format has any
    std::string libEncode(Format f, const dt::Struct& s, dots::property_set_t mask, Rng* layout);
    // decodes from a heap block of exactly the input's size; throws what the library throws
    void libDecode(Format f, const char* data, size_t size, dt::Struct& s, uint32_t mask, bool asTyped, bool strict);
    // decodes values other than structures; "which" selects the type
    void libDecodeValue(Format f, const char* data, size_t size, int which);
    constexpr int DecodeValues = 14;

    // bytes allocated at the same time
    struct MemoryMeter
    {
        MemoryMeter();
        ~MemoryMeter();
        size_t peak() const;
    };

    template <typename F>
    void decodeValues(int which, F&& f)
    {
        using namespace dots::types;
        switch (which)
        {
            case 0: { dots::bool_t v{}; f(v); break; }
            case 1: { dots::int8_t v{}; f(v); break; }
            case 2: { dots::uint16_t v{}; f(v); break; }
            case 3: { dots::int64_t v{}; f(v); break; }
            case 4: { dots::uint64_t v{}; f(v); break; }
            case 5: { dots::float32_t v{}; f(v); break; }
            case 6: { dots::float64_t v{}; f(v); break; }
            case 7: { dots::string_t v{}; f(v); break; }
            case 8: { dots::uuid_t v{}; f(v); break; }
            case 9: { dots::timepoint_t v{}; f(v); break; }
            case 10: { dots::property_set_t v{}; f(v); break; }
            case 11: { dots::vector_t<dots::int32_t> v{}; f(v); break; }
            case 12: { dots::vector_t<dots::bool_t> v{}; f(v); break; }
            default: { dots::vector_t<VSub> v{}; f(v); break; }
        }
    }
}
