// An independent CBOR codec (RFC 8949 subset used by dots) and the harness' reading of the two binary formats.
#pragma once
#include "model.h"

namespace vf
{
    using Bytes = std::vector<uint8_t>;

    struct CborOut
    {
        Bytes out;
        void head(uint8_t major, uint64_t v, int width = -1)     // width: 0,1,2,4,8 bytes; -1 shortest
        {
            if (width < 0) width = v < 24 ? 0 : v < 256 ? 1 : v < 65536 ? 2 : v <= 0xffffffffull ? 4 : 8;
            auto m = static_cast<uint8_t>(major << 5);
            if (width == 0) { out.push_back(static_cast<uint8_t>(m | v)); return; }
            out.push_back(static_cast<uint8_t>(m | (width == 1 ? 24 : width == 2 ? 25 : width == 4 ? 26 : 27)));
            for (int i = width - 1; i >= 0; --i) out.push_back(static_cast<uint8_t>(v >> (8 * i)));
        }
        void uint(uint64_t v) { head(0, v); }
        void sint(int64_t v) { if (v >= 0) head(0, static_cast<uint64_t>(v)); else head(1, static_cast<uint64_t>(-1 - v)); }
        void bytes(std::string_view s) { head(2, s.size()); out.insert(out.end(), s.begin(), s.end()); }
        void text(std::string_view s) { head(3, s.size()); out.insert(out.end(), s.begin(), s.end()); }
        void boolean(bool b) { out.push_back(b ? 0xf5 : 0xf4); }
        void f32(uint32_t b) { out.push_back(0xfa); for (int i = 3; i >= 0; --i) out.push_back(static_cast<uint8_t>(b >> (8 * i))); }
        void f64(uint64_t b) { out.push_back(0xfb); for (int i = 7; i >= 0; --i) out.push_back(static_cast<uint8_t>(b >> (8 * i))); }
    };

    // What the standard format writes for a value: the reference encoder. permute: write properties in random order.
    inline void cborEncode(CborOut& o, const Shape& sh, const Val& v, Rng* permute = nullptr);
    inline void cborEncodeRec(CborOut& o, const TypeDef& t, const Rec& r, Rng* permute = nullptr)
    {
        std::vector<uint32_t> order;
        for (auto& p : t.props) if (r.count(p.tag)) order.push_back(p.tag);
        if (permute) permute->shuffle(order);
        o.head(5, order.size());
        for (uint32_t tag : order)
        {
            o.uint(tag);
            cborEncode(o, t.find(tag)->shape, r.at(tag), permute);
        }
    }
    inline void cborEncode(CborOut& o, const Shape& sh, const Val& v, Rng* permute)
    {
        switch (sh.kind)
        {
            case Kind::Bool: o.boolean(v.u != 0); break;
            case Kind::I8: case Kind::I16: case Kind::I32: case Kind::I64: o.sint(v.asInt()); break;
            case Kind::U8: case Kind::U16: case Kind::U32: case Kind::U64: case Kind::PSet: o.uint(v.u); break;
            case Kind::F32: o.f32(static_cast<uint32_t>(v.u)); break;
            case Kind::F64: case Kind::TP: case Kind::STP: case Kind::Dur: o.f64(v.u); break;
            case Kind::Uuid: o.bytes(v.s); break;
            case Kind::Str: o.text(v.s); break;
            case Kind::Enum: { auto* e = sh.def->byValue(static_cast<int32_t>(v.asInt())); o.uint(e ? e->tag : 0); break; }
            case Kind::Struct: cborEncodeRec(o, *sh.def, v.rec, permute); break;
            case Kind::Vec:
                o.head(4, v.items.size());
                for (auto& i : v.items) cborEncode(o, *sh.elem, i, permute);
                break;
        }
    }

    // A strict parser of CBOR data items.
    struct CborItem
    {
        int major = 0;
        int info = 0;
        uint64_t arg = 0;
        int width = 0;
        std::string str;
        std::vector<CborItem> items;      // array: elements; map: key, value, key, value...
        bool shortest() const { return width == (arg < 24 ? 0 : arg < 256 ? 1 : arg < 65536 ? 2 : arg <= 0xffffffffull ? 4 : 8); }
    };
    struct CborParseError : std::runtime_error { using std::runtime_error::runtime_error; };
    struct CborIn
    {
        const uint8_t* p;
        const uint8_t* end;
        CborItem item(int depth = 0)
        {
            if (depth > 64) throw CborParseError{ "too deep" };
            CborItem it;
            uint8_t b = byte();
            it.major = b >> 5;
            it.info = b & 31;
            if (it.info < 24) it.arg = static_cast<uint64_t>(it.info);
            else if (it.info <= 27) { it.width = 1 << (it.info - 24); for (int i = 0; i < it.width; ++i) it.arg = it.arg << 8 | byte(); }
            else throw CborParseError{ "reserved or indefinite additional information" };
            if (it.major == 2 || it.major == 3)
            {
                if (it.arg > static_cast<uint64_t>(end - p)) throw CborParseError{ "truncated string" };
                it.str.assign(reinterpret_cast<const char*>(p), it.arg);
                p += it.arg;
            }
            else if (it.major == 4 || it.major == 5)
            {
                uint64_t n = it.major == 5 ? it.arg * 2 : it.arg;
                if (n > static_cast<uint64_t>(end - p)) throw CborParseError{ "truncated container" };
                for (uint64_t i = 0; i < n; ++i) it.items.push_back(item(depth + 1));
            }
            else if (it.major == 6) it.items.push_back(item(depth + 1));
            return it;
        }
        uint8_t byte() { if (p >= end) throw CborParseError{ "truncated" }; return *p++; }
    };

    // The value of a data item under a shape; throws CborParseError if the item is not exactly what the standard format prescribes.
    inline Val cborToVal(const Shape& sh, const CborItem& it);
    inline Rec cborToRec(const TypeDef& t, const CborItem& it)
    {
        if (it.major != 5) throw CborParseError{ t.name + ": not a map" };
        if (!it.shortest()) throw CborParseError{ t.name + ": map size not in shortest form" };
        Rec r;
        for (size_t i = 0; i + 1 < it.items.size(); i += 2)
        {
            auto& k = it.items[i];
            if (k.major != 0 || !k.shortest()) throw CborParseError{ t.name + ": key is not a shortest unsigned integer" };
            auto* p = k.arg < 32 ? t.find(static_cast<uint32_t>(k.arg)) : nullptr;
            if (!p) throw CborParseError{ t.name + ": key " + std::to_string(k.arg) + " is not a tag of the type" };
            if (!r.emplace(p->tag, cborToVal(p->shape, it.items[i + 1])).second) throw CborParseError{ t.name + ": duplicate tag" };
        }
        return r;
    }
    inline Val cborToVal(const Shape& sh, const CborItem& it)
    {
        Val v;
        v.kind = sh.kind;
        auto need = [&](bool ok, const char* what) { if (!ok) throw CborParseError{ std::string{ what } + " expected, got major type " + std::to_string(it.major) + "/" + std::to_string(it.info) }; };
        switch (sh.kind)
        {
            case Kind::Bool: need(it.major == 7 && (it.info == 20 || it.info == 21), "bool"); v.u = it.info == 21; break;
            case Kind::I8: case Kind::I16: case Kind::I32: case Kind::I64:
                need((it.major == 0 || it.major == 1) && it.shortest(), "shortest integer");
                v.u = it.major == 0 ? it.arg : ~it.arg;
                break;
            case Kind::U8: case Kind::U16: case Kind::U32: case Kind::U64: case Kind::PSet:
                need(it.major == 0 && it.shortest(), "shortest unsigned integer"); v.u = it.arg; break;
            case Kind::F32: need(it.major == 7 && it.info == 26, "float32"); v.u = it.arg; break;
            case Kind::F64: case Kind::TP: case Kind::STP: case Kind::Dur: need(it.major == 7 && it.info == 27, "float64"); v.u = it.arg; break;
            case Kind::Uuid: need(it.major == 2 && it.shortest() && it.str.size() == 16, "16 byte string"); v.s = it.str; break;
            case Kind::Str: need(it.major == 3 && it.shortest(), "text string"); v.s = it.str; break;
            case Kind::Enum:
            {
                need(it.major == 0 && it.shortest(), "enumerator tag");
                auto* e = it.arg <= 0xffffffffull ? sh.def->byTag(static_cast<uint32_t>(it.arg)) : nullptr;
                need(e != nullptr, "known enumerator tag");
                v.u = static_cast<uint64_t>(static_cast<int64_t>(e->value));
                break;
            }
            case Kind::Struct: v.rec = cborToRec(*sh.def, it); break;
            case Kind::Vec:
                need(it.major == 4 && it.shortest(), "array");
                for (auto& i : it.items) v.items.push_back(cborToVal(*sh.elem, i));
                break;
        }
        return v;
    }

    // Random data items, as any property of any type could be encoded.
    inline void cborRandomItem(CborOut& o, Rng& r, int depth = 0)
    {
        switch (r.below(depth > 4 ? 8 : 11))
        {
            case 0: o.uint(r.next() >> r.below(64)); break;
            case 1: o.sint(static_cast<int64_t>(r.next()) >> r.below(64)); break;
            case 2: { std::string s(r.chance(50) ? r.below(24) : r.chance(70) ? r.below(300) : r.below(70000), '\0'); for (auto& c : s) c = static_cast<char>(r.next()); o.text(s); break; }
            case 3: { std::string s(r.coin() ? 16 : r.below(300), '\0'); for (auto& c : s) c = static_cast<char>(r.next()); o.bytes(s); break; }
            case 4: o.boolean(r.coin()); break;
            case 5: o.f32(static_cast<uint32_t>(r.next())); break;
            case 6: o.f64(r.next()); break;
            case 7: o.uint(r.below(24)); break;
            case 8: case 9:
            {
                size_t n = depth == 0 && r.chance(20) ? 20 + r.below(300) : r.below(6);
                o.head(4, n);
                if (n > 10) for (size_t i = 0; i < n; ++i) cborRandomItem(o, r, 5);
                else for (size_t i = 0; i < n; ++i) cborRandomItem(o, r, depth + 1);
                break;
            }
            default:
            {
                size_t n = depth == 0 && r.chance(10) ? 20 + r.below(12) : r.below(5);
                o.head(5, n);
                for (size_t i = 0; i < n; ++i) { o.uint(1 + r.below(31)); cborRandomItem(o, r, depth + 1); }
                break;
            }
        }
    }
}
