// The harness' own, library-independent model of types and values: a record of optional values.
#pragma once
#include "util.h"
#include <optional>
#include <array>

namespace vf
{
    enum class Kind : uint8_t { Bool, I8, U8, I16, U16, I32, U32, I64, U64, F32, F64, PSet, TP, STP, Dur, Uuid, Str, Enum, Struct, Vec };
    inline constexpr std::array<const char*, 17> KindNames{ "bool", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64", "property_set", "timepoint", "steady_timepoint", "duration", "uuid", "string" };
    inline bool isFundamental(Kind k) { return k < Kind::Enum; }
    inline bool isSigned(Kind k) { return k == Kind::I8 || k == Kind::I16 || k == Kind::I32 || k == Kind::I64; }
    inline bool isTime(Kind k) { return k == Kind::TP || k == Kind::STP || k == Kind::Dur; }
    inline bool isFloat64(Kind k) { return k == Kind::F64 || isTime(k); }
    inline int bitsOf(Kind k)
    {
        switch (k)
        {
            case Kind::I8: case Kind::U8: return 8;
            case Kind::I16: case Kind::U16: return 16;
            case Kind::I32: case Kind::U32: case Kind::PSet: return 32;
            default: return 64;
        }
    }

    struct TypeDef;
    struct Shape
    {
        Kind kind = Kind::Bool;
        std::shared_ptr<TypeDef> def;     // Enum, Struct
        std::shared_ptr<Shape> elem;      // Vec
        std::string typeName() const;
    };
    struct PropDef
    {
        std::string name;
        uint32_t tag = 1;
        bool key = false;
        Shape shape;
    };
    struct EnumeratorDef { uint32_t tag; std::string name; int32_t value; };
    struct TypeDef
    {
        std::string name;
        bool isEnum = false;
        std::vector<PropDef> props;
        std::vector<EnumeratorDef> enumerators;
        bool cached = true, internal = false, persistent = false, cleanup = false, local = false, substructOnly = false;

        uint32_t allMask() const { uint32_t m = 0; for (auto& p : props) m |= 1u << p.tag; return m; }
        uint32_t keyMask() const { uint32_t m = 0; for (auto& p : props) if (p.key) m |= 1u << p.tag; return m; }
        const PropDef* find(uint32_t tag) const { for (auto& p : props) if (p.tag == tag) return &p; return nullptr; }
        const PropDef* find(std::string_view n) const { for (auto& p : props) if (p.name == n) return &p; return nullptr; }
        const EnumeratorDef* byValue(int32_t v) const { for (auto& e : enumerators) if (e.value == v) return &e; return nullptr; }
        const EnumeratorDef* byTag(uint32_t t) const { for (auto& e : enumerators) if (e.tag == t) return &e; return nullptr; }
    };
    inline std::string Shape::typeName() const
    {
        if (kind == Kind::Vec) return "vector<" + elem->typeName() + ">";
        if (def) return def->name;
        return KindNames[static_cast<size_t>(kind)];
    }

    struct Val;
    using Rec = std::map<uint32_t, Val>;       // the valid properties by tag
    struct Val
    {
        Kind kind = Kind::Bool;
        uint64_t u = 0;                        // integers (sign extended), enum values, bit patterns of floats (f32: low 32 bits)
        std::string s;                         // strings, the 16 bytes of a uuid
        std::vector<Val> items;                // Vec
        Rec rec;                               // Struct

        double asDouble() const { double d; std::memcpy(&d, &u, 8); return d; }
        float asFloat() const { float f; auto b = static_cast<uint32_t>(u); std::memcpy(&f, &b, 4); return f; }
        int64_t asInt() const { return static_cast<int64_t>(u); }
        static Val ofDouble(Kind k, double d) { Val v; v.kind = k; std::memcpy(&v.u, &d, 8); return v; }
        static Val ofFloat(float f) { Val v; v.kind = Kind::F32; uint32_t b; std::memcpy(&b, &f, 4); v.u = b; return v; }
        static Val ofInt(Kind k, int64_t i) { Val v; v.kind = k; v.u = static_cast<uint64_t>(i); return v; }
        static Val ofStr(std::string s) { Val v; v.kind = Kind::Str; v.s = std::move(s); return v; }
    };
    inline bool operator==(const Val& a, const Val& b)   // bit for bit
    {
        return a.kind == b.kind && a.u == b.u && a.s == b.s && a.items == b.items && a.rec == b.rec;
    }
    inline bool operator!=(const Val& a, const Val& b) { return !(a == b); }

    inline bool hasNan(const Rec& r);
    inline bool hasNan(const Val& v)
    {
        if (v.kind == Kind::F32) return std::isnan(v.asFloat());
        if (isFloat64(v.kind)) return std::isnan(v.asDouble());
        for (auto& i : v.items) if (hasNan(i)) return true;
        return hasNan(v.rec);
    }
    inline bool hasNan(const Rec& r)
    {
        for (auto& [t, v] : r) if (hasNan(v)) return true;
        return false;
    }

    inline Rec select(const Rec& r, uint32_t mask)
    {
        Rec o;
        for (auto& [t, v] : r) if (mask & (1u << t)) o.emplace(t, v);
        return o;
    }
    inline uint32_t maskOf(const Rec& r) { uint32_t m = 0; for (auto& [t, v] : r) m |= 1u << t; return m; }

    inline std::string show(const Val& v);
    inline std::string show(const Rec& r)
    {
        std::string s = "{";
        for (auto& [t, v] : r) { if (s.size() > 1) s += ", "; s += std::to_string(t) + ":" + show(v); if (s.size() > 900) { s += "..."; break; } }
        return s + "}";
    }
    inline std::string show(const Val& v)
    {
        char b[64];
        switch (v.kind)
        {
            case Kind::Bool: return v.u ? "true" : "false";
            case Kind::U8: case Kind::U16: case Kind::U32: case Kind::U64: case Kind::PSet: return std::to_string(v.u);
            case Kind::F32: std::snprintf(b, sizeof b, "%.9gf[%08llx]", static_cast<double>(v.asFloat()), static_cast<unsigned long long>(v.u)); return b;
            case Kind::F64: case Kind::TP: case Kind::STP: case Kind::Dur: std::snprintf(b, sizeof b, "%.17g[%016llx]", v.asDouble(), static_cast<unsigned long long>(v.u)); return b;
            case Kind::Uuid: return "uuid:" + hex(reinterpret_cast<const uint8_t*>(v.s.data()), v.s.size());
            case Kind::Str: return "'" + jsonEscape(v.s.substr(0, 80)) + "'" + (v.s.size() > 80 ? "(" + std::to_string(v.s.size()) + ")" : "");
            case Kind::Struct: return show(v.rec);
            case Kind::Vec:
            {
                std::string s = "[";
                for (auto& i : v.items) { if (s.size() > 1) s += ", "; s += show(i); if (s.size() > 500) { s += "...(" + std::to_string(v.items.size()) + ")"; break; } }
                return s + "]";
            }
            default: return std::to_string(v.asInt());
        }
    }

    inline uint64_t hashVal(const Val& v, uint64_t h = 7);
    inline uint64_t hashRec(const Rec& r, uint64_t h = 11)
    {
        for (auto& [t, v] : r) h = hashVal(v, mix(h + t));
        return mix(h);
    }
    inline uint64_t hashVal(const Val& v, uint64_t h)
    {
        h = mix(h ^ v.u ^ static_cast<uint64_t>(v.kind));
        h = hashStr(v.s, h);
        for (auto& i : v.items) h = hashVal(i, h);
        return hashRec(v.rec, h);
    }

    // The order and equality of the library's property values, by the value model: IEEE for floats, lexicographic otherwise,
    // an unset property is equal to an unset one and less than any set one.
    inline bool valEq(const Shape& sh, const Val& a, const Val& b);
    inline bool valLt(const Shape& sh, const Val& a, const Val& b);
    inline bool recEq(const TypeDef& t, const Rec& a, const Rec& b, uint32_t mask = ~0u)
    {
        for (auto& p : t.props)
        {
            if (!(mask & (1u << p.tag))) continue;
            auto ia = a.find(p.tag), ib = b.find(p.tag);
            if ((ia == a.end()) != (ib == b.end())) return false;
            if (ia != a.end() && !valEq(p.shape, ia->second, ib->second)) return false;
        }
        return true;
    }
    inline bool recLt(const TypeDef& t, const Rec& a, const Rec& b, uint32_t mask = ~0u)
    {
        for (auto& p : t.props)
        {
            if (!(mask & (1u << p.tag))) continue;
            auto ia = a.find(p.tag), ib = b.find(p.tag);
            bool va = ia != a.end(), vb = ib != b.end();
            if (!va && !vb) continue;
            if (va != vb) return vb;           // unset < set
            if (valLt(p.shape, ia->second, ib->second)) return true;
            if (valLt(p.shape, ib->second, ia->second)) return false;
        }
        return false;
    }
    inline bool valEq(const Shape& sh, const Val& a, const Val& b)
    {
        switch (sh.kind)
        {
            case Kind::F32: return a.asFloat() == b.asFloat();
            case Kind::F64: case Kind::TP: case Kind::STP: case Kind::Dur: return a.asDouble() == b.asDouble();
            case Kind::Str: case Kind::Uuid: return a.s == b.s;
            case Kind::Struct: return recEq(*sh.def, a.rec, b.rec);
            case Kind::Vec:
                if (a.items.size() != b.items.size()) return false;
                for (size_t i = 0; i < a.items.size(); ++i) if (!valEq(*sh.elem, a.items[i], b.items[i])) return false;
                return true;
            default: return a.u == b.u;
        }
    }
    inline bool valLt(const Shape& sh, const Val& a, const Val& b)
    {
        switch (sh.kind)
        {
            case Kind::F32: return a.asFloat() < b.asFloat();
            case Kind::F64: case Kind::TP: case Kind::STP: case Kind::Dur: return a.asDouble() < b.asDouble();
            case Kind::Str: case Kind::Uuid: return a.s < b.s;
            case Kind::Struct: return recLt(*sh.def, a.rec, b.rec);
            case Kind::Vec:
                for (size_t i = 0; i < a.items.size() && i < b.items.size(); ++i)
                {
                    if (sh.elem->kind == Kind::PSet)
                    {
                        // elements of vectors are compared by set inclusion
                        auto sub = [](const Val& x, const Val& y){ return x.u != y.u && (x.u & y.u) == x.u; };
                        if (sub(a.items[i], b.items[i])) return true;
                        if (sub(b.items[i], a.items[i])) return false;
                        continue;
                    }
                    if (valLt(*sh.elem, a.items[i], b.items[i])) return true;
                    if (valLt(*sh.elem, b.items[i], a.items[i])) return false;
                }
                return a.items.size() < b.items.size();
            case Kind::I8: case Kind::I16: case Kind::I32: case Kind::I64: case Kind::Enum: return a.asInt() < b.asInt();
            default: return a.u < b.u;
        }
    }

    struct GenOpts
    {
        bool nan = true;              // NaNs (with payloads)
        bool inf = true;              // infinities
        bool utf8 = false;            // strings are valid UTF-8
        bool ascii = false;
        bool nul = true;              // embedded NUL
        int maxVec = 6;
        int bigPercent = 2;           // large strings and vectors
        size_t bigSize = 70000;
        bool sane = false;            // times and floats of moderate size
        int validPercent = 70;        // of the optional properties
        int smallDomain = 0;          // >0: few distinct values (collisions are wanted)
    };

    inline std::string genUtf8(Rng& r, size_t n, bool nul)
    {
        std::string s;
        for (size_t i = 0; i < n; ++i)
        {
            uint32_t c;
            switch (r.below(8))
            {
                case 0: c = static_cast<uint32_t>(r.below(0x20)); if (c == 0 && !nul) c = 1; break;
                case 1: c = "\"\\/\b\f\n\r\t'`{}[]:,"[r.below(16)]; break;
                case 2: c = 0x80 + static_cast<uint32_t>(r.below(0x780)); break;
                case 3: c = 0x800 + static_cast<uint32_t>(r.below(0xD000)); if (c >= 0xD800 && c < 0xE000) c = 0xFFFD; break;
                case 4: c = r.coin() ? 0x10000 + static_cast<uint32_t>(r.below(0x100000)) : 0x7f; break;
                default: c = 0x20 + static_cast<uint32_t>(r.below(0x5f)); break;
            }
            if (c < 0x80) s += static_cast<char>(c);
            else if (c < 0x800) { s += static_cast<char>(0xC0 | (c >> 6)); s += static_cast<char>(0x80 | (c & 63)); }
            else if (c < 0x10000) { s += static_cast<char>(0xE0 | (c >> 12)); s += static_cast<char>(0x80 | ((c >> 6) & 63)); s += static_cast<char>(0x80 | (c & 63)); }
            else { s += static_cast<char>(0xF0 | (c >> 18)); s += static_cast<char>(0x80 | ((c >> 12) & 63)); s += static_cast<char>(0x80 | ((c >> 6) & 63)); s += static_cast<char>(0x80 | (c & 63)); }
        }
        return s;
    }

    inline std::string genString(Rng& r, const GenOpts& o)
    {
        if (o.smallDomain > 0)
        {
            static const char* words[] = { "", "a", "b", "ab", "zz", "key", "value", "longer-than-small-string-optimisation" };
            return words[r.below(std::min<uint64_t>(8, static_cast<uint64_t>(o.smallDomain)))];
        }
        size_t n;
        if (r.chance(o.bigPercent)) n = r.coin() ? std::array<size_t, 4>{ 255, 256, 65535, 65536 }[r.below(4)] : r.below(o.bigSize);
        else n = r.chance(30) ? std::array<size_t, 6>{ 0, 1, 15, 16, 23, 24 }[r.below(6)] : r.below(40);
        if (n > o.bigSize) n = o.bigSize;
        if (o.utf8) return genUtf8(r, n, o.nul);
        std::string s(n, 'x');
        for (auto& c : s)
        {
            if (o.ascii) c = static_cast<char>(0x20 + r.below(0x5f));
            else { c = static_cast<char>(r.next()); if (!c && !o.nul) c = 1; }
        }
        return s;
    }

    inline double genDouble(Rng& r, const GenOpts& o)
    {
        if (o.smallDomain > 0) return static_cast<double>(r.below(static_cast<uint64_t>(o.smallDomain))) - 1.0;
        uint64_t b;
        double d;
        switch (r.below(o.sane ? 3 : 9))
        {
            case 0: return static_cast<double>(r.range(-1000, 1000));
            case 1: return static_cast<double>(r.range(-2000000000, 2000000000)) / 1024.0;
            case 2: return 1600000000.0 + static_cast<double>(r.below(200000000)) + static_cast<double>(r.below(1000)) / 1000.0;
            case 3: return r.coin() ? 0.0 : -0.0;
            case 4: if (o.inf) return r.coin() ? HUGE_VAL : -HUGE_VAL; return 1.0;
            case 5: b = r.next() & 0x800FFFFFFFFFFFFFull; std::memcpy(&d, &b, 8); return d;                      // denormal
            case 6: if (o.nan) { b = 0x7FF8000000000000ull | (r.next() & 0x8007FFFFFFFFFFFFull); std::memcpy(&d, &b, 8); return d; } return -1.5;
            case 7: return r.coin() ? 1.7976931348623157e308 : -2.2250738585072014e-308;
            default: b = r.next(); std::memcpy(&d, &b, 8); if (std::isnan(d) || (std::isinf(d) && !o.inf)) return 0.1; return d;
        }
    }

    inline Val genFundamental(Rng& r, Kind k, const GenOpts& o)
    {
        Val v;
        v.kind = k;
        switch (k)
        {
            case Kind::Bool: v.u = r.below(2); break;
            case Kind::F32:
            {
                if (o.smallDomain > 0 || o.sane || r.chance(40)) { v = Val::ofFloat(static_cast<float>(o.smallDomain > 0 ? genDouble(r, o) : static_cast<double>(r.range(-100000, 100000)) / 64.0)); break; }
                auto b = static_cast<uint32_t>(r.next());
                if (r.chance(10)) b &= 0x807FFFFFu;
                if (r.chance(8)) b = r.coin() ? 0u : 0x80000000u;
                float f;
                std::memcpy(&f, &b, 4);
                if (std::isnan(f)) { if (!o.nan) b = 0x3f800000u; else b |= 0x00400000u; }
                if (std::isinf(f) && !o.inf) b = 0x3f800000u;
                v.u = b;
                break;
            }
            case Kind::F64: case Kind::TP: case Kind::STP: case Kind::Dur: v = Val::ofDouble(k, genDouble(r, o)); break;
            case Kind::Str: v.s = genString(r, o); break;
            case Kind::Uuid:
                v.s.assign(16, '\0');
                if (o.smallDomain > 0) v.s[r.below(16)] = static_cast<char>(r.below(static_cast<uint64_t>(o.smallDomain)));
                else for (auto& c : v.s) c = static_cast<char>(r.chance(10) ? (r.coin() ? 0 : 0xff) : r.next());
                break;
            default:
            {
                int bits = bitsOf(k);
                if (o.smallDomain > 0) { v.u = r.below(static_cast<uint64_t>(o.smallDomain)); if (isSigned(k)) v.u -= 1; break; }
                static const uint64_t edges[] = { 0, 1, 22, 23, 24, 25, 127, 128, 129, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 0x7fffffffull, 0x80000000ull, 0xfffffffeull, 0xffffffffull, 0x100000000ull, 0x100000001ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xfffffffffffffffeull, ~0ull };
                uint64_t u = r.chance(60) ? edges[r.below(std::size(edges))] : (r.coin() ? r.next() : r.next() >> r.below(64));
                if (isSigned(k))
                {
                    auto i = static_cast<int64_t>(u);
                    if (r.coin()) i = static_cast<int64_t>(~u);
                    i = static_cast<int64_t>(static_cast<uint64_t>(i) << (64 - bits)) >> (64 - bits);
                    v.u = static_cast<uint64_t>(i);
                }
                else v.u = bits == 64 ? u : (u & ((1ull << bits) - 1));
                break;
            }
        }
        return v;
    }

    inline Rec genRec(Rng& r, const TypeDef& t, const GenOpts& o, uint32_t forceMask = 0, int depth = 0);
    inline Val genVal(Rng& r, const Shape& sh, const GenOpts& o, int depth = 0)
    {
        if (isFundamental(sh.kind)) return genFundamental(r, sh.kind, o);
        Val v;
        v.kind = sh.kind;
        if (sh.kind == Kind::Enum) v.u = static_cast<uint64_t>(static_cast<int64_t>(sh.def->enumerators[r.below(sh.def->enumerators.size())].value));
        else if (sh.kind == Kind::Struct) v.rec = genRec(r, *sh.def, o, 0, depth + 1);
        else
        {
            size_t n = r.below(static_cast<uint64_t>(depth > 1 ? 3 : o.maxVec) + 1);
            if (depth == 0 && r.chance(o.bigPercent) && isFundamental(sh.elem->kind) && sh.elem->kind != Kind::Str) n = std::array<size_t, 5>{ 23, 24, 255, 256, 1000 }[r.below(5)];
            GenOpts eo = o;
            eo.bigPercent = 0;
            for (size_t i = 0; i < n; ++i) v.items.push_back(genVal(r, *sh.elem, eo, depth + 1));
        }
        return v;
    }
    inline Rec genRec(Rng& r, const TypeDef& t, const GenOpts& o, uint32_t forceMask, int depth)
    {
        Rec rec;
        int percent = r.chance(10) ? 100 : r.chance(8) ? 0 : o.validPercent;
        for (auto& p : t.props)
        {
            if ((forceMask & (1u << p.tag)) || r.chance(percent)) rec.emplace(p.tag, genVal(r, p.shape, o, depth));
        }
        return rec;
    }

    // ---- random types -------------------------------------------------------------------------------------------------
    struct TypeGenOpts
    {
        int maxProps = 10;
        int maxDepth = 3;
        bool allowSubstructOnly = false;
        bool keyless = true;
        bool fancyNames = false;
        int vectorOfVector = 0;
    };

    inline std::shared_ptr<TypeDef> genEnum(Rng& r, const std::string& name)
    {
        auto t = std::make_shared<TypeDef>();
        t->name = name;
        t->isEnum = true;
        size_t n = 1 + r.below(6);
        std::set<uint32_t> tags;
        std::set<int32_t> values;
        for (size_t i = 0; i < n; ++i)
        {
            uint32_t tag = r.chance(80) ? static_cast<uint32_t>(1 + r.below(30)) : static_cast<uint32_t>(r.next());
            int32_t value = r.chance(70) ? static_cast<int32_t>(r.range(-5, 50)) : static_cast<int32_t>(r.next());
            if (!tags.insert(tag).second || !values.insert(value).second) continue;
            t->enumerators.push_back({ tag, "e" + std::to_string(t->enumerators.size()), value });
        }
        return t;
    }

    // Returns the types in an order in which dependencies precede the types that use them; the last is the top-level type.
    struct TypeGen
    {
        std::vector<std::shared_ptr<TypeDef>> types;
        std::string prefix;
        int counter = 0;

        Shape genShape(Rng& r, const TypeGenOpts& o, int depth, bool key)
        {
            Shape s;
            uint64_t x = r.below(100);
            if (key)
            {
                if (x < 85) { s.kind = static_cast<Kind>(r.below(17)); return s; }
                s.kind = Kind::Enum; s.def = someEnum(r); return s;
            }
            if (x < 50) s.kind = static_cast<Kind>(r.below(17));
            else if (x < 60) { s.kind = Kind::Enum; s.def = someEnum(r); }
            else if (x < 75)
            {
                if (depth >= o.maxDepth) s.kind = Kind::Str;
                else { s.kind = Kind::Struct; s.def = someStruct(r, o, depth + 1); }
            }
            else
            {
                s.kind = Kind::Vec;
                s.elem = std::make_shared<Shape>();
                uint64_t y = r.below(100);
                if (y < 55) s.elem->kind = static_cast<Kind>(r.below(17));
                else if (y < 70 || depth >= o.maxDepth) { s.elem->kind = Kind::Enum; s.elem->def = someEnum(r); }
                else { s.elem->kind = Kind::Struct; s.elem->def = someStruct(r, o, depth + 1); }
            }
            return s;
        }
        std::shared_ptr<TypeDef> someEnum(Rng& r)
        {
            std::vector<std::shared_ptr<TypeDef>> es;
            for (auto& t : types) if (t->isEnum) es.push_back(t);
            if (!es.empty() && r.chance(50)) return r.pick(es);
            auto t = genEnum(r, prefix + "E" + std::to_string(counter++));
            types.push_back(t);
            return t;
        }
        std::shared_ptr<TypeDef> someStruct(Rng& r, const TypeGenOpts& o, int depth)
        {
            std::vector<std::shared_ptr<TypeDef>> ss;
            for (auto& t : types) if (!t->isEnum) ss.push_back(t);
            if (!ss.empty() && r.chance(40)) return r.pick(ss);
            return makeStruct(r, o, depth);
        }
        std::shared_ptr<TypeDef> makeStruct(Rng& r, const TypeGenOpts& o, int depth = 0)
        {
            auto t = std::make_shared<TypeDef>();
            t->name = prefix + "S" + std::to_string(counter++);
            size_t n = 1 + r.below(static_cast<uint64_t>(depth == 0 ? o.maxProps : 5));
            std::vector<uint32_t> tags;
            for (uint32_t i = 1; i < 32; ++i) tags.push_back(i);
            if (r.coin()) r.shuffle(tags);
            for (size_t i = 0; i < n; ++i)
            {
                PropDef p;
                p.tag = tags[i];
                p.name = "p" + std::to_string(p.tag) + (r.chance(20) ? "_" + std::to_string(r.below(100)) : "");
                p.key = depth == 0 ? r.chance(25) : r.chance(5);
                p.shape = genShape(r, o, depth, p.key);
                t->props.push_back(std::move(p));
            }
            if (depth == 0 && !o.keyless && t->keyMask() == 0)
            {
                t->props[0].key = true;
                t->props[0].shape = genShape(r, o, depth, true);
            }
            types.push_back(t);
            return t;
        }
    };
}
