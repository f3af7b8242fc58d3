// An independent JSON parser and encoder, the reading of the two text formats, and text with unknown members.
#pragma once
#include <ctime>
#include "model.h"

namespace vf
{
    struct TextError : std::runtime_error { using std::runtime_error::runtime_error; };

    struct Json
    {
        enum T { Null, True, False, Number, String, Array, Object } t = Null;
        std::string s;                                     // the number's text, the string's bytes
        std::vector<Json> items;
        std::vector<std::string> names;                    // of an object; the values are the items
    };

    inline void appendUtf8(std::string& s, uint32_t c)
    {
        if (c < 0x80) s += static_cast<char>(c);
        else if (c < 0x800) { s += static_cast<char>(0xC0 | (c >> 6)); s += static_cast<char>(0x80 | (c & 63)); }
        else if (c < 0x10000) { s += static_cast<char>(0xE0 | (c >> 12)); s += static_cast<char>(0x80 | ((c >> 6) & 63)); s += static_cast<char>(0x80 | (c & 63)); }
        else { s += static_cast<char>(0xF0 | (c >> 18)); s += static_cast<char>(0x80 | ((c >> 12) & 63)); s += static_cast<char>(0x80 | ((c >> 6) & 63)); s += static_cast<char>(0x80 | (c & 63)); }
    }

    struct JsonIn       // RFC 8259, strict
    {
        const char* p;
        const char* end;
        [[noreturn]] void fail(const std::string& what) const { throw TextError{ what + " near '" + std::string(p, std::min<size_t>(static_cast<size_t>(end - p), 20)) + "'" }; }
        void ws() { while (p != end && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) ++p; }
        bool lit(std::string_view l)
        {
            if (static_cast<size_t>(end - p) < l.size() || std::string_view(p, l.size()) != l) return false;
            p += l.size();
            return true;
        }
        uint32_t hex4()
        {
            if (end - p < 4) fail("truncated escape");
            uint32_t u = 0;
            for (int i = 0; i < 4; ++i, ++p)
            {
                int d = *p >= '0' && *p <= '9' ? *p - '0' : *p >= 'a' && *p <= 'f' ? *p - 'a' + 10 : *p >= 'A' && *p <= 'F' ? *p - 'A' + 10 : -1;
                if (d < 0) fail("bad escape");
                u = u << 4 | static_cast<uint32_t>(d);
            }
            return u;
        }
        std::string string()
        {
            if (p == end || *p != '"') fail("string expected");
            ++p;
            std::string s;
            while (true)
            {
                if (p == end) fail("unterminated string");
                auto c = static_cast<unsigned char>(*p);
                if (c == '"') { ++p; return s; }
                if (c < 0x20) fail("control character in string");
                if (c == '\\')
                {
                    ++p;
                    if (p == end) fail("truncated escape");
                    char e = *p++;
                    switch (e)
                    {
                        case '"': case '\\': case '/': s += e; break;
                        case 'b': s += '\b'; break;
                        case 'f': s += '\f'; break;
                        case 'n': s += '\n'; break;
                        case 'r': s += '\r'; break;
                        case 't': s += '\t'; break;
                        case 'u':
                        {
                            uint32_t u = hex4();
                            if (u >= 0xD800 && u < 0xDC00)
                            {
                                if (!lit("\\u")) fail("lone surrogate");
                                uint32_t l = hex4();
                                if (l < 0xDC00 || l > 0xDFFF) fail("lone surrogate");
                                u = 0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00);
                            }
                            else if (u >= 0xDC00 && u < 0xE000) fail("lone surrogate");
                            appendUtf8(s, u);
                            break;
                        }
                        default: fail("invalid escape");
                    }
                }
                else { s += static_cast<char>(c); ++p; }
            }
        }
        Json value(int depth = 0)
        {
            if (depth > 200) fail("too deep");
            ws();
            if (p == end) fail("value expected");
            Json j;
            if (*p == '"') { j.t = Json::String; j.s = string(); }
            else if (*p == '{')
            {
                j.t = Json::Object;
                ++p; ws();
                if (p != end && *p == '}') { ++p; return j; }
                while (true)
                {
                    ws();
                    std::string n = string();
                    ws();
                    if (p == end || *p != ':') fail("colon expected");
                    ++p;
                    j.names.push_back(std::move(n));
                    j.items.push_back(value(depth + 1));
                    ws();
                    if (p != end && *p == ',') { ++p; continue; }
                    if (p != end && *p == '}') { ++p; return j; }
                    fail("',' or '}' expected");
                }
            }
            else if (*p == '[')
            {
                j.t = Json::Array;
                ++p; ws();
                if (p != end && *p == ']') { ++p; return j; }
                while (true)
                {
                    j.items.push_back(value(depth + 1));
                    ws();
                    if (p != end && *p == ',') { ++p; continue; }
                    if (p != end && *p == ']') { ++p; return j; }
                    fail("',' or ']' expected");
                }
            }
            else if (lit("null")) j.t = Json::Null;
            else if (lit("true")) j.t = Json::True;
            else if (lit("false")) j.t = Json::False;
            else
            {
                j.t = Json::Number;
                const char* b = p;
                if (p != end && *p == '-') ++p;
                auto digits = [&] { const char* q = p; while (p != end && *p >= '0' && *p <= '9') ++p; return p - q; };
                const char* i = p;
                auto n = digits();
                if (n == 0 || (n > 1 && *i == '0')) { p = b; fail("value expected"); }
                if (p != end && *p == '.') { ++p; if (digits() == 0) fail("digits expected"); }
                if (p != end && (*p == 'e' || *p == 'E')) { ++p; if (p != end && (*p == '+' || *p == '-')) ++p; if (digits() == 0) fail("digits expected"); }
                j.s.assign(b, p);
            }
            return j;
        }
        Json document() { Json j = value(); ws(); if (p != end) fail("text after the document"); return j; }
    };

    // Equal up to the resolution of text: half a unit in the last of digits10 + 1 digits (float, double), ms for time points
    // in the string notation.
    inline bool floatClose(double a, double b, int digits)
    {
        if (a == b) return true;
        if (std::isnan(a) && std::isnan(b)) return true;
        if (!std::isfinite(a) || !std::isfinite(b)) return false;
        double m = std::max(std::fabs(a), std::fabs(b));
        // half a unit of the last digit, plus the rounding of the type itself (and its smallest steps near zero)
        double ulps = digits < 10 ? m * 2.4e-7 + 2.9e-45 : m * 4.5e-16 + 1e-322;
        return std::fabs(a - b) <= m * 1.02 * std::pow(10.0, -(digits - 1)) / 2 + ulps;
    }
    // times that have a calendar date
    inline void tameVal(const Shape& sh, Val& v)
    {
        if (sh.kind == Kind::TP) { double d = v.asDouble(); if (!(std::fabs(d) < 4e9)) v = Val::ofDouble(Kind::TP, 1.6e9 + std::fmod(std::isfinite(d) ? d : 0.0, 1e6)); }
        else if (isFloat64(sh.kind)) { if (std::fabs(v.asDouble()) > 1.79769313486231e308) v = Val::ofDouble(sh.kind, std::copysign(1.79769313486231e308, v.asDouble())); }   // 16 digits of larger ones are beyond the range
        else if (sh.kind == Kind::F32) { if (std::fabs(v.asFloat()) > 3.402823e38f) v = Val::ofFloat(std::copysign(3.402823e38f, v.asFloat())); }
        else if (sh.kind == Kind::Struct) { for (auto& [t, x] : v.rec) tameVal(sh.def->find(t)->shape, x); }
        else if (sh.kind == Kind::Vec) for (auto& i : v.items) tameVal(*sh.elem, i);
    }
    struct TextCmp
    {
        bool msTimes = false;             // a pass through the string notation: time points in ms
        bool exact = false;
        bool val(const Shape& sh, const Val& a, const Val& b) const
        {
            if (a.kind != b.kind) return false;
            switch (sh.kind)
            {
                case Kind::F32: return exact ? a.asFloat() == b.asFloat() : floatClose(static_cast<double>(a.asFloat()), static_cast<double>(b.asFloat()), 7);
                case Kind::TP: if (msTimes && !exact) return std::fabs(a.asDouble() - b.asDouble()) <= 0.00101; [[fallthrough]];
                case Kind::F64: case Kind::STP: case Kind::Dur: return exact ? a.asDouble() == b.asDouble() : floatClose(a.asDouble(), b.asDouble(), 16);
                case Kind::Struct: return rec(*sh.def, a.rec, b.rec);
                case Kind::Vec:
                    if (a.items.size() != b.items.size()) return false;
                    for (size_t i = 0; i < a.items.size(); ++i) if (!val(*sh.elem, a.items[i], b.items[i])) return false;
                    return true;
                default: return a == b;
            }
        }
        // a decoded value against the sent one; sub-properties that were not sent may also have been kept from before
        bool decoded(const Shape& sh, const Val& got, const Val& sent, const Val* before) const
        {
            if (sh.kind != Kind::Struct) return val(sh, got, sent);
            for (auto& [tag, v] : got.rec)
            {
                auto s = sent.rec.find(tag);
                const Val* b = nullptr;
                if (before) if (auto i = before->rec.find(tag); i != before->rec.end()) b = &i->second;
                if (s == sent.rec.end() ? !b || !(*b == v) : !decoded(sh.def->find(tag)->shape, v, s->second, b)) return false;
            }
            for (auto& [tag, v] : sent.rec) if (!got.rec.count(tag)) return false;
            return true;
        }
        bool rec(const TypeDef& t, const Rec& a, const Rec& b) const
        {
            if (maskOf(a) != maskOf(b)) return false;
            for (auto& [tag, v] : a) if (!val(t.find(tag)->shape, v, b.at(tag))) return false;
            return true;
        }
    };

    inline std::string uuidText(const std::string& s)
    {
        std::string h = hex(reinterpret_cast<const uint8_t*>(s.data()), 16), r;
        for (size_t i = 0; i < h.size(); ++i) { if (i == 8 || i == 12 || i == 16 || i == 20) r += '-'; r += h[i]; }
        return r;
    }

    // What a JSON document of the library means for a type. Throws TextError where it is not what the format specifies.
    inline Rec jsonToRec(const TypeDef& t, const Json& j, uint32_t* nulls = nullptr);
    inline Val jsonToVal(const Shape& sh, const Json& j)
    {
        Val v;
        v.kind = sh.kind;
        auto need = [&](bool ok) { if (!ok) throw TextError{ "wrong JSON type for " + sh.typeName() + ": '" + j.s + "'" }; };
        switch (sh.kind)
        {
            case Kind::Bool: need(j.t == Json::True || j.t == Json::False); v.u = j.t == Json::True; break;
            case Kind::F32: need(j.t == Json::Number); return Val::ofFloat(std::strtof(j.s.c_str(), nullptr));
            case Kind::F64: case Kind::TP: case Kind::STP: case Kind::Dur: need(j.t == Json::Number); return Val::ofDouble(sh.kind, std::strtod(j.s.c_str(), nullptr));
            case Kind::Uuid:
            {
                need(j.t == Json::String && j.s.size() == 36);
                std::string h;
                for (char c : j.s) if (c != '-') h += c;
                need(h.size() == 32);
                for (size_t i = 0; i < 16; ++i) v.s += static_cast<char>(std::stoi(h.substr(2 * i, 2), nullptr, 16));
                need(uuidText(v.s) == j.s);
                break;
            }
            case Kind::Str: need(j.t == Json::String); v.s = j.s; break;
            case Kind::Struct: v.rec = jsonToRec(*sh.def, j); break;
            case Kind::Vec: need(j.t == Json::Array); for (auto& i : j.items) v.items.push_back(jsonToVal(*sh.elem, i)); break;
            default:
            {
                need(j.t == Json::Number && j.s.find_first_of(".eE") == std::string::npos);
                if (sh.kind == Kind::Enum)
                {
                    auto* e = sh.def->byTag(static_cast<uint32_t>(std::strtoull(j.s.c_str(), nullptr, 10)));
                    need(e);
                    v.u = static_cast<uint64_t>(static_cast<int64_t>(e->value));
                }
                else if (isSigned(sh.kind)) v.u = static_cast<uint64_t>(std::strtoll(j.s.c_str(), nullptr, 10));
                else { need(j.s[0] != '-'); v.u = std::strtoull(j.s.c_str(), nullptr, 10); }
            }
        }
        return v;
    }
    inline Rec jsonToRec(const TypeDef& t, const Json& j, uint32_t* nulls)
    {
        if (j.t != Json::Object) throw TextError{ "object expected" };
        Rec r;
        std::set<std::string> seen;
        for (size_t i = 0; i < j.names.size(); ++i)
        {
            auto& n = j.names[i];
            auto& v = j.items[i];
            auto* p = t.find(n);
            if (!p) throw TextError{ "unknown member " + n };
            if (!seen.insert(n).second) throw TextError{ "member " + n + " twice" };
            if (v.t == Json::Null) { if (nulls) *nulls |= 1u << p->tag; continue; }
            r.emplace(p->tag, jsonToVal(p->shape, v));
        }
        return r;
    }

    // Writes text as a foreign implementation might: other layout, other escapes, members in any order, unknown members.
    struct TextOut
    {
        Rng& r;
        bool json = true;
        int unknownPercent = 0;
        int unknown = 0;
        std::string out{};

        void sp() { switch (r.below(6)) { case 0: out += ' '; break; case 1: out += "\n  "; break; case 2: out += '\t'; break; default: break; } }
        void str(const std::string& s, bool plain = false)
        {
            out += '"';
            for (size_t i = 0; i < s.size(); ++i)
            {
                auto c = static_cast<unsigned char>(s[i]);
                char b[16];
                if (c == '"' || c == '\\') { out += '\\'; out += static_cast<char>(c); }
                else if (c == '/') { if (json && r.coin()) out += '/'; else out += "\\/"; }
                else if (c == '\n') out += "\\n";
                else if (c == '\t') out += "\\t";
                else if (c == '\r') out += "\\r";
                else if (c == '\b') out += "\\b";
                else if (c == '\f') out += "\\f";
                else if (json && c < 0x20) { std::snprintf(b, sizeof b, r.coin() ? "\\u%04x" : "\\u%04X", c); out += b; }
                else if (json && !plain && c < 0x80 && r.chance(5)) { std::snprintf(b, sizeof b, "\\u%04x", c); out += b; }
                else out += static_cast<char>(c);
            }
            out += '"';
        }
        void number(double d, int digits)
        {
            char b[64];
            std::snprintf(b, sizeof b, "%.*g", digits, d);
            out += b;
        }
        void unknownValue(int depth = 0)
        {
            switch (r.below(depth > 3 ? 6 : 9))
            {
                case 0: out += std::to_string(r.range(-100000, 100000)); break;
                case 1: number(static_cast<double>(r.range(-100000, 100000)) / 7.0, 9); break;
                case 2: out += r.coin() ? "true" : "false"; break;
                case 3: out += json ? "null" : "<invalid>"; break;
                case 4: { static const char* tricky[] = { "", "a,b", "}", "]", "{[", "\"", "\\", "x\\\"y", "{\"a\":1}", ".x = 1,", "end\\" }; str(tricky[r.below(11)]); break; }
                case 5: if (json) str(genUtf8(r, r.below(12), false)); else out += r.coin() ? "VEnum::green" : "7u"; break;
                case 6:
                {
                    out += json ? '[' : '{';
                    size_t n = r.below(5);
                    for (size_t i = 0; i < n; ++i) { if (i) out += ','; sp(); unknownValue(depth + 1); sp(); }
                    out += json ? ']' : '}';
                    break;
                }
                default:
                {
                    if (!json && r.coin()) out += "Other";
                    out += '{';
                    size_t n = r.below(5);
                    for (size_t i = 0; i < n; ++i) { if (i) out += ','; member("u" + std::to_string(i)); unknownValue(depth + 1); sp(); }
                    out += '}';
                }
            }
        }
        void member(const std::string& n)
        {
            sp();
            if (json) { out += '"' + n + "\":"; }
            else out += '.' + n + (r.coin() ? " = " : "=");
            sp();
        }
        void rec(const TypeDef& t, const Rec& v)
        {
            if (!json && r.chance(30)) out += t.name;
            out += '{';
            std::vector<int> order;
            for (auto& [tag, x] : v) order.push_back(static_cast<int>(tag));
            if (unknownPercent && r.chance(unknownPercent)) for (size_t n = 1 + r.below(3); n > 0; --n) order.push_back(-1);
            r.shuffle(order);
            for (size_t i = 0; i < order.size(); ++i)
            {
                if (i) out += ',';
                if (order[i] < 0)
                {
                    ++unknown;
                    static const char* names[] = { "unknown", "x1", "idd", "STR", "p", "zz_9" };
                    std::string n = names[r.below(6)];
                    if (t.find(n)) n += "Q";
                    member(n);
                    unknownValue();
                }
                else
                {
                    auto* p = t.find(static_cast<uint32_t>(order[i]));
                    member(p->name);
                    val(p->shape, v.at(p->tag));
                }
                sp();
            }
            out += '}';
        }
        void val(const Shape& sh, const Val& v)
        {
            switch (sh.kind)
            {
                case Kind::Bool: out += v.u ? "true" : "false"; break;
                case Kind::F32: number(static_cast<double>(v.asFloat()), 9); break;
                case Kind::TP:
                    if (!json)
                    {
                        auto ms = static_cast<int64_t>(std::llround(v.asDouble() * 1000.0));
                        auto s = static_cast<time_t>(ms >= 0 ? ms / 1000 : -((-ms + 999) / 1000));
                        ms -= s * 1000;
                        tm tm{};
                        gmtime_r(&s, &tm);
                        char b[64];
                        size_t n = std::strftime(b, sizeof b, "%Y-%m-%dT%H:%M:%S", &tm);
                        std::snprintf(b + n, sizeof b - n, ".%03dZ", static_cast<int>(ms));
                        str(b, true);
                        break;
                    }
                    [[fallthrough]];
                case Kind::F64: case Kind::STP: case Kind::Dur: number(v.asDouble(), 17); break;
                case Kind::Uuid: str(uuidText(v.s), true); break;
                case Kind::Str: str(v.s); break;
                case Kind::Enum:
                {
                    auto* e = sh.def->byValue(static_cast<int32_t>(v.asInt()));
                    if (json) out += std::to_string(e->tag);
                    else out += (r.coin() ? sh.def->name + "::" : "") + e->name;
                    break;
                }
                case Kind::Struct: rec(*sh.def, v.rec); break;
                case Kind::Vec:
                    out += json ? '[' : '{';
                    for (size_t i = 0; i < v.items.size(); ++i) { if (i) out += ','; sp(); val(*sh.elem, v.items[i]); sp(); }
                    out += json ? ']' : '}';
                    break;
                case Kind::PSet: if (!json && r.coin()) { out += "0b"; std::string b; for (uint64_t x = v.u; x; x >>= 1) b.insert(b.begin(), (x & 1) ? '1' : '0'); out += b.empty() ? "0" : b; break; } [[fallthrough]];
                default: if (isSigned(sh.kind)) out += std::to_string(v.asInt()); else out += std::to_string(v.u);
            }
        }
    };
}
