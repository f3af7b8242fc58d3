// S02: decoding arbitrary input is safe and terminates.
#include "core/decode.h"
#include "core/cborref.h"
#include "core/textref.h"
#include <ctime>
#include <sanitizer/allocator_interface.h>

using namespace vf;

namespace
{
    thread_local bool t_metering = false;
    thread_local size_t t_live = 0, t_peak = 0;
    void onMalloc(const volatile void*, size_t n)
    {
        if (!t_metering) return;
        t_live += n;
        t_peak = std::max(t_peak, t_live);
    }
    void onFree(const volatile void* p)
    {
        if (!t_metering || !p) return;
        size_t n = __sanitizer_get_allocated_size(p);
        t_live -= std::min(t_live, n);
    }
}
namespace vf
{
    MemoryMeter::MemoryMeter() { t_live = t_peak = 0; t_metering = true; }
    MemoryMeter::~MemoryMeter() { t_metering = false; }
    size_t MemoryMeter::peak() const { return t_peak; }
}

namespace
{
    double cpu()
    {
        timespec t{};
        clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t);
        return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) * 1e-9;
    }

    // ---- inputs
    void insertAt(std::string& s, size_t at, const std::string& x) { s.insert(std::min(at, s.size()), x); }

    std::string deepBinary(Rng& r, size_t n)
    {
        std::string s;
        switch (r.below(6))
        {
            case 0: s.assign(n, '\x81'); break;                                   // array in array
            case 1: for (size_t i = 0; i < n; ++i) s += "\xa1\x01"; break;       // map in map
            case 2: s.assign(n, '\xd8'); break;
            case 3: s.assign(n, '\xc1'); break;                                   // tag of tag
            case 4: s.assign(n, '\x9f'); break;                                   // indefinite
            default: for (size_t i = 0; i < n; ++i) s += static_cast<char>(r.coin() ? 0x82 : 0xbf); break;
        }
        return s;
    }
    std::string deepText(Rng& r, size_t n)
    {
        std::string s;
        switch (r.below(6))
        {
            case 0: s.assign(n, '['); break;
            case 1: for (size_t i = 0; i < n; ++i) s += "{\"a\":"; break;
            case 2: for (size_t i = 0; i < n; ++i) s += "A{.a="; break;
            case 3: for (size_t i = 0; i < n; ++i) s += "[{"; break;
            case 4: s.assign(n, '{'); break;
            default: for (size_t i = 0; i < n; ++i) s += "[[1],"; break;
        }
        if (r.coin()) s += std::string(n, r.coin() ? ']' : '}');
        return s;
    }
    const std::vector<std::string> textTokens{ "null", "nul", "true", "false", "tru", "1e999999", "-1e999999", "1e-999999", "123456789012345678901234567890", "-9223372036854775809", "18446744073709551616",
        "256", "-129", "-1", "4294967296", "1.5", "0x10", "1e3", "--1", "+1", "-", ".", "1.", "NaN", "nan", "inf", "-inf", "Infinity", "\"\"", "\"", "\"\\", "\"\\u", "\"\\u12", "\"\\ud800\"", "\"\\ud800\\ud800\"", "\"\\udc00\"",
        "\"\\u0000\"", "\"\\q\"", "[", "]", "{", "}", "[]", "{}", ",", ":", "=", ".", "'", "''", "'a", "\t", "\n", "\r\n", std::string("\0", 1), "\xff", "\xc3", "\xf0\x9f", "\"\xc3\"", "{\"\":1}", "\"2020-02-30T25:61:61.999Z\"",
        "\"P1Y\"", "2020-01-01T00:00:00.000Z", "2020-", "9999999-01-01T00:00:00Z", "VEnum::red", "::", "VEnum::", "red", "\"red\"", "\"purple\"", "VSub{", "VSub{}", "VSub{ .a = 1 }", ".a", ".a =", "1d 2h", "-PT1H", "99999999999999999999d",
        "00000000-0000-0000-0000-000000000000", "\"00000000-0000-0000-0000-00000000000\"", "{00000000", "<none>", "<null>", "0b1", "\xEF\xBB\xBF", "/* */", "// x", "#" };

    std::string mutate(Rng& r, Format f, std::string s, const std::string& other)
    {
        size_t n = 1 + (r.coin() ? 0 : r.below(4));
        for (size_t k = 0; k < n; ++k)
        {
            size_t at = r.below(s.size() + 1);
            switch (r.below(16))
            {
                case 0: if (!s.empty()) s[r.below(s.size())] ^= static_cast<char>(1 << r.below(8)); break;
                case 1: if (!s.empty()) s[r.below(s.size())] = static_cast<char>(r.next()); break;
                case 2: s.resize(at); break;
                case 3: if (!s.empty()) s.erase(r.below(s.size()), 1 + r.below(4)); break;
                case 4: { std::string c = s.substr(at, 1 + r.below(30)); insertAt(s, r.below(s.size() + 1), c); break; }
                case 5: { size_t o = r.below(other.size() + 1); s = s.substr(0, at) + other.substr(o); break; }
                case 6: { size_t o = r.below(other.size() + 1); insertAt(s, at, other.substr(o, r.below(40))); break; }
                case 7: { std::string c; for (size_t i = 0, m = 1 + r.below(12); i < m; ++i) c += static_cast<char>(r.next()); insertAt(s, at, c); break; }
                default:
                    if (isBinary(f)) switch (r.below(5))
                    {
                        // a head with a length or value of another size
                        case 0: if (!s.empty()) { size_t i = r.below(s.size()); int info = 24 + static_cast<int>(r.below(8)); s[i] = static_cast<char>((s[i] & 0xe0) | info); } break;
                        case 1:
                        {
                            static const std::vector<std::string> lens{ std::string("\x1b\xff\xff\xff\xff\xff\xff\xff\xff", 9), std::string("\x1b\x7f\xff\xff\xff\xff\xff\xff\xff", 9), std::string("\x1a\xff\xff\xff\xff", 5), std::string("\x1a\x7f\xff\xff\xff", 5), std::string("\x19\xff\xff", 3), std::string("\x18\xff", 2), std::string("\x1b\0\0\0\1\0\0\0\0", 9), std::string("\x1b\x80\0\0\0\0\0\0\0", 9), std::string("\x1a\0\x10\0\0", 5) };
                            std::string h = lens[r.below(lens.size())];
                            h[0] = static_cast<char>((static_cast<int>(r.below(8)) << 5) | (h[0] & 31));
                            if (r.coin() && !s.empty()) { size_t i = r.below(s.size()); h[0] = static_cast<char>((s[i] & 0xe0) | (h[0] & 31)); s.replace(i, 1, h); }
                            else insertAt(s, at, h);
                            break;
                        }
                        case 2: if (!s.empty()) s[r.below(s.size())] = static_cast<char>((r.below(8) << 5) | r.below(32)); break;
                        case 3: insertAt(s, at, deepBinary(r, 1 + r.below(r.chance(5) ? 60000 : 40))); break;
                        default: { CborOut o; cborRandomItem(o, r); insertAt(s, at, std::string{ o.out.begin(), o.out.end() }); break; }
                    }
                    else switch (r.below(4))
                    {
                        case 0: insertAt(s, at, textTokens[r.below(textTokens.size())]); break;
                        case 1:
                        {
                            // replace a token
                            size_t b = s.find_first_of(":=,[", at);
                            if (b == std::string::npos) break;
                            size_t e = s.find_first_of(",]}\n", b + 1);
                            if (e == std::string::npos) e = s.size();
                            s.replace(b + 1, e - b - 1, textTokens[r.below(textTokens.size())]);
                            break;
                        }
                        case 2: insertAt(s, at, deepText(r, 1 + r.below(r.chance(5) ? 30000 : 30))); break;
                        default: { std::string d; for (size_t i = 0, m = 1 + r.below(400); i < m; ++i) d += static_cast<char>('0' + r.below(10)); if (r.coin()) d += "e" + std::to_string(static_cast<int64_t>(r.next()) >> r.below(60)); insertAt(s, at, d); break; }
                    }
            }
        }
        return s;
    }
    std::string randomInput(Rng& r, Format f)
    {
        std::string s;
        switch (r.below(5))
        {
            case 0: for (size_t i = 0, n = r.below(r.chance(20) ? 2000 : 40); i < n; ++i) s += static_cast<char>(r.next()); break;
            case 1:
                if (isBinary(f)) { CborOut o; cborRandomItem(o, r); s.assign(o.out.begin(), o.out.end()); }
                else for (size_t i = 0, n = r.below(40); i < n; ++i) s += textTokens[r.below(textTokens.size())];
                break;
            case 2: s = isBinary(f) ? deepBinary(r, 1 + r.below(r.chance(10) ? 200000 : 300)) : deepText(r, 1 + r.below(r.chance(10) ? 60000 : 300)); break;
            case 3:
                if (isBinary(f)) for (size_t i = 0, n = r.below(60); i < n; ++i) s += static_cast<char>((r.below(8) << 5) | (r.coin() ? r.below(6) : r.below(32)));
                else for (size_t i = 0, n = r.below(120); i < n; ++i) s += "{}[]\",:=.0123456789eE+-truefalsn \n\\u'"[r.below(38)];
                break;
            default: break;
        }
        return s;
    }
    // known properties whose values are arbitrary items
    std::string wrongTypes(Rng& r, Format f, const TypeDef& t)
    {
        if (isBinary(f))
        {
            CborOut o;
            size_t n = 1 + r.below(t.props.size() + 2);
            o.head(5, r.chance(90) ? n : r.next() >> r.below(64));
            for (size_t i = 0; i < n; ++i)
            {
                if (r.chance(85) && !t.props.empty()) o.uint(t.props[r.below(t.props.size())].tag); else cborRandomItem(o, r, 4);
                cborRandomItem(o, r);
            }
            return { o.out.begin(), o.out.end() };
        }
        bool json = f != Format::String;
        std::string s = json ? "{" : t.name + "{";
        for (size_t i = 0, n = 1 + r.below(t.props.size() + 2); i < n; ++i)
        {
            if (i) s += ",";
            std::string name = r.chance(90) && !t.props.empty() ? t.props[r.below(t.props.size())].name : "zz";
            s += json ? "\"" + name + "\":" : "." + name + "=";
            s += textTokens[r.below(textTokens.size())];
        }
        return s + "}";
    }

    void s02(Ctx& ctx, Rng& r)
    {
        __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
        ctx.count("sessions");
        for (int round = 0; round < 6; ++round)
        {
            auto t = pickType(r, true, 60);
            auto f = static_cast<Format>(r.below(5));
            GenOpts go;
            go.nan = go.inf = isBinary(f);
            go.utf8 = !isBinary(f);
            go.bigPercent = r.chance(3) ? 10 : 0;
            go.bigSize = 4000;
            Rec a = genRec(r, *t->def, go), b = genRec(r, *t->def, go);
            if (!isBinary(f)) for (auto* rec : { &a, &b }) for (auto& [tag, v] : *rec) tameVal(t->def->find(tag)->shape, v);
            std::string valid, valid2;
            try
            {
                valid = libEncode(f, makeAny(*t->desc, a).get(), dots::property_set_t::All, &r);
                valid2 = libEncode(f, makeAny(*t->desc, b).get(), dots::property_set_t::All, &r);
            }
            catch (const std::exception& e) { ctx.viol("encode-error", e.what()); continue; }

            for (int k = 0; k < 8; ++k)
            {
                bool prefix = false;
                std::string in;
                uint64_t how = r.below(20);
                if (how < 11) in = mutate(r, f, valid, valid2);
                else if (how < 14) in = wrongTypes(r, f, *t->def);
                else if (how < 17) in = randomInput(r, f);
                else { size_t n = r.below(valid.size()); in = valid.substr(0, n); prefix = true; }
                if (r.chance(1) && r.chance(30)) { std::string big = in; while (big.size() < 300000 && !big.empty()) big += in; if (!prefix) in = big; }

                std::unique_ptr<char[]> block{ new char[in.size()] };
                std::memcpy(block.get(), in.data(), in.size());
                uint32_t mask = r.chance(70) ? ~0u : static_cast<uint32_t>(r.next());
                bool strict = r.coin(), asTyped = r.coin();
                const dt::StructDescriptor* d = r.coin() ? t->desc : t->twin;
                Rec before;
                if (r.coin()) before = genRec(r, *t->def, go);
                auto what = [&] { return std::string{ formatName(f) } + " into " + t->def->name + (asTyped ? " typed" : "") + ", " + std::to_string(in.size()) + " bytes: " + (isBinary(f) ? hex(reinterpret_cast<const uint8_t*>(in.data()), in.size(), 700) : in.substr(0, 700)); };
                ctx.note(std::string{ "decode-" } + formatName(f) + " " + what());
                ctx.count(std::string{ "inputs_" } + formatName(f));
                ctx.maxOf("longest_input", in.size());
                ctx.distinct("inputs", hashStr(in, mix(static_cast<uint64_t>(f)) ^ hashStr(t->def->name)));

                dt::AnyStruct obj = makeAny(*d, before);
                bool accepted = false;
                size_t peak = 0;
                double used = 0;
                for (int attempt = 0; attempt < 3; ++attempt)
                {
                    if (attempt) obj = makeAny(*d, before);
                    double t0 = cpu();
                    try
                    {
                        MemoryMeter meter;
                        try { libDecode(f, block.get(), in.size(), obj.get(), mask, asTyped, strict); accepted = true; }
                        catch (...) { peak = meter.peak(); throw; }
                        peak = meter.peak();
                    }
                    catch (const std::exception&) { accepted = false; }
                    catch (...) { ctx.viol("not-an-error-report", what() + ": something that is not a std::exception was thrown"); }
                    used = cpu() - t0;
                    if (used <= 0.3 + static_cast<double>(in.size()) * 3e-5) break;
                    if (attempt == 2) ctx.viol(std::string{ "time:" } + formatName(f), what() + ": " + std::to_string(used) + " s of CPU time");
                }
                ctx.count(accepted ? "accepted" : "refused");
                ctx.count("oracle_checks", 2);
                if (peak > (1u << 20) + 4096 * in.size()) ctx.viol(std::string{ "memory:" } + formatName(f), what() + ": " + std::to_string(peak) + " bytes allocated at a time");
                ctx.maxOf("peak_memory", peak);
                if (prefix && !accepted) ctx.count("prefixes_refused");
                if (prefix) ctx.check(!accepted, std::string{ "prefix-accepted:" } + formatName(f), [&] { return what() + ": the first " + std::to_string(in.size()) + " of " + std::to_string(valid.size()) + " bytes were accepted as an object"; });

                // the object stays usable
                ctx.note(std::string{ "use-after-" } + formatName(f) + " " + what());
                Rec now = readRec(obj.get());
                if (accepted) ctx.distinct("decoded_objects", hashRec(now));
                try { (void)libEncode(f, obj.get(), dots::property_set_t::All, nullptr); }
                catch (const std::exception& e) { if (accepted && before.empty()) ctx.viol(std::string{ "unusable:" } + formatName(f), what() + ": encoding the object afterwards: " + e.what()); }
                dt::AnyStruct copy{ obj.get() };
                ctx.check(readRec(copy.get()) == now, "unusable-copy", [&] { return what() + ": a copy of the object differs: " + show(readRec(copy.get())) + " instead of " + show(now); });
                setRec(obj.get(), b);
                ctx.check(readRec(obj.get()) == b, "unusable-assign", [&] { return what() + ": the object does not take new values afterwards"; });
                if (k == 0)
                {
                    // and so does the decoder
                    std::unique_ptr<char[]> good{ new char[valid.size()] };
                    std::memcpy(good.get(), valid.data(), valid.size());
                    try { libDecode(f, good.get(), valid.size(), copy.get(), ~0u, asTyped, false); ctx.count("valid_afterwards"); }
                    catch (const std::exception& e) { ctx.viol(std::string{ "valid-refused:" } + formatName(f), valid.substr(0, 700) + ": " + e.what()); }
                }
                int which = static_cast<int>(r.below(DecodeValues));
                ctx.note(std::string{ "value-" } + formatName(f) + " type " + std::to_string(which) + " " + what());
                try { libDecodeValue(f, block.get(), in.size(), which); ctx.count("values_accepted"); }
                catch (const std::exception&) { ctx.count("values_refused"); }
                catch (...) { ctx.viol("not-an-error-report", what() + ": something that is not a std::exception was thrown"); }
            }
            if (ctx.wantSample()) ctx.sample(std::string{ formatName(f) } + " of " + t->def->name + ": mutations of " + (isBinary(f) ? hex(reinterpret_cast<const uint8_t*>(valid.data()), valid.size(), 100) : valid.substr(0, 200)));
        }
    }
}

int main(int argc, char** argv)
{
    return driverMain(argc, argv, { { "S02", s02 } });
}
