// S04: text encodings. S03 (text part): unknown members are skipped.
#include "core/types_pick.h"
#include "core/typed.h"
#include "core/textref.h"
#include <dots/serialization/JsonSerializer.h>
#include <dots/serialization/StringSerializer.h>
#include <dots/serialization/RapidJsonSerializer.h>
#include <dots/serialization/CborSerializer.h>

using namespace vf;
using namespace dots::serialization;

namespace
{
    enum Fmt { FJson, FString, FRapid };
    const char* fmtNames[] = { "json", "string", "rapidjson" };

    struct Enc { Fmt fmt; TextOptions opt; };
    std::string encName(const Enc& e) { return std::string{ fmtNames[e.fmt] } + "/style" + std::to_string(e.opt.style) + "/indent" + std::to_string(e.opt.indentSize); }
    Enc randomEnc(Rng& r, std::optional<Fmt> fmt = std::nullopt)
    {
        Enc e{ fmt ? *fmt : static_cast<Fmt>(r.below(3)), {} };
        e.opt.style = static_cast<TextOptions::Style>(r.below(3));
        e.opt.indentSize = r.coin() ? 4 : r.below(9);
        return e;
    }
    std::string encode(const Enc& e, const dt::Struct& s, dots::property_set_t mask, bool asTyped)
    {
        auto go = [&](const auto& x) -> std::string
        {
            switch (e.fmt)
            {
                case FJson: return JsonSerializer::Serialize(x, mask, e.opt);
                case FString: return StringSerializer::Serialize(x, mask, e.opt);
                default: return RapidJsonSerializer<>::Serialize(x, mask);
            }
        };
        return asTyped ? typed(s, go) : go(s);
    }
    struct Exact      // text at the end of a heap block, without terminator
    {
        explicit Exact(const std::string& s) : size(s.size()), data(new char[s.size()]) { std::memcpy(data.get(), s.data(), size); }
        size_t size;
        std::unique_ptr<char[]> data;
    };
    void decode(Fmt fmt, const std::string& text, dt::Struct& s, std::optional<uint32_t> mask, bool strict, bool asTyped)
    {
        Exact in{ text };
        TextOptions o;
        o.policy = strict ? TextOptions::Strict : TextOptions::Relaxed;
        auto go = [&](auto& x)
        {
            auto run = [&](auto& ser) { if (mask) ser.deserialize(x, dots::property_set_t{ *mask }); else ser.deserialize(x); };
            switch (fmt)
            {
                case FJson: { JsonSerializer ser{ o }; ser.setInput(in.data.get(), in.size); run(ser); break; }
                case FString: { StringSerializer ser{ o }; ser.setInput(in.data.get(), in.size); run(ser); break; }
                default: { RapidJsonSerializer<> ser{ std::string_view{ in.data.get(), in.size } }; run(ser); }
            }
        };
        if (asTyped) typed(s, go); else go(s);
    }

    GenOpts textOpts(Rng& r, bool json)
    {
        GenOpts o;
        o.nan = false;
        o.inf = false;
        o.utf8 = json || r.coin();
        o.bigPercent = r.chance(3) ? 10 : 0;
        o.bigSize = 5000;
        return o;
    }
    Rec genTextRec(Rng& r, const TypeDef& t, const GenOpts& o)
    {
        Rec rec = genRec(r, t, o);
        for (auto& [tag, v] : rec) tameVal(t.find(tag)->shape, v);
        return rec;
    }

    uint32_t randomMask(Rng& r, const TypeDef& t)
    {
        switch (r.below(4))
        {
            case 0: return ~0u;
            case 1: return t.allMask();
            default: return static_cast<uint32_t>(r.next() | r.next());
        }
    }
    std::string cut(const std::string& s) { return s.size() > 900 ? s.substr(0, 900) + "..." : s; }

    // decoding sets the properties that the text names: to its value, or to unset where it says null
    bool decodedOk(const TypeDef& t, const Rec& got, const Rec& sent, uint32_t named, const Rec& before, const TextCmp& cmp, std::string& why)
    {
        for (auto& p : t.props)
        {
            auto g = got.find(p.tag), s = sent.find(p.tag), b = before.find(p.tag);
            bool ok;
            if (named & (1u << p.tag)) ok = (g == got.end()) == (s == sent.end()) && (g == got.end() || cmp.decoded(p.shape, g->second, s->second, b == before.end() ? nullptr : &b->second));
            else ok = (g == got.end()) == (b == before.end()) && (g == got.end() || g->second == b->second);
            if (!ok)
            {
                why = "property " + p.name + " (" + p.shape.typeName() + "): sent " + (s == sent.end() ? "-" : show(s->second)) + ", before " + (b == before.end() ? "-" : show(b->second)) + ", after " + (g == got.end() ? "-" : show(g->second));
                return false;
            }
        }
        return true;
    }

    // the largest values of the floating-point types
    void s04Largest(Ctx& ctx)
    {
        using namespace dots::types;
        for (Fmt f : { FJson, FString, FRapid }) for (double sign : { 1.0, -1.0 })
        {
            VAll v;
            v.id = 1;
            v.f32 = static_cast<float>(sign) * std::numeric_limits<float>::max();
            v.f64 = sign * std::numeric_limits<double>::max();
            std::string text = encode(Enc{ f, {} }, v, dots::property_set_t::All, false);
            VAll w;
            try { decode(f, text, w, std::nullopt, false, false); }
            catch (const std::exception& e) { ctx.viol(std::string{ "largest:" } + fmtNames[f], text + " cannot be read: " + e.what()); continue; }
            ctx.check(w.f32.isValid() && std::isfinite(*w.f32), std::string{ "largest-f32:" } + fmtNames[f], [&] { return text + " is read as another value"; });
            ctx.check(w.f64.isValid() && std::isfinite(*w.f64), std::string{ "largest-f64:" } + fmtNames[f], [&] { return text + " is read as another value"; });
        }
    }

    void s04(Ctx& ctx, Rng& r)
    {
        if (ctx.caseId % 1000 == 0) s04Largest(ctx);
        for (int round = 0; round < 8; ++round)
        {
            Enc e = randomEnc(r);
            bool json = e.fmt != FString;
            auto t = pickType(r);
            Rec rec = genTextRec(r, *t->def, textOpts(r, json));
            uint32_t mask = randomMask(r, *t->def) & t->def->allMask();
            Rec sent = select(rec, mask);
            dt::AnyStruct a = makeAny(r.coin() ? *t->desc : *t->twin, rec);
            std::string what = encName(e) + " type " + t->def->name + " ";
            std::string text;
            try { text = encode(e, a.get(), dots::property_set_t{ mask }, r.coin()); }
            catch (const std::exception& x) { ctx.viol(std::string{ fmtNames[e.fmt] } + "-encode-error", what + show(sent) + ": " + x.what()); continue; }
            what += "text '" + cut(text) + "' ";
            ctx.check(readRec(a.get()) == rec, "encode-changes-object", [&] { return what; });
            ctx.count("objects");
            ctx.count(std::string{ "encoded_" } + fmtNames[e.fmt]);
            ctx.distinct("layouts", hashStr(encName(e)));
            for (auto& [tag, v] : sent) ctx.distinct("kinds_sent", hashStr(t->def->find(tag)->shape.typeName()));
            if (!sent.empty()) ctx.distinct("objects_sent", hashStr(show(sent), hashStr(t->def->name)));
            if (ctx.wantSample() && round == 1 && text.size() < 400) ctx.sample(encName(e) + ": " + text);

            if (json)
            {
                try
                {
                    JsonIn in{ text.data(), text.data() + text.size() };
                    uint32_t nulls = 0;
                    Rec p = jsonToRec(*t->def, in.document(), &nulls);
                    TextCmp cmp;
                    ctx.check(cmp.rec(*t->def, p, sent) && nulls == (mask & ~maskOf(sent)), "json-encoding", [&] { return what + "means " + show(p) + ", sent " + show(sent); });
                    ctx.count("json_parsed");
                }
                catch (const TextError& x) { ctx.viol("json-malformed", what + x.what()); }
            }

            // decode with every implementation that reads this format
            for (Fmt f : json ? std::vector<Fmt>{ FJson, FRapid } : std::vector<Fmt>{ FString })
            {
                Rec before;
                if (r.coin()) before = genTextRec(r, *t->def, textOpts(r, true));
                std::optional<uint32_t> m;
                if (r.chance(30)) m = randomMask(r, *t->def);
                bool strict = e.fmt != FRapid && e.opt.style == TextOptions::MultiLine && r.coin();
                auto& d = r.coin() ? *t->desc : *t->twin;
                dt::AnyStruct target = makeAny(d, before);
                std::string w = what + "read by " + fmtNames[f] + (strict ? " (strict)" : "");
                try { decode(f, text, target.get(), m, strict, r.coin()); }
                catch (const std::exception& x) { ctx.viol(std::string{ fmtNames[e.fmt] } + "-" + fmtNames[f] + "-decode-error", w + ": " + x.what()); continue; }
                TextCmp cmp;
                cmp.msTimes = f == FString;
                std::string why;
                uint32_t named = m ? mask & *m : mask;
                ctx.check(decodedOk(*t->def, readRec(target.get()), select(sent, named), named, before, cmp, why), std::string{ fmtNames[e.fmt] } + "-" + fmtNames[f] + "-decode-value", [&] { return w + ": " + why; });
                ctx.count("decodes");
            }
            // foreign text
            {
                TextOut o{ r, json };
                Rec fsent = json ? sent : sent;
                o.rec(*t->def, fsent);
                dt::AnyStruct target{ *t->desc };
                Fmt f = json ? (r.coin() ? FJson : FRapid) : FString;
                try
                {
                    decode(f, o.out, target.get(), std::nullopt, false, r.coin());
                    TextCmp cmp;
                    cmp.msTimes = f == FString;
                    Rec got = readRec(target.get());
                    ctx.check(cmp.rec(*t->def, got, fsent), std::string{ "foreign-" } + fmtNames[f] + "-value", [&] { return "text '" + cut(o.out) + "' means " + show(fsent) + " got " + show(got); });
                    ctx.count("foreign_texts");
                }
                catch (const std::exception& x) { ctx.viol(std::string{ "foreign-" } + fmtNames[f] + "-error", "text '" + cut(o.out) + "': " + x.what()); }
            }
        }

        // a journey through the formats: after the first pass through both notations nothing changes any more
        auto t = pickType(r);
        GenOpts o = textOpts(r, true);
        Rec rec = genTextRec(r, *t->def, o);
        dt::AnyStruct cur = makeAny(*t->desc, rec);
        Rec last;
        std::string path;
        int hops = 4 + static_cast<int>(r.below(8));
        bool sawJson = false, sawString = false;
        try
        {
            for (int h = 0; h < hops; ++h)
            {
                bool settled = sawJson && sawString;
                const dt::StructDescriptor& d = r.coin() ? *t->desc : *t->twin;
                dt::AnyStruct next{ d };
                Rec before = readRec(cur.get());
                uint64_t k = h < 2 ? static_cast<uint64_t>(h) : r.below(4);
                bool ms = false;
                if (k == 3)
                {
                    auto bytes = CborSerializer::Serialize(cur.get(), dots::property_set_t::All);
                    CborSerializer::Deserialize(bytes, next.get());
                    path += " cbor";
                }
                else
                {
                    Enc e = randomEnc(r, static_cast<Fmt>(k));
                    std::string text = encode(e, cur.get(), dots::property_set_t::All, r.coin());
                    Fmt rf = k == FString ? FString : r.coin() ? FJson : FRapid;
                    decode(rf, text, next.get(), std::nullopt, false, r.coin());
                    path += " " + encName(e) + ">" + fmtNames[rf];
                    if (k == FJson) sawJson = true;
                    if (k == FString) { sawString = true; ms = true; }
                }
                Rec after = readRec(next.get());
                TextCmp cmp;
                cmp.msTimes = ms;
                cmp.exact = settled;
                ctx.check(cmp.rec(*t->def, after, before), settled ? "journey-drift" : "journey-value", [&] { return t->def->name + path + ": " + show(before) + " became " + show(after); });
                cur = std::move(next);
                ctx.count("hops");
                if (settled) ctx.count("settled_hops");
            }
        }
        catch (const std::exception& x) { ctx.viol("journey-error", t->def->name + path + ": " + x.what() + " object " + show(readRec(cur.get()))); }
    }

    void s03(Ctx& ctx, Rng& r)
    {
        for (int round = 0; round < 10; ++round)
        {
            auto t = pickType(r);
            Fmt f = static_cast<Fmt>(r.below(3));
            Rec rec = genTextRec(r, *t->def, textOpts(r, f != FString)), before;
            if (r.coin()) before = genTextRec(r, *t->def, textOpts(r, true));
            TextOut o{ r, f != FString, 60 };
            o.rec(*t->def, rec);
            ctx.count("objects");
            ctx.count("unknown_members", static_cast<uint64_t>(o.unknown));
            if (o.unknown) ctx.distinct("messages_with_unknown", hashStr(o.out));
            if (ctx.wantSample() && o.unknown && o.out.size() < 300) ctx.sample(o.out);
            for (auto* d : { t->desc, t->twin })
            {
                dt::AnyStruct a = makeAny(*d, before);
                std::string what = std::string{ fmtNames[f] } + " type " + t->def->name + " text '" + cut(o.out) + "'";
                try
                {
                    decode(f, o.out, a.get(), std::nullopt, false, r.coin());
                    std::string why;
                    TextCmp cmp;
                    cmp.msTimes = f == FString;
                    ctx.check(decodedOk(*t->def, readRec(a.get()), rec, maskOf(rec), before, cmp, why), std::string{ fmtNames[f] } + "-skip-value", [&] { return what + ": " + why; });
                    ctx.count("text_decodes");
                }
                catch (const std::exception& x) { ctx.viol(std::string{ fmtNames[f] } + "-skip-error", what + ": " + x.what()); }
            }
        }
    }
}

int main(int argc, char** argv)
{
    return driverMain(argc, argv, { { "S04", s04 }, { "S03", s03 } });
}
