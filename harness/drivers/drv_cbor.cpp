// S01: binary encodings are lossless and exact. S03: unknown properties are skipped.
#include "core/types_pick.h"
#include "core/typed.h"
#include "core/cborref.h"
#include <dots/serialization/CborSerializer.h>
#include <dots/serialization/ExperimentalCborSerializer.h>

using namespace vf;
using dots::serialization::CborSerializer;
using dots::serialization::ExperimentalCborSerializer;

namespace
{
    // got must be the sent value; where an object was decoded into an existing one, sub-properties that were not sent may also have been kept
    bool matches(const Shape& sh, const Val& got, const Val& sent, const Val* before);
    bool matchesRec(const TypeDef& t, const Rec& got, const Rec& sent, const Rec* before)
    {
        for (auto& [tag, v] : got)
        {
            auto s = sent.find(tag);
            const Val* b = nullptr;
            if (before) if (auto i = before->find(tag); i != before->end()) b = &i->second;
            if (s == sent.end()) { if (!b || !(*b == v)) return false; }
            else if (!matches(t.find(tag)->shape, v, s->second, b)) return false;
        }
        for (auto& [tag, v] : sent) if (!got.count(tag)) return false;
        return true;
    }
    bool matches(const Shape& sh, const Val& got, const Val& sent, const Val* before)
    {
        if (sh.kind == Kind::Struct) return got == sent || matchesRec(*sh.def, got.rec, sent.rec, before ? &before->rec : nullptr);
        return got == sent;
    }
    // top level: sent properties within the selection take the sent values; all others keep theirs
    bool decodedOk(const TypeDef& t, const Rec& got, const Rec& sent, const Rec& before, std::string& why)
    {
        for (auto& p : t.props)
        {
            auto g = got.find(p.tag), s = sent.find(p.tag), b = before.find(p.tag);
            bool ok;
            if (s != sent.end()) ok = g != got.end() && matches(p.shape, g->second, s->second, b == before.end() ? nullptr : &b->second);
            else ok = (g == got.end()) == (b == before.end()) && (g == got.end() || g->second == b->second);
            if (!ok)
            {
                why = "property " + p.name + " (tag " + std::to_string(p.tag) + ", " + p.shape.typeName() + "): sent " + (s == sent.end() ? "-" : show(s->second)) + ", before " + (b == before.end() ? "-" : show(b->second)) + ", after " + (g == got.end() ? "-" : show(g->second));
                return false;
            }
        }
        return true;
    }

    Bytes exact(const Bytes& b) { return Bytes(b.begin(), b.end()); }

    template <typename S>
    Bytes enc(const dt::Struct& s, dots::property_set_t mask)
    {
        return typed(s, [&](auto& x) { return S::Serialize(x, mask); });
    }
    template <typename S>
    size_t dec(const Bytes& b, dt::Struct& s, std::optional<uint32_t> mask)
    {
        S ser;
        Bytes copy = exact(b);
        ser.setInput(copy);
        return typed(s, [&](auto& x) { return mask ? ser.deserialize(x, dots::property_set_t{ *mask }) : ser.deserialize(x); });
    }

    // ---- the experimental format: [count, mask, values in descriptor order] --------------------------------------------
    struct ExpIn : CborIn
    {
        Val val(const Shape& sh)
        {
            if (sh.kind == Kind::Struct) { Val v; v.kind = Kind::Struct; v.rec = rec(*sh.def); return v; }
            if (sh.kind == Kind::Vec)
            {
                Val v;
                v.kind = Kind::Vec;
                uint64_t n = count();
                if (n > static_cast<uint64_t>(end - p)) throw CborParseError{ "list larger than the input" };
                for (uint64_t i = 0; i < n; ++i) v.items.push_back(val(*sh.elem));
                return v;
            }
            if (sh.kind == Kind::F32 || isFloat64(sh.kind))
            {
                const uint8_t* q = p;
                CborItem it = item();
                if (it.major == 7 && it.info == 25)
                {
                    if ((it.arg & 0x7fff) != 0) throw CborParseError{ "a half float that is not zero" };
                    Val v;
                    v.kind = sh.kind;
                    if (it.arg) v.u = sh.kind == Kind::F32 ? 0x80000000ull : 0x8000000000000000ull;
                    return v;
                }
                p = q;
            }
            return cborToVal(sh, item());
        }
        uint64_t count()
        {
            uint8_t b = byte();
            if ((b >> 5) != 4) throw CborParseError{ "array head expected" };
            int info = b & 31;
            uint64_t n = 0;
            if (info < 24) n = static_cast<uint64_t>(info);
            else if (info <= 27) for (int i = 0; i < 1 << (info - 24); ++i) n = n << 8 | byte();
            else throw CborParseError{ "array head" };
            return n;
        }
        Rec rec(const TypeDef& t)
        {
            uint64_t n = count();
            CborItem m = item();
            if (m.major != 0) throw CborParseError{ "property set expected" };
            auto mask = static_cast<uint32_t>(m.arg);
            if (m.arg > 0xffffffffull || (mask & ~t.allMask()) || static_cast<uint64_t>(__builtin_popcount(mask)) != n) throw CborParseError{ t.name + ": property set " + std::to_string(m.arg) + " with count " + std::to_string(n) };
            Rec r;
            for (auto& p : t.props) if (mask & (1u << p.tag)) r.emplace(p.tag, val(p.shape));
            return r;
        }
    };
    Rec parseStd(const TypeDef& t, const Bytes& b)
    {
        CborIn in{ b.data(), b.data() + b.size() };
        CborItem it = in.item();
        if (in.p != in.end) throw CborParseError{ std::to_string(in.end - in.p) + " bytes after the object" };
        return cborToRec(t, it);
    }
    Rec parseExp(const TypeDef& t, const Bytes& b)
    {
        ExpIn in;
        in.p = b.data();
        in.end = b.data() + b.size();
        Rec r = in.rec(t);
        if (in.p != in.end) throw CborParseError{ std::to_string(in.end - in.p) + " bytes after the object" };
        return r;
    }

    GenOpts genOpts(Rng& r)
    {
        GenOpts o;
        o.bigPercent = r.chance(5) ? 10 : 0;
        return o;
    }
    uint32_t randomMask(Rng& r, const TypeDef& t)
    {
        switch (r.below(5))
        {
            case 0: return ~0u;
            case 1: return t.allMask();
            case 2: return 0;
            case 3: return static_cast<uint32_t>(r.next());
            default: return static_cast<uint32_t>(r.next() | r.next());
        }
    }

    template <typename S>
    void checkDecode(Ctx& ctx, Rng& r, const std::string& fmt, const TypeDef& t, const dt::StructDescriptor& d, const Bytes& bytes, const Rec& sent, bool maskable, const char* where)
    {
        GenOpts o = genOpts(r);
        Rec before;
        if (r.chance(50)) before = genRec(r, t, o);
        std::optional<uint32_t> mask;
        if (maskable && r.chance(40)) mask = randomMask(r, t);
        dt::AnyStruct target = makeAny(d, before);
        std::string what = fmt + " " + where + " type " + t.name + " bytes " + hex(bytes) + " mask " + (mask ? std::to_string(*mask) : "all");
        try
        {
            size_t n = dec<S>(bytes, target.get(), mask);
            ctx.check(n == bytes.size(), fmt + "-decode-size", [&] { return what + ": decoded " + std::to_string(n) + " of " + std::to_string(bytes.size()) + " bytes"; });
        }
        catch (const std::exception& e)
        {
            ctx.viol(fmt + "-decode-error", what + ": " + e.what());
            return;
        }
        Rec got = readRec(target.get());
        std::string why;
        ctx.check(decodedOk(t, got, mask ? select(sent, *mask) : sent, before, why), fmt + "-decode-value", [&] { return what + ": " + why; });
        ctx.count(fmt + "_decodes");
    }

    template <typename S>
    void checkStream(Ctx& ctx, Rng& r, const std::string& fmt)
    {
        // several objects written by one serializer, read back one after the other
        size_t n = 2 + r.below(5);
        std::vector<std::shared_ptr<TypeUnderTest>> types;
        std::vector<Rec> sent;
        std::vector<size_t> sizes;
        S ser;
        for (size_t i = 0; i < n; ++i)
        {
            auto t = pickType(r);
            Rec rec = genRec(r, *t->def, genOpts(r));
            uint32_t mask = randomMask(r, *t->def);
            dt::AnyStruct a = makeAny(*t->desc, rec);
            size_t size = r.coin() ? ser.serialize(a.get(), dots::property_set_t{ mask }) : (typed(a.get(), [&](auto& x) { return ser.serialize(std::as_const(x), dots::property_set_t{ mask }); }));
            sizes.push_back(size);
            ctx.check(size == ser.lastSerializeSize(), fmt + "-serialize-size", [&] { return std::string{ "serialize() and lastSerializeSize() differ" }; });
            types.push_back(t);
            sent.push_back(select(rec, mask));
        }
        Bytes all = exact(ser.output());
        size_t sum = 0;
        for (size_t s : sizes) sum += s;
        ctx.check(sum == all.size(), fmt + "-serialize-size", [&] { return "sum of reported sizes " + std::to_string(sum) + ", output " + std::to_string(all.size()); });
        S des;
        des.setInput(all);
        size_t offset = 0;
        for (size_t i = 0; i < n; ++i)
        {
            const dt::StructDescriptor* d = r.coin() ? types[i]->desc : types[i]->twin;
            dt::AnyStruct a{ *d };
            try
            {
                size_t size = des.deserialize(a.get());
                offset += size;
                ctx.check(size == sizes[i] && des.lastDeserializeSize() == size && des.inputAvailable() == all.size() - offset, fmt + "-stream-size", [&] { return "object " + std::to_string(i) + ": written " + std::to_string(sizes[i]) + " read " + std::to_string(size) + " available " + std::to_string(des.inputAvailable()) + " of " + std::to_string(all.size()); });
            }
            catch (const std::exception& e)
            {
                ctx.viol(fmt + "-stream-error", std::string{ "object " } + std::to_string(i) + " of " + std::to_string(n) + ": " + e.what() + " bytes " + hex(all));
                return;
            }
            Rec got = readRec(a.get());
            ctx.check(got == sent[i], fmt + "-stream-value", [&] { return "object " + std::to_string(i) + " sent " + show(sent[i]) + " got " + show(got); });
        }
        ctx.count(fmt + "_stream_objects", n);
    }

    // single values, outside of an object
    template <typename S, typename T>
    void checkValue(Ctx& ctx, const std::string& fmt, const T& value, const Val& v, const Shape& sh)
    {
        Bytes b = S::Serialize(value);
        std::string what = fmt + " value " + show(v) + " of " + sh.typeName() + " bytes " + hex(b);
        try
        {
            Bytes c = exact(b);
            if constexpr (std::is_same_v<S, CborSerializer>)
            {
                CborIn in{ c.data(), c.data() + c.size() };
                Val p = cborToVal(sh, in.item());
                ctx.check(p == v && in.p == in.end, fmt + "-value-encoding", [&] { return what + ": encoded as " + show(p); });
            }
            T got = {};
            size_t n = S::Deserialize(c, got);
            Val g = readVal(dt::Typeless::From(got), dt::Descriptor<T>::Instance());
            ctx.check(g == v && n == b.size(), fmt + "-value-roundtrip", [&] { return what + ": got " + show(g) + " using " + std::to_string(n); });
            ctx.count("single_values");
        }
        catch (const std::exception& e) { ctx.viol(fmt + "-value-error", what + ": " + e.what()); }
    }
    template <typename S, typename T>
    void checkValueOf(Ctx& ctx, Rng& r, const std::string& fmt)
    {
        Shape sh = shapeOf(dt::Descriptor<T>::Instance());
        Val v = genVal(r, sh, genOpts(r));
        T x = {};
        writeVal(dt::Typeless::From(x), dt::Descriptor<T>::Instance(), v);
        checkValue<S>(ctx, fmt, x, v, sh);
    }
    template <typename S>
    void checkSomeValue(Ctx& ctx, Rng& r, const std::string& fmt)
    {
        switch (r.below(21))
        {
            case 0: checkValueOf<S, bool>(ctx, r, fmt); break;
            case 1: checkValueOf<S, int8_t>(ctx, r, fmt); break;
            case 2: checkValueOf<S, uint8_t>(ctx, r, fmt); break;
            case 3: checkValueOf<S, int16_t>(ctx, r, fmt); break;
            case 4: checkValueOf<S, uint16_t>(ctx, r, fmt); break;
            case 5: checkValueOf<S, int32_t>(ctx, r, fmt); break;
            case 6: checkValueOf<S, uint32_t>(ctx, r, fmt); break;
            case 7: checkValueOf<S, int64_t>(ctx, r, fmt); break;
            case 8: checkValueOf<S, uint64_t>(ctx, r, fmt); break;
            case 9: checkValueOf<S, float>(ctx, r, fmt); break;
            case 10: checkValueOf<S, double>(ctx, r, fmt); break;
            case 11: checkValueOf<S, dots::timepoint_t>(ctx, r, fmt); break;
            case 12: checkValueOf<S, dots::duration_t>(ctx, r, fmt); break;
            case 13: checkValueOf<S, dots::uuid_t>(ctx, r, fmt); break;
            case 14: checkValueOf<S, std::string>(ctx, r, fmt); break;
            case 15: checkValueOf<S, dots::vector_t<uint64_t>>(ctx, r, fmt); break;
            case 16: checkValueOf<S, dots::vector_t<bool>>(ctx, r, fmt); break;
            case 17: checkValueOf<S, dots::vector_t<std::string>>(ctx, r, fmt); break;
            case 18: checkValueOf<S, dots::vector_t<float>>(ctx, r, fmt); break;
            case 19: checkValueOf<S, dots::vector_t<dots::types::VSub>>(ctx, r, fmt); break;
            default: checkValueOf<S, dots::vector_t<dots::types::VEnum>>(ctx, r, fmt); break;
        }
    }

    void s01(Ctx& ctx, Rng& r)
    {
        for (int round = 0; round < 12; ++round)
        {
            auto t = pickType(r);
            Rec rec = genRec(r, *t->def, genOpts(r));
            uint32_t mask = randomMask(r, *t->def);
            Rec sent = select(rec, mask);
            dt::AnyStruct a = makeAny(*t->desc, rec);
            ctx.check(readRec(a.get()) == rec, "harness-write-read", [&] { return t->def->name + " " + show(rec) + " read back " + show(readRec(a.get())); });
            ctx.count("objects");
            for (auto& [tag, v] : sent) { ctx.distinct("kinds_sent", hashStr(t->def->find(tag)->shape.typeName())); }
            if (!sent.empty()) ctx.distinct("objects_sent", hashStr(show(sent), hashStr(t->def->name)));
            if (ctx.wantSample() && round == 3) ctx.sample(t->def->name + " mask " + std::to_string(mask) + " " + show(rec));

            Bytes std_ = enc<CborSerializer>(a.get(), dots::property_set_t{ mask });
            Bytes exp = enc<ExperimentalCborSerializer>(a.get(), dots::property_set_t{ mask });
            ctx.check(readRec(a.get()) == rec, "encode-changes-object", [&] { return t->def->name; });
            try
            {
                Rec p = parseStd(*t->def, std_);
                ctx.check(p == sent, "cbor-encoding", [&] { return t->def->name + " sent " + show(sent) + " encoded " + show(p) + " bytes " + hex(std_); });
            }
            catch (const CborParseError& e) { ctx.viol("cbor-malformed", t->def->name + ": " + e.what() + " for " + show(sent) + " bytes " + hex(std_)); }
            try
            {
                Rec p = parseExp(*t->def, exp);
                ctx.check(p == sent, "experimental-encoding", [&] { return t->def->name + " sent " + show(sent) + " encoded " + show(p) + " bytes " + hex(exp); });
            }
            catch (const CborParseError& e) { ctx.viol("experimental-malformed", t->def->name + ": " + e.what() + " for " + show(sent) + " bytes " + hex(exp)); }
            ctx.count("encodes", 2);
            ctx.count("encoded_bytes", std_.size() + exp.size());

            // same type, another registry's run-time twin, and the reference encoding in another order
            checkDecode<CborSerializer>(ctx, r, "cbor", *t->def, *t->desc, std_, sent, true, "same-type");
            checkDecode<ExperimentalCborSerializer>(ctx, r, "experimental", *t->def, *t->desc, exp, sent, false, "same-type");
            if (round % 2)
            {
                checkDecode<CborSerializer>(ctx, r, "cbor", *t->def, *t->twin, std_, sent, true, "twin");
                checkDecode<ExperimentalCborSerializer>(ctx, r, "experimental", *t->def, *t->twin, exp, sent, false, "twin");
                dt::AnyStruct b = makeAny(*t->twin, rec);
                ctx.check(enc<CborSerializer>(b.get(), dots::property_set_t{ mask }) == std_, "cbor-twin-bytes", [&] { return t->def->name + " " + show(sent); });
                ctx.check(enc<ExperimentalCborSerializer>(b.get(), dots::property_set_t{ mask }) == exp, "experimental-twin-bytes", [&] { return t->def->name + " " + show(sent); });
            }
            CborOut o;
            cborEncodeRec(o, *t->def, sent, r.coin() ? &r : nullptr);
            checkDecode<CborSerializer>(ctx, r, "cbor", *t->def, r.coin() ? *t->desc : *t->twin, o.out, sent, true, "reference-encoding");
            checkSomeValue<CborSerializer>(ctx, r, "cbor");
            checkSomeValue<ExperimentalCborSerializer>(ctx, r, "experimental");
        }
        checkStream<CborSerializer>(ctx, r, "cbor");
        checkStream<ExperimentalCborSerializer>(ctx, r, "experimental");
    }

    // ---- S03 ------------------------------------------------------------------------------------------------------------
    // An encoding of rec to which properties were added that the type does not have, at every nesting level.
    struct Adder
    {
        Rng& r;
        int added = 0;
        int bigPercent = 10;
        void rec(CborOut& o, const TypeDef& t, const Rec& v, int depth = 0)
        {
            std::vector<uint32_t> unknown;
            for (uint32_t tag = 0; tag < 32; ++tag) if (!t.find(tag)) unknown.push_back(tag);
            if (r.chance(20)) for (uint32_t tag : { 32u, 33u, 255u, 256u, 65535u, 65536u, 0xffffffffu }) unknown.push_back(tag);
            r.shuffle(unknown);
            size_t n = r.below(std::min<size_t>(unknown.size(), depth == 0 ? 6 : 3) + 1);
            std::vector<std::pair<uint32_t, bool>> order;
            for (size_t i = 0; i < n; ++i) order.push_back({ unknown[i], false });
            for (auto& [tag, x] : v) order.push_back({ tag, true });
            if (r.chance(80)) r.shuffle(order);
            o.head(5, order.size());
            for (auto& [tag, known] : order)
            {
                o.uint(tag);
                if (known) val(o, t.find(tag)->shape, v.at(tag), depth + 1);
                else { cborRandomItem(o, r); ++added; }
            }
        }
        void val(CborOut& o, const Shape& sh, const Val& v, int depth)
        {
            if (sh.kind == Kind::Struct) rec(o, *sh.def, v.rec, depth);
            else if (sh.kind == Kind::Vec) { o.head(4, v.items.size()); for (auto& i : v.items) val(o, *sh.elem, i, depth); }
            else cborEncode(o, sh, v);
        }
    };

    // The type without some of its properties, recursively.
    struct Cutter
    {
        Rng& r;
        std::map<std::string, std::shared_ptr<TypeDef>> done;
        std::vector<std::shared_ptr<TypeDef>> order;
        std::shared_ptr<TypeDef> cut(const std::shared_ptr<TypeDef>& t)
        {
            if (auto it = done.find(t->name); it != done.end()) return it->second;
            auto c = std::make_shared<TypeDef>(*t);
            if (!t->isEnum)
            {
                c->props.clear();
                for (auto& p : t->props)
                {
                    if (r.chance(40) && !(c->props.empty() && &p == &t->props.back())) continue;
                    PropDef q = p;
                    q.shape = shape(p.shape);
                    c->props.push_back(std::move(q));
                }
            }
            done[t->name] = c;
            order.push_back(c);
            return c;
        }
        Shape shape(const Shape& s)
        {
            Shape x = s;
            if (s.def) x.def = cut(s.def);
            if (s.elem) x.elem = std::make_shared<Shape>(shape(*s.elem));
            return x;
        }
    };
    Val project(const Shape& to, const Val& v);
    Rec projectRec(const TypeDef& to, const Rec& r)
    {
        Rec o;
        for (auto& p : to.props) if (auto it = r.find(p.tag); it != r.end()) o.emplace(p.tag, project(p.shape, it->second));
        return o;
    }
    Val project(const Shape& to, const Val& v)
    {
        Val o = v;
        if (to.kind == Kind::Struct) o.rec = projectRec(*to.def, v.rec);
        else if (to.kind == Kind::Vec) for (auto& i : o.items) i = project(*to.elem, i);
        return o;
    }

    void s03(Ctx& ctx, Rng& r)
    {
        for (int round = 0; round < 10; ++round)
        {
            // (a) reference encodings with random unknown data, followed by another object
            auto t = pickType(r);
            GenOpts go = genOpts(r);
            Rec rec = genRec(r, *t->def, go), next = genRec(r, *t->def, go), before;
            if (r.coin()) before = genRec(r, *t->def, go);
            Adder add{ r };
            CborOut o;
            add.rec(o, *t->def, rec);
            size_t first = o.out.size();
            add.rec(o, *t->def, next);
            Bytes bytes = exact(o.out);
            ctx.count("unknown_properties", static_cast<uint64_t>(add.added));
            ctx.count("objects");
            if (add.added) ctx.distinct("messages_with_unknown", hashBytes(bytes.data(), bytes.size()));
            if (ctx.wantSample() && add.added && bytes.size() < 200) ctx.sample(t->def->name + " " + show(rec) + " encoded with " + std::to_string(add.added) + " unknown properties as " + hex(bytes));
            for (const dt::StructDescriptor* d : { t->desc, t->twin })
            {
                dt::AnyStruct a = makeAny(*d, before), b = makeAny(*d, before);
                CborSerializer ser;
                ser.setInput(bytes);
                std::string what = "type " + t->def->name + " bytes " + hex(bytes, 2000);
                try
                {
                    size_t n = typed(a.get(), [&](auto& x) { return ser.deserialize(x); });
                    ctx.check(n == first, "skip-size", [&] { return what + ": first object has " + std::to_string(first) + " bytes, decoder used " + std::to_string(n); });
                    std::string why;
                    ctx.check(decodedOk(*t->def, readRec(a.get()), rec, before, why), "skip-value", [&] { return what + ": " + why; });
                    ser.deserialize(b.get());
                    ctx.check(ser.inputAvailable() == 0, "skip-size", [&] { return what + ": " + std::to_string(ser.inputAvailable()) + " bytes left over"; });
                    ctx.check(decodedOk(*t->def, readRec(b.get()), next, before, why), "skip-value", [&] { return what + ": following object: " + why; });
                    ctx.count("decodes", 2);
                }
                catch (const std::exception& e) { ctx.viol("skip-error", what + ": " + e.what()); }
            }

            // (b) two versions of a type: each reads what the library wrote for the other
            TypeGen gen;
            gen.prefix = "N";
            TypeGenOpts tg;
            tg.maxProps = 14;
            auto full = gen.makeStruct(r, tg);
            Cutter cutter{ r, {}, {} };
            auto old = cutter.cut(full);
            auto regFull = freshRegistry(), regOld = freshRegistry();
            auto& dFull = buildTypes(*regFull, gen.types);
            auto& dOld = buildTypes(*regOld, cutter.order);
            CborSerializer ser;
            std::vector<Rec> recs;
            for (int i = 0; i < 3; ++i)
            {
                recs.push_back(genRec(r, *full, genOpts(r)));
                ser.serialize(makeAny(dFull, recs.back()).get(), dots::property_set_t::All);
            }
            Bytes all = exact(ser.output());
            CborSerializer des;
            des.setInput(all);
            try
            {
                for (int i = 0; i < 3; ++i)
                {
                    dt::AnyStruct a{ dOld };
                    des.deserialize(a.get());
                    Rec want = projectRec(*old, recs[static_cast<size_t>(i)]), got = readRec(a.get());
                    ctx.check(got == want, "version-value", [&] { return "new " + show(recs[static_cast<size_t>(i)]) + " read by old as " + show(got) + ", expected " + show(want) + " bytes " + hex(all, 2000); });
                }
                ctx.check(des.inputAvailable() == 0, "version-size", [&] { return "input left over: " + hex(all, 2000); });
                // and the other direction: the receiver keeps what the sender does not know
                Rec sent = projectRec(*old, recs[0]);
                Bytes ob = exact(CborSerializer::Serialize(makeAny(dOld, sent).get(), dots::property_set_t::All));
                dt::AnyStruct a = makeAny(dFull, recs[1]);
                CborSerializer::Deserialize(ob, a.get());
                std::string why;
                ctx.check(decodedOk(*full, readRec(a.get()), sent, recs[1], why), "version-keep", [&] { return why; });
                ctx.count("version_pairs");
            }
            catch (const std::exception& e) { ctx.viol("version-error", std::string{ e.what() } + " bytes " + hex(all, 2000)); }
        }
    }
}

int main(int argc, char** argv)
{
    return driverMain(argc, argv, { { "S01", s01 }, { "S03", s03 } });
}
