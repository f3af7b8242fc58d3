// T01: objects behave as records of optional values.
#include "core/types_pick.h"
#include "core/typed.h"

using namespace vf;

namespace
{
    struct Obj { std::unique_ptr<dt::AnyStruct> any; Rec model; };

    std::string S(uint32_t m) { char b[16]; std::snprintf(b, sizeof b, "%08x", m); return b; }
    dots::property_set_t PS(uint32_t m) { return dots::property_set_t{ m }; }
    uint32_t randomMask(Rng& r, const TypeDef& t)
    {
        switch (r.below(6))
        {
            case 0: return ~0u;
            case 1: return t.allMask();
            case 2: return t.keyMask();
            case 3: return t.props.empty() ? 0 : 1u << t.props[r.below(t.props.size())].tag;
            default: return static_cast<uint32_t>(r.next());
        }
    }
    void mergeModel(const TypeDef& t, Rec& a, const Rec& b, uint32_t mask)
    {
        for (auto& [tag, v] : b)
        {
            if (!(mask & (1u << tag))) continue;
            if (v.kind == Kind::Struct)
            {
                auto& dst = a[tag];
                dst.kind = Kind::Struct;
                mergeModel(*t.find(tag)->shape.def, dst.rec, v.rec, ~0u);
            }
            else a[tag] = v;
        }
    }
    template <typename F>
    void pair(dt::Struct& a, dt::Struct& b, bool asTyped, F&& f)
    {
        if (asTyped) typed(a, [&](auto& x) { f(x, b._to<std::decay_t<decltype(x)>>()); });
        else f(a, b);
    }
    // a heap object of the compiled or the run-time type itself, outside of an AnyStruct
    template <typename F>
    void concrete(dt::Struct& a, F&& f)
    {
        using namespace dots::types;
        if (a._descriptor().template as<dt::Descriptor<dt::DynamicStruct>>() != nullptr) f(static_cast<dt::DynamicStruct&>(a));
        else if (a._is<VAll>()) f(a._to<VAll>());
        else if (a._is<VVec>()) f(a._to<VVec>());
        else if (a._is<VMulti>()) f(a._to<VMulti>());
        else if (a._is<VDeep>()) f(a._to<VDeep>());
        else if (a._is<VKeyObj>()) f(a._to<VKeyObj>());
    }

    void propertySets(Ctx& ctx, Rng& r)
    {
        for (int i = 0; i < 20; ++i)
        {
            auto gen = [&]() -> uint32_t { switch (r.below(5)) { case 0: return 0; case 1: return ~0u; case 2: return 1u << r.below(32); default: return static_cast<uint32_t>(r.coin() ? r.next() : r.next() & r.next() & r.next()); } };
            uint32_t a = gen(), b = r.chance(20) ? a : r.chance(20) ? a & gen() : gen();
            auto A = PS(a), B = PS(b);
            auto ck = [&](bool ok, const char* op) { ctx.check(ok, std::string{ "set-algebra:" } + op, [&] { return std::string{ op } + " of " + S(a) + " and " + S(b); }); };
            ck((A + B).toValue() == (a | b), "union");
            ck((A - B).toValue() == (a & ~b), "difference");
            ck((A ^ B).toValue() == (a & b) && A.intersection(B).toValue() == (a & b), "intersection");
            ck(A.symmetricDifference(B).toValue() == (a ^ b), "symmetric-difference");
            ck((~A).toValue() == ~a, "complement");
            { auto x = A; x += B; ck(x.toValue() == (a | b), "add"); x = A; x -= B; ck(x.toValue() == (a & ~b), "subtract"); x = A; x ^= B; ck(x.toValue() == (a & b), "intersect"); x = A; x.intersect(B); ck(x.toValue() == (a & b), "intersect"); x = A; x.symmetricSubtract(B); ck(x.toValue() == (a ^ b), "symmetric-subtract"); }
            ck((A == B) == (a == b) && (A != B) == (a != b), "equal");
            ck((A <= B) == ((a & ~b) == 0) && (A >= B) == ((b & ~a) == 0), "subset");
            ck((A < B) == ((a & ~b) == 0 && a != b) && (A > B) == ((b & ~a) == 0 && a != b), "strict-subset");
            ck(A.empty() == (a == 0) && static_cast<bool>(A) == (a != 0), "empty");
            ck(A.count() == static_cast<size_t>(__builtin_popcount(a)), "count");
            uint32_t i1 = static_cast<uint32_t>(r.below(32));
            ck(dots::property_set_t::FromIndex(i1).toValue() == 1u << i1, "from-index");
            if (a >> i1) ck(A.firstValid(i1) == i1 + static_cast<uint32_t>(__builtin_ctz(a >> i1)), "first-valid");
            if (uint32_t low = a & (~0u >> (31 - i1))) ck(A.lastValid(i1) == 31u - static_cast<uint32_t>(__builtin_clz(low)), "last-valid");
            std::string bits;
            for (int k = 31; k >= 0; --k) bits += a >> k & 1 ? '1' : '0';
            ck(A.toString() == bits, "to-string");
            ck(dots::property_set_t{ dots::property_set_t::All }.toValue() == ~0u && dots::property_set_t{ dots::property_set_t::None }.toValue() == 0, "all-none");
            ctx.distinct("sets", mix(a) ^ b);
        }
    }

    struct Session
    {
        Ctx& ctx;
        Rng& r;
        std::shared_ptr<TypeUnderTest> t;
        const dt::StructDescriptor* desc;
        std::vector<Obj> objs;
        std::string trail;

        bool verify(const std::string& op)
        {
            bool ok = true;
            for (size_t i = 0; i < objs.size(); ++i)
            {
                Rec got = readRec(objs[i].any->get());
                ok &= ctx.check(got == objs[i].model, "record:" + op, [&] { return t->def->name + ": after" + trail + " object " + std::to_string(i) + " is " + show(got) + ", expected " + show(objs[i].model); });
                if (!ok) objs[i].model = got;
            }
            return ok;
        }
        void compare(size_t i, size_t j)
        {
            uint32_t m = randomMask(r, *t->def);
            const TypeDef& d = *t->def;
            const Rec &a = objs[i].model, &b = objs[j].model;
            if (hasNan(a) || hasNan(b))
                return; // not ordered
            bool lt = recLt(d, a, b, m), gt = recLt(d, b, a, m), eq = recEq(d, a, b, m);
            bool asTyped = r.coin();
            pair(objs[i].any->get(), objs[j].any->get(), asTyped, [&](auto& x_, auto& y_)
            {
                const auto& x = x_;
                const auto& y = y_;
                auto ck = [&](bool ok, const char* op) { ctx.check(ok, std::string{ "compare:" } + op, [&] { return d.name + (asTyped ? " typed " : " ") + op + " with " + S(m) + " of " + show(a) + " and " + show(b); }); };
                ck(x._equal(y, PS(m)) == eq, "equal");
                ck(x._less(y, PS(m)) == lt, "less");
                ck(x._greater(y, PS(m)) == gt, "greater");
                ck(x._lessEqual(y, PS(m)) == !gt, "less-equal");
                ck(x._greaterEqual(y, PS(m)) == !lt, "greater-equal");
                ck(x._same(y) == recEq(d, a, b, d.keyMask()), "same-key");
                uint32_t diff = 0;
                for (auto& p : d.props) if (!recEq(d, a, b, 1u << p.tag)) diff |= 1u << p.tag;
                ck(x._diffProperties(y, PS(m)).toValue() == (diff & m), "difference-set");
                bool all = recEq(d, a, b), ltAll = recLt(d, a, b), gtAll = recLt(d, b, a);
                ck((x == y) == all && (x != y) == !all, "operator-equal");
                ck((x < y) == ltAll && (x > y) == gtAll && (x <= y) == !gtAll && (x >= y) == !ltAll, "operator-less");
                ck(x._validProperties().toValue() == maskOf(a), "valid-set");
                ck(x._keyProperties().toValue() == d.keyMask() && x._properties().toValue() == d.allMask(), "key-set");
                uint32_t h = randomMask(r, d) & d.allMask();
                ck(x._hasProperties(PS(h)) == ((h & ~maskOf(a)) == 0) , "has-properties");
            });
            ctx.count(eq ? "compared_equal" : "compared_different");
            if (lt != gt) ctx.count("ordered");
        }
        // every way to walk over the properties sees each selected one once
        void iterate(size_t i)
        {
            uint32_t m = randomMask(r, *t->def);
            auto& s = objs[i].any->get();
            const auto& cs = s;
            const Rec& a = objs[i].model;
            std::vector<uint32_t> want, wantValid;
            for (auto& p : t->def->props) if (m & (1u << p.tag)) { want.push_back(p.tag); if (a.count(p.tag)) wantValid.push_back(p.tag); }
            auto walk = [&](auto&& range)
            {
                std::vector<uint32_t> seen;
                for (auto& p : range)
                {
                    seen.push_back(p.descriptor().tag());
                    if (p.isValid() != (a.count(p.descriptor().tag()) > 0)) seen.push_back(1000);
                    else if (p.isValid() && !(readVal(*p, p.descriptor().valueDescriptor()) == a.at(p.descriptor().tag()))) seen.push_back(2000);
                    if (seen.size() > 200) break;
                }
                return seen;
            };
            auto ck = [&](const std::vector<uint32_t>& seen, const std::vector<uint32_t>& w, const char* op)
            {
                ctx.check(seen == w, std::string{ "iterate:" } + op, [&] { std::string x = t->def->name + " with " + S(m) + ": visited"; for (auto v : seen) x += " " + std::to_string(v); x += ", expected"; for (auto v : w) x += " " + std::to_string(v); return x; });
            };
            auto rev = [](std::vector<uint32_t> v) { std::reverse(v.begin(), v.end()); return v; };
            ck(walk(s._propertyRange(PS(m))), want, "range");
            ck(walk(cs._propertyRange(PS(m))), want, "const-range");
            ck(walk(s._validPropertyRange(PS(m))), wantValid, "valid-range");
            ck(walk(s._propertyRangeReversed(PS(m))), rev(want), "reversed");
            ck(walk(cs._validPropertyRangeReversed(PS(m))), rev(wantValid), "valid-reversed");
            for (auto& p : t->def->props)
            {
                auto f = s._find(p.tag);
                ctx.check(f != s._end() && f->descriptor().name() == p.name && f->isValid() == (a.count(p.tag) > 0), "find-tag", [&] { return t->def->name + "." + p.name; });
                auto g = s._find(std::string_view{ p.name });
                ctx.check(g != s._end() && g->descriptor().tag() == p.tag, "find-name", [&] { return t->def->name + "." + p.name; });
            }
            ctx.check(s._find(std::string_view{ "no such property" }) == s._end(), "find-name", [&] { return t->def->name; });
        }
        void walkPath(size_t i, const TypeDef& d, Rec& rec, const std::string& prefix, int depth)
        {
            if (d.props.empty()) return;
            auto& p = d.props[r.below(d.props.size())];
            std::string path = prefix + p.name;
            auto& s = objs[i].any->get();
            if (p.shape.kind == Kind::Struct && depth < 3 && r.chance(80))
            {
                bool was = rec.count(p.tag);
                auto& v = rec[p.tag];
                v.kind = Kind::Struct;
                if (!was) ctx.count("emplaced_parents");
                walkPath(i, *p.shape.def, v.rec, path + ".", depth + 1);
                return;
            }
            GenOpts go; go.maxVec = 3;
            auto prop = s._get(path);
            bool valid = rec.count(p.tag);
            ctx.check(prop.isValid() == valid, "path-valid", [&] { return t->def->name + ": " + path; });
            if (valid) ctx.check(readVal(*prop, prop.descriptor().valueDescriptor()) == rec[p.tag], "path-value", [&] { return t->def->name + ": " + path; });
            if (p.shape.kind == Kind::Struct || p.shape.kind == Kind::Vec || p.shape.kind == Kind::Bool || r.chance(20))
            {
                // (writing a nested path creates its parents)
                if (valid && r.coin()) { prop.reset(); rec.erase(p.tag); }
                else { if (!valid) { prop.emplace(); rec[p.tag] = readVal(prop.storage(), prop.descriptor().valueDescriptor()); } }
            }
            else
            {
                Val v = genVal(r, p.shape, go);
                withCpp(v, [&](auto&& x) { prop.emplace(dt::Typeless::From(std::as_const(x))); });
                rec[p.tag] = v;
            }
            ctx.count("path_writes");
        }
        void typedProps(size_t i, size_t j)
        {
            using namespace dots::types;
            auto* x = objs[i].any->get()._is<VAll>() ? &objs[i].any->get()._to<VAll>() : nullptr;
            if (!x || i == j) return;
            auto& y = objs[j].any->get()._to<VAll>();
            Rec &a = objs[i].model, &b = objs[j].model;
            auto set = [](Rec& to, uint32_t tag, const Rec& from) { auto it = from.find(tag); if (it == from.end()) to.erase(tag); else to[tag] = it->second; };
            ctx.count("typed_property_ops");
            switch (r.below(9))
            {
                case 0: x->str = y.str; set(a, 18, b); break;
                case 1: x->str = std::move(y.str); set(a, 18, b); b.erase(18); break;
                case 2: { x->str.swap(y.str); Rec a0 = a; set(a, 18, b); set(b, 18, a0); break; }
                case 3: { auto s = x->str.valueOrDefault("a default that is longer than fifteen"); ctx.check(s == (a.count(18) ? a[18].s : "a default that is longer than fifteen"), "value-or-default", [&] { return s; }); break; }
                case 4: { x->deep = y.deep; set(a, 22, b); break; }
                case 5: { x->sub.valueOrEmplace().s = "a text that is longer than fifteen"; auto& v = a[21]; v.kind = Kind::Struct; v.rec[2] = Val::ofStr("a text that is longer than fifteen"); break; }
                case 6: { x->sub.swap(y.sub); Rec a0 = a; set(a, 21, b); set(b, 21, a0); break; }
                case 7: { bool threw = false; try { (void)x->uid.value(); } catch (const std::exception&) { threw = true; } ctx.check(threw == !a.count(17), "value-of-unset", [&] { return show(a); }); break; }
                default: { x->i8 = y.i8; x->tp = dots::invalid; x->f64.emplace(1.5); x->en = VEnum::blue; set(a, 3, b); a.erase(14); a[12] = Val::ofDouble(Kind::F64, 1.5); a[19] = Val::ofInt(Kind::Enum, 5); }
            }
        }

        void step()
        {
            size_t i = r.below(objs.size()), j = r.below(objs.size());
            auto &A = objs[i].any->get(), &B = objs[j].any->get();
            Rec &a = objs[i].model, &b = objs[j].model;
            const TypeDef& d = *t->def;
            uint32_t m = randomMask(r, d);
            bool asTyped = r.coin();
            uint64_t op = r.below(17);
            static const char* names[] = { "assign", "move-assign", "copy", "merge", "swap", "clear", "set", "reset", "copy-construct", "move-construct", "copy-any", "move-any", "path", "typed-property", "vector-element", "describe", "concrete" };
            trail += std::string{ " " } + names[op] + (asTyped ? "/t" : "") + "(" + std::to_string(i) + "," + std::to_string(j) + "," + S(m) + ")";
            if (trail.size() > 700) trail = "..." + trail.substr(trail.size() - 500);
            ctx.note(std::string{ names[op] } + " " + d.name + trail);
            ctx.count(std::string{ "op_" } + names[op]);
            GenOpts go;
            go.bigPercent = 1; go.bigSize = 2000;
            switch (op)
            {
                case 0: pair(A, B, asTyped, [&](auto& x, auto& y) { x._assign(std::as_const(y), PS(m)); }); a = select(Rec{ b }, m); break;
                case 1:
                {
                    if (i == j) break;
                    pair(A, B, asTyped, [&](auto& x, auto& y) { x._assign(std::move(y), PS(m)); });
                    a = select(b, m);
                    // what was selected may have any value after it was moved from; nothing else changes
                    Rec now = readRec(B), keep;
                    for (auto& [tag, v] : b) if (!(m & (1u << tag))) keep[tag] = v;
                    for (auto& [tag, v] : now) if (m & (1u << tag)) keep[tag] = v;
                    b = keep;
                    break;
                }
                case 2:
                    pair(A, B, asTyped, [&](auto& x, auto& y) { x._copy(std::as_const(y), PS(m)); });
                    { Rec c = b; for (auto& p : d.props) if (m & (1u << p.tag)) { auto it = c.find(p.tag); if (it == c.end()) a.erase(p.tag); else a[p.tag] = it->second; } }
                    break;
                case 3: pair(A, B, asTyped, [&](auto& x, auto& y) { x._merge(std::as_const(y), PS(m)); }); { Rec c = b; mergeModel(d, a, c, m); } break;
                case 4:
                    if (i == j) break;
                    pair(A, B, asTyped, [&](auto& x, auto& y) { x._swap(y, PS(m)); });
                    for (auto& p : d.props) if (m & (1u << p.tag))
                    {
                        auto ia = a.find(p.tag), ib = b.find(p.tag);
                        if (ia != a.end() && ib != b.end()) std::swap(ia->second, ib->second);
                        else if (ia != a.end()) { b[p.tag] = ia->second; a.erase(ia); }
                        else if (ib != b.end()) { a[p.tag] = ib->second; b.erase(ib); }
                    }
                    break;
                case 5: if (asTyped) typed(A, [&](auto& x) { x._clear(PS(m)); }); else A._clear(PS(m)); a = select(a, ~m); break;
                case 6: { auto& pd = A._descriptor().propertyDescriptors(); auto& p = pd[r.below(pd.size())]; Val v = genVal(r, d.find(p.tag())->shape, go); writeProp(A, p, v); a[p.tag()] = v; break; }
                case 7: { auto& pd = A._descriptor().propertyDescriptors(); auto& p = pd[r.below(pd.size())]; dt::ProxyProperty<>{ A._propertyArea(), p }.reset(); a.erase(p.tag()); break; }
                case 8: { auto c = std::make_unique<dt::AnyStruct>(r.coin() ? dt::AnyStruct{ *objs[j].any } : dt::AnyStruct{ B }); Rec mb = b; objs[i].any = std::move(c); a = mb; break; }
                case 9: { if (i == j) break; auto c = std::make_unique<dt::AnyStruct>(std::move(*objs[j].any)); Rec mb = b; objs[j].any = std::make_unique<dt::AnyStruct>(*desc); b.clear(); objs[i].any = std::move(c); a = mb; break; }
                case 10: { Rec mb = b; if (r.coin()) *objs[i].any = *objs[j].any; else *objs[i].any = B; a = mb; break; }
                case 11: { if (i == j) break; Rec mb = b; *objs[i].any = std::move(*objs[j].any); a = mb; objs[j].any = std::make_unique<dt::AnyStruct>(*desc); b.clear(); break; }
                case 12: walkPath(i, d, a, "", 0); break;
                case 13: typedProps(i, j); break;
                case 14:
                {
                    // one element of a list
                    for (auto& p : A._descriptor().propertyDescriptors())
                    {
                        auto it = a.find(p.tag());
                        if (it == a.end() || it->second.kind != Kind::Vec) continue;
                        auto& vd = static_cast<const dt::VectorDescriptor&>(p.valueDescriptor());
                        auto& vec = dt::ProxyProperty<>{ A._propertyArea(), p }.storage().to<dt::Vector<>>();
                        size_t n = r.below(6);
                        auto& items = it->second.items;
                        if (r.coin())
                        {
                            vd.resize(vec, n);
                            while (items.size() > n) items.pop_back();
                            for (size_t k = items.size(); k < n && k < vec.typelessSize(); ++k) items.push_back(readVal(vec.typelessAt(k), vd.valueDescriptor()));
                        }
                        else if (!items.empty()) { size_t k = r.below(items.size()); Val v = genVal(r, *d.find(p.tag())->shape.elem, go); writeVal(vec.typelessAt(k), vd.valueDescriptor(), v); items[k] = v; if (r.chance(30)) { auto c = items[0]; if (vec.typelessSize() == items.size()) { dt::AnyStruct copy{ A }; vec.typelessPushBack(dt::ProxyProperty<>{ copy->_propertyArea(), p }.storage().to<dt::Vector<>>().typelessAt(0)); items.push_back(c); } } }
                        break;
                    }
                    break;
                }
                case 15:
                {
                    // what the descriptor does with values of its type
                    if (i == j) break;
                    
                    auto &TA = dt::Typeless::From(A), &TB = dt::Typeless::From(B);
                    switch (r.below(5))
                    {
                        case 0: desc->assign(TA, std::as_const(TB)); a = b; break;
                        case 1: desc->swap(TA, TB); std::swap(a, b); break;
                        case 2: if (hasNan(a) || hasNan(b)) break; ctx.check(desc->equal(TA, TB) == recEq(d, a, b) && desc->less(TA, TB) == recLt(d, a, b), "descriptor-compare", [&] { return show(a) + " and " + show(b); }); break;
                        case 3: desc->assign(TA); a.clear(); break;
                        default: { desc->assign(TA, std::move(TB)); a = b; b = readRec(B); break; }
                    }
                    break;
                }
                default:
                    concrete(B, [&](auto& y)
                    {
                        using T = std::decay_t<decltype(y)>;
                        T c{ std::as_const(y) };
                        auto ck = [&](const dt::Struct& s, const Rec& w, const char* op2) { ctx.check(readRec(s) == w, std::string{ "concrete:" } + op2, [&] { return d.name + " " + op2 + ": " + show(readRec(s)) + ", expected " + show(w); }); };
                        ck(c, b, "copy");
                        T e{ std::move(c) };
                        ck(e, b, "move");
                        T f{ std::as_const(y) };
                        f._clear(PS(m));
                        ck(y, b, "source-after-copy");
                        f = e;
                        ck(f, b, "copy-assign");
                        ck(e, b, "source-after-assign");
                        T g{ e };
                        g._clear();
                        g = std::move(f);
                        ck(g, b, "move-assign");
                        c = g;          // a moved-from object takes new values
                        ck(c, b, "reuse-moved");
                        std::vector<T> v;
                        for (int k = 0; k < 3; ++k) v.push_back(e);
                        v.erase(v.begin());
                        ck(v.front(), b, "vector-erase");
                        std::swap(v[0], v[1]);
                        ck(v.front(), b, "std-swap");
                        ctx.count("concrete_objects");
                    });
            }
            verify(names[op]);
            ctx.distinct("object_states", hashRec(a, hashStr(d.name)));
        }
    };

    void t01(Ctx& ctx, Rng& r)
    {
        propertySets(ctx, r);
        for (int round = 0; round < 3; ++round)
        {
            auto t = pickType(r);
            Session s{ ctx, r, t, r.chance(70) ? t->desc : t->twin, {}, {} };
            GenOpts go;
            go.smallDomain = r.chance(40) ? 3 : 0;
            go.validPercent = static_cast<int>(30 + r.below(70));
            size_t n = 2 + r.below(4);
            for (size_t i = 0; i < n; ++i)
            {
                Obj o;
                o.model = i > 0 && r.chance(30) ? s.objs[0].model : genRec(r, *t->def, go);
                o.any = std::make_unique<dt::AnyStruct>(makeAny(*s.desc, o.model));
                s.objs.push_back(std::move(o));
            }
            if (ctx.wantSample()) ctx.sample(t->def->name + ": " + std::to_string(n) + " objects, the first " + show(s.objs[0].model));
            if (!s.verify("build")) continue;
            size_t steps = 10 + r.below(30);
            for (size_t k = 0; k < steps; ++k)
            {
                s.step();
                if (k % 2 == 0) s.compare(r.below(n), r.below(n));
                if (k % 5 == 0) s.iterate(r.below(n));
            }
        }
    }
}

int main(int argc, char** argv)
{
    return driverMain(argc, argv, { { "T01", t01 } });
}
