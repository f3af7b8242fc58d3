// The harness' model of a cache: objects as the fold of the publications of one type.
#pragma once
#include "types_pick.h"
#include <DotsHeader.dots.h>
#include <DotsCloneInformation.dots.h>
#include <dots/Container.h>

namespace vf
{
    struct KeyLess
    {
        const TypeDef* t;
        bool operator()(const Rec& a, const Rec& b) const
        {
            for (auto& p : t->props)
            {
                if (!p.key) continue;
                auto& va = a.at(p.tag);
                auto& vb = b.at(p.tag);
                if (keyLt(p.shape, va, vb)) return true;
                if (keyLt(p.shape, vb, va)) return false;
            }
            return false;
        }
        // any total order that tells apart what is not equal
        static bool keyLt(const Shape& s, const Val& a, const Val& b)
        {
            if (s.kind == Kind::PSet) return a.u < b.u;
            if (s.kind == Kind::Struct)
            {
                for (auto& p : s.def->props)
                {
                    auto ia = a.rec.find(p.tag), ib = b.rec.find(p.tag);
                    bool va = ia != a.rec.end(), vb = ib != b.rec.end();
                    if (va != vb) return vb;
                    if (!va) continue;
                    if (keyLt(p.shape, ia->second, ib->second)) return true;
                    if (keyLt(p.shape, ib->second, ia->second)) return false;
                }
                return false;
            }
            return valLt(s, a, b);
        }
    };
    struct Info { int op = 0; uint32_t last = 0, creator = 0; double created = 0, modified = 0; };
    struct Obj { Rec rec; Info info; };
    using Model = std::map<Rec, Obj, KeyLess>;

    struct Pub { Rec rec; uint32_t included; bool remove; uint32_t sender; double sent; };

    // what the model says about a publication: the operation (0: none), applied to the model
    inline int fold(const TypeDef& t, Model& m, const Pub& p, Obj* out)
    {
        Rec key = select(p.rec, t.keyMask());
        auto it = m.find(key);
        uint32_t nonKey = t.allMask() & ~t.keyMask();
        int op;
        if (p.remove)
        {
            if (it == m.end()) return 0;
            op = 3;
        }
        else if (it == m.end())
        {
            it = m.emplace(key, Obj{ select(p.rec, p.included | t.keyMask()), {} }).first;
            it->second.info.creator = p.sender;
            it->second.info.created = p.sent;
            op = 1;
        }
        else op = 2;
        Obj& o = it->second;
        if (op != 1)
        {
            for (auto& pd : t.props)
            {
                if (!(nonKey & p.included & (1u << pd.tag))) continue;
                o.rec.erase(pd.tag);
                if (auto v = p.rec.find(pd.tag); v != p.rec.end()) o.rec.emplace(pd.tag, v->second);
            }
        }
        o.info.op = op;
        o.info.last = p.sender;
        o.info.modified = p.sent;
        if (out) *out = o;
        if (op == 3) m.erase(it);
        return op;
    }

    inline dots::types::DotsHeader headerOf(const TypeDef& t, const Pub& p)
    {
        return dots::types::DotsHeader{
            .typeName = t.name,
            .sentTime = dots::timepoint_t{ dots::duration_t{ p.sent } },
            .attributes = dots::property_set_t{ p.included },
            .sender = p.sender,
            .removeObj = p.remove,
            .isFromMyself = false
        };
    }

    struct Source
    {
        std::shared_ptr<TypeUnderTest> type;
        GenOpts go;
        double clock = 1000;
        explicit Source(std::shared_ptr<TypeUnderTest> t) : type(std::move(t))
        {
            go.nan = false;
            go.smallDomain = 3;
            go.maxVec = 3;
        }
        Pub next(Rng& r, int removePercent = 20, bool anyExcluded = true)
        {
            const TypeDef& t = *type->def;
            Pub p;
            p.rec = genRec(r, t, go, t.keyMask());
            p.remove = r.chance(removePercent);
            uint32_t all = t.allMask();
            switch (r.below(4))
            {
                case 0: p.included = maskOf(p.rec); break;                    // the default of publish()
                case 1: p.included = all; break;
                case 2: p.included = static_cast<uint32_t>(r.next()) & all; break;
                default: p.included = p.remove ? t.keyMask() : static_cast<uint32_t>(r.next() & r.next()) & all; break;
            }
            p.included |= t.keyMask();
            if (!anyExcluded || r.coin()) p.rec = select(p.rec, p.included);  // as it arrives from a peer
            p.sender = static_cast<uint32_t>(1 + r.below(5));
            clock += static_cast<double>(r.below(4)) / 4.0;                   // publications may share a time
            p.sent = clock;
            return p;
        }
    };

    inline std::string showPub(const Pub& p)
    {
        return std::string{ p.remove ? "remove " : "publish " } + show(p.rec) + " included=" + std::to_string(p.included) + " sender=" + std::to_string(p.sender);
    }
    inline std::string showInfo(const Info& i)
    {
        return "op=" + std::to_string(i.op) + " last=" + std::to_string(i.last) + " creator=" + std::to_string(i.creator) + " created=" + std::to_string(i.created) + " modified=" + std::to_string(i.modified);
    }

    inline int opOf(dots::types::DotsMt mt)
    {
        return mt == dots::types::DotsMt::create ? 1 : mt == dots::types::DotsMt::update ? 2 : mt == dots::types::DotsMt::remove ? 3 : 0;
    }
    inline bool infoMatches(const dots::types::DotsCloneInformation& c, const Info& i, int op)
    {
        return c.lastOperation.isValid() && opOf(*c.lastOperation) == op
            && c.lastUpdateFrom.isValid() && *c.lastUpdateFrom == i.last
            && c.createdFrom.isValid() && *c.createdFrom == i.creator
            && c.created.isValid() && c.created->time_since_epoch().count() == i.created
            && c.modified.isValid() && c.modified->time_since_epoch().count() == i.modified;
    }
    inline std::string showClone(const dots::types::DotsCloneInformation& c)
    {
        return show(readRec(c));
    }

    inline bool compareAll(Ctx& ctx, Rng& r, const TypeUnderTest& tut, const dots::Container<>& c, const Model& m, const std::string& hist)
    {
        const TypeDef& t = *tut.def;
        bool ok = true;
        ok &= ctx.check(c.size() == m.size() && c.empty() == m.empty(), "container-size", [&]{ return t.name + ": " + std::to_string(c.size()) + " objects instead of " + std::to_string(m.size()) + hist; });
        std::set<const Rec*> seen;
        size_t n = 0;
        for (const auto& [inst, info] : c)
        {
            ++n;
            Rec rec = readRec(*inst);
            auto it = m.find(select(rec, t.keyMask()));
            if (!ctx.check(it != m.end() && seen.insert(&it->first).second, "container-foreign-object", [&]{ return t.name + ": holds " + show(rec) + hist; })) return false;
            ok &= ctx.check(recEq(t, rec, it->second.rec) && maskOf(rec) == maskOf(it->second.rec), "container-value", [&, it=it]{ return t.name + ": holds " + show(rec) + " instead of " + show(it->second.rec) + hist; });
            ok &= ctx.check(infoMatches(info, it->second.info, it->second.info.op), "clone-information", [&, it=it]{ return t.name + ": " + showClone(info) + " instead of " + showInfo(it->second.info) + hist; });
            if (!ok) return false;
        }
        ok &= ctx.check(n == m.size(), "container-iteration", [&]{ return t.name + hist; });
        size_t each = 0;
        c.forEach([&](const dt::Struct&){ ++each; });
        size_t eachClone = 0;
        c.forEachClone([&](const dots::Container<>::value_t&){ ++eachClone; });
        ok &= ctx.check(each == n && eachClone == n, "container-for-each", [&]{ return t.name + hist; });
        // lookups: by key only, whatever else the probe contains
        for (int i = 0; i < 3; ++i)
        {
            GenOpts go;
            go.nan = false;
            go.smallDomain = 3;
            Rec probe = genRec(r, t, go, t.keyMask());
            if (i == 0 && !m.empty())
            {
                auto it = m.begin();
                std::advance(it, static_cast<long>(r.below(m.size())));
                for (auto& [tag, v] : it->first) probe[tag] = v;
            }
            auto it = m.find(select(probe, t.keyMask()));
            auto any = makeAny(*tut.desc, probe);
            const dt::Struct* found = c.find(any);
            const auto* clone = c.findClone(any);
            ok &= ctx.check((found != nullptr) == (it != m.end()) && (clone != nullptr) == (it != m.end()), "container-find", [&]{ return t.name + ": find " + show(probe) + " gives " + (found ? show(readRec(*found)) : "nothing") + hist; });
            if (found && it != m.end())
            {
                ok &= ctx.check(recEq(t, readRec(*found), it->second.rec) && &clone->first.get() == found, "container-find-value", [&]{ return t.name + hist; });
            }
            bool threw = false;
            try { ok &= ctx.check(&c.get(any) == found, "container-get", [&]{ return t.name + hist; }); }
            catch (const std::logic_error&) { threw = true; }
            ok &= ctx.check(threw == (it == m.end()), "container-get-unknown", [&]{ return t.name + hist; });
        }
        return ok;
    }
}
