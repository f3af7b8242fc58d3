// Publish/subscribe over real connections: random exchanges between a host, clients of the library and clients of the harness.
#include "net/world.h"
#include "core/textref.h"

using namespace vf;

namespace
{
    WorldOpts someTransports(Rng& r, bool noWs = false)
    {
        WorldOpts o;
        std::vector<Tr> all{ Tr::Tcp2, Tr::Tcp2, Tr::Tcp1, Tr::Uds2, Tr::Uds1, Tr::Local };
        if (!noWs) all.push_back(Tr::Ws);
        o.transports.clear();
        size_t n = 1 + r.below(3);
        for (size_t i = 0; i < n; ++i)
        {
            Tr t = r.pick(all);
            if (std::find(o.transports.begin(), o.transports.end(), t) == o.transports.end()) o.transports.push_back(t);
        }
        return o;
    }
    struct Weights { int publish = 40, join = 12, leave = 4, hostPublish = 6, add = 6, end = 4, echo = 3, describe = 3, clear = 2, drain = 4, steps = 30, refuse = 0; };

    // ---- publications that have to be refused --------------------------------------------------------------------------
    struct Wrong { const TypeDef* type = nullptr; std::vector<TypePtr> all; Rec rec; uint32_t included = 0; bool remove = false; std::string what; };

    Wrong wrongPublication(World& w, bool uncachedRemoval)
    {
        Rng& r = w.r;
        Wrong x;
        std::vector<size_t> keyed, uncached;
        for (size_t i = 0; i < w.types.size(); ++i)
        {
            if (w.types[i].def->keyMask()) keyed.push_back(i);
            if (!w.types[i].def->cached) uncached.push_back(i);
        }
        size_t kind = r.below(3);
        if (kind == 0 && keyed.empty()) kind = 1;
        if (kind == 2 && !uncachedRemoval) kind = 1;
        if (kind == 0)
        {
            size_t t = r.pick(keyed);
            SentPub p = w.generate(t, true);
            x.type = w.types[t].def.get();
            x.all = w.types[t].all;
            std::vector<uint32_t> keys;
            for (auto& pd : x.type->props) if (pd.key) keys.push_back(pd.tag);
            r.shuffle(keys);
            x.rec = p.rec;
            for (size_t i = 0, n = 1 + r.below(keys.size()); i < n; ++i) x.rec.erase(keys[i]);
            x.remove = p.remove;
            x.included = r.coin() ? p.included : maskOf(x.rec);
            x.what = "object without all keys";
        }
        else if (kind == 1)
        {
            TypePtr t = defOf(staticType("VEmbed"));
            if (r.chance(30))
            {
                TypeGen gen;
                gen.prefix = "Emb" + std::to_string(w.nextName++) + "x";
                TypeGenOpts to;
                to.maxProps = 5;
                to.keyless = true;
                t = gen.makeStruct(r, to);
                t->cached = r.chance(70);
                t->cleanup = false;
                t->substructOnly = true;
                x.all = gen.types;
            }
            else collectTypes(t, x.all);
            x.type = t.get();
            GenOpts go = w.types[0].go;
            x.rec = genRec(r, *t, go, t->keyMask());
            x.included = maskOf(x.rec);
            x.remove = t->cached && r.chance(20);
            x.what = "object of a type that is only embedded";
        }
        else
        {
            if (!uncached.empty())
            {
                size_t t = r.pick(uncached);
                SentPub p = w.generate(t, true);
                x.type = w.types[t].def.get();
                x.all = w.types[t].all;
                x.rec = p.rec;
                x.included = p.included;
            }
            else
            {
                TypePtr t = defOf(staticType("VEvent"));
                collectTypes(t, x.all);
                x.type = t.get();
                x.rec = genRec(r, *t, w.types[0].go, t->keyMask());
                x.included = maskOf(x.rec);
            }
            x.remove = true;
            x.what = "removal of an uncached object";
        }
        return x;
    }
    // the interfaces refuse it without any effect; the host would refuse all of it, clients let the host refuse the removal
    void refusedByInterface(World& w)
    {
        Rng& r = w.r;
        std::vector<GuestClient*> guests;
        for (auto& c : w.clients) if (auto* g = dynamic_cast<GuestClient*>(c.get()); g && g->guest) guests.push_back(g);
        bool byHost = guests.empty() || r.chance(40);
        GuestClient* g = byHost ? nullptr : r.pick(guests);
        dots::Transceiver& t = byHost ? static_cast<dots::Transceiver&>(*w.host) : *g->guest;
        Wrong x = wrongPublication(w, byHost);
        if (x.remove && !x.type->cached && !byHost) return;
        bool unconnected = g && g->closedSeen && r.coin();
        if (unconnected)
        {
            size_t type = r.below(w.types.size());
            g->define(type);
            SentPub p = w.generate(type, false);
            x = Wrong{ w.types[type].def.get(), w.types[type].all, p.rec, p.included, p.remove, "object without a connection" };
        }
        else if (g && (g->closing || !g->connectedSeen)) {}
        if (!t.registry().findStructType(x.type->name)) buildTypes(t.registry(), x.all);
        auto* d = t.registry().findStructType(x.type->name);
        auto any = makeAny(*d, x.rec);
        size_t before = w.accepted;
        bool thrown = false;
        try
        {
            if (x.remove && r.coin()) t.remove(any);
            else if (r.coin()) t.publish(any, std::nullopt, x.remove);
            else t.publish(any, dots::property_set_t{ x.included }, x.remove);
        }
        catch (const std::exception&) { thrown = true; }
        w.say((g ? g->name : std::string{ "host" }) + " is refused an " + x.what);
        w.check(thrown && w.accepted == before, "B07:accepted-by-interface", [&]{ return (g ? g->describe() : std::string{ "host" }) + ": " + x.what + " " + x.type->name + (x.remove ? " remove " : " ") + show(x.rec) + (thrown ? " had an effect" : " was not refused"); });
        w.ctx.count("refused_by_interface");
        w.ctx.count("refused: " + x.what);
    }
    void refuse(World& w, Client* c, bool mayEnd)
    {
        Rng& r = w.r;
        if (!c || !mayEnd || r.chance(35)) return refusedByInterface(w);
        if (auto* g = dynamic_cast<GuestClient*>(c))
        {
            std::vector<size_t> uncached;
            for (size_t i = 0; i < w.types.size(); ++i) if (!w.types[i].def->cached) uncached.push_back(i);
            if (uncached.empty()) return;
            size_t type = r.pick(uncached);
            g->define(type);
            SentPub p = w.generate(type, false);
            w.say(g->name + " removes an uncached " + w.types[type].def->name);
            g->expectRefusal = g->closing = true;
            g->over(true);
            auto any = makeAny(*g->descriptor(type), p.full);
            try { if (r.coin()) g->guest->remove(any); else g->guest->publish(any, std::nullopt, true); }
            catch (const std::exception&) {}
            w.ctx.count("refused_by_host");
            w.ctx.count("refused: removal of an uncached object");
            return;
        }
        auto* raw = static_cast<RawClient*>(c);
        Wrong x = wrongPublication(w, true);
        std::vector<TypePtr> missing;
        for (auto& t : x.all) if (!t->internal && !raw->wire.known.count(t->name)) { missing.push_back(t); raw->wire.known[t->name] = t; }
        ::vf::describe(missing, [&](const TypeDef& t, Rec rec) { raw->send(t.name.c_str(), std::move(rec)); });
        w.say(raw->name + " publishes an " + x.what + " " + x.type->name + " " + show(x.rec).substr(0, 100));
        Rec h{ { hdr::typeName, Val::ofStr(x.type->name) }, { hdr::attributes, psVal(x.included) } };
        if (x.remove || r.coin()) h[hdr::removeObj] = boolVal(x.remove);
        raw->sendRaw(*x.type, h, x.rec);
        raw->expectRefusal = raw->closing = true;
        raw->expectError = true;
        raw->over(true);
        // whatever follows it is not processed any more
        if (r.coin()) for (size_t i = 0, n = 1 + r.below(4); i < n; ++i)
        {
            raw->expectError = false;
            size_t type = r.below(w.types.size());
            SentPub p = w.generate(type, true);
            if (r.chance(20)) { raw->send("DotsEcho", Rec{ { 1, boolVal(true) }, { 2, u32Val(99) } }); continue; }
            raw->tell(type);
            raw->sendRaw(*w.types[type].def, Rec{ { hdr::typeName, Val::ofStr(w.types[type].def->name) }, { hdr::attributes, psVal(p.included) }, { hdr::removeObj, boolVal(p.remove) } }, p.rec);
        }
        w.ctx.count("refused_by_host");
        w.ctx.count("refused: " + x.what);
    }
    void judgeRefusal(World& w, Client& c)
    {
        auto* raw = dynamic_cast<RawClient*>(&c);
        auto* g = dynamic_cast<GuestClient*>(&c);
        w.check(c.closedAtHost, "B07:not-closed", [&]{ return c.describe(); });
        w.check(c.accepted == c.sent.size(), "B07:earlier-publication-lost", [&]{ return c.describe() + ": " + std::to_string(c.accepted) + " of " + std::to_string(c.sent.size()); });
        w.pumpUntil([&]{ return raw ? raw->state == 5 : g->closedSeen; });
        w.check(raw ? raw->state == 5 : g->closedSeen, "B07:not-closed", [&]{ return c.describe() + " still has its connection"; });
        if (raw && raw->expectError) { w.check(raw->error && raw->error->first != 0, "B07:no-error-told", [&]{ return c.describe() + (raw->error ? ": code " + std::to_string(raw->error->first) : ""); }); w.ctx.count("errors_told"); }
    }

    void op(World& w, const Weights& k)
    {
        Rng& r = w.r;
        auto ready = w.readyClients();
        int total = k.publish + k.join + k.leave + k.hostPublish + k.add + k.end + k.echo + k.describe + k.clear + k.drain + k.steps + k.refuse;
        int x = static_cast<int>(r.below(static_cast<uint64_t>(total)));
        auto take = [&](int n) { bool hit = x >= 0 && x < n; x -= n; return hit; };
        size_t type = r.below(w.types.size());
        Client* c = ready.empty() ? nullptr : r.pick(ready);
        auto* raw = dynamic_cast<RawClient*>(c);
        auto* guest = dynamic_cast<GuestClient*>(c);
        if (take(k.publish))
        {
            if (!c) return w.steps(5);
            for (size_t n = r.chance(80) ? 1 : 1 + r.below(10); n > 0; --n)
            {
                if (guest) guest->define(type);
                c->publish(type, w.generate(type, raw != nullptr), r);
                if (r.chance(20)) w.step();
                if (!c->ready()) break;
            }
        }
        else if (take(k.join))
        {
            if (!c) return w.steps(5);
            auto it = c->current.find(type);
            if (it != c->current.end() && it->second && (it->second->hLeaveSent || !raw || r.chance(70))) return;
            // whether the host will answer is not known: another answer for the same type would be ambiguous
            for (auto& e : c->replies) if (e.kind == 1 && e.type == type && e.optional) return;
            c->join(type);
        }
        else if (take(k.leave)) { if (raw) { auto it = raw->current.find(type); bool member = it != raw->current.end() && it->second; if (member ? !it->second->hLeaveSent : r.chance(10)) raw->leave(type); } }
        else if (take(k.hostPublish)) w.hostPublish(type);
        else if (take(k.add)) { if (w.clients.size() < 9) w.addClient(r.coin(), r.pick(w.o.transports)); }
        else if (take(k.end)) { if (c && ready.size() > 1) c->end(static_cast<int>(r.below(4))); }
        else if (take(k.echo)) { if (c) c->echo(r.coin() ? "" : "x" + std::to_string(r.below(100))); }
        else if (take(k.describe))
        {
            if (!raw) return;
            std::vector<std::string> white, black, names = w.hostTypesNow();
            names.push_back("NoSuchType");
            if (r.coin()) for (size_t i = 0; i < 1 + r.below(3); ++i) white.push_back(r.pick(names));
            if (r.coin()) for (size_t i = 0; i < 1 + r.below(3); ++i) black.push_back(r.pick(names));
            raw->requestDescriptors(white, black);
        }
        else if (take(k.clear))
        {
            if (!raw) return;
            std::vector<std::string> names;
            for (size_t i = 0; i < r.below(3); ++i) names.push_back(r.chance(90) ? r.pick(w.types).def->name : "NoSuchType");
            raw->clearCache(names);
        }
        else if (take(k.drain)) { if (r.coin()) w.checkpoint(); else w.drain(); }
        else if (take(k.refuse)) refuse(w, c, ready.size() > 1);
        else w.steps(r.below(60));
    }

    void mix_(Ctx& ctx, Rng& r, WorldOpts o, Weights k, size_t steps)
    {
        World w{ ctx, r, std::move(o) };
        w.any = ctx.prop == "B07";
        w.addTypes();
        if (!w.startHost()) { ctx.count("hosts_not_started"); return; }
        size_t n = 1 + r.below(4);
        for (size_t i = 0; i < n && !w.bad; ++i) w.addClient(r.coin(), r.pick(w.o.transports));
        if (r.chance(70)) w.drain();
        for (size_t i = 0; i < steps && !w.bad; ++i) op(w, k);
        w.finish();
        for (auto& c : w.clients) if (c->expectRefusal && !w.bad) judgeRefusal(w, *c);
    }
    void caseMix(Ctx& ctx, Rng& r)
    {
        WorldOpts o = someTransports(r);
        Weights k;
        if (ctx.prop == "B03" || ctx.prop == "B02") { k.join = 25; k.add = 10; }
        if (ctx.prop == "B04") { o.cleanupFocus = true; k.end = 14; k.add = 14; }
        if (ctx.prop == "B06") { k.echo = 15; k.describe = 15; k.clear = 6; }
        if (ctx.prop == "B07") { k.refuse = 14; k.add = 12; k.end = 2; }
        if (ctx.prop == "I02") o.dynamicPercent = 80;
        mix_(ctx, r, std::move(o), k, 20 + r.below(50));
    }
}

int main(int argc, char** argv)
{
    std::signal(SIGPIPE, SIG_IGN);
    return driverMain(argc, argv, {
        { "B01", caseMix }, { "B02", caseMix }, { "B03", caseMix }, { "B04", caseMix }, { "B05", caseMix }, { "B06", caseMix }, { "B07", caseMix }, { "I02", caseMix },
    });
}
