// D01 at the level of a transceiver: handlers of a host that publish, remove, subscribe, unsubscribe and throw while they are invoked.
// Every handler's log is compared with the order in which the publications were made.
#include "core/cachemodel.h"
#include <dots/asio.h>
#include <dots/HostTransceiver.h>
#include <dots/Subscription.h>
#include <dots/tools/logging.h>
#include <list>

using namespace vf;
namespace io_ = dots::io;

namespace
{
    struct SilentLog : dots::tools::LogBackend
    {
        size_t errors = 0;
        void log_p(dots::tools::Level l, const dots::tools::Flf&, const char*) override { errors += l >= dots::tools::Level::error; }
        void log(dots::tools::Level l, const dots::tools::Flf&, const std::string&) override { errors += l >= dots::tools::Level::error; }
    };
    std::shared_ptr<SilentLog> g_log = std::make_shared<SilentLog>();

    struct Made { Pub pub; int op = 0; Obj after; double sent = -1; };
    struct TypeSlot
    {
        std::shared_ptr<Source> src;
        std::vector<Made> made;                 // in the order of the publish() calls
        size_t seen = 0;                        // by the witness, which subscribed first and never unsubscribes
        std::unique_ptr<Model> model;
        std::optional<dots::Subscription> witness;
        const TypeDef& def() const { return *src->type->def; }
        const dt::StructDescriptor& desc() const { return *src->type->desc; }
    };
    struct Seen { int op; Rec rec, sentRec; uint32_t included; double time; };
    struct Handler
    {
        size_t seq = 0, type = 0;
        bool event = false, live = true, inReplay = false;
        int throwPercent = 0, actPercent = 0;
        size_t subscribedAt = 0, unsubscribedAt = 0;       // publications of the type the witness had seen
        bool subscribedInside = false, unsubscribedInside = false;
        std::vector<Seen> replay, live_;
        std::optional<dots::Subscription> sub;
    };

    struct World
    {
        Ctx& ctx;
        Rng& r;
        dots::asio::io_context io;
        std::vector<TypeSlot> types;
        std::list<Handler> handlers;
        std::unique_ptr<dots::HostTransceiver> host;
        std::vector<std::string> log;
        int depth = 0, budget = 0;
        size_t errorsExpected = 0;
        bool bad = false;

        World(Ctx& c, Rng& rng) : ctx(c), r(rng) {}
        std::string tail() const { std::string h; for (size_t k = log.size() > 18 ? log.size() - 18 : 0; k < log.size(); ++k) h += " | " + log[k]; return h; }
        bool check(bool ok, const char* key, const std::function<std::string()>& f)
        {
            if (!ctx.check(ok, key, [&]{ return f() + tail(); })) bad = true;
            return ok;
        }
        std::string nameOf(const Handler& h) const { return std::string{ h.event ? "E" : "T" } + std::to_string(h.seq) + "(" + types[h.type].def().name + ")"; }

        void publish(size_t type, bool remove)
        {
            TypeSlot& ts = types[type];
            const TypeDef& t = ts.def();
            Pub p = ts.src->next(r, remove ? 100 : 0, true);
            p.sender = 1;
            bool defaultMask = r.coin();
            if (p.remove) { defaultMask = false; if (r.chance(70)) { p.included = t.keyMask(); p.rec = select(p.rec, t.keyMask()); } }
            if (defaultMask) p.included = maskOf(p.rec);
            log.push_back((depth ? "nested " : "") + t.name + " " + showPub(p).substr(0, 100));
            if (p.remove && !t.cached)
            {
                bool threw = false;
                try { host->publish(makeAny(ts.desc(), p.rec), dots::property_set_t{ p.included }, true); } catch (const std::exception&) { threw = true; }
                check(threw, "uncached-removal-accepted", [&]{ return t.name; });
                ctx.count("refused_publications");
                return;
            }
            if (t.keyMask() && r.chance(4))
            {
                Rec broken = p.rec;
                for (auto& pd : t.props) if (pd.key) { broken.erase(pd.tag); break; }
                bool threw = false;
                try { host->publish(makeAny(ts.desc(), broken), std::nullopt, p.remove); } catch (const std::exception&) { threw = true; }
                check(threw, "keyless-publication-accepted", [&]{ return t.name; });
                ctx.count("refused_publications");
                return;
            }
            auto any = makeAny(ts.desc(), p.rec);
            ts.made.push_back({ p, 0, {}, -1 });
            ctx.count(depth ? "nested_publications" : "publications");
            ++depth;
            try
            {
                if (p.remove && p.included == t.keyMask() && r.coin()) host->remove(any);
                else if (defaultMask) host->publish(any);
                else
                {
                    uint32_t given = r.coin() ? p.included : p.included & ~t.keyMask();    // the keys are always included
                    host->publish(any, dots::property_set_t{ given }, p.remove);
                }
            }
            catch (const std::exception& e) { check(false, "publish-throws", [&]{ return std::string{ e.what() }; }); }
            catch (...) { check(false, "publish-throws", [&]{ return std::string{ "not an exception" }; }); }
            --depth;
        }
        void witness(size_t type, const io_::Transmission& t)
        {
            TypeSlot& ts = types[type];
            if (!check(ts.seen < ts.made.size(), "publication-twice", [&]{ return ts.def().name; })) return;
            Made& m = ts.made[ts.seen++];
            Rec rec = readRec(*t.instance());
            check(recEq(ts.def(), rec, m.pub.rec) && t.header().removeObj == m.pub.remove && t.header().attributes.isValid() && t.header().attributes->toValue() == m.pub.included, "publication-order",
                [&]{ return ts.def().name + ": the witness sees " + show(rec) + " instead of " + showPub(m.pub); });
            check(t.header().typeName.isValid() && *t.header().typeName == ts.def().name && t.header().sender == 1u && t.header().isFromMyself == true && t.header().sentTime.isValid(), "publication-header", [&]{ return show(readRec(t.header())); });
            if (t.header().sentTime.isValid()) m.sent = m.pub.sent = t.header().sentTime->time_since_epoch().count();
            if (ts.def().cached) m.op = fold(ts.def(), *ts.model, m.pub, &m.after);
            else { m.op = 1; m.after.rec = m.pub.rec; }
            ctx.count("witnessed");
        }
        void act(Handler& h)
        {
            ctx.count("invocations");
            if (budget <= 0 || bad || !r.chance(h.actPercent)) return;
            --budget;
            switch (r.below(8))
            {
                case 0: if (h.sub) unsubscribe(h); break;
                case 1: if (auto* o = someLive()) unsubscribe(*o); break;
                case 2: subscribe(h.type, r.chance(70)); break;
                case 3: subscribe(r.below(types.size()), r.chance(70)); break;
                case 4: publish(r.below(types.size()), true); break;
                case 5: publish(h.type, r.chance(40)); break;
                default: publish(r.below(types.size()), false); break;
            }
        }
        void maybeThrow(Handler& h)
        {
            if (!r.chance(h.throwPercent)) return;
            ++errorsExpected;
            ctx.count("throwing_invocations");
            log.push_back(nameOf(h) + " throws");
            if (r.chance(30)) throw 17;
            throw std::runtime_error{ "handler error" };
        }
        void onTransmission(Handler& h, const io_::Transmission& t)
        {
            check(h.live, "invoked-after-removal", [&]{ return nameOf(h); });
            Rec rec = readRec(*t.instance());
            h.live_.push_back({ t.header().removeObj == true ? 3 : 0, rec, rec, t.header().attributes->toValue(), t.header().sentTime->time_since_epoch().count() });
            log.push_back(nameOf(h) + " sees");
            act(h);
            maybeThrow(h);
        }
        void onEvent(Handler& h, const dots::Event<>& e)
        {
            const TypeSlot& ts = types[h.type];
            check(h.live, "invoked-after-removal", [&]{ return nameOf(h); });
            Rec up = readRec(e.updated());
            Seen s{ opOf(e.mt()), up, readRec(e.transmitted()), e.header().attributes->toValue(), e.header().sentTime.isValid() ? e.header().sentTime->time_since_epoch().count() : -1 };
            if (h.inReplay)
            {
                check(e.header().fromCache.isValid(), "replay-count", [&]{ return nameOf(h); });
                h.replay.push_back(s);
            }
            else h.live_.push_back(s);
            log.push_back(nameOf(h) + (h.inReplay ? " replays " : " sees ") + std::to_string(s.op));
            if (ts.def().cached)
            {
                // the container has been updated before
                const auto& c = host->container(ts.desc());
                const dt::Struct* inside = c.find(e.updated());
                if (s.op == 3) check(inside == nullptr, "container-before-event", [&]{ return nameOf(h) + " sees the removal of an object that is still there"; });
                else check(inside != nullptr && recEq(ts.def(), readRec(*inside), up), "container-before-event", [&]{ return nameOf(h); });
            }
            act(h);
            // the event must not change while its handlers publish, remove and subscribe
            check(recEq(ts.def(), readRec(e.updated()), s.rec) && recEq(ts.def(), readRec(e.transmitted()), s.sentRec), "event-changes-meanwhile", [&]{ return nameOf(h) + ": " + show(readRec(e.updated())) + " instead of " + show(s.rec); });
            maybeThrow(h);
        }
        void subscribe(size_t type, bool event)
        {
            handlers.emplace_back();
            Handler& h = handlers.back();
            h.seq = handlers.size();
            h.type = type;
            h.event = event;
            h.throwPercent = r.chance(20) ? static_cast<int>(r.below(50)) : 0;
            h.actPercent = r.chance(60) ? static_cast<int>(r.below(60)) : 0;
            TypeSlot& ts = types[type];
            h.subscribedAt = ts.seen;
            h.subscribedInside = depth > 0;
            log.push_back((depth ? "nested subscribe " : "subscribe ") + nameOf(h));
            Handler* hp = &h;
            ++depth;
            try
            {
                if (event)
                {
                    h.inReplay = true;
                    dots::Transceiver::event_handler_t<> f{ [this, hp](const dots::Event<>& e){ onEvent(*hp, e); } };
                    // deferred publications may reach the handler before subscribe() returns
                    h.sub.emplace(host->subscribe(ts.desc(), dots::Transceiver::event_handler_t<>{ [this, hp](const dots::Event<>& e)
                    {
                        hp->inReplay = e.header().fromCache.isValid();
                        onEvent(*hp, e);
                    } }));
                    h.inReplay = false;
                }
                else h.sub.emplace(host->subscribe(ts.desc(), dots::Transceiver::transmission_handler_t{ [this, hp](const io_::Transmission& t){ onTransmission(*hp, t); } }));
            }
            catch (...) { check(false, "subscribe-throws", [&]{ return nameOf(*hp); }); }
            --depth;
            ctx.count("subscriptions");
            if (depth) ctx.count("subscriptions_inside_handlers");
        }
        void unsubscribe(Handler& h)
        {
            log.push_back((depth ? "nested unsubscribe " : "unsubscribe ") + nameOf(h));
            h.unsubscribedAt = types[h.type].seen;
            h.unsubscribedInside = depth > 0;
            h.live = false;
            try
            {
                if (r.coin()) h.sub->unsubscribe();
                h.sub.reset();
            }
            catch (const std::exception& e) { check(false, "unsubscribe-throws", [&]{ return nameOf(h) + ": " + e.what(); }); }
            ctx.count("unsubscriptions");
        }
        Handler* someLive()
        {
            std::vector<Handler*> v;
            for (auto& h : handlers) if (h.live && h.sub) v.push_back(&h);
            return v.empty() ? nullptr : r.pick(v);
        }
        bool matches(const Handler& h, const Seen& s, const Made& m) const
        {
            const TypeDef& t = types[h.type].def();
            if (s.time != m.sent || s.included != m.pub.included) return false;
            if (!h.event) return (s.op == 3) == m.pub.remove && recEq(t, s.rec, m.pub.rec);
            return s.op == m.op && recEq(t, s.sentRec, m.pub.rec) && recEq(t, s.rec, m.after.rec);
        }
        // The handler's log must be the state before some publication followed by every publication from there on.
        void judge(const Handler& h)
        {
            const TypeSlot& ts = types[h.type];
            const TypeDef& t = ts.def();
            size_t n = ts.made.size();
            size_t end = h.live ? n : h.unsubscribedAt;
            size_t lo = h.subscribedInside && h.subscribedAt > 0 ? h.subscribedAt - 1 : h.subscribedAt;
            size_t hi = h.subscribedInside ? std::min(n, h.subscribedAt + 1) : h.subscribedAt;
            size_t endLo = !h.live && h.unsubscribedInside && end > 0 ? end - 1 : end;
            size_t endHi = !h.live && h.unsubscribedInside ? std::min(n, end + 1) : end;
            std::string why;
            for (size_t s = lo; s <= hi && s <= n; ++s)
            {
                for (size_t e = std::max(s, endLo); e <= endHi; ++e)
                {
                    size_t k = 0;
                    bool ok = true;
                    for (size_t i = s; i < e && ok; ++i)
                    {
                        const Made& m = ts.made[i];
                        if (h.event && m.op == 0) continue;       // the removal of an unknown object is no event
                        ok = k < h.live_.size() && matches(h, h.live_[k], m);
                        ++k;
                    }
                    if (!ok || k != h.live_.size()) { why = "no contiguous run of " + std::to_string(h.live_.size()) + " publications"; continue; }
                    if (h.event && t.cached)
                    {
                        Model m{ KeyLess{ &t } };
                        for (size_t i = 0; i < s; ++i) fold(t, m, ts.made[i].pub, nullptr);
                        std::set<const Rec*> seen;
                        for (auto& x : h.replay)
                        {
                            auto it = m.find(select(x.rec, t.keyMask()));
                            ok = ok && x.op == 1 && it != m.end() && seen.insert(&it->first).second && recEq(t, x.rec, it->second.rec) && x.included == maskOf(x.rec);
                        }
                        ok = ok && seen.size() == m.size();
                        if (!ok) { why = "the replayed objects are not those of the cache when the live events begin"; continue; }
                    }
                    else if (!h.replay.empty()) { why = "replayed objects of an uncached type"; continue; }
                    ctx.count("handler_logs_judged");
                    ctx.maxOf("events_of_one_handler", h.live_.size());
                    return;
                }
            }
            check(false, "handler-log", [&]{ return nameOf(h) + ": " + why + ", " + std::to_string(n) + " publications, subscribed at " + std::to_string(h.subscribedAt) + (h.live ? "" : ", unsubscribed at " + std::to_string(h.unsubscribedAt)); });
        }
    };

    void caseHost(Ctx& ctx, Rng& r)
    {
        dots::tools::g_loggingBackend = g_log;
        World w{ ctx, r };
        size_t n = 1 + r.below(3);
        for (size_t i = 0; i < n; ++i)
        {
            std::shared_ptr<TypeUnderTest> t;
            do t = pickType(r, true, 65); while (t->def->internal || t->def->substructOnly);
            bool dup = false;
            for (auto& s : w.types) dup |= s.def().name == t->def->name;
            if (dup) continue;
            TypeSlot s;
            s.src = std::make_shared<Source>(t);
            s.model = std::make_unique<Model>(KeyLess{ t->def.get() });
            w.types.push_back(std::move(s));
        }
        w.host = std::make_unique<dots::HostTransceiver>("host", w.io, dt::Registry::StaticTypePolicy::InternalOnly);
        std::unique_ptr<dots::HostTransceiver> moved;
        for (size_t i = 0; i < w.types.size(); ++i)
        {
            w.types[i].witness.emplace(w.host->subscribe(w.types[i].desc(), dots::Transceiver::transmission_handler_t{ [&w, i](const io_::Transmission& t){ w.witness(i, t); } }));
        }
        size_t steps = 8 + r.below(30);
        for (size_t i = 0; i < steps && !w.bad; ++i)
        {
            size_t type = r.below(w.types.size());
            uint64_t x = r.below(100);
            w.budget = 5;
            size_t before = g_log->errors;
            w.errorsExpected = 0;
            if (x < 60) w.publish(type, r.chance(25));
            else if (x < 85) w.subscribe(type, r.chance(70));
            else if (auto* h = w.someLive()) w.unsubscribe(*h);
            if (w.bad) return;
            for (auto& ts : w.types)
            {
                w.check(ts.seen == ts.made.size(), "publication-lost", [&]{ return ts.def().name + ": " + std::to_string(ts.made.size()) + " publications were made and " + std::to_string(ts.seen) + " distributed"; });
            }
            w.check(g_log->errors - before == w.errorsExpected, "errors-reported", [&]{ return std::to_string(g_log->errors - before) + " errors reported for " + std::to_string(w.errorsExpected); });
            if (!w.bad && w.types[type].def().cached && r.chance(40)) w.bad |= !compareAll(ctx, r, *w.types[type].src->type, w.host->container(w.types[type].desc()), *w.types[type].model, w.tail());
        }
        if (w.bad) return;
        for (auto& h : w.handlers) { w.judge(h); if (w.bad) return; }
        uint64_t h = 0;
        for (auto& l : w.log) h = hashStr(l.substr(0, 40), mix(h));
        ctx.distinct("histories", h);
        if (ctx.wantSample()) ctx.sample(w.tail());
        // destruction in either order
        if (r.coin()) w.host.reset();
        w.handlers.clear();
    }
}

int main(int argc, char** argv)
{
    return driverMain(argc, argv, { { "D01", [](Ctx& c, Rng& r){ caseHost(c, r); } } });
}
