// C01: containers and container pools against a model that folds the publication history.
// D01: the dispatcher with handlers that subscribe, unsubscribe and throw while being invoked (the part without connections).
#include "core/cachemodel.h"
#include <dots/Container.h>
#include <dots/ContainerPool.h>
#include <dots/Dispatcher.h>
#include <list>

using namespace vf;
namespace io_ = dots::io;

namespace
{
    void caseContainer(Ctx& ctx, Rng& r)
    {
        struct Slot { std::shared_ptr<Source> src; std::unique_ptr<Model> model; std::vector<std::string> hist; bool inPool = false; };
        std::vector<Slot> slots;
        dots::ContainerPool pool;
        size_t n = 1 + r.below(3);
        for (size_t i = 0; i < n; ++i)
        {
            auto t = pickType(r);
            bool dup = false;
            for (auto& s : slots) dup |= s.src->type->def->name == t->def->name;
            if (dup) continue;
            Slot s;
            s.src = std::make_shared<Source>(t);
            s.src->go.smallDomain = static_cast<int>(2 + r.below(3));
            s.model = std::make_unique<Model>(KeyLess{ t->def.get() });
            slots.push_back(std::move(s));
        }
        size_t steps = 10 + r.below(50);
        for (size_t i = 0; i < steps; ++i)
        {
            Slot& s = r.pick(slots);
            const TypeUnderTest& tut = *s.src->type;
            const TypeDef& t = *tut.def;
            auto histText = [&]{ std::string h; for (size_t k = s.hist.size() > 6 ? s.hist.size() - 6 : 0; k < s.hist.size(); ++k) h += " | " + s.hist[k]; return h; };
            if (r.chance(6))
            {
                // pool bookkeeping
                auto* byDesc = pool.find(*tut.desc);
                auto* byName = pool.find(std::string_view{ t.name });
                if (!ctx.check((byDesc != nullptr) == s.inPool && byDesc == byName, "pool-find", [&]{ return t.name + " in pool=" + std::to_string(s.inPool) + " by descriptor=" + std::to_string(byDesc != nullptr) + " by name=" + std::to_string(byName != nullptr) + " same=" + std::to_string(byDesc == byName); })) return;
                bool threw = false;
                try { pool.get(std::string_view{ t.name }); } catch (const std::exception&) { threw = true; }
                bool threw2 = false;
                try { pool.get(*tut.desc, false); } catch (const std::exception&) { threw2 = true; }
                if (!ctx.check(threw == !s.inPool && threw2 == !s.inPool, "pool-get", [&]{ return t.name; })) return;
                if (r.chance(40))
                {
                    bool removed = true;
                    try
                    {
                        auto node = pool.remove(*tut.desc);
                        if (!compareAll(ctx, r, tut, node.mapped(), *s.model, " (removed from pool)" + histText())) return;
                    }
                    catch (const std::runtime_error&) { removed = false; }
                    if (!ctx.check(removed == s.inPool, "pool-remove", [&]{ return t.name; })) return;
                    s.inPool = false;
                    s.model->clear();
                    s.hist.clear();
                    auto* gone = pool.find(std::string_view{ t.name });
                    if (!ctx.check(gone == nullptr && pool.find(*tut.desc) == nullptr, "pool-remove-name", [&]{ return t.name + " is still found after its removal"; })) return;
                    ctx.count("containers_removed");
                }
                size_t count = 0, total = 0;
                for (auto& o : slots) total += o.inPool;
                pool.forEach([&](const dots::Container<>&){ ++count; });
                if (!ctx.check(count == total && pool.size() == total && pool.empty() == (total == 0), "pool-size", [&]{ return t.name; })) return;
                continue;
            }
            dots::Container<>& c = pool.get(*tut.desc);
            s.inPool = true;
            if (r.chance(2))
            {
                c.clear();
                s.model->clear();
                s.hist.push_back("clear");
                if (!compareAll(ctx, r, tut, c, *s.model, histText())) return;
                continue;
            }
            Pub p = s.src->next(r, 25);
            s.hist.push_back(showPub(p));
            auto header = headerOf(t, p);
            auto any = makeAny(*tut.desc, p.rec);
            Obj expected;
            bool existed = s.model->count(select(p.rec, t.keyMask())) != 0;
            int op = fold(t, *s.model, p, &expected);
            double before = dots::timepoint_t::Now().time_since_epoch().count();
            ctx.note(t.name + " " + s.hist.back());
            auto judge = [&](const dt::Struct& got, const dots::types::DotsCloneInformation& info)
            {
                Rec rec = readRec(got);
                bool ok = ctx.check(recEq(t, rec, expected.rec) && maskOf(rec) == maskOf(expected.rec), op == 1 ? "create-value" : op == 2 ? "update-value" : "remove-value", [&]{ return t.name + ": " + show(rec) + " instead of " + show(expected.rec) + histText(); });
                ok &= ctx.check(infoMatches(info, expected.info, op), op == 1 ? "create-info" : op == 2 ? "update-info" : "remove-info", [&]{ return t.name + ": " + showClone(info) + " instead of " + showInfo(expected.info) + histText(); });
                double after = dots::timepoint_t::Now().time_since_epoch().count();
                ok &= ctx.check(info.localUpdateTime.isValid() && info.localUpdateTime->time_since_epoch().count() >= before - 1e-3 && info.localUpdateTime->time_since_epoch().count() <= after + 1e-3, "local-update-time", [&]{ return t.name + histText(); });
                return ok;
            };
            if (p.remove)
            {
                auto node = c.remove(header, any);
                if (!ctx.check(node.empty() == !existed, "remove-result", [&]{ return t.name + ": node " + (node.empty() ? "empty" : "not empty") + histText(); })) return;
                if (existed && !judge(node.key(), node.mapped())) return;
                ctx.count(existed ? "removals" : "removals_of_unknown");
            }
            else
            {
                const auto& [inst, info] = c.insert(header, any);
                if (!judge(inst, info)) return;
                ctx.count(existed ? "updates" : "creations");
                if (existed)
                {
                    bool unset = false;
                    for (auto& pd : t.props) unset |= (p.included >> pd.tag & 1) && !p.rec.count(pd.tag);
                    if (unset) ctx.count("updates_that_unset");
                }
            }
            if (!ctx.check(recEq(t, readRec(*any), p.rec) && maskOf(readRec(*any)) == maskOf(p.rec), "publication-changed", [&]{ return t.name + histText(); })) return;
            ctx.distinct("cache_states", mix(hashStr(t.name) ^ [&]{ uint64_t h = 0; for (auto& [k, o] : *s.model) h = mix(h + hashRec(o.rec)); return h; }()));
            ctx.maxOf("objects_in_a_cache", s.model->size());
            if (r.chance(30) && !compareAll(ctx, r, tut, c, *s.model, histText())) return;
        }
        for (auto& s : slots)
        {
            if (!s.inPool) continue;
            std::string h;
            for (auto& x : s.hist) h += " | " + x;
            if (!compareAll(ctx, r, *s.src->type, *pool.find(*s.src->type->desc), *s.model, h)) return;
            if (ctx.wantSample() && s.hist.size() > 3) ctx.sample(s.src->type->def->name + ": " + std::to_string(s.hist.size()) + " publications, e.g. " + s.hist.back());
        }
    }

    // ---- D01 ----------------------------------------------------------------------------------------------------------
    struct World;
    struct Handler
    {
        size_t seq = 0;                  // order of subscription
        uint64_t id = 0;
        size_t type = 0;
        bool event = false;
        bool live = true;                // neither removed nor still unknown
        bool inReplay = false;
        size_t invoked = 0;
        int throwPercent = 0, actPercent = 0;
        // online monitor
        size_t lastDispatch = 0;
        // replay
        std::vector<Rec> replayed;
        size_t replayTotal = 0;
        std::unique_ptr<Model> view;     // what a cache would look like that only listens to this handler
    };
    struct TypeSlot
    {
        std::shared_ptr<Source> src;
        std::unique_ptr<Model> model;
        const TypeDef& def() const { return *src->type->def; }
    };
    struct World
    {
        Ctx& ctx;
        Rng& r;
        std::vector<TypeSlot> types;
        std::list<Handler> handlers;
        size_t errors = 0, errorsExpected = 0;
        const dt::StructDescriptor* lastError = nullptr;
        std::unique_ptr<dots::Dispatcher> disp;
        // the dispatch being processed
        size_t dispatchNo = 0;
        bool dispatching = false;
        size_t currentType = 0;
        Pub currentPub;
        int currentOp = 0;
        Obj currentObj;
        std::vector<Handler*> due;       // in the order in which they must be invoked
        size_t dueNext = 0;
        bool duringEvents = false, eventsBegun = false;
        int budget = 0;
        std::vector<std::string> log;
        bool bad = false;

        World(Ctx& c, Rng& rng) : ctx(c), r(rng) {}

        std::string tail() const { std::string h; for (size_t k = log.size() > 14 ? log.size() - 14 : 0; k < log.size(); ++k) h += " | " + log[k]; return h; }
        bool check(bool ok, const char* key, const std::function<std::string()>& f)
        {
            if (!ctx.check(ok, key, [&]{ return f() + tail(); })) bad = true;
            return ok;
        }
        std::string nameOf(const Handler& h) const { return std::string{ h.event ? "E" : "T" } + std::to_string(h.seq) + "(" + types[h.type].def().name + ")"; }

        void planStage(bool events)
        {
            due.clear();
            dueNext = 0;
            for (auto it = handlers.rbegin(); it != handlers.rend(); ++it)
            {
                if (it->live && it->event == events && it->type == currentType) due.push_back(&*it);
            }
        }
        void beginEvents()
        {
            // all transmission handlers that are still subscribed have been invoked
            finishStage();
            eventsBegun = true;
            const TypeDef& t = types[currentType].def();
            if (t.cached) currentOp = fold(t, *types[currentType].model, currentPub, &currentObj);
            else { currentOp = 1; currentObj = Obj{ currentPub.rec, { 1, 0, currentPub.sender, currentPub.sent, 0 } }; }
            planStage(true);
            if (currentOp == 0) due.clear();
            duringEvents = true;
        }
        void finishStage()
        {
            for (; dueNext < due.size(); ++dueNext)
            {
                Handler& h = *due[dueNext];
                check(!h.live, "handler-not-invoked", [&]{ return nameOf(h) + " did not see " + showPub(currentPub); });
            }
        }
        void invoked(Handler& h)
        {
            if (!dispatching) { check(false, "invoked-outside-dispatch", [&]{ return nameOf(h); }); return; }
            if (h.event && !eventsBegun) beginEvents();
            check(h.live, "invoked-after-removal", [&]{ return nameOf(h); });
            check(h.type == currentType, "invoked-for-other-type", [&]{ return nameOf(h); });
            check(h.event == eventsBegun, "stage-order", [&]{ return nameOf(h); });
            check(h.lastDispatch != dispatchNo, "invoked-twice", [&]{ return nameOf(h); });
            h.lastDispatch = dispatchNo;
            while (dueNext < due.size() && due[dueNext] != &h)
            {
                Handler& skipped = *due[dueNext];
                if (!check(!skipped.live, "handler-skipped", [&]{ return nameOf(skipped) + " was passed over in favour of " + nameOf(h); })) break;
                ++dueNext;
            }
            check(dueNext < due.size(), "handler-not-due", [&]{ return nameOf(h); });
            ++dueNext;
            ctx.count("invocations");
        }
        void act(Handler& h);
        void maybeThrow(Handler& h)
        {
            if (r.chance(h.throwPercent))
            {
                ++errorsExpected;
                ctx.count("throwing_invocations");
                log.push_back(nameOf(h) + " throws");
                if (r.coin()) throw 17;
                throw std::runtime_error{ "handler error" };
            }
        }
        void onTransmission(Handler& h, const io_::Transmission& t)
        {
            invoked(h);
            check(recEq(types[h.type].def(), readRec(*t.instance()), currentPub.rec), "transmission-value", [&]{ return nameOf(h); });
            act(h);
            maybeThrow(h);
        }
        void onEvent(Handler& h, const dots::Event<>& e)
        {
            const TypeDef& t = types[h.type].def();
            if (h.inReplay) { onReplay(h, e); return; }
            invoked(h);
            check(opOf(e.mt()) == currentOp, "event-operation", [&]{ return nameOf(h) + " " + std::to_string(opOf(e.mt())) + " instead of " + std::to_string(currentOp); });
            check(e.isCreate() == (currentOp == 1) && e.isUpdate() == (currentOp == 2) && e.isRemove() == (currentOp == 3), "event-operation-flags", [&]{ return nameOf(h); });
            Rec up = readRec(e.updated());
            check(recEq(t, up, currentObj.rec) && maskOf(up) == maskOf(currentObj.rec), "event-updated-value", [&]{ return nameOf(h) + " sees " + show(up) + " instead of " + show(currentObj.rec); });
            check(recEq(t, readRec(e.transmitted()), currentPub.rec), "event-transmitted-value", [&]{ return nameOf(h); });
            check(e.newProperties().toValue() == currentPub.included, "event-new-properties", [&]{ return nameOf(h); });
            check(e.updatedProperties().toValue() == (currentPub.included & maskOf(currentObj.rec)), "event-updated-properties", [&]{ return nameOf(h); });
            if (t.cached)
            {
                check(infoMatches(e.cloneInfo(), currentObj.info, currentOp), "event-clone-information", [&]{ return nameOf(h) + " " + showClone(e.cloneInfo()); });
                Obj dummy;
                int op = fold(t, *h.view, currentPub, &dummy);
                check(op == currentOp, "handler-view-diverges", [&]{ return nameOf(h); });
            }
            else
            {
                auto& c = e.cloneInfo();
                check(c.createdFrom.isValid() && *c.createdFrom == currentPub.sender && c.created.isValid() && c.created->time_since_epoch().count() == currentPub.sent, "event-clone-information", [&]{ return nameOf(h) + " " + showClone(c); });
            }
            act(h);
            maybeThrow(h);
        }
        void onReplay(Handler& h, const dots::Event<>& e)
        {
            const TypeDef& t = types[h.type].def();
            Model& m = *types[h.type].model;
            Rec rec = readRec(e.updated());
            ctx.count("replayed_objects");
            check(e.isCreate(), "replay-operation", [&]{ return nameOf(h); });
            check(e.header().fromCache.isValid() && *e.header().fromCache == m.size() - h.replayed.size() - 1, "replay-count", [&]{ return nameOf(h) + " " + (e.header().fromCache.isValid() ? std::to_string(*e.header().fromCache) : "unset") + " still to follow after " + std::to_string(h.replayed.size() + 1) + " of " + std::to_string(m.size()); });
            auto it = m.find(select(rec, t.keyMask()));
            if (check(it != m.end(), "replay-foreign-object", [&]{ return nameOf(h) + " " + show(rec); }))
            {
                check(recEq(t, rec, it->second.rec) && maskOf(rec) == maskOf(it->second.rec), "replay-value", [&]{ return nameOf(h) + " " + show(rec); });
                check(e.newProperties().toValue() == maskOf(rec), "replay-properties", [&]{ return nameOf(h); });
                check(h.view->emplace(it->first, it->second).second, "replay-twice", [&]{ return nameOf(h) + " " + show(rec); });
            }
            h.replayed.push_back(std::move(rec));
            maybeThrow(h);
        }
        Handler* subscribe(size_t type, bool event)
        {
            handlers.emplace_back();
            Handler& h = handlers.back();
            h.seq = handlers.size();
            h.type = type;
            h.event = event;
            h.live = true;
            h.lastDispatch = dispatchNo;      // not due in the dispatch being processed
            h.throwPercent = r.chance(25) ? static_cast<int>(r.below(60)) : 0;
            h.actPercent = r.chance(50) ? static_cast<int>(r.below(50)) : 0;
            const TypeSlot& ts = types[type];
            h.view = std::make_unique<Model>(KeyLess{ ts.src->type->def.get() });
            auto& desc = *ts.src->type->desc;
            log.push_back("subscribe " + nameOf(h));
            bool beforeFold = dispatching && !eventsBegun && event && type == currentType;
            Handler* hp = &h;
            if (event)
            {
                h.inReplay = true;
                size_t total = ts.def().cached ? ts.model->size() : 0;
                try { h.id = disp->addEventHandler(desc, dots::Dispatcher::event_handler_t<>{ [this, hp](const dots::Event<>& e){ onEvent(*hp, e); } }); }
                catch (...) { check(false, "subscribe-throws", [&]{ return "an exception of a handler escaped from the subscription of " + nameOf(*hp); }); hp->live = false; }
                h.inReplay = false;
                check(h.replayed.size() == total, "replay-incomplete", [&]{ return nameOf(*hp) + " saw " + std::to_string(hp->replayed.size()) + " of " + std::to_string(total); });
                if (beforeFold) h.lastDispatch = 0;   // subscribed by a transmission handler: the event stage comes later
            }
            else h.id = disp->addTransmissionHandler(desc, dots::Dispatcher::transmission_handler_t{ [this, hp](const io_::Transmission& t){ onTransmission(*hp, t); } });
            ctx.count("subscriptions");
            if (dispatching) ctx.count("subscriptions_during_dispatch");
            return hp;
        }
        void unsubscribe(Handler& h)
        {
            log.push_back("unsubscribe " + nameOf(h));
            h.live = false;
            auto& desc = *types[h.type].src->type->desc;
            if (h.event) disp->removeEventHandler(desc, h.id);
            else disp->removeTransmissionHandler(desc, h.id);
            ctx.count("unsubscriptions");
            if (dispatching) ctx.count("unsubscriptions_during_dispatch");
        }
        Handler* someLive()
        {
            std::vector<Handler*> v;
            for (auto& h : handlers) if (h.live && !h.inReplay) v.push_back(&h);
            return v.empty() ? nullptr : r.pick(v);
        }
        void dispatch(size_t type)
        {
            const TypeSlot& ts = types[type];
            currentType = type;
            bool cached = ts.def().cached;
            currentPub = types[type].src->next(r, cached ? 25 : 0, cached);
            if (!cached) currentPub.rec = select(currentPub.rec, currentPub.included);
            ++dispatchNo;
            log.push_back("dispatch " + ts.def().name + " " + showPub(currentPub).substr(0, 120));
            budget = 4;
            dispatching = true;
            eventsBegun = false;
            duringEvents = false;
            planStage(false);
            io_::Transmission t{ headerOf(ts.def(), currentPub), makeAny(*ts.src->type->desc, currentPub.rec) };
            size_t before = errors, expectedBefore = errorsExpected;
            try { disp->dispatch(t); }
            catch (...) { check(false, "dispatch-throws", [&]{ return "an exception of a handler escaped from the dispatch"; }); }
            if (!eventsBegun) beginEvents();
            finishStage();
            dispatching = false;
            check(errors - before == errorsExpected - expectedBefore, "errors-reported", [&]{ return std::to_string(errors - before) + " errors reported for " + std::to_string(errorsExpected - expectedBefore); });
            ctx.count("dispatches");
        }
        void dispatchUncachedRemoval(size_t type)
        {
            const TypeSlot& ts = types[type];
            currentType = type;
            currentPub = types[type].src->next(r, 100);
            ++dispatchNo;
            log.push_back("dispatch removal of uncached " + ts.def().name);
            dispatching = false;      // nothing may be invoked
            io_::Transmission t{ headerOf(ts.def(), currentPub), makeAny(*ts.src->type->desc, currentPub.rec) };
            bool threw = false;
            try { disp->dispatch(t); } catch (const std::exception&) { threw = true; }
            check(threw, "uncached-removal-accepted", [&]{ return ts.def().name; });
            ctx.count("uncached_removals");
        }
    };
    void World::act(Handler& h)
    {
        if (budget <= 0 || bad || !r.chance(h.actPercent)) return;
        --budget;
        switch (r.below(4))
        {
            case 0: if (h.live) unsubscribe(h); break;
            case 1: if (auto* o = someLive()) unsubscribe(*o); break;
            case 2: subscribe(currentType, r.coin()); break;
            default: subscribe(r.below(types.size()), r.coin()); break;
        }
    }

    void caseDispatcher(Ctx& ctx, Rng& r)
    {
        World w{ ctx, r };
        size_t n = 1 + r.below(3);
        for (size_t i = 0; i < n; ++i)
        {
            std::shared_ptr<TypeUnderTest> t;
            do t = pickType(r, true, 65); while (t->def->internal || t->def->substructOnly);
            bool dup = false;
            for (auto& s : w.types) dup |= s.src->type->def->name == t->def->name;
            if (dup) continue;
            TypeSlot s;
            s.src = std::make_shared<Source>(t);
            s.model = std::make_unique<Model>(KeyLess{ t->def.get() });
            w.types.push_back(std::move(s));
        }
        w.disp = std::make_unique<dots::Dispatcher>(dots::Dispatcher::error_handler_t{ [&](const dt::StructDescriptor& d, std::exception_ptr e)
        {
            ++w.errors;
            w.lastError = &d;
            w.check(e != nullptr, "error-without-exception", [&]{ return d.name(); });
            try { std::rethrow_exception(e); }
            catch (const std::runtime_error& x) { w.check(std::string_view{ x.what() } == "handler error", "error-of-someone-else", [&]{ return std::string{ x.what() }; }); }
            catch (int) {}
            catch (...) { w.check(false, "error-of-someone-else", [&]{ return d.name(); }); }
        } });
        size_t steps = 10 + r.below(40);
        for (size_t i = 0; i < steps && !w.bad; ++i)
        {
            size_t type = r.below(w.types.size());
            uint64_t x = r.below(100);
            if (x < 55) w.dispatch(type);
            else if (x < 80) w.subscribe(type, r.chance(65));
            else if (x < 92) { if (auto* h = w.someLive()) w.unsubscribe(*h); }
            else if (x < 95)
            {
                if (!w.types[type].def().cached) w.dispatchUncachedRemoval(type);
            }
            else
            {
                // unknown handlers are refused
                bool threw = false;
                try { w.disp->removeEventHandler(*w.types[type].src->type->desc, 1000000); } catch (const std::logic_error&) { threw = true; }
                w.check(threw, "unknown-handler-removed", [&]{ return "removing an unknown handler was accepted"; });
            }
            if (!w.bad)
            {
                const TypeSlot& ts = w.types[type];
                if (ts.def().cached && r.chance(25)) w.bad |= !compareAll(ctx, r, *ts.src->type, std::as_const(*w.disp).container(*ts.src->type->desc), *ts.model, w.tail());
            }
        }
        if (w.bad) return;
        for (auto& h : w.handlers)
        {
            if (!h.event || !h.live || !w.types[h.type].def().cached) continue;
            const TypeDef& t = w.types[h.type].def();
            Model& m = *w.types[h.type].model;
            bool same = h.view->size() == m.size();
            for (auto& [k, o] : *h.view) { auto it = m.find(k); same = same && it != m.end() && recEq(t, o.rec, it->second.rec) && maskOf(o.rec) == maskOf(it->second.rec); }
            w.check(same, "handler-view-diverges", [&]{ return w.nameOf(h); });
            ctx.count("handler_views_compared");
        }
        uint64_t h = 0;
        for (auto& l : w.log) h = hashStr(l.substr(0, 40), mix(h));
        ctx.distinct("histories", h);
        if (ctx.wantSample()) ctx.sample(w.tail());
    }
}

int main(int argc, char** argv)
{
    return driverMain(argc, argv, {
        { "C01", [](Ctx& c, Rng& r){ caseContainer(c, r); } },
        { "D01", [](Ctx& c, Rng& r){ caseDispatcher(c, r); } },
    });
}
