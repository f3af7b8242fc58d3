// M01: hosts, clients, subscriptions and timers that end, move and are replaced at any moment, also inside handlers of each other. The
// sanitizers watch the memory; the driver watches that nothing that ended is called, that what was moved goes on working, and that
// nothing is left at the end.
#include "net/netcase.h"
#include <dots/Timer.h>
#include <dots/io/DescriptorConverter.h>
#include <dots/io/auth/LegacyAuthManager.h>
#include <dots/io/channels/TcpListener.h>
#include <dots/io/channels/UdsListener.h>
#include <dots/io/channels/WebSocketListener.h>
#include <dots/io/channels/LocalListener.h>
#include <VPlain.dots.h>
#include <VClean.dots.h>
#include <VEvent.dots.h>
#include <thread>
#include <atomic>
#include <dirent.h>
#if defined(__clang__) && __has_feature(address_sanitizer)
#include <sanitizer/lsan_interface.h>
#define VF_LEAKS
#endif

using namespace vf;
namespace io_ = dots::io;

namespace
{
    using Io = dots::asio::io_context;
    using dots::types::VPlain; using dots::types::VClean; using dots::types::VEvent;
    constexpr size_t Types = 3;
    const dt::StructDescriptor& descr(size_t t) { if (t == 0) return VPlain::_Descriptor(); if (t == 1) return VClean::_Descriptor(); return VEvent::_Descriptor(); }
    uint64_t tokenOf(const dt::Struct& s)
    {
        if (auto* p = s._as<VPlain>()) return p->x.isValid() ? static_cast<uint64_t>(*p->x) : 0;
        if (auto* p = s._as<VClean>()) return p->n.isValid() ? *p->n : 0;
        if (auto* p = s._as<VEvent>()) return p->seq.isValid() ? *p->seq : 0;
        return 0;
    }
    size_t openFds()
    {
        size_t n = 0;
        if (DIR* d = ::opendir("/proc/self/fd")) { while (::readdir(d)) ++n; ::closedir(d); }
        return n;
    }

    struct Node
    {
        int id = 0;
        bool host = false;
        bool alive = true, dying = false;
        Io* io = nullptr;
        std::unique_ptr<dots::HostTransceiver> h;
        std::unique_ptr<dots::GuestTransceiver> g;
        dots::Transceiver* t() { return h ? static_cast<dots::Transceiver*>(h.get()) : g.get(); }
        // hosts
        std::map<Tr, Address> at;
        io_::Listener* local = nullptr;
        // guests
        Node* hostNode = nullptr;
        Tr tr = Tr::Local;
        bool connected = false, expectOpen = false, opened = false;
        std::set<size_t> joined;
        size_t moves = 0;
        std::string name() const { return (host ? "host" : "guest") + std::to_string(id); }
    };
    struct Sub
    {
        int id = 0;
        Node* node = nullptr;
        size_t type = 0;
        int kind = 0;                        // 0 typed events, 1 events by descriptor, 2 transmissions, 3 types
        bool alive = true, subscribing = true, endLater = false, discarded = false;
        size_t calls = 0, running = 0;
        uint64_t seen = 0;
        std::set<std::string> types;
        std::optional<dots::Subscription> sub;
        std::weak_ptr<int> probe;
    };
    struct Timed
    {
        int id = 0;
        bool alive = true, periodic = false;
        size_t fired = 0;
        std::unique_ptr<dots::Timer> timer;
        std::weak_ptr<int> probe;
    };

    struct LifeCase : Case
    {
        std::vector<std::unique_ptr<Io>> ios;
        std::vector<std::unique_ptr<Node>> nodes;
        std::vector<std::unique_ptr<Sub>> subs;
        std::vector<std::unique_ptr<Timed>> timers;
        std::vector<std::unique_ptr<dots::Transceiver>> husks;       // moved-from objects
        std::vector<Node*> stack;                                    // nodes with a handler being executed
        std::vector<Tr> transports;
        bool quiet = false;
        int names = 0;
        uint64_t token = 100;
        size_t acted = 0;

        LifeCase(Ctx& c, Rng& rng) : Case(c, rng) {}
        ~LifeCase() override
        {
            for (auto& n : nodes) for (auto& [t, a] : n->at) if (!a.path.empty()) ::unlink(a.path.c_str());
        }
        std::string did() const { return stack.empty() ? "" : "in handler of " + stack.back()->name() + " (" + std::to_string(stack.size()) + "): "; }
        void doing(const std::string& s) { say(did() + s); ctx.note(log.back() + tail()); }
        bool onStack(Node& n) const { return std::find(stack.begin(), stack.end(), &n) != stack.end() || n.dying; }

        bool step()
        {
            if (ios.empty()) return false;
            size_t k = r.below(ios.size());
            for (size_t i = 0; i < ios.size(); ++i) if (poll(*ios[(k + i) % ios.size()])) return true;
            return false;
        }
        // ---- what every handler does --------------------------------------------------------------------------------------
        struct Running { LifeCase& c; Running(LifeCase& c, Node& n) : c(c) { c.stack.push_back(&n); } ~Running() { c.stack.pop_back(); } };
        void called(Sub& s, const dt::Struct* instance, const dt::Descriptor<>* type)
        {
            ++s.calls;
            ctx.count("handler_calls");
            check(s.alive, "ended-subscription-invoked", [&]{ return "subscription " + std::to_string(s.id) + " at " + s.node->name(); });
            check(s.node->alive || s.node->dying, "handler-of-ended-object", [&]{ return s.node->name(); });
            if (instance) s.seen = std::max(s.seen, tokenOf(*instance));
            if (type) check(s.types.insert(type->name()).second, "type-announced-twice", [&]{ return type->name() + " to subscription " + std::to_string(s.id); });
            Running running(*this, *s.node);
            ++s.running;
            inside(&s, nullptr);
            --s.running;
        }
        void inside(Sub* self, Timed* timer)
        {
            if (quiet || bad || stack.size() > 3 || acted > 400) return;
            if (r.chance(60)) return;
            ctx.count("actions_inside_handlers");
            if (self && r.chance(25)) { endSub(*self); ctx.count("ended_inside_own_handler"); return; }
            if (timer && r.chance(25)) { endTimer(*timer); ctx.count("ended_inside_own_handler"); return; }
            act();
        }
        // ---- nodes ------------------------------------------------------------------------------------------------------
        Node& newNode(bool host, Io* io)
        {
            auto p = std::make_unique<Node>();
            Node& n = *p;
            n.id = names++;
            n.host = host;
            if (!io) { ios.push_back(std::make_unique<Io>()); io = ios.back().get(); }
            n.io = io;
            nodes.push_back(std::move(p));
            doing("new " + n.name());
            dots::Transceiver::transition_handler_t onTransition{ [this, &n](const dots::Connection& c, std::exception_ptr e){ transition(n, c, e); } };
            if (host)
            {
                n.h = std::make_unique<dots::HostTransceiver>(n.name(), *io, dt::Registry::StaticTypePolicy::All, onTransition);
                for (Tr t : transports) if (t != Tr::Local && (n.at.empty() || r.chance(60))) listen(n, t);
                if (std::find(transports.begin(), transports.end(), Tr::Local) != transports.end() && (n.at.empty() || r.coin())) { openListener(*n.h, Tr::Local, {}, n.local); }
            }
            else n.g = std::make_unique<dots::GuestTransceiver>(n.name(), *io, dt::Registry::StaticTypePolicy::All, onTransition);
            ctx.count(host ? "hosts" : "guests");
            return n;
        }
        void listen(Node& n, Tr t)
        {
            for (int i = 0; i < 30; ++i)
            {
                Address a;
                a.host = "127." + std::to_string(r.below(256)) + "." + std::to_string(r.below(256)) + "." + std::to_string(1 + r.below(250));
                a.port = static_cast<int>(r.range(10000, 32000));
                if (t == Tr::Uds1 || t == Tr::Uds2) a.path = scratch + "/l" + std::to_string(names++);
                io_::Listener* l = nullptr;
                try { openListener(*n.h, t, a, l); n.at[t] = a; return; }
                catch (const std::exception&) {}
            }
        }
        void transition(Node& n, const dots::Connection& c, std::exception_ptr)
        {
            check(n.alive || n.dying, "handler-of-ended-object", [&]{ return n.name(); });
            ctx.count("transitions_observed");
            if (!n.host)
            {
                if (c.state() == dots::types::DotsConnectionState::connected) { n.connected = true; n.expectOpen = n.hostNode->alive && !n.hostNode->dying; }
                if (c.state() == dots::types::DotsConnectionState::closed)
                {
                    check(!n.expectOpen || n.dying, "connection-lost", [&]{ return n.name() + " lost its connection over " + toText(n.tr) + " (" + g_log->last + ")"; });
                    n.connected = n.expectOpen = n.opened = false;
                    n.joined.clear();
                }
            }
            Running running(*this, n);
            inside(nullptr, nullptr);
        }
        static std::string toText(Tr t) { return std::to_string(static_cast<int>(t)); }
        void hostGone(Node& h) { for (auto& g : nodes) if (!g->host && g->hostNode == &h) g->expectOpen = false; }
        void ended(Node& n)
        {
            n.alive = n.dying = false;
            n.connected = n.expectOpen = n.opened = false;
            for (auto& s : subs) if (s->node == &n) s->alive = false;
            for (auto& [t, a] : n.at) if (!a.path.empty()) ::unlink(a.path.c_str());
            n.at.clear();
            n.local = nullptr;
        }
        void destroy(Node& n)
        {
            doing("destroy " + n.name());
            n.dying = true;
            n.expectOpen = false;
            if (n.host) hostGone(n);
            n.h.reset();
            n.g.reset();
            ended(n);
            ctx.count("transceivers_destroyed");
        }
        void moveNode(Node& n)
        {
            doing("move-construct " + n.name());
            ++n.moves;
            if (n.host) { auto p = std::make_unique<dots::HostTransceiver>(std::move(*n.h)); keep(std::move(n.h)); n.h = std::move(p); }
            else { auto p = std::make_unique<dots::GuestTransceiver>(std::move(*n.g)); keep(std::move(n.g)); n.g = std::move(p); }
            ctx.count("transceivers_moved");
        }
        void assignNode(Node& from, Node& to)
        {
            doing("move-assign " + from.name() + " to " + to.name());
            ++from.moves;
            Running running(*this, from);     // its handlers are not invoked, but it must not be touched
            to.dying = true;
            to.expectOpen = false;
            if (to.host) hostGone(to);
            if (from.host) { *to.h = std::move(*from.h); keep(std::move(from.h)); from.h = std::move(to.h); }
            else { *to.g = std::move(*from.g); keep(std::move(from.g)); from.g = std::move(to.g); }
            ended(to);
            ctx.count("transceivers_assigned");
        }
        void keep(std::unique_ptr<dots::Transceiver> husk) { if (r.coin()) husks.push_back(std::move(husk)); }
        void open(Node& g, Node& h)
        {
            std::vector<Tr> ways;
            for (auto& [t, a] : h.at) if (t != Tr::Ws || (stack.empty() && g.io != h.io)) ways.push_back(t);
            if (h.local) ways.push_back(Tr::Local);
            if (ways.empty()) return;
            Tr t = r.pick(ways);
            doing("open " + g.name() + " to " + h.name() + " over " + toText(t));
            g.hostNode = &h;
            g.tr = t;
            g.joined.clear();
            io_::channel_ptr_t c;
            if (t == Tr::Ws)
            {
                std::atomic<bool> done{ false };
                Address to = h.at[t];
                std::thread th([&]{ try { c = openChannel(*g.io, t, to, nullptr); } catch (const std::exception&) {} done = true; });
                bool was = quiet;
                quiet = true;
                pump([&]{ return done.load(); }, [&]{ return poll(*h.io); }, 20000);
                quiet = was;
                th.join();
                if (!check(c != nullptr, "not-connected", [&]{ return g.name(); })) return;
            }
            else
            {
                try { c = openChannel(*g.io, t, t == Tr::Local ? Address{} : h.at[t], h.local); }
                catch (const std::exception& e) { check(false, "not-connected", [&]{ return g.name() + " " + e.what(); }); return; }
            }
            if (r.chance(4)) { doing("drop the channel"); return; }
            try { g.g->open(std::move(c)); g.opened = true; ctx.count("connections_opened"); }
            catch (const std::exception& e) { check(false, "not-opened", [&]{ return g.name() + " " + e.what(); }); }
        }
        // ---- subscriptions and timers -----------------------------------------------------------------------------------
        void subscribe(Node& n)
        {
            if (!n.host && !n.connected) return;
            if (subs.size() > 60) return;
            auto p = std::make_unique<Sub>();
            Sub& s = *p;
            s.id = names++;
            s.node = &n;
            s.type = r.below(Types);
            s.kind = static_cast<int>(r.below(4));
            doing("subscribe " + std::to_string(s.id) + " kind " + std::to_string(s.kind) + " type " + std::to_string(s.type) + " at " + n.name());
            subs.push_back(std::move(p));
            auto probe = std::make_shared<int>(s.id);
            s.probe = probe;
            dots::Transceiver& t = *n.t();
            auto typed = [&](auto* tag) -> dots::Subscription
            {
                using T = std::remove_pointer_t<decltype(tag)>;
                return t.subscribe<T>(dots::Transceiver::event_handler_t<T>{ [this, &s, probe](const dots::Event<T>& e){ called(s, &static_cast<const dt::Struct&>(e.transmitted()), nullptr); } });
            };
            try
            {
                if (s.kind == 0)
                {
                    if (s.type == 0) s.sub.emplace(typed(static_cast<VPlain*>(nullptr)));
                    else if (s.type == 1) s.sub.emplace(typed(static_cast<VClean*>(nullptr)));
                    else s.sub.emplace(typed(static_cast<VEvent*>(nullptr)));
                }
                else if (s.kind == 1) s.sub.emplace(t.subscribe(descr(s.type), dots::Transceiver::event_handler_t<>{ [this, &s, probe](const dots::Event<>& e){ called(s, &e.transmitted(), nullptr); } }));
                else if (s.kind == 2) s.sub.emplace(t.subscribe(descr(s.type), dots::Transceiver::transmission_handler_t{ [this, &s, probe](const io_::Transmission& x){ called(s, &*x.instance(), nullptr); } }));
                else
                {
                    bool was = quiet;
                    quiet = true;      // what happens while the known types are told is not asked for
                    s.sub.emplace(t.subscribe(dots::Transceiver::new_type_handler_t<>{ [this, &s, probe](const dt::Descriptor<>& d){ called(s, nullptr, &d); } }));
                    quiet = was;
                }
            }
            catch (const std::exception& e) { check(false, "subscribe-failed", [&]{ return std::string{ e.what() }; }); return; }
            s.subscribing = false;
            if (s.endLater) { s.sub.reset(); s.alive = false; }       // it was ended by its own handler before it was known
            if (s.kind != 3 && (n.host || n.connected)) n.joined.insert(s.type);
            ctx.count("subscriptions");
        }
        void endSub(Sub& s)
        {
            if (!s.alive || s.discarded || s.endLater) return;
            if (s.subscribing) { doing("end subscription " + std::to_string(s.id) + " later"); s.endLater = true; return; }
            int how = static_cast<int>(r.below(6));
            doing("end subscription " + std::to_string(s.id) + " at " + s.node->name() + " how " + std::to_string(how));
            if (how == 0) { s.sub->unsubscribe(); s.alive = false; }
            else if (how == 1) { dots::Subscription moved{ std::move(*s.sub) }; s.alive = false; }
            else if (how == 2)
            {
                // by assigning another one to it
                for (auto& o : subs) if (o.get() != &s && o->alive && o->sub) { *s.sub = std::move(*o->sub); o->sub.reset(); o->sub.emplace(std::move(*s.sub)); s.sub.reset(); s.alive = false; return; }
                s.sub.reset();
                s.alive = false;
            }
            else if (how == 3 && r.coin()) { s.sub->discard(); s.sub.reset(); s.discarded = true; ctx.count("subscriptions_discarded"); }
            else if (how == 4)
            {
                // moving keeps it alive
                dots::Subscription moved{ std::move(*s.sub) };
                s.sub.reset();
                s.sub.emplace(std::move(moved));
            }
            else { s.sub.reset(); s.alive = false; }
            ctx.count("subscriptions_ended");
        }
        void startTimer()
        {
            if (timers.size() > 40 || ios.empty()) return;
            auto p = std::make_unique<Timed>();
            Timed& t = *p;
            t.id = names++;
            t.periodic = r.coin();
            auto probe = std::make_shared<int>(t.id);
            t.probe = probe;
            timers.push_back(std::move(p));
            doing("timer " + std::to_string(t.id));
            std::vector<Node*> all;
            for (auto& n : nodes) if (n->alive && !n->dying) all.push_back(n.get());
            if (all.empty()) { t.alive = false; return; }
            // no transceiver is on the stack of a timer
            t.timer = std::make_unique<dots::Timer>(*r.pick(all)->io, dt::Duration{ static_cast<double>(r.below(4)) * 1e-4 }, dots::Timer::handler_t{ [this, &t, probe]
            {
                ++t.fired;
                check(t.alive, "ended-timer-fired", [&]{ return "timer " + std::to_string(t.id); });
                check(t.periodic || t.fired == 1, "one-shot-fired-again", [&]{ return "timer " + std::to_string(t.id); });
                if (t.fired > 30) { if (t.timer) { t.alive = false; t.timer.reset(); } return; }
                ctx.count("timer_calls");
                inside(nullptr, &t);
            } }, t.periodic);
            ctx.count("timers");
        }
        void endTimer(Timed& t)
        {
            if (!t.timer) return;
            int how = static_cast<int>(r.below(4));
            doing("end timer " + std::to_string(t.id) + " how " + std::to_string(how));
            if (how == 0 && !t.periodic) { t.timer->discard(); t.timer.reset(); return; }
            if (how == 1) { auto moved = std::make_unique<dots::Timer>(std::move(*t.timer)); t.timer = std::move(moved); return; }
            if (how == 2)
            {
                for (auto& o : timers) if (o.get() != &t && o->timer) { *t.timer = std::move(*o->timer); o->timer = std::move(t.timer); t.timer.reset(); t.alive = false; return; }
            }
            t.timer.reset();
            t.alive = false;
        }
        // ---- objects ----------------------------------------------------------------------------------------------------
        void publish(Node& n, size_t type, uint64_t tok, bool remove)
        {
            if (!n.host && !n.connected) return;
            try
            {
                int id = static_cast<int>(r.below(5));
                if (type == 0) n.t()->publish(VPlain{ .id = id, .x = static_cast<int32_t>(tok) }, std::nullopt, remove);
                else if (type == 1) n.t()->publish(VClean{ .id = id, .n = static_cast<uint32_t>(tok) }, std::nullopt, remove);
                else n.t()->publish(VEvent{ .id = id, .seq = tok }, std::nullopt, false);
                ctx.count("published");
            }
            catch (const std::exception& e) { check(n.dying, "publish-failed", [&]{ return n.name() + ": " + e.what(); }); }
        }
        void newType(Node& n)
        {
            TypeGen gen;
            gen.prefix = "L" + std::to_string(names++) + "x";
            TypeGenOpts to;
            to.maxProps = 4;
            gen.makeStruct(r, to);
            doing("new type " + gen.prefix + " at " + n.name());
            try { buildTypes(n.t()->registry(), gen.types); ctx.count("types_registered"); }
            catch (const std::exception& e) { check(false, "register-failed", [&]{ return std::string{ e.what() }; }); }
        }
        // ---- random actions ---------------------------------------------------------------------------------------------
        Node* pickNode(const std::function<bool(Node&)>& f)
        {
            std::vector<Node*> v;
            for (auto& n : nodes) if (n->alive && !n->dying && f(*n)) v.push_back(n.get());
            return v.empty() ? nullptr : r.pick(v);
        }
        void act()
        {
            ++acted;
            size_t k = r.below(100);
            auto any = [](Node&){ return true; };
            auto isHost = [](Node& n){ return n.host; };
            auto isGuest = [](Node& n){ return !n.host; };
            size_t hosts = 0, guests = 0;
            for (auto& n : nodes) if (n->alive) ++(n->host ? hosts : guests);
            if (k < 25) { if (Node* n = pickNode(any)) publish(*n, r.below(Types), ++token, r.chance(20)); }
            else if (k < 43) { if (Node* n = pickNode(any)) subscribe(*n); }
            else if (k < 54) { if (!subs.empty()) endSub(*r.pick(subs)); }
            else if (k < 60) startTimer();
            else if (k < 65) { if (!timers.empty()) endTimer(*r.pick(timers)); }
            else if (k < 77)
            {
                Node* g = pickNode([&](Node& n){ return !n.host && !n.opened && !onStack(n); });
                Node* h = pickNode([&](Node& n){ return n.host && (!n.at.empty() || n.local); });
                if (g && h) open(*g, *h);
            }
            else if (k < 83) { if (guests < 4) newNode(false, r.chance(70) ? nullptr : ioOf()); }
            else if (k < 85) { if (hosts < 2) newNode(true, nullptr); }
            else if (k < 88) { Node* n = pickNode([&](Node& n){ return !onStack(n) && (!n.host || r.chance(40)); }); if (n) destroy(*n); }
            else if (k < 93) { Node* n = pickNode([&](Node& n){ return !onStack(n); }); if (n) moveNode(*n); }
            else if (k < 95)
            {
                Node* a = pickNode([&](Node& n){ return !onStack(n); });
                Node* b = a ? pickNode([&](Node& n){ return !onStack(n) && n.host == a->host && &n != a; }) : nullptr;
                if (a && b) assignNode(*a, *b);
            }
            else if (k < 97) { if (!husks.empty()) { doing("destroy a moved-from object"); size_t i = r.below(husks.size()); std::swap(husks[i], husks.back()); husks.pop_back(); } }
            else if (k < 99) { if (Node* n = pickNode(any)) newType(*n); }
            else if (Node* n = pickNode(isHost)) { doing("set the authentication manager of " + n->name()); n->h->setAuthManager<io_::LegacyAuthManager>(); }
            (void)isGuest;
        }
        Io* ioOf() { return ios.empty() ? nullptr : r.pick(ios).get(); }
        // ---- everything that is alive works -----------------------------------------------------------------------------
        void settle() { size_t idle = 0; int64_t end = tick() + 3000; while (idle < 30 && tick() < end && !bad) { if (step()) idle = 0; else { ++idle; ::usleep(60); } } }
        void checkpoint()
        {
            quiet = true;
            for (auto& t : timers) if (t->timer && t->periodic) { t->alive = false; t->timer.reset(); }
            settle();
            for (auto& n : nodes)
            {
                if (n->host || !n->alive || !n->connected || n->hostNode->alive) continue;
                Node& g = *n;
                pump([&]{ return !g.connected; }, [&]{ return step(); });
                check(!g.connected, "end-of-host-not-noticed", [&]{ return g.name() + " over " + toText(g.tr); });
            }
            for (auto& n : nodes)
            {
                if (bad) break;
                if (!n->alive || (!n->host && !n->connected)) continue;
                for (size_t type = 0; type < Types && !bad; ++type)
                {
                    uint64_t tok = ++token;
                    Node* host = n->host ? n.get() : n->hostNode;
                    publish(*n, type, tok, false);
                    std::vector<Sub*> waiting;
                    for (auto& s : subs)
                        if (s->alive && s->kind != 3 && s->type == type && s->node->alive && (s->node == host || (!s->node->host && s->node->connected && s->node->hostNode == host && s->node->joined.count(type)))) waiting.push_back(s.get());
                    auto got = [&]{ for (Sub* s : waiting) if (s->seen < tok) return false; return true; };
                    // (a join may still be on its way: publish again until the token is seen)
                    int attempt = 0;
                    for (; attempt < 100 && !bad && !got(); ++attempt)
                    {
                        if (attempt) publish(*n, type, tok, false);
                        pump(got, [&]{ return step(); }, attempt < 5 ? 60 : 200);
                        if (!n->alive || (!n->host && !n->connected)) break;
                    }
                    check(got(), "not-delivered", [&]
                    {
                        std::string m = n->name() + " type " + std::to_string(type) + " moved " + std::to_string(n->moves) + " connected " + std::to_string(n->connected) + " attempts " + std::to_string(attempt) + ", missing at:";
                        for (Sub* s : waiting) if (s->seen < tok) m += " subscription " + std::to_string(s->id) + " of " + s->node->name() + " (moved " + std::to_string(s->node->moves) + ", over " + toText(s->node->tr) + ", connected " + std::to_string(s->node->connected) + ")";
                        return m;
                    });
                    ctx.count("deliveries_checked", waiting.size());
                    for (Sub* s : waiting) if (s->node->moves) ctx.count("deliveries_after_moves_checked");
                }
            }
            ctx.count("checkpoints");
            quiet = false;
        }
        void endAll()
        {
            doing("end");
            quiet = r.coin();
            // everything in any order, the contexts after what uses them
            std::vector<std::function<void()>> ends;
            for (auto& n : nodes) if (n->alive) ends.push_back([&, n = n.get()]{ if (n->alive) destroy(*n); });
            for (auto& s : subs) if (s->sub) ends.push_back([&, s = s.get()]{ if (s->sub) { s->alive = false; s->sub.reset(); } });
            for (auto& t : timers) if (t->timer) ends.push_back([&, t = t.get()]{ if (t->timer) { t->alive = false; t->timer.reset(); } });
            ends.push_back([&]{ husks.clear(); });
            r.shuffle(ends);
            for (auto& e : ends) { e(); for (size_t k = r.below(4); k > 0; --k) step(); }
            quiet = true;
            for (auto& n : nodes) if (n->alive) destroy(*n);          // of handlers
            for (auto& s : subs) s->sub.reset();
            for (auto& t : timers) { t->timer.reset(); }
            husks.clear();
            if (r.coin()) settle();
            r.shuffle(ios);
            ios.clear();
        }
        void run()
        {
            size_t fds = openFds();
            std::vector<Tr> all{ Tr::Tcp2, Tr::Tcp1, Tr::Uds2, Tr::Uds1, Tr::Ws, Tr::Local };
            for (Tr t : all) if (r.chance(45)) transports.push_back(t);
            if (transports.empty()) transports.push_back(r.pick(all));
            Node& h = newNode(true, nullptr);
            if (r.coin()) moveNode(h);
            size_t guests = 1 + r.below(3);
            for (size_t i = 0; i < guests && !bad; ++i)
            {
                Node& g = newNode(false, r.chance(70) ? nullptr : ioOf());
                if (r.chance(30)) moveNode(g);
                open(g, h);
            }
            size_t rounds = 1 + r.below(3);
            for (size_t k = 0; k < rounds && !bad; ++k)
            {
                size_t n = 10 + r.below(40);
                for (size_t i = 0; i < n && !bad; ++i)
                {
                    act();
                    for (size_t s = r.below(r.chance(20) ? 30 : 5); s > 0 && !bad; --s) step();
                }
                if (r.chance(80)) checkpoint();
            }
            endAll();
            if (bad) return;
            for (auto& s : subs) check(s->probe.expired(), "handler-kept", [&]{ return "handler of subscription " + std::to_string(s->id) + " at " + s->node->name() + " is still there"; });
            for (auto& t : timers) check(t->probe.expired(), "handler-kept", [&]{ return "handler of timer " + std::to_string(t->id) + " is still there"; });
            size_t now = openFds();
            check(now == fds, "descriptors-left", [&]{ return std::to_string(fds) + " open descriptors before and " + std::to_string(now) + " after"; });
            ctx.count("ended_with_nothing_left");
            uint64_t d = 0;
            for (auto& l : log) d = hashStr(l, d + 1);
            ctx.distinct("histories", d);
            if (ctx.wantSample()) ctx.sample(tail());
        }
    };

    // Channels and listeners without transceivers: released, cancelled, resumed and replaced at any moment and inside their own handlers.
    struct ChannelLife : Case
    {
        struct End
        {
            int id = 0;
            bool client = false, receiving = false, over = false;
            io_::channel_ptr_t c;
            std::weak_ptr<int> probe;
        };
        struct Accepting { io_::Listener* l = nullptr; std::unique_ptr<io_::Listener> own; bool accepting = false; int busy = 0; Tr tr = Tr::Local; Address at; std::weak_ptr<int> probe; };
        std::unique_ptr<Io> server = std::make_unique<Io>(), client = std::make_unique<Io>();
        dt::Registry registry{ std::nullopt, dt::Registry::StaticTypePolicy::All };
        std::vector<std::unique_ptr<End>> ends;
        std::vector<std::unique_ptr<Accepting>> listeners;
        size_t depth = 0;
        int ids = 0;
        bool quiet = false;

        ChannelLife(Ctx& c, Rng& rng) : Case(c, rng) {}
        bool step() { bool a = r.coin(); return poll(a ? *server : *client) || poll(a ? *client : *server); }
        void doing(const std::string& s) { say((depth ? "in a handler (" + std::to_string(depth) + "): " : std::string{}) + s); ctx.note(log.back() + tail()); }
        void listen()
        {
            if (listeners.size() > 6) return;
            auto p = std::make_unique<Accepting>();
            Accepting& a = *p;
            a.tr = r.pick(std::vector<Tr>{ Tr::Tcp2, Tr::Tcp1, Tr::Uds2, Tr::Uds1, Tr::Ws, Tr::Local });
            for (int i = 0; i < 30 && !a.own; ++i)
            {
                a.at.host = "127." + std::to_string(r.below(256)) + "." + std::to_string(r.below(256)) + "." + std::to_string(1 + r.below(250));
                a.at.port = static_cast<int>(r.range(10000, 32000));
                if (a.tr == Tr::Uds1 || a.tr == Tr::Uds2) a.at.path = scratch + "/c" + std::to_string(ids++);
                std::string port = std::to_string(a.at.port);
                try
                {
                    if (a.tr == Tr::Tcp2) a.own = std::make_unique<io_::v2::TcpListener>(*server, a.at.host, port);
                    else if (a.tr == Tr::Tcp1) a.own = std::make_unique<io_::v1::TcpListener>(*server, a.at.host, port);
                    else if (a.tr == Tr::Ws) a.own = std::make_unique<io_::WebSocketListener>(*server, a.at.host, port);
                    else if (a.tr == Tr::Uds2) a.own = std::make_unique<io_::posix::v2::UdsListener>(*server, std::string_view{ a.at.path });
                    else if (a.tr == Tr::Uds1) a.own = std::make_unique<io_::posix::v1::UdsListener>(*server, std::string_view{ a.at.path });
                    else a.own = std::make_unique<io_::LocalListener>(*server);
                }
                catch (const std::exception&) {}
            }
            if (!a.own) return;
            a.l = a.own.get();
            doing(std::string{ "listen " } + trName(a.tr));
            listeners.push_back(std::move(p));
            accept(a);
        }
        void accept(Accepting& a)
        {
            if (!a.own || a.accepting) return;
            a.accepting = true;
            auto probe = std::make_shared<int>(0);
            a.probe = probe;
            a.l->asyncAccept(io_::Listener::accept_handler_t{ [this, &a, probe](io_::Listener&, io_::channel_ptr_t c)
            {
                check(a.own != nullptr && a.accepting, "ended-listener-accepted", [&]{ return std::string{ trName(a.tr) }; });
                ctx.count("channels_accepted");
                doing(std::string{ "accepted over " } + trName(a.tr));
                ++depth;
                if (!r.chance(10)) { c->init(registry); add(std::move(c), false); }
                ++a.busy;
                inside();
                --a.busy;
                --depth;
                bool more = quiet || !r.chance(10);
                if (!more) a.accepting = false;
                return more;
            } }, io_::Listener::error_handler_t{ [this, &a, probe](io_::Listener&, std::exception_ptr)
            {
                check(a.own != nullptr, "ended-listener-invoked", [&]{ return std::string{ trName(a.tr) }; });
                a.accepting = false;
            } });
        }
        void add(io_::channel_ptr_t c, bool isClient)
        {
            auto p = std::make_unique<End>();
            End& e = *p;
            e.id = ids++;
            e.client = isClient;
            e.c = std::move(c);
            ends.push_back(std::move(p));
            if (r.chance(85)) receive(e);
        }
        void receive(End& e)
        {
            if (!e.c || e.receiving || e.over) return;
            doing("receive at " + std::to_string(e.id));
            e.receiving = true;
            auto probe = std::make_shared<int>(e.id);
            e.probe = probe;
            try
            {
                e.c->asyncReceive(io_::Channel::receive_handler_t{ [this, &e, probe](io_::Transmission)
                {
                    check(e.c != nullptr && e.receiving, "ended-channel-received", [&]{ return "end " + std::to_string(e.id); });
                    ctx.count("received_at_channels");
                    ++depth;
                    inside(&e);
                    --depth;
                    return e.c != nullptr && e.receiving;
                } }, io_::Channel::error_handler_t{ [this, &e, probe](std::exception_ptr)
                {
                    check(e.c != nullptr && e.receiving && !e.over, "ended-channel-failed", [&]{ return "end " + std::to_string(e.id); });
                    ctx.count("channel_errors");
                    doing("error at " + std::to_string(e.id));
                    e.receiving = false;
                    e.over = true;
                    ++depth;
                    inside(&e);
                    --depth;
                } });
            }
            catch (const std::exception&) { e.receiving = false; e.over = true; }
        }
        void inside(End* self = nullptr)
        {
            if (quiet || depth > 3 || bad || r.chance(55)) return;
            ctx.count("actions_inside_handlers");
            if (self && r.chance(30)) { ctx.count("ended_inside_own_handler"); finish(*self); return; }
            act();
        }
        void finish(End& e)
        {
            if (!e.c) return;
            if (r.chance(35)) { if (e.receiving) { doing("cancel " + std::to_string(e.id)); e.receiving = false; e.over = true; e.c->cancelReceive(); } return; }
            doing("release " + std::to_string(e.id));
            e.receiving = false;
            auto c = std::move(e.c);
            e.c = nullptr;
            c->cancelReceive();      // without it the handlers stay until everything is written
            c.reset();
            ctx.count("channels_released");
        }
        void transmit(End& e, size_t n)
        {
            if (!e.c || e.over) return;
            auto c = e.c;
            for (size_t i = 0; i < n && e.c == c; ++i)
            {
                try
                {
                    VPlain v{ .id = static_cast<int32_t>(i), .x = static_cast<int32_t>(r.below(1000)) };
                    if (r.chance(20)) v.s.emplace(std::string(r.below(40000), 'x'));
                    c->transmit(v);
                    ctx.count("transmitted_at_channels");
                }
                catch (const std::exception&) { return; }
            }
        }
        void connect()
        {
            std::vector<Accepting*> v;
            for (auto& a : listeners) if (a->own && a->accepting && (a->tr != Tr::Ws || depth == 0)) v.push_back(a.get());
            if (v.empty()) { listen(); return; }
            Accepting& a = *r.pick(v);
            doing(std::string{ "connect over " } + trName(a.tr));
            io_::channel_ptr_t c;
            if (a.tr == Tr::Ws)
            {
                std::atomic<bool> done{ false };
                std::thread th([&]{ try { c = openChannel(*client, a.tr, a.at, nullptr); } catch (const std::exception&) {} done = true; });
                bool was = quiet;
                quiet = true;
                pump([&]{ return done.load(); }, [&]{ return poll(*server); }, 20000);
                quiet = was;
                th.join();
            }
            else if ((a.tr == Tr::Tcp1 || a.tr == Tr::Tcp2) && r.chance(30))
            {
                auto done = [this](const boost::system::error_code&) { ctx.count("asynchronous_connects"); };
                std::string port = std::to_string(a.at.port + (r.chance(20) ? 1 : 0));
                if (a.tr == Tr::Tcp2) c = io_::make_channel<io_::v2::TcpChannel>(*client, a.at.host, port, done);
                else c = io_::make_channel<io_::v1::TcpChannel>(*client, a.at.host, port, done);
                if (r.coin()) { doing("release it while it connects"); return; }
                for (int i = 0; i < 50; ++i) { poll(*client); ::usleep(20); }
            }
            else
            {
                try { c = openChannel(*client, a.tr, a.at, dynamic_cast<io_::LocalListener*>(a.l)); }
                catch (const std::exception&) { return; }
            }
            if (!c) return;
            try { c->init(registry); } catch (const std::exception&) { return; }
            ctx.count("channels_connected");
            add(std::move(c), true);
        }
        void act()
        {
            size_t k = r.below(100);
            if (k < 35) { if (!ends.empty()) transmit(*r.pick(ends), 1 + r.below(r.chance(10) ? 200 : 6)); }
            else if (k < 55) { if (ends.size() < 60) connect(); }
            else if (k < 67) { if (!ends.empty()) finish(*r.pick(ends)); }
            else if (k < 80) { if (!ends.empty()) receive(*r.pick(ends)); }
            else if (k < 85) listen();
            else if (k < 88) { if (!listeners.empty()) { Accepting& a = *r.pick(listeners); if (a.own && !a.busy) { doing("destroy listener"); a.own.reset(); a.accepting = false; } } }
            else if (k < 92) { if (!listeners.empty()) accept(*r.pick(listeners)); }
        }
        void run()
        {
            size_t fds = openFds();
            listen();
            size_t n = 20 + r.below(80);
            for (size_t i = 0; i < n && !bad; ++i)
            {
                act();
                for (size_t s = r.below(r.chance(20) ? 30 : 6); s > 0 && !bad; --s) step();
            }
            quiet = true;
            doing("end");
            std::vector<std::function<void()>> last;
            for (auto& e : ends) last.push_back([&, e = e.get()]{ e->receiving = false; if (e->c) e->c->cancelReceive(); e->c.reset(); });
            for (auto& a : listeners) last.push_back([&, a = a.get()]{ a->own.reset(); a->accepting = false; });
            r.shuffle(last);
            for (auto& f : last) { f(); for (size_t k = r.below(4); k > 0; --k) step(); }
            for (auto& e : ends) { e->receiving = false; if (e->c) e->c->cancelReceive(); e->c.reset(); }
            for (size_t k = r.below(10); k > 0; --k) step();
            if (r.coin()) { server.reset(); client.reset(); } else { client.reset(); server.reset(); }
            if (bad) return;
            for (auto& e : ends) check(e->probe.expired(), "handler-kept", [&]{ return "handler of end " + std::to_string(e->id) + " is still there"; });
            for (auto& a : listeners) check(a->probe.expired(), "handler-kept", [&]{ return std::string{ "handler of the listener for " } + trName(a->tr) + " is still there"; });
            for (auto& a : listeners) if (!a->at.path.empty()) ::unlink(a->at.path.c_str());
            size_t now = openFds();
            check(now == fds, "descriptors-left", [&]{ return std::to_string(fds) + " open descriptors before and " + std::to_string(now) + " after"; });
            ctx.count("ended_with_nothing_left");
            uint64_t d = 0;
            for (auto& l : log) d = hashStr(l, d + 1);
            ctx.distinct("histories", d);
        }
    };
}

int main(int argc, char** argv)
{
    return driverMain(argc, argv, { { "M01", [](Ctx& ctx, Rng& r)
    {
        static const bool warm = []
        {
            // what asio and the library create once
            Io io;
            dots::HostTransceiver h("h", io);
            dots::asio::ip::tcp::socket s(io);
            return true;
        }();
        (void)warm;
        if (r.chance(25)) { ChannelLife c(ctx, r); c.run(); ctx.count("channel_histories"); }
        else { LifeCase c(ctx, r); c.run(); }
#ifdef VF_LEAKS
        static uint64_t since = 0;
        if (++since % 25 == 0 && __lsan_do_recoverable_leak_check()) ctx.viol("leak", "memory is lost in one of the last 25 cases (see the output)");
#endif
    } } });
}
