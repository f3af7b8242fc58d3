#include "net/world.h"
#include "core/textref.h"
#include <sys/stat.h>
#include <sys/socket.h>
#include <atomic>
#include <chrono>
#include <thread>

namespace vf
{
    namespace io_ = dots::io;
    std::shared_ptr<SilentLog> g_log = std::make_shared<SilentLog>();

    double nowSeconds() { return std::chrono::duration<double>(std::chrono::system_clock::now().time_since_epoch()).count(); }
    int64_t tick() { return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

    std::string makeScratch()
    {
        const char* t = std::getenv("TMPDIR");
        std::string s = std::string{ t && *t && std::strlen(t) < 60 ? t : "/tmp" } + "/vfnetXXXXXX";
        if (!::mkdtemp(s.data())) throw std::runtime_error{ "no scratch directory" };
        return s;
    }
    std::string showDelivered(const Delivered& d)
    {
        return std::string{ d.remove ? "remove " : "" } + show(d.rec) + " included=" + std::to_string(d.included) + " sender=" + std::to_string(d.sender) + " sent=" + std::to_string(d.sentTime) + (d.fromCache ? " fromCache=" + std::to_string(*d.fromCache) : "");
    }
    std::string showSent(const SentPub& p) { return std::string{ p.remove ? "remove " : "publish " } + show(p.rec) + " included=" + std::to_string(p.included); }

    // ---- the world ----------------------------------------------------------------------------------------------------
    World::World(Ctx& c, Rng& rng, WorldOpts opts) : ctx(c), r(rng), o(std::move(opts)), work(dots::asio::make_work_guard(io))
    {
        dots::tools::g_loggingBackend = g_log;
        started = nowSeconds();
        tame = std::find(o.transports.begin(), o.transports.end(), Tr::Ws) != o.transports.end();
    }
    World::~World()
    {
        ending = true;
        newTypes.reset();
        for (auto& t : types) t.sub.reset();
        if (r.coin()) clients.clear();
        host.reset();
        clients.clear();
        for (auto& [t, a] : at) if (!a.path.empty()) ::unlink(a.path.c_str());
        if (!scratch.empty()) ::rmdir(scratch.c_str());
    }
    bool World::check(bool ok, const char* key, const std::function<std::string()>& f)
    {
        if (ok && !adopt && !any && !ctx.prop.empty() && std::string_view{ key }.compare(0, 3, ctx.prop) != 0 && key[0] != '*') return true;
        if (ending) return ok;
        std::string_view k = key;
        auto colon = k.find(':');
        std::string_view p = k.substr(0, colon);
        bool mine = adopt || any || p == "*" || p == ctx.prop;
        if (lenient && p != "*" && p != "H02" && k != "B06:echo-unanswered" && k != "H01:never-connected" && k != "H01:end-unnoticed") return ok;
        static const bool all = std::getenv("VERIF_ALL") != nullptr;
        if (mine || (all && !ok)) { if (!ctx.check(ok, mine ? k.substr(colon + 1) : k, [&]{ return f() + tail(); })) bad = true; }
        else if (!ok) { bad = true; ctx.count("cases_ended_by_other_properties"); }
        return ok;
    }
    std::string World::tail() const
    {
        std::string h;
        size_t n = std::getenv("VERIF_TAIL") ? 200 : 22;
        for (size_t k = log.size() > n ? log.size() - n : 0; k < log.size(); ++k) h += " | " + log[k];
        return h;
    }
    size_t World::typeIndex(const std::string& name) const
    {
        for (size_t i = 0; i < types.size(); ++i) if (types[i].def->name == name) return i;
        return types.size();
    }
    const dt::StructDescriptor* World::hostType(size_t type) const { return host->registry().findStructType(types[type].def->name); }
    std::vector<std::string> World::hostTypesNow() const
    {
        std::vector<std::string> v;
        host->registry().forEach<dt::StructDescriptor>([&](const auto& d){ if (!d.internal()) v.push_back(d.name()); });
        return v;
    }
    static GenOpts netOpts(bool tame, bool big)
    {
        GenOpts go;
        go.nan = false;
        go.maxVec = 3;
        go.bigPercent = big ? 4 : 0;
        go.bigSize = 40000;
        if (tame) { go.inf = false; go.utf8 = true; }
        return go;
    }
    void World::addTypes()
    {
        size_t n = 1 + r.below(static_cast<uint64_t>(o.maxTypes));
        policy = r.chance(70) ? dt::Registry::StaticTypePolicy::All : dt::Registry::StaticTypePolicy::InternalOnly;
        using namespace dots::types;
        std::vector<const dt::StructDescriptor*> pool{ &staticType("VAll"), &staticType("VVec"), &staticType("VMulti"), &staticType("VKeyObj"), &staticType("VPlain"), &staticType("VPlain"), &staticType("VPlain2"),
            &staticType("VSingle"), &staticType("VClean"), &staticType("VClean"), &staticType("VClean2"), &staticType("VEvent"), &staticType("VEvent"), &staticType("VEvent2"), &staticType("VHolder"), &staticType("VIntern"), &staticType("VPersist") };
        std::vector<const dt::StructDescriptor*> cleanPool{ &staticType("VClean"), &staticType("VClean2"), &staticType("VPlain") };
        for (size_t i = 0; i < n; ++i)
        {
            NetType nt;
            if (r.chance(100 - o.dynamicPercent))
            {
                const dt::StructDescriptor* d = r.pick(o.cleanupFocus && r.chance(80) ? cleanPool : pool);
                nt.def = defOf(*d);
                nt.compiled = d;
                collectTypes(nt.def, nt.all);
            }
            else
            {
                TypeGen gen;
                gen.prefix = "N" + std::to_string(i) + "x";
                TypeGenOpts to;
                to.maxProps = r.chance(10) ? 31 : 8;
                to.keyless = true;
                nt.def = gen.makeStruct(r, to);
                nt.def->cached = r.chance(75);
                nt.def->cleanup = nt.def->cached && r.chance(o.cleanupFocus ? 80 : 25);
                nt.all = gen.types;
            }
            if (typeIndex(nt.def->name) != types.size()) continue;
            nt.go = netOpts(tame, o.bigValues);
            nt.model = std::make_unique<Model>(KeyLess{ nt.def.get() });
            for (auto& t : nt.all) defs.emplace(t->name, t);
            types.push_back(std::move(nt));
        }
    }
    bool World::listen(Tr t)
    {
        if (at.count(t)) return true;
        for (int i = 0; i < 30; ++i)
        {
            Address a;
            a.host = "127." + std::to_string(r.below(256)) + "." + std::to_string(r.below(256)) + "." + std::to_string(1 + r.below(250));
            a.port = static_cast<int>(r.range(10000, 32000));
            try
            {
                if (t == Tr::Uds1 || t == Tr::Uds2)
                {
                    if (scratch.empty()) scratch = makeScratch();
                    a.path = scratch + "/s" + std::to_string(static_cast<int>(t));
                }
                if (t != Tr::Local || !local) openListener(*host, t, a, local);
                at[t] = a;
                return true;
            }
            catch (const std::exception&) {}
        }
        return false;
    }
    bool World::startHost()
    {
        host = std::make_unique<dots::HostTransceiver>("host", io, policy, dots::Transceiver::transition_handler_t{ [this](const dots::Connection& c, std::exception_ptr e){ onHostTransition(c, e); } });
        newTypes.emplace(host->subscribe(dots::Transceiver::new_type_handler_t<>{ [this](const dt::Descriptor<>& d)
        {
            if (auto* s = d.as<dt::StructDescriptor>()) watchType(*s);
        } }));
        for (size_t i = 0; i < types.size(); ++i) if (auto* d = hostType(i)) watchType(*d);
        for (Tr t : o.transports) if (!listen(t)) return false;
        for (Tr t : o.transports) if ((t == Tr::Uds1 || t == Tr::Uds2) && scratch.empty()) scratch = makeScratch();
        return true;
    }
    void World::watchType(const dt::StructDescriptor& d)
    {
        size_t i = typeIndex(d.name());
        if (i == types.size() || types[i].witnessed || d.substructOnly()) return;
        types[i].witnessed = true;
        types[i].sub.emplace(host->subscribe(d, dots::Transceiver::transmission_handler_t{ [this, i](const io_::Transmission& t){ witness(i, t); } }));
    }
    void World::onHostTransition(const dots::Connection& c, std::exception_ptr)
    {
        if (ending) return;
        int s = static_cast<int>(c.state());
        uint32_t id = c.peerId();
        auto [it, fresh] = states.emplace(id, s);
        if (fresh) check(id > 1 && c.state() == dots::types::DotsConnectionState::connecting, "B05:identifier-not-unique", [&]{ return std::to_string(id); });
        else
        {
            auto rank = [](int x) { return x == static_cast<int>(dots::types::DotsConnectionState::connecting) ? 1 : x == static_cast<int>(dots::types::DotsConnectionState::early_subscribe) ? 2 : x == static_cast<int>(dots::types::DotsConnectionState::connected) ? 3 : 4; };
            check(rank(s) > rank(it->second), "H01:state-not-forward", [&]{ return std::to_string(id) + ": " + std::to_string(it->second) + " -> " + std::to_string(s); });
            it->second = s;
        }
        if (c.state() == dots::types::DotsConnectionState::early_subscribe || c.state() == dots::types::DotsConnectionState::connected)
        {
            for (auto& cl : clients) if (cl->name == c.peerName())
            {
                check(cl->id == 0 || cl->id == id, "B05:identifier-not-unique", [&]{ return cl->describe(); });
                cl->id = id;
                byId[id] = cl.get();
            }
        }
        if (c.state() == dots::types::DotsConnectionState::closed)
        {
            closedIds.insert(id);
            ctx.count("disconnects");
            if (auto b = byId.find(id); b != byId.end())
            {
                say("host closes " + b->second->name);
                b->second->closedAtHost = true;
                for (auto& m : b->second->memberships) if (!m.hClosed) m.hClosed = types[m.type].h.size();
            }
        }
    }
    bool World::sameTime(const Client* c, double a, double b) const { return c && c->approx() ? floatClose(a, b, 16) : a == b; }
    bool World::sameRec(const Client* c, const TypeDef& t, const Rec& a, const Rec& b) const
    {
        if (c && c->approx()) return TextCmp{}.rec(t, a, b);
        return maskOf(a) == maskOf(b) && recEq(t, a, b);
    }
    void World::witness(size_t ti, const io_::Transmission& t)
    {
        if (ending) return;
        NetType& nt = types[ti];
        const TypeDef& td = *nt.def;
        auto& h = t.header();
        bool complete = h.attributes.isValid() && h.sender.isValid() && h.sentTime.isValid() && h.isFromMyself.isValid() && h.serverSentTime.isValid();
        if (!check(complete, "B05:incomplete-header", [&]{ return "host: " + show(readRec(h)); })) return;
        Accepted a;
        a.pub.type = ti;
        a.pub.rec = readRec(*t.instance());
        a.pub.included = h.attributes->toValue();
        a.pub.remove = h.removeObj == true;
        a.sender = *h.sender;
        a.sentTime = h.sentTime->time_since_epoch().count();
        a.global = accepted++;
        double server = h.serverSentTime->time_since_epoch().count();
        check(server > started - 2 && server < nowSeconds() + 2, "B05:host-time", [&]{ return "host: " + std::to_string(server); });
        check(*h.isFromMyself == (a.sender == 1), "B05:own-mark", [&]{ return "host: " + show(readRec(h)); });
        ctx.count("accepted");
        auto text = [&]{ return std::string{ a.pub.remove ? "remove " : "" } + td.name + " " + show(a.pub.rec) + " included=" + std::to_string(a.pub.included) + " sender=" + std::to_string(a.sender); };
        auto matches = [&](const Client* c, const SentPub& p) { return p.type == ti && p.included == a.pub.included && p.remove == a.pub.remove && sameRec(c, td, a.pub.rec, p.rec); };
        if (a.sender == 1)
        {
            a.pub.rec = select(a.pub.rec, a.pub.included);
            a.byHost = true;
            if (!hostPending.empty() && matches(nullptr, hostPending.front())) hostPending.pop_front();
            else
            {
                auto it = td.cached && a.pub.remove && (td.keyMask() & ~maskOf(a.pub.rec)) == 0 ? nt.model->find(select(a.pub.rec, td.keyMask())) : nt.model->end();
                bool known = a.pub.remove && it != nt.model->end() && a.pub.included == td.keyMask();
                bool ofClosed = known && td.cleanup && closedIds.count(it->second.info.last);
                bool cleared = known && clearing.count(td.name);
                check(ofClosed || cleared || adopt, "B04:removal-without-reason", [&]{ return text() + (it != nt.model->end() ? ", last updated by " + std::to_string(it->second.info.last) : std::string{ ", not in the cache" }); });
                ctx.count(ofClosed ? "cleanup_removals" : "cleared_objects");
            }
        }
        else
        {
            auto b = byId.find(a.sender);
            if (adopt && b == byId.end() && states.count(a.sender))
            {
                check(!closedIds.count(a.sender), "H01:accepted-after-close", text);
                a.pub.rec = select(a.pub.rec, a.pub.included);
                ++adopted;
                ctx.count("objects_of_faulty_peers");
                if (tame) lenient = true;
                if (td.cached) fold(td, *nt.model, Pub{ a.pub.rec, a.pub.included, a.pub.remove, a.sender, a.sentTime }, nullptr);
                nt.h.push_back(std::move(a));
                return;
            }
            if (!check(b != byId.end(), "B05:unknown-sender", text)) return;
            Client* c = b->second;
            check(!c->closedAtHost, "H01:accepted-after-close", text);
            bool head = c->accepted < c->sent.size() && matches(c, c->sent[c->accepted]);
            if (!head)
            {
                for (auto& other : clients)
                {
                    if (other.get() == c || other->accepted >= other->sent.size()) continue;
                    check(!matches(other.get(), other->sent[other->accepted]), "B05:sender-of-another-client", [&]{ return text() + ", published by " + other->describe(); });
                    if (bad) return;
                }
                check(false, "B01:accepted-differs", [&]{ return text() + (c->accepted < c->sent.size() ? " instead of " + showSent(c->sent[c->accepted]) + " of " + types[c->sent[c->accepted].type].def->name : std::string{ ", which was not sent" }) + " by " + c->describe(); });
                return;
            }
            const SentPub& p = c->sent[c->accepted++];
            if (p.sentTime) check(sameTime(c, a.sentTime, *p.sentTime), "B05:sent-time", [&]{ return text() + ": " + std::to_string(a.sentTime) + " instead of " + std::to_string(*p.sentTime); });
            else check(a.sentTime > started - 2 && a.sentTime < nowSeconds() + 2, "B05:sent-time", [&]{ return text() + ": " + std::to_string(a.sentTime); });
        }
        if (td.cached) fold(td, *nt.model, Pub{ a.pub.rec, a.pub.included, a.pub.remove, a.sender, a.sentTime }, nullptr);
        nt.h.push_back(std::move(a));
    }
    SentPub World::generate(size_t type, bool viaRaw, int removePercent)
    {
        NetType& nt = types[type];
        const TypeDef& t = *nt.def;
        SentPub p;
        p.type = type;
        GenOpts key = nt.go;
        key.smallDomain = 3;
        Rec full = genRec(r, t, r.chance(60) ? key : nt.go, 0), keys = genRec(r, t, key, t.keyMask());
        for (auto& pd : t.props) if (pd.key) full[pd.tag] = keys.at(pd.tag);
        p.remove = t.cached && r.chance(removePercent);
        uint32_t all = t.allMask();
        switch (r.below(4))
        {
            case 0: p.included = maskOf(full); break;
            case 1: p.included = all; break;
            case 2: p.included = static_cast<uint32_t>(r.next()) & all; break;
            default: p.included = p.remove ? t.keyMask() : static_cast<uint32_t>(r.next() & r.next()) & all; break;
        }
        p.included |= t.keyMask();
        if (tame) for (auto& pd : t.props) if (auto it = full.find(pd.tag); it != full.end() && !pd.key) tameVal(pd.shape, it->second);
        p.full = full;
        p.rec = select(full, p.included);
        if (viaRaw && r.chance(60))
        {
            clock += static_cast<double>(1 + r.below(8)) / 4.0;
            p.sentTime = clock;
        }
        return p;
    }
    void World::hostPublish(size_t type)
    {
        auto* d = hostType(type);
        if (!d) return;
        SentPub p = generate(type, false);
        say("host " + types[type].def->name + " " + showSent(p).substr(0, 110));
        hostPending.push_back(p);
        const TypeDef& t = *types[type].def;
        try
        {
            auto any = makeAny(*d, p.full);
            if (p.remove && p.included == t.keyMask() && r.coin()) host->remove(any);
            else if (p.included == maskOf(p.full) && r.coin()) host->publish(any, std::nullopt, p.remove);
            else host->publish(any, dots::property_set_t{ r.coin() ? p.included : p.included & ~t.keyMask() }, p.remove);
        }
        catch (const std::exception& e) { check(false, "B01:publish-throws", [&]{ return std::string{ "host: " } + e.what(); }); }
        check(hostPending.empty(), "B01:publication-lost", [&]{ return "host's own " + t.name; });
    }
    Client* World::addClient(bool raw, Tr t)
    {
        std::string name = (raw ? "raw" : "guest") + std::to_string(nextName++);
        if (raw && t == Tr::Local) t = at.count(Tr::Tcp2) ? Tr::Tcp2 : t;
        if (raw && t == Tr::Local) raw = false;
        if (raw)
        {
            auto c = std::make_unique<RawClient>(*this, name, t);
            c->preload = r.chance(70);
            c->forge = r.chance(40);
            if (c->preload) for (size_t i = 0; i < types.size(); ++i) if (r.chance(30)) c->preloadJoins.push_back(i);
            if (r.chance(30)) c->maxRead = 1 + r.below(50);
            if (r.chance(30)) c->maxWrite = 1 + r.below(50);
            say("new " + c->describe());
            if (!c->connect()) { check(false, "H02:no-connection", [&]{ return c->describe(); }); return nullptr; }
            clients.push_back(std::move(c));
        }
        else
        {
            auto c = std::make_unique<GuestClient>(*this, name, t);
            c->policy = r.chance(70) ? dt::Registry::StaticTypePolicy::All : dt::Registry::StaticTypePolicy::InternalOnly;
            say("new " + c->describe());
            GuestClient* p = c.get();
            clients.push_back(std::move(c));
            if (!p->connect()) return nullptr;
        }
        ctx.count(std::string{ "clients_" } + trName(t));
        return clients.back().get();
    }
    std::vector<Client*> World::readyClients()
    {
        std::vector<Client*> v;
        for (auto& c : clients) if (c->ready()) v.push_back(c.get());
        return v;
    }
    void World::invariants()
    {
        for (auto& nt : types)
        {
            if (!nt.def->cleanup || !nt.def->cached) continue;
            for (auto& [k, obj] : *nt.model) check(!closedIds.count(obj.info.last), "B04:object-of-closed-client", [&]{ return nt.def->name + " " + show(obj.rec) + " of " + std::to_string(obj.info.last); });
        }
    }
    bool World::stepHost()
    {
        size_t n = 0;
        try
        {
            for (size_t k = 1 + r.below(4); k > 0 && !bad; --k)
            {
                size_t m = io.poll_one();
                n += m;
                if (!m) break;
            }
        }
        catch (const std::exception& e) { check(false, "*:exception-escapes-host", [&]{ return std::string{ e.what() }; }); }
        if (n) invariants();
        return n > 0;
    }
    bool World::step()
    {
        size_t k = r.below(clients.size() + 1 + clients.size() / 2 + extra.size());
        if (k >= clients.size() + 1 + clients.size() / 2) return extra[k - (clients.size() + 1 + clients.size() / 2)]();
        if (k >= clients.size()) return stepHost();
        return clients[k]->step();
    }
    bool World::pumpUntil(const std::function<bool()>& done, int ms)
    {
        int64_t end = tick() + ms;
        size_t idle = 0;
        while (!bad)
        {
            if (done()) return true;
            bool moved = stepHost();
            for (size_t i = 0; i < clients.size() && !bad; ++i) if (r.chance(80)) moved |= clients[i]->step();
            for (auto& f : extra) if (!bad) moved |= f();
            if (moved) idle = 0;
            else if (++idle > 10)
            {
                if (tick() > end) return done();
                ::usleep(idle > 200 ? 1000 : 50);
            }
            if (moved && tick() > end + 20000) return done();
        }
        return false;
    }
    void World::drain()
    {
        auto settled = [this]
        {
            for (auto& c : clients)
            {
                if (c->closing ? c->id != 0 && !c->closedAtHost : !c->ready()) return false;
            }
            return true;
        };
        if (!pumpUntil(settled))
        {
            if (bad) return;
            for (auto& c : clients)
            {
                if (c->closing) check(c->id == 0 || c->closedAtHost, "H01:end-unnoticed", [&]{ return c->describe(); });
                else check(c->ready(), "H01:never-connected", [&]{ return c->describe(); });
            }
            return;
        }
        frozen = true;
        size_t before = accepted;
        for (int round = 0; (round < 2 || accepted != before) && !bad; ++round)
        {
            before = accepted;
            for (auto* c : readyClients()) c->echo("e" + std::to_string(round));
            auto answered = [this] { for (auto& c : clients) if (!c->closing && c->echoesAnswered < c->echoesSent) return false; return true; };
            if (!pumpUntil(answered) && !bad)
            {
                for (auto& c : clients) check(c->closing || c->echoesAnswered == c->echoesSent, "B06:echo-unanswered", [&]{ return c->describe(); });
                break;
            }
        }
        frozen = false;
        for (auto& c : clients)
        {
            if (!c->ready()) continue;
            for (auto& [type, m] : c->current)
            {
                if (!m || !m->hLeaveSent) continue;
                m->hLeft = types[type].h.size();
                m->over = true;
                m = nullptr;
            }
        }
    }
    void World::checkpoint()
    {
        drain();
        if (bad) return;
        ctx.count("checkpoints");
        for (size_t i = 0; i < types.size(); ++i)
        {
            NetType& nt = types[i];
            auto* d = hostType(i);
            if (!nt.def->cached || !d) continue;
            auto* c = host->pool().find(*d);
            size_t n = c ? c->size() : 0;
            check(n == nt.model->size(), "B02:host-cache-size", [&]{ return nt.def->name + ": " + std::to_string(n) + " objects instead of " + std::to_string(nt.model->size()); });
            if (!c || bad) continue;
            for (const auto& [inst, info] : *c)
            {
                Rec rec = readRec(*inst);
                auto it = nt.model->find(select(rec, nt.def->keyMask()));
                if (!check(it != nt.model->end() && recEq(*nt.def, rec, it->second.rec) && maskOf(rec) == maskOf(it->second.rec), "B02:host-cache", [&]{ return nt.def->name + ": holds " + show(rec); })) return;
                check(infoMatches(info, it->second.info, it->second.info.op), "B05:clone-information", [&]{ return nt.def->name + ": " + showClone(info) + " instead of " + showInfo(it->second.info); });
                ctx.distinct("host_objects", hashRec(rec, hashStr(nt.def->name)));
            }
        }
        for (auto& cp : clients)
        {
            Client* c = cp.get();
            if (!c->ready()) continue;
            check(c->accepted == c->sent.size(), "B01:publication-lost", [&]{ return c->describe() + ": " + std::to_string(c->sent.size()) + " sent, " + std::to_string(c->accepted) + " accepted, next " + showSent(c->sent[c->accepted]); });
            for (auto& e : c->replies) check(e.optional, e.kind == 1 ? "B03:no-end-of-cache" : "B06:unanswered-request", [&]{ return c->describe() + ": kind " + std::to_string(e.kind) + (e.kind == 1 ? " " + types[e.type].def->name : ""); });
            check(c->inSnapshot == nullptr, "B03:no-end-of-cache", [&]{ return c->describe(); });
            for (auto& [type, m] : c->current)
            {
                if (!m || m->over || bad) continue;
                NetType& nt = types[type];
                m->checkpoints.emplace_back(m->live.size(), nt.h.size());
                if (!nt.def->cached) continue;
                auto* g = dynamic_cast<GuestClient*>(c);
                const Model& host = *nt.model;
                auto equal = [&](const Rec& rec, const char* where)
                {
                    Rec key = select(rec, nt.def->keyMask());
                    auto it = host.find(key);
                    // keys survive every transport unchanged, or there would be no cache to speak of
                    return check(it != host.end() && sameRec(c, *nt.def, rec, it->second.rec), "B02:replica", [&]{ return c->describe() + ": " + where + " of " + nt.def->name + " holds " + show(rec) + " instead of " + (it != host.end() ? show(it->second.rec) : std::string{ "nothing" }); });
                };
                check(m->replica->size() == host.size(), "B02:replica-size", [&]{ return c->describe() + ": " + nt.def->name + " " + std::to_string(m->replica->size()) + " objects instead of " + std::to_string(host.size()); });
                for (auto& [k, obj] : *m->replica) if (!bad) equal(obj.rec, "the fold of what was delivered");
                if (g && !bad)
                {
                    auto& cont = g->guest->container(*g->descriptor(type));
                    check(cont.size() == host.size(), "B02:container-size", [&]{ return c->describe() + ": " + nt.def->name + " " + std::to_string(cont.size()) + " objects instead of " + std::to_string(host.size()); });
                    for (const auto& [inst, info] : cont)
                    {
                        Rec rec = readRec(*inst);
                        if (!equal(rec, "the container")) return;
                        auto it = host.find(select(rec, nt.def->keyMask()));
                        check(info.lastUpdateFrom == it->second.info.last && info.modified.isValid() && sameTime(c, info.modified->time_since_epoch().count(), it->second.info.modified), "B05:clone-information", [&]{ return c->describe() + " " + nt.def->name + ": " + showClone(info) + " instead of " + showInfo(it->second.info); });
                    }
                    ctx.count("containers_compared");
                }
                ctx.count("replicas_compared");
            }
        }
    }
    Model World::modelAt(size_t type, size_t n) const
    {
        const NetType& nt = types[type];
        Model m{ KeyLess{ nt.def.get() } };
        for (size_t i = 0; i < n && i < nt.h.size(); ++i) fold(*nt.def, m, Pub{ nt.h[i].pub.rec, nt.h[i].pub.included, nt.h[i].pub.remove, nt.h[i].sender, nt.h[i].sentTime }, nullptr);
        return m;
    }
    void World::judge(Client& c, Membership& m)
    {
        NetType& nt = types[m.type];
        const TypeDef& td = *nt.def;
        size_t n = m.live.size();
        auto content = [&](const Delivered& d, const Accepted& a) { return d.included == a.pub.included && d.remove == a.pub.remove && sameRec(&c, td, d.rec, a.pub.rec); };
        auto origin = [&](const Delivered& d, const Accepted& a) { return d.sender == a.sender && sameTime(&c, d.sentTime, a.sentTime) && (!d.own || *d.own == (a.sender == c.id)); };
        auto inBounds = [&](size_t k)
        {
            if (m.hJoinMax && k > *m.hJoinMax) return false;
            for (auto& [live, h] : m.checkpoints) if (k + live != h) return false;
            if (m.hLeft && (k + n > *m.hLeft || k + n < *m.hLeaveSent)) return false;
            if (m.hClosed && k + n > *m.hClosed) return false;
            return true;
        };
        auto snapshots = [&](size_t k, std::string* why)
        {
            for (auto& s : m.snapshots)
            {
                if (!s.ended) continue;
                Model at = modelAt(m.type, k + s.liveBefore);
                std::set<const Rec*> seen;
                for (auto& d : s.objects)
                {
                    Rec key;
                    if ((td.keyMask() & ~maskOf(d.rec)) == 0) key = select(d.rec, td.keyMask());
                    auto it = (td.keyMask() & ~maskOf(d.rec)) == 0 ? at.find(key) : at.end();
                    bool ok = it != at.end() && seen.insert(&it->first).second && sameRec(&c, td, d.rec, it->second.rec) && d.included == maskOf(it->second.rec) && d.sender == it->second.info.last && sameTime(&c, d.sentTime, it->second.info.modified);
                    if (!ok)
                    {
                        if (why) *why = showDelivered(d) + " instead of " + (it == at.end() ? std::string{ "nothing" } : show(it->second.rec) + " " + showInfo(it->second.info));
                        return false;
                    }
                }
                if (seen.size() != at.size()) { if (why) *why = std::to_string(seen.size()) + " objects instead of " + std::to_string(at.size()); return false; }
            }
            return true;
        };
        size_t feasible = 0, first = 0, liveOnly = 0, contentOnly = 0, best = 0, bestAt = m.hJoin;
        std::string why;
        for (size_t k = m.hJoin; k + n <= nt.h.size(); ++k)
        {
            if (!inBounds(k)) continue;
            size_t i = 0;
            bool org = true;
            for (; i < n && content(m.live[i], nt.h[k + i]); ++i) org = org && origin(m.live[i], nt.h[k + i]);
            if (i > best || (best == 0 && i == 0)) { best = i; bestAt = k; }
            if (i < n) continue;
            ++contentOnly;
            if (!org) continue;
            ++liveOnly;
            if (!snapshots(k, &why)) continue;
            if (feasible++ == 0) first = k;
        }
        ctx.count("memberships_judged");
        ctx.maxOf("deliveries_of_one_membership", n);
        auto where = [&]
        {
            std::string s = c.describe() + " " + td.name + ": " + std::to_string(n) + " deliveries, " + std::to_string(nt.h.size()) + " accepted, joined from " + std::to_string(m.hJoin) + (m.hJoinMax ? " to " + std::to_string(*m.hJoinMax) : "");
            for (auto& [l, h] : m.checkpoints) s += ", " + std::to_string(l) + "@" + std::to_string(h);
            if (m.hLeft) s += ", left " + std::to_string(*m.hLeaveSent) + ".." + std::to_string(*m.hLeft);
            if (m.hClosed) s += ", closed " + std::to_string(*m.hClosed);
            if (best < n && bestAt + best < nt.h.size()) s += ", delivery " + std::to_string(best) + " is " + showDelivered(m.live[best]) + " where " + showSent(nt.h[bestAt + best].pub) + " sender=" + std::to_string(nt.h[bestAt + best].sender) + " was accepted";
            return s;
        };
        if (feasible == 0)
        {
            if (liveOnly > 0) check(false, "B03:snapshot-differs", [&]{ return where() + ": " + why; });
            else if (contentOnly > 0) check(false, "B05:origin-differs", [&]{ std::string s; for (size_t i = 0; i < n; ++i) if (!origin(m.live[i], nt.h[bestAt + i])) { s = ": " + showDelivered(m.live[i]) + " own=" + (m.live[i].own ? std::to_string(*m.live[i].own) : "?") + " instead of sender " + std::to_string(nt.h[bestAt + i].sender) + " sent " + std::to_string(nt.h[bestAt + i].sentTime); break; } return where() + s; });
            else check(false, "B01:deliveries-differ", where);
            return;
        }
        m.hJoin = first;
        m.hJoinMax = feasible == 1 ? std::optional<size_t>{ first } : std::nullopt;
    }
    void World::judgeAll()
    {
        for (auto& c : clients)
        {
            std::map<size_t, size_t> order;       // of reception -> of acceptance
            for (auto& m : c->memberships)
            {
                if (bad) return;
                judge(*c, m);
                if (bad) return;
                if (m.hJoinMax) for (size_t i = 0; i < m.live.size(); ++i) order[m.live[i].order] = types[m.type].h[m.hJoin + i].global;
            }
            size_t last = 0;
            for (auto& [o2, g] : order)
            {
                if (!check(g >= last, "B01:order-across-types", [&]{ return c->describe() + ": publication " + std::to_string(g) + " after " + std::to_string(last); })) return;
                last = g;
            }
        }
    }
    void World::finish()
    {
        if (!bad) checkpoint();
        if (!bad) judgeAll();
        uint64_t h = 0;
        for (auto& l : log) h = hashStr(l.substr(0, 40), mix(h));
        ctx.distinct("histories", h);
        if (ctx.wantSample() && !bad) ctx.sample(tail());
    }
}
