#include "net/world.h"
#include "core/textref.h"
#include <sys/stat.h>
#include <sys/socket.h>
#include <atomic>
#include <chrono>
#include <thread>

namespace vf
{
    namespace io_ = dots::io;
    // ---- clients ----------------------------------------------------------------------------------------------------
    std::string Client::describe() const { return name + "(" + trName(tr) + ", id " + std::to_string(id) + ")"; }

    Membership& Client::openMembership(size_t type)
    {
        NetType& nt = w.types[type];
        Membership*& m = current[type];
        if (!m)
        {
            memberships.emplace_back();
            m = &memberships.back();
            m->type = type;
            m->hJoin = nt.h.size();
            m->joinStamp = ++stamp;
            m->replica = std::make_unique<Model>(KeyLess{ nt.def.get() });
        }
        if (nt.def->cached)
        {
            m->snapshots.emplace_back();
            ServiceReply e;
            e.kind = 1;
            e.type = type;
            e.snapshot = &m->snapshots.back();
            auto* raw = dynamic_cast<RawClient*>(this);
            e.optional = !w.hostType(type) && !(raw && raw->wire.known.count(nt.def->name));
            replies.push_back(e);
        }
        return *m;
    }
    // the oldest reply that the host owes, if it is of the given kind; replies that it may leave out are skipped
    ServiceReply* Client::nextReply(int kind, const std::string& what)
    {
        for (size_t i = 0; i < replies.size(); ++i)
        {
            auto& e = replies[i];
            bool match = e.kind == kind && (kind != 1 || w.types[e.type].def->name == what);
            if (match)
            {
                replies.erase(replies.begin(), replies.begin() + static_cast<long>(i));
                return &replies.front();
            }
            if (!e.optional) return nullptr;
        }
        return nullptr;
    }
    void Client::onObject(size_t type, Delivered d)
    {
        NetType& nt = w.types[type];
        d.order = ++received;
        w.ctx.count("deliveries");
        auto it = current.find(type);
        Membership* m = it == current.end() ? nullptr : it->second;
        if (!w.check(m != nullptr, "B01:delivered-to-non-member", [&]{ return describe() + " receives " + nt.def->name + " " + showDelivered(d); })) return;
        if (d.fromCache)
        {
            ServiceReply* e = nextReply(1, nt.def->name);
            if (!w.check(e != nullptr, "B03:unrequested-snapshot", [&]{ return describe() + " receives " + nt.def->name + " " + showDelivered(d); })) return;
            Snapshot& s = *e->snapshot;
            if (!s.begun)
            {
                s.begun = true;
                s.liveBefore = m->live.size();
            }
            else w.check(!s.objects.empty() && *s.objects.back().fromCache == *d.fromCache + 1, "B03:count-of-objects-to-follow", [&]{ return describe() + ": " + showDelivered(d) + " after " + std::to_string(*s.objects.back().fromCache); });
            w.check(inSnapshot == nullptr || inSnapshot == m, "B03:snapshot-interrupted", [&]{ return describe() + ": by " + nt.def->name; });
            w.check(!d.remove, "B03:removal-in-snapshot", [&]{ return describe() + showDelivered(d); });
            inSnapshot = m;
            w.ctx.count("snapshot_objects");
            fold(*nt.def, *m->replica, Pub{ d.rec, d.included, false, d.sender, d.sentTime }, nullptr);
            s.objects.push_back(std::move(d));
        }
        else
        {
            w.check(inSnapshot == nullptr, "B03:snapshot-interrupted", [&]{ return describe() + ": by live " + nt.def->name; });
            w.ctx.count("live_deliveries");
            if (nt.def->cached) fold(*nt.def, *m->replica, Pub{ d.rec, d.included, d.remove, d.sender, d.sentTime }, nullptr);
            m->live.push_back(std::move(d));
        }
    }
    void Client::onCacheEnd(const std::string& typeName)
    {
        size_t type = w.typeIndex(typeName);
        if (type == w.types.size()) return;
        ServiceReply* e = nextReply(1, typeName);
        if (!w.check(e != nullptr, "B06:unrequested-or-misplaced-end-of-cache", [&]{ return describe() + ": " + typeName + " while " + std::to_string(replies.size()) + " replies are owed"; })) return;
        Snapshot& s = *e->snapshot;
        Membership* m = current.count(type) ? current[type] : nullptr;
        if (!s.begun && m) s.liveBefore = m->live.size();
        w.check(inSnapshot == nullptr || inSnapshot == m, "B03:snapshot-interrupted", [&]{ return describe() + ": end of " + typeName; });
        w.check(s.objects.empty() || *s.objects.back().fromCache == 0, "B03:snapshot-incomplete", [&]{ return describe() + ": " + typeName + " ends with " + std::to_string(*s.objects.back().fromCache) + " objects to follow"; });
        s.begun = s.ended = true;
        inSnapshot = nullptr;
        w.ctx.count("snapshots");
        replies.pop_front();
    }
    void Client::onEcho(const Rec& echo)
    {
        ServiceReply* e = nextReply(0, "");
        if (!w.check(e != nullptr, "B06:unrequested-or-misplaced-echo", [&]{ return describe() + ": " + show(echo) + " while " + std::to_string(replies.size()) + " replies are owed"; })) return;
        Rec want{ { 1, boolVal(false) }, { 2, u32Val(e->id) }, { 3, u32Val(e->id * 7 + 1) }, { 4, Val::ofStr(e->data) } };
        w.check(recEq(*internalTypes().at("DotsEcho"), echo, want), "B06:echo-content", [&]{ return describe() + ": " + show(echo) + " instead of " + show(want); });
        ++echoesAnswered;
        w.ctx.count("echoes");
        for (auto& m : memberships) if (!m.over && !m.hJoinMax && m.joinStamp < e->stamp) m.hJoinMax = w.types[m.type].h.size();
        if (auto* raw = dynamic_cast<RawClient*>(this)) for (auto& [s, n] : raw->told) if (s < e->stamp) raw->wire.confirmed.insert(n);
        replies.pop_front();
    }
    void Client::over(bool aborted)
    {
        for (auto& m : memberships)
        {
            if (m.over) continue;
            m.over = true;
            m.aborted = aborted;
        }
        // deliveries that still arrive must belong to a membership
    }

    // ---- a client without library code ---------------------------------------------------------------------------------
    bool RawClient::connect()
    {
        if (!sock.connectTo(tr, w.at.at(tr))) return false;
        if (tr == Tr::Ws) sock.out += Wire::wsUpgrade("localhost");
        return true;
    }
    void RawClient::sendRaw(const TypeDef& t, const Rec& header, const Rec& rec) { sock.out += wire.encode(t, header, rec, w.r); }
    void RawClient::send(const char* internal, Rec rec)
    {
        const TypeDef& t = *internalTypes().at(internal);
        Rec h{ { hdr::typeName, Val::ofStr(t.name) }, { hdr::attributes, psVal(maskOf(rec)) } };
        if (w.r.coin()) h[hdr::sentTime] = Val::ofDouble(Kind::TP, w.clock);
        if (w.r.coin()) h[hdr::removeObj] = boolVal(false);
        sendRaw(t, h, rec);
    }
    void RawClient::tell(size_t type)
    {
        std::vector<TypePtr> missing;
        for (auto& t : w.types[type].all) if (!t->internal && !wire.known.count(t->name)) missing.push_back(t);
        for (auto& t : missing) { wire.known[t->name] = t; told.emplace_back(++stamp, t->name); }
        if (!missing.empty()) w.say(name + " describes " + w.types[type].def->name);
        ::vf::describe(missing, [&](const TypeDef& t, Rec rec) { send(t.name.c_str(), std::move(rec)); });
    }
    void RawClient::publish(size_t type, const SentPub& p, Rng& r)
    {
        const TypeDef& t = *w.types[type].def;
        tell(type);
        Rec h{ { hdr::typeName, Val::ofStr(t.name) }, { hdr::attributes, psVal(p.included) } };
        if (p.sentTime) h[hdr::sentTime] = Val::ofDouble(Kind::TP, *p.sentTime);
        if (p.remove || r.coin()) h[hdr::removeObj] = boolVal(p.remove);
        if (forge)
        {
            if (r.coin()) h[hdr::sender] = u32Val(r.below(12));
            if (r.coin()) h[hdr::isFromMyself] = boolVal(r.coin());
            if (r.coin()) h[hdr::serverSentTime] = Val::ofDouble(Kind::TP, 12345.0);
            if (r.chance(30)) h[hdr::fromCache] = u32Val(r.below(4));
        }
        sendRaw(t, h, p.rec);
        sent.push_back(p);
        w.say(name + " " + t.name + " " + showSent(p).substr(0, 110));
    }
    void RawClient::join(size_t type)
    {
        const TypeDef& t = *w.types[type].def;
        if (w.r.chance(60)) tell(type);
        w.say(name + " joins " + t.name);
        openMembership(type);
        Val event = intVal(Kind::Enum, 0);
        for (auto& e : internalTypes().at("DotsMember")->find(2)->shape.def->enumerators) if (e.name == "join") event.u = static_cast<uint64_t>(static_cast<int64_t>(e.value));
        send("DotsMember", Rec{ { 1, Val::ofStr(t.name) }, { 2, event } });
    }
    void RawClient::leave(size_t type)
    {
        const TypeDef& t = *w.types[type].def;
        w.say(name + " leaves " + t.name);
        if (auto it = current.find(type); it != current.end() && it->second) it->second->hLeaveSent = w.types[type].h.size();
        Val event = intVal(Kind::Enum, 0);
        for (auto& e : internalTypes().at("DotsMember")->find(2)->shape.def->enumerators) if (e.name == "leave") event.u = static_cast<uint64_t>(static_cast<int64_t>(e.value));
        send("DotsMember", Rec{ { 1, Val::ofStr(t.name) }, { 2, event } });
    }
    void RawClient::echo(const std::string& data)
    {
        ServiceReply e;
        e.id = ++echoCounter;
        e.data = data;
        e.stamp = ++stamp;
        ++echoesSent;
        replies.push_back(e);
        if (w.r.chance(10)) send("DotsEcho", Rec{ { 1, boolVal(false) }, { 2, u32Val(77) }, { 4, Val::ofStr("no request") } });
        send("DotsEcho", Rec{ { 1, boolVal(true) }, { 2, u32Val(e.id) }, { 3, u32Val(e.id * 7 + 1) }, { 4, Val::ofStr(data) } });
    }
    void RawClient::requestDescriptors(const std::vector<std::string>& white, const std::vector<std::string>& black)
    {
        ServiceReply e;
        e.kind = 2;
        for (auto& n : w.hostTypesNow())
        {
            if (!white.empty() && std::find(white.begin(), white.end(), n) == white.end()) continue;
            if (std::find(black.begin(), black.end(), n) != black.end()) continue;
            e.must.push_back(n);
        }
        replies.push_back(e);
        Rec rec;
        if (!white.empty() || w.r.coin()) for (auto& [t, v] : namesVal(1, white)) rec[t] = v;
        if (!black.empty() || w.r.coin()) for (auto& [t, v] : namesVal(2, black)) rec[t] = v;
        w.say(name + " requests descriptors " + show(rec).substr(0, 100));
        send("DotsDescriptorRequest", rec);
    }
    void RawClient::clearCache(const std::vector<std::string>& names)
    {
        for (auto& n : names) w.clearing.insert(n);
        w.say(name + " clears " + show(namesVal(1, names)));
        send("DotsClearCache", namesVal(1, names));
    }
    void RawClient::end(int mode)
    {
        w.say(name + " ends, mode " + std::to_string(mode));
        closing = true;
        over(true);
        if (mode == 0) send("DotsMsgError", Rec{ { 1, intVal(Kind::I32, 0) } });
        else if (mode == 1) send("DotsMsgError", Rec{ { 1, intVal(Kind::I32, 5) }, { 2, Val::ofStr("error of the client") } });
        else if (mode == 2) { sock.step(1 << 20, 0); if (sock.pending() == 0 || w.r.coin()) sock.shutdownWrite(); else sock.close(); }
        else sock.reset();
    }
    void RawClient::dead()
    {
        if (!closing) w.check(expectRefusal, "*:connection-of-healthy-client-closed", [&]{ return describe() + (error ? ": " + error->second : "") + " (last error reported: " + g_log->last + ")"; });
        closing = true;
        state = 5;
        sock.close();
        over(true);
    }
    bool RawClient::step()
    {
        if (!sock.open()) return false;
        size_t moved = sock.step(w.r.chance(70) ? maxWrite : 1 + w.r.below(maxWrite), stalled ? 0 : w.r.chance(70) ? maxRead : 1 + w.r.below(maxRead));
        if (!sock.in.empty()) { wire.feed(sock.in.data(), sock.in.size()); sock.in.clear(); }
        Frame f;
        while (!w.bad && wire.next(f, &sock.out)) onFrame(f);
        w.check(wire.problem.empty(), "I01:malformed-stream", [&]{ return describe() + ": " + wire.problem; });
        w.check(wire.typeProblem.empty(), "I02:description", [&]{ return describe() + ": " + wire.typeProblem; });
        if (sock.eof || sock.failed || wire.closedFrame) { dead(); ++moved; }
        return moved > 0;
    }
    void RawClient::onFrame(Frame& f)
    {
        w.ctx.count("frames");
        w.check(!error, "H01:frame-after-error", [&]{ return describe() + ": " + f.name; });
        if (f.name == "DotsMsgHello")
        {
            w.check(state == 0, "H01:hello", [&]{ return describe() + " in state " + std::to_string(state); });
            state = 2;
            send("DotsMsgConnect", Rec{ { 1, Val::ofStr(name) }, { 2, boolVal(preload) } });
        }
        else if (f.name == "DotsMsgConnectResponse")
        {
            if (state == 2)
            {
                w.check(f.rec.count(2) && f.rec.at(2).u && f.rec.count(5) && f.rec.count(3) && (f.rec.at(3).u != 0) == preload, "H01:connect-response", [&]{ return describe() + ": " + show(f.rec); });
                uint32_t got = f.rec.count(5) ? static_cast<uint32_t>(f.rec.at(5).u) : 0;
                w.check(got == id && id != 0, "B05:identifier-told", [&]{ return describe() + " is told " + std::to_string(got); });
                if (!preload) { state = 4; return; }
                state = 3;
                for (size_t t : preloadJoins) join(t);
                send("DotsMsgConnect", Rec{ { 3, boolVal(true) } });
            }
            else
            {
                w.check(state == 3 && f.rec.count(4) && f.rec.at(4).u, "H01:preload-finished", [&]{ return describe() + ": " + show(f.rec) + " in state " + std::to_string(state); });
                state = 4;
            }
        }
        else if (f.name == "DotsMsgError")
        {
            error.emplace(f.rec.count(1) ? f.rec.at(1).u : 99, f.rec.count(2) ? f.rec.at(2).s : "");
            if (!closing && !expectRefusal) w.check(false, "*:connection-of-healthy-client-closed", [&]{ return describe() + ": " + show(f.rec); });
        }
        else if (f.name == "DotsCacheInfo")
        {
            if (f.rec.count(3) && f.rec.at(3).u)
            {
                w.check(f.rec.count(1), "B03:end-without-type", [&]{ return show(f.rec); });
                if (f.rec.count(1)) onCacheEnd(f.rec.at(1).s);
            }
            else if (f.rec.count(4) && f.rec.at(4).u)
            {
                ServiceReply* e = nextReply(2, "");
                if (!w.check(e != nullptr, "B06:unrequested-or-misplaced-end-of-descriptors", [&]{ return describe(); })) return;
                for (auto& n : e->must) w.check(wire.known.count(n), "B06:descriptor-missing", [&, n=n]{ return describe() + ": " + n; });
                w.ctx.count("descriptor_requests");
                replies.pop_front();
            }
            else w.check(false, "B06:cache-info", [&]{ return describe() + ": " + show(f.rec); });
        }
        else if (f.name == "DotsEcho") onEcho(f.rec);
        else if (f.name == "StructDescriptorData" || f.name == "EnumDescriptorData")
        {
            w.check(state >= 3, "H01:description-before-connected", [&]{ return describe(); });
            if (!f.rec.count(1)) return;
            auto d = w.defs.find(f.rec.at(1).s);
            auto k = wire.known.find(f.rec.at(1).s);
            if (d == w.defs.end() || k == wire.known.end()) return;
            w.ctx.count("descriptions");
            auto text = [](const TypeDef& t)
            {
                std::vector<std::string> v;
                for (auto& e : t.enumerators) v.push_back(std::to_string(e.tag) + " " + e.name + " " + std::to_string(e.value) + ";");
                for (auto& p : t.props) v.push_back(std::to_string(p.tag) + " " + p.name + " " + p.shape.typeName() + (p.key ? " key;" : ";"));
                std::sort(v.begin(), v.end());
                std::string s = (t.cached ? "cached " : "") + std::string{ t.cleanup ? "cleanup " : "" } + (t.substructOnly ? "substruct " : "") + (t.persistent ? "persistent " : "") + (t.local ? "local " : "") + (t.isEnum ? "enum " : "");
                for (auto& x : v) s += x;
                return s;
            };
            TypeDef want = *d->second;
            if (want.isEnum) want.cached = k->second->cached;
            w.check(text(want) == text(*k->second), "I02:description-differs", [&]{ return describe() + ": " + d->first + " is described as " + text(*k->second) + " instead of " + text(*d->second); });
        }
        else if (size_t type = w.typeIndex(f.name); type < w.types.size())
        {
            w.check(state >= 3, "H01:object-before-connected", [&]{ return describe() + ": " + f.name; });
            Delivered d;
            d.rec = f.rec;
            auto& h = f.header;
            bool complete = h.count(hdr::attributes) && h.count(hdr::sender) && h.count(hdr::sentTime) && h.count(hdr::serverSentTime);
            if (!w.check(complete, "B05:incomplete-header", [&]{ return describe() + ": " + show(h); })) return;
            d.included = static_cast<uint32_t>(h.at(hdr::attributes).u);
            d.remove = h.count(hdr::removeObj) && h.at(hdr::removeObj).u;
            d.sender = static_cast<uint32_t>(h.at(hdr::sender).u);
            d.sentTime = h.at(hdr::sentTime).asDouble();
            d.serverSent = h.at(hdr::serverSentTime).asDouble();
            if (h.count(hdr::fromCache)) d.fromCache = static_cast<uint32_t>(h.at(hdr::fromCache).u);
            w.check(d.serverSent > w.started - 2 && d.serverSent < nowSeconds() + 2, "B05:host-time", [&]{ return describe() + ": " + std::to_string(d.serverSent); });
            onObject(type, std::move(d));
        }
        else w.check(false, "B06:unexpected-object", [&]{ return describe() + ": " + f.name + " " + show(f.rec); });
    }

    // ---- a relay ------------------------------------------------------------------------------------------------------
    Relay::~Relay()
    {
        if (listenFd >= 0) ::close(listenFd);
        if (!at.path.empty()) ::unlink(at.path.c_str());
    }
    bool Relay::step(Rng& r)
    {
        if (!accepted)
        {
            int f = acceptFrom(listenFd);
            if (f < 0) return false;
            a.adopt(f);
            accepted = true;
            if (!b.connectTo(tr, to)) { a.close(); return true; }
        }
        size_t moved = 0;
        auto chunk = [&]() -> size_t { return r.chance(10) ? 1 << 16 : 1 + r.below(maxChunk); };
        auto move = [&](Sock& from, Sock& dest)
        {
            if (!from.open() || !dest.open()) return;
            if (dest.pending() < 4 * maxChunk + 65536) { size_t n = from.step(0, chunk()); moved += n; pieces += n > 0; }
            dest.out.append(from.in.begin(), from.in.end());
            from.in.clear();
            moved += dest.step(chunk(), 0);
            if (from.eof && dest.pending() == 0) { dest.shutdownWrite(); from.close(); }
            else if (dest.failed) { from.close(); dest.close(); }
        };
        move(a, b);
        move(b, a);
        if (!a.open() || !b.open()) { if (a.pending() == 0) a.close(); if (b.pending() == 0) b.close(); }
        return moved > 0;
    }

    // ---- a client of the library --------------------------------------------------------------------------------------
    GuestClient::~GuestClient()
    {
        if (w.r.coin()) subs.clear();
        guest.reset();
        subs.clear();
        work.reset();
        io.reset();
    }
    const dt::StructDescriptor* GuestClient::descriptor(size_t type) const { return guest ? guest->registry().findStructType(w.types[type].def->name) : nullptr; }
    bool GuestClient::canPublish(size_t type) const { return descriptor(type) != nullptr; }
    bool GuestClient::canJoin(size_t type) const { auto it = current.find(type); return it == current.end() || !it->second; }
    void GuestClient::define(size_t type)
    {
        if (descriptor(type)) return;
        buildTypes(guest->registry(), w.types[type].all);
    }
    bool GuestClient::connect()
    {
        io = std::make_unique<dots::asio::io_context>();
        work = std::make_unique<dots::asio::executor_work_guard<dots::asio::io_context::executor_type>>(dots::asio::make_work_guard(*io));
        bool early = w.r.coin();
        auto services = [this]
        {
            subs.push_back(guest->subscribe(dots::types::DotsCacheInfo::_Descriptor(), dots::Transceiver::transmission_handler_t{ [this](const io_::Transmission& t)
            {
                auto& i = t.instance()->_to<dots::types::DotsCacheInfo>();
                if (i.endTransmission == true && i.typeName.isValid()) onCacheEnd(*i.typeName);
            } }));
            subs.push_back(guest->subscribe(dots::types::DotsEcho::_Descriptor(), dots::Transceiver::transmission_handler_t{ [this](const io_::Transmission& t){ onEcho(readRec(*t.instance())); } }));
        };
        guest = std::make_unique<dots::GuestTransceiver>(name, *io, policy, dots::Transceiver::transition_handler_t{ [this, services, early](const dots::Connection& c, std::exception_ptr)
        {
            int s = static_cast<int>(c.state());
            transitions.push_back(s);
            if (c.state() == dots::types::DotsConnectionState::early_subscribe && early)
            {
                services();
                for (size_t t = 0; t < w.types.size(); ++t) if (descriptor(t) && w.r.chance(30)) join(t);
            }
            if (c.state() == dots::types::DotsConnectionState::connected)
            {
                if (!early) services();
                connectedSeen = true;
                w.check(c.selfId() == id && id != 0, "B05:identifier-told", [&]{ return describe() + " is told " + std::to_string(c.selfId()); });
            }
            if (c.state() == dots::types::DotsConnectionState::closed)
            {
                w.check(!closedSeen, "H01:closed-twice", [&]{ return describe(); });
                closedSeen = true;
                if (!closing) w.check(expectRefusal, "*:connection-of-healthy-client-closed", [&]{ return describe() + " (last error reported: " + g_log->last + ")"; });
                closing = true;
                over(true);
            }
        } });
        Address to;
        if (tr != Tr::Local) to = w.at.at(tr);
        if (tr != Tr::Local && w.r.chance(w.o.relayPercent))
        {
            relay = std::make_unique<Relay>();
            relay->tr = tr;
            relay->to = to;
            relay->maxChunk = w.r.coin() ? 1 + w.r.below(9) : 1 + w.r.below(4000);
            for (int i = 0; i < 30 && relay->listenFd < 0; ++i)
            {
                relay->at.host = "127." + std::to_string(w.r.below(256)) + "." + std::to_string(w.r.below(256)) + "." + std::to_string(1 + w.r.below(250));
                relay->at.port = static_cast<int>(w.r.range(10000, 32000));
                if (tr == Tr::Uds1 || tr == Tr::Uds2) relay->at.path = w.scratch + "/r" + std::to_string(w.nextName++);
                relay->listenFd = listenOn(tr, relay->at);
            }
            if (relay->listenFd < 0) return false;
            to = relay->at;
        }
        // types known before the connection is opened
        for (size_t t = 0; t < w.types.size(); ++t) if (w.r.chance(50)) define(t);
        dt::DescriptorMap pub, sub;
        if (early && w.r.chance(60)) for (size_t t = 0; t < w.types.size(); ++t) if (auto* d = descriptor(t))
        {
            if (d->internal() || !w.r.chance(30)) continue;
            pub.emplace(const_cast<dt::Descriptor<>&>(static_cast<const dt::Descriptor<>&>(*d)));
        }
        io_::channel_ptr_t channel;
        if (tr == Tr::Ws)
        {
            std::atomic<bool> done{ false };
            std::thread t([&]{ try { channel = openChannel(*io, tr, to, nullptr); } catch (...) {} done = true; });
            w.pumpUntil([&]{ if (relay) relay->step(w.r); return done.load(); }, 15000);
            t.join();
            if (!channel) return w.check(false, "H02:no-connection", [&]{ return describe(); });
        }
        else channel = openChannel(*io, tr, to, w.local);
        guest->open(std::move(pub), std::move(sub), std::nullopt, std::move(channel));
        return true;
    }
    bool GuestClient::step()
    {
        size_t n = 0;
        try { n = io ? io->poll_one() : 0; }
        catch (const std::exception& e) { w.check(false, "*:exception-escapes-guest", [&]{ return describe() + ": " + e.what(); }); }
        if (io && io->stopped()) io->restart();
        bool moved = n > 0;
        if (relay) moved |= relay->step(w.r);
        return moved;
    }
    void GuestClient::observe(size_t type, const io_::Transmission& t)
    {
        Delivered d;
        d.rec = readRec(*t.instance());
        auto& h = t.header();
        bool complete = h.attributes.isValid() && h.sender.isValid() && h.sentTime.isValid() && h.isFromMyself.isValid();
        if (!w.check(complete, "B05:incomplete-header", [&]{ return describe() + ": " + show(readRec(h)); })) return;
        d.included = h.attributes->toValue();
        d.remove = h.removeObj == true;
        d.sender = *h.sender;
        d.sentTime = h.sentTime->time_since_epoch().count();
        d.own = *h.isFromMyself;
        if (h.fromCache.isValid()) d.fromCache = *h.fromCache;
        onObject(type, std::move(d));
    }
    void GuestClient::publish(size_t type, const SentPub& p, Rng& r)
    {
        const TypeDef& t = *w.types[type].def;
        w.say(name + " " + t.name + " " + showSent(p).substr(0, 110));
        auto any = makeAny(*descriptor(type), p.full);
        sent.push_back(p);
        try
        {
            if (p.remove && p.included == t.keyMask() && r.coin()) guest->remove(any);
            else if (p.included == maskOf(p.full) && r.coin()) guest->publish(any, std::nullopt, p.remove);
            else guest->publish(any, dots::property_set_t{ r.coin() ? p.included : p.included & ~t.keyMask() }, p.remove);
        }
        catch (const std::exception& e) { w.check(false, "B01:publish-throws", [&]{ return describe() + ": " + e.what(); }); }
    }
    void GuestClient::join(size_t type)
    {
        define(type);
        if (!canJoin(type)) return;
        w.say(name + " subscribes " + w.types[type].def->name);
        openMembership(type);
        try
        {
            subs.push_back(guest->subscribe(*descriptor(type), dots::Transceiver::transmission_handler_t{ [this, type](const io_::Transmission& t){ observe(type, t); } }));
        }
        catch (const std::exception& e) { w.check(false, "B01:subscribe-throws", [&]{ return describe() + ": " + e.what(); }); }
    }
    void GuestClient::echo(const std::string& data)
    {
        ServiceReply e;
        e.id = ++echoCounter;
        e.data = data;
        e.stamp = ++stamp;
        ++echoesSent;
        replies.push_back(e);
        guest->publish(dots::types::DotsEcho{ .request = true, .identifier = e.id, .sequenceNumber = e.id * 7 + 1, .data = data });
    }
    void GuestClient::end(int mode)
    {
        w.say(name + " ends, mode " + std::to_string(mode));
        closing = true;
        over(true);
        if (mode >= 2 && relay) { if (mode == 3) { relay->a.reset(); relay->b.reset(); } else { relay->a.close(); relay->b.close(); } return; }
        if (w.r.coin()) subs.clear();
        guest.reset();
        subs.clear();
        if (mode >= 2) { work.reset(); io.reset(); }
    }

}
