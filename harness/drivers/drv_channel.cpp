// I01: two ends of the library over every transport; what one end transmits is what the other one receives, in that order, however the
// stream is cut, delayed and filled.
#include "net/netcase.h"
#include <dots/io/channels/TcpListener.h>
#include <dots/io/channels/TcpChannel.h>
#include <dots/io/channels/UdsListener.h>
#include <dots/io/channels/UdsChannel.h>
#include <dots/io/channels/WebSocketListener.h>
#include <dots/io/channels/WebSocketChannel.h>
#include <thread>
#include <atomic>

using namespace vf;
namespace io_ = dots::io;

namespace
{
    using Io = dots::asio::io_context;
    struct Message { const NetType* type; Rec header; Rec rec; size_t size; bool plain; };

    const dt::StructDescriptor& compiled(const std::string& name) { return name == "DotsEcho" ? dots::types::DotsEcho::_Descriptor() : staticType(name); }
    struct Link;
    struct End
    {
        Link* link = nullptr;
        dt::Registry* registry = nullptr;
        io_::channel_ptr_t channel;
        std::deque<std::shared_ptr<Message>> expected;     // what the other end transmitted
        size_t outstanding = 0, received = 0, described = 0, pauses = 0, ended = 0;
        bool paused = false, pausing = false, full = false, released = false, receiving = false;
        std::string error;
    };
    struct Link
    {
        std::string name;
        Io* io = nullptr;                     // of the client
        std::unique_ptr<Io> own;
        std::unique_ptr<dt::Registry> registry;
        std::unique_ptr<Relay> relay;
        End server, client;
        size_t stalled = 0;
        bool asyncConnected = false;
        std::string connectError;
    };

    struct ChannelCase : Case
    {
        Io io;
        dt::Registry registry;
        std::unique_ptr<io_::Listener> listener;
        std::vector<io_::channel_ptr_t> accepted;
        std::vector<std::unique_ptr<Link>> links;
        std::vector<std::unique_ptr<NetType>> types;
        Tr tr = Tr::Tcp2;
        Address at;
        std::string listenerError;
        bool exact = true;
        size_t transmitted = 0, bytes = 0, largest = 0;

        ChannelCase(Ctx& c, Rng& rng) : Case(c, rng), registry(std::nullopt, rng.coin() ? dt::Registry::StaticTypePolicy::All : dt::Registry::StaticTypePolicy::InternalOnly) {}
        ~ChannelCase() override
        {
            for (auto& l : links) { l->server.channel.reset(); l->client.channel.reset(); }
            accepted.clear();
            listener.reset();
            for (auto& l : links) if (l->relay && !l->relay->at.path.empty()) ::unlink(l->relay->at.path.c_str());
            links.clear();
            if (!at.path.empty()) ::unlink(at.path.c_str());
        }
        bool stepLink(Link& l) { bool moved = false; if (l.relay) { if (l.stalled > 0) { --l.stalled; moved = true; } else moved = l.relay->step(r); } return moved; }
        bool step()
        {
            size_t k = r.below(links.size() * 2 + 1);
            if (k == 0) return poll(io) || stepAll();
            Link& l = *links[(k - 1) / 2];
            if (k % 2) return l.own ? poll(*l.io) || stepAll() : poll(io) || stepAll();
            return stepLink(l) || stepAll();
        }
        bool stepAll()
        {
            bool moved = poll(io);
            for (auto& l : links) { if (l->own) moved |= poll(*l->io); moved |= stepLink(*l); }
            return moved;
        }
        // ---- types ----
        void addTypes()
        {
            std::vector<const char*> pool{ "VAll", "VVec", "VMulti", "VKeyObj", "VPlain", "VPlain2", "VSingle", "VClean", "VEvent", "VEvent2", "VHolder", "VIntern", "DotsEcho" };
            size_t n = 1 + r.below(4);
            for (size_t i = 0; i < n; ++i)
            {
                auto t = std::make_unique<NetType>();
                if (r.chance(60))
                {
                    const dt::StructDescriptor& d = compiled(r.pick(pool));
                    t->def = defOf(d);
                    t->compiled = &d;
                    collectTypes(t->def, t->all);
                }
                else
                {
                    TypeGen gen;
                    gen.prefix = "C" + std::to_string(i) + "x";
                    TypeGenOpts to;
                    to.maxProps = r.chance(10) ? 31 : 8;
                    to.keyless = true;
                    t->def = gen.makeStruct(r, to);
                    t->all = gen.types;
                }
                bool again = false;
                for (auto& o : types) again |= o->def->name == t->def->name;
                if (again) continue;
                t->go.nan = false;
                t->go.inf = exact;
                t->go.utf8 = !exact;
                t->go.maxVec = 4;
                t->go.bigPercent = 3;
                t->go.bigSize = exact ? 100000 : 20000;
                types.push_back(std::move(t));
            }
        }
        const dt::StructDescriptor* find(End& e, const NetType& t) { return e.registry->findStructType(t.def->name); }
        void know(dt::Registry& reg, const NetType& t) { if (!reg.findStructType(t.def->name)) { std::vector<TypePtr> missing; for (auto& x : t.all) if (!reg.findType(x->name)) missing.push_back(x); buildTypes(reg, missing); } }
        // ---- connections ----
        bool listen()
        {
            for (int i = 0; i < 30 && !listener; ++i)
            {
                at.host = "127." + std::to_string(r.below(256)) + "." + std::to_string(r.below(256)) + "." + std::to_string(1 + r.below(250));
                at.port = static_cast<int>(r.range(10000, 32000));
                if (tr == Tr::Uds1 || tr == Tr::Uds2) at.path = scratch + "/l" + std::to_string(i);
                std::string port = std::to_string(at.port);
                try
                {
                    if (tr == Tr::Tcp2) listener = std::make_unique<io_::v2::TcpListener>(io, at.host, port);
                    else if (tr == Tr::Tcp1) listener = std::make_unique<io_::v1::TcpListener>(io, at.host, port);
                    else if (tr == Tr::Ws) listener = std::make_unique<io_::WebSocketListener>(io, at.host, port);
                    else if (tr == Tr::Uds2) listener = std::make_unique<io_::posix::v2::UdsListener>(io, std::string_view{ at.path });
                    else if (tr == Tr::Uds1) listener = std::make_unique<io_::posix::v1::UdsListener>(io, std::string_view{ at.path });
                    else listener = std::make_unique<io_::LocalListener>(io);
                }
                catch (const std::exception&) {}
            }
            if (!listener) return false;
            listener->asyncAccept(io_::Listener::accept_handler_t{ [this](io_::Listener&, io_::channel_ptr_t c) { accepted.push_back(std::move(c)); return true; } },
                io_::Listener::error_handler_t{ [this](io_::Listener&, std::exception_ptr e) { try { std::rethrow_exception(e); } catch (const std::exception& x) { listenerError = x.what(); } } });
            return true;
        }
        io_::channel_ptr_t open(Link& l, const Address& to)
        {
            std::string port = std::to_string(to.port);
            int variant = static_cast<int>(r.below(4));
            if ((tr == Tr::Tcp1 || tr == Tr::Tcp2) && variant == 0)
            {
                auto done = [&l](const boost::system::error_code& e) { l.asyncConnected = true; if (e) l.connectError = e.message(); };
                io_::channel_ptr_t c;
                if (tr == Tr::Tcp2) c = io_::make_channel<io_::v2::TcpChannel>(*l.io, to.host, port, done);
                else c = io_::make_channel<io_::v1::TcpChannel>(*l.io, to.host, port, done);
                pump([&]{ return l.asyncConnected; }, [&]{ return stepAll(); });
                check(l.asyncConnected && l.connectError.empty(), "not-connected", [&]{ return "asynchronous connect: " + l.connectError; });
                ctx.count("connected_asynchronously");
                return c;
            }
            if (variant == 1)
            {
                std::string tcp = "tcp://" + to.host + ":" + port;
                if (tr == Tr::Tcp2) return io_::make_channel<io_::v2::TcpChannel>(*l.io, io_::Endpoint{ tcp });
                if (tr == Tr::Tcp1) return io_::make_channel<io_::v1::TcpChannel>(*l.io, io_::Endpoint{ tcp });
                if (tr == Tr::Ws) return io_::make_channel<io_::WebSocketChannel>(*l.io, io_::Endpoint{ "ws://" + to.host + ":" + port });
                if (tr == Tr::Uds2) return io_::make_channel<io_::posix::v2::UdsChannel>(*l.io, io_::Endpoint{ "uds:" + to.path });
                if (tr == Tr::Uds1) return io_::make_channel<io_::posix::v1::UdsChannel>(*l.io, io_::Endpoint{ "uds:" + to.path });
            }
            return openChannel(*l.io, tr, to, listener.get());
        }
        bool connect(size_t i)
        {
            auto lp = std::make_unique<Link>();
            Link& l = *lp;
            l.name = "link" + std::to_string(i);
            if (r.coin()) { l.own = std::make_unique<Io>(); l.io = l.own.get(); } else l.io = &io;
            l.registry = std::make_unique<dt::Registry>(std::nullopt, r.coin() ? dt::Registry::StaticTypePolicy::All : dt::Registry::StaticTypePolicy::InternalOnly);
            Address to = at;
            if (tr != Tr::Local && r.chance(60))
            {
                auto rel = std::make_unique<Relay>();
                rel->tr = tr;
                rel->to = at;
                rel->maxChunk = r.pick(std::vector<size_t>{ 1, 2, 3, 7, 64, 1000, 5000, 70000 });
                for (int k = 0; k < 30 && rel->listenFd < 0; ++k)
                {
                    rel->at = at;
                    rel->at.port = static_cast<int>(r.range(10000, 32000));
                    if (!at.path.empty()) rel->at.path = scratch + "/r" + std::to_string(i) + "x" + std::to_string(k);
                    rel->listenFd = listenOn(tr, rel->at);
                }
                if (rel->listenFd >= 0) { to = rel->at; say(l.name + " through a relay of " + std::to_string(rel->maxChunk)); l.relay = std::move(rel); }
            }
            links.push_back(std::move(lp));
            size_t before = accepted.size();
            if (tr == Tr::Ws)
            {
                std::atomic<bool> done{ false };
                std::string what;
                // the client connects synchronously, but the server is in this thread
                Io* mine = l.io;
                Io other;
                if (!l.own) { l.own = std::make_unique<Io>(); mine = l.own.get(); l.io = mine; }
                std::thread t([&]{ try { l.client.channel = open(l, to); } catch (const std::exception& e) { what = e.what(); } done = true; });
                pump([&]{ return done.load(); }, [&]{ return poll(io) | stepLink(l); }, 20000);
                t.join();
                if (!check(l.client.channel != nullptr, "not-connected", [&]{ return what; })) return false;
            }
            else
            {
                try { l.client.channel = open(l, to); }
                catch (const std::exception& e) { return check(false, "not-connected", [&]{ return std::string{ e.what() }; }); }
            }
            pump([&]{ return accepted.size() > before; }, [&]{ return stepAll(); });
            if (!check(accepted.size() == before + 1, "not-accepted", [&]{ return l.name + " " + std::to_string(accepted.size() - before) + " " + listenerError; })) return false;
            l.server.channel = accepted.back();
            accepted.back().reset();
            l.server.link = l.client.link = &l;
            l.server.registry = &registry;
            l.client.registry = l.registry.get();
            l.server.channel->init(registry);
            l.client.channel->init(*l.registry);
            receive(l, l.server, "server");
            receive(l, l.client, "client");
            ctx.count("links");
            return !bad;
        }
        void receive(Link& l, End& e, const char* role)
        {
            e.receiving = true;
            e.channel->asyncReceive(io_::Channel::receive_handler_t{ [this, &l, &e, role](io_::Transmission t)
            {
                observe(l, e, role, t);
                if (tr != Tr::Local && e.pausing && r.chance(20))
                {
                    e.paused = true;
                    ++e.pauses;
                    e.channel->cancelReceive();
                    return false;
                }
                return true;
            } }, io_::Channel::error_handler_t{ [&e](std::exception_ptr p) { ++e.ended; e.receiving = false; try { std::rethrow_exception(p); } catch (const std::exception& x) { e.error = x.what(); } catch (...) { e.error = "?"; } } });
        }
        // ---- the monitor ----
        void observe(Link& l, End& e, const char* role, const io_::Transmission& t)
        {
            auto& h = t.header();
            std::string name = h.typeName.isValid() ? *h.typeName : "";
            if (name == "StructDescriptorData" || name == "EnumDescriptorData") { ++e.described; return; }
            std::string who = l.name + " " + role + " over " + trName(tr) + ": ";
            if (!check(!e.paused, "received-while-paused", [&]{ return who + name; })) return;
            Rec rec = readRec(*t.instance()), header = readRec(h);
            if (!check(!e.expected.empty(), "received-too-much", [&]{ return who + name + " " + show(rec) + " was not transmitted"; })) return;
            Message& m = *e.expected.front();
            const TypeDef& td = *m.type->def;
            Rec want = m.header;
            if (tr == Tr::Tcp1 || tr == Tr::Uds1)
            {
                if (!want.count(hdr::sender)) want[hdr::sender] = u32Val(1);
                if (!want.count(hdr::sentTime) && header.count(hdr::sentTime)) want[hdr::sentTime] = header[hdr::sentTime];
            }
            static std::shared_ptr<TypeDef> headerDef = defOf(h._descriptor());
            auto same = [&](const TypeDef& d, const Rec& a, const Rec& b) { return exact ? maskOf(a) == maskOf(b) && recEq(d, a, b) : TextCmp{}.rec(d, a, b); };
            auto cut = [](std::string s) { return s.size() > 700 ? s.substr(0, 700) + "..." : s; };
            bool ok = name == td.name && t.instance()->_descriptor().name() == name;
            if (check(ok, "other-type", [&]{ return who + name + " instead of " + td.name + " (" + std::to_string(e.received) + " received)"; })
                && check(same(td, rec, m.rec), "other-object", [&]{ return who + name + " " + cut(show(rec)) + " instead of " + cut(show(m.rec)) + " (" + std::to_string(e.received) + " received)"; }))
                check(same(*headerDef, header, want), "other-header", [&]{ return who + cut(show(header)) + " instead of " + cut(show(want)); });
            e.outstanding -= m.size;
            ++e.received;
            ctx.count("received_objects");
            e.expected.pop_front();
        }
        // ---- what is done ----
        std::shared_ptr<Message> message(const NetType& t, size_t room)
        {
            auto m = std::make_shared<Message>();
            m->type = &t;
            Rec full = genRec(r, *t.def, t.go);
            if (!exact) for (auto& [tag, v] : full) tameVal(t.def->find(tag)->shape, v);
            if (r.chance(room > 4000000 ? 12 : 3))
            {
                std::vector<uint32_t> texts;
                for (auto& p : t.def->props) if (p.shape.kind == Kind::Str) texts.push_back(p.tag);
                if (!texts.empty())
                {
                    size_t n = r.pick(std::vector<size_t>{ 1000, 2000, 2048, 4096, 65535, 65536, 70000, 300000, exact ? 1048576u : 100000u, exact ? 3000000u : 200000u });
                    n += r.below(9);
                    std::string s(std::min(n, room / 2), 'a');
                    uint64_t x = r.next();
                    for (size_t i = 0; i < s.size(); i += r.coin() ? 1 : 17) { x = x * 6364136223846793005ull + 1442695040888963407ull; s[i] = exact ? static_cast<char>(x >> 56) : static_cast<char>('a' + (x >> 59) % 26); }
                    full[r.pick(texts)] = Val::ofStr(s);
                }
            }
            m->plain = r.chance(25);
            uint32_t included = maskOf(full);
            if (!m->plain && r.chance(30)) included = static_cast<uint32_t>(r.next()) & t.def->allMask();
            m->rec = select(full, included);
            m->header = Rec{ { hdr::typeName, Val::ofStr(t.def->name) }, { hdr::attributes, psVal(m->plain ? maskOf(full) : included) } };
            if (!m->plain)
            {
                auto time = [&]{ Val v = intVal(Kind::TP, 0); double d = 1.6e9 + static_cast<double>(r.below(1000000)) / 8; std::memcpy(&v.u, &d, 8); return v; };
                if (r.chance(60)) m->header[hdr::sentTime] = time();
                if (r.chance(30)) m->header[hdr::removeObj] = boolVal(r.coin());
                if (r.chance(40)) m->header[hdr::sender] = u32Val(r.next() & 0xffffffffu);
                if (r.chance(20)) m->header[hdr::isFromMyself] = boolVal(r.coin());
                if (r.chance(20)) m->header[hdr::serverSentTime] = time();
                if (r.chance(20)) m->header[hdr::fromCache] = u32Val(r.below(1000));
            }
            // what is not to be sent may still be there
            sent = r.coin() ? full : m->rec;
            CborOut o;
            cborEncodeRec(o, *t.def, m->rec);
            m->size = o.out.size() * (exact ? 1 : 4) + 200;
            return m;
        }
        Rec sent;
        void transmitted_(End& to, const std::shared_ptr<Message>& m)
        {
            to.expected.push_back(m);
            to.outstanding += m->size;
            ++transmitted;
            bytes += m->size;
            largest = std::max(largest, m->size);
        }
        // false: the channel refused it
        template <typename F> bool attempt(End& from, End& to, const std::shared_ptr<Message>& m, bool mayRefuse, F&& f)
        {
            transmitted_(to, m);
            try { f(); return true; }
            catch (const std::exception& e)
            {
                from.full = true;
                to.outstanding -= m->size;
                to.expected.pop_back();
                check(mayRefuse, "refused", [&]{ return from.link->name + " over " + trName(tr) + ": " + e.what(); });
                return false;
            }
        }
        bool usable(End& e) { return e.channel && !e.full && !e.released && e.ended == 0; }
        void send(End& from, End& to, size_t limit, bool mayRefuse = false)
        {
            if (!usable(from) || to.outstanding > limit) return;
            const NetType& t = *r.pick(types);
            const dt::StructDescriptor* d = find(from, t);
            if (!d) { if (r.chance(50)) return; know(*from.registry, t); d = find(from, t); }
            auto m = message(t, limit - to.outstanding + 1000);
            dt::AnyStruct any = makeAny(*d, sent);
            if (m->plain) { any = makeAny(*d, m->rec); attempt(from, to, m, mayRefuse, [&]{ from.channel->transmit(*any); }); return; }
            dots::types::DotsHeader h;
            writeRec(h, m->header);
            if (r.coin()) attempt(from, to, m, mayRefuse, [&]{ from.channel->transmit(h, *any); });
            else attempt(from, to, m, mayRefuse, [&]{ from.channel->transmit(io_::Transmission{ h, std::move(any) }); });
        }
        void broadcast(size_t limit, bool mayRefuse = false)
        {
            const NetType& t = *r.pick(types);
            if (!registry.findStructType(t.def->name)) know(registry, t);
            size_t room = limit;
            for (auto& l : links) room = std::min(room, limit - std::min(limit, l->client.outstanding));
            if (room < 1000) return;
            auto m = message(t, room);
            if (m->plain) return;
            dots::types::DotsHeader h;
            writeRec(h, m->header);
            io_::Transmission tx{ h, makeAny(*registry.findStructType(t.def->name), sent) };
            ctx.count("broadcasts");
            for (auto& l : links) if (usable(l->server) && (mayRefuse || r.chance(85))) attempt(l->server, l->client, m, mayRefuse, [&]{ l->server.channel->transmit(tx); });
        }
        void resume(Link& l, End& e, const char* role)
        {
            if (!e.paused || !e.channel || e.ended) return;
            e.paused = false;
            receive(l, e, role);
        }
        bool quiet()
        {
            for (auto& l : links)
            {
                resume(*l, l->server, "server");
                resume(*l, l->client, "client");
                if (!l->server.expected.empty() && l->server.channel) return false;
                if (!l->client.expected.empty() && l->client.channel) return false;
            }
            return true;
        }
        bool settle()
        {
            for (auto& l : links) { l->stalled = 0; l->server.pausing = l->client.pausing = false; if (l->relay && bytes > 300000) l->relay->maxChunk = std::max<size_t>(l->relay->maxChunk, 30000); }
            pump([&]{ return quiet(); }, [&]{ return step(); }, 8000);
            if (bad) return false;
            for (auto& l : links) for (End* e : { &l->server, &l->client })
            {
                std::string who = l->name + (e == &l->server ? " server" : " client") + " over " + trName(tr) + ": ";
                check(e->ended == 0, "ended", [&]{ return who + e->error; });
                if (e->channel) check(e->expected.empty(), "lost", [&]{ return who + std::to_string(e->expected.size()) + " of " + std::to_string(e->received + e->expected.size()) + " not received, the next one is " + e->expected.front()->type->def->name + " of " + std::to_string(e->expected.front()->size) + " bytes"; });
            }
            return !bad;
        }
        void overflow()
        {
            // one of the receivers stops reading; its sender has to refuse before it holds more than its limit
            Link& l = *r.pick(links);
            if (tr == Tr::Local || !usable(l.server)) return;
            if (l.relay) l.stalled = 1000000000;
            else if (l.own) {}
            else return;
            bool all = exact && r.coin();
            say("overflow of " + l.name + (all ? " by broadcasts" : ""));
            size_t start = bytes, rounds = 0;
            size_t bound = exact ? 34000000 : 60000000;
            while (!bad && usable(l.server) && bytes - start < bound * (all ? links.size() : 1) && ++rounds < 20000)
            {
                std::string s(200000 + r.below(200000), 'x');
                auto m = std::make_shared<Message>();
                static NetType blob = []{ NetType t; t.def = defOf(compiled("DotsEcho")); t.compiled = &compiled("DotsEcho"); return t; }();
                m->type = &blob;
                m->plain = false;
                m->rec = Rec{ { 4, Val::ofStr(s) } };
                m->header = Rec{ { hdr::typeName, Val::ofStr("DotsEcho") }, { hdr::attributes, psVal(1u << 4) }, { hdr::sender, u32Val(3) } };
                m->size = s.size() + 200;
                dots::types::DotsHeader h;
                writeRec(h, m->header);
                io_::Transmission tx{ h, makeAny(compiled("DotsEcho"), m->rec) };
                for (auto& o : links) if ((all || o.get() == &l) && usable(o->server)) attempt(o->server, o->client, m, o.get() == &l, [&]{ o->server.channel->transmit(tx); });
                // the others keep up
                for (size_t k = 0; all && !bad && k < 4000; ++k)
                {
                    bool behind = false;
                    for (auto& o : links) if (o.get() != &l) { behind |= o->client.outstanding > 2000000; if (o->own) poll(*o->io); if (o->relay) { o->relay->maxChunk = 70000; stepLink(*o); } resume(*o, o->client, "client"); }
                    poll(io);
                    if (!behind) break;
                }
            }
            ctx.count("overflows");
            check(l.server.full, "unbounded", [&]{ return l.name + " over " + trName(tr) + " holds " + std::to_string(bytes - start) + " bytes for a peer that does not read"; });
            l.stalled = 0;
        }
        void release()
        {
            // an end that is given up delivers what it has transmitted
            Link& l = *r.pick(links);
            bool server = r.coin();
            End& from = server ? l.server : l.client;
            End& to = server ? l.client : l.server;
            if (!usable(from) || tr == Tr::Local) return;
            say(l.name + (server ? " server" : " client") + " is released");
            for (size_t k = r.below(6); k > 0; --k) send(from, to, 3000000);
            from.released = true;
            from.channel.reset();
            ctx.count("released_ends");
            l.stalled = 0;
            if (l.relay && bytes > 300000) l.relay->maxChunk = std::max<size_t>(l.relay->maxChunk, 30000);
            pump([&]{ resume(l, to, server ? "client" : "server"); return to.ended > 0; }, [&]{ return step(); }, 8000);
            if (bad) return;
            check(to.expected.empty(), "lost-at-release", [&]{ return l.name + " over " + trName(tr) + ": " + std::to_string(to.expected.size()) + " objects"; });
            check(to.ended == 1, "end-unnoticed", [&]{ return l.name + " over " + trName(tr) + ": " + std::to_string(to.ended); });
        }
        void run()
        {
            tr = r.pick(std::vector<Tr>{ Tr::Tcp2, Tr::Tcp1, Tr::Uds2, Tr::Uds1, Tr::Ws, Tr::Local });
            exact = tr != Tr::Ws;
            addTypes();
            if (!listen()) { ctx.count("not_listening"); return; }
            ctx.count(std::string{ "cases_" } + trName(tr));
            say(trName(tr));
            for (auto& t : types) if (r.coin()) know(registry, *t);
            size_t n = r.chance(50) ? 1 : 2 + r.below(2);
            for (size_t i = 0; i < n; ++i) if (!connect(i)) return;
            for (auto& l : links)
            {
                for (auto& t : types) if (r.chance(30)) know(*l->registry, *t);
                l->server.pausing = r.chance(30);
                l->client.pausing = r.chance(30);
            }
            size_t limit = r.chance(15) ? 7000000 : r.chance(20) ? 1000000 : 150000;
            for (auto& l : links) if (l->relay && l->relay->maxChunk < 64) limit = std::min<size_t>(limit, 15000);
            size_t rounds = 1 + r.below(4);
            for (size_t round = 0; round < rounds && !bad; ++round)
            {
                size_t ops = r.chance(20) ? 150 : 1 + r.below(40);
                for (size_t k = 0; k < ops && !bad; ++k)
                {
                    Link& l = *r.pick(links);
                    size_t op = r.below(100);
                    if (op < 35) send(l.server, l.client, limit);
                    else if (op < 60) send(l.client, l.server, limit);
                    else if (op < 75) broadcast(limit);
                    else if (op < 80) l.stalled = r.below(2000);
                    else if (op < 88) { resume(l, l.server, "server"); resume(l, l.client, "client"); }
                    else for (size_t s = r.below(80); s > 0 && !bad; --s) step();
                    for (size_t s = r.below(4); s > 0 && !bad; --s) step();
                }
                if (!settle()) return;
            }
            if (r.chance(exact ? 4 : 1)) { overflow(); if (bad || !settle()) return; }
            else if (r.chance(40)) { release(); if (bad) return; }
            size_t pieces = 0, pauses = 0;
            for (auto& l : links) { if (l->relay) pieces += l->relay->pieces; pauses += l->server.pauses + l->client.pauses; ctx.count("descriptions", l->server.described + l->client.described); }
            ctx.count("pieces", pieces);
            ctx.count("pauses", pauses);
            ctx.count("mebibytes", bytes >> 20);
            ctx.maxOf("largest_object", largest);
            if (largest > 500000) ctx.count("cases_with_large_objects");
            uint64_t h = 3;
            for (auto& l : log) h = hashStr(l, h);
            ctx.distinct("exchanges", mix(h + transmitted * 131 + bytes * 7 + pieces));
        }
    };
    void caseChannel(Ctx& ctx, Rng& r)
    {
        ChannelCase c{ ctx, r };
        c.run();
        if (ctx.wantSample() && !c.bad) ctx.sample(c.tail());
    }
}

int main(int argc, char** argv)
{
    std::signal(SIGPIPE, SIG_IGN);
    return driverMain(argc, argv, { { "I01", caseChannel } });
}
