// H01: one end of every connection is a script, the other one is the library; a reference machine of the handshake says what has to happen.
#include "net/netcase.h"
#include <thread>
#include <atomic>

using namespace vf;
namespace io_ = dots::io;
using State = dots::types::DotsConnectionState;

namespace
{
    enum : int { Connecting = 1, Early = 2, Connected = 3, Closed = 5 };
    int number(State s) { return s == State::connecting ? Connecting : s == State::early_subscribe ? Early : s == State::connected ? Connected : s == State::closed ? Closed : 4; }
    struct Transition { int state; bool error; };
    std::string show(const std::vector<Transition>& v)
    {
        std::string s;
        for (auto& t : v) s += (s.empty() ? "" : " ") + std::string{ t.state == Connecting ? "connecting" : t.state == Early ? "preloading" : t.state == Connected ? "connected" : t.state == Closed ? "closed" : "?" } + (t.error ? "(error)" : "");
        return s;
    }
    std::string list(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += (s.empty() ? "" : ", ") + x; return s; }

    // what is compared of a frame; "" if it is not compared
    std::string signature(const Frame& f, uint32_t* clientId = nullptr)
    {
        auto b = [&](uint32_t tag) { return f.rec.count(tag) ? std::to_string(f.rec.at(tag).u) : std::string{ "-" }; };
        if (f.name == "StructDescriptorData" || f.name == "EnumDescriptorData" || f.name == "VEvent") return "";
        if (f.name == "DotsMsgConnectResponse")
        {
            if (clientId && f.rec.count(5)) *clientId = static_cast<uint32_t>(f.rec.at(5).u);
            return "response accepted=" + b(2) + " preload=" + b(3) + " finished=" + b(4);
        }
        if (f.name == "DotsMsgConnect") return "connect name=" + (f.rec.count(1) ? f.rec.at(1).s : "-") + " preload=" + b(2) + " finished=" + b(3);
        if (f.name == "DotsMsgHello") return "hello " + (f.rec.count(1) ? f.rec.at(1).s : "-");
        if (f.name == "DotsMsgError") return "error " + std::string{ f.rec.count(1) ? f.rec.at(1).u == 0 ? "0" : "n" : "-" };
        if (f.name == "DotsMember") return "member " + (f.rec.count(1) ? f.rec.at(1).s : "-");
        if (f.name == "DotsEcho") return "echo " + b(2);
        if (f.name == "DotsCacheInfo") return "cache end " + (f.rec.count(1) ? f.rec.at(1).s : "-");
        return f.name;
    }

    const TypeDef& event() { static std::shared_ptr<TypeDef> t = defOf(staticType("VEvent")); return *t; }
    std::vector<TypePtr> eventTypes() { std::vector<TypePtr> v; collectTypes(defOf(staticType("VEvent")), v); return v; }

    // ---- the host is the library -------------------------------------------------------------------------------------------
    struct Guest                                  // a scripted one
    {
        std::unique_ptr<Peer> p;
        std::string name;
        uint32_t id = 0;
        int state = Connecting, expects = 1;      // 1 connect, 2 preload finished, 3 nothing
        bool joined = false;
        std::vector<Transition> want, seen;
        std::vector<std::string> replies;         // frames the host has to send
        size_t accept = 0, accepted = 0;          // events
        bool beyond = false;                      // something was sent after the end: frames may get lost
        bool abrupt = false, ended = false, told = false;
        size_t budget = 0, k = 0;
        bool alive() const { return state != Closed; }
    };
    struct HostCase : Case
    {
        dots::asio::io_context io;
        dots::asio::executor_work_guard<dots::asio::io_context::executor_type> work;
        std::unique_ptr<dots::HostTransceiver> host;
        std::map<uint32_t, std::vector<Transition>> transitions;
        std::map<uint32_t, size_t> accepted;
        std::map<uint32_t, std::string> names;
        std::vector<std::unique_ptr<Guest>> guests;
        std::map<Tr, Address> at;
        io_::Listener* local = nullptr;
        std::optional<dots::Subscription> sub;
        std::set<std::string> paths;

        HostCase(Ctx& c, Rng& rng) : Case(c, rng), work(dots::asio::make_work_guard(io)) {}
        ~HostCase()
        {
            sub.reset();
            host.reset();
            guests.clear();
            for (auto& p : paths) ::unlink(p.c_str());
        }
        bool step()
        {
            bool moved = poll(io);
            for (auto& g : guests) if (g->p && r.chance(70)) moved |= g->p->step();
            return moved;
        }
        bool start()
        {
            host = std::make_unique<dots::HostTransceiver>("host", io, dt::Registry::StaticTypePolicy::All, dots::Transceiver::transition_handler_t{ [this](const dots::Connection& c, std::exception_ptr e)
            {
                transitions[c.peerId()].push_back({ number(c.state()), e != nullptr });
                names[c.peerId()] = c.peerName();
            } });
            sub.emplace(host->subscribe(staticType("VEvent"), dots::Transceiver::transmission_handler_t{ [this](const io_::Transmission& t) { if (t.header().sender.isValid()) { ++accepted[*t.header().sender]; auto& v = transitions[*t.header().sender]; int s = v.empty() ? 0 : v.back().state; if (*t.header().sender != 1) check(s == Early || s == Connected, "accepted-outside-connection", [&]{ return "of " + std::to_string(*t.header().sender) + " in " + show(v); }); } } }));
            std::vector<Tr> all{ Tr::Tcp2, Tr::Tcp1, Tr::Uds2, Tr::Uds1, Tr::Ws, Tr::Local };
            for (size_t i = 0, n = 1 + r.below(3); i < n; ++i)
            {
                Tr t = r.pick(all);
                if (at.count(t)) continue;
                for (int k = 0; k < 30; ++k)
                {
                    Address a;
                    a.host = "127." + std::to_string(r.below(256)) + "." + std::to_string(r.below(256)) + "." + std::to_string(1 + r.below(250));
                    a.port = static_cast<int>(r.range(10000, 32000));
                    if (t == Tr::Uds1 || t == Tr::Uds2) { a.path = scratch + "/h" + std::to_string(static_cast<int>(t)); paths.insert(a.path); }
                    try { openListener(*host, t, a, local); at[t] = a; break; } catch (const std::exception&) {}
                }
            }
            return !at.empty();
        }
        bool add()
        {
            std::vector<Tr> trs;
            for (auto& [t, a] : at) trs.push_back(t);
            auto g = std::make_unique<Guest>();
            Tr t = r.pick(trs);
            g->name = "peer" + std::to_string(guests.size());
            size_t before = transitions.size();
            Guest* p = g.get();
            if (t == Tr::Local)
            {
                auto lp = std::make_unique<LocalPeer>();
                lp->adopt(io_::make_channel<io_::LocalChannel>(io, static_cast<io_::LocalListener&>(*local)));
                g->p = std::move(lp);
            }
            else
            {
                auto sp = std::make_unique<SockPeer>(t, r);
                if (r.coin()) sp->maxChunk = 1 + r.below(40);
                if (!sp->connect(at.at(t))) return check(false, "no-connection", [&]{ return std::string{ trName(t) }; });
                g->p = std::move(sp);
            }
            guests.push_back(std::move(g));
            pump([&]{ return transitions.size() > before; }, [&]{ return step(); });
            if (!check(transitions.size() == before + 1, "no-connection", [&]{ return std::string{ trName(t) } + ": " + std::to_string(transitions.size() - before) + " connections began"; })) return false;
            p->id = transitions.rbegin()->first;
            p->want.push_back({ Connecting, false });
            p->replies.push_back("hello host");
            p->budget = 1 + r.below(12);
            say("new " + p->name + " over " + trName(t));
            ctx.count(std::string{ "scripted_" } + trName(t));
            return true;
        }
        void close(Guest& g, bool error)
        {
            if (g.state == Connected && error) { g.replies.push_back("error n"); g.told = true; }
            else if (error) g.beyond = true;      // what was still to be written is dropped with the connection
            g.state = Closed;
            g.want.push_back({ Closed, error });
        }
        void act(Guest& g)
        {
            auto& peer = *g.p;
            bool legal = r.chance(72);
            int op = static_cast<int>(r.below(16));
            if (legal) op = g.expects == 1 ? 0 : g.expects == 2 ? r.pick(std::vector<int>{ 1, 1, 1, 6, 7, 8 }) : r.pick(std::vector<int>{ 6, 6, 7, 8 });
            ++g.k;
            if (!g.alive()) g.beyond = true;
            auto system = [&](const char* what, const char* name, const Rec& rec) { say(g.name + " sends " + what); peer.system(name, rec); };
            switch (op)
            {
                case 0: case 9:
                {
                    bool preload = r.chance(70);
                    Rec rec{ { 1, Val::ofStr(g.name) }, { 2, boolVal(preload) } };
                    if (op == 9) { size_t v = r.below(3); if (v != 1) rec.erase(1); if (v != 0) rec.erase(2); }
                    system(op == 9 ? "an incomplete connect" : preload ? "connect" : "connect without preload", "DotsMsgConnect", rec);
                    if (!g.alive()) break;
                    if (g.expects == 1 && op == 0)
                    {
                        g.replies.push_back("response accepted=1 preload=" + std::to_string(preload) + " finished=-");
                        g.state = preload ? Early : Connected;
                        g.expects = preload ? 2 : 3;
                        g.want.push_back({ g.state, false });
                    }
                    else close(g, true);
                    break;
                }
                case 1: case 10:
                {
                    bool finished = op == 1;
                    system(finished ? "preload finished" : "preload not finished", "DotsMsgConnect", Rec{ { 3, boolVal(finished) } });
                    if (!g.alive()) break;
                    if (g.expects == 2 && finished)
                    {
                        g.replies.push_back("response accepted=- preload=- finished=1");
                        g.state = Connected;
                        g.expects = 3;
                        g.want.push_back({ Connected, false });
                    }
                    else close(g, true);
                    break;
                }
                case 2: system("hello", "DotsMsgHello", Rec{ { 1, Val::ofStr("host") }, { 2, intVal(Kind::U64, 0) } }); if (g.alive()) close(g, true); break;
                case 3: system("a response", "DotsMsgConnectResponse", Rec{ { 2, boolVal(true) }, { 3, boolVal(r.coin()) }, { 5, u32Val(5) } }); if (g.alive()) close(g, true); break;
                case 4: system("error 0", "DotsMsgError", Rec{ { 1, intVal(Kind::I32, 0) } }); if (g.alive()) close(g, false); break;
                case 5:
                {
                    Rec rec{ { 1, intVal(Kind::I32, 1 + r.below(9)) }, { 2, Val::ofStr("no") } };
                    if (r.chance(30)) rec.erase(1);
                    system("an error", "DotsMsgError", rec);
                    if (g.alive()) close(g, true);
                    break;
                }
                case 6: case 11: case 12:
                    say(g.name + " publishes");
                    peer.tell(eventTypes());
                    peer.object(event(), Rec{ { 1, intVal(Kind::I32, g.k) } });
                    if (!g.alive()) break;
                    if (g.state == Connecting) close(g, true);
                    else ++g.accept;
                    break;
                case 7: case 13:
                {
                    Val join = intVal(Kind::Enum, 0);
                    for (auto& e : internalTypes().at("DotsMember")->find(2)->shape.def->enumerators) if (e.name == "join") join.u = static_cast<uint64_t>(static_cast<int64_t>(e.value));
                    system("join", "DotsMember", Rec{ { 1, Val::ofStr(r.coin() ? "VEvent" : "VPlain") }, { 2, join } });
                    if (!g.alive()) break;
                    if (g.state == Connecting) close(g, true);
                    else if (log.back().find("join") != std::string::npos) g.joined = true;
                    break;
                }
                case 8: case 14:
                    system("an echo request", "DotsEcho", Rec{ { 1, boolVal(true) }, { 2, u32Val(g.k) } });
                    if (!g.alive()) break;
                    if (g.state == Connecting) close(g, true);
                    else g.replies.push_back("echo " + std::to_string(g.k));
                    break;
                default:
                    if (peer.tr == Tr::Local || !g.alive() || r.coin()) break;
                    say(g.name + " sends garbage");
                    peer.bytes(peer.tr == Tr::Ws ? Wire::wsFrame("[{\"typeName\"", 1, true, r) : peer.tr == Tr::Tcp1 || peer.tr == Tr::Uds1 ? std::string("\x03\x00\xff\xff\xff", 5) : std::string("\x1a\x00\x00\x00\x05\xff\xff\xff\xff\xff", 10));
                    close(g, true);
                    break;
            }
        }
        // frames that were received are those that were owed, in order; the cache ends are judged elsewhere
        void judge(Guest& g, bool final)
        {
            auto& peer = *g.p;
            std::vector<std::string> got;
            uint32_t told = 0;
            bool event = false;
            for (auto& f : peer.got)
            {
                std::string s = signature(f, &told);
                if (f.name == "VEvent") { event = true; check(g.joined, "delivered-before-joining", [&]{ return g.name; }); }
                if (!s.empty() && f.name != "DotsCacheInfo") got.push_back(s);
            }
            (void)event;
            check(told == 0 || told == g.id, "identifier", [&]{ return g.name + " is told " + std::to_string(told) + " instead of " + std::to_string(g.id); });
            auto& v = transitions[g.id];
            auto text = [&]{ return g.name + " (" + trName(peer.tr) + "): " + show(v) + " instead of " + show(g.want) + "; received " + list(got) + " instead of " + list(g.replies) + "; " + std::to_string(accepted[g.id]) + " instead of " + std::to_string(g.accept) + " events accepted" + (peer.problem.empty() ? "" : "; " + peer.problem); };
            bool same = v.size() == g.want.size();
            for (size_t i = 0; same && i < v.size(); ++i) same = v[i].state == g.want[i].state && v[i].error == g.want[i].error;
            if (g.abrupt && !same)
            {
                // the connection may have ended before everything that was sent was read
                same = !v.empty() && v.size() <= g.want.size() && v.back().state == Closed;
                for (size_t i = 0; same && i + 1 < v.size(); ++i) same = v[i].state == g.want[i].state;
            }
            check(same, "transitions", text);
            check(g.abrupt ? accepted[g.id] <= g.accept : accepted[g.id] == g.accept, "accepted", text);
            bool prefix = got.size() <= g.replies.size();
            for (size_t i = 0; prefix && i < got.size(); ++i) prefix = got[i] == g.replies[i];
            bool complete = got.size() == g.replies.size() || g.beyond || g.abrupt || g.ended;
            check(prefix && complete, "replies", text);
            if (g.state == Closed && !final) check(peer.ended || g.ended || g.abrupt || peer.tr == Tr::Local, "not-ended", text);
            if (names.count(g.id) && g.want.size() > 1 && g.want[1].state != Closed && !g.abrupt) check(names[g.id] == g.name, "name", text);
            ctx.count("connections_judged");
            uint64_t h = 0;
            for (auto& t : v) h = mix(h + static_cast<uint64_t>(t.state) * 2 + t.error);
            for (auto& s : got) h = hashStr(s.substr(0, s.find(' ')), mix(h));
            ctx.distinct("conversations", mix(h + static_cast<uint64_t>(peer.tr)));
        }
        void run()
        {
            if (!start()) { ctx.count("hosts_not_started"); return; }
            size_t n = 1 + r.below(4);
            for (size_t i = 0; i < n && !bad; ++i)
            {
                if (!add()) return;
                for (size_t k = r.below(20); k > 0; --k) step();
            }
            auto busy = [&]{ for (auto& g : guests) if (g->budget > 0) return true; return false; };
            while (busy() && !bad)
            {
                Guest& g = *guests[r.below(guests.size())];
                if (g.budget == 0) { step(); continue; }
                --g.budget;
                if (r.chance(20) && g.state == Connected && std::all_of(g.want.begin(), g.want.end(), [](auto& t) { return t.state != Closed; }) && guests.size() > 1)
                {
                    // the host publishes
                    host->publish(makeAny(staticType("VEvent"), Rec{ { 1, intVal(Kind::I32, 900) } }));
                }
                act(g);
                if (!g.alive() && r.chance(70)) g.budget = 0;
                for (size_t k = r.chance(60) ? r.below(30) : 0; k > 0; --k) step();
            }
            // some of them leave
            for (auto& g : guests) if (!bad && g->alive() && r.coin())
            {
                int mode = 2 + static_cast<int>(r.below(3));
                pump([&]{ return g->p->flushed(); }, [&]{ return step(); });
                if (g->p->tr == Tr::Local) continue;     // the in-process transport has no notion of it
                say(g->name + " leaves, mode " + std::to_string(mode));
                if (mode != 2) g->abrupt = true;
                g->ended = true;
                close(*g, true);
                g->p->end(mode);
            }
            auto settled = [&]
            {
                for (auto& g : guests)
                {
                    if (!g->p->flushed()) return false;
                    auto& v = transitions[g->id];
                    if (g->state == Closed ? v.empty() || v.back().state != Closed : v.size() < g->want.size() || accepted[g->id] < g->accept) return false;
                    if (g->state == Closed) { if (!g->p->ended && !g->ended && g->p->tr != Tr::Local) return false; }
                    else { size_t c = 0; for (auto& f : g->p->got) { auto s = signature(f); c += !s.empty() && f.name != "DotsCacheInfo"; } if (c < g->replies.size()) return false; }
                }
                return true;
            };
            pump(settled, [&]{ return step(); });
            for (size_t k = 0; k < 60 && !bad; ++k) step();
            for (auto& g : guests) if (!bad) judge(*g, false);
            if (bad) return;
            // the host ends
            say("the host ends");
            if (r.coin()) sub.reset();
            for (auto& g : guests) if (g->alive()) { g->want.push_back({ Closed, false }); if (g->state == Connected) g->replies.push_back("error 0"); g->state = Closed; g->ended = true; }
            host.reset();
            sub.reset();
            pump([&]{ for (auto& g : guests) if (!g->p->ended && !g->ended && g->p->tr != Tr::Local) return false; return true; }, [&]{ return step(); });
            for (size_t k = 0; k < 60 && !bad; ++k) step();
            for (auto& g : guests) if (!bad) judge(*g, true);
        }
    };

    // ---- the guest is the library ------------------------------------------------------------------------------------------
    struct GuestCase : Case
    {
        dots::asio::io_context io;
        dots::asio::executor_work_guard<dots::asio::io_context::executor_type> work;
        std::unique_ptr<PeerServer> server;
        std::unique_ptr<dots::GuestTransceiver> guest;
        std::optional<dots::Subscription> sub;
        std::vector<Transition> want, seen;
        std::vector<std::string> expected;
        size_t deliver = 0, delivered = 0, round = 0;
        int state = Connecting, expects = 0;      // 0 hello, 1 response, 2 preload finished, 3 nothing
        bool subEarly = false, subConnected = false, publishConnected = false, dead = false, secret = false;
        uint32_t clientId = 0;

        GuestCase(Ctx& c, Rng& rng) : Case(c, rng), work(dots::asio::make_work_guard(io)) {}
        ~GuestCase() { sub.reset(); guest.reset(); server.reset(); }
        bool step()
        {
            bool moved = poll(io);
            if (server) { moved |= server->step(); for (auto& p : server->accepted) moved |= p->step(); }
            return moved;
        }
        void subscribe()
        {
            sub.emplace(guest->subscribe(staticType("VEvent"), dots::Transceiver::transmission_handler_t{ [this](const io_::Transmission&)
            {
                ++delivered;
                int s = seen.empty() ? 0 : seen.back().state;
                check(s == Early || s == Connected, "delivered-outside-connection", [&]{ return show(seen); });
            } }));
        }
        void onTransition(const dots::Connection& c, std::exception_ptr e)
        {
            seen.push_back({ number(c.state()), e != nullptr });
            if (c.state() == State::early_subscribe && subEarly) subscribe();
            if (c.state() == State::connected)
            {
                check(c.selfId() == clientId, "identifier", [&]{ return std::to_string(c.selfId()) + " instead of " + std::to_string(clientId); });
                if (subConnected) subscribe();
                if (publishConnected) guest->publish(makeAny(staticType("VEvent"), Rec{ { 1, intVal(Kind::I32, 1) } }));
            }
        }
        void close(bool error)
        {
            if (state == Connected && error) expected.push_back("error n");
            else if (error) dropped = true;       // what was still to be written is dropped with the connection
            state = Closed;
            want.push_back({ Closed, error });
        }
        void act(Peer& peer)
        {
            bool legal = r.chance(75);
            int op = static_cast<int>(r.below(15));
            if (legal) op = expects == 0 ? 0 : expects == 1 ? 1 : expects == 2 ? r.pick(std::vector<int>{ 2, 2, 5 }) : 5;
            bool alive = state != Closed;
            auto system = [&](const char* what, const char* name, const Rec& rec) { say(std::string{ "host sends " } + what); peer.system(name, rec); };
            switch (op)
            {
                case 0: case 6: case 7:
                {
                    Rec rec{ { 1, Val::ofStr("scripted") }, { 2, Val{} } };
                    rec[2] = intVal(internalTypes().at("DotsMsgHello")->find(2)->shape.kind, 0);
                    bool auth = op == 6;
                    if (auth) { rec[2].u = r.next(); rec[3] = boolVal(true); }
                    if (op == 7) rec.erase(r.coin() ? 1 : 2);
                    system(op == 7 ? "an incomplete hello" : auth ? "hello with a challenge" : "hello", "DotsMsgHello", rec);
                    if (!alive) break;
                    if (expects != 0 || op == 7 || (auth && !secret)) { close(true); break; }
                    expected.push_back("connect name=lib preload=1 finished=-");
                    expects = 1;
                    break;
                }
                case 1: case 8: case 9:
                {
                    bool preload = r.chance(70);
                    uint32_t id = 2 + static_cast<uint32_t>(r.below(100000));
                    Rec rec{ { 1, Val::ofStr("scripted") }, { 2, boolVal(op != 8) }, { 3, boolVal(preload) }, { 5, u32Val(id) } };
                    if (op == 9) rec.erase(r.pick(std::vector<uint32_t>{ 2, 3, 5 }));
                    system(op == 8 ? "a rejection" : op == 9 ? "an incomplete response" : preload ? "a response" : "a response without preload", "DotsMsgConnectResponse", rec);
                    if (!alive) break;
                    if (expects != 1 || op != 1) { close(true); break; }
                    clientId = id;
                    state = preload ? Early : Connected;
                    want.push_back({ state, false });
                    if (preload)
                    {
                        if (subEarly) expected.push_back("member VEvent");
                        expected.push_back("connect name=- preload=- finished=1");
                        expects = 2;
                    }
                    else { expects = 3; connected(); }
                    break;
                }
                case 2:
                    system("preload finished", "DotsMsgConnectResponse", Rec{ { 4, boolVal(true) } });
                    if (!alive) break;
                    if (expects != 2) { close(true); break; }
                    expects = 3;
                    state = Connected;
                    want.push_back({ Connected, false });
                    connected();
                    break;
                case 3: system("connect", "DotsMsgConnect", Rec{ { 1, Val::ofStr("x") }, { 2, boolVal(true) }, { 3, boolVal(true) } }); if (alive) close(true); break;
                case 4: system("error 0", "DotsMsgError", Rec{ { 1, intVal(Kind::I32, 0) } }); if (alive) close(false); break;
                case 10: { Rec rec{ { 1, intVal(Kind::I32, 1 + r.below(9)) } }; if (r.chance(30)) rec.erase(1); system("an error", "DotsMsgError", rec); if (alive) close(true); break; }
                case 5: case 11: case 12:
                    say("host sends an event");
                    peer.tell(eventTypes());
                    peer.object(event(), Rec{ { 1, intVal(Kind::I32, 3) } });
                    if (!alive) break;
                    if (state == Connecting) close(true);
                    else if (sub_()) ++deliver;
                    break;
                default:
                    if (peer.tr == Tr::Local || !alive || r.coin()) break;
                    say("host sends garbage");
                    peer.bytes(peer.tr == Tr::Ws ? Wire::wsFrame("[{\"typeName\"", 1, false, r) : peer.tr == Tr::Tcp1 || peer.tr == Tr::Uds1 ? std::string("\x03\x00\xff\xff\xff", 5) : std::string("\x1a\x00\x00\x00\x05\xff\xff\xff\xff\xff", 10));
                    close(true);
                    break;
            }
        }
        bool dropped = false;
        bool sub_() const { return (subEarly && state >= Early && earlyHappened()) || (subConnected && state == Connected); }
        bool earlyHappened() const { for (auto& t : want) if (t.state == Early) return true; return false; }
        void connected()
        {
            if (subConnected && !(subEarly && earlyHappened())) expected.push_back("member VEvent");
            if (publishConnected) expected.push_back("VEvent");
        }
        bool open()
        {
            Peer* before = server->accepted.empty() ? nullptr : server->accepted.back().get();
            io_::channel_ptr_t channel;
            if (server->tr == Tr::Ws)
            {
                std::atomic<bool> done{ false };
                std::thread t([&]{ try { channel = openChannel(io, server->tr, server->at, nullptr); } catch (...) {} done = true; });
                pump([&]{ return done.load(); }, [&]{ bool m = server->step(); for (auto& p : server->accepted) m |= p->step(); return m; });
                t.join();
                if (!check(channel != nullptr, "no-channel", [&]{ return std::string{ "ws" }; })) return false;
            }
            else
            {
                try { channel = openChannel(io, server->tr, server->at, server->local.get()); }
                catch (const std::exception& e) { return check(false, "no-channel", [&]{ return std::string{ e.what() }; }); }
            }
            // the in-process transport has to be linked first
            if (server->tr == Tr::Local) pump([&]{ return !server->accepted.empty() && server->accepted.back().get() != before; }, [&]{ return step(); });
            std::optional<std::string> s;
            if (secret) s = "secret";
            guest->open({}, {}, s, std::move(channel));
            pump([&]{ return !server->accepted.empty() && server->accepted.back().get() != before; }, [&]{ return step(); });
            return check(!server->accepted.empty() && server->accepted.back().get() != before, "no-channel", [&]{ return std::string{ "nothing to accept" }; });
        }
        void judge(Peer& peer, bool exact)
        {
            std::vector<std::string> got;
            for (auto& f : peer.got)
            {
                std::string s = f.name == "VEvent" ? "VEvent" : signature(f);
                if (!s.empty()) got.push_back(s);
            }
            auto text = [&]{ return std::string{ trName(peer.tr) } + " round " + std::to_string(round) + ": " + show(seen) + " instead of " + show(want) + "; received " + list(got) + " instead of " + list(expected) + "; " + std::to_string(delivered) + " instead of " + std::to_string(deliver) + " events delivered" + (peer.problem.empty() ? "" : "; " + peer.problem); };
            bool same = seen.size() == want.size();
            for (size_t i = 0; same && i < seen.size(); ++i) same = seen[i].state == want[i].state && seen[i].error == want[i].error;
            check(same, "transitions", text);
            check(delivered == deliver, "delivered", text);
            bool prefix = got.size() <= expected.size();
            for (size_t i = 0; prefix && i < got.size(); ++i) prefix = got[i] == expected[i];
            check(prefix && (got.size() == expected.size() || !exact), "sent", text);
            ctx.count("connections_judged");
            uint64_t h = 7;
            for (auto& t : seen) h = mix(h + static_cast<uint64_t>(t.state) * 2 + t.error);
            for (auto& s : got) h = hashStr(s.substr(0, s.find(' ')), mix(h));
            ctx.distinct("conversations", mix(h + static_cast<uint64_t>(peer.tr)));
        }
        void run()
        {
            Tr t = r.pick(std::vector<Tr>{ Tr::Tcp2, Tr::Tcp1, Tr::Uds2, Tr::Uds1, Tr::Ws, Tr::Local });
            server = std::make_unique<PeerServer>(r, t);
            if (!server->open(io, scratch)) { ctx.count("hosts_not_started"); return; }
            ctx.count(std::string{ "scripted_" } + trName(t));
            secret = r.chance(30);
            subEarly = r.coin();
            subConnected = r.coin();
            publishConnected = r.coin();
            guest = std::make_unique<dots::GuestTransceiver>("lib", io, dt::Registry::StaticTypePolicy::All, dots::Transceiver::transition_handler_t{ [this](const dots::Connection& c, std::exception_ptr e) { onTransition(c, e); } });
            size_t rounds = 1 + r.below(3);
            for (round = 0; round < rounds && !bad; ++round)
            {
                say("guest opens over " + std::string{ trName(t) } + (subEarly ? " subEarly" : "") + (subConnected ? " subConnected" : "") + (publishConnected ? " publishes" : ""));
                sub.reset();
                want.assign(1, { Connecting, false });
                seen.clear();
                expected.clear();
                deliver = delivered = 0;
                state = Connecting;
                expects = 0;
                dropped = false;
                if (!open()) return;
                Peer& peer = *server->accepted.back();
                bool threw = false;
                if (r.chance(30))
                {
                    try { guest->open(io_::channel_ptr_t{}); }
                    catch (const std::exception&) { threw = true; }
                    check(threw, "opened-twice", [&]{ return show(seen); });
                }
                bool beyond = false, left = false;
                for (size_t n = 1 + r.below(10); n > 0 && !bad && !left; --n)
                {
                    if (state == Closed) beyond = true;
                    act(peer);
                    if (state == Closed && r.chance(70)) break;
                    for (size_t k = r.chance(60) ? r.below(30) : 0; k > 0; --k) step();
                }
                if (!bad && state != Closed && t != Tr::Local && r.coin())
                {
                    pump([&]{ return peer.flushed() && seen.size() >= want.size() && delivered >= deliver; }, [&]{ return step(); });
                    say("host ends the stream");
                    if (state == Connected) { }
                    close(true);
                    left = true;
                    // everything that was sent has to be read before
                    for (size_t k = 0; k < 50; ++k) step();
                    peer.end(2);
                }
                auto settled = [&]
                {
                    if (!peer.flushed() || seen.size() < want.size() || delivered < deliver) return false;
                    if (state == Closed) return peer.ended || t == Tr::Local;
                    size_t c = 0;
                    for (auto& f : peer.got) c += f.name == "VEvent" || !signature(f).empty();
                    return c >= expected.size();
                };
                pump(settled, [&]{ return step(); });
                for (size_t k = 0; k < 60 && !bad; ++k) step();
                judge(peer, !beyond && !left && !dropped);
                if (bad) return;
                check(guest->connected() == (state == Connected), "connected", [&]{ return show(seen); });
                if (state == Closed)
                {
                    threw = false;
                    size_t frames = peer.got.size();
                    try { guest->publish(makeAny(staticType("VEvent"), Rec{ { 1, intVal(Kind::I32, 9) } })); }
                    catch (const std::exception&) { threw = true; }
                    check(threw, "published-after-close", [&]{ return show(seen); });
                    for (size_t k = 0; k < 20 && !bad; ++k) step();
                    check(peer.got.size() == frames && delivered == deliver, "sent-after-close", [&]{ return show(seen); });
                    ctx.count("reopened", round + 1 < rounds);
                    continue;
                }
                // the guest ends
                say("the guest ends");
                bool wasConnected = state == Connected;
                want.push_back({ Closed, false });
                state = Closed;
                if (wasConnected) expected.push_back("error 0");
                if (r.coin()) sub.reset();
                guest.reset();
                sub.reset();
                pump([&]{ size_t c = 0; for (auto& f : peer.got) c += f.name == "VEvent" || !signature(f).empty(); return peer.ended || (t == Tr::Local && c >= expected.size()); }, [&]{ return step(); });
                for (size_t k = 0; k < 60 && !bad; ++k) step();
                judge(peer, false);
                break;
            }
        }
    };
    void caseConnection(Ctx& ctx, Rng& r)
    {
        if (r.coin())
        {
            HostCase c{ ctx, r };
            c.run();
            if (ctx.wantSample() && !c.bad) ctx.sample(c.tail());
        }
        else
        {
            GuestCase c{ ctx, r };
            c.run();
            if (ctx.wantSample() && !c.bad) ctx.sample(c.tail());
        }
    }
}

int main(int argc, char** argv)
{
    std::signal(SIGPIPE, SIG_IGN);
    return driverMain(argc, argv, { { "H01", caseConnection } });
}
