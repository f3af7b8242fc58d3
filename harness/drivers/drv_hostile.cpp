// Faulty and hostile peers: a host serves its clients while other peers send what no correct client sends.
#include "net/hostile.h"
#include <fcntl.h>
#include <sys/resource.h>

using namespace vf;

namespace
{
    void publishSome(World& w, size_t n)
    {
        Rng& r = w.r;
        for (size_t i = 0; i < n && !w.bad; ++i)
        {
            auto ready = w.readyClients();
            if (r.chance(15) || ready.empty()) { w.hostPublish(r.below(w.types.size())); w.steps(3); continue; }
            Client* c = r.pick(ready);
            size_t t = r.below(w.types.size());
            if (auto* g = dynamic_cast<GuestClient*>(c)) g->define(t);
            if (r.chance(15) && !(c->current.count(t) && c->current[t]))
            {
                bool owed = false;
                for (auto& e : c->replies) owed |= e.kind == 1 && e.type == t && e.optional;
                if (!owed) { c->join(t); continue; }
            }
            c->publish(t, w.generate(t, c->isRaw()), r);
            w.steps(r.below(6));
        }
    }
    // So many connections that the host cannot accept any more for a while.
    void exhaust(World& w)
    {
        std::vector<Tr> trs;
        for (auto& [t, a] : w.at) if (t != Tr::Local) trs.push_back(t);
        if (trs.empty()) return;
        std::vector<std::unique_ptr<Sock>> waiting;
        for (size_t i = 0, n = 1 + w.r.below(4); i < n; ++i)
        {
            Tr t = w.r.pick(trs);
            waiting.push_back(std::make_unique<Sock>());
            waiting.back()->connectTo(t, w.at.at(t));
        }
        rlimit old{};
        ::getrlimit(RLIMIT_NOFILE, &old);
        int next = ::open("/dev/null", O_RDONLY | O_CLOEXEC);
        ::close(next);
        rlimit low = old;
        low.rlim_cur = static_cast<rlim_t>(next);
        ::setrlimit(RLIMIT_NOFILE, &low);
        int64_t end = tick() + 10 + static_cast<int64_t>(w.r.below(30));
        while (tick() < end) w.stepHost();
        ::setrlimit(RLIMIT_NOFILE, &old);
        for (auto& s : waiting) if (w.r.coin()) s->reset(); else s->close();
        w.say("the host runs out of file descriptors");
        w.ctx.count("descriptor_exhaustions");
    }
    void caseSiege(Ctx& ctx, Rng& r)
    {
        WorldOpts o;
        std::vector<Tr> all{ Tr::Tcp2, Tr::Tcp2, Tr::Tcp1, Tr::Uds2, Tr::Uds1 };
        o.transports.clear();
        bool ws = r.chance(25);
        if (ws) o.transports.push_back(Tr::Ws);
        for (size_t i = 0, n = 1 + r.below(2); i < n; ++i)
        {
            Tr t = r.pick(all);
            if (std::find(o.transports.begin(), o.transports.end(), t) == o.transports.end()) o.transports.push_back(t);
        }
        if (r.chance(20)) o.transports.push_back(Tr::Local);
        o.dynamicPercent = 10;
        o.maxTypes = 3;
        World w{ ctx, r, o };
        w.addTypes();
        if (!w.startHost()) { ctx.count("hosts_not_started"); return; }
        Siege s{ w };
        for (size_t i = 0, n = 1 + r.below(3); i < n && !w.bad; ++i) w.addClient(r.coin(), r.pick(w.o.transports));
        w.drain();
        for (size_t round = 0, rounds = 1 + r.below(3); round < rounds && !w.bad; ++round)
        {
            for (size_t i = 0, n = 1 + r.below(4); i < n && !w.bad; ++i)
            {
                s.add();
                w.steps(r.below(40));
                publishSome(w, r.below(5));
            }
            if (w.bad) break;
            if (r.chance(6)) exhaust(w);
            if (r.coin()) { w.pumpUntil([&]{ return s.quiet(); }, 50); publishSome(w, r.below(8)); }
            if (r.coin()) w.checkpoint(); else w.drain();
        }
        if (w.bad) return;
        // while they are still there, somebody new is served on every listener
        std::vector<Tr> listeners;
        for (auto& [t, a] : w.at) listeners.push_back(t);
        for (Tr t : listeners) if (!w.bad) w.addClient(t != Tr::Local && r.coin(), t);
        w.checkpoint();
        if (w.bad) return;
        s.lift();
        publishSome(w, 5);
        if (w.lenient) ctx.count("cases_with_connections_only");
        w.finish();
    }
}

int main(int argc, char** argv)
{
    std::signal(SIGPIPE, SIG_IGN);
    return driverMain(argc, argv, { { "H02", caseSiege } });
}
