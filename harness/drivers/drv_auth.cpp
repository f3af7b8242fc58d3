// H03: who gets in. Rules and policy are published and changed at random; every verdict, at the interface of the authentication manager
// and on real connections, is compared with a reference evaluation of the rules that are known at that moment.
#include "net/netcase.h"
#include <dots/io/auth/LegacyAuthManager.h>
#include <PicoSHA2/picosha2.h>
#include <DotsAuthentication.dots.h>
#include <DotsAuthenticationPolicy.dots.h>
#include <VEvent.dots.h>
#include <thread>
#include <atomic>
#include <arpa/inet.h>

using namespace vf;
namespace io_ = dots::io;
using State = dots::types::DotsConnectionState;

namespace
{
    // ---- addresses, written without the library ------------------------------------------------------------------------------
    struct Ip
    {
        bool v6 = false;
        std::array<uint8_t, 16> b{};
        std::string text() const { char t[64]; inet_ntop(v6 ? AF_INET6 : AF_INET, b.data(), t, sizeof t); return t; }
        size_t bits() const { return v6 ? 128 : 32; }
    };
    std::optional<Ip> parseIp(const std::string& s)
    {
        Ip i;
        if (inet_pton(AF_INET, s.c_str(), i.b.data()) == 1) return i;
        i.v6 = true;
        if (inet_pton(AF_INET6, s.c_str(), i.b.data()) == 1) return i;
        return std::nullopt;
    }
    bool inside(const Ip& a, const Ip& net, size_t prefix)
    {
        if (a.v6 != net.v6) return false;
        for (size_t k = 0; k < prefix; ++k) if (((a.b[k / 8] >> (7 - k % 8)) & 1) != ((net.b[k / 8] >> (7 - k % 8)) & 1)) return false;
        return true;
    }
    Ip randomIp(Rng& r) { Ip i; i.v6 = r.chance(35); for (size_t k = 0; k < i.bits() / 8; ++k) i.b[k] = static_cast<uint8_t>(r.next()); return i; }

    using Hash = std::array<uint8_t, 32>;
    Hash sha(const std::string& s)
    {
        picosha2::hash256_one_by_one h;
        h.process(s.begin(), s.end());
        h.finish();
        Hash v{};
        h.get_hash_bytes(v.begin(), v.end());
        return v;
    }
    std::string bytesOf(const Hash& h) { return { h.begin(), h.end() }; }
    std::string hex(const std::string& s) { std::string o; for (unsigned char c : s) { o += "0123456789abcdef"[c >> 4]; o += "0123456789abcdef"[c & 15]; } return o; }
    Hash answer(uint64_t nonce, const std::string& cnonce, const std::string& name, const std::string& secret)
    {
        std::string n(8, 0);
        for (int k = 0; k < 8; ++k) n[static_cast<size_t>(k)] = static_cast<char>(nonce >> (8 * k));
        return sha(bytesOf(sha(name + "::" + secret)) + ":" + n + ":" + cnonce);
    }

    struct Rule
    {
        std::string network, name;
        uint8_t prefix = 0;
        bool complete = true;              // the network has an address and a prefix
        uint16_t priority = 0;
        std::optional<std::string> secret;
        std::optional<bool> accept;
        size_t order = 0;
        bool matches(const Ip& a, const std::string& who) const
        {
            if (!complete || !(name.empty() || name == who)) return false;
            auto n = parseIp(network);
            return n && prefix <= n->bits() && inside(a, *n, prefix);
        }
    };
    struct Reply { std::string cnonce; Hash digest{}; bool given = true; };
    enum Verdict { No, Yes, Either };

    struct AuthCase : Case
    {
        dots::asio::io_context io;
        std::unique_ptr<dots::HostTransceiver> host;
        std::map<std::string, Rule> rules;
        std::optional<bool> policy, published;
        size_t orders = 0;
        bool real = false;                 // on connections
        std::vector<std::string> networks, names{ "", "", "alice", "bob", "carol" }, secrets{ "s", "secret", "", "another secret", "s::s" };

        AuthCase(Ctx& c, Rng& rng) : Case(c, rng)
        {
            networks = { "127.0.0.1", "127.0.0.0", "0.0.0.0", "10.0.0.0", "192.168.1.2", "::1", "::", "fd00::", "127.3.0.0" };
            for (int k = 0; k < 4; ++k) networks.push_back(randomIp(r).text());
        }
        // ---- the reference ------------------------------------------------------------------------------------------------
        std::vector<const Rule*> matching(const Ip& a, const std::string& name, bool backwards)
        {
            std::vector<const Rule*> v;
            for (auto& [k, x] : rules) if (x.matches(a, name)) v.push_back(&x);
            std::sort(v.begin(), v.end(), [&](auto* x, auto* y){ return x->priority != y->priority ? x->priority < y->priority : backwards ? x->order > y->order : x->order < y->order; });
            return v;
        }
        bool verdictOf(const Ip& a, const std::string& name, uint64_t nonce, const Reply& reply, bool backwards, bool missingIsFinal)
        {
            bool failed = false;
            for (auto* x : matching(a, name, backwards))
            {
                if (!x->secret) { if (x->accept) return *x->accept; continue; }
                if (!reply.given && missingIsFinal) return false;
                if (reply.digest == answer(nonce, reply.cnonce, name, *x->secret)) { if (x->accept) return *x->accept; }
                else if (x->accept == true) failed = true;
            }
            return failed ? false : policy.value_or(true);
        }
        Verdict verdict(const std::string& scheme, const std::optional<Ip>& a, const std::string& name, uint64_t nonce, const Reply& reply)
        {
            if (scheme == "uds") return Yes;
            if (scheme != "tcp" && scheme != "ws") return policy.value_or(false) ? Yes : No;
            // among rules of the same priority the order is open, and whether a missing response ends the search
            bool v = verdictOf(*a, name, nonce, reply, false, false);
            for (int k = 1; k < 4; ++k) if (verdictOf(*a, name, nonce, reply, k & 1, k & 2) != v) return Either;
            return v ? Yes : No;
        }
        Verdict demanded(const std::string& scheme, const std::optional<Ip>& a)
        {
            if (scheme == "uds") return No;
            if (scheme != "tcp" && scheme != "ws") return policy == true ? No : Yes;
            auto one = [&](bool backwards){ for (auto* x : matching(*a, "", backwards)) if (x->accept == true) return x->secret.has_value(); return false; };
            bool v = one(false);
            return one(true) != v ? Either : v ? Yes : No;
        }
        // ---- rules --------------------------------------------------------------------------------------------------------
        static std::string keyOf(const Rule& x) { return !x.complete ? (x.prefix % 2 ? x.network : "") + " " + x.name + " " + std::to_string(x.priority) + " incomplete" : x.network + "/" + std::to_string(x.prefix) + " " + x.name + " " + std::to_string(x.priority); }
        dots::types::DotsAuthentication keys(const Rule& x)
        {
            dots::types::DotsAuthentication d{ .nameSpace = "" };
            dots::types::DotsNetwork n;
            if (x.complete) { n.network = x.network; n.prefix = x.prefix; }
            else if (x.prefix % 2) n.network = x.network;
            d.network = n;
            d.clientName = x.name;
            d.priority = x.priority;
            return d;
        }
        std::string show(const Rule& x) { return keyOf(x) + (x.secret ? " secret '" + *x.secret + "'" : "") + (x.accept ? *x.accept ? " accept" : " reject" : ""); }
        void publish(const dots::types::DotsAuthentication& d, std::optional<dt::PropertySet> included, bool remove) { host->publish(d, included, remove); }
        void changeRule()
        {
            using A = dots::types::DotsAuthentication;
            size_t k = r.below(10);
            if (k < 5 || rules.empty())
            {
                Rule x;
                x.network = r.pick(networks);
                x.name = r.pick(names);
                auto n = parseIp(x.network);
                x.prefix = static_cast<uint8_t>(r.chance(30) ? n->bits() : r.chance(40) ? r.pick(std::vector<size_t>{ 0, 1, 7, 8, 9, 16, 24, 31 }) : r.below(n->bits() + 1));
                x.priority = static_cast<uint16_t>(r.chance(80) ? r.below(6) : r.below(65536));
                if (real && r.chance(45)) { x.network = r.chance(75) ? "127.0.0.0" : "127.0.0.1"; x.prefix = static_cast<uint8_t>(r.below(9)); }
                if (r.chance(4)) x.network = r.pick(std::vector<std::string>{ "nonsense", "1.2.3", "", "127.0.0.1/8", "localhost" });
                if (r.chance(4)) x.prefix = static_cast<uint8_t>(33 + r.below(223));
                if (r.chance(3)) x.complete = false;
                if (rules.count(keyOf(x))) return;
                if (r.chance(real ? 60 : 45)) x.secret = r.pick(secrets);
                if (r.chance(85)) x.accept = r.chance(60);
                x.order = ++orders;
                auto d = keys(x);
                if (x.secret) d.secret = *x.secret;
                if (x.accept) d.accept = *x.accept;
                say("rule " + show(x));
                publish(d, std::nullopt, false);
                rules[keyOf(x)] = x;
                ctx.count("rules_created");
            }
            else
            {
                auto it = rules.begin();
                std::advance(it, static_cast<long>(r.below(rules.size())));
                Rule& x = it->second;
                auto d = keys(x);
                if (k < 8)
                {
                    dt::PropertySet included = A::_KeyProperties();
                    if (r.coin()) { included += A::secret_p; if (r.chance(75)) { x.secret = r.pick(secrets); d.secret = *x.secret; } else x.secret.reset(); }
                    if (r.coin()) { included += A::accept_p; if (r.chance(80)) { x.accept = r.coin(); d.accept = *x.accept; } else x.accept.reset(); }
                    // what is not included does not count
                    if (!(A::secret_p <= included) && r.coin()) d.secret = "ignored";
                    if (!(A::accept_p <= included) && r.coin()) d.accept = r.coin();
                    say("changed rule " + show(x));
                    publish(d, included, false);
                    ctx.count("rules_changed");
                }
                else
                {
                    say("removed rule " + show(x));
                    publish(d, std::nullopt, true);
                    rules.erase(it);
                    ctx.count("rules_removed");
                }
            }
        }
        void changePolicy()
        {
            dots::types::DotsAuthenticationPolicy p{ .nameSpace = "" };
            if (published && r.chance(30)) { say("policy removed"); host->publish(p, std::nullopt, true); policy.reset(); published.reset(); }
            else
            {
                policy = published = r.coin();
                p.accept = *policy;
                say(std::string{ "policy " } + (*policy ? "accept" : "reject"));
                host->publish(p, std::nullopt, false);
            }
            ctx.count("policies");
        }
        Ip pickAddress()
        {
            // mostly at the borders of the networks of the rules
            if (r.chance(85))
            {
                std::string n = r.pick(networks);
                size_t prefix = 0;
                if (!rules.empty() && r.chance(80)) { auto it = rules.begin(); std::advance(it, static_cast<long>(r.below(rules.size()))); n = it->second.network; prefix = it->second.prefix; }
                if (auto i = parseIp(n))
                {
                    prefix = std::min(prefix, i->bits());
                    for (size_t k = prefix; k < i->bits(); ++k) if (r.coin()) i->b[k / 8] = static_cast<uint8_t>(i->b[k / 8] ^ (1u << (7 - k % 8)));
                    if (prefix > 0 && r.chance(35)) { size_t k = r.coin() ? prefix - 1 : r.below(prefix); i->b[k / 8] = static_cast<uint8_t>(i->b[k / 8] ^ (1u << (7 - k % 8))); }
                    return *i;
                }
            }
            return randomIp(r);
        }
        // a response: mostly the right one for one of the rules, or almost
        Reply respond(const std::optional<Ip>& a, const std::string& name, uint64_t nonce, std::string cnonce)
        {
            Reply x;
            x.cnonce = cnonce;
            std::string secret = r.pick(secrets);
            std::vector<const Rule*> v;
            if (a) v = matching(*a, name, false);
            std::vector<std::string> s;
            for (auto* m : v) if (m->secret) s.push_back(*m->secret);
            if (!s.empty() && r.chance(75)) secret = r.pick(s);
            std::string who = name;
            uint64_t n = nonce;
            std::string c = cnonce;
            size_t k = r.below(20);
            if (k == 0) who += "x";
            else if (k == 1) n = nonce ^ (1ull << r.below(64));
            else if (k == 2) c += "0";
            else if (k == 3) secret += "x";
            else if (k == 4) n = 0;
            x.digest = answer(n, c, who, secret);
            if (k == 5) x.digest[r.below(32)] ^= static_cast<uint8_t>(1u << r.below(8));
            if (k == 6) x.digest = Hash{};
            return x;
        }
        std::string who(const std::string& scheme, const std::optional<Ip>& a, const std::string& name)
        {
            std::string s = "'" + name + "' at " + scheme + (a ? " " + a->text() : "") + ", policy " + (policy ? *policy ? "accept" : "reject" : "none") + ", rules:";
            if (a) for (auto* x : matching(*a, name, false)) s += " [" + show(*x) + "]";
            return s;
        }
        // ---- at the interface -----------------------------------------------------------------------------------------------
        void interface()
        {
            std::unique_ptr<io_::LegacyAuthManager> auth;
            host = std::make_unique<dots::HostTransceiver>("host", io, dt::Registry::StaticTypePolicy::All);
            if (r.coin()) auth = std::make_unique<io_::LegacyAuthManager>(*host);
            if (r.coin()) changePolicy();
            size_t ops = 2 + r.below(25);
            for (size_t k = 0; k < ops && !bad; ++k)
            {
                if (r.chance(75)) changeRule(); else if (r.chance(30)) changePolicy();
                if (!auth && (r.chance(30) || k + 1 == ops)) { say("manager"); auth = std::make_unique<io_::LegacyAuthManager>(*host); }
                else if (auth && r.chance(4)) { say("new manager"); auth = std::make_unique<io_::LegacyAuthManager>(*host); }
                if (!auth) continue;
                check(auth->rules().size() == rules.size(), "rules", [&]{ return std::to_string(auth->rules().size()) + " instead of " + std::to_string(rules.size()); });
                check(auth->defaultPolicy() == policy, "policy", [&]{ return std::string{ auth->defaultPolicy() ? *auth->defaultPolicy() ? "accept" : "reject" : "none" }; });
                for (size_t q = 2 + r.below(6); q > 0 && !bad; --q) ask(*auth);
            }
            uint64_t d = 1;
            for (auto& l : log) d = hashStr(l, d + 1);
            ctx.distinct("histories", d);
            auth.reset();
            host.reset();
        }
        void ask(io_::LegacyAuthManager& auth)
        {
            std::string scheme = r.chance(85) ? r.coin() ? "tcp" : "ws" : r.pick(std::vector<std::string>{ "uds", "local", "tcps" });
            std::optional<Ip> a;
            if (scheme == "tcp" || scheme == "ws") a = pickAddress();
            std::string name = r.chance(80) ? r.pick(names) : std::string{ "dave" };
            if (name.empty() && r.chance(80)) name = "erin";
            io_::Endpoint e = !a ? io_::Endpoint{ scheme + ":x" } : a->v6 ? io_::Endpoint{ scheme, dots::asio::ip::tcp::endpoint{ dots::asio::ip::make_address(a->text()), 1234 } } : io_::Endpoint{ scheme, a->text(), "1234" };
            if (a)
            {
                // the rules that match, by priority
                auto got = auth.findMatchingRules(dots::asio::ip::make_address(a->text()), name);
                std::multiset<std::string> x, y;
                bool sorted = true;
                uint16_t last = 0;
                for (auto& g : got) { Rule m; m.network = *g.network->network; m.prefix = *g.network->prefix; m.name = *g.clientName; m.priority = *g.priority; if (g.secret.isValid()) m.secret = *g.secret; if (g.accept.isValid()) m.accept = *g.accept; sorted &= m.priority >= last; last = m.priority; x.insert(show(m)); }
                for (auto* m : matching(*a, name, false)) y.insert(show(*m));
                auto list = [](auto& v) { std::string s; for (auto& i : v) s += " [" + i + "]"; return s; };
                check(sorted && x == y, "matching-rules", [&]{ return who(scheme, a, name) + "; found" + list(x); });
                ctx.count("rules_matched", y.size());
            }
            Verdict want = demanded(scheme, a);
            auto nonce = auth.requiresAuthentication(e, {});
            if (want != Either) check(nonce.has_value() == (want == Yes), "demand", [&]{ return std::string{ nonce ? "a response is demanded: " : "no response is demanded: " } + who(scheme, a, name); });
            uint64_t n = nonce && r.coin() ? nonce->value() : r.next();
            bool typed = r.coin();
            io_::Nonce cn{ static_cast<uint64_t>(r.next()) };
            Reply reply = respond(a, name, n, typed ? cn.toString() : r.chance(80) ? cn.toString() : std::string(r.below(5), 'c'));
            Verdict v = verdict(scheme, a, name, n, reply);
            bool got = typed ? auth.verifyAuthentication(e, name, io_::Nonce{ n }, cn, io_::Digest{ reply.digest }) : static_cast<io_::AuthManager&>(auth).verifyAuthentication(e, name, io_::Nonce{ n }, std::string_view{ reply.cnonce }, io_::Digest{ reply.digest });
            if (v != Either) check(got == (v == Yes), got ? "accepted" : "rejected", [&]{ return who(scheme, a, name); });
            ctx.count(v == Either ? "verdicts_open" : v == Yes ? "verdicts_yes" : "verdicts_no");
            if (v == No && a) { for (auto* m : matching(*a, name, false)) if (m->secret) { ctx.count("verdicts_no_with_secret"); break; } }
            if (v == Yes && a) { for (auto* m : matching(*a, name, false)) if (m->secret) { ctx.count("verdicts_yes_with_secret"); break; } }
            // the digests themselves
            io_::Digest direct{ io_::Nonce{ n }, reply.cnonce, name, "s" };
            check(direct.value() == answer(n, reply.cnonce, name, "s") && direct.toString() == hex(bytesOf(answer(n, reply.cnonce, name, "s"))), "digest", [&]{ return direct.toString(); });
            check(io_::Digest{ direct.toString() }.value() == direct.value(), "digest-text", [&]{ return direct.toString(); });
            check(io_::Nonce{ cn.toString() }.value() == cn.value() && cn.toString().size() == 16, "nonce-text", [&]{ return cn.toString(); });
        }
        // ---- on connections -----------------------------------------------------------------------------------------------
        struct Client
        {
            std::string name;
            Tr tr = Tr::Local;
            Ip from;
            std::unique_ptr<Peer> raw;
            std::unique_ptr<dots::asio::io_context> own;
            std::optional<std::string> secret;
            std::vector<int> guestStates;
            bool guestError = false;
            uint32_t id = 0;
            std::unique_ptr<dots::GuestTransceiver> guest;
        };
        std::map<uint32_t, std::vector<int>> states;
        std::map<uint32_t, size_t> accepted;
        std::map<Tr, Address> at;
        io_::Listener* local = nullptr;
        std::vector<std::unique_ptr<Client>> clients;
        std::optional<dots::Subscription> sub;
        bool managed = false;
        bool step()
        {
            bool moved = poll(io);
            for (auto& c : clients) { if (c->raw) moved |= c->raw->step(); if (c->own) moved |= poll(*c->own); }
            return moved;
        }
        static std::string scheme(Tr t) { return t == Tr::Tcp1 || t == Tr::Tcp2 ? "tcp" : t == Tr::Ws ? "ws" : t == Tr::Local ? "local" : "uds"; }
        void connections()
        {
            real = true;
            host = std::make_unique<dots::HostTransceiver>("host", io, dt::Registry::StaticTypePolicy::All, dots::Transceiver::transition_handler_t{ [this](const dots::Connection& c, std::exception_ptr)
            {
                states[c.peerId()].push_back(static_cast<int>(c.state()));
            } });
            sub.emplace(host->subscribe(staticType("VEvent"), dots::Transceiver::transmission_handler_t{ [this](const io_::Transmission& t) { if (t.header().sender.isValid()) ++accepted[*t.header().sender]; } }));
            if (r.coin()) { managed = true; say("manager"); host->setAuthManager<io_::LegacyAuthManager>(); }
            std::vector<Tr> all{ Tr::Tcp2, Tr::Tcp1, Tr::Uds2, Tr::Uds1, Tr::Ws, Tr::Local };
            for (Tr t : all)
            {
                if (!r.chance(t == Tr::Tcp2 || t == Tr::Ws ? 70 : 40)) continue;
                for (int k = 0; k < 30; ++k)
                {
                    Address a;
                    a.host = "0.0.0.0";
                    if (t == Tr::Ws || t == Tr::Tcp1 || t == Tr::Tcp2) a.host = r.chance(15) ? "::1" : "127." + std::to_string(r.below(256)) + "." + std::to_string(r.below(256)) + "." + std::to_string(1 + r.below(250));
                    a.port = static_cast<int>(r.range(10000, 32000));
                    if (t == Tr::Uds1 || t == Tr::Uds2) a.path = scratch + "/h" + std::to_string(static_cast<int>(t));
                    try { openListener(*host, t, a, local); at[t] = a; break; } catch (const std::exception&) {}
                }
            }
            if (at.empty()) { ctx.count("hosts_not_started"); return; }
            if (r.chance(70)) changePolicy();
            size_t ops = 3 + r.below(14);
            for (size_t k = 0; k < ops && !bad; ++k)
            {
                for (size_t c = r.below(4); c > 0; --c) changeRule();
                if (r.chance(15)) changePolicy();
                if (!managed && r.chance(30)) { managed = true; say("manager"); host->setAuthManager<io_::LegacyAuthManager>(); }
                else if (managed && r.chance(4)) { say("new manager"); host->setAuthManager<io_::LegacyAuthManager>(); }
                if (clients.size() > 6) clients.erase(clients.begin());
                if (r.chance(35)) guest(); else raw();
            }
            uint64_t d = 2;
            for (auto& l : log) d = hashStr(l, d + 1);
            ctx.distinct("histories", d);
            // those who are in stay in, whatever happens to the rules
            for (size_t k = 0; k < 30 && !bad; ++k) step();
            for (auto& c : clients)
            {
                if (bad || states[c->id].empty() || states[c->id].back() != static_cast<int>(State::connected)) continue;
                if (c->guest) check(c->guest->connected(), "thrown-out", [&]{ return c->name; });
                if (c->raw) check(!c->raw->ended, "thrown-out", [&]{ return c->name; });
                ctx.count("stayed_connected");
            }
        }
        Address target(Client& c)
        {
            std::vector<Tr> trs;
            for (auto& [t, a] : at) trs.push_back(t);
            c.tr = r.pick(trs);
            Address a = at.at(c.tr);
            if (a.host.find(':') != std::string::npos) c.from = *parseIp("::1");
            else c.from = *parseIp("127.0.0.1");
            return a;
        }
        std::string pickName() { return r.chance(70) ? r.pick(std::vector<std::string>{ "alice", "bob", "carol" }) : "dave" + std::to_string(clients.size()); }
        void wait(size_t before)
        {
            pump([&]{ return states.size() > before; }, [&]{ return step(); });
            check(states.size() == before + 1, "no-connection", [&]{ return std::to_string(states.size() - before) + " connections began"; });
        }
        void raw()
        {
            auto cp = std::make_unique<Client>();
            Client& c = *cp;
            Address a = target(c);
            bool ip = scheme(c.tr) == "tcp" || scheme(c.tr) == "ws";
            if (ip && !c.from.v6 && r.chance(80))
            {
                // from another address of this machine
                Ip i = pickAddress();
                if (i.v6) i = *parseIp("127.0.0.1");
                i.b[0] = 127;
                if (i.b[1] == 255 && i.b[2] == 255 && i.b[3] == 255) i.b[3] = 254;
                if (i.b[1] == 0 && i.b[2] == 0 && i.b[3] == 0) i.b[3] = 1;
                c.from = i;
                a.from = i.text();
            }
            c.name = pickName();
            size_t before = states.size();
            if (c.tr == Tr::Local)
            {
                auto lp = std::make_unique<LocalPeer>();
                lp->adopt(io_::make_channel<io_::LocalChannel>(io, static_cast<io_::LocalListener&>(*local)));
                c.raw = std::move(lp);
            }
            else
            {
                auto sp = std::make_unique<SockPeer>(c.tr, r);
                if (!sp->connect(a)) { ctx.count("not_reachable"); return; }
                c.raw = std::move(sp);
            }
            Peer& p = *c.raw;
            clients.push_back(std::move(cp));
            wait(before);
            if (bad) return;
            c.id = states.rbegin()->first;
            std::string sch = scheme(c.tr);
            std::optional<Ip> from;
            if (ip) from = c.from;
            auto find = [&](const char* name, size_t nth = 0) -> const Frame* { for (auto& f : p.got) if (f.name == name && nth-- == 0) return &f; return nullptr; };
            pump([&]{ return find("DotsMsgHello") || p.ended; }, [&]{ return step(); });
            const Frame* hello = find("DotsMsgHello");
            if (!check(hello != nullptr, "no-hello", [&]{ return c.name + " over " + trName(c.tr) + " " + p.problem; })) return;
            bool asked = hello->rec.count(3) && hello->rec.at(3).u;
            uint64_t nonce = hello->rec.count(2) ? hello->rec.at(2).u : 0;
            Verdict want = managed ? demanded(sch, from) : No;
            if (want != Either) check(asked == (want == Yes), "demand", [&]{ return std::string{ asked ? "a response is demanded: " : "no response is demanded: " } + who(sch, from, c.name); });
            if (asked) { ctx.distinct("challenges", nonce); check(challenges.insert(nonce).second, "challenge-repeated", [&]{ return std::to_string(nonce); }); }
            // the rules may change before the response
            if (r.chance(20)) changeRule();
            Reply reply = respond(from, c.name, nonce, hex(std::string(8, static_cast<char>(r.next()))));
            bool preload = r.coin();
            Rec rec{ { 1, Val::ofStr(c.name) }, { 2, boolVal(preload) } };
            bool malformed = false;
            size_t k = r.below(20);
            if (k < 4) { reply.given = false; reply.digest = Hash{}; reply.cnonce = ""; }
            else
            {
                std::string text = hex(bytesOf(reply.digest));
                if (k == 4) { text = r.pick(std::vector<std::string>{ text + "00", text + text, std::string(5000, 'a'), text.substr(1), "xyz", text.substr(0, 10), std::string(64, 'g'), text + "zz" }); malformed = true; }
                else if (k == 5) for (auto& ch : text) ch = static_cast<char>(std::toupper(ch));
                rec[4] = Val::ofStr(text);
                rec[5] = Val::ofStr(reply.cnonce);
                if (k == 6) { rec.erase(5); reply.cnonce = ""; reply.given = false; }
                if (k == 7) { rec.erase(4); reply.digest = Hash{}; reply.given = false; }
            }
            Verdict v = managed ? verdict(sch, from, c.name, nonce, reply) : Yes;
            if (malformed)
            {
                // whatever is decoded of it, it is no answer; it may be an error where none is needed
                Reply none = reply;
                none.digest = Hash{};
                v = managed ? verdict(sch, from, c.name, nonce, none) : Either;
                if (v == Yes) v = Either;
                if (!managed) v = Yes;
            }
            say(c.name + " over " + trName(c.tr) + (ip ? " from " + c.from.text() : "") + (asked ? ", asked" : "") + ", expected " + (v == Yes ? "yes" : v == No ? "no" : "any") + (malformed ? ", malformed" : !reply.given ? ", no response" : ""));
            p.system("DotsMsgConnect", rec);
            // everything follows at once, as if it was accepted
            bool eager = r.chance(60);
            static std::shared_ptr<TypeDef> event = defOf(staticType("VEvent"));
            Val join = intVal(Kind::Enum, 0);
            for (auto& e : internalTypes().at("DotsMember")->find(2)->shape.def->enumerators) if (e.name == "join") join.u = static_cast<uint64_t>(static_cast<int64_t>(e.value));
            auto follow = [&]
            {
                std::vector<TypePtr> types;
                collectTypes(event, types);
                p.tell(types);
                p.object(*event, Rec{ { 1, intVal(Kind::I32, 7) } });
                p.system("DotsMember", Rec{ { 1, Val::ofStr("DotsAuthentication") }, { 2, join } });
                p.system("DotsEcho", Rec{ { 1, boolVal(true) }, { 2, u32Val(77) } });
                if (preload) p.system("DotsMsgConnect", Rec{ { 3, boolVal(true) } });
            };
            if (eager) follow();
            auto last = [&]{ auto& s = states[c.id]; return s.empty() ? -1 : s.back(); };
            int connected = static_cast<int>(State::connected), closed = static_cast<int>(State::closed);
            pump([&]{ return find("DotsMsgConnectResponse") || p.ended || last() == closed; }, [&]{ return step(); });
            const Frame* response = find("DotsMsgConnectResponse");
            bool yes = response && response->rec.count(2) && response->rec.at(2).u;
            if (yes && !eager) follow();
            if (yes)
            {
                pump([&]{ return last() == connected && accepted[c.id] == 1 && find("DotsEcho"); }, [&]{ return step(); });
                check(last() == connected && accepted[c.id] == 1 && find("DotsEcho"), "not-served", [&]{ return c.name + " is accepted but not served " + p.problem; });
                check(v != No, "accepted", [&]{ return who(sch, from, c.name); });
                ctx.count(asked ? "connections_accepted_with_response" : "connections_accepted");
            }
            else
            {
                pump([&]{ return p.ended && last() == closed; }, [&]{ return step(); });
                check(p.ended, "rejected-but-open", [&]{ return c.name; });
                for (int i = 0; i < 20; ++i) step();
                check(v != Yes, "rejected", [&]{ return who(sch, from, c.name); });
                auto& s = states[c.id];
                check(s.size() == 2 && last() == closed, "rejected-but-connected", [&]{ return c.name + " " + std::to_string(s.size()) + " transitions"; });
                check(accepted[c.id] == 0, "rejected-but-published", [&]{ return c.name; });
                for (auto& f : p.got)
                {
                    bool fine = f.name == "DotsMsgHello" || f.name == "DotsMsgError" || (f.name == "DotsMsgConnectResponse" && f.rec.count(2) && !f.rec.at(2).u);
                    check(fine, "rejected-but-told", [&]{ return c.name + " receives " + f.name; });
                }
                ctx.count(asked ? "connections_rejected_with_response" : "connections_rejected");
            }
            if (!p.problem.empty() && c.tr != Tr::Local) check(false, "stream", [&]{ return p.problem; });
            ctx.count("raw_connections");
            ctx.count(std::string{ "raw_" } + trName(c.tr));
        }
        std::set<uint64_t> challenges;
        void guest()
        {
            auto cp = std::make_unique<Client>();
            Client& c = *cp;
            Address a = target(c);
            if (c.from.v6) return;               // its channels do not speak IPv6
            bool ip = scheme(c.tr) == "tcp" || scheme(c.tr) == "ws";
            c.name = pickName();
            if (r.chance(75)) c.secret = r.pick(secrets);
            if (ip && r.chance(60)) { for (auto* m : matching(c.from, c.name, false)) if (m->secret) { c.secret = *m->secret; break; } }
            c.own = std::make_unique<dots::asio::io_context>();
            size_t before = states.size();
            io_::channel_ptr_t channel;
            dots::asio::io_context& mine = *c.own;
            if (c.tr == Tr::Ws)
            {
                std::atomic<bool> done{ false };
                std::thread th([&]{ try { channel = openChannel(mine, c.tr, a, nullptr); } catch (const std::exception&) {} done = true; });
                pump([&]{ return done.load(); }, [&]{ return step(); }, 20000);
                th.join();
            }
            else try { channel = openChannel(c.tr == Tr::Local ? io : mine, c.tr, a, local); } catch (const std::exception&) {}
            if (!channel) { ctx.count("not_reachable"); return; }
            c.guest = std::make_unique<dots::GuestTransceiver>(c.name, c.tr == Tr::Local ? io : mine, dt::Registry::StaticTypePolicy::All, dots::Transceiver::transition_handler_t{ [&c](const dots::Connection& x, std::exception_ptr e)
            {
                c.guestStates.push_back(static_cast<int>(x.state()));
                if (x.state() == State::closed && e) c.guestError = true;
            } });
            say("guest " + c.name + " over " + trName(c.tr) + (c.secret ? " with '" + *c.secret + "'" : " without a secret"));
            clients.push_back(std::move(cp));
            c.guest->open(dt::DescriptorMap{}, dt::DescriptorMap{}, c.secret, std::move(channel));
            std::string sch = scheme(c.tr);
            std::optional<Ip> from;
            if (ip) from = c.from;
            Verdict want = managed ? demanded(sch, from) : No;
            wait(before);
            if (bad) return;
            c.id = states.rbegin()->first;
            auto last = [&]{ auto& s = states[c.id]; return s.empty() ? -1 : s.back(); };
            int connected = static_cast<int>(State::connected), closed = static_cast<int>(State::closed);
            auto over = [&]{ return (last() == connected && c.guest->connected()) || (last() == closed && !c.guestStates.empty() && c.guestStates.back() == closed); };
            pump(over, [&]{ return step(); });
            check(over(), "not-over", [&]{ return c.name + " host " + std::to_string(last()); });
            bool yes = last() == connected;
            // it responds with its secret when it is asked, and not at all otherwise
            auto expect = [&](bool asked) -> Verdict
            {
                if (asked && !c.secret) return No;
                if (!managed) return Yes;
                Reply reply;
                if (!asked) { reply.given = false; return verdict(sch, from, c.name, 0, reply); }
                reply.cnonce = "c";
                reply.digest = answer(5, "c", c.name, *c.secret);
                return verdict(sch, from, c.name, 5, reply);
            };
            Verdict v = want == Either ? expect(false) == expect(true) ? expect(true) : Either : expect(want == Yes);
            if (v != Either) check(yes == (v == Yes), yes ? "accepted" : "rejected", [&]{ return "guest " + who(sch, from, c.name) + (c.secret ? " with '" + *c.secret + "'" : ""); });
            if (!yes) { check(c.guestError, "rejected-without-error", [&]{ return c.name; }); check(states[c.id].size() == 2, "rejected-but-connected", [&]{ return c.name; }); }
            ctx.count(yes ? want == Yes ? "guests_accepted_with_response" : "guests_accepted" : want == Yes ? "guests_rejected_with_response" : "guests_rejected");
        }
        void end()
        {
            clients.clear();
            sub.reset();
            host.reset();
            for (auto& [t, a] : at) if (!a.path.empty()) ::unlink(a.path.c_str());
        }
    };
}

int main(int argc, char** argv)
{
    return driverMain(argc, argv, { { "H03", [](Ctx& ctx, Rng& r)
    {
        static const bool known = hex(bytesOf(sha("abc"))) == "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"
            && hex(bytesOf(answer(5, "cnonce", "clientName", "secret"))) == "de10dac51d89b3e206e47d29d270472dca04cc860d71ec3cb563bc619ff7794d";
        ctx.check(known, "reference-digest", []{ return std::string{ "the reference does not reproduce the known digest" }; });
        AuthCase c(ctx, r);
        if (r.chance(50)) c.interface(); else c.connections();
        c.end();
        if (ctx.wantSample()) ctx.sample(c.tail());
    } } });
}
