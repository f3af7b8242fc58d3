// U01: addresses, networks, times and identifiers. Every conversion is compared with a reference written without the library.
#include "core/util.h"
#include <dots/io/Endpoint.h>
#include <dots/tools/IpNetwork.h>
#include <dots/type/Chrono.h>
#include <dots/type/Uuid.h>
#include <arpa/inet.h>
#include <array>
#include <optional>
#include <sstream>

using namespace vf;
using dots::tools::Uri;
using dots::io::Endpoint;
using dots::tools::IpNetwork;
namespace dt = dots::type;

namespace
{
    // ---- addresses -----------------------------------------------------------------------------------------------------------
    struct Parts
    {
        std::string scheme, user, password, host, port, path;
        bool authority() const { return !(user.empty() && password.empty() && host.empty() && port.empty()); }
        std::string hostText() const { return host.find(':') == std::string::npos ? host : "[" + host + "]"; }
        std::string authorityText() const
        {
            std::string a = user;
            if (!password.empty()) a += ":" + password;
            if (!a.empty()) a += "@";
            return a + hostText() + (port.empty() ? "" : ":" + port);
        }
        std::string text() const
        {
            if (authority()) return scheme + "://" + authorityText() + path;
            return scheme + ":" + (path.substr(0, 2) == "//" ? "//" : "") + path;
        }
        bool operator==(const Parts& o) const { return scheme == o.scheme && user == o.user && password == o.password && host == o.host && port == o.port && path == o.path; }
        std::string show() const { return "{" + scheme + "|" + user + "|" + password + "|" + host + "|" + port + "|" + path + "}"; }
    };
    Parts partsOf(const Uri& u)
    {
        return { std::string{ u.scheme() }, std::string{ u.userName() }, std::string{ u.userPassword() }, std::string{ u.host() }, std::string{ u.port() }, std::string{ u.path() } };
    }
    Parts parseRef(const std::string& t)
    {
        Parts p;
        size_t c = t.find(':');
        if (c == std::string::npos) { p.path = t; return p; }
        p.scheme = t.substr(0, c);
        std::string rest = t.substr(c + 1);
        if (rest.compare(0, 2, "//") != 0) { p.path = rest; return p; }
        rest = rest.substr(2);
        size_t s = rest.find('/');
        if (s != std::string::npos) { p.path = rest.substr(s); rest = rest.substr(0, s); }
        if (size_t a = rest.find('@'); a != std::string::npos)
        {
            p.user = rest.substr(0, a);
            rest = rest.substr(a + 1);
            if (size_t b = p.user.find(':'); b != std::string::npos) { p.password = p.user.substr(b + 1); p.user = p.user.substr(0, b); }
        }
        size_t e = rest.empty() || rest[0] != '[' ? 0 : rest.find(']') + 1;
        if (e) { p.host = rest.substr(1, e - 2); if (e < rest.size()) p.port = rest.substr(e + 1); }
        else if (size_t b = rest.find(':'); b != std::string::npos) { p.host = rest.substr(0, b); p.port = rest.substr(b + 1); }
        else p.host = rest;
        return p;
    }
    std::string word(Rng& r, const char* alphabet, size_t max)
    {
        std::string s;
        size_t n = 1 + r.below(r.chance(10) ? max * 4 : max);
        for (size_t k = 0; k < n; ++k) s += alphabet[r.below(std::strlen(alphabet))];
        return s;
    }
    std::string randomHost(Rng& r)
    {
        size_t k = r.below(8);
        if (k < 3) return word(r, "abcdefghijklmnopqrstuvwxyz0123456789-.", 20);
        if (k < 5) return std::to_string(r.below(256)) + "." + std::to_string(r.below(256)) + "." + std::to_string(r.below(256)) + "." + std::to_string(r.below(256));
        if (k == 5) return r.pick(std::vector<std::string>{ "::", "::1", "::ffff:1.2.3.4", "fe80::1" });
        in6_addr a;
        for (auto& b : a.s6_addr) b = r.coin() ? static_cast<uint8_t>(r.next()) : 0;
        char t[64];
        return inet_ntop(AF_INET6, &a, t, sizeof t);
    }
    const char* Unreserved = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~!$&'()*+,;=%";
    std::string randomPath(Rng& r)
    {
        if (r.chance(15)) return "";
        std::string s;
        for (size_t n = 1 + r.below(4); n > 0; --n) { s += "/"; if (!r.chance(8)) s += word(r, "abcdefghijklmnopqrstuvwxyz0123456789-._~", 10); if (r.chance(12)) s += r.pick(std::vector<std::string>{ ":", "://", "@", "[", "]", "//", ":80", "a:b@c" }); }
        return s;
    }
    Parts randomParts(Rng& r)
    {
        Parts p;
        p.scheme = r.chance(70) ? r.pick(std::vector<std::string>{ "tcp", "tcp-v2", "uds", "ws", "file", "local", "x" }) : word(r, "abcdefghijklmnopqrstuvwxyz0123456789+-.", 8);
        if (r.chance(70))
        {
            p.host = randomHost(r);
            if (r.coin()) p.port = std::to_string(r.below(65536));
            if (r.chance(45)) p.user = word(r, Unreserved, 10);
            if (!p.user.empty() && r.coin()) { p.password = word(r, Unreserved, 10); if (r.chance(10)) p.password += ":" + word(r, Unreserved, 4); }
        }
        p.path = randomPath(r);
        return p;
    }
    struct UriCase
    {
        Ctx& ctx;
        Rng& r;
        std::vector<std::unique_ptr<Endpoint>> uris;
        std::vector<Parts> models;
        std::string log;
        bool same(size_t k, const char* op)
        {
            const Uri& u = *uris[k];
            const Parts& m = models[k];
            Parts got = partsOf(u);
            std::string text{ u.uriStr() };
            bool ok = ctx.check(got == m, std::string{ "uri-" } + op, [&]{ return log + " -> " + got.show() + " instead of " + m.show() + " '" + text + "'"; });
            ok = ok && ctx.check(parseRef(text) == m, std::string{ "uri-text-" } + op, [&]{ return log + " -> '" + text + "' instead of '" + m.text() + "'"; });
            std::string a{ u.authority() };
            ok = ok && ctx.check(a.empty() ? !m.authority() : m.authority() && text.find("://" + a) == m.scheme.size(), std::string{ "uri-authority-" } + op, [&]{ return log + " -> '" + a + "' in '" + text + "'"; });
            Uri again{ text };
            ok = ok && ctx.check(partsOf(again) == m && again.uriStr() == text, std::string{ "uri-again-" } + op, [&]{ return log + " -> '" + text + "'"; });
            ctx.distinct("addresses", hashStr(text));
            return ok;
        }
        void add(const Parts& p)
        {
            size_t k = r.below(5);
            std::string t = p.text();
            if (k == 0 && p.authority() && p.user.empty() && p.path.empty() && !p.host.empty() && !p.port.empty())
            {
                if (r.coin()) uris.push_back(std::make_unique<Endpoint>(p.scheme, p.host, p.port));
                else uris.push_back(std::make_unique<Endpoint>(p.scheme, p.host, static_cast<uint16_t>(std::stoul(p.port))));
                ctx.count("uris_of_host_and_port");
            }
            else if (k == 1 && !p.authority()) { uris.push_back(std::make_unique<Endpoint>(p.scheme, p.path)); ctx.count("uris_of_path"); }
            else
            {
                // the same components can be written in several ways
                if (!p.authority() && p.path.substr(0, 1) == "/" && r.chance(30)) t = p.scheme + "://" + p.path;
                uris.push_back(std::make_unique<Endpoint>(t));
                ctx.check(uris.back()->uriStr() == t, "uri-verbatim", [&]{ return t; });
            }
            models.push_back(p);
            log += " | " + t;
        }
        void run()
        {
            for (size_t n = 1 + r.below(3); n > 0; --n)
            {
                Parts p = randomParts(r);
                if (r.chance(20) && p.authority()) { p.user = p.password = p.path = ""; p.port = std::to_string(r.below(65536)); }
                add(p);
                if (!same(uris.size() - 1, "new")) return;
            }
            for (size_t n = r.below(12); n > 0; --n)
            {
                size_t i = r.below(uris.size());
                if (!step(i)) return;
                for (size_t k = 0; k < uris.size(); ++k) if (!same(k, k == i ? "set" : "other")) return;
                ctx.count("uri_operations");
            }
        }
        bool step(size_t i)
        {
            Endpoint& u = *uris[i];
            Parts& m = models[i];
            Parts want = m;
            bool refused = false;
            std::string what;
            std::function<void()> f;
            switch (r.below(10))
            {
                case 0: { std::string v = r.chance(10) ? "" : randomParts(r).scheme; what = "scheme=" + v; want.scheme = v; refused = v.empty(); f = [&u, v]{ u.setScheme(v); }; break; }
                case 1:
                {
                    Parts p = randomParts(r);
                    std::string v = r.chance(15) ? "" : p.authorityText();
                    if (v.empty()) p.user = p.password = p.host = p.port = "";
                    if (r.chance(8)) { v = r.pick(std::vector<std::string>{ "[::1", "[", "user@[1:2", "a:b@[" }); refused = true; }
                    what = "authority=" + v;
                    want.user = p.user; want.password = p.password; want.host = p.host; want.port = p.port;
                    f = [&u, v]{ u.setAuthority(v); };
                    break;
                }
                case 2: { std::string v = r.chance(20) ? "" : word(r, Unreserved, 30); what = "user=" + v; want.user = v; refused = m.user.empty() && m.host.empty(); f = [&u, v]{ u.setUserName(v); }; break; }
                case 3: { std::string v = r.chance(20) ? "" : word(r, Unreserved, 30); what = "password=" + v; want.password = v; refused = m.user.empty() && m.password.empty(); f = [&u, v]{ u.setUserPassword(v); }; break; }
                case 4: { std::string v = r.chance(15) ? "" : randomHost(r); what = "host=" + v; want.host = v; f = [&u, v]{ u.setHost(v); }; break; }
                case 5: { std::string v = r.chance(20) ? "" : std::to_string(r.below(65536)); what = "port=" + v; want.port = v; refused = m.port.empty() && m.host.empty(); f = [&u, v]{ u.setPort(v); }; break; }
                case 6: { std::string v = randomPath(r); if (r.chance(10)) { v = "relative"; refused = true; } what = "path=" + v; want.path = v; f = [&u, v]{ u.setPath(v); }; break; }
                case 7:
                {
                    size_t k = r.below(uris.size());
                    want = models[k];
                    what = "copy of " + models[k].text();
                    if (r.coin()) f = [&u, this, k]{ u = static_cast<const Endpoint&>(*uris[k]); };
                    else f = [&u, this, k]{ Endpoint c{ static_cast<const Endpoint&>(*uris[k]) }; u = std::move(c); };
                    break;
                }
                case 8:
                {
                    what = "moved";
                    f = [this, i]{ auto n = std::make_unique<Endpoint>(std::move(*uris[i])); uris[i] = std::move(n); };
                    break;
                }
                default:
                {
                    // one that goes away: nothing may refer to it
                    Parts p = randomParts(r);
                    want = p;
                    what = "assigned " + p.text();
                    f = [&u, p]{ auto t = std::make_unique<Endpoint>(p.text()); if (p.text().size() % 2) u = std::move(*t); else u = *t; t.reset(); };
                }
            }
            log += " | " + what;
            bool threw = false;
            try { f(); }
            catch (const std::exception&) { threw = true; }
            if (!ctx.check(threw == refused, threw ? "uri-refused" : "uri-not-refused", [&]{ return log; })) return false;
            if (!threw) m = want;
            else ctx.count("uri_refused");
            return true;
        }
        void lists()
        {
            std::vector<std::string> texts;
            std::string all(r.below(3), ' ');
            for (size_t n = r.below(5); n > 0; --n) { texts.push_back(randomParts(r).text()); all += texts.back() + std::string(1 + r.below(3), ' '); }
            if (!all.empty() && r.coin()) while (!all.empty() && all.back() == ' ') all.pop_back();
            std::vector<Endpoint> e = Endpoint::FromStrings(all);
            bool ok = e.size() == texts.size();
            for (size_t k = 0; ok && k < e.size(); ++k) ok = e[k].uriStr() == texts[k] && partsOf(e[k]) == parseRef(texts[k]);
            ctx.check(ok, "uri-list", [&]{ return "'" + all + "' -> " + std::to_string(e.size()); });
            ctx.count("uri_lists");
        }
        void ofSocket()
        {
            namespace ip = dots::asio::ip;
            std::string host = r.coin() ? "1.2.3." + std::to_string(r.below(256)) : randomHost(r);
            boost::system::error_code ec;
            auto a = ip::make_address(host, ec);
            if (ec) return;
            auto port = static_cast<uint16_t>(r.next());
            ip::tcp::endpoint e{ a, port };
            Endpoint u = r.coin() ? Endpoint{ e } : Endpoint{ "tcp", e };
            ctx.check(u.scheme() == "tcp" && u.port() == std::to_string(port) && ip::make_address(std::string{ u.host() }) == a, "uri-of-endpoint", [&]{ return host + " -> " + std::string{ u.uriStr() }; });
            ctx.count("uris_of_sockets");
        }
    };

    // ---- networks ------------------------------------------------------------------------------------------------------------
    struct Net { bool v6 = false; std::array<uint8_t, 16> b{}; unsigned prefix = 0; size_t bits() const { return v6 ? 128 : 32; } std::string host() const { char t[64]; inet_ntop(v6 ? AF_INET6 : AF_INET, b.data(), t, sizeof t); return t; } std::string text() const { return host() + "/" + std::to_string(prefix); } };
    bool bit(const Net& n, size_t k) { return (n.b[k / 8] >> (7 - k % 8)) & 1; }
    bool sameBits(const Net& a, const Net& b, size_t n) { for (size_t k = 0; k < n; ++k) if (bit(a, k) != bit(b, k)) return false; return true; }
    Net randomNet(Rng& r, const Net* near)
    {
        Net n;
        if (near && r.chance(80))
        {
            n = *near;
            for (size_t k = r.chance(80) ? near->prefix : 0; k < n.bits(); ++k) if (r.coin()) n.b[k / 8] = static_cast<uint8_t>(n.b[k / 8] ^ (1u << (7 - k % 8)));
            if (near->prefix > 0 && r.chance(30)) { size_t k = near->prefix - 1; n.b[k / 8] = static_cast<uint8_t>(n.b[k / 8] ^ (1u << (7 - k % 8))); }
            int d = static_cast<int>(r.below(5)) - 2;
            n.prefix = r.chance(70) ? static_cast<unsigned>(std::clamp(static_cast<int>(near->prefix) + d, 0, static_cast<int>(n.bits()))) : static_cast<unsigned>(r.below(n.bits() + 1));
            return n;
        }
        n.v6 = r.coin();
        for (size_t k = 0; k < n.bits() / 8; ++k) n.b[k] = r.chance(30) ? 0 : static_cast<uint8_t>(r.next());
        n.prefix = static_cast<unsigned>(r.chance(30) ? r.pick(std::vector<size_t>{ 0, n.bits(), n.bits() - 1, 1, 8 }) : r.below(n.bits() + 1));
        return n;
    }
    IpNetwork netOf(Rng& r, const Net& n)
    {
        if (n.prefix == n.bits() && r.coin()) { if (r.coin()) return IpNetwork{ n.host() }; return IpNetwork{ dots::asio::ip::make_address(n.host()) }; }
        if (r.coin()) return IpNetwork{ n.text() };
        return IpNetwork{ n.host(), static_cast<unsigned short>(n.prefix) };
    }
    void networks(Ctx& ctx, Rng& r)
    {
        Net a = randomNet(r, nullptr), b = randomNet(r, &a);
        IpNetwork x = netOf(r, a), y = netOf(r, b);
        auto both = [&]{ return a.text() + " in " + b.text(); };
        ctx.check(x.isIpv6() == a.v6 && x.isIpv4() != a.v6, "network-kind", [&]{ return a.text(); });
        bool sub = a.v6 == b.v6 && a.prefix >= b.prefix && sameBits(a, b, b.prefix), strict = sub && a.prefix > b.prefix;
        ctx.check(x.isSubnetOf(y) == sub, "network-subnet", both);
        ctx.check(x.isStrictSubnetOf(y) == strict, "network-strict-subnet", both);
        ctx.check(x.isSubnetOf(x), "network-itself", both);
        auto [address, prefix] = x.toPrefixAddress();
        ctx.check(address == dots::asio::ip::make_address(a.host()) && prefix == a.prefix, "network-parts", [&]{ return a.text(); });
        IpNetwork again{ x.toString() };
        ctx.check(again.toPrefixAddress() == x.toPrefixAddress(), "network-text", [&]{ return a.text() + " -> " + x.toString(); });
        ctx.count(sub ? "networks_inside" : "networks_outside");
        ctx.distinct("networks", hashStr(a.text() + b.text()));
        // what is not a network
        std::string t = a.text();
        switch (r.below(8))
        {
            case 0: t = a.host() + "/" + std::to_string(a.bits() + 1 + r.below(1000)); break;
            case 1: t = a.host() + "/"; break;
            case 2: t = a.host() + "/-1"; break;
            case 3: t = "/" + std::to_string(a.prefix); break;
            case 4: t = "x" + t; break;
            case 5: t += "x"; break;
            case 6: t = a.v6 ? a.host() + ":1:2:3:4:5:6:7:8/64" : a.host() + ".1/8"; break;
            default: t = ""; break;
        }
        bool threw = false;
        try { IpNetwork z{ t }; } catch (const std::exception&) { threw = true; }
        ctx.check(threw, "network-malformed", [&]{ return "'" + t + "' is accepted"; });
        threw = false;
        try { IpNetwork z{ a.host(), static_cast<unsigned short>(a.bits() + 1 + r.below(60000)) }; } catch (const std::exception&) { threw = true; }
        ctx.check(threw, "network-malformed-prefix", [&]{ return a.text(); });
        ctx.count("networks_malformed", 2);
    }

    // ---- times ---------------------------------------------------------------------------------------------------------------
    int64_t daysOf(int64_t y, int64_t m, int64_t d)
    {
        int64_t n = 0;
        // whole 400 year cycles first
        int64_t cycles = (y - 1970) / 400;
        if ((y - 1970) % 400 < 0) --cycles;
        n = cycles * 146097;
        auto leap = [](int64_t x){ return x % 4 == 0 && (x % 100 != 0 || x % 400 == 0); };
        for (int64_t x = 1970 + cycles * 400; x < y; ++x) n += leap(x) ? 366 : 365;
        static const int lengths[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
        for (int64_t x = 1; x < m; ++x) n += lengths[x - 1] + (x == 2 && leap(y) ? 1 : 0);
        return n + d - 1;
    }
    // milliseconds since the epoch that a text of the given form denotes
    std::optional<int64_t> isoTime(const std::string& s)
    {
        int y, mo, d, h, mi, sec, ms, oh = 0, om = 0, used = 0;
        char sign = '+';
        if (std::sscanf(s.c_str(), "%4d-%2d-%2dT%2d:%2d:%2d.%3d%n", &y, &mo, &d, &h, &mi, &sec, &ms, &used) != 7 || used != 23) return std::nullopt;
        std::string z = s.substr(23);
        if (z != "Z") { int u2 = 0; if (std::sscanf(z.c_str(), "%c%2d:%2d%n", &sign, &oh, &om, &u2) != 3 || static_cast<size_t>(u2) != z.size() || z.size() != 6) return std::nullopt; }
        int64_t o = (oh * 60 + om) * 60;
        return ((daysOf(y, mo, d) * 24 + h) * 3600 + mi * 60 + sec - (sign == '-' ? -o : o)) * 1000 + ms;
    }
    std::string fixed(double d, int digits) { std::ostringstream o; o.precision(digits); o << std::fixed << d; return o.str(); }
    double randomSeconds(Rng& r)
    {
        double d = 0;
        switch (r.below(8))
        {
            case 0: d = static_cast<double>(r.below(100)); break;
            case 1: d = static_cast<double>(r.below(10000000)) / 1000; break;
            case 2: d = static_cast<double>(r.below(400) * 86400); break;
            case 3: d = static_cast<double>(r.below(100000)) * 60; break;
            case 4: d = static_cast<double>(r.below(1000000)) * 1e-6; break;
            case 5: d = static_cast<double>(r.next() % 1000000000000000) / 1e6; break;
            case 6: d = std::ldexp(static_cast<double>(r.next() >> 11), -53 - static_cast<int>(r.below(30))); break;
            default: d = std::ldexp(static_cast<double>(r.next() >> 11), static_cast<int>(r.below(60)) - 53);
        }
        return r.chance(25) ? -d : d;
    }
    std::optional<double> isoDuration(const std::string& s)
    {
        size_t k = 0;
        bool neg = s[k] == '-';
        if (neg) ++k;
        if (k >= s.size() || s[k] != 'P') return std::nullopt;
        ++k;
        static const std::vector<std::pair<std::string, double>> units{ { "Y", 31556952 }, { "M", 2629746 }, { "W", 604800 }, { "D", 86400 }, { "TH", 3600 }, { "TM", 60 }, { "TS", 1 } };
        size_t at = 0;
        bool time = false;
        double sum = 0;
        if (k == s.size()) return std::nullopt;
        while (k < s.size())
        {
            if (s[k] == 'T') { if (time) return std::nullopt; time = true; ++k; continue; }
            size_t b = k;
            while (k < s.size() && (std::isdigit(static_cast<unsigned char>(s[k])) || s[k] == '.')) ++k;
            if (k == b || k == s.size()) return std::nullopt;
            std::string n = s.substr(b, k - b);
            if (std::count(n.begin(), n.end(), '.') > 1 || n == ".") return std::nullopt;
            std::string unit = (time ? "T" : "") + std::string(1, s[k++]);
            while (at < units.size() && units[at].first != unit) ++at;
            if (at == units.size()) return std::nullopt;
            sum += std::strtod(n.c_str(), nullptr) * units[at++].second;
        }
        return neg ? -sum : sum;
    }
    void times(Ctx& ctx, Rng& r)
    {
        // durations
        double d = randomSeconds(r);
        dt::Duration dur{ d };
        std::string t = dur.toString();
        auto back = isoDuration(t);
        double eps = 0.51e-6 + std::fabs(d) * 4e-16;
        if (ctx.check(back && std::fabs(*back - d) <= eps, "duration-text", [&]{ return fixed(d, 9) + " -> " + t; }))
        {
            double got = dt::Duration::FromString(t).count();
            ctx.check(std::fabs(got - d) <= eps, "duration-back", [&]{ return fixed(d, 9) + " -> " + t + " -> " + fixed(got, 9); });
            dt::Duration other{ 7 };
            other.fromString(t);
            ctx.check(other.count() == got, "duration-assign", [&]{ return t; });
            dt::SteadyTimePoint s{ dur };
            ctx.check(s.toString() == t && dt::SteadyTimePoint::FromString(t).duration().count() == got, "steady-text", [&]{ return t; });
        }
        if (std::fabs(d) < 2e9) ctx.check(std::abs(dur.toSeconds() - d) <= 0.5, "duration-seconds", [&]{ return fixed(d, 9); });
        if (std::fabs(d) < 2e6) ctx.check(std::abs(dur.toMilliseconds() - d * 1e3) <= 0.5001, "duration-milliseconds", [&]{ return fixed(d, 9); });
        if (std::fabs(d) < 2e3) ctx.check(std::abs(dur.toMicroseconds() - d * 1e6) <= 0.5001, "duration-microseconds", [&]{ return fixed(d, 9); });
        ctx.distinct("durations", hashStr(t));
        // durations as others write them, and what is no duration
        std::string w = r.chance(15) ? "-P" : "P";
        bool time = false;
        for (const char* u : { "Y", "M", "W", "D", "T", "H", "M", "S" })
        {
            if (*u == 'T') { if (r.chance(75)) { time = true; w += "T"; } else break; continue; }
            if (r.coin()) continue;
            w += std::to_string(r.below(time ? 100000 : 1000));
            if (*u == 'S' ? r.coin() : r.chance(10)) { w += "."; for (size_t n = r.below(9); n > 0; --n) w += static_cast<char>('0' + r.below(10)); }
            w += u;
        }
        if (r.chance(50))
        {
            for (size_t n = 1 + r.below(2); n > 0; --n)
            {
                size_t at = r.below(w.size() + 1);
                switch (r.below(4)) { case 0: w.insert(at, 1, "PTYMWDHS.0-+ ex,"[r.below(16)]); break; case 1: if (at < w.size()) w.erase(at, 1); break; case 2: if (at < w.size()) w[at] = "PTYMWDHS.0-+ ex,"[r.below(16)]; break; default: w = w.substr(0, at); }
            }
            ctx.count("durations_changed");
        }
        if (r.chance(2)) w = "P" + std::string(200000, "0.9"[r.below(3)]) + r.pick(std::vector<std::string>{ "D", "", "T" });
        std::optional<double> want = w.empty() ? std::nullopt : isoDuration(w), got;
        try { got = dt::Duration::FromString(w).count(); } catch (const std::exception&) {}
        ctx.check(want.has_value() == got.has_value() || (want && !std::isfinite(*want)), got ? "duration-not-refused" : "duration-refused", [&]{ return "'" + w.substr(0, 100) + "'"; });
        if (want && got) ctx.check(std::fabs(*want - *got) <= 1e-6 + std::fabs(*want) * 1e-14, "duration-value", [&]{ return "'" + w.substr(0, 100) + "' -> " + fixed(*got, 9) + " instead of " + fixed(*want, 9); });
        ctx.count(got ? "durations_accepted" : "durations_refused");

        // time points between the years 1 and 9999
        static const double first = static_cast<double>(daysOf(1, 1, 2)) * 86400, last = static_cast<double>(daysOf(9999, 12, 30)) * 86400;
        double p = r.chance(60) ? 1e9 + randomSeconds(r) : first + (last - first) * (static_cast<double>(r.next() >> 11) / 9007199254740992.0);
        p = std::clamp(p, first, last);
        if (r.chance(30)) p = std::round(p * 1000) / 1000;
        if (r.chance(10)) p = std::round(p / 86400) * 86400;
        dt::TimePoint tp{ dt::Duration{ p } };
        double peps = 0.0005 + 1e-6 + std::fabs(p) * 4e-16;
        std::string utc = tp.toString(dt::TimePoint::ISO8601DateTime, true);
        auto ms = isoTime(utc);
        if (ctx.check(ms && std::fabs(static_cast<double>(*ms) / 1000 - p) <= peps, "time-text", [&]{ return fixed(p, 6) + " -> " + utc; }))
        {
            double b = dt::TimePoint::FromString(utc).duration().count();
            ctx.check(std::fabs(b - p) <= peps, "time-back", [&]{ return utc + " -> " + fixed(b, 6); });
        }
        // anywhere in the world
        static const std::vector<const char*> zones{ "UTC", "Europe/Berlin", "America/New_York", "Asia/Kolkata", "Australia/Lord_Howe", "Pacific/Kiritimati", "America/St_Johns" };
        const char* zone = r.pick(zones);
        bool zoned = false;
        if (r.coin()) try { dt::chrono::experimental::set_time_zone_override(zone); zoned = true; } catch (const std::exception&) { ctx.count("unknown_zones"); }
        if (zoned || p > -2e9)
        {
            std::string local = tp.toString();
            ms = isoTime(local);
            if (ctx.check(ms && std::fabs(static_cast<double>(*ms) / 1000 - p) <= peps, "time-local-text", [&]{ return fixed(p, 6) + " -> " + local + " in " + zone; }))
            {
                double b = dt::TimePoint::FromString(local).duration().count();
                ctx.check(std::fabs(b - p) <= peps, "time-local-back", [&]{ return local + " -> " + fixed(b, 6); });
            }
            if (zoned && local.substr(23) != "+00:00") ctx.count("times_in_zones");
        }
        if (zoned) dt::chrono::experimental::clear_time_zone_override();
        // as a number
        std::string number = tp.toString({});
        ctx.check(std::fabs(dt::TimePoint::FromString(number, {}).duration().count() - p) <= 0.6e-6 + std::fabs(p) * 4e-16 && std::fabs(std::strtod(number.c_str(), nullptr) - p) <= 0.6e-6 + std::fabs(p) * 4e-16, "time-number", [&]{ return fixed(p, 9) + " -> " + number; });
        // with another format, taken out of a larger text
        std::string formats = "%F %T|%Y%m%d";
        std::string f = tp.toString(std::string_view{ formats }.substr(0, 5), true);
        ctx.check(f == utc.substr(0, 10) + " " + utc.substr(11, 12), "time-format", [&]{ return f + " instead of " + utc; });
        // with an offset
        int off = static_cast<int>(r.range(-14 * 60, 14 * 60));
        std::string other = utc.substr(0, 23);
        if (r.chance(30)) other += "Z";
        else { char z[16]; std::snprintf(z, sizeof z, "%c%02d:%02d", off < 0 ? '-' : '+', std::abs(off) / 60, std::abs(off) % 60); other += z; }
        ms = isoTime(other);
        double b = dt::TimePoint::FromString(other).duration().count();
        ctx.check(ms && std::fabs(static_cast<double>(*ms) / 1000 - b) <= 1e-6 + std::fabs(b) * 4e-16, "time-offset", [&]{ return other + " -> " + fixed(b, 6); });
        ctx.distinct("times", hashStr(other));
        // what is no time
        std::string bad = other;
        switch (r.below(7))
        {
            case 0: bad += r.pick(std::vector<std::string>{ "x", "Z", " ", "0", "+01:00" }); break;
            case 1: bad = bad.substr(0, r.below(20)); break;
            case 2: bad[r.below(19)] = 'x'; break;
            case 3: bad[5] = '1'; bad[6] = '3'; break;
            case 4: bad[11] = '2'; bad[12] = '5'; break;
            case 5: bad = "x" + bad; break;
            default: bad[14] = '6'; bad[15] = '1';
        }
        bool threw = false;
        dt::TimePoint keep{ dt::Duration{ 5.5 } };
        try { keep.fromString(bad); } catch (const std::exception&) { threw = true; }
        ctx.check(threw && keep.duration().count() == 5.5, "time-malformed", [&]{ return "'" + bad + "' -> " + fixed(keep.duration().count(), 6); });
        threw = false;
        try { (void)dt::TimePoint::FromString(number + r.pick(std::vector<std::string>{ "x", " 1", "e", "..", ".1" }), {}); } catch (const std::exception&) { threw = true; }
        ctx.check(threw, "time-number-malformed", [&]{ return number; });
        ctx.count("times_malformed", 2);
    }

    // ---- identifiers ---------------------------------------------------------------------------------------------------------
    std::set<std::string> g_random;
    void uuids(Ctx& ctx, Rng& r)
    {
        std::array<uint8_t, 16> a, b;
        for (auto& x : a) x = r.chance(20) ? static_cast<uint8_t>(r.coin() ? 0 : 255) : static_cast<uint8_t>(r.next());
        b = a;
        if (r.chance(80)) b[r.below(16)] = static_cast<uint8_t>(r.next());
        dt::Uuid u{ a }, v{ b.data() };
        ctx.check(u.data() == a && v.data() == b, "uuid-data", [&]{ return hex(a.data(), 16); });
        ctx.check((u == v) == (a == b) && (u != v) == (a != b) && (u < v) == (std::memcmp(a.data(), b.data(), 16) < 0) && (v < u) == (std::memcmp(b.data(), a.data(), 16) < 0), "uuid-order", [&]{ return hex(a.data(), 16) + " " + hex(b.data(), 16); });
        std::string h = hex(a.data(), 16), t = h.substr(0, 8) + "-" + h.substr(8, 4) + "-" + h.substr(12, 4) + "-" + h.substr(16, 4) + "-" + h.substr(20);
        ctx.check(u.toString() == t, "uuid-text", [&]{ return u.toString() + " instead of " + t; });
        std::string s = r.coin() ? t : h;
        if (r.chance(30)) for (auto& c : s) c = static_cast<char>(std::toupper(c));
        if (r.chance(20)) s = "{" + s + "}";
        ctx.check(dt::Uuid::FromString(s).data() == a, "uuid-back", [&]{ return s; });
        ctx.check(dt::Uuid::FromData(std::string_view{ reinterpret_cast<const char*>(a.data()), 16 }).data() == a, "uuid-of-data", [&]{ return h; });
        ctx.distinct("uuids", hashStr(t));
        // what is none
        std::string bad = s;
        switch (r.below(6)) { case 0: bad += r.pick(std::vector<std::string>{ "0", "x", "}", "-", " " }); break; case 1: bad = bad.substr(0, r.below(bad.size())); break; case 2: bad[r.below(bad.size())] = 'g'; break; case 3: bad = " " + bad; break; case 4: bad = t; bad[8] = '0'; break; default: bad = t; std::swap(bad[13], bad[14]); if (bad == t) bad = ""; }
        bool threw = false;
        try { (void)dt::Uuid::FromString(std::string_view{ bad }); } catch (const std::exception&) { threw = true; }
        ctx.check(threw, "uuid-malformed", [&]{ return "'" + bad + "' is accepted"; });
        threw = false;
        size_t n = r.below(40);
        try { (void)dt::Uuid::FromData(std::string(n, 'x')); } catch (const std::exception&) { threw = true; }
        ctx.check(threw == (n != 16), "uuid-data-size", [&]{ return std::to_string(n); });
        ctx.check(g_random.insert(dt::Uuid::Random().toString()).second, "uuid-repeated", []{ return std::string{}; });
        ctx.count("uuids_malformed");
    }
}

int main(int argc, char** argv)
{
    return driverMain(argc, argv, { { "U01", [](Ctx& ctx, Rng& r)
    {
        UriCase c{ ctx, r, {}, {}, {} };
        c.run();
        c.lists();
        c.ofSocket();
        if (ctx.wantSample()) ctx.sample(c.log);
        for (int k = 0; k < 2; ++k) { networks(ctx, r); times(ctx, r); uuids(ctx, r); }
    } } });
}
