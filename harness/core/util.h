// Shared driver skeleton: seeded randomness, violation reporting and measured coverage.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>
#include <memory>
#include <stdexcept>
#include <algorithm>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <sys/time.h>

namespace vf
{
    inline uint64_t mix(uint64_t z)
    {
        z += 0x9E3779B97F4A7C15ull;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }

    inline uint64_t hashBytes(const void* data, size_t size, uint64_t h = 0xcbf29ce484222325ull)
    {
        const auto* p = static_cast<const unsigned char*>(data);
        for (size_t i = 0; i < size; ++i)
        {
            h = (h ^ p[i]) * 0x100000001b3ull;
        }
        return h;
    }

    inline uint64_t hashStr(std::string_view s, uint64_t h = 0xcbf29ce484222325ull) { return hashBytes(s.data(), s.size(), h); }

    struct Rng
    {
        explicit Rng(uint64_t seed) : m_state(mix(seed)) {}
        uint64_t next() { m_state += 0x9E3779B97F4A7C15ull; return mix(m_state); }
        uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
        int64_t range(int64_t a, int64_t b) { return a + static_cast<int64_t>(below(static_cast<uint64_t>(b - a) + 1)); }
        bool chance(int percent) { return below(100) < static_cast<uint64_t>(percent); }
        bool coin() { return next() & 1; }
        template <typename C> auto& pick(C& c) { return c[below(c.size())]; }
        template <typename T> T pick(std::vector<T>&& c) { return std::move(c[below(c.size())]); }
        template <typename T> void shuffle(std::vector<T>& v)
        {
            for (size_t i = v.size(); i > 1; --i)
            {
                std::swap(v[i - 1], v[below(i)]);
            }
        }
    private:
        uint64_t m_state;
    };

    inline std::string hex(const uint8_t* data, size_t size, size_t limit = 400)
    {
        static const char* digits = "0123456789abcdef";
        std::string s;
        for (size_t i = 0; i < size && i < limit; ++i)
        {
            s += digits[data[i] >> 4];
            s += digits[data[i] & 15];
        }
        if (size > limit) s += "...(" + std::to_string(size) + " bytes)";
        return s;
    }
    inline std::string hex(const std::vector<uint8_t>& d, size_t limit = 400) { return hex(d.data(), d.size(), limit); }

    inline std::string jsonEscape(std::string_view s)
    {
        std::string r;
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
            else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            else r += static_cast<char>(c);
        }
        return r;
    }

    struct Ctx
    {
        std::string prop;
        uint64_t seed = 1;
        uint64_t caseId = 0;
        bool thorough = false;
        int statusFd = -1;

        // A violation. The key identifies the kind of failure (it is what known findings are matched against).
        void viol(std::string_view key, std::string detail)
        {
            ++m_violations;
            if (m_perKey[std::string{ key }]++ < 3)
            {
                std::printf("VIOL\t%s\t%llu\t%s\n", std::string{ key }.c_str(), static_cast<unsigned long long>(caseId), jsonEscape(detail).c_str());
                std::fflush(stdout);
            }
        }
        bool check(bool ok, std::string_view key, const std::function<std::string()>& detail)
        {
            ++m_counters["oracle_checks"];
            if (!ok) viol(key, detail());
            return ok;
        }
        void count(const std::string& name, uint64_t n = 1) { m_counters[name] += n; }
        void maxOf(const std::string& name, uint64_t n) { auto& c = m_max[name]; c = std::max(c, n); }
        void distinct(const std::string& name, uint64_t h)
        {
            auto& s = m_distinct[name];
            if (s.size() < 400000) s.insert(h);
        }
        void sample(const std::string& text)
        {
            if (m_samples.size() < 6) m_samples.push_back(text.substr(0, 600));
        }
        bool wantSample() const { return m_samples.size() < 6; }
        uint64_t violations() const { return m_violations; }

        // What is being done right now: recorded where a crash handler (the runner) can find it.
        void note(std::string_view text)
        {
            if (statusFd >= 0)
            {
                char buf[512];
                int n = std::snprintf(buf, sizeof buf, "%llu\t%.*s", static_cast<unsigned long long>(caseId), static_cast<int>(std::min<size_t>(text.size(), 470)), text.data());
                std::memset(buf + n, ' ', sizeof buf - static_cast<size_t>(n));
                buf[511] = '\n';
                (void)!::pwrite(statusFd, buf, sizeof buf, 0);
            }
        }

        void finish(uint64_t from, uint64_t to)
        {
            std::string s = "STATS\t{\"from\":" + std::to_string(from) + ",\"to\":" + std::to_string(to) + ",\"violations\":" + std::to_string(m_violations) + ",\"counters\":{";
            bool first = true;
            for (auto& [k, v] : m_counters) { s += (first ? "" : ",") + ("\"" + k + "\":") + std::to_string(v); first = false; }
            s += "},\"max\":{"; first = true;
            for (auto& [k, v] : m_max) { s += (first ? "" : ",") + ("\"" + k + "\":") + std::to_string(v); first = false; }
            s += "},\"distinct\":{"; first = true;
            for (auto& [k, v] : m_distinct)
            {
                s += (first ? "" : ",") + ("\"" + k + "\":[") + std::to_string(v.size());
                first = false;
                // the hashes themselves (bounded) let the runner merge the shards without double counting
                size_t n = 0;
                for (uint64_t h : v) { if (n++ >= 20000) break; s += "," + std::to_string(h >> 12); }
                s += "]";
            }
            s += "},\"samples\":["; first = true;
            for (auto& t : m_samples) { s += (first ? "" : ",") + ("\"" + jsonEscape(t) + "\""); first = false; }
            s += "]}";
            std::printf("%s\n", s.c_str());
            std::fflush(stdout);
        }

    private:
        uint64_t m_violations = 0;
        std::map<std::string, uint64_t> m_perKey, m_counters, m_max;
        std::map<std::string, std::unordered_set<uint64_t>> m_distinct;
        std::vector<std::string> m_samples;
    };

    using case_fn = std::function<void(Ctx&, Rng&)>;

    inline Ctx* g_ctx = nullptr;
    inline unsigned g_caseBudget = 60;

    inline void onAlarm(int)
    {
        char buf[96];
        int n = std::snprintf(buf, sizeof buf, "\nHANG\t%llu\n", g_ctx ? static_cast<unsigned long long>(g_ctx->caseId) : 0ull);
        (void)!::write(1, buf, static_cast<size_t>(n));
        _exit(77);
    }

    // --prop P --seed S --from A --to B --status FILE --tier T --budget SECONDS(cpu, per case)
    inline int driverMain(int argc, char** argv, const std::map<std::string, case_fn>& props, bool cpuBudget = true)
    {
        Ctx ctx;
        uint64_t from = 0, to = 1;
        for (int i = 1; i + 1 < argc; i += 2)
        {
            std::string a = argv[i], v = argv[i + 1];
            if (a == "--prop") ctx.prop = v;
            else if (a == "--seed") ctx.seed = std::strtoull(v.c_str(), nullptr, 10);
            else if (a == "--from") from = std::strtoull(v.c_str(), nullptr, 10);
            else if (a == "--to") to = std::strtoull(v.c_str(), nullptr, 10);
            else if (a == "--tier") ctx.thorough = v == "thorough";
            else if (a == "--budget") g_caseBudget = static_cast<unsigned>(std::strtoul(v.c_str(), nullptr, 10));
            else if (a == "--status") ctx.statusFd = ::open(v.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
        }
        auto it = props.find(ctx.prop);
        if (it == props.end())
        {
            std::fprintf(stderr, "unknown property %s\n", ctx.prop.c_str());
            return 2;
        }
        g_ctx = &ctx;
        std::signal(cpuBudget ? SIGPROF : SIGALRM, onAlarm);
        for (uint64_t c = from; c < to; ++c)
        {
            ctx.caseId = c;
            ctx.note("start");
            itimerval tv{};
            tv.it_value.tv_sec = g_caseBudget;
            setitimer(cpuBudget ? ITIMER_PROF : ITIMER_REAL, &tv, nullptr);
            Rng rng(mix(ctx.seed) ^ mix(hashStr(ctx.prop)) ^ mix(c * 2654435761ull + 17));
            ctx.count("cases");
            try
            {
                it->second(ctx, rng);
            }
            catch (const std::exception& e)
            {
                ctx.viol("uncaught-exception", std::string{ "an exception escaped the case: " } + e.what());
            }
        }
        itimerval off{};
        setitimer(cpuBudget ? ITIMER_PROF : ITIMER_REAL, &off, nullptr);
        ctx.note("finished");
        ctx.finish(from, to);
        return 0;
    }
}
