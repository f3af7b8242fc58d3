// What the drivers of single connections share: a log of what was done, checks, a scratch directory and a loop over the nodes.
#pragma once
#include "net/peer.h"
#include <unistd.h>

namespace vf
{
    struct Case
    {
        Ctx& ctx;
        Rng& r;
        std::vector<std::string> log;
        bool bad = false;
        std::string scratch;
        Case(Ctx& c, Rng& rng) : ctx(c), r(rng) { dots::tools::g_loggingBackend = g_log; scratch = makeScratch(); }
        virtual ~Case() { ::rmdir(scratch.c_str()); }
        std::string tail() const { std::string h; for (size_t k = log.size() > 30 ? log.size() - 30 : 0; k < log.size(); ++k) h += " | " + log[k]; return h; }
        void say(std::string s) { log.push_back(std::move(s)); }
        bool check(bool ok, const char* key, const std::function<std::string()>& f) { if (!ctx.check(ok, key, [&]{ return f() + tail(); })) bad = true; return ok; }
        bool poll(dots::asio::io_context& io)
        {
            size_t n = 0;
            try { n = io.poll_one(); }
            catch (const std::exception& e) { check(false, "exception-escapes", [&]{ return std::string{ e.what() }; }); }
            if (io.stopped()) io.restart();
            return n > 0;
        }
        template <typename Step> bool pump(const std::function<bool()>& done, Step&& step, int ms = 6000)
        {
            int64_t end = tick() + ms;
            size_t idle = 0;
            while (!bad)
            {
                if (done()) return true;
                if (step()) { idle = 0; if (tick() > end + 10000) return done(); continue; }
                if (++idle > 10) { if (tick() > end) return done(); ::usleep(idle > 200 ? 1000 : 50); }
            }
            return false;
        }
    };
}
