// U02: timers and descriptor observers against real clocks and descriptors.
#include "core/util.h"
#include <dots/asio.h>
#include <dots/Timer.h>
#include <dots/io/FdObserver.h>
#include <chrono>
#include <limits>
#include <optional>
#include <thread>
#include <poll.h>
#include <signal.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/eventfd.h>
#include <sys/socket.h>

using namespace vf;
using Observer = dots::io::posix::FdObserver;

namespace
{
    using Clock = std::chrono::steady_clock;
    double now() { return std::chrono::duration<double>(Clock::now().time_since_epoch()).count(); }
    size_t openDescriptors()
    {
        size_t n = 0;
        for (int fd = 0; fd < 256; ++fd) if (::fcntl(fd, F_GETFD) != -1) ++n;
        return n;
    }

    struct TimerCase
    {
        Ctx& ctx;
        Rng& r;
        std::string log;
        bool bad = false;
        dots::asio::io_context* io = nullptr;
        size_t depth = 0;
        bool quiet = false;

        struct T
        {
            size_t id = 0;
            double interval = 0, before = 0, after = 0, armed = 0;    // the bounds of its construction; since when the present period is armed
            bool periodic = false, ended = false, detached = false, forever = false;
            size_t fired = 0;
            double late = 0;                                           // time spent in its handler
            std::optional<dots::Timer> timer;
            double dueLow() const { return before + interval * static_cast<double>(fired + 1); }
            double dueHigh() const { return after + interval * static_cast<double>(fired + 1); }
            bool pending() const { return !ended && !forever && (periodic || fired == 0); }
        };
        struct O
        {
            size_t id = 0;
            int fd = -1, peer = -1;
            Observer::Condition condition = Observer::Condition::ReadyForRead;
            bool ended = false, detached = false, failed = false;
            size_t fired = 0, unfounded = 0;
            std::optional<Observer> observer;
        };
        std::vector<std::unique_ptr<T>> timers;
        std::vector<std::unique_ptr<O>> observers;
        std::shared_ptr<int> token = std::make_shared<int>(0);        // captured by all handlers
        size_t replaced = 0;

        bool check(bool ok, const char* key, const std::function<std::string()>& f)
        {
            if (!ok) bad = true;
            return ctx.check(ok, key, [&]{ return f() + log.substr(log.size() > 700 ? log.size() - 700 : 0); });
        }
        void say(const std::string& s) { log += " | " + s; }
        std::string show(const T& t) { return "timer " + std::to_string(t.id) + " " + std::to_string(t.interval * 1e3) + " ms" + (t.periodic ? " periodic" : "") + " fired " + std::to_string(t.fired); }

        void addTimer()
        {
            auto p = std::make_unique<T>();
            T& t = *p;
            t.id = timers.size();
            t.interval = r.chance(15) ? 0 : r.chance(10) ? -0.001 * static_cast<double>(r.below(5)) : 1e-4 * static_cast<double>(r.below(r.coin() ? 50 : 250));
            t.periodic = r.chance(45);
            if (t.periodic) t.interval = 1e-3 * static_cast<double>(1 + r.below(8)) + 1e-4 * static_cast<double>(r.below(10));
            if (r.chance(4)) { t.forever = true; t.interval = r.pick(std::vector<double>{ 1e6, 1e10, 1e20, 1e300, std::numeric_limits<double>::max(), std::numeric_limits<double>::infinity() }); }
            timers.push_back(std::move(p));
            t.before = t.armed = now();
            t.timer.emplace(*io, dots::type::Duration{ t.interval }, [this, id = t.id, token = token]{ timerFired(id); }, t.periodic);
            t.after = now();
            say("new " + show(t));
            ctx.count(t.periodic ? "periodic_timers" : "one_shot_timers");
        }
        void timerFired(size_t id)
        {
            T& t = *timers[id];
            double at = now();
            ctx.count(t.periodic ? "periodic_firings" : "one_shot_firings");
            check(!t.ended, "fired-after-end", [&]{ return show(t); });
            check(!t.forever, "fired-early", [&]{ return show(t); });
            check(t.periodic || t.fired == 0, "fired-twice", [&]{ return show(t); });
            check(at >= t.dueLow() - 1e-6, "fired-early", [&]{ return show(t) + " " + std::to_string((t.dueLow() - at) * 1e3) + " ms early"; });
            if (bad) return;
            // those that are certainly due before, and were armed before this one was due, have fired
            for (auto& o : timers)
            {
                if (o.get() == &t || !o->pending()) continue;
                if (o->armed < t.dueLow() && t.armed < t.dueLow() && o->dueHigh() < t.dueLow() - 2e-5) check(false, "order", [&]{ return show(t) + " before " + show(*o); });
                else ctx.count("orders_judged");
            }
            ++t.fired;
            t.armed = std::numeric_limits<double>::infinity();        // until the handler is over
            act();
            t.armed = now();
        }
        void addObserver()
        {
            auto p = std::make_unique<O>();
            O& o = *p;
            o.id = observers.size();
            int fds[2];
            if (r.coin() ? ::socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, fds) : ::pipe2(fds, O_CLOEXEC)) return;
            bool write = r.chance(30);
            o.fd = fds[write ? 1 : 0];
            o.peer = fds[write ? 0 : 1];
            ::fcntl(o.fd, F_SETFL, ::fcntl(o.fd, F_GETFL) | O_NONBLOCK);
            ::fcntl(o.peer, F_SETFL, ::fcntl(o.peer, F_GETFL) | O_NONBLOCK);
            o.condition = write ? Observer::Condition::ReadyForWrite : Observer::Condition::ReadyForRead;
            if (write && r.coin()) fill(o.fd);
            observers.push_back(std::move(p));
            o.observer.emplace(*io, o.fd, Observer::handler_t{ [this, id = o.id, token = token](std::exception_ptr e){ observerFired(id, e); } }, o.condition);
            say("observer " + std::to_string(o.id) + (write ? " for writing" : " for reading"));
            ctx.count("observers");
        }
        static void fill(int fd) { char b[4096] = {}; while (::write(fd, b, sizeof b) > 0) {} while (::write(fd, b, 1) > 0) {} }
        static bool ready(const O& o)
        {
            pollfd p{ o.fd, static_cast<short>(o.condition == Observer::Condition::ReadyForRead ? POLLIN : POLLOUT), 0 };
            return ::poll(&p, 1, 0) == 1 && p.revents != 0;
        }
        void observerFired(size_t id, std::exception_ptr e)
        {
            O& o = *observers[id];
            ctx.count("observer_firings");
            check(!o.ended, "observed-after-end", [&]{ return "observer " + std::to_string(id); });
            if (bad) return;
            check(e == nullptr, "observer-error", [&]{ return "observer " + std::to_string(id); });
            // (the reactor may report once what was pending for an earlier descriptor with the same number)
            if (!ready(o)) { ++o.unfounded; ctx.count("unfounded_reports"); }
            check(o.unfounded <= 1, "observed-without-reason", [&]{ return "observer " + std::to_string(id); });
            ++o.fired;
            char b[64];
            if (o.condition == Observer::Condition::ReadyForRead) { if (r.chance(60)) (void)!::read(o.fd, b, 1 + r.below(sizeof b)); }
            else if (r.chance(60)) fill(o.fd);
            act();
        }
        bool alive(const T& t) const { return t.timer.has_value() && !t.ended && !t.detached; }
        void endTimer(T& t, const char* how)
        {
            say(std::string{ how } + " timer " + std::to_string(t.id));
            t.ended = true;
            t.timer.reset();
            ctx.count("timers_ended");
        }
        void endObserver(O& o)
        {
            say("end observer " + std::to_string(o.id));
            o.ended = true;
            o.observer.reset();
            ctx.count("observers_ended");
        }
        void act()
        {
            if (quiet || (depth > 0 && r.chance(55))) return;
            ++depth;
            struct Out { size_t& d; ~Out() { --d; } } out{ depth };
            switch (r.below(14))
            {
                case 0: case 1: if (timers.size() < 60) addTimer(); break;
                case 2: if (observers.size() < 10) addObserver(); break;
                case 3: if (!timers.empty()) { T& t = *r.pick(timers); if (alive(t)) endTimer(t, "end"); } break;
                case 4: if (!observers.empty()) { O& o = *r.pick(observers); if (!o.ended && !o.detached && o.observer) endObserver(o); } break;
                case 5:
                    if (!timers.empty() && r.chance(30))
                    {
                        T& t = *r.pick(timers);
                        if (alive(t) && !t.forever) { say("detach timer " + std::to_string(t.id)); t.timer->discard(); t.detached = true; if (r.coin()) t.timer.reset(); ctx.count("timers_detached"); }
                    }
                    break;
                case 6:
                    if (!observers.empty() && r.chance(30))
                    {
                        O& o = *r.pick(observers);
                        if (!o.ended && o.observer && !o.detached) { say("detach observer " + std::to_string(o.id)); o.observer->discard(); o.detached = true; if (r.coin()) o.observer.reset(); ctx.count("observers_detached"); }
                    }
                    break;
                case 7: case 8:
                    // something takes its time
                    std::this_thread::sleep_for(std::chrono::microseconds(r.below(4000)));
                    ctx.count("delays");
                    break;
                case 9:
                    if (!timers.empty())
                    {
                        // moved out and in again
                        T& t = *r.pick(timers);
                        if (!alive(t)) break;
                        dots::Timer m{ std::move(*t.timer) };
                        if (r.coin()) { t.timer.reset(); t.timer.emplace(std::move(m)); } else *t.timer = std::move(m);
                        ctx.count("timers_moved");
                    }
                    break;
                case 10:
                    if (timers.size() > 1)
                    {
                        // one takes the place of another
                        T& a = *r.pick(timers);
                        T& b = *r.pick(timers);
                        if (&a == &b || !alive(a) || !alive(b)) break;
                        say("timer " + std::to_string(a.id) + " is replaced by " + std::to_string(b.id));
                        *a.timer = std::move(*b.timer);
                        a.ended = true;
                        std::swap(a.timer, b.timer);
                        a.timer.reset();
                        ctx.count("timers_replaced");
                    }
                    break;
                case 11:
                    if (observers.size() > 1)
                    {
                        O& a = *r.pick(observers);
                        O& b = *r.pick(observers);
                        if (&a == &b || a.ended || b.ended || a.detached || b.detached || !a.observer || !b.observer) break;
                        say("observer " + std::to_string(a.id) + " is replaced by " + std::to_string(b.id));
                        *a.observer = std::move(*b.observer);
                        a.ended = true;
                        std::swap(a.observer, b.observer);
                        a.observer.reset();
                        ctx.count("observers_replaced");
                    }
                    break;
                default:
                    if (!observers.empty()) feed(*r.pick(observers));
            }
        }
        void feed(O& o)
        {
            if (o.peer < 0) return;
            if (o.condition == Observer::Condition::ReadyForRead)
            {
                if (r.chance(10)) { ::close(o.peer); o.peer = -1; say("end of data for observer " + std::to_string(o.id)); return; }
                std::string d(1 + r.below(100), 'x');
                (void)!::write(o.peer, d.data(), d.size());
            }
            else { char b[65536]; while (::read(o.peer, b, sizeof b) > 0) {} }
            ctx.count("fed");
        }
        // everything that is due has fired, everything that is ready is reported
        bool settled(std::string& why)
        {
            double t0 = now();
            for (auto& t : timers)
            {
                if (!t->pending()) continue;
                if (t->dueHigh() < t0 - 0.01) { why = show(*t) + " " + std::to_string((t0 - t->dueHigh()) * 1e3) + " ms late"; return false; }
            }
            return true;
        }
        void poll(size_t n)
        {
            std::map<size_t, size_t> before;
            for (auto& o : observers) if (!o->ended && !o->failed && ready(*o)) before[o->id] = o->fired;
            while (n-- > 0 && !bad) if (io->poll_one() == 0) break;
        }
        void run()
        {
            size_t descriptors = openDescriptors();
            {
                dots::asio::io_context context;
                io = &context;
                auto guard = dots::asio::make_work_guard(context);
                double end = now() + 0.02 + 0.001 * static_cast<double>(r.below(40));
                while (now() < end && !bad)
                {
                    act();
                    size_t k = r.below(4);
                    if (k == 0) poll(1 + r.below(5));
                    else if (k == 1) poll(100);
                    else if (k == 2) context.run_for(std::chrono::microseconds(r.below(3000)));
                    else std::this_thread::sleep_for(std::chrono::microseconds(r.below(2500)));
                }
                // nobody interferes any more: all that is due fires, all that is ready is reported
                quiet = true;
                std::string why;
                double limit = now() + 5;
                do context.run_for(std::chrono::milliseconds(3)); while (!bad && !settled(why) && now() < limit);
                check(settled(why), "not-fired", [&]{ return why; });
                for (auto& o : observers)
                {
                    if (o->ended || bad) continue;
                    if (!ready(*o)) { feed(*o); if (!ready(*o)) continue; }
                    size_t n = o->fired;
                    while (o->fired == n && now() < limit && !bad) { context.run_for(std::chrono::milliseconds(1)); if (!ready(*o)) break; }
                    check(o->fired > n, "not-observed", [&]{ return "observer " + std::to_string(o->id); });
                    ctx.count("readiness_checked");
                }
                // quiet when there is no reason
                for (auto& o : observers) if (!o->ended && o->peer >= 0 && o->condition == Observer::Condition::ReadyForRead) { char b[4096]; while (::read(o->fd, b, sizeof b) > 0) {} }
                settle();
                uint64_t h = 7;
                for (auto& t : timers) h = mix(h ^ t->fired ^ (t->ended ? 1024u : 0u) ^ hashStr(std::to_string(t->interval)));
                for (auto& o : observers) h = mix(h + o->fired);
                ctx.distinct("histories", h);
                size_t fired = 0;
                for (auto& t : timers) if (t->ended) { fired += t->fired; }
                // descriptors of observers that ended are closed at once, or when the loop has run
                poll(200);
                for (auto& o : observers) if (o->ended && !o->detached) check(::fcntl(o->fd, F_GETFD) == -1 || reused(*o), "descriptor-left", [&]{ return "observer " + std::to_string(o->id); });
                if (r.chance(40))
                {
                    // without anything left, the loop has nothing to do
                    bool detached = false;
                    for (auto& t : timers) { if (t->detached && t->pending()) detached = true; if (alive(*t)) endTimer(*t, "end"); }
                    for (auto& o : observers) { if (o->detached) detached = true; if (!o->ended && !o->detached) endObserver(*o); }
                    guard.reset();
                    if (!detached)
                    {
                        double t0 = now();
                        context.run_for(std::chrono::seconds(5));
                        check(context.stopped() && now() - t0 < 4, "work-left", [&]{ return std::string{ "the loop does not end" }; });
                        check(token.use_count() == 1, "handlers-left", [&]{ return std::to_string(token.use_count() - 1) + " handlers"; });
                        ctx.count("loops_ended");
                    }
                }
                // also the objects may go first or last
                if (r.coin()) { for (auto& t : timers) t->timer.reset(); for (auto& o : observers) o->observer.reset(); }
                timers.swap(keepTimers);
                observers.swap(keepObservers);
                for (auto& t : keepTimers) t->timer.reset();
                for (auto& o : keepObservers) { o->observer.reset(); if (o->peer >= 0) ::close(o->peer); }
            }
            check(token.use_count() == 1, "handlers-left", [&]{ return std::to_string(token.use_count() - 1) + " handlers after the loop is gone"; });
            check(openDescriptors() == descriptors, "descriptors-left", [&]{ return std::to_string(openDescriptors()) + " instead of " + std::to_string(descriptors); });
        }
        std::vector<std::unique_ptr<T>> keepTimers;
        std::vector<std::unique_ptr<O>> keepObservers;
        void settle() { for (int k = 0; k < 3 && !bad; ++k) io->run_for(std::chrono::microseconds(300)); }
        // its number may have been given to something else since
        bool reused(const O& o)
        {
            for (auto& x : observers) { if (x.get() != &o && !x->ended && x->fd == o.fd) return true; if (x->peer == o.fd) return true; if (x.get() != &o && x->detached && x->fd == o.fd) return true; }
            return false;
        }
    };
}

int main(int argc, char** argv)
{
    ::signal(SIGPIPE, SIG_IGN);
    return driverMain(argc, argv, { { "U02", [](Ctx& ctx, Rng& r)
    {
        TimerCase c{ ctx, r, {}, false };
        c.run();
        if (ctx.wantSample()) ctx.sample(c.log);
    } } }, false);
}
