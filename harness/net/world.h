// A host with clients over every transport, in one thread, under a seeded scheduler, and the monitors that judge what they observe.
#pragma once
#include "core/cachemodel.h"
#include "net/rawpeer.h"
#include <dots/asio.h>
#include <dots/HostTransceiver.h>
#include <dots/GuestTransceiver.h>
#include <dots/Subscription.h>
#include <dots/tools/logging.h>
#include <DotsMember.dots.h>
#include <DotsCacheInfo.dots.h>
#include <DotsEcho.dots.h>
#include <list>

namespace vf
{
    struct SilentLog : dots::tools::LogBackend
    {
        size_t errors = 0;
        std::string last;
        void log_p(dots::tools::Level l, const dots::tools::Flf&, const char* m) override { if (l >= dots::tools::Level::error) { ++errors; last = m; } }
        void log(dots::tools::Level l, const dots::tools::Flf&, const std::string& m) override { if (l >= dots::tools::Level::error) { ++errors; last = m; } }
    };
    extern std::shared_ptr<SilentLog> g_log;

    // ---- what was published, accepted and delivered ---------------------------------------------------------------------
    struct SentPub
    {
        size_t type = 0;
        Rec rec;                         // as it is on the wire: included and valid
        Rec full;                        // as it is given to publish(): may contain more
        uint32_t included = 0;
        bool remove = false;
        std::optional<double> sentTime;
    };
    struct Accepted
    {
        SentPub pub;
        uint32_t sender = 0;
        double sentTime = 0;
        size_t global = 0;
        bool byHost = false;
    };
    struct Delivered
    {
        Rec rec;
        uint32_t included = 0;
        bool remove = false;
        uint32_t sender = 0;
        double sentTime = 0;
        std::optional<bool> own;
        std::optional<uint32_t> fromCache;
        double serverSent = 0;
        size_t order = 0;                // receive order of the client
    };
    struct Snapshot
    {
        std::vector<Delivered> objects;
        size_t liveBefore = 0;
        bool begun = false, ended = false;
    };
    struct Membership
    {
        size_t type = 0;
        std::deque<Snapshot> snapshots;
        std::vector<Delivered> live;
        size_t hJoin = 0;
        size_t joinStamp = 0;
        std::optional<size_t> hJoinMax;                // accepted when the join was surely processed
        std::optional<size_t> hLeaveSent, hLeft;       // accepted when the leave was sent, when it was surely processed
        bool over = false, aborted = false;            // aborted: the connection ended, the tail may be missing
        std::optional<size_t> hClosed;
        std::vector<std::pair<size_t, size_t>> checkpoints;   // (live deliveries, accepted) at quiescence
        std::unique_ptr<Model> replica;                // fold of what was delivered
    };

    struct NetType
    {
        std::shared_ptr<TypeDef> def;
        std::vector<TypePtr> all;        // with everything it needs, dependencies first
        const dt::StructDescriptor* compiled = nullptr;
        GenOpts go;
        std::vector<Accepted> h;
        std::unique_ptr<Model> model;    // fold of h
        bool witnessed = false;          // the host has a subscription
        std::optional<dots::Subscription> sub;
    };

    struct World;
    struct ServiceReply { int kind = 0; uint32_t id = 0; std::string data; size_t type = 0; std::vector<std::string> must; bool optional = false; Snapshot* snapshot = nullptr; size_t stamp = 0; };   // 0 echo, 1 end of cache, 2 end of descriptors

    struct Client
    {
        World& w;
        std::string name;
        Tr tr;
        uint32_t id = 0;                 // as the host knows it
        bool closing = false;            // an end of the connection was initiated or observed
        bool closedAtHost = false;
        bool expectRefusal = false;      // it sent something the host has to refuse
        bool expectError = false;        // and nothing after it: the host says why
        size_t accepted = 0;             // of "sent"
        std::vector<SentPub> sent;
        std::list<Membership> memberships;
        std::map<size_t, Membership*> current;         // by type: the one that is not known to have ended
        std::deque<ServiceReply> replies;              // owed by the host, in order
        Membership* inSnapshot = nullptr;
        size_t received = 0, stamp = 0;
        uint32_t echoCounter = 0;
        size_t echoesAnswered = 0, echoesSent = 0;

        Client(World& w, std::string n, Tr t) : w(w), name(std::move(n)), tr(t) {}
        virtual ~Client() = default;
        virtual bool ready() const = 0;                // connected and usable
        virtual bool step() = 0;                       // progress made
        virtual bool canPublish(size_t type) const = 0;
        virtual bool canJoin(size_t type) const = 0;
        virtual void publish(size_t type, const SentPub& p, Rng& r) = 0;
        virtual void join(size_t type) = 0;
        virtual void echo(const std::string& data) = 0;
        virtual void end(int mode) = 0;                // 0 graceful, 1 error, 2 end of stream, 3 reset
        virtual bool isRaw() const = 0;
        virtual std::string describe() const;

        bool approx() const { return tr == Tr::Ws; }
        Membership& openMembership(size_t type);
        void onObject(size_t type, Delivered d);
        void onCacheEnd(const std::string& typeName);
        void onEcho(const Rec& echo);
        ServiceReply* nextReply(int kind, const std::string& what);
        void over(bool aborted);
    };

    struct RawClient : Client
    {
        Sock sock;
        Wire wire;
        int state = 0;                   // 0 nothing, 1 greeted, 2 answered, 3 preloading, 4 connected, 5 closed
        bool preload = true;
        std::vector<size_t> preloadJoins;
        size_t maxWrite = 1 << 20, maxRead = 1 << 20;
        bool stalled = false;
        bool forge = false;
        std::optional<std::pair<uint64_t, std::string>> error;       // DotsMsgError received
        std::vector<std::pair<size_t, std::string>> told;

        RawClient(World& w, std::string n, Tr t) : Client(w, std::move(n), t) { wire.tr = t; }
        bool connect();
        bool ready() const override { return state == 4 && !closing; }
        bool step() override;
        bool canPublish(size_t) const override { return true; }
        bool canJoin(size_t) const override { return true; }
        void publish(size_t type, const SentPub& p, Rng& r) override;
        void join(size_t type) override;
        void leave(size_t type);
        void echo(const std::string& data) override;
        void requestDescriptors(const std::vector<std::string>& white, const std::vector<std::string>& black);
        void clearCache(const std::vector<std::string>& names);
        void tell(size_t type);          // descriptions
        void send(const char* internal, Rec rec);
        void sendRaw(const TypeDef& t, const Rec& header, const Rec& rec);
        void end(int mode) override;
        bool isRaw() const override { return true; }
        void onFrame(Frame& f);
        void dead();
    };

    struct Relay                          // cuts the byte stream of a client into arbitrary pieces
    {
        int listenFd = -1;
        Tr tr;
        Address at, to;
        Sock a, b;
        size_t maxChunk = 7;
        bool accepted = false;
        size_t pieces = 0;
        ~Relay();
        bool step(Rng& r);
    };

    struct GuestClient : Client
    {
        std::unique_ptr<dots::asio::io_context> io;
        std::unique_ptr<dots::asio::executor_work_guard<dots::asio::io_context::executor_type>> work;
        std::unique_ptr<dots::GuestTransceiver> guest;
        std::unique_ptr<Relay> relay;
        std::vector<dots::Subscription> subs;
        bool connectedSeen = false, closedSeen = false;
        std::vector<int> transitions;
        dt::Registry::StaticTypePolicy policy = dt::Registry::StaticTypePolicy::All;
        std::set<size_t> eventSubs;

        GuestClient(World& w, std::string n, Tr t) : Client(w, std::move(n), t) {}
        ~GuestClient() override;
        bool connect();
        const dt::StructDescriptor* descriptor(size_t type) const;
        bool ready() const override { return guest && guest->connected() && !closing; }
        bool step() override;
        bool canPublish(size_t type) const override;
        bool canJoin(size_t type) const override;
        void publish(size_t type, const SentPub& p, Rng& r) override;
        void join(size_t type) override;
        void define(size_t type);
        void echo(const std::string& data) override;
        void end(int mode) override;
        bool isRaw() const override { return false; }
        void observe(size_t type, const dots::io::Transmission& t);
    };

    struct WorldOpts
    {
        std::vector<Tr> transports{ Tr::Tcp2, Tr::Tcp1, Tr::Uds2, Tr::Uds1, Tr::Ws, Tr::Local };
        int maxTypes = 4;
        int dynamicPercent = 25;
        int relayPercent = 30;
        bool cleanupFocus = false;
        bool bigValues = false;
    };

    struct World
    {
        Ctx& ctx;
        Rng& r;
        WorldOpts o;
        dots::asio::io_context io;
        dots::asio::executor_work_guard<dots::asio::io_context::executor_type> work;
        std::unique_ptr<dots::HostTransceiver> host;
        dots::io::Listener* local = nullptr;
        std::vector<NetType> types;
        std::vector<std::unique_ptr<Client>> clients;
        std::map<uint32_t, Client*> byId;
        std::set<uint32_t> ids;          // all identifiers ever assigned
        std::map<Tr, Address> at;
        size_t accepted = 0;             // all publications, in order
        std::deque<SentPub> hostPending; // the host's own
        std::set<uint32_t> closedIds;
        std::set<std::string> clearing;
        std::map<uint32_t, int> states;  // of every connection the host had
        dt::Registry::StaticTypePolicy policy = dt::Registry::StaticTypePolicy::All;
        std::map<std::string, TypePtr> defs;
        double started = 0;
        std::vector<std::string> log;
        std::string scratch;
        double clock = 1.6e9;
        bool bad = false, tame = false, ending = false;
        size_t nextName = 0;
        std::optional<dots::Subscription> newTypes;
        bool any = false;                // every failure is one of the property
        bool adopt = false;              // objects of peers that are not clients are accepted as they are; every failure is one of the property
        bool lenient = false;            // an accepted object cannot be represented on every transport: contents are no longer compared
        size_t adopted = 0;
        bool frozen = false;             // the extra nodes pause
        std::vector<std::function<bool()>> extra;      // more nodes to step

        World(Ctx& c, Rng& rng, WorldOpts opts);
        ~World();
        // reports under the property that a key belongs to: "B01:lost"
        bool check(bool ok, const char* key, const std::function<std::string()>& f);
        std::string tail() const;
        void say(std::string s) { log.push_back(std::move(s)); }

        void addTypes();
        bool startHost();
        Client* addClient(bool raw, Tr t);
        SentPub generate(size_t type, bool viaRaw, int removePercent = 25);
        void witness(size_t type, const dots::io::Transmission& t);
        void watchType(const dt::StructDescriptor& d);
        void onHostTransition(const dots::Connection& c, std::exception_ptr e);
        const dt::StructDescriptor* hostType(size_t type) const;
        std::vector<std::string> hostTypesNow() const;
        bool listen(Tr t);
        void hostPublish(size_t type);

        void invariants();
        bool stepHost();
        bool step();                                   // one random node
        void steps(size_t n) { while (n-- > 0 && !bad) step(); }
        bool pumpUntil(const std::function<bool()>& done, int ms = 8000);
        void drain();                                  // everything published is accepted and delivered
        void checkpoint();                             // judged at quiescence
        void judge(Client& c, Membership& m);
        void judgeAll();
        void finish();
        bool sameRec(const Client* c, const TypeDef& t, const Rec& a, const Rec& b) const;
        bool sameTime(const Client* c, double a, double b) const;
        std::vector<Client*> readyClients();
        size_t typeIndex(const std::string& name) const;    // or types.size()
        Model modelAt(size_t type, size_t n) const;
    };

    void openListener(dots::HostTransceiver& host, Tr t, const Address& a, dots::io::Listener*& local);
    dots::io::channel_ptr_t openChannel(dots::asio::io_context& io, Tr t, const Address& to, dots::io::Listener* local);
    double nowSeconds();
    int64_t tick();
    std::string showSent(const SentPub& p);
    std::string showDelivered(const Delivered& d);
    std::string makeScratch();
}
