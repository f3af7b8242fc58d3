// A scripted end of a connection, over a socket in the formats of the wire or over the in-process transport.
#pragma once
#include "net/world.h"
#include <dots/io/channels/LocalListener.h>
#include <dots/io/channels/LocalChannel.h>

namespace vf
{
    struct Peer
    {
        Tr tr;
        std::vector<Frame> got;
        bool ended = false;                  // the other side closed
        std::string problem;
        explicit Peer(Tr t) : tr(t) {}
        virtual ~Peer() = default;
        virtual void send(const TypeDef& t, const Rec& header, const Rec& rec) = 0;
        virtual void bytes(const std::string&) {}
        virtual void tell(const std::vector<TypePtr>&) = 0;        // descriptions
        virtual bool step() = 0;
        virtual bool flushed() const { return true; }
        virtual void end(int mode) = 0;      // 2 end of stream, 3 reset, 4 close
        void system(const char* name, const Rec& rec);
        void object(const TypeDef& t, const Rec& rec, bool remove = false);
    };
    struct SockPeer : Peer
    {
        Rng& r;
        Sock sock;
        Wire wire;
        size_t maxChunk = 1 << 16;
        SockPeer(Tr t, Rng& rng) : Peer(t), r(rng) { wire.tr = t; }
        bool connect(const Address& a);
        std::string held;                    // until the websocket upgrade
        void send(const TypeDef& t, const Rec& header, const Rec& rec) override { bytes(wire.encode(t, header, rec, r)); }
        void bytes(const std::string& s) override { (tr == Tr::Ws && wire.isServer && !wire.upgraded ? held : sock.out) += s; }
        void tell(const std::vector<TypePtr>& types) override;
        bool step() override;
        bool flushed() const override { return (sock.pending() == 0 && held.empty()) || !sock.open(); }
        void end(int mode) override;
    };
    struct LocalPeer : Peer
    {
        dt::Registry registry;
        dots::io::channel_ptr_t channel;
        bool linked = false;
        std::vector<std::function<void()>> waiting;
        LocalPeer() : Peer(Tr::Local) {}
        void adopt(dots::io::channel_ptr_t c);
        void send(const TypeDef& t, const Rec& header, const Rec& rec) override;
        void tell(const std::vector<TypePtr>& types) override;
        bool step() override { return false; }
        void end(int mode) override;
    };
    // the listening end
    struct PeerServer
    {
        Rng& r;
        Tr tr;
        Address at;
        int fd = -1;
        std::unique_ptr<dots::io::LocalListener> local;
        std::vector<std::unique_ptr<Peer>> accepted;
        PeerServer(Rng& rng, Tr t) : r(rng), tr(t) {}
        ~PeerServer();
        bool open(dots::asio::io_context& io, const std::string& scratch);
        bool step();
    };
}
