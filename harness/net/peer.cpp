#include "net/peer.h"

namespace vf
{
    void Peer::system(const char* name, const Rec& rec)
    {
        const TypeDef& t = *internalTypes().at(name);
        send(t, Rec{ { hdr::typeName, Val::ofStr(t.name) }, { hdr::attributes, psVal(maskOf(rec)) } }, rec);
    }
    void Peer::object(const TypeDef& t, const Rec& rec, bool remove)
    {
        Rec h{ { hdr::typeName, Val::ofStr(t.name) }, { hdr::attributes, psVal(maskOf(rec)) } };
        if (remove) h[hdr::removeObj] = boolVal(true);
        send(t, h, rec);
    }
    // ---- sockets --------------------------------------------------------------------------------------------------------
    bool SockPeer::connect(const Address& a)
    {
        if (!sock.connectTo(tr, a)) return false;
        if (tr == Tr::Ws) sock.out += Wire::wsUpgrade("localhost");
        return true;
    }
    void SockPeer::tell(const std::vector<TypePtr>& types)
    {
        std::vector<TypePtr> missing;
        for (auto& t : types) if (!t->internal && !wire.known.count(t->name)) { missing.push_back(t); wire.known[t->name] = t; }
        ::vf::describe(missing, [&](const TypeDef& t, Rec rec) { system(t.name.c_str(), rec); });
    }
    bool SockPeer::step()
    {
        if (!sock.open()) return false;
        size_t moved = sock.step(r.chance(50) ? maxChunk : 1 + r.below(maxChunk), r.chance(50) ? maxChunk : 1 + r.below(maxChunk));
        if (!sock.in.empty()) { wire.feed(sock.in.data(), sock.in.size()); sock.in.clear(); }
        Frame f;
        while (wire.next(f, &sock.out)) got.push_back(f);
        if (wire.upgraded && !held.empty()) { sock.out += held; held.clear(); }
        if (problem.empty()) problem = wire.problem.empty() ? wire.typeProblem : wire.problem;
        if (sock.eof || sock.failed || wire.closedFrame) { ended = true; sock.close(); ++moved; }
        return moved > 0;
    }
    void SockPeer::end(int mode)
    {
        if (mode == 2) sock.shutdownWrite();
        else if (mode == 3) sock.reset();
        else sock.close();
    }
    // ---- in-process -----------------------------------------------------------------------------------------------------
    void LocalPeer::adopt(dots::io::channel_ptr_t c)
    {
        channel = std::move(c);
        channel->init(registry);
        channel->asyncReceive(dots::io::Channel::receive_handler_t{ [this](dots::io::Transmission t)
        {
            Frame f;
            f.header = readRec(t.header());
            f.name = t.header().typeName.isValid() ? *t.header().typeName : "";
            f.type = defOf(t.instance()->_descriptor());
            f.rec = readRec(*t.instance());
            got.push_back(std::move(f));
            linked = true;
            auto now = std::move(waiting);
            waiting.clear();
            for (auto& w : now) w();
            return true;
        } }, dots::io::Channel::error_handler_t{ [this](std::exception_ptr e) { try { std::rethrow_exception(e); } catch (const std::exception& x) { problem = x.what(); } ended = true; } });
    }
    void LocalPeer::send(const TypeDef& t, const Rec& header, const Rec& rec)
    {
        if (!linked) { waiting.push_back([this, t, header, rec] { send(t, header, rec); }); return; }
        if (!channel) return;
        if (!registry.findStructType(t.name)) { std::vector<TypePtr> all; collectTypes(std::make_shared<TypeDef>(t), all); buildTypes(registry, all); }
        dots::types::DotsHeader h;
        writeRec(h, header);
        auto any = makeAny(*registry.findStructType(t.name), rec);
        try { channel->transmit(h, any); }
        catch (const std::exception&) { ended = true; }           // the other end is gone
    }
    void LocalPeer::tell(const std::vector<TypePtr>& types) { for (auto& t : types) if (!registry.findType(t->name)) buildTypes(registry, { t }); }
    void LocalPeer::end(int) { channel.reset(); waiting.clear(); }

    // ---- the listening end ------------------------------------------------------------------------------------------------
    PeerServer::~PeerServer()
    {
        if (fd >= 0) ::close(fd);
        if (!at.path.empty()) ::unlink(at.path.c_str());
    }
    bool PeerServer::open(dots::asio::io_context& io, const std::string& scratch)
    {
        if (tr == Tr::Local)
        {
            local = std::make_unique<dots::io::LocalListener>(io);
            local->asyncAccept(dots::io::Listener::accept_handler_t{ [this](dots::io::Listener&, dots::io::channel_ptr_t c)
            {
                auto p = std::make_unique<LocalPeer>();
                p->linked = true;
                p->adopt(std::move(c));
                accepted.push_back(std::move(p));
                return true;
            } }, dots::io::Listener::error_handler_t{ [](dots::io::Listener&, std::exception_ptr){} });
            return true;
        }
        for (int i = 0; i < 30 && fd < 0; ++i)
        {
            at.host = "127." + std::to_string(r.below(256)) + "." + std::to_string(r.below(256)) + "." + std::to_string(1 + r.below(250));
            at.port = static_cast<int>(r.range(10000, 32000));
            if (tr == Tr::Uds1 || tr == Tr::Uds2) at.path = scratch + "/p" + std::to_string(r.below(1000000));
            fd = listenOn(tr, at);
        }
        return fd >= 0;
    }
    bool PeerServer::step()
    {
        if (fd < 0) return false;
        int f = acceptFrom(fd);
        if (f < 0) return false;
        auto p = std::make_unique<SockPeer>(tr, r);
        p->wire.isServer = true;
        p->sock.adopt(f);
        accepted.push_back(std::move(p));
        return true;
    }
}
