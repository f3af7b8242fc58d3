#include "net/rawpeer.h"
#include "core/bridge.h"
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <cerrno>
#include <DotsHeader.dots.h>
#include <DotsTransportHeader.dots.h>
#include <DotsMsgHello.dots.h>
#include <DotsMsgConnect.dots.h>
#include <DotsMsgConnectResponse.dots.h>
#include <DotsMsgError.dots.h>
#include <DotsMember.dots.h>
#include <DotsCacheInfo.dots.h>
#include <DotsEcho.dots.h>
#include <DotsClearCache.dots.h>
#include <DotsDescriptorRequest.dots.h>
#include <DotsClient.dots.h>
#include <DotsDaemonStatus.dots.h>
#include <VIntern.dots.h>
#include <DotsAuthentication.dots.h>
#include <DotsAuthenticationPolicy.dots.h>

namespace vf
{
    static bool isUds(Tr t) { return t == Tr::Uds1 || t == Tr::Uds2; }
    static socklen_t fill(sockaddr_storage& ss, Tr t, const Address& a)
    {
        std::memset(&ss, 0, sizeof ss);
        if (isUds(t))
        {
            auto* u = reinterpret_cast<sockaddr_un*>(&ss);
            u->sun_family = AF_UNIX;
            std::snprintf(u->sun_path, sizeof u->sun_path, "%s", a.path.c_str());
            return sizeof(sockaddr_un);
        }
        if (a.host.find(':') != std::string::npos)
        {
            auto* i = reinterpret_cast<sockaddr_in6*>(&ss);
            i->sin6_family = AF_INET6;
            i->sin6_port = htons(static_cast<uint16_t>(a.port));
            inet_pton(AF_INET6, a.host.c_str(), &i->sin6_addr);
            return sizeof(sockaddr_in6);
        }
        auto* i = reinterpret_cast<sockaddr_in*>(&ss);
        i->sin_family = AF_INET;
        i->sin_port = htons(static_cast<uint16_t>(a.port));
        inet_pton(AF_INET, a.host.c_str(), &i->sin_addr);
        return sizeof(sockaddr_in);
    }
    void Sock::adopt(int f)
    {
        fd = f;
        ::fcntl(fd, F_SETFL, ::fcntl(fd, F_GETFL) | O_NONBLOCK);
        int one = 1;
        ::setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    }
    bool Sock::connectTo(Tr t, const Address& a)
    {
        sockaddr_storage ss;
        socklen_t n = fill(ss, t, a);
        int f = ::socket(ss.ss_family, SOCK_STREAM | SOCK_CLOEXEC, 0);
        if (f < 0) return false;
        if (!a.from.empty())
        {
            sockaddr_storage from;
            socklen_t m = fill(from, t, Address{ a.from, 0, {} });
            if (::bind(f, reinterpret_cast<sockaddr*>(&from), m) != 0) { ::close(f); return false; }
        }
        if (::connect(f, reinterpret_cast<sockaddr*>(&ss), n) != 0) { ::close(f); return false; }
        adopt(f);
        return true;
    }
    void Sock::close() { if (fd >= 0) ::close(fd); fd = -1; }
    void Sock::reset()
    {
        if (fd < 0) return;
        linger l{ 1, 0 };
        ::setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
        close();
    }
    void Sock::shutdownWrite() { if (fd >= 0) ::shutdown(fd, SHUT_WR); }
    size_t Sock::step(size_t maxWrite, size_t maxRead)
    {
        size_t moved = 0;
        if (fd < 0) return 0;
        if (outPos < out.size() && maxWrite > 0)
        {
            ssize_t n = ::send(fd, out.data() + outPos, std::min(maxWrite, out.size() - outPos), MSG_NOSIGNAL | MSG_DONTWAIT);
            if (n > 0) { outPos += static_cast<size_t>(n); moved += static_cast<size_t>(n); sent += static_cast<size_t>(n); }
            else if (n < 0 && errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR) failed = true;
            if (outPos == out.size()) { out.clear(); outPos = 0; }
        }
        if (maxRead > 0 && !eof)
        {
            uint8_t b[65536];
            ssize_t n = ::recv(fd, b, std::min(maxRead, sizeof b), MSG_DONTWAIT);
            if (n > 0) { in.insert(in.end(), b, b + n); moved += static_cast<size_t>(n); received += static_cast<size_t>(n); }
            else if (n == 0) { eof = true; ++moved; }
            else if (errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR) { eof = failed = true; ++moved; }
        }
        return moved;
    }
    int listenOn(Tr t, const Address& a)
    {
        sockaddr_storage ss;
        socklen_t n = fill(ss, t, a);
        int f = ::socket(isUds(t) ? AF_UNIX : AF_INET, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
        int one = 1;
        ::setsockopt(f, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
        if (::bind(f, reinterpret_cast<sockaddr*>(&ss), n) != 0 || ::listen(f, 64) != 0) { ::close(f); return -1; }
        return f;
    }
    int acceptFrom(int listenFd) { return ::accept4(listenFd, nullptr, nullptr, SOCK_NONBLOCK | SOCK_CLOEXEC); }

    const std::map<std::string, TypePtr>& internalTypes()
    {
        using namespace dots::types;
        static const std::map<std::string, TypePtr> types = []
        {
            std::map<std::string, TypePtr> m;
            const dt::StructDescriptor* ds[] = { &DotsHeader::_Descriptor(), &DotsTransportHeader::_Descriptor(), &DotsMsgHello::_Descriptor(), &DotsMsgConnect::_Descriptor(), &DotsMsgConnectResponse::_Descriptor(),
                &DotsMsgError::_Descriptor(), &DotsMember::_Descriptor(), &DotsCacheInfo::_Descriptor(), &DotsEcho::_Descriptor(), &DotsClearCache::_Descriptor(), &DotsDescriptorRequest::_Descriptor(),
                &StructDescriptorData::_Descriptor(), &EnumDescriptorData::_Descriptor(), &DotsClient::_Descriptor(), &DotsAuthentication::_Descriptor(), &DotsAuthenticationPolicy::_Descriptor(), &VIntern::_Descriptor() };
            for (auto* d : ds) if (d->internal()) m.emplace(d->name(), defOf(*d));
            return m;
        }();
        return types;
    }
    static const TypeDef& internalType(const char* n) { return *internalTypes().at(n); }

    void describe(const std::vector<TypePtr>& types, const std::function<void(const TypeDef&, Rec)>& emit)
    {
        for (auto& t : types)
        {
            if (t->isEnum) emit(internalType("EnumDescriptorData"), readRec(enumData(*t)));
            else emit(internalType("StructDescriptorData"), readRec(structData(*t)));
        }
    }

    TypePtr Wire::typeOf(const std::string& name) const
    {
        if (auto it = internalTypes().find(name); it != internalTypes().end()) return it->second;
        if (auto it = known.find(name); it != known.end()) return it->second;
        return nullptr;
    }

    std::string Wire::wsUpgrade(const std::string& host)
    {
        return "GET / HTTP/1.1\r\nHost: " + host + "\r\nUpgrade: websocket\r\nConnection: upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Protocol: dots-json\r\n\r\n";
    }
    static std::string wsAccept(const std::string& key)
    {
        // SHA-1 and base64
        std::string m = key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11";
        uint64_t bits = m.size() * 8;
        m += static_cast<char>(0x80);
        while (m.size() % 64 != 56) m += '\0';
        for (int i = 7; i >= 0; --i) m += static_cast<char>(bits >> (8 * i));
        uint32_t h[5] = { 0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0 };
        auto rol = [](uint32_t x, int n) { return x << n | x >> (32 - n); };
        for (size_t b = 0; b < m.size(); b += 64)
        {
            uint32_t w[80];
            for (size_t i = 0; i < 16; ++i) w[i] = static_cast<uint32_t>(static_cast<uint8_t>(m[b + 4 * i])) << 24 | static_cast<uint32_t>(static_cast<uint8_t>(m[b + 4 * i + 1])) << 16 | static_cast<uint32_t>(static_cast<uint8_t>(m[b + 4 * i + 2])) << 8 | static_cast<uint8_t>(m[b + 4 * i + 3]);
            for (size_t i = 16; i < 80; ++i) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
            uint32_t a = h[0], bb = h[1], c = h[2], d = h[3], e = h[4];
            for (size_t i = 0; i < 80; ++i)
            {
                uint32_t f = i < 20 ? (bb & c) | (~bb & d) : i < 40 ? bb ^ c ^ d : i < 60 ? (bb & c) | (bb & d) | (c & d) : bb ^ c ^ d;
                uint32_t k = i < 20 ? 0x5A827999 : i < 40 ? 0x6ED9EBA1 : i < 60 ? 0x8F1BBCDC : 0xCA62C1D6;
                uint32_t t = rol(a, 5) + f + e + k + w[i];
                e = d; d = c; c = rol(bb, 30); bb = a; a = t;
            }
            h[0] += a; h[1] += bb; h[2] += c; h[3] += d; h[4] += e;
        }
        std::string s, out;
        for (uint32_t x : h) for (int i = 3; i >= 0; --i) s += static_cast<char>(x >> (8 * i));
        const char* digits = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
        for (size_t i = 0; i < s.size(); i += 3)
        {
            uint32_t v = 0;
            for (size_t k = 0; k < 3; ++k) v = v << 8 | (i + k < s.size() ? static_cast<uint8_t>(s[i + k]) : 0);
            for (size_t k = 0; k < 4; ++k) out += i + k > s.size() ? '=' : digits[v >> (18 - 6 * k) & 63];
        }
        return out;
    }
    std::string Wire::wsFrame(std::string_view payload, int opcode, bool mask, Rng& r, bool fin)
    {
        std::string s;
        s += static_cast<char>((fin ? 0x80 : 0) | opcode);
        char m = mask ? static_cast<char>(0x80) : 0;
        if (payload.size() < 126) s += static_cast<char>(m | static_cast<char>(payload.size()));
        else if (payload.size() < 65536) { s += static_cast<char>(m | 126); s += static_cast<char>(payload.size() >> 8); s += static_cast<char>(payload.size()); }
        else { s += static_cast<char>(m | 127); for (int i = 7; i >= 0; --i) s += static_cast<char>(static_cast<uint64_t>(payload.size()) >> (8 * i)); }
        if (!mask) { s += payload; return s; }
        auto key = static_cast<uint32_t>(r.next());
        char k[4];
        std::memcpy(k, &key, 4);
        s.append(k, 4);
        size_t at = s.size();
        s += payload;
        for (size_t i = 0; i < payload.size(); ++i) s[at + i] = static_cast<char>(s[at + i] ^ k[i & 3]);
        return s;
    }
    static void put(std::string& s, const Bytes& b) { s.append(b.begin(), b.end()); }
    std::string Wire::encodeRaw(Rng& r, const Rec& header, const std::string& body)
    {
        if (tr == Tr::Ws)
        {
            TextOut o{ r };
            o.out = "[";
            o.rec(internalType("DotsHeader"), header);
            o.out += ",";
            o.out += body + "]";
            std::string s;
            std::string_view t = o.out;
            // a message may be sent in several fragments
            int opcode = r.chance(20) ? 2 : 1;
            while (r.chance(20) && t.size() > 1)
            {
                size_t n = 1 + r.below(t.size() - 1);
                s += wsFrame(t.substr(0, n), opcode, !isServer, r, false);
                t.remove_prefix(n);
                opcode = 0;
            }
            return s + wsFrame(t, opcode, !isServer, r);
        }
        std::string s;
        CborOut h;
        if (tr == Tr::Tcp1 || tr == Tr::Uds1)
        {
            Val hv;
            hv.kind = Kind::Struct;
            hv.rec = header;
            Rec transport{ { 3, hv }, { 4, u32Val(body.size()) } };
            if (r.coin()) transport[1] = Val::ofStr(header.count(hdr::typeName) ? header.at(hdr::typeName).s : "x");
            cborEncodeRec(h, internalType("DotsTransportHeader"), transport, r.coin() ? &r : nullptr);
            s += static_cast<char>(h.out.size());
            s += static_cast<char>(h.out.size() >> 8);
            put(s, h.out);
            return s + body;
        }
        cborEncodeRec(h, internalType("DotsHeader"), header, r.coin() ? &r : nullptr);
        size_t n = h.out.size() + body.size();
        s += static_cast<char>(0x1A);
        for (int i = 3; i >= 0; --i) s += static_cast<char>(n >> (8 * i));
        put(s, h.out);
        return s + body;
    }
    std::string Wire::encode(const TypeDef& t, const Rec& header, const Rec& rec, Rng& r)
    {
        if (tr == Tr::Ws)
        {
            TextOut o{ r };
            o.rec(t, rec);
            return encodeRaw(r, header, o.out);
        }
        CborOut b;
        cborEncodeRec(b, t, rec, r.coin() ? &r : nullptr);
        return encodeRaw(r, header, std::string(b.out.begin(), b.out.end()));
    }

    bool Wire::nextMessage(std::string& text, std::string* reply)
    {
        for (;;)
        {
            if (buf.size() < 2) return false;
            bool fin = buf[0] & 0x80;
            int opcode = buf[0] & 15;
            bool masked = buf[1] & 0x80;
            uint64_t len = buf[1] & 0x7f;
            size_t at = 2;
            if (len >= 126)
            {
                size_t w = len == 126 ? 2 : 8;
                if (buf.size() < at + w) return false;
                len = 0;
                for (size_t i = 0; i < w; ++i) len = len << 8 | buf[at++];
            }
            uint8_t key[4]{};
            if (masked) { if (buf.size() < at + 4) return false; std::memcpy(key, buf.data() + at, 4); at += 4; }
            if (buf.size() - at < len) return false;
            std::string payload(buf.begin() + static_cast<long>(at), buf.begin() + static_cast<long>(at + len));
            if (masked) for (size_t i = 0; i < payload.size(); ++i) payload[i] = static_cast<char>(payload[i] ^ static_cast<char>(key[i & 3]));
            buf.erase(buf.begin(), buf.begin() + static_cast<long>(at + len));
            if (opcode == 8) { closedFrame = true; return false; }
            if (opcode == 9) { Rng r{ 1 }; if (reply) *reply += wsFrame(payload, 10, !isServer, r); continue; }
            if (opcode == 10) continue;
            fragment += payload;
            if (fin) { text.swap(fragment); fragment.clear(); return true; }
        }
    }
    void Wire::decode(Frame& f, const Shape*, const uint8_t* p, size_t n)
    {
        f.name = f.header.count(hdr::typeName) ? f.header.at(hdr::typeName).s : "";
        f.type = typeOf(f.name);
        if (!f.type)
        {
            if (typeProblem.empty()) typeProblem = "an object of '" + f.name + "' arrived before its description";
            f.opaque.assign(reinterpret_cast<const char*>(p), n);
            return;
        }
        CborIn in{ p, p + n };
        f.rec = cborToRec(*f.type, in.item());
        if (in.p != in.end) throw CborParseError{ "object of " + f.name + " ends before its frame" };
    }
    bool Wire::next(Frame& f, std::string* reply)
    {
        if (!problem.empty()) return false;
        f = Frame{};
        try
        {
            if (tr == Tr::Ws)
            {
                if (!upgraded)
                {
                    std::string s(buf.begin(), buf.end());
                    auto e = s.find("\r\n\r\n");
                    if (e == std::string::npos) return false;
                    if (isServer)
                    {
                        auto k = s.find("Sec-WebSocket-Key: ");
                        if (k == std::string::npos) { problem = "no websocket key: " + s.substr(0, 60); return false; }
                        std::string key = s.substr(k + 19, s.find("\r\n", k) - k - 19);
                        if (reply) *reply += "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + wsAccept(key) + "\r\nSec-WebSocket-Protocol: dots-json\r\n\r\n";
                        buf.erase(buf.begin(), buf.begin() + static_cast<long>(e + 4));
                        upgraded = true;
                        return next(f, reply);
                    }
                    if (s.compare(0, 12, "HTTP/1.1 101") != 0) { problem = "no websocket upgrade: " + s.substr(0, 60); return false; }
                    buf.erase(buf.begin(), buf.begin() + static_cast<long>(e + 4));
                    upgraded = true;
                }
                std::string text;
                if (!nextMessage(text, reply)) return false;
                JsonIn in{ text.data(), text.data() + text.size() };
                Json j = in.document();
                if (j.t != Json::Array || j.items.size() != 2) throw TextError{ "not an array of header and object" };
                f.header = jsonToRec(internalType("DotsHeader"), j.items[0]);
                f.name = f.header.count(hdr::typeName) ? f.header.at(hdr::typeName).s : "";
                f.type = typeOf(f.name);
                if (!f.type) { if (typeProblem.empty()) typeProblem = "an object of '" + f.name + "' arrived before its description"; f.opaque = text; }
                else f.rec = jsonToRec(*f.type, j.items[1]);
            }
            else if (tr == Tr::Tcp1 || tr == Tr::Uds1)
            {
                if (buf.size() < 2) return false;
                size_t hs = buf[0] | static_cast<size_t>(buf[1]) << 8;
                if (buf.size() < 2 + hs) return false;
                CborIn in{ buf.data() + 2, buf.data() + 2 + hs };
                Rec t = cborToRec(internalType("DotsTransportHeader"), in.item());
                if (in.p != in.end) throw CborParseError{ "transport header is shorter than its size" };
                if (!t.count(3) || !t.count(4)) throw CborParseError{ "transport header without header or size" };
                size_t n = t.at(4).u;
                if (buf.size() < 2 + hs + n) return false;
                f.header = t.at(3).rec;
                decode(f, nullptr, buf.data() + 2 + hs, n);
                buf.erase(buf.begin(), buf.begin() + static_cast<long>(2 + hs + n));
            }
            else
            {
                if (buf.size() < 5) return false;
                if (buf[0] != 0x1A) throw CborParseError{ "frame does not begin with its size" };
                size_t n = static_cast<size_t>(buf[1]) << 24 | static_cast<size_t>(buf[2]) << 16 | static_cast<size_t>(buf[3]) << 8 | buf[4];
                if (buf.size() < 5 + n) return false;
                CborIn in{ buf.data() + 5, buf.data() + 5 + n };
                f.header = cborToRec(internalType("DotsHeader"), in.item());
                decode(f, nullptr, in.p, static_cast<size_t>(in.end - in.p));
                buf.erase(buf.begin(), buf.begin() + static_cast<long>(5 + n));
            }
        }
        catch (const std::exception& e)
        {
            problem = std::string{ e.what() } + " in frame " + std::to_string(frames) + " (" + f.name + ")";
            return false;
        }
        ++frames;
        if (f.type) learn(f);
        return true;
    }

    static bool shapeFromName(const std::string& n, const std::map<std::string, TypePtr>& known, Shape& s)
    {
        if (n.compare(0, 7, "vector<") == 0 && n.back() == '>')
        {
            s.kind = Kind::Vec;
            s.elem = std::make_shared<Shape>();
            return shapeFromName(n.substr(7, n.size() - 8), known, *s.elem);
        }
        for (size_t i = 0; i < KindNames.size(); ++i) if (n == KindNames[i]) { s.kind = static_cast<Kind>(i); return true; }
        auto it = known.find(n);
        if (it == known.end())
        {
            auto i2 = internalTypes().find(n);
            if (i2 == internalTypes().end()) return false;
            s.def = i2->second;
        }
        else s.def = it->second;
        s.kind = s.def->isEnum ? Kind::Enum : Kind::Struct;
        return true;
    }
    void Wire::learn(const Frame& f)
    {
        bool isStruct = f.name == "StructDescriptorData", isEnum = f.name == "EnumDescriptorData";
        if (!isStruct && !isEnum) return;
        auto t = std::make_shared<TypeDef>();
        auto bad = [&](const std::string& s) { if (typeProblem.empty()) typeProblem = s; };
        if (!f.rec.count(1)) return bad("description without a name");
        t->name = f.rec.at(1).s;
        if (!described.insert(t->name).second) return bad("'" + t->name + "' was described twice");
        if (confirmed.count(t->name)) return bad("'" + t->name + "' was described to the peer that described it");
        if (isEnum)
        {
            t->isEnum = true;
            if (f.rec.count(2)) for (auto& e : f.rec.at(2).items)
            {
                if (!e.rec.count(1) || !e.rec.count(2) || !e.rec.count(3)) return bad("enumerator of '" + t->name + "' is incomplete");
                t->enumerators.push_back({ static_cast<uint32_t>(e.rec.at(3).u), e.rec.at(2).s, static_cast<int32_t>(e.rec.at(1).asInt()) });
            }
        }
        else
        {
            if (f.rec.count(2)) for (auto& p : f.rec.at(2).items)
            {
                if (!p.rec.count(1) || !p.rec.count(2) || !p.rec.count(3) || !p.rec.count(4)) return bad("property of '" + t->name + "' is incomplete");
                PropDef d;
                d.name = p.rec.at(1).s;
                d.tag = static_cast<uint32_t>(p.rec.at(2).u);
                d.key = p.rec.at(3).u != 0;
                if (!shapeFromName(p.rec.at(4).s, known, d.shape)) return bad("'" + t->name + "' was described before '" + p.rec.at(4).s + "'");
                t->props.push_back(std::move(d));
            }
            t->cached = false;
            if (f.rec.count(5))
            {
                const Rec& fl = f.rec.at(5).rec;
                auto flag = [&](uint32_t tag) { return fl.count(tag) && fl.at(tag).u; };
                t->cached = flag(1); t->internal = flag(2); t->persistent = flag(3); t->cleanup = flag(4); t->local = flag(5); t->substructOnly = flag(6);
            }
        }
        known[t->name] = t;
    }
}
