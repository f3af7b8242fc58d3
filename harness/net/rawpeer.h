// A client of the harness that speaks the wire protocols by itself: no library code between the socket and the model.
#pragma once
#include "core/textref.h"
#include "core/cborref.h"
#include <deque>

namespace vf
{
    enum class Tr { Tcp2, Tcp1, Uds2, Uds1, Ws, Local };
    inline const char* trName(Tr t) { const char* n[] = { "tcp-v2", "tcp-v1", "uds-v2", "uds-v1", "ws", "local" }; return n[static_cast<int>(t)]; }

    struct Address { std::string host; int port = 0; std::string path; std::string from = {}; };      // from: the address to connect from

    // A non-blocking stream socket with buffers; every step moves a bounded number of bytes.
    struct Sock
    {
        int fd = -1;
        std::string out;
        size_t outPos = 0;
        Bytes in;
        bool eof = false, failed = false;
        size_t received = 0, sent = 0;

        Sock() = default;
        Sock(const Sock&) = delete;
        Sock& operator=(const Sock&) = delete;
        ~Sock() { close(); }
        bool open() const { return fd >= 0; }
        bool connectTo(Tr t, const Address& a);          // blocking connect to something that listens on this machine
        void adopt(int f);
        void close();
        void reset();                                    // abortive close
        void shutdownWrite();
        size_t step(size_t maxWrite, size_t maxRead);    // bytes moved
        size_t pending() const { return out.size() - outPos; }
    };
    int listenOn(Tr t, const Address& a);                // non-blocking listening socket, -1 if the address is taken
    int acceptFrom(int listenFd);                        // -1 if nobody is waiting

    using TypePtr = std::shared_ptr<TypeDef>;
    const std::map<std::string, TypePtr>& internalTypes();     // the library's own internal types, by name

    namespace hdr { enum : uint32_t { typeName = 1, sentTime = 2, attributes = 3, removeObj = 4, sender = 5, isFromMyself = 6, serverSentTime = 7, fromCache = 8 }; }
    inline Val u32Val(uint64_t u) { Val v; v.kind = Kind::U32; v.u = u; return v; }
    inline Val psVal(uint64_t u) { Val v; v.kind = Kind::PSet; v.u = u; return v; }
    inline Val boolVal(bool b) { Val v; v.kind = Kind::Bool; v.u = b; return v; }
    inline Val intVal(Kind k, uint64_t u) { Val v; v.kind = k; v.u = u; return v; }
    inline Rec namesVal(uint32_t tag, const std::vector<std::string>& names) { Val v; v.kind = Kind::Vec; for (auto& n : names) v.items.push_back(Val::ofStr(n)); return Rec{ { tag, v } }; }

    struct Frame
    {
        std::string name;
        TypePtr type;                      // null if the connection never carried its description
        Rec header, rec;
        std::string opaque;                // undecoded text or bytes when the type is unknown
    };

    // Encodes frames of the wire formats. What is wrong with a stream ends up in "problem".
    struct Wire
    {
        Tr tr = Tr::Tcp2;
        std::map<std::string, TypePtr> known;         // user types described on this connection, in either direction
        std::set<std::string> described;              // by the other side
        std::set<std::string> confirmed;              // described to the other side, which has surely read it
        std::string problem;                          // malformed framing or encoding
        std::string typeProblem;                      // wrong descriptions: missing, repeated or out of order
        Bytes buf;                                    // unparsed input
        bool upgraded = false;                        // websocket: handshake done
        bool closedFrame = false;
        bool isServer = false;
        std::string fragment;
        size_t frames = 0;

        TypePtr typeOf(const std::string& name) const;
        std::string encode(const TypeDef& t, const Rec& header, const Rec& rec, Rng& r);
        std::string encodeRaw(Rng& r, const Rec& header, const std::string& body);         // body already encoded
        void feed(const uint8_t* p, size_t n) { buf.insert(buf.end(), p, p + n); }
        bool next(Frame& f, std::string* reply = nullptr);                                 // false: nothing complete
        void learn(const Frame& f);                                                        // descriptions
        static std::string wsFrame(std::string_view payload, int opcode, bool mask, Rng& r, bool fin = true);
        static std::string wsUpgrade(const std::string& host);
    private:
        bool nextMessage(std::string& text, std::string* reply);
        void decode(Frame& f, const Shape* sh, const uint8_t* p, size_t n);
    };
    // the frames of type descriptions, dependencies first
    void describe(const std::vector<TypePtr>& types, const std::function<void(const TypeDef&, Rec)>& emit);
}
