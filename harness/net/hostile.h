// Peers that send what no correct client sends, stop reading, stall and vanish.
#pragma once
#include "net/world.h"

namespace vf
{
    struct Hostile
    {
        World& w;
        Rng& r;
        Tr tr;
        std::string kind;
        Sock sock;
        Wire wire;
        bool reads = true, blind = false, preload = true;
        int stage = 0;                               // 0 before the hello, 2 answered, 3 preloading, 4 connected
        size_t maxWrite = 1 << 16, maxRead = 1 << 16;
        std::function<void(Hostile&)> early, later;  // produce the bytes that are sent before the handshake, after it
        int ending = 0;                              // when everything was sent: 0 stays, 1 end of stream, 2 reset, 3 close
        size_t patience = 0;                         // steps it waits before that
        bool over = false;
        size_t total = 0;

        Hostile(World& w, Tr t) : w(w), r(w.r), tr(t) { wire.tr = t; }
        bool connect();
        bool step();
        void finish();                               // ends whatever is left

        std::string frame(const TypeDef& t, Rec header, const Rec& rec) { return wire.encode(t, std::move(header), rec, r); }
        std::string frame(const TypeDef& t, const Rec& rec) { return frame(t, Rec{ { hdr::typeName, Val::ofStr(t.name) }, { hdr::attributes, psVal(maskOf(rec)) } }, rec); }
        std::string internal(const char* name, const Rec& rec);
        std::string handshake();
        // kinds of frames
        std::string validPublication();
        std::string wrongPublication();              // a reason to refuse it
        std::string service();                       // requests of the host, with random contents
        std::string incompleteMessage();
        std::string description();
        std::string sizes();
        std::string nested();
        std::string websocket();
        std::string anything();
        void mutate(std::string& s);
    };

    struct Siege
    {
        World& w;
        std::vector<std::unique_ptr<Hostile>> peers;
        size_t baseline = 0, peak = 0;
        explicit Siege(World& world);
        ~Siege();
        Hostile* add(const char* kind = nullptr);
        bool step();
        bool quiet() const;                          // nothing more to send
        void lift();                                 // all of them end; the host has to notice
    };
    extern "C" size_t __sanitizer_get_current_allocated_bytes();
    inline size_t allocatedBytes() { return __sanitizer_get_current_allocated_bytes(); }
}
