#include "net/hostile.h"
#include "core/textref.h"

namespace vf
{
    static GenOpts anyValue()
    {
        GenOpts go;
        go.nan = false;
        go.maxVec = 4;
        return go;
    }
    static Val memberEvent(Rng& r, bool join = false)
    {
        auto& e = internalTypes().at("DotsMember")->find(2)->shape.def->enumerators;
        const EnumeratorDef* d = &r.pick(e);
        if (join) for (auto& x : e) if (x.name == "join") d = &x;
        return Val::ofInt(Kind::Enum, d->value);
    }
    std::string Hostile::internal(const char* name, const Rec& rec) { return frame(*internalTypes().at(name), rec); }

    bool Hostile::connect()
    {
        if (!sock.connectTo(tr, w.at.at(tr))) return false;
        if (tr == Tr::Ws && !early) sock.out += Wire::wsUpgrade("localhost");
        if (early) early(*this);
        if (blind)
        {
            sock.out += handshake();
            stage = 4;
            if (later) later(*this);
        }
        return true;
    }
    std::string Hostile::handshake()
    {
        std::string s = internal("DotsMsgConnect", Rec{ { 1, Val::ofStr("hostile" + std::to_string(r.below(1000))) }, { 2, boolVal(preload) } });
        if (preload && (blind || r.coin())) s += internal("DotsMsgConnect", Rec{ { 3, boolVal(true) } });
        return s;
    }
    bool Hostile::step()
    {
        if (over) return false;
        size_t moved = sock.step(r.chance(50) ? maxWrite : 1 + r.below(maxWrite), reads ? (r.chance(50) ? maxRead : 1 + r.below(maxRead)) : 0);
        if (!sock.in.empty())
        {
            if (wire.problem.empty()) wire.feed(sock.in.data(), sock.in.size());
            sock.in.clear();
            Frame f;
            std::string reply;
            while (!blind && wire.problem.empty() && wire.next(f, &reply))
            {
                if (f.name == "DotsMsgHello" && stage == 0 && !early)
                {
                    stage = 2;
                    sock.out += internal("DotsMsgConnect", Rec{ { 1, Val::ofStr("hostile" + std::to_string(r.below(1000))) }, { 2, boolVal(preload) } });
                }
                else if (f.name == "DotsMsgConnectResponse" && (stage == 2 || stage == 3))
                {
                    if (stage == 2 && preload) { stage = 3; sock.out += internal("DotsMsgConnect", Rec{ { 3, boolVal(true) } }); }
                    else { stage = 4; if (later) later(*this); }
                }
                w.ctx.count("frames_read_by_faulty_peers");
            }
            wire.typeProblem.clear();
        }
        if (sock.eof || sock.failed)
        {
            sock.close();
            over = true;
            return true;
        }
        if (sock.pending() == 0 && ending != 0 && (stage == 4 || early || !later))
        {
            if (patience > 0) { --patience; return moved > 0; }
            if (ending == 1) { sock.shutdownWrite(); ending = 0; reads = true; }
            else { if (ending == 2) sock.reset(); else sock.close(); over = true; }
            return true;
        }
        return moved > 0;
    }
    void Hostile::finish()
    {
        if (over) return;
        if (r.coin()) sock.reset(); else sock.close();
        over = true;
    }

    // ---- what they send -------------------------------------------------------------------------------------------------
    static bool plainKeys(const TypeDef& t)
    {
        for (auto& p : t.props) if (p.key && (isFloat64(p.shape.kind) || p.shape.kind == Kind::F32 || p.shape.kind == Kind::Struct || p.shape.kind == Kind::Vec)) return false;
        return true;
    }
    std::string Hostile::validPublication()
    {
        for (int i = 0; i < 6; ++i)
        {
            size_t t = r.below(w.types.size());
            const TypeDef& d = *w.types[t].def;
            if (!w.hostType(t) || !plainKeys(d) || d.internal) continue;
            SentPub p = w.generate(t, true);
            Rec h{ { hdr::typeName, Val::ofStr(d.name) }, { hdr::attributes, psVal(p.included) } };
            if (p.sentTime) h[hdr::sentTime] = Val::ofDouble(Kind::TP, *p.sentTime);
            if (p.remove) h[hdr::removeObj] = boolVal(true);
            if (r.chance(20)) h[hdr::sender] = u32Val(r.below(9));
            if (r.chance(20)) h[hdr::fromCache] = u32Val(r.below(9));
            return frame(d, h, p.rec);
        }
        return service();
    }
    std::string Hostile::wrongPublication()
    {
        const TypePtr plain = defOf(staticType("VPlain")), event = defOf(staticType("VEvent")), embed = defOf(staticType("VEmbed"));
        GenOpts go = anyValue();
        Rec rec = genRec(r, *plain, go, plain->keyMask());
        Rec h{ { hdr::typeName, Val::ofStr("VPlain") }, { hdr::attributes, psVal(maskOf(rec)) } };
        switch (r.below(9))
        {
            case 0: return frame(*plain, h, select(rec, ~plain->keyMask()));
            case 1: { Rec e = genRec(r, *event, go, event->keyMask()); return frame(*event, Rec{ { hdr::typeName, Val::ofStr("VEvent") }, { hdr::attributes, psVal(maskOf(e)) }, { hdr::removeObj, boolVal(true) } }, e); }
            case 2: { Rec e = genRec(r, *embed, go, 0); return frame(*embed, e); }
            case 3: h.erase(hdr::typeName); return frame(*plain, h, rec);
            case 4: h[hdr::typeName] = Val::ofStr(r.pick(std::vector<std::string>{ "", "NoSuchType", "int32", "vector<int32>", "DotsMemberEvent", std::string(1 + r.below(3000), 'x') })); return frame(*plain, h, rec);
            case 5: h.erase(hdr::attributes); return frame(*plain, h, rec);
            case 6: h[hdr::attributes] = psVal(r.next() & 0xffffffff); return frame(*plain, h, rec);
            case 7: return wire.encodeRaw(r, h, std::string(r.below(40), static_cast<char>(r.next())));
            default: h[hdr::typeName] = Val::ofStr("VEvent"); return frame(*plain, h, rec);
        }
    }
    static std::vector<std::string> groupNames(World& w, Rng& r)
    {
        std::vector<std::string> v{ "", "NoSuchType", "StructDescriptorData", "EnumDescriptorData", "DotsClient", "DotsMember", "DotsHeader", "DotsEcho", "int32", std::string(r.below(5000), 'g') };
        for (auto& t : w.types) v.push_back(t.def->name);
        return v;
    }
    std::string Hostile::service()
    {
        auto names = groupNames(w, r);
        switch (r.below(6))
        {
            case 0: case 1: return internal("DotsMember", Rec{ { 1, Val::ofStr(r.pick(names)) }, { 2, memberEvent(r) } });
            case 2: return internal("DotsEcho", Rec{ { 1, boolVal(r.coin()) }, { 2, u32Val(r.next() & 0xffffffff) }, { 4, Val::ofStr(std::string(r.below(r.chance(5) ? 200000 : 100), 'e')) } });
            case 3: { Rec q; if (r.coin()) for (auto& [t, v] : namesVal(1, { r.pick(names), r.pick(names) })) q[t] = v; if (r.coin()) for (auto& [t, v] : namesVal(2, { r.pick(names) })) q[t] = v; return internal("DotsDescriptorRequest", q); }
            case 4: return internal("DotsClearCache", namesVal(1, { r.pick(names) }));
            default: return internal("DotsMsgError", Rec{ { 1, intVal(Kind::I32, r.coin() ? 0 : r.next() & 0x7fffffff) }, { 2, Val::ofStr("of a faulty peer") } });
        }
    }
    std::string Hostile::incompleteMessage()
    {
        const char* names[] = { "DotsMsgHello", "DotsMsgConnect", "DotsMsgConnectResponse", "DotsMsgError", "DotsMember", "DotsCacheInfo", "DotsEcho", "DotsClearCache", "DotsDescriptorRequest", "StructDescriptorData", "EnumDescriptorData", "DotsClient", "DotsHeader", "DotsTransportHeader", "VIntern" };
        const TypeDef& t = *internalTypes().at(names[r.below(std::size(names))]);
        Rec rec = genRec(r, t, anyValue(), 0);
        if (r.coin()) rec = select(rec, static_cast<uint32_t>(r.next()));
        Rec h{ { hdr::typeName, Val::ofStr(t.name) }, { hdr::attributes, psVal(r.chance(80) ? maskOf(rec) : static_cast<uint32_t>(r.next())) } };
        if (r.chance(20)) h[hdr::removeObj] = boolVal(true);
        return frame(t, h, rec);
    }
    std::string Hostile::description()
    {
        // only names that the host already knows or that nobody else uses
        std::vector<std::string> names{ "Hx" + std::to_string(r.below(6)), "Hx" + std::to_string(r.below(6)), "", "int32", "vector<int32>", "string", "DotsHeader", "DotsMsgError", "StructDescriptorData", "DotsMt", "vector<Hx1>", "vector<", std::string(r.below(2000), 'h') };
        for (size_t i = 0; i < w.types.size(); ++i) if (w.hostType(i)) names.push_back(w.types[i].def->name);
        std::vector<std::string> types{ "int32", "string", "uuid", "bool", "float64", "property_set", "vector<int32>", "vector<string>", "vector<vector<int32>>", "vector<", "vector<>", "vector", ">", "", "NoSuchType", "Hx0", "Hx1", "Hx2", "vector<Hx1>", "vector<Hx2>", "vector<NoSuchType>", "DotsMt", "vector<DotsMt>", "DotsHeader", "VPlain", "StructDescriptorData", "vector<vector<Hx1>>" };
        if (r.chance(2)) { std::string deep; size_t n = 1 + r.below(3000); for (size_t i = 0; i < n; ++i) deep += "vector<"; deep += "int32"; for (size_t i = 0; i < n; ++i) deep += ">"; types.assign(1, deep); }
        GenOpts go = anyValue();
        bool isEnum = r.chance(30);
        const TypeDef& t = *internalTypes().at(isEnum ? "EnumDescriptorData" : "StructDescriptorData");
        Rec rec = genRec(r, t, go, 0);
        if (r.chance(95)) rec[1] = Val::ofStr(r.pick(names));
        Val list;
        list.kind = Kind::Vec;
        size_t n = r.below(r.chance(5) ? 60 : 6);
        uint64_t next = 0;
        bool proper = r.coin();
        for (size_t i = 0; i < n; ++i)
        {
            Val e;
            e.kind = Kind::Struct;
            if (isEnum)
            {
                const TypeDef& et = *t.find(2)->shape.elem->def;
                e.rec = genRec(r, et, go, proper ? et.allMask() : 0);
                if (r.chance(80)) if (auto* p = et.find("name")) e.rec[p->tag] = Val::ofStr("e" + std::to_string(r.below(6)));
                if (auto* p = et.find("tag")) e.rec[p->tag] = u32Val(r.chance(80) ? i + 1 : r.below(70));
            }
            else
            {
                const TypeDef& pt = *t.find(2)->shape.elem->def;
                e.rec = genRec(r, pt, go, proper ? 0xF : 0);
                if (proper || r.chance(70)) e.rec[1] = Val::ofStr("p" + std::to_string(proper ? i : r.below(4)));
                if (proper || r.chance(80)) e.rec[2] = u32Val(proper ? ++next : r.below(3) == 0 ? r.next() & 0xffffffff : r.below(36));
                if (proper || r.chance(80)) e.rec[4] = Val::ofStr(r.pick(types));
                if (e.rec.count(5)) e.rec.erase(5);
            }
            list.items.push_back(std::move(e));
        }
        if (r.chance(90)) rec[2] = list;
        if (!isEnum) rec.erase(6); else rec.erase(4);
        return frame(t, rec);
    }
    std::string Hostile::sizes()
    {
        std::string s;
        if (tr == Tr::Ws)
        {
            s += static_cast<char>(0x80 | r.below(16));
            s += static_cast<char>(0x80 | (r.coin() ? 127 : 126));
            for (int i = 0; i < 8; ++i) s += static_cast<char>(r.coin() ? 0xff : r.below(256));
            return s + std::string(r.below(300), 'x');
        }
        if (tr == Tr::Tcp1 || tr == Tr::Uds1)
        {
            if (r.coin()) { uint64_t n = r.coin() ? 0xffff : r.below(65536); s += static_cast<char>(n); s += static_cast<char>(n >> 8); return s + std::string(r.below(300), static_cast<char>(r.next())); }
            CborOut h;
            Val hv;
            hv.kind = Kind::Struct;
            hv.rec = Rec{ { hdr::typeName, Val::ofStr("VPlain") }, { hdr::attributes, psVal(2) } };
            Rec transport{ { 3, hv }, { 4, u32Val(r.coin() ? 0xffffffff : r.below(0xffffffff)) } };
            if (r.chance(20)) transport.erase(3);
            if (r.chance(20)) transport.erase(4);
            if (r.chance(30)) transport[4] = u32Val(r.below(4));
            cborEncodeRec(h, *internalTypes().at("DotsTransportHeader"), transport, nullptr);
            s += static_cast<char>(h.out.size());
            s += static_cast<char>(h.out.size() >> 8);
            s.append(h.out.begin(), h.out.end());
            return s + std::string(r.below(300), static_cast<char>(r.next()));
        }
        s += r.chance(80) ? static_cast<char>(0x1a) : static_cast<char>(r.next());
        uint64_t n = r.coin() ? 0xffffffff : r.coin() ? r.below(0xffffffff) : r.below(20);
        for (int i = 3; i >= 0; --i) s += static_cast<char>(n >> (8 * i));
        return s + std::string(r.below(300), static_cast<char>(r.next()));
    }
    std::string Hostile::nested()
    {
        // an unknown property with a deeply nested value
        size_t n = r.chance(20) ? 200000 + r.below(800000) : r.below(3000);
        Rec h{ { hdr::typeName, Val::ofStr("VPlain") }, { hdr::attributes, psVal(2) } };
        std::string body;
        if (tr == Tr::Ws)
        {
            const char* open = r.coin() ? "[" : "{\"a\":";
            body = r.coin() ? "{\"nosuchproperty\":" : "";
            for (size_t i = 0; i < n; ++i) body += open;
            if (r.coin()) { body += "1"; for (size_t i = 0; i < n; ++i) body += *open == '[' ? "]" : "}"; body += "}"; }
            return wire.encodeRaw(r, h, body);
        }
        body += static_cast<char>(0xa1);
        body += static_cast<char>(0x18);
        body += static_cast<char>(0x63);
        uint8_t open = r.pick(std::vector<uint8_t>{ 0x81, 0x9f, 0xa1, 0xbf, 0xc1, 0xd8 });
        for (size_t i = 0; i < n; ++i)
        {
            body += static_cast<char>(open);
            if (open == 0xa1 || open == 0xbf) body += static_cast<char>(1);
            if (open == 0xd8) body += static_cast<char>(0x20);
        }
        body += static_cast<char>(1);
        if (open == 0x9f || open == 0xbf) for (size_t i = 0; i < n; ++i) body += static_cast<char>(0xff);
        return wire.encodeRaw(r, h, body);
    }
    std::string Hostile::websocket()
    {
        switch (r.below(10))
        {
            case 0: return Wire::wsFrame(std::string(r.below(130), 'p'), 9, true, r);
            case 1: return Wire::wsFrame(std::string(r.below(130), 'p'), 10, true, r);
            case 2: return Wire::wsFrame("\x03\xe8" + std::string(r.below(130), static_cast<char>(r.next())), 8, true, r);
            case 3: return Wire::wsFrame(std::string(r.below(400), static_cast<char>(r.next())), 2, true, r);
            case 4: return Wire::wsFrame("[]", 1, false, r);
            case 5: return Wire::wsFrame(r.pick(std::vector<std::string>{ "", "[", "[]", "{}", "null", "[{},{}]", "[{\"typeName\":\"VPlain\"}]", "[{\"typeName\":\"VPlain\"},{}", "[{\"typeName\":1},{}]", "[{\"typeName\":\"DotsHeader\",\"attributes\":[]},{}]", "\xff\xfe", "[{\"typeName\":\"\\ud800\"},{}]" }), 1, true, r);
            case 6: return Wire::wsFrame("continued", 0, true, r);
            case 7: return Wire::wsFrame("[", 1, true, r, false);
            case 8: return Wire::wsFrame("x", static_cast<int>(r.below(16)) | static_cast<int>(r.below(8) << 4), true, r);
            default: { std::string s; size_t n = r.below(200); for (size_t i = 0; i < n; ++i) s += Wire::wsFrame("", 9, true, r); return s; }
        }
    }
    void Hostile::mutate(std::string& s)
    {
        size_t n = 1 + r.below(4);
        for (size_t i = 0; i < n && !s.empty(); ++i)
        {
            size_t at = r.below(s.size());
            switch (r.below(6))
            {
                case 0: s[at] = static_cast<char>(r.next()); break;
                case 1: s[at] = static_cast<char>(s[at] ^ (1 << r.below(8))); break;
                case 2: s.erase(at, 1 + r.below(8)); break;
                case 3: s.insert(at, std::string(1 + r.below(8), static_cast<char>(r.next()))); break;
                case 4: s.insert(at, s.substr(r.below(s.size()), r.below(40))); break;
                default: s[at] = r.pick(std::vector<char>{ 0, static_cast<char>(0xff), 0x7f, static_cast<char>(0x9f), static_cast<char>(0x5f), 0x1b, static_cast<char>(0xbf), 0x3b }); break;
            }
        }
    }
    std::string Hostile::anything()
    {
        switch (r.below(tr == Tr::Ws ? 9 : 8))
        {
            case 0: case 1: return validPublication();
            case 2: return service();
            case 3: return incompleteMessage();
            case 4: case 5: return description();
            case 6: return wrongPublication();
            case 7: return r.chance(20) ? nested() : service();
            default: return websocket();
        }
    }

    // ---- many of them ---------------------------------------------------------------------------------------------------
    Siege::Siege(World& world) : w(world)
    {
        w.adopt = true;
        for (auto& t : w.types) w.clearing.insert(t.def->name);
        baseline = allocatedBytes();
        w.extra.push_back([this]{ return step(); });
    }
    Siege::~Siege() { w.extra.clear(); }
    bool Siege::step()
    {
        bool moved = false;
        if (!w.frozen) for (auto& p : peers) if (w.r.chance(60)) moved |= p->step();
        size_t now = allocatedBytes();
        peak = std::max(peak, now > baseline ? now - baseline : 0);
        w.check(now < baseline + (size_t{ 400 } << 20), "H02:memory", [&]{ return std::to_string((now - baseline) >> 20) + " MB more than before"; });
        return moved;
    }
    bool Siege::quiet() const
    {
        for (auto& p : peers) if (!p->over && p->sock.pending() > 0) return false;
        return true;
    }
    Hostile* Siege::add(const char* want)
    {
        Rng& r = w.r;
        std::vector<Tr> trs;
        for (auto& [t, a] : w.at) if (t != Tr::Local) trs.push_back(t);
        if (trs.empty()) return nullptr;
        auto p = std::make_unique<Hostile>(w, r.pick(trs));
        Hostile& h = *p;
        static const std::vector<std::string> kinds{ "garbage", "silent", "reset", "mutated", "mutated", "mutated", "truncated", "sizes", "deaf", "upgrade", "types", "types", "messages", "messages", "refused", "refused", "burst", "early", "nested" };
        h.kind = want ? want : r.pick(kinds);
        if (h.kind == "upgrade" && h.tr != Tr::Ws) h.kind = w.at.count(Tr::Ws) ? (h.tr = h.wire.tr = Tr::Ws, "upgrade") : "garbage";
        h.preload = r.coin();
        h.blind = r.chance(40);
        h.reads = r.chance(80);
        if (!h.reads) h.blind = true;
        if (r.coin()) h.maxWrite = 1 + r.below(40);
        if (r.chance(30)) h.maxRead = 1 + r.below(40);
        h.ending = static_cast<int>(r.below(4));
        h.patience = r.below(60);
        const std::string& k = h.kind;
        if (k == "garbage") h.early = [](Hostile& x)
        {
            std::string s;
            size_t n = x.r.below(x.r.chance(5) ? 100000 : 300);
            for (size_t i = 0; i < n; ++i) s += static_cast<char>(x.r.next());
            if (x.r.coin()) s = x.sizes() + s;
            x.sock.out += s;
            x.blind = false;
        };
        else if (k == "silent") { h.blind = false; if (r.coin()) h.early = [](Hostile&){}; }
        else if (k == "reset") { h.blind = false; h.early = [](Hostile& x){ if (x.r.coin()) x.sock.out += x.handshake(); }; h.ending = r.coin() ? 2 : 3; h.patience = r.coin() ? 0 : r.below(10); }
        else if (k == "early") h.early = [](Hostile& x){ if (x.tr == Tr::Ws) x.sock.out += Wire::wsUpgrade("h"); size_t n = 1 + x.r.below(6); for (size_t i = 0; i < n; ++i) x.sock.out += x.anything(); x.blind = false; };
        else if (k == "upgrade") h.early = [](Hostile& x)
        {
            std::string s = Wire::wsUpgrade("h");
            if (x.r.coin()) x.mutate(s);
            if (x.r.coin()) s.resize(x.r.below(s.size() + 1));
            if (x.r.chance(20)) s = "GET / HTTP/1.1\r\nHost: h\r\n" + std::string(x.r.below(60000), 'a');
            if (x.r.chance(20)) s = "GET / HTTP/1.1\r\nHost: h\r\n\r\n";
            if (x.r.coin()) s += x.websocket();
            x.sock.out += s;
            x.blind = false;
        };
        else
        {
            if (r.chance(20) && (k == "types" || k == "messages")) h.maxWrite = 1 << 16;
            h.later = [](Hostile& x)
            {
                const std::string& kind = x.kind;
                size_t n = 1 + x.r.below(8);
                std::string s;
                if (kind == "mutated") for (size_t i = 0; i < n; ++i) { std::string f = x.anything(); if (x.r.coin()) x.mutate(f); s += f; }
                else if (kind == "truncated") { for (size_t i = 0; i < n; ++i) s += x.validPublication(); s.resize(x.r.below(s.size() + 1)); }
                else if (kind == "sizes") { for (size_t i = 0; i < x.r.below(3); ++i) s += x.validPublication(); s += x.sizes(); }
                else if (kind == "deaf")
                {
                    x.reads = false;
                    for (auto& t : x.w.types) s += x.internal("DotsMember", Rec{ { 1, Val::ofStr(t.def->name) }, { 2, memberEvent(x.r, true) } });
                    // asks for more than is buffered for it
                    bool much = x.tr != Tr::Ws && x.r.chance(10);
                    std::string echo = x.internal("DotsEcho", Rec{ { 1, boolVal(true) }, { 2, u32Val(1) }, { 4, Val::ofStr(std::string(much ? 400000 : 2000, 'e')) } });
                    for (size_t i = 0; i < (much ? 40u : 200u); ++i) s += echo;
                    x.maxWrite = 1 << 20;
                }
                else if (kind == "types") for (size_t i = 0; i < 2 * n; ++i) s += x.description();
                else if (kind == "messages") for (size_t i = 0; i < n; ++i) s += x.r.coin() ? x.incompleteMessage() : x.service();
                else if (kind == "refused") { for (size_t i = 0; i < x.r.below(3); ++i) s += x.validPublication(); s += x.wrongPublication(); for (size_t i = 0; i < x.r.below(3); ++i) s += x.validPublication(); }
                else if (kind == "nested") s += x.nested();
                else { std::string f = x.r.coin() ? x.validPublication() : x.service(); size_t m = x.r.below(400); for (size_t i = 0; i < m; ++i) s += f; x.maxWrite = 1 << 16; }
                x.total += s.size();
                x.sock.out += s;
            };
        }
        w.say("hostile " + h.kind + " over " + trName(h.tr) + (h.blind ? " blind" : "") + (h.reads ? "" : " deaf") + " ending " + std::to_string(h.ending));
        if (!h.connect()) { w.check(false, "H02:no-connection", [&]{ return "faulty peer " + h.kind + " over " + trName(h.tr); }); return nullptr; }
        w.ctx.count("faulty_peers");
        w.ctx.count("faulty_peers_" + h.kind);
        peers.push_back(std::move(p));
        return &h;
    }
    void Siege::lift()
    {
        for (auto& p : peers) p->finish();
        auto gone = [this]
        {
            for (auto& [id, s] : w.states) if (!w.byId.count(id) && !w.closedIds.count(id)) return false;
            return true;
        };
        if (!w.pumpUntil(gone)) w.check(false, "H02:connection-survives-its-peer", [&]{ std::string s; for (auto& [id, st] : w.states) if (!w.byId.count(id) && !w.closedIds.count(id)) s += std::to_string(id) + " in state " + std::to_string(st) + " "; return s; });
        w.ctx.maxOf("memory_growth_kb", peak >> 10);
        peers.clear();
    }
}
