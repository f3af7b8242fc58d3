// Between dots objects and the harness' value model.
#pragma once
#include "model.h"
#include <dots/type/DynamicStruct.h>
#include <dots/type/DynamicEnum.h>
#include <dots/type/FundamentalTypes.h>
#include <dots/type/AnyStruct.h>
#include <dots/type/Registry.h>
#include <dots/type/VectorDescriptor.h>
#include <dots/io/DescriptorConverter.h>

namespace vf
{
    namespace dt = dots::type;

    inline Kind kindOf(const dt::Descriptor<>& d)
    {
        switch (d.type())
        {
            case dt::Type::boolean: return Kind::Bool;
            case dt::Type::int8: return Kind::I8;
            case dt::Type::uint8: return Kind::U8;
            case dt::Type::int16: return Kind::I16;
            case dt::Type::uint16: return Kind::U16;
            case dt::Type::int32: return Kind::I32;
            case dt::Type::uint32: return Kind::U32;
            case dt::Type::int64: return Kind::I64;
            case dt::Type::uint64: return Kind::U64;
            case dt::Type::float32: return Kind::F32;
            case dt::Type::float64: return Kind::F64;
            case dt::Type::property_set: return Kind::PSet;
            case dt::Type::timepoint: return Kind::TP;
            case dt::Type::steady_timepoint: return Kind::STP;
            case dt::Type::duration: return Kind::Dur;
            case dt::Type::uuid: return Kind::Uuid;
            case dt::Type::string: return Kind::Str;
            case dt::Type::Vector: return Kind::Vec;
            case dt::Type::Struct: return Kind::Struct;
            case dt::Type::Enum: return Kind::Enum;
        }
        return Kind::Bool;
    }

    // The value stored at an address, read with the C++ type the library documents for the kind.
    inline Rec readRec(const dt::Struct& s);
    inline Val readVal(const dt::Typeless& t, const dt::Descriptor<>& d)
    {
        Val v;
        v.kind = kindOf(d);
        switch (v.kind)
        {
            case Kind::Bool: { uint8_t b; std::memcpy(&b, &t, 1); v.u = b; break; }
            case Kind::I8: v.u = static_cast<uint64_t>(static_cast<int64_t>(t.to<int8_t>())); break;
            case Kind::U8: v.u = t.to<uint8_t>(); break;
            case Kind::I16: v.u = static_cast<uint64_t>(static_cast<int64_t>(t.to<int16_t>())); break;
            case Kind::U16: v.u = t.to<uint16_t>(); break;
            case Kind::I32: v.u = static_cast<uint64_t>(static_cast<int64_t>(t.to<int32_t>())); break;
            case Kind::U32: v.u = t.to<uint32_t>(); break;
            case Kind::I64: v.u = static_cast<uint64_t>(t.to<int64_t>()); break;
            case Kind::U64: v.u = t.to<uint64_t>(); break;
            case Kind::F32: v = Val::ofFloat(t.to<float>()); break;
            case Kind::F64: v = Val::ofDouble(Kind::F64, t.to<double>()); break;
            case Kind::PSet: v.u = t.to<dots::property_set_t>().toValue(); break;
            case Kind::TP: v = Val::ofDouble(Kind::TP, t.to<dots::timepoint_t>().time_since_epoch().count()); break;
            case Kind::STP: v = Val::ofDouble(Kind::STP, t.to<dots::steady_timepoint_t>().time_since_epoch().count()); break;
            case Kind::Dur: v = Val::ofDouble(Kind::Dur, t.to<dots::duration_t>().count()); break;
            case Kind::Uuid: { auto& a = t.to<dots::uuid_t>().data(); v.s.assign(reinterpret_cast<const char*>(a.data()), a.size()); break; }
            case Kind::Str: v.s = t.to<std::string>(); break;
            case Kind::Enum: v.u = static_cast<uint64_t>(static_cast<int64_t>(t.to<int32_t>())); break;
            case Kind::Struct: v.rec = readRec(t.to<dt::Struct>()); break;
            case Kind::Vec:
            {
                auto& vec = t.to<dt::Vector<>>();
                auto& vd = static_cast<const dt::VectorDescriptor&>(d);
                size_t n = vec.typelessSize();
                for (size_t i = 0; i < n; ++i) v.items.push_back(readVal(vec.typelessAt(i), vd.valueDescriptor()));
                break;
            }
        }
        return v;
    }
    // All valid properties, found by walking the descriptors and the property area (not through the serializers).
    inline Rec readRec(const dt::Struct& s)
    {
        Rec r;
        const dt::PropertyArea& area = s._propertyArea();
        for (const dt::PropertyDescriptor& p : s._descriptor().propertyDescriptors())
        {
            if (area.validProperties().toValue() & (1u << p.tag()))
            {
                r.emplace(p.tag(), readVal(area.getProperty<dt::Typeless>(p.offset()), p.valueDescriptor()));
            }
        }
        return r;
    }

    template <typename F>
    void withCpp(const Val& v, F&& f)   // calls f with the C++ value of a fundamental or enum value
    {
        switch (v.kind)
        {
            case Kind::Bool: f(v.u != 0); break;
            case Kind::I8: f(static_cast<int8_t>(v.u)); break;
            case Kind::U8: f(static_cast<uint8_t>(v.u)); break;
            case Kind::I16: f(static_cast<int16_t>(v.u)); break;
            case Kind::U16: f(static_cast<uint16_t>(v.u)); break;
            case Kind::I32: f(static_cast<int32_t>(v.u)); break;
            case Kind::U32: f(static_cast<uint32_t>(v.u)); break;
            case Kind::I64: f(static_cast<int64_t>(v.u)); break;
            case Kind::U64: f(static_cast<uint64_t>(v.u)); break;
            case Kind::F32: f(v.asFloat()); break;
            case Kind::F64: f(v.asDouble()); break;
            case Kind::PSet: f(dots::property_set_t{ static_cast<uint32_t>(v.u) }); break;
            case Kind::TP: f(dots::timepoint_t{ dots::duration_t{ v.asDouble() } }); break;
            case Kind::STP: f(dots::steady_timepoint_t{ dots::duration_t{ v.asDouble() } }); break;
            case Kind::Dur: f(dots::duration_t{ v.asDouble() }); break;
            case Kind::Uuid: { dots::uuid_t::value_t a; std::memcpy(a.data(), v.s.data(), 16); f(dots::uuid_t{ a }); break; }
            case Kind::Str: f(v.s); break;
            case Kind::Enum: f(static_cast<dt::DynamicEnum>(static_cast<int32_t>(v.u))); break;
            default: throw std::logic_error{ "withCpp" };
        }
    }

    inline void writeRec(dt::Struct& s, const Rec& r, uint32_t mask = ~0u);
    // Assigns to an already constructed value.
    inline void writeVal(dt::Typeless& t, const dt::Descriptor<>& d, const Val& v)
    {
        if (v.kind == Kind::Struct)
        {
            auto& s = t.to<dt::Struct>();
            s._clear();
            writeRec(s, v.rec);
        }
        else if (v.kind == Kind::Vec)
        {
            auto& vec = t.to<dt::Vector<>>();
            auto& vd = static_cast<const dt::VectorDescriptor&>(d);
            vd.fill(vec, v.items.size());
            for (size_t i = 0; i < v.items.size(); ++i) writeVal(vec.typelessAt(i), vd.valueDescriptor(), v.items[i]);
        }
        else if (v.kind == Kind::Bool)
        {
            uint8_t b = v.u != 0;
            std::memcpy(&t, &b, 1);
        }
        else withCpp(v, [&](auto&& x) { d.assign(t, dt::Typeless::From(std::as_const(x))); });
    }
    inline void writeProp(dt::Struct& s, const dt::PropertyDescriptor& p, const Val& v)
    {
        dt::ProxyProperty<> proxy{ s._propertyArea(), p };
        if (v.kind == Kind::Struct || v.kind == Kind::Vec)
        {
            if (!proxy.isValid()) proxy.emplace();
            writeVal(proxy.storage(), p.valueDescriptor(), v);
        }
        else withCpp(v, [&](auto&& x) { proxy.emplace(dt::Typeless::From(std::as_const(x))); });
    }
    inline void writeRec(dt::Struct& s, const Rec& r, uint32_t mask)
    {
        for (const dt::PropertyDescriptor& p : s._descriptor().propertyDescriptors())
        {
            if (!(mask & (1u << p.tag()))) continue;
            if (auto it = r.find(p.tag()); it != r.end()) writeProp(s, p, it->second);
        }
    }
    // s becomes exactly r
    inline void setRec(dt::Struct& s, const Rec& r)
    {
        for (const dt::PropertyDescriptor& p : s._descriptor().propertyDescriptors())
        {
            dt::ProxyProperty<> proxy{ s._propertyArea(), p };
            if (auto it = r.find(p.tag()); it != r.end()) writeProp(s, p, it->second);
            else proxy.reset();
        }
    }
    inline dt::AnyStruct makeAny(const dt::StructDescriptor& d, const Rec& r)
    {
        dt::AnyStruct a{ d };
        writeRec(a.get(), r);
        return a;
    }

    // The harness' description of a type the library knows.
    inline std::shared_ptr<TypeDef> defOf(const dt::Descriptor<>& d);
    inline Shape shapeOf(const dt::Descriptor<>& d)
    {
        Shape s;
        s.kind = kindOf(d);
        if (s.kind == Kind::Vec) s.elem = std::make_shared<Shape>(shapeOf(static_cast<const dt::VectorDescriptor&>(d).valueDescriptor()));
        else if (s.kind == Kind::Struct || s.kind == Kind::Enum) s.def = defOf(d);
        return s;
    }
    inline std::shared_ptr<TypeDef> defOf(const dt::Descriptor<>& d)
    {
        auto t = std::make_shared<TypeDef>();
        t->name = d.name();
        if (d.type() == dt::Type::Enum)
        {
            t->isEnum = true;
            for (auto& e : static_cast<const dt::EnumDescriptor&>(d).enumerators()) t->enumerators.push_back({ e.tag(), e.name(), e.value() });
        }
        else
        {
            auto& sd = static_cast<const dt::StructDescriptor&>(d);
            t->cached = sd.cached(); t->internal = sd.internal(); t->persistent = sd.persistent();
            t->cleanup = sd.cleanup(); t->local = sd.local(); t->substructOnly = sd.substructOnly();
            for (auto& p : sd.propertyDescriptors()) t->props.push_back({ p.name(), p.tag(), p.isKey(), shapeOf(p.valueDescriptor()) });
        }
        return t;
    }

    // The transferable description of a type of the harness.
    inline dots::types::EnumDescriptorData enumData(const TypeDef& t)
    {
        dots::types::EnumDescriptorData d;
        d.name = t.name;
        auto& els = d.elements.emplace();
        for (auto& e : t.enumerators)
        {
            dots::types::EnumElementDescriptor el;
            el.enum_value = e.value;
            el.name = e.name;
            el.tag = e.tag;
            els.push_back(std::move(el));
        }
        return d;
    }
    inline dots::types::StructDescriptorData structData(const TypeDef& t)
    {
        dots::types::StructDescriptorData d;
        d.name = t.name;
        auto& f = d.flags.emplace();
        f.cached = t.cached; f.internal = t.internal; f.persistent = t.persistent; f.cleanup = t.cleanup; f.local = t.local; f.substructOnly = t.substructOnly;
        auto& ps = d.properties.emplace();
        for (auto& p : t.props)
        {
            dots::types::StructPropertyData pd;
            pd.name = p.name; pd.tag = p.tag; pd.isKey = p.key; pd.type = p.shape.typeName();
            ps.push_back(std::move(pd));
        }
        return d;
    }
    inline const dt::StructDescriptor& buildTypes(dt::Registry& reg, const std::vector<std::shared_ptr<TypeDef>>& types)
    {
        dots::io::DescriptorConverter conv{ reg };
        const dt::StructDescriptor* last = nullptr;
        for (auto& t : types)
        {
            if (t->isEnum) conv(enumData(*t));
            else last = &conv(structData(*t));
        }
        return *last;
    }
}
