// The compiled types of the model, by descriptor.
#pragma once
#include "bridge.h"

namespace vf
{
    const std::vector<const dt::StructDescriptor*>& staticTypes();
    const dt::StructDescriptor& staticType(const std::string& name);
    // The types that a type needs, dependencies first, itself last.
    inline void collectTypes(const std::shared_ptr<TypeDef>& t, std::vector<std::shared_ptr<TypeDef>>& out)
    {
        for (auto& o : out) if (o->name == t->name) return;
        for (auto& p : t->props)
        {
            const Shape* s = &p.shape;
            while (s->kind == Kind::Vec) s = s->elem.get();
            if (s->def) collectTypes(s->def, out);
        }
        out.push_back(t);
    }
}
