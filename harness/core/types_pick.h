// One type of a case: described by the harness, known to the library, and known a second time as a run-time type of another registry.
#pragma once
#include "statics.h"

namespace vf
{
    struct TypeUnderTest
    {
        std::shared_ptr<TypeDef> def;
        const dt::StructDescriptor* desc = nullptr;
        std::unique_ptr<dt::Registry> registry, twinRegistry;
        const dt::StructDescriptor* twin = nullptr;
        bool isStatic = false;
    };
    inline std::unique_ptr<dt::Registry> freshRegistry() { return std::make_unique<dt::Registry>(std::nullopt, dt::Registry::StaticTypePolicy::FundamentalOnly); }

    inline std::map<const dt::StructDescriptor*, std::shared_ptr<TypeUnderTest>> g_static;
    inline std::shared_ptr<TypeUnderTest> pickType(Rng& r, bool keyless = true, int staticPercent = 55)
    {
        if (r.chance(staticPercent))
        {
            auto* d = r.pick(staticTypes());
            auto& t = g_static[d];
            if (!t)
            {
                t = std::make_shared<TypeUnderTest>();
                t->def = defOf(*d);
                t->desc = d;
                t->isStatic = true;
                std::vector<std::shared_ptr<TypeDef>> all;
                collectTypes(t->def, all);
                t->twinRegistry = freshRegistry();
                t->twin = &buildTypes(*t->twinRegistry, all);
            }
            return t;
        }
        auto t = std::make_shared<TypeUnderTest>();
        TypeGen gen;
        gen.prefix = "R";
        TypeGenOpts o;
        o.maxProps = r.chance(10) ? 31 : 10;
        o.keyless = keyless;
        t->def = gen.makeStruct(r, o);
        t->registry = freshRegistry();
        t->desc = &buildTypes(*t->registry, gen.types);
        t->twinRegistry = freshRegistry();
        t->twin = &buildTypes(*t->twinRegistry, gen.types);
        return t;
    }
}
