// The larger compiled types, as types.
#pragma once
#include "statics.h"
#include <VAll.dots.h>
#include <VVec.dots.h>
#include <VMulti.dots.h>
#include <VKeyObj.dots.h>

namespace vf
{
    // Calls f with a typed reference when the object is one of the larger compiled types, else with Struct&.
    template <typename S, typename F>
    decltype(auto) typed(S& s, F&& f)
    {
        using namespace dots::types;
        if (s.template _is<VAll>()) return f(s.template _to<VAll>());
        if (s.template _is<VVec>()) return f(s.template _to<VVec>());
        if (s.template _is<VMulti>()) return f(s.template _to<VMulti>());
        return f(s);
    }
}
