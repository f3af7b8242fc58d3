// The compiled types of the model, instantiated in this file only.
#include "statics.h"
#include <VAll.dots.h>
#include <VVec.dots.h>
#include <VMulti.dots.h>
#include <VKeyObj.dots.h>
#include <VPlain.dots.h>
#include <VPlain2.dots.h>
#include <VSingle.dots.h>
#include <VClean.dots.h>
#include <VClean2.dots.h>
#include <VEvent.dots.h>
#include <VEvent2.dots.h>
#include <VEmbed.dots.h>
#include <VHolder.dots.h>
#include <VIntern.dots.h>
#include <VPersist.dots.h>
#include <VLocal.dots.h>


namespace vf
{
    const std::vector<const dt::StructDescriptor*>& staticTypes()
    {
        using namespace dots::types;
        static const std::vector<const dt::StructDescriptor*> types{
            &VAll::_Descriptor(), &VVec::_Descriptor(), &VMulti::_Descriptor(), &VKeyObj::_Descriptor(), &VPlain::_Descriptor(), &VPlain2::_Descriptor(),
            &VSingle::_Descriptor(), &VClean::_Descriptor(), &VClean2::_Descriptor(), &VEvent::_Descriptor(), &VEvent2::_Descriptor(), &VHolder::_Descriptor(),
            &VSub::_Descriptor(), &VSubKey::_Descriptor(), &VDeep::_Descriptor(), &VEmbed::_Descriptor() };
        return types;
    }
    const dt::StructDescriptor& staticType(const std::string& name)
    {
        using namespace dots::types;
        static const std::vector<const dt::StructDescriptor*> more{ &VIntern::_Descriptor(), &VPersist::_Descriptor(), &VLocal::_Descriptor() };
        for (auto* all : { &staticTypes(), &more }) for (auto* d : *all) if (d->name() == name) return *d;
        throw std::logic_error{ "no compiled type " + name };
    }
}
