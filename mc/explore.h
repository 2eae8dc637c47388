// The configuration x text exploration shared by the whole-pipeline properties.
#pragma once
#include <functional>

#include "cfgs.h"
#include "impl.h"

namespace explore {
using ref::U;
// judge(want, got, text): "" or the disagreement.  want.error (the reference rejects the parameters) is passed separately.
using Judge = std::function<std::string(const ref::Cfg &, const U &text, bool add, const ref::Enc &want, bool rejected, const impl::Out &got)>;
std::vector<mc::Family> families(Judge j, bool small = false);
}  // namespace explore
