#pragma once
#include "world.h"
namespace sim {
void dist_build(const Plan& p, History* h, const POp& o, sc::ReportRequest* rq);
std::string dist_judge(const Plan& p, const std::vector<std::pair<const POp*, int>>& cons, const sc::Operation& got);
}  // namespace sim
