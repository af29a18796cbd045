#pragma once
#include "scenario.hpp"
#include "sim.hpp"
Scenario genScenario(const std::string& family, uint64_t seed, const Scenario& overrides);
// whether a shortened list of operations is still a legal workload
bool validOps(const std::string& family, const std::vector<std::string>& ops);
