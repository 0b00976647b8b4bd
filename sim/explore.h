// Driver of a check: enumerates every execution of every scenario within its deviation bound.
#pragma once
#include "sim.h"
#include <string>
#include <vector>
namespace sim {
struct CheckSpec {
    std::string property;
    std::vector<Scenario> scenarios;
    std::string rule;                     // what a state is
    std::vector<std::string> assumptions;
};
bool thorough();
std::string libPath(const std::string &name); // program build, e.g. libPath("node_small")
int runCheck(CheckSpec spec, int argc, char **argv);
}
