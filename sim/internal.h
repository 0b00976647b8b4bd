#pragma once
#include "sim.h"
namespace sim {
struct ExecResult { bool failed = false; std::string failure; uint64_t steps = 0; uint64_t hash = 0; bool wantTrace = false; std::string trace; };
void initSim();
void runOne(const Scenario &sc, ExecResult &res);
std::string dumpTrace(Kernel &k);
void noteState(uint64_t h);
extern int g_hangTicks;
}
