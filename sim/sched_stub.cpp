#include "core.hpp"
#include "exec.hpp"
namespace sim { void sched_point(int) {} RunResult execute_threads(const Plan &, bool) { return RunResult(); } }
