#pragma once
#include "plan.hpp"
namespace sim {
struct GenCfg { unsigned fault_run_pct = 50; bool returning = false; int min_steps = 8, max_steps = 48; int min_clients = 1, max_clients = 0; };
Plan gen_arith(const std::string & prop, uint64_t seed, const std::vector<World *> & ws, const GenCfg & cfg);
Plan gen_stream(const std::string & prop, uint64_t seed, const std::vector<World *> & ws, const GenCfg & cfg);
Plan gen_expr(const std::string & prop, uint64_t seed, const std::vector<World *> & ws, const GenCfg & cfg);
Plan gen_checked(const std::string & prop, uint64_t seed, const std::vector<World *> & ws, const GenCfg & cfg);
i128 pick_value(Rng & g, const TypeDesc & t);
}
