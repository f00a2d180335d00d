// A plan is everything a run depends on.  It is generated from a seed, can be
// written to a file and read back, and executing it draws no randomness at all.
#pragma once
#include "core.hpp"
#include <map>

namespace sim {

enum { K_OWN = 2, SHARED = 2, K = 3 };     // slots per type and client: 0,1 own; 2 shared and constant

struct Fault {
    int alloc_from = 0, alloc_count = 0;   // allocation fault: from the n-th allocation (0: none), how many (-1: all)
    int hact = -1;                         // handler action (HAct), -1: the run's default
    int token = 0;
    int ctx = 0;                           // where the program calls from: 0 plainly, 1 a destructor during unwinding, 2 a catch block
};
struct Step {
    int client = 0; int op = NOPSTEP;
    int ta = 0, ia = 0, tb = 0, ib = 0, tc = 0, ic = 0;
    i128 imm = 0; int mode = 0;
    Fault f;
};
struct Init { int client, type, slot; i128 v; };
struct Switch { long at; int to; };        // at the n-th schedule point, go on with client 'to'

// simulated stream device of a client
struct DevFault { int dir; long at; int kind; int len; };   // dir 0: reading, 1: writing; at character; kind see devices.hpp
struct StreamCfg {
    bool wide = false;
    std::string text;                      // what the device delivers (input)
    std::vector<int> chunks;               // sizes of the device's buffers, cyclic
    std::vector<DevFault> faults;
    int base = 10; unsigned flags = 0;     // formatting flags, see devices.hpp
    unsigned iexc = 0, oexc = 0;           // exception masks (1 eof, 2 fail, 4 bad)
    int grouping = 0;                      // numpunct locale
    int seekable = 0;
};
struct Plan {
    std::string property, world;
    uint64_t seed = 0;
    int clients = 1;
    int threaded = 0;
    int hact = H_THROW_SIM;
    std::vector<Init> init;
    std::vector<Step> steps;
    std::vector<StreamCfg> streams;        // per client
    std::vector<Switch> switches;
    std::string to_text() const;
    static bool from_text(const std::string & s, Plan & p, std::string & err);
};

struct Violation {
    bool found = false;
    std::string property, sig, text;       // sig: what kind of violation, used to keep minimisation on track
    long step = -1;
};
struct RunStats {                          // coverage of one run
    uint64_t steps = 0, ops = 0, reports = 0, faults_alloc = 0, faults_handler = 0, faults_dev = 0, reent = 0, retries = 0;
    uint64_t switches = 0, points = 0, simtime = 0;
};
struct RunResult {
    Violation v;
    uint64_t hash = 0;                     // of the complete trace
    uint64_t shape = 0;                    // of the abstract trace (states reached)
    std::string trace;                     // only when asked for
    RunStats st;
};
} // sim
