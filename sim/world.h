// The simulated system: trace format, generator and interpreter.
#pragma once
#include "rng.h"
#include <cstdint>
#include <cstdio>
#include <map>
#include <string>
#include <unordered_set>
#include <vector>

enum Kind {
    MINE, FORK, BSTEP, BRUN, BPROVE, BVERIFY, BBAD, BCOMMIT, BREOPEN, BCRASH, BNEWCRASH, BDISKERR, BREADERR, BDAMAGE,
    BALLOC, BQALLOC, SEND, DELIVER, SYNC, CQUERY, CATTACK, CPROVE, CTRIM, CPRUNE, CREBUILD, CLOCAL, CBAD, CALLOC, WIRE, GIANT, BCOMPARE, REUSE, PAR, FLOOD,
    NKINDS
};
extern const char* const kind_name[NKINDS];

struct Step {
    int kind;
    uint32_t a, b, c;
};
struct Cfg {
    uint32_t nb = 1, nc = 1;   // bridges, clients
    uint32_t files = 1;        // bit i: bridge i keeps its forest in a file
    uint32_t maxleaves = 16;
    uint32_t maxadd = 6;
    uint32_t delstyle = 0;
    uint32_t collide = 0;      // leaf hashes share their first 8 bytes
    uint32_t readd = 0;        // a deleted leaf may come back
    uint32_t policy = 0;       // what clients remember, 2 bits each
    uint32_t heal = 1;         // end with a fault-free phase
};
struct Trace {
    int prop = 1;
    uint64_t seed = 0;
    Cfg cfg;
    std::vector<Step> steps;
};
std::string to_text(const Trace& t);
bool from_text(const std::string& s, Trace& t);
Trace generate(int prop, uint64_t seed, bool thorough);

struct Stats {
    uint64_t runs = 0, foreign = 0, steps = 0, noop = 0, sim_blocks = 0, nontrivial = 0;
    uint64_t kinds[NKINDS] = {};
    uint64_t checks[33] = {};
    std::map<std::string, uint64_t> probes;
    std::unordered_set<uint64_t> states;   // distinct system states reached
    std::unordered_set<uint64_t> runhash;  // distinct non-trivial executions
};
extern Stats stats;

struct Result {
    enum V { OK, VIOLATION, FOREIGN } v = OK;
    std::string cls, msg;
    uint64_t hash = 0;
    bool nontrivial = false;
};
// Runs one trace to its end; a pure function of the trace, the scratch directory's emptiness and the code under test.
Result run_trace(const Trace& t, const std::string& scratch, FILE* log);
