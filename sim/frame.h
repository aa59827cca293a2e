// Generic part of every simulation: programs, outcomes, search, minimisation,
// replay.  A component supplies gen_prog and exec_prog.
#pragma once
#include "engine.h"
#include <map>
#include <string>
#include <vector>

namespace sim {
struct Op {
  u32 kind = 0, k = 0, k2 = 0, uid = 0, arg = 0;
};
using Ops = std::vector<Op>;
struct Prog {
  u64 seed = 0;      // program seed
  u64 sched_seed = 0;
  std::string profile;
  std::map<std::string, i64> par;
  std::vector<u64> keys;
  Ops prefill;
  std::vector<std::vector<Ops>> rounds; // rounds[r][thread]
  SchedCfg cfg;
  i64 get(const char *n, i64 d = 0) const { auto it = par.find(n); return it == par.end() ? d : it->second; }
};
struct Outcome {
  bool bad = false;
  std::string cls, msg;
  std::vector<void *> stack;
  u32 tid = 0;
  u64 eh = 0, sh = 0, step = 0;
  std::vector<Dec> trace;
  Counters c;
  bool nontrivial = false;
  bool by_events = false; // single-threaded: runs are distinct by all their events, not just by synchronisation
  u64 ops = 0, lin_keys = 0, lin_inconclusive = 0, scans = 0, threw = 0;
  std::string note; // human readable history
  u64 known[16] = {}; // occurrences of listed known findings
};

// supplied by the component
extern const char *const COMPONENT;
Prog gen_prog(u64 seed, const std::string &profile);
void exec_prog(const Prog &p, Outcome &o); // between run_begin and run_end
std::string op_text(const Prog &p, const Op &op);
std::string describe_prog(const Prog &p);

// helpers for components
void gen_sched(Rng &r, SchedCfg &c, bool progress, bool allocfail, u32 len_hint);
// A behaviour that is a recorded finding: true (and counted) if the caller of the
// simulator listed it with --known, false if it must be reported.
bool known_finding(Outcome &o, const char *id);
// Set by a component: whether a violation is what a listed finding leads to.
extern bool (*forgive)(const Prog &p, Outcome &o);
void report(Outcome &o, const std::string &cls, const std::string &msg);
} // namespace sim
