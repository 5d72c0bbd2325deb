// A scenario: one complete, self-contained description of a simulated case.
#ifndef SIM_SCEN_H_
#define SIM_SCEN_H_
#include <map>
#include <set>
#include <string>
#include <vector>

#include "rt.h"

namespace sim {

struct Opts {
  bool collapse = true, interp = true, trap = true;
  int sort = 0;                       // 0 desc, 1 asc, 2 none, 3 unknown word
  bool bgap = false, bmap = false, bgn = false, bmn = false;
  uint64_t reps = 20, bseed = 0x12345;
  std::string alpha = "0.05";
  uint64_t curve = 11;
  bool dump = false, grp = false, mrp = false;
  uint64_t spell = 0;                 // how the command line is written
  bool AnyBootstrap() const { return bgap || bmap || bgn || bmn; }
};

// Stored bytes that changed. Addressed by line and column, so that dropping
// other lines keeps it in place.
enum DamageKind { D_FLIP, D_DELETE, D_INSERT, D_TRUNC, D_ZERO, D_LOSE, D_DUPTOK, D_DROPTOK, D_SETTOK, D_EXTRATOK, ND };
struct Damage {
  int role = 0, line = 0, col = 0, kind = 0, val = 0;
};

typedef std::vector<std::string> Lines;

struct Scenario {
  std::string prop, tool = "icdar", variant = "dbg";
  uint64_t seed = 0;
  Opts o;
  bool hyps_stdin = false, has_qset = false, has_qgrp = false;
  Lines refs, hyps, qset, qgrp;       // raw lines, terminators included
  std::vector<int> order_r, order_h;  // alternative arrival orders (indices)
  bool has_order = false;
  int closed = 0;                        // standard descriptors closed from the start
  std::vector<Damage> damage;
  std::vector<std::pair<int, std::string>> old;   // older contents of outputs, by role
  std::vector<Fault> faults;          // of the disturbed run
  std::vector<Policy> policies;       // of the disturbed run
  std::vector<Policy> policies2;      // of the run after a restart
  Env env, env2;
  int mode = 0;                       // property-specific variation
  std::vector<std::vector<int64_t>> lib;   // library histories
  bool has_args = false;              // the command line is given word by word
  std::vector<std::string> args;
};

std::string Serialize(const Scenario &s);
bool Parse(const std::string &text, Scenario *s, std::map<std::string, std::string> *extra);

std::string Escape(const std::string &s);
std::string Unescape(const std::string &s);

std::string Join(const Lines &l);
Lines Split(const std::string &text);                 // keeps terminators
std::string ApplyOrder(const Lines &l, const std::vector<int> &order);
std::string ApplyDamage(const Lines &l, int role, const std::vector<Damage> &d);

// File names used by every simulated run (no digits in them).
extern const char *const kPath[NROLE];

std::vector<std::string> Argv(const Scenario &s);

struct Inputs { std::string refs, hyps, qset, qgrp; };
Inputs PlainInputs(const Scenario &s);

// World of a run of the tool without disturbance.
World MakeWorld(const Scenario &s, const Inputs &in);
// argv + program
Result RunTool(const Scenario &s, const World &w);
// Two runs at the same time.
std::vector<Result> RunTogether(const Scenario &a, const World &wa, const Scenario &b, const World &wb, uint64_t seed, uint64_t rate);
std::string OutputName(int role);

}  // namespace sim
#endif
