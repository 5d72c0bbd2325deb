#ifndef SIM_CHECK_H_
#define SIM_CHECK_H_
#include <map>
#include <set>
#include <string>
#include <vector>

#include "gen.h"
#include "model.h"
#include "scen.h"

namespace sim {

extern std::set<std::string> g_known;         // known findings in force

struct Stats {
  uint64_t cases = 0, execs = 0, ops = 0, steps = 0, allocs = 0, simtime = 0, switches = 0, skipped = 0;
  uint64_t disturbed = 0, eintrs = 0, shorts = 0, bytes_in = 0, bytes_out = 0;
  std::map<std::string, uint64_t> fired;      // fault kind -> times
  std::map<std::string, uint64_t> probes;     // rare conditions reached
  std::map<std::string, uint64_t> outcomes;
  std::set<uint64_t> paths;                   // distinct executions (abstracted)
  std::map<std::string, std::string> known_msgs;   // known finding -> its first message
};

struct Verdict {
  bool violated = false, skipped = false;
  std::string cls, msg;
  uint64_t hash = 0;                          // over the event logs of all runs of the case
  std::string log;                            // when verbose
  std::vector<Switch> switches;               // of the last concurrent run
};

struct Case {
  Scenario s;
  Verdict v;
  Stats *st;
  bool verbose = false;
  Result Run(const World &w);                 // tool
  Result RunBody(const World &w, Body b, void *arg);
  void Note(const World &w, const Result &r);
  void Fail(const std::string &cls, const std::string &msg);
  // A deviation that is listed among the known findings; a violation if not.
  void Known(const std::string &id, const std::string &msg);
  void Skip(const char *why);
  void Probe(const char *name, uint64_t n = 1) { if (n) st->probes[name] += n; }
};

struct Property {
  const char *id;
  Scenario (*gen)(Rng &r, Stats *st);
  void (*check)(Case *c);
};
const Property *FindProperty(const std::string &id);
extern const Property kProperties[];
extern const size_t kNumProperties;

Verdict CheckScenario(const Scenario &s, Stats *st, bool verbose = false);

// library scenarios (lib.cc)
#define DECL(ID) Scenario Gen##ID(Rng &r, Stats *st); void Check##ID(Case *c);
DECL(C01) DECL(C02) DECL(C03) DECL(C04) DECL(C05) DECL(C06) DECL(C07) DECL(C08) DECL(C09) DECL(C10) DECL(C11)
DECL(C12) DECL(C13) DECL(C14) DECL(C15) DECL(C16) DECL(C17) DECL(C18) DECL(C19)
DECL(C22) DECL(C23) DECL(C24) DECL(C25) DECL(C26) DECL(C27) DECL(C28) DECL(C29) DECL(C30)
#undef DECL

}  // namespace sim
#endif
