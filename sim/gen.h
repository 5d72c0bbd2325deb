#ifndef SIM_GEN_H_
#define SIM_GEN_H_
#include "scen.h"
namespace sim {
struct GenCfg {
  bool boxes = true;
  int max_refs = 16, max_hyps = 22;
  double large = 0.05;          // several-buffer inputs
  double huge = 0;              // thousands of records, with the optimised build only
  double noise = 0.25;          // comments, blanks, CRLF, odd white space
  double longtok = 0.03;
  bool distinct_scores = false;
  double ties = 0.5;
  bool ascii = false;           // simple names only
  bool plain = false;           // one record per line, single separators
  int min_hyps = 0, min_refs = 0;
};
void GenInputs(Rng &r, Scenario *s, const GenCfg &c);
void GenSelection(Rng &r, Scenario *s, bool groups, bool allow_empty);
void GenOpts(Rng &r, Scenario *s);
Env GenEnv(Rng &r);
Policy GenPolicy(Rng &r, int role, int op);
void AddDelivery(Rng &r, Scenario *s, bool in, bool out);
std::vector<std::string> QueriesOf(const Scenario &s);
}
#endif
