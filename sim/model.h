// Reference evaluator, written from the documented definitions and sharing no
// code with the system under test.
#ifndef SIM_MODEL_H_
#define SIM_MODEL_H_
#include <string>
#include <vector>

#include "scen.h"

namespace sim {

// Classification of one stored line.
enum LineClass { L_SKIP, L_OK, L_BAD, L_UNSPECIFIED };
struct MEvent {
  std::string query, doc;             // doc: document (boxes) or location (simple)
  uint32_t x = 0, y = 0, w = 0, h = 0;
  float score = 0;
  long qid = 0, lid = 0;              // identifiers (simple tool)
  int src = -1;                       // record number in its file
};
LineClass ClassifyLine(const std::string &line, bool boxes, bool scored, MEvent *ev);

struct ParseOut {
  std::vector<MEvent> ev;
  int first_bad = 0;                  // 1-based; 0: none
  bool unspecified = false;           // an unspecified line at or before the first bad one
  size_t n_lines = 0;
};
ParseOut ParseFile(const std::string &data, bool boxes, bool scored);

struct MMatch {
  bool has_hyp = false, has_ref = false;
  MEvent hyp, ref;
  bool fp = false, fn = false;
};
struct MScore {
  double value = 0, alt = 0;           // alt: tied gains in single precision
  bool ci = false;
  // acceptable bounds (several when the quantile index is on a rounding edge)
  std::vector<double> lo, hi;
};
struct ModelOut {
  bool ok = false;                    // false: the run must fail
  bool unspecified = false;
  std::vector<MEvent> hyps;           // ranked
  std::vector<MMatch> matches, repeated;
  std::vector<int> served;            // for each ranked hypothesis: 1 in matches, 0 only repeated
  MScore score[4];                    // gAP mAP gNDCG mNDCG
  bool has_grp = false, has_mrp = false;
  std::vector<std::pair<double, double>> grp, mrp;
  std::vector<std::string> dump_main, dump_rep;
  size_t n_groups = 0, n_refs_distinct = 0, n_half = 0, n_tie = 0, n_multi = 0;
};
// variant: order in which the simple tool numbers the names of a record
// (0: location first, 1: query first); boxes: ignored.
// force_desc: rank matches by decreasing score, whatever --sort says (matching
// still follows --sort).
struct ModelFlags { int variant = 0; bool no_ci = false; bool force_desc = false; };
ModelOut Evaluate(const Scenario &s, const Inputs &in, const ModelFlags &f);

// Parsed standard output.
struct Scores {
  bool ok = false;                    // exactly the four lines
  std::string why;
  double v[4], lo[4], hi[4];
  bool ci[4];
  std::string text[4];
};
Scores ParseScores(const std::string &out);
bool HasScoreLine(const std::string &out);

bool Close(double a, double b);       // both printed with six digits, the same value
bool Prints(double printed, double value);   // `value` printed with six digits (or more)
bool ParseCurve(const std::string &text, std::vector<std::pair<double, double>> *v, std::string *why);
bool SplitDump(const std::string &text, std::vector<std::string> *main, std::vector<std::string> *rep);

}  // namespace sim
#endif
