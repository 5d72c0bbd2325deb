// Properties of the command-line tools.
#include <errno.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <algorithm>
#include <sstream>

#include "check.h"

namespace sim {

// ---------------------------------------------------------------------------
// Shared pieces
// ---------------------------------------------------------------------------
static std::string ActionName(int a) {
  if (a == ACT_CRASH) return "crash";
  if (a == ACT_THROW) return "throw";
  const char *n = strerrorname_np(a);
  return n ? n : std::to_string(a);
}

std::set<std::string> g_known;
void Case::Note(const World &w, const Result &r) {
  ++st->execs;
  st->ops += r.ops;
  st->steps += r.steps;
  st->allocs += r.allocs;
  st->simtime += r.simtime;
  st->switches += r.nswitch;
  st->eintrs += r.eintrs;
  st->shorts += r.shorts;
  st->bytes_in += r.bytes_in;
  st->bytes_out += r.bytes_out;
  st->outcomes[kOutcomeName[r.outcome]]++;
  if (r.eintrs) st->fired["EINTR"] += r.eintrs;
  if (r.shorts) st->fired["short transfer"] += r.shorts;
  for (size_t i = 0; i < r.fired.size(); ++i)
    if (r.fired[i]) {
      const Fault &f = w.faults[i];
      st->fired[std::string(kRoleName[f.role]) + " " + kOpName[f.op] + " " + ActionName(f.action)] += 1;
    }
  // Distinct, disturbed executions.
  bool history = !s.lib.empty() && s.prop != "C26" && s.prop != "C30";
  uint64_t ph = hash3(r.pathhash, r.outcome, r.code);
  bool disturbed = r.Fired() || r.eintrs || r.shorts || r.nswitch || history || w.env.heap_mode || w.env.fill_mode ||
                   w.env.clock_jumps || !s.damage.empty() || s.has_order || w.closed;
  ph = hash2(ph, w.closed);
  for (int i = 0; i < 3; ++i)
    if (w.closed >> i & 1) st->fired[std::string(kRoleName[R_STDIN + i]) + " closed from the start"] += 1;
  if (history) ph = hash2(ph, r.loghash);
  for (auto &d : s.damage) ph = hash2(ph, hash3(d.role * ND + d.kind, d.line, hash2(d.col, d.val)));
  if (s.has_order) for (auto *o : {&s.order_r, &s.order_h}) for (int i : *o) ph = hash2(ph, i);
  for (auto &x : r.switches) ph = hash3(ph, x.at, x.to);
  if (s.has_args) for (auto &x : s.args) for (char ch : x) ph = hash2(ph, (uint8_t)ch);
  if (disturbed) { st->paths.insert(ph); ++st->disturbed; }
  v.hash = hash2(v.hash, r.loghash);
  v.hash = hash2(v.hash, r.outcome * 1000 + r.code);
  if (verbose) v.log += "---- run: " + r.Describe() + "\n" + r.log;
  if (r.nswitch) v.switches = r.switches;
  if (r.outcome == O_SIMERR) {
    fprintf(stderr, "sim: internal error: %s\n", r.Describe().c_str());
    fprintf(stderr, "%s", Serialize(s).c_str());
    exit(3);
  }
}
Result Case::Run(const World &w0) {
  World w = w0;
  w.verbose = verbose;
  Result r = RunTool(s, w);
  Note(w, r);
  return r;
}
Result Case::RunBody(const World &w0, Body b, void *arg) {
  World w = w0;
  w.verbose = verbose;
  Result r = Execute(w, b, arg);
  Note(w, r);
  return r;
}
void Case::Fail(const std::string &cls, const std::string &msg) {
  if (v.violated) return;
  v.violated = true;
  v.cls = cls;
  v.msg = msg;
}
void Case::Known(const std::string &id, const std::string &msg) {
  if (!g_known.count(id)) return Fail(id, msg);
  st->known_msgs.insert({id, msg});
}
void Case::Skip(const char *why) {
  if (v.violated) return;
  v.skipped = true;
  st->probes[std::string("skipped: ") + why]++;
  ++st->skipped;
}

static bool Orderly(const Result &r) {
  if (r.outcome == O_ASSERT) return r.detail.compare(0, 7, "library") != 0;
  return r.outcome == O_EXIT || r.outcome == O_TERMINATE || r.outcome == O_ABORT;
}
static bool FiredHard(const World &w, const Result &r, bool (*sel)(const Fault &)) {
  for (size_t i = 0; i < r.fired.size(); ++i)
    if (r.fired[i] && sel(w.faults[i])) return true;
  return false;
}
static bool IsInput(int role) { return role == R_REFS || role == R_HYPS || role == R_QSET || role == R_QGRP || role == R_STDIN; }
static bool IsOutput(int role) { return role == R_DUMP || role == R_GRP || role == R_MRP || role == R_STDOUT; }
static bool IsDigit(char c) { return c >= '0' && c <= '9'; }

static std::string Quote(const std::string &s) {
  return s.size() > 300 ? Escape(s.substr(0, 300)) + "..." : Escape(s);
}
// Empty if equal.
static std::string DiffOutputs(const Scenario &s, const Result &a, const Result &b) {
  if (a.out != b.out) return "standard output " + Quote(a.out) + " became " + Quote(b.out);
  struct { int role; bool on; } f[3] = {{R_DUMP, s.o.dump}, {R_GRP, s.o.grp}, {R_MRP, s.o.mrp}};
  for (auto &x : f) {
    const OutFile *p = a.File(kPath[x.role]), *q = b.File(kPath[x.role]);
    bool pe = p && p->exists, qe = q && q->exists;
    if (!x.on) continue;
    if (pe != qe) return std::string(kPath[x.role]) + (pe ? " is missing" : " appeared");
    if (pe && p->data != q->data) {
      size_t i = 0;
      while (i < p->data.size() && i < q->data.size() && p->data[i] == q->data[i]) ++i;
      return std::string(kPath[x.role]) + " differs from byte " + std::to_string(i) + " on (" +
             std::to_string(p->data.size()) + " bytes, now " + std::to_string(q->data.size()) + ")";
    }
  }
  return "";
}
static std::string FaultText(const World &w, const Result &r) {
  std::string s;
  for (size_t i = 0; i < r.fired.size(); ++i)
    if (r.fired[i]) {
      const Fault &f = w.faults[i];
      s += std::string(s.empty() ? "" : ", ") + kOpName[f.op] + " of " + kRoleName[f.role] + " failing with " +
           ActionName(f.action) + (f.unit == U_BYTE ? " at byte " : " at call ") + std::to_string(f.at);
    }
  for (int i = 0; i < 3; ++i)
    if (w.closed >> i & 1) s += std::string(s.empty() ? "" : ", ") + kRoleName[R_STDIN + i] + " closed from the start";
  return s.empty() ? "no fault" : s;
}
static World CleanWorld(const Scenario &s) {
  World w = MakeWorld(s, PlainInputs(s));
  w.env = s.env;
  return w;
}
static World DisturbedWorld(const Scenario &s) {
  World w = CleanWorld(s);
  w.faults = s.faults;
  w.policies = s.policies;
  w.closed = s.closed;
  return w;
}
static bool Shut(const World &w, int role) { return role >= R_STDIN && role <= R_STDERR && w.closed >> (role - R_STDIN) & 1; }

static void BasicScenario(Rng &r, Scenario *s, GenCfg *c) {
  s->tool = r.chance(0.6) ? "icdar" : "simple";
  s->variant = r.chance(0.75) ? "dbg" : "rel";
  c->boxes = s->tool == "icdar";
  GenOpts(r, s);
}
static void RandomOutputs(Rng &r, Scenario *s, double p) {
  s->o.dump = r.chance(p);
  s->o.grp = r.chance(p);
  s->o.mrp = r.chance(p);
}
static void RandomSelection(Rng &r, Scenario *s, double p) {
  if (r.chance(p)) {
    bool g = r.chance(0.5);
    GenSelection(r, s, g, false);
    if (g && r.chance(0.15)) GenSelection(r, s, false, false);
  }
}
static void RandomBootstrap(Rng &r, Scenario *s, double p) {
  if (!r.chance(p)) return;
  Opts &o = s->o;
  o.bgap = r.chance(0.5); o.bmap = r.chance(0.5); o.bgn = r.chance(0.5); o.bmn = r.chance(0.5);
  if (!o.AnyBootstrap()) o.bmap = true;
  static const char *const al[] = {"0.05", "0.1", "0.5", "0.01", "0.32", "0.9", "1", "0.05"};
  o.alpha = al[r.below(8)];
  o.reps = 1 + r.below(r.chance(0.2) ? 60 : 16);
  o.bseed = r.chance(0.2) ? 0x12345 : r.chance(0.3) ? r.below(10) : r.next() >> (r.below(60));
}

// A position for a fault among the calls or bytes an undisturbed run makes.
static bool PlaceFault(Rng &r, const Result &r0, int role, int op, const std::vector<int> &actions, Fault *f, uint64_t bytes) {
  uint64_t n = r0.calls[role][op];
  if (n == 0) return false;
  f->role = role;
  f->op = op;
  f->unit = U_CALL;
  f->action = actions[r.below(actions.size())];
  f->sticky = r.chance(0.5);
  if ((op == OP_READ || op == OP_WRITE) && bytes > 0 && r.chance(0.45)) {
    f->unit = U_BYTE;
    f->at = r.chance(0.1) ? bytes - 1 : r.chance(0.1) ? bytes : r.below(bytes + 1);
  } else {
    f->at = r.chance(0.25) ? 0 : r.chance(0.25) ? n - 1 : r.chance(0.1) ? n : r.below(n);
  }
  return true;
}
static const std::vector<int> kOpenErr = {EACCES, ENOENT, EMFILE, ENFILE, EIO, EISDIR, ELOOP, ENOMEM, EINTR};
static const std::vector<int> kReadErr = {EIO, EISDIR, ESTALE, EAGAIN, EIO, EBADF, ETIMEDOUT};
static const std::vector<int> kWriteErr = {ENOSPC, EIO, EDQUOT, EFBIG, EPIPE, ENOSPC, EBADF, EAGAIN};
static const std::vector<int> kCloseErr = {EIO, ENOSPC, EDQUOT};
static const std::vector<int> kMetaErr = {EIO, EACCES, ENOSPC, EROFS, EDQUOT};     // rename, fsync

static const std::vector<int> &ErrorsOf(int op) {
  return op == OP_OPEN ? kOpenErr : op == OP_READ ? kReadErr : op == OP_WRITE ? kWriteErr : op == OP_CLOSE ? kCloseErr : kMetaErr;
}
static uint64_t InputBytes(const Scenario &s, int role) {
  Inputs in = PlainInputs(s);
  switch (role) {
    case R_REFS: return in.refs.size();
    case R_HYPS: case R_STDIN: return in.hyps.size();
    case R_QSET: return in.qset.size();
    case R_QGRP: return in.qgrp.size();
  }
  return 0;
}
static Result Locate(Scenario *s, Stats *st, const World &w0) {
  World w = w0;
  Case c;
  c.s = *s;
  c.st = st;
  return c.Run(w);
}
static Result LocateDisturbed(Scenario *s, Stats *st) {
  World w = DisturbedWorld(*s);
  w.faults.clear();
  return Locate(s, st, w);
}
static uint64_t FileBytes(const Result &r, int role) {
  if (role == R_STDOUT) return r.out.size();
  if (role == R_STDERR) return r.err.size();
  const OutFile *f = r.File(kPath[role]);
  return f && f->exists ? f->data.size() : 0;
}

// ---------------------------------------------------------------------------
// Comparison with the reference evaluator.
// ---------------------------------------------------------------------------
// Checks the four scores. For the simple tool both ways of numbering names are
// acceptable. Returns "" if one fits.
static std::string ScoresAgainst(const ModelOut &m, const Scores &sc, bool with_ci) {
  static const char *const nm[4] = {"gAP", "mAP", "gNDCG", "mNDCG"};
  char b[256];
  for (int i = 0; i < 4; ++i) {
    if (!Prints(sc.v[i], m.score[i].value) && !Prints(sc.v[i], m.score[i].alt)) {
      snprintf(b, sizeof b, "%s is %.9g, the definition gives %.9g", nm[i], sc.v[i], m.score[i].value);
      return b;
    }
    if (!with_ci) continue;
    if (sc.ci[i] != m.score[i].ci) return std::string(nm[i]) + (sc.ci[i] ? " has an interval nobody asked for" : " has no interval");
    if (!sc.ci[i]) continue;
    auto any = [](const std::vector<double> &v, double x) {
      for (double y : v) if (Prints(x, y)) return true;
      return false;
    };
    if (!any(m.score[i].lo, sc.lo[i]) || !any(m.score[i].hi, sc.hi[i])) {
      snprintf(b, sizeof b, "the interval of %s is [%.9g, %.9g], the basic bootstrap gives [%.9g, %.9g]", nm[i], sc.lo[i],
               sc.hi[i], m.score[i].lo[0], m.score[i].hi[0]);
      return b;
    }
  }
  return "";
}
static std::string CurveAgainst(const char *name, const std::vector<std::pair<double, double>> &want, const std::string &text) {
  std::vector<std::pair<double, double>> got;
  std::string why;
  char b[256];
  if (!ParseCurve(text, &got, &why)) return std::string(name) + ": " + why;
  if (got.size() != want.size()) {
    snprintf(b, sizeof b, "%s has %zu lines instead of %zu", name, got.size(), want.size());
    return b;
  }
  for (size_t i = 0; i < got.size(); ++i)
    if (!Prints(got[i].first, want[i].first) || !Prints(got[i].second, want[i].second)) {
      snprintf(b, sizeof b, "%s line %zu is (%.9g, %.9g) instead of (%.9g, %.9g)", name, i + 1, got[i].first, got[i].second,
               want[i].first, want[i].second);
      return b;
    }
  return "";
}
static std::string FileText(const Result &r, int role, bool *exists) {
  const OutFile *f = r.File(kPath[role]);
  *exists = f && f->exists;
  return *exists ? f->data : std::string();
}

static int Variants(const Scenario &s) { return s.tool == "simple" ? 2 : 1; }

static void ModelProbes(Case *c, const ModelOut &m) {
  c->Probe("tied scores", m.n_tie > 0);
  c->Probe("overlap of exactly one half", m.n_half > 0);
  c->Probe("hypothesis hitting several references", m.n_multi > 0);
  c->Probe("repeated hit", !m.repeated.empty());
  c->Probe("no hypotheses", m.hyps.empty());
  c->Probe("thousands of records", c->s.hyps.size() > 4000 || c->s.refs.size() > 4000);
  c->Probe("more than 65535 records", c->s.hyps.size() > 65535 || c->s.refs.size() > 65535);
  c->Probe("no references", m.n_refs_distinct == 0);
  c->Probe("several groups", m.n_groups > 1);
}

// ---------------------------------------------------------------------------
// C01
// ---------------------------------------------------------------------------
static void PickInputFault(Rng &r, Scenario *s, const Result &rl) {
  std::vector<int> roles = {R_REFS, s->hyps_stdin ? R_STDIN : R_HYPS};
  if (s->has_qgrp) { roles.push_back(R_QGRP); roles.push_back(R_QGRP); }
  else if (s->has_qset) { roles.push_back(R_QSET); roles.push_back(R_QSET); }
  for (int tries = 0; tries < 20; ++tries) {
    int role = roles[r.below(roles.size())];
    int op = r.chance(0.2) ? OP_OPEN : OP_READ;
    Fault f;
    if (!PlaceFault(r, rl, role, op, ErrorsOf(op), &f, InputBytes(*s, role))) continue;
    if (op == OP_OPEN) { f.at = 0; f.sticky = 1; }
    if (f.action == EISDIR && op == OP_READ) { f.unit = U_CALL; f.at = 0; f.sticky = 1; }
    s->faults.push_back(f);
    return;
  }
}
Scenario GenC01(Rng &r, Stats *st) {
  Scenario s;
  GenCfg c;
  BasicScenario(r, &s, &c);
  c.large = 0.2;
  c.huge = 0.0004;
  c.min_refs = 1;
  c.min_hyps = 1;
  GenInputs(r, &s, c);
  RandomOutputs(r, &s, 0.3);
  if (r.chance(0.5)) s.o.dump = true;
  s.hyps_stdin = r.chance(0.4);
  RandomSelection(r, &s, 0.5);
  RandomBootstrap(r, &s, 0.1);
  if (r.chance(0.4)) AddDelivery(r, &s, true, false);
  Result rl = LocateDisturbed(&s, st);
  if (!r.chance(0.06)) PickInputFault(r, &s, rl);
  if (r.chance(0.1)) PickInputFault(r, &s, rl);
  if (r.chance(0.06)) { s.closed = r.chance(0.8) ? 1 : 5; if (r.chance(0.5)) s.faults.clear(); }
  return s;
}
// Which records show up in the match dump (box-based tool).
static std::string Unaccounted(const Scenario &s, const Result &r) {
  if (!s.o.dump || s.tool != "icdar") return "";
  bool ex;
  std::string text = FileText(r, R_DUMP, &ex);
  if (!ex) return "";
  ModelFlags f;
  f.no_ci = true;
  ModelOut m = Evaluate(s, PlainInputs(s), f);
  if (!m.ok) return "";
  std::vector<std::string> mn, rp;
  SplitDump(text, &mn, &rp);
  size_t hyps = 0, refs = 0;
  for (auto &l : mn) {
    hyps += l.find("Hyp=") != std::string::npos;
    refs += l.find("Ref=") != std::string::npos;
  }
  std::set<std::string> reph;
  for (auto &l : rp) reph.insert(l.substr(0, l.find(", Ref=")));
  if (refs < m.n_refs_distinct)
    return std::to_string(m.n_refs_distinct - refs) + " of " + std::to_string(m.n_refs_distinct) + " references are not in the dump";
  std::set<std::string> distinct;
  for (auto &e : m.hyps) {
    std::ostringstream o;
    o << e.query << " " << e.doc << " " << e.x << " " << e.y << " " << e.w << " " << e.h << " " << e.score;
    distinct.insert("Hyp=" + o.str());
  }
  std::set<std::string> seen;
  for (auto *v : {&mn, &rp})
    for (auto &l : *v) {
      size_t a = l.find("Hyp="), b = l.find(", Ref=");
      if (a == std::string::npos) continue;
      if (b == std::string::npos) b = l.find(", Error=");
      seen.insert(l.substr(a, b - a));
    }
  for (auto &h : distinct)
    if (!seen.count(h)) return "hypothesis " + h + " is not in the dump";
  return "";
}
static bool InputFault(const Fault &f) { return IsInput(f.role) && (f.op == OP_OPEN || f.op == OP_READ); }
void CheckC01(Case *c) {
  Result r0 = c->Run(CleanWorld(c->s));
  if (!r0.Success()) return c->Skip("undisturbed run fails");
  World w = DisturbedWorld(c->s);
  Result r1 = c->Run(w);
  bool hard = FiredHard(w, r1, InputFault) || (c->s.hyps_stdin && Shut(w, R_STDIN));
  std::string ft = FaultText(w, r1);
  if (r1.Success()) {
    std::string d = DiffOutputs(c->s, r0, r1);
    if (!d.empty()) return c->Fail("success-on-partial-input", "with " + ft + " the run ends with success but " + d);
    if (hard) return c->Fail("success-despite-read-error", "the run ends with success in spite of " + ft);
    std::string u = Unaccounted(c->s, r1);
    if (!u.empty()) return c->Fail("input-not-accounted-for", "the run ends with success but " + u);
    return;
  }
  if (!Orderly(r1)) return c->Fail("disorderly-end", "with " + ft + " the run ends by " + r1.Describe());
  if (HasScoreLine(r1.out)) return c->Fail("scores-on-failure", "with " + ft + " the run fails but prints " + Quote(r1.out));
  if (hard) c->Probe("input error reported");
}

// ---------------------------------------------------------------------------
// C02
// ---------------------------------------------------------------------------
Scenario GenC02(Rng &r, Stats *) {
  Scenario s;
  GenCfg c;
  BasicScenario(r, &s, &c);
  c.large = 0.06;
  c.huge = 0.001;
  GenInputs(r, &s, c);
  RandomOutputs(r, &s, 0.1);
  s.hyps_stdin = r.chance(0.5);
  RandomSelection(r, &s, 0.35);
  if (s.o.sort == 0 || r.chance(0.3)) {
    if (s.o.sort == 0 && r.chance(0.1)) {
      // intervals do not change what the scores are
      RandomBootstrap(r, &s, 1);
      if (!s.o.collapse) s.o.collapse = true;
    }
  }
  AddDelivery(r, &s, true, true);
  if (r.chance(0.5)) s.env = GenEnv(r);
  return s;
}
void CheckC02(Case *c) {
  World w = DisturbedWorld(c->s);
  Result r = c->Run(w);
  ModelOut m[2];
  ModelFlags f;
  f.no_ci = true;
  m[0] = Evaluate(c->s, PlainInputs(c->s), f);
  if (m[0].unspecified || !m[0].ok) return c->Skip("outside the specified inputs");
  ModelProbes(c, m[0]);
  c->Probe("several input buffers", r.calls[R_REFS][OP_READ] > 3);
  if (!r.Success())
    return c->Fail("valid-input-refused", "valid inputs, delivered in pieces, end with " + r.Describe() + ": " + Quote(r.err));
  Scores sc = ParseScores(r.out);
  if (!sc.ok) return c->Fail("wrong-score-lines", sc.why);
  std::string why;
  for (int v = 0; v < Variants(c->s); ++v) {
    f.variant = v;
    if (v) m[v] = Evaluate(c->s, PlainInputs(c->s), f);
    std::string x = ScoresAgainst(m[v], sc, false);
    if (x.empty()) return;
    if (why.empty()) why = x;
  }
  c->Fail("wrong-score", why);
}

// ---------------------------------------------------------------------------
// C03
// ---------------------------------------------------------------------------
Scenario GenC03(Rng &r, Stats *st) {
  Scenario s;
  GenCfg c;
  BasicScenario(r, &s, &c);
  c.large = 0.08;
  c.huge = 0.0004;
  GenInputs(r, &s, c);
  RandomOutputs(r, &s, 0.5);
  s.hyps_stdin = r.chance(0.3);
  RandomSelection(r, &s, 0.2);
  RandomBootstrap(r, &s, 0.1);
  if (r.chance(0.4)) AddDelivery(r, &s, false, true);
  Result rl = LocateDisturbed(&s, st);
  std::vector<int> roles = {R_STDOUT};
  if (s.o.dump) roles.push_back(R_DUMP);
  if (s.o.grp) roles.push_back(R_GRP);
  if (s.o.mrp) roles.push_back(R_MRP);
  if (rl.calls[R_OTHER][OP_WRITE]) roles.push_back(R_OTHER);        // temporary files
  if (!r.chance(0.06))
    for (int n = r.chance(0.15) ? 2 : 1; n > 0; --n)
      for (int tries = 0; tries < 20; ++tries) {
        int role = roles[r.below(roles.size())];
        int op = role == R_STDOUT || r.chance(0.7) ? OP_WRITE : r.chance(0.5) ? OP_OPEN : OP_CLOSE;
        if (rl.calls[role][OP_META] && r.chance(0.5)) op = OP_META;
        Fault f;
        if (!PlaceFault(r, rl, role, op, ErrorsOf(op), &f, FileBytes(rl, role))) continue;
        if (f.unit == U_BYTE && r.chance(0.7)) { f.action = ENOSPC; f.sticky = 1; }     // disk full from here on
        s.faults.push_back(f);
        break;
      }
  if (r.chance(0.08)) { s.closed = r.chance(0.6) ? 2 : 1 + (int)r.below(7); if (r.chance(0.5)) s.faults.clear(); }
  return s;
}
static bool OutputFault(const Fault &f) { return IsOutput(f.role) && (f.op == OP_OPEN || f.op == OP_WRITE || f.op == OP_CLOSE || f.op == OP_META); }
void CheckC03(Case *c) {
  Result r0 = c->Run(CleanWorld(c->s));
  if (!r0.Success()) return c->Skip("undisturbed run fails");
  World w = DisturbedWorld(c->s);
  Result r1 = c->Run(w);
  bool hard = FiredHard(w, r1, OutputFault) || Shut(w, R_STDOUT);
  std::string ft = FaultText(w, r1);
  struct { int role; bool on; const char *n; } f[3] = {{R_DUMP, c->s.o.dump, "match dump"}, {R_GRP, c->s.o.grp, "global curve"}, {R_MRP, c->s.o.mrp, "mean curve"}};
  if (r1.Success()) {
    std::string d = DiffOutputs(c->s, r0, r1);
    if (!d.empty()) return c->Fail("success-with-incomplete-output", "with " + ft + " the run ends with success but " + d);
    if (hard) return c->Fail("success-despite-write-error", "the run ends with success in spite of " + ft);
    Scores sc = ParseScores(r1.out);
    if (!sc.ok) return c->Fail("scores-missing", "the run ends with success but " + sc.why);
    for (auto &x : f) {
      bool ex;
      std::string t = FileText(r1, x.role, &ex);
      if (x.on && !ex) return c->Fail("output-missing", std::string("the run ends with success but there is no ") + x.n);
      if (x.on && x.role == R_DUMP && (t.empty() || t.back() != '\n'))
        return c->Fail("output-missing", "the run ends with success but the match dump is torn");
      if (x.on && x.role != R_DUMP) {
        size_t n = std::count(t.begin(), t.end(), '\n'), want = c->s.o.curve < 2 ? 0 : c->s.o.curve;
        if (n != want || (!t.empty() && t.back() != '\n'))
          return c->Fail("output-missing", std::string("the run ends with success but the ") + x.n + " has " + std::to_string(n) +
                                               " of " + std::to_string(want) + " lines");
      }
    }
    return;
  }
  if (!Orderly(r1)) return c->Fail("disorderly-end", "with " + ft + " the run ends by " + r1.Describe());
  if (hard) c->Probe("output error reported");
}

// ---------------------------------------------------------------------------
// C04
// ---------------------------------------------------------------------------
Scenario GenC04(Rng &r, Stats *) {
  Scenario s;
  GenCfg c;
  BasicScenario(r, &s, &c);
  c.large = 0.05;
  c.huge = 0.0003;
  GenInputs(r, &s, c);
  RandomOutputs(r, &s, 0.6);
  s.hyps_stdin = r.chance(0.3);
  RandomSelection(r, &s, 0.35);
  RandomBootstrap(r, &s, 0.5);
  s.env = GenEnv(r);
  s.env2 = GenEnv(r);
  if (r.chance(0.3)) AddDelivery(r, &s, true, true);   // timing of the second run
  return s;
}
void CheckC04(Case *c) {
  World w = CleanWorld(c->s);
  Result r0 = c->Run(w);
  World w1 = DisturbedWorld(c->s);
  w1.faults.clear();
  w1.env = c->s.env2;
  Result r1 = c->Run(w1);
  if (r0.outcome != r1.outcome || r0.code != r1.code)
    return c->Fail("different-status", "the same evaluation ends with " + r0.Describe() + " in one environment and " + r1.Describe() + " in another");
  if (!Orderly(r0) || r0.outcome != O_EXIT) return c->Skip("undisturbed run fails");
  std::string d = DiffOutputs(c->s, r0, r1);
  if (!d.empty()) c->Fail("not-reproducible", "the same evaluation in another environment: " + d);
  c->Probe("threads switched", r0.nswitch + r1.nswitch);
}

// ---------------------------------------------------------------------------
// C05
// ---------------------------------------------------------------------------
Scenario GenC05(Rng &r, Stats *st) {
  Scenario s;
  GenCfg c;
  BasicScenario(r, &s, &c);
  c.large = 0.02;
  c.longtok = 0.3;
  c.max_refs = 10;
  c.max_hyps = 12;
  GenInputs(r, &s, c);
  RandomOutputs(r, &s, 0.4);
  s.hyps_stdin = r.chance(0.4);
  RandomSelection(r, &s, 0.5);
  RandomBootstrap(r, &s, 0.25);
  if (s.o.AnyBootstrap()) s.o.reps = 1 + r.below(4);
  Result rl = LocateDisturbed(&s, st);
  Fault f;
  f.role = R_HEAP;
  f.op = OP_ALLOC;
  f.action = ENOMEM;
  f.sticky = r.chance(0.3);
  f.at = rl.allocs ? r.below(rl.allocs) : 0;
  if (r.chance(0.2)) f.at = rl.allocs - 1 - std::min<uint64_t>(rl.allocs - 1, r.below(200));
  s.faults.push_back(f);
  if (r.chance(0.15)) { Fault g = f; g.at = f.at + 1 + r.below(50); g.sticky = 0; s.faults[0].sticky = 0; s.faults.push_back(g); }
  s.env.heap_mode = (int)r.below(4);
  s.env.fill_mode = (int)r.below(5);
  return s;
}
void CheckC05(Case *c) {
  Result r0 = c->Run(CleanWorld(c->s));
  if (!r0.Success()) return c->Skip("undisturbed run fails");
  World w = DisturbedWorld(c->s);
  Result r1 = c->Run(w);
  std::string ft = FaultText(w, r1);
  if (r1.Success()) {
    std::string d = DiffOutputs(c->s, r0, r1);
    if (!d.empty()) return c->Fail("success-with-wrong-result", "with " + ft + " the run ends with success but " + d);
    c->Probe("survived", r1.Fired());
    return;
  }
  if (!Orderly(r1)) return c->Fail("disorderly-end", "with " + ft + " the run ends by " + r1.Describe());
  if (r0.out.compare(0, r1.out.size(), r1.out))
    return c->Fail("wrong-score-before-failure", "with " + ft + " the run prints " + Quote(r1.out) + " instead of " + Quote(r0.out));
  c->Probe("failure reported", r1.Fired());
}

// ---------------------------------------------------------------------------
// C06
// ---------------------------------------------------------------------------
// Several producers write to one pipe; who writes next is the scheduler's
// choice. Every line belongs to one producer and is written in one piece.
static std::vector<int> Interleave(Rng &r, int n) {
  int p = 1 + (int)r.below(6);
  std::vector<std::vector<int>> q(p);
  bool blocks = r.chance(0.5);
  for (int i = 0; i < n; ++i) q[blocks ? i * p / std::max(n, 1) : (int)r.below(p)].push_back(i);
  if (r.chance(0.5))
    for (auto &v : q) for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]);
  std::vector<int> out;
  std::vector<size_t> at(p, 0);
  double stick = r.unit();
  int cur = (int)r.below(p);
  while ((int)out.size() < n) {
    if (at[cur] >= q[cur].size() || !r.chance(stick)) cur = (int)r.below(p);
    if (at[cur] < q[cur].size()) out.push_back(q[cur][at[cur]++]);
  }
  return out;
}
Scenario GenC06(Rng &r, Stats *) {
  Scenario s;
  GenCfg c;
  BasicScenario(r, &s, &c);
  c.plain = true;
  c.large = 0.06;
  c.huge = 0.0006;
  c.ties = 0.7;
  s.o.sort = 0;
  if (s.tool == "simple") s.o.collapse = true;
  GenInputs(r, &s, c);
  RandomOutputs(r, &s, 0.5);
  s.o.dump = false;
  s.hyps_stdin = r.chance(0.6);
  RandomSelection(r, &s, 0.3);
  s.has_order = true;
  s.order_h = Interleave(r, (int)s.hyps.size());
  if (r.chance(0.75)) s.order_r = Interleave(r, (int)s.refs.size());
  else for (size_t i = 0; i < s.refs.size(); ++i) s.order_r.push_back((int)i);
  if (!s.refs.empty() && r.chance(0.5))
    for (int k = 1 + (int)r.below(5); k > 0; --k)
      s.order_r.insert(s.order_r.begin() + r.below(s.order_r.size() + 1), (int)r.below(s.refs.size()));
  if (r.chance(0.4)) AddDelivery(r, &s, true, false);
  return s;
}
void CheckC06(Case *c) {
  const Scenario &s = c->s;
  Result r0 = c->Run(CleanWorld(s));
  if (!r0.Success()) return c->Skip("undisturbed run fails");
  Inputs in = PlainInputs(s);
  in.refs = ApplyOrder(s.refs, s.order_r);
  in.hyps = ApplyOrder(s.hyps, s.order_h);
  World w = MakeWorld(s, in);
  w.env = s.env;
  w.policies = s.policies;
  Result r1 = c->Run(w);
  if (!r1.Success()) return c->Fail("order-dependent-status", "the same records in another order end with " + r1.Describe());
  Scores a = ParseScores(r0.out), b = ParseScores(r1.out);
  if (!a.ok) return c->Skip("undisturbed output unreadable");
  if (!b.ok) return c->Fail("order-dependent-scores", b.why);
  for (int i = 0; i < 4; ++i)
    if (!Close(a.v[i], b.v[i])) return c->Fail("order-dependent-scores", "\"" + a.text[i] + "\" becomes \"" + b.text[i] + "\" when the same records arrive in another order");
  struct { int role; bool on; const char *n; } f[2] = {{R_GRP, s.o.grp, "global curve"}, {R_MRP, s.o.mrp, "mean curve"}};
  for (auto &x : f) {
    if (!x.on) continue;
    bool e;
    std::vector<std::pair<double, double>> p;
    std::string why;
    if (!ParseCurve(FileText(r0, x.role, &e), &p, &why)) continue;
    std::string d = CurveAgainst(x.n, p, FileText(r1, x.role, &e));
    if (!d.empty()) return c->Fail("order-dependent-curve", "when the same records arrive in another order, " + d);
  }
}

// ---------------------------------------------------------------------------
// C07
// ---------------------------------------------------------------------------
Scenario GenC07(Rng &r, Stats *) {
  Scenario s;
  GenCfg c;
  BasicScenario(r, &s, &c);
  c.large = 0.08;
  c.huge = 0.0006;
  c.noise = 0.6;
  c.min_refs = 1;
  c.min_hyps = 1;
  GenInputs(r, &s, c);
  s.hyps_stdin = r.chance(0.4);
  RandomSelection(r, &s, 0.2);
  if (r.chance(0.85))
    for (int n = r.chance(0.25) ? 1 + (int)r.below(4) : 1; n > 0; --n) {
      Damage d;
      d.role = r.chance(0.5) ? R_REFS : R_HYPS;
      const Lines &l = d.role == R_REFS ? s.refs : s.hyps;
      d.line = (int)(r.chance(0.2) ? l.size() - 1 : r.below(l.size()));
      d.col = (int)r.below(l[d.line].size() + 1);
      d.kind = (int)r.below(ND);
      d.val = d.kind == D_LOSE ? 1 + (int)r.below(r.chance(0.5) ? 12 : 4096) : d.kind == D_ZERO ? 1 + (int)r.below(16) : (int)r.below(256);
      if (d.kind == D_INSERT && r.chance(0.3)) d.val = " \n\r#.x"[r.below(6)];
      s.damage.push_back(d);
    }
  AddDelivery(r, &s, true, false);
  return s;
}
static bool NamesLine(const std::string &err, long line) {
  for (auto &l : Split(err)) {
    if (l.compare(0, 4, "INFO") == 0 || l.compare(0, 4, "WARN") == 0) continue;
    for (size_t i = 0; i < l.size();) {
      if (!IsDigit(l[i])) { ++i; continue; }
      size_t b = i;
      while (i < l.size() && IsDigit(l[i])) ++i;
      if (i - b < 12 && atol(l.substr(b, i - b).c_str()) == line) return true;
    }
  }
  return false;
}
static std::string Canonical(const std::string &data, bool boxes, bool scored) {
  std::ostringstream o;
  for (auto &e : ParseFile(data, boxes, scored).ev) {
    o << e.query << " " << e.doc;
    if (boxes) o << " " << e.x << " " << e.y << " " << e.w << " " << e.h;
    if (scored) { char b[40]; snprintf(b, sizeof b, " %.9g", (double)e.score); o << b; }
    o << "\n";
  }
  return o.str();
}
void CheckC07(Case *c) {
  const Scenario &s = c->s;
  bool boxes = s.tool == "icdar";
  Inputs in = PlainInputs(s);
  in.refs = ApplyDamage(s.refs, R_REFS, s.damage);
  in.hyps = ApplyDamage(s.hyps, R_HYPS, s.damage);
  ParseOut pr = ParseFile(in.refs, boxes, false), ph = ParseFile(in.hyps, boxes, true);
  if (pr.unspecified || (!pr.first_bad && ph.unspecified)) return c->Skip("damage with unspecified meaning");
  World w = MakeWorld(s, in);
  w.env = s.env;
  w.policies = s.policies;
  Result r = c->Run(w);
  int bad = pr.first_bad ? pr.first_bad : ph.first_bad;
  const char *which = pr.first_bad ? "reference" : "hypothesis";
  if (bad) {
    const std::string &data = pr.first_bad ? in.refs : in.hyps;
    std::string line = Split(data)[bad - 1];
    std::string where = std::string(which) + " line " + std::to_string(bad) + " " + Quote(line);
    c->Probe("damage makes a record malformed");
    if (r.Success()) return c->Fail("damaged-record-accepted", where + " is malformed, but the run ends with success");
    if (!Orderly(r)) return c->Fail("disorderly-end", "with malformed " + where + " the run ends by " + r.Describe());
    if (HasScoreLine(r.out)) return c->Fail("scores-on-failure", "with malformed " + where + " the run prints " + Quote(r.out));
    if (!NamesLine(r.err, bad)) return c->Fail("line-not-named", where + " is the first malformed one, standard error says " + Quote(r.err));
    return;
  }
  c->Probe("damage leaves records well-formed", !s.damage.empty());
  Inputs ci = in;
  ci.refs = Canonical(in.refs, boxes, false);
  ci.hyps = Canonical(in.hyps, boxes, true);
  World wc = MakeWorld(s, ci);
  wc.env = s.env;
  Result r0 = c->Run(wc);
  if (!r0.Success()) return c->Skip("undisturbed run fails");
  if (!r.Success()) return c->Fail("well-formed-refused", "all records are well-formed, but the run ends with " + r.Describe() + ": " + Quote(r.err));
  if (r.out != r0.out) return c->Fail("layout-changes-scores", "comments, blank lines, white space or line ends change " + Quote(r0.out) + " into " + Quote(r.out));
}

// ---------------------------------------------------------------------------
// C08
// ---------------------------------------------------------------------------
void GenC08Lib(Rng &r, Scenario *s);
void CheckC08Lib(Case *c);
Scenario GenC08(Rng &r, Stats *) {
  Scenario s;
  if (r.chance(0.25)) { GenC08Lib(r, &s); return s; }
  GenCfg c;
  BasicScenario(r, &s, &c);
  c.large = 0;
  c.plain = r.chance(0.7);
  s.o.sort = r.chance(0.1) ? 1 + (int)r.below(3) : 0;
  c.distinct_scores = !s.o.collapse;
  c.max_refs = 1 + (int)r.below(20);
  c.max_hyps = 1 + (int)r.below(24);
  bool large = r.chance(0.02);
  if (large) c.large = 1;
  GenInputs(r, &s, c);
  RandomBootstrap(r, &s, 1);
  static const char *const al[] = {"0", "1", "0.05", "0.2", "0.5", "1e-9", "0.999", "0.4", "0.1", "0.0001"};
  if (r.chance(0.7)) s.o.alpha = al[r.below(10)];
  if (large) s.o.reps = 1 + r.below(5);
  else if (r.chance(0.25)) s.o.reps = r.below(4);
  else if (r.chance(0.3)) s.o.reps = 10 * (1 + r.below(10));
  else if (s.hyps.size() < 12 && Join(s.refs).size() + Join(s.hyps).size() < 1500 && r.chance(0.03)) s.o.reps = r.chance(0.8) ? 200 + r.below(1500) : r.chance(0.3) ? 10000 : 2000 + r.below(12000);
  s.hyps_stdin = r.chance(0.3);
  RandomSelection(r, &s, 0.3);
  s.env = GenEnv(r);
  if (r.chance(0.4)) AddDelivery(r, &s, true, true);
  return s;
}
void CheckC08(Case *c) {
  if (c->s.mode == 1) return CheckC08Lib(c);
  Scenario plain = c->s;
  plain.o.bgap = plain.o.bmap = plain.o.bgn = plain.o.bmn = false;
  Case c0;
  c0.s = plain;
  c0.st = c->st;
  Result r0 = c0.Run(CleanWorld(plain));
  c->v.hash = hash2(c->v.hash, c0.v.hash);
  if (!r0.Success()) return c->Skip("undisturbed run fails");
  Scores s0 = ParseScores(r0.out);
  if (!s0.ok) return c->Skip("undisturbed output unreadable");
  World w = DisturbedWorld(c->s);
  Result r = c->Run(w);
  if (!r.Success())
    return c->Fail("interval-breaks-run", "asking for intervals (" + std::to_string(c->s.o.reps) + " repetitions, level " + c->s.o.alpha + ") makes the run end with " + r.Describe());
  Scores sc = ParseScores(r.out);
  if (!sc.ok) return c->Fail("wrong-score-lines", sc.why);
  // Resampled statistics rank by decreasing score whatever --sort says (a known
  // finding). Exactly that deviation is told apart from others below.
  const bool other_sort = c->s.o.sort != 0;
  const bool ask[4] = {c->s.o.bgap, c->s.o.bmap, c->s.o.bgn, c->s.o.bmn};
  std::string changed;
  for (int i = 0; i < 4; ++i) {
    if (sc.ci[i] != ask[i]) return c->Fail("interval-missing", sc.ci[i] ? "an interval nobody asked for: " + sc.text[i] : "no interval: " + sc.text[i]);
    if (!Close(sc.v[i], s0.v[i])) {
      std::string d = "\"" + s0.text[i] + "\" becomes \"" + sc.text[i] + "\" when intervals are computed";
      if (!ask[i] || !other_sort) return c->Fail("interval-changes-score", d);
      changed = d;
    }
    if (sc.ci[i] && sc.lo[i] > sc.hi[i] + 1e-9) return c->Fail("interval-reversed", "reversed interval in \"" + sc.text[i] + "\"");
  }
  std::string why;
  for (int v = 0; v < Variants(c->s); ++v) {
    ModelFlags f;
    f.variant = v;
    ModelOut m = Evaluate(c->s, PlainInputs(c->s), f);
    if (!m.ok) return c->Skip("outside the specified inputs");
    if (!ScoresAgainst(m, s0, false).empty()) {
      if (v + 1 == Variants(c->s) && why.empty()) return c->Skip("scores without intervals differ from the definition");
      continue;
    }
    if (other_sort) {
      f.force_desc = true;
      ModelOut d = Evaluate(c->s, PlainInputs(c->s), f);
      for (int i = 0; i < 4; ++i) if (ask[i]) m.score[i] = d.score[i];
    }
    std::string x = ScoresAgainst(m, sc, true);
    if (x.empty()) {
      if (!changed.empty())
        return c->Known("bootstrap-ignores-sort", "--sort " + std::string(c->s.o.sort == 1 ? "asc" : "none") +
                                                      " is ignored for scores with a bootstrap interval: " + changed);
      c->Probe("intervals verified");
      c->Probe("no repetitions", c->s.o.reps == 0);
      c->Probe("level 0", c->s.o.alpha == "0");
      c->Probe("single group", m.n_groups == 1);
      c->Probe("nothing to resample", m.n_groups == 0);
      return;
    }
    if (why.empty()) why = x;
  }
  if (!why.empty()) c->Fail(changed.empty() ? "wrong-interval" : "interval-changes-score", why);
}

// ---------------------------------------------------------------------------
// C09
// ---------------------------------------------------------------------------
Scenario GenC09(Rng &r, Stats *) {
  Scenario s;
  GenCfg c;
  BasicScenario(r, &s, &c);
  c.large = 0.06;
  c.huge = 0.0006;
  c.max_refs = 24;
  c.max_hyps = 30;
  GenInputs(r, &s, c);
  s.o.dump = true;
  s.hyps_stdin = r.chance(0.3);
  RandomSelection(r, &s, 0.25);
  AddDelivery(r, &s, true, true);
  return s;
}
static std::string MultisetDiff(std::vector<std::string> want, std::vector<std::string> got) {
  std::sort(want.begin(), want.end());
  std::sort(got.begin(), got.end());
  size_t i = 0, j = 0;
  while (i < want.size() || j < got.size()) {
    if (j == got.size() || (i < want.size() && want[i] < got[j])) return "is missing " + Quote(want[i]);
    if (i == want.size() || got[j] < want[i]) return "has a superfluous " + Quote(got[j]);
    ++i; ++j;
  }
  return "";
}
void CheckC09(Case *c) {
  World w = DisturbedWorld(c->s);
  Result r = c->Run(w);
  if (!r.Success()) return c->Skip("run fails");
  bool ex;
  std::string text = FileText(r, R_DUMP, &ex);
  std::vector<std::string> mn, rp;
  if (!ex || !SplitDump(text, &mn, &rp)) return c->Fail("dump-unreadable", "the match dump is missing or torn");
  std::string why;
  for (int v = 0; v < Variants(c->s); ++v) {
    ModelFlags f;
    f.no_ci = true;
    f.variant = v;
    ModelOut m = Evaluate(c->s, PlainInputs(c->s), f);
    if (!m.ok) return c->Skip("outside the specified inputs");
    if (v == 0) ModelProbes(c, m);
    std::string x = MultisetDiff(m.dump_main, mn);
    if (x.empty()) return;
    if (why.empty()) why = x;
  }
  c->Fail("wrong-accounting", "the match dump " + why);
}

// ---------------------------------------------------------------------------
// C10
// ---------------------------------------------------------------------------
Scenario GenC10(Rng &r, Stats *st) {
  Scenario s;
  GenCfg c;
  BasicScenario(r, &s, &c);
  c.large = 0.02;
  c.huge = 0.0008;
  c.plain = r.chance(0.7);
  c.min_refs = 2;
  c.min_hyps = 2;
  if (s.tool == "simple") s.o.collapse = true;
  GenInputs(r, &s, c);
  RandomOutputs(r, &s, 0.35);
  s.hyps_stdin = r.chance(0.2);
  bool g = r.chance(0.5);
  GenSelection(r, &s, g, true);
  if (g && r.chance(0.25)) GenSelection(r, &s, false, true);
  if (g && r.chance(0.08)) s.qgrp.insert(s.qgrp.begin() + r.below(s.qgrp.size() + 1), "lonely\n");
  int role = g ? R_QGRP : R_QSET;
  if (r.chance(0.7)) s.policies.push_back(GenPolicy(r, role, OP_READ));
  if (r.chance(0.4)) {
    Result rl = LocateDisturbed(&s, st);
    Fault f;
    int op = r.chance(0.15) ? OP_OPEN : OP_READ;
    if (PlaceFault(r, rl, role, op, ErrorsOf(op), &f, InputBytes(s, role))) {
      if (op == OP_OPEN) { f.at = 0; f.sticky = 1; }
      s.faults.push_back(f);
    }
  }
  return s;
}
static std::string FilterLines(const Lines &l, bool boxes, bool scored, const std::set<std::string> &keep) {
  std::string o;
  for (auto &x : l) {
    MEvent e;
    if (ClassifyLine(x, boxes, scored, &e) != L_OK || !keep.count(e.query)) continue;
    o += x;
    if (o.back() != '\n') o += '\n';
  }
  return o;
}
static std::vector<std::string> Words2(const std::string &s) {
  std::vector<std::string> v;
  std::istringstream i(s);
  std::string t;
  while (i >> t) v.push_back(t);
  return v;
}
void CheckC10(Case *c) {
  const Scenario &s = c->s;
  bool boxes = s.tool == "icdar";
  if (!s.has_qset && !s.has_qgrp) return c->Skip("no selection");
  // What the selection means.
  std::map<std::string, std::string> group;
  bool lonely = false;
  if (s.has_qgrp) {
    for (auto &l : Split(Join(s.qgrp))) {
      auto w = Words2(l);
      if (w.size() < 2) lonely = true;
      for (size_t i = 1; i < w.size(); ++i) group[w[i]] = w[0];
    }
  } else {
    for (auto &x : Words2(Join(s.qset))) group[x] = x;
  }
  std::set<std::string> keep;
  for (auto &x : group) keep.insert(x.first);
  World w = DisturbedWorld(s);
  Result r = c->Run(w);
  std::string ft = FaultText(w, r);
  if (!Orderly(r)) {
    Result rc = c->Run(CleanWorld(s));
    if (!Orderly(rc)) return c->Skip("undisturbed run fails");
    return c->Fail("disorderly-end", "with " + ft + " the run ends by " + r.Describe());
  }
  if (!r.Success()) {
    if (HasScoreLine(r.out)) return c->Fail("scores-on-failure", "with " + ft + " the run fails but prints " + Quote(r.out));
    return;
  }
  if (lonely) return c->Fail("group-without-queries-accepted", "a group line without queries is accepted");
  c->Probe("empty selection", keep.empty());
  // The same evaluation on inputs that hold nothing else.
  Scenario f = s;
  f.has_qset = f.has_qgrp = false;
  auto run = [&](const std::set<std::string> &k, bool dump) {
    Scenario g = f;
    g.o.dump = dump;
    Inputs in;
    in.refs = FilterLines(s.refs, boxes, false, k);
    in.hyps = FilterLines(s.hyps, boxes, true, k);
    World x = MakeWorld(g, in);
    x.env = s.env;
    Case cc;
    cc.s = g;
    cc.st = c->st;
    Result y = cc.Run(x);
    c->v.hash = hash2(c->v.hash, cc.v.hash);
    return y;
  };
  Result rf = run(keep, s.o.dump);
  Scores a = ParseScores(r.out), b = ParseScores(rf.out);
  if (!rf.Success() || !b.ok) return c->Skip("undisturbed run fails");
  if (!a.ok) return c->Fail("wrong-score-lines", a.why);
  std::string how = std::string(s.has_qgrp ? "query groups" : "a query set") + " (" + ft + ")";
  for (int i = 0; i < 4; ++i) {
    if (s.has_qgrp && (i & 1)) continue;
    if (!Close(a.v[i], b.v[i])) return c->Fail("selection-not-applied", "with " + how + ": \"" + a.text[i] + "\", but on the selected records alone \"" + b.text[i] + "\"");
  }
  bool e1, e2;
  if (s.o.grp) {
    std::vector<std::pair<double, double>> p;
    std::string why;
    if (ParseCurve(FileText(rf, R_GRP, &e1), &p, &why)) {
      std::string d = CurveAgainst("global curve", p, FileText(r, R_GRP, &e2));
      if (!d.empty()) return c->Fail("selection-not-applied", "with " + how + ": " + d);
    }
  }
  if (s.o.dump) {
    std::vector<std::string> m1, p1, m2, p2;
    bool ok1 = SplitDump(FileText(r, R_DUMP, &e1), &m1, &p1), ok2 = SplitDump(FileText(rf, R_DUMP, &e2), &m2, &p2);
    if (ok2) {
      std::string d = !ok1 ? "is torn" : boxes ? MultisetDiff(m2, m1) : m1.size() != m2.size() ? "has another number of matches" : "";
      if (!d.empty()) return c->Fail("selection-not-applied", "with " + how + ": the match dump " + d);
    }
  }
  if (!s.has_qgrp) {
    if (s.o.mrp) {
      std::vector<std::pair<double, double>> p;
      std::string why;
      if (ParseCurve(FileText(rf, R_MRP, &e1), &p, &why)) {
        std::string d = CurveAgainst("mean curve", p, FileText(r, R_MRP, &e2));
        if (!d.empty()) return c->Fail("selection-not-applied", "with " + how + ": " + d);
      }
    }
    c->Probe("query set verified");
    return;
  }
  // Means over groups: one evaluation per group that has any record.
  std::map<std::string, std::set<std::string>> members;
  for (auto &x : group) members[x.second].insert(x.first);
  double sum[2] = {0, 0};
  size_t n = 0;
  std::vector<std::pair<double, double>> mean;
  bool mean_ok = s.o.mrp;
  f.o.grp = s.o.mrp;
  f.o.mrp = false;
  for (auto &g : members) {
    if (FilterLines(s.refs, boxes, false, g.second).empty() && FilterLines(s.hyps, boxes, true, g.second).empty()) continue;
    Result y = run(g.second, false);
    Scores z = ParseScores(y.out);
    if (!y.Success() || !z.ok) return c->Skip("undisturbed run fails");
    sum[0] += z.v[0];
    sum[1] += z.v[2];
    ++n;
    if (s.o.mrp) {
      std::vector<std::pair<double, double>> p;
      std::string why;
      if (!ParseCurve(FileText(y, R_GRP, &e1), &p, &why)) { mean_ok = false; continue; }
      if (mean.empty()) mean = p;
      else for (size_t i = 0; i < p.size() && i < mean.size(); ++i) mean[i].second += p[i].second;
    }
  }
  for (int k = 0; k < 2; ++k) {
    double want = n ? sum[k] / n : 0;
    const int i = k ? 3 : 1;
    char t[200];
    if (std::fabs(a.v[i] - want) > 1.1e-6) {
      snprintf(t, sizeof t, "with %s: \"%s\", but the mean over the %zu groups is %.6g", how.c_str(), a.text[i].c_str(), n, want);
      return c->Fail("wrong-group-mean", t);
    }
  }
  if (mean_ok && n) {
    for (auto &p : mean) p.second /= n;
    std::vector<std::pair<double, double>> got;
    std::string why;
    std::string text = FileText(r, R_MRP, &e1);
    if (!ParseCurve(text, &got, &why)) return c->Fail("wrong-group-mean", "mean curve: " + why);
    for (size_t i = 0; i < mean.size(); ++i)
      if (got.size() != mean.size() || std::fabs(got[i].second - mean[i].second) > 1.1e-6)
        return c->Fail("wrong-group-mean", "with " + how + ": the mean curve is not the mean over the groups");
  }
  c->Probe("query groups verified");
  c->Probe("group without records", members.size() != n);
}

// ---------------------------------------------------------------------------
// C11
// ---------------------------------------------------------------------------
Scenario GenC11(Rng &r, Stats *st) {
  Scenario s;
  GenCfg c;
  BasicScenario(r, &s, &c);
  c.large = 0.03;
  c.huge = 0.0004;
  c.plain = r.chance(0.7);
  if (s.tool == "simple" && !s.o.collapse) c.distinct_scores = true;
  GenInputs(r, &s, c);
  s.o.grp = r.chance(0.7);
  s.o.mrp = !s.o.grp || r.chance(0.7);
  s.o.curve = r.chance(0.12) ? r.below(3) : r.chance(0.1) ? 2 + r.below(1500) : r.chance(0.01) ? (r.chance(0.5) ? 10000 : 5000 + r.below(15000)) : 2 + r.below(40);
  s.hyps_stdin = r.chance(0.3);
  RandomSelection(r, &s, 0.3);
  if (s.has_qset && !s.has_qgrp && r.chance(0.1)) { s.qset.clear(); s.qset.push_back("nosuchquery\n"); }
  AddDelivery(r, &s, true, true);
  if (r.chance(0.35)) {
    Result rl = LocateDisturbed(&s, st);
    int role = s.o.grp && (!s.o.mrp || r.chance(0.5)) ? R_GRP : R_MRP;
    int op = r.chance(0.8) ? OP_WRITE : r.chance(0.5) ? OP_OPEN : OP_CLOSE;
    Fault f;
    if (PlaceFault(r, rl, role, op, ErrorsOf(op), &f, FileBytes(rl, role))) s.faults.push_back(f);
  }
  return s;
}
void CheckC11(Case *c) {
  const Scenario &s = c->s;
  World w = DisturbedWorld(s);
  Result r = c->Run(w);
  if (!r.Success()) {
    // Not being able to write a curve is a reason to fail; so are faults. An
    // undisturbed failure is the business of other properties.
    if (!Orderly(r)) {
      Result rc = c->Run(CleanWorld(s));
      if (Orderly(rc)) return c->Fail("disorderly-end", "with " + FaultText(w, r) + " the run ends by " + r.Describe());
    }
    return c->Skip("run fails");
  }
  if (FiredHard(w, r, OutputFault)) return c->Fail("success-despite-write-error", "the run ends with success in spite of " + FaultText(w, r));
  Scores sc = ParseScores(r.out);
  std::string why;
  bool base = false;
  for (int v = 0; v < Variants(s); ++v) {
    ModelFlags f;
    f.no_ci = true;
    f.variant = v;
    ModelOut m = Evaluate(s, PlainInputs(s), f);
    if (!m.ok) return c->Skip("outside the specified inputs");
    // Shape first: it does not depend on what the precisions should be.
    struct { int role; bool on; const char *n; const std::vector<std::pair<double, double>> *want; } x[2] = {
        {R_GRP, s.o.grp, "global curve", &m.grp}, {R_MRP, s.o.mrp, "mean curve", &m.mrp}};
    std::string d;
    for (auto &y : x) {
      if (!y.on) continue;
      bool ex;
      std::string t = FileText(r, y.role, &ex);
      if (!ex) return c->Fail("curve-missing", std::string("there is no ") + y.n);
      std::vector<std::pair<double, double>> got;
      std::string wf;
      if (!ParseCurve(t, &got, &wf)) return c->Fail("curve-malformed", std::string(y.n) + ": " + wf);
      if (got.size() != y.want->size())
        return c->Fail("curve-incomplete", std::string(y.n) + " has " + std::to_string(got.size()) + " lines instead of " + std::to_string(y.want->size()));
      if (d.empty()) d = CurveAgainst(y.n, *y.want, t);
    }
    if (sc.ok && ScoresAgainst(m, sc, false).empty()) {
      base = true;
      if (d.empty()) { c->Probe("curves verified"); c->Probe("no group at all", m.n_groups == 0); return; }
      if (why.empty()) why = d;
    }
  }
  if (!base) return c->Skip("scores differ from the definition");
  c->Fail("wrong-curve", why);
}

// ---------------------------------------------------------------------------
// C17
// ---------------------------------------------------------------------------
Scenario GenC17(Rng &r, Stats *st) {
  Scenario s;
  GenCfg c;
  BasicScenario(r, &s, &c);
  c.large = 0.08;
  c.noise = 0.4;
  c.longtok = 0.2;
  GenInputs(r, &s, c);
  RandomOutputs(r, &s, 0.5);
  s.hyps_stdin = r.chance(0.4);
  RandomSelection(r, &s, 0.5);
  RandomBootstrap(r, &s, 0.15);
  if (r.chance(0.7)) AddDelivery(r, &s, true, true);
  if (r.chance(0.35)) {
    for (int n = 1 + (int)r.below(3); n > 0; --n) {
      Damage d;
      d.role = r.chance(0.5) ? R_REFS : R_HYPS;
      const Lines &l = d.role == R_REFS ? s.refs : s.hyps;
      if (l.empty()) continue;
      d.line = (int)r.below(l.size());
      d.col = (int)r.below(l[d.line].size() + 1);
      d.kind = (int)r.below(ND);
      d.val = (int)r.below(256);
      s.damage.push_back(d);
    }
  }
  Result rl = LocateDisturbed(&s, st);
  static const int roles[] = {R_REFS, R_HYPS, R_STDIN, R_QSET, R_QGRP, R_DUMP, R_GRP, R_MRP, R_STDOUT, R_STDERR};
  if (r.chance(0.85))
    for (int n = 1 + (int)r.below(3); n > 0; --n)
      for (int tries = 0; tries < 30; ++tries) {
        int role = roles[r.below(10)];
        int op = (int)r.below(4);
        Fault f;
        if (!PlaceFault(r, rl, role, op, ErrorsOf(op), &f, IsInput(role) ? InputBytes(s, role) : FileBytes(rl, role))) continue;
        if (r.chance(0.4)) f.sticky = 1;
        if (r.chance(0.2)) f.action = EAGAIN;
        s.faults.push_back(f);
        break;
      }
  if (r.chance(0.06)) s.closed = 1 + (int)r.below(7);
  return s;
}
void CheckC17(Case *c) {
  const Scenario &s = c->s;
  Result r0 = c->Run(CleanWorld(s));
  if (r0.outcome == O_HANG || r0.outcome == O_DEADLOCK || r0.outcome == O_MEMORY)
    return c->Fail("undisturbed-run-does-not-end", "an undisturbed run ends by " + r0.Describe());
  Inputs in = PlainInputs(s);
  in.refs = ApplyDamage(s.refs, R_REFS, s.damage);
  in.hyps = ApplyDamage(s.hyps, R_HYPS, s.damage);
  World w = MakeWorld(s, in);
  w.env = s.env;
  w.faults = s.faults;
  w.policies = s.policies;
  w.closed = s.closed;
  uint64_t input = in.refs.size() + in.hyps.size() + in.qset.size() + in.qgrp.size();
  // Every byte may cost a call when transfers are cut to one byte.
  uint64_t bytes = r0.bytes_in + r0.bytes_out + input;
  w.max_ops = 200000 + 20 * (r0.ops + bytes);
  w.max_steps = 200000000 + 50 * r0.steps;
  Result r1 = c->Run(w);
  std::string ft = FaultText(w, r1);
  if (r1.outcome == O_HANG || r1.outcome == O_DEADLOCK)
    return c->Fail("does-not-end", "with " + ft + " the run does not end: " + r1.Describe() + " (" + std::to_string(r1.ops) + " system calls, undisturbed " + std::to_string(r0.ops) + ")");
  if (r1.outcome == O_MEMORY) return c->Fail("memory-without-bound", "with " + ft + ": " + r1.Describe());
  uint64_t bound = 64 + 4 * r0.ops + 4 * (r1.bytes_in + r1.bytes_out) + 4 * r1.eintrs;
  if (r1.ops > bound)
    return c->Fail("too-many-calls", "with " + ft + " the run makes " + std::to_string(r1.ops) + " system calls, an undisturbed one " + std::to_string(r0.ops));
  c->Probe("failed orderly", r1.Failed());
  c->Probe("survived", r1.Success() && r1.Fired());
}

// ---------------------------------------------------------------------------
// C18
// ---------------------------------------------------------------------------
Scenario GenC18(Rng &r, Stats *st) {
  Scenario s;
  GenCfg c;
  BasicScenario(r, &s, &c);
  c.large = 0.02;
  c.huge = 0.0004;
  GenInputs(r, &s, c);
  RandomOutputs(r, &s, 0.4);
  s.hyps_stdin = r.chance(0.3);
  RandomSelection(r, &s, 0.4);
  RandomBootstrap(r, &s, 0.1);
  if (r.chance(0.25)) {
    Damage d;
    d.role = r.chance(0.5) ? R_REFS : R_HYPS;
    const Lines &l = d.role == R_REFS ? s.refs : s.hyps;
    if (!l.empty()) {
      d.line = (int)r.below(l.size());
      d.kind = D_SETTOK;
      d.col = 2 + (int)r.below(5);
      s.damage.push_back(d);
    }
  }
  if (r.chance(0.15)) {   // an input that cannot be opened, in both runs
    Fault f;
    f.role = r.chance(0.5) ? R_REFS : R_HYPS;
    f.op = OP_OPEN;
    f.action = ENOENT;
    f.sticky = 1;
    s.faults.push_back(f);
  }
  Result rl = LocateDisturbed(&s, st);
  for (int n = r.chance(0.2) ? 2 : 1; n > 0; --n) {
    Fault f;
    f.role = R_STDERR;
    f.op = OP_WRITE;
    f.sticky = r.chance(0.7);
    static const int e[] = {EBADF, ENOSPC, EIO, EPIPE, EAGAIN, EDQUOT, EFBIG};
    f.action = e[r.below(7)];
    uint64_t calls = rl.calls[R_STDERR][OP_WRITE];
    f.at = r.chance(0.4) || !calls ? 0 : r.below(calls);
    if (r.chance(0.3)) { f.unit = U_BYTE; f.at = r.below(rl.err.size() + 1); }
    s.faults.push_back(f);
  }
  if (r.chance(0.4)) s.policies.push_back(GenPolicy(r, R_STDERR, OP_WRITE));
  // closed: the next file that is opened gets its descriptor
  if (r.chance(0.3)) { s.closed = 4; s.faults.erase(std::remove_if(s.faults.begin(), s.faults.end(), [](const Fault &f) { return f.role == R_STDERR; }), s.faults.end()); }
  if (r.chance(0.04)) s.closed |= 1 + (int)r.below(3);
  return s;
}
void CheckC18(Case *c) {
  const Scenario &s = c->s;
  Inputs in = PlainInputs(s);
  in.refs = ApplyDamage(s.refs, R_REFS, s.damage);
  in.hyps = ApplyDamage(s.hyps, R_HYPS, s.damage);
  World w = MakeWorld(s, in);
  w.env = s.env;
  for (auto &f : s.faults) if (f.role != R_STDERR) w.faults.push_back(f);
  w.closed = s.closed & 3;
  Result r0 = c->Run(w);
  World w1 = w;
  w1.closed = s.closed;
  w1.faults = s.faults;
  w1.policies = s.policies;
  Result r1 = c->Run(w1);
  std::string ft = FaultText(w1, r1);
  if (r0.outcome != r1.outcome || r0.code != r1.code)
    return c->Fail("diagnostics-change-status", "with " + ft + " the run ends with " + r1.Describe() + " instead of " + r0.Describe());
  std::string d = DiffOutputs(s, r0, r1);
  if (!d.empty()) return c->Fail("diagnostics-change-output", "with " + ft + ": " + d);
  if (r1.Success()) {
    Scores sc = ParseScores(r1.out);
    if (!sc.ok) return c->Fail("standard-output-polluted", sc.why);
  }
  c->Probe("failing run", !r0.Success());
}

// ---------------------------------------------------------------------------
// C19
// ---------------------------------------------------------------------------
Scenario GenC19(Rng &r, Stats *st) {
  Scenario s;
  GenCfg c;
  BasicScenario(r, &s, &c);
  c.large = 0.04;
  c.huge = 0.0003;
  GenInputs(r, &s, c);
  RandomOutputs(r, &s, 0.7);
  if (!s.o.dump && !s.o.grp && !s.o.mrp) s.o.dump = true;
  s.hyps_stdin = r.chance(0.3);
  RandomSelection(r, &s, 0.2);
  RandomBootstrap(r, &s, 0.1);
  if (r.chance(0.5)) AddDelivery(r, &s, true, true);
  Result rl = LocateDisturbed(&s, st);
  for (int role : {R_DUMP, R_GRP, R_MRP})
    if (r.chance(0.4)) {
      std::string t;
      uint64_t n = FileBytes(rl, role);
      switch (r.below(4)) {
        case 0: t = std::string(r.below(2 * n + 50), 'Z'); break;
        case 1: for (uint64_t k = r.below(2 * n + 50); k; --k) t += (char)r.below(256); break;
        case 2: { const OutFile *f = rl.File(kPath[role]); if (f) t = f->data + "stale tail\n"; break; }
        case 3: { const OutFile *f = rl.File(kPath[role]); if (f) t = f->data.substr(0, r.below(n + 1)); break; }
      }
      s.old.emplace_back(role, t);
    }
  Fault f;
  f.action = ACT_CRASH;
  for (int tries = 0; tries < 50; ++tries) {
    if (r.chance(0.1)) {
      f.role = R_HEAP;
      f.op = OP_ALLOC;
      f.at = r.below(rl.allocs + 1);
      break;
    }
    static const int roles[] = {R_DUMP, R_GRP, R_MRP, R_DUMP, R_GRP, R_MRP, R_STDOUT, R_REFS, R_HYPS, R_STDERR};
    int role = roles[r.below(10)];
    if (PlaceFault(r, rl, role, (int)r.below(4), {ACT_CRASH}, &f, FileBytes(rl, role))) break;
  }
  f.sticky = 0;
  s.faults.push_back(f);
  if (r.chance(0.3)) {
    Scenario t = s;
    t.policies.clear();
    AddDelivery(r, &t, true, true);
    s.policies2 = t.policies;
  }
  return s;
}
static std::string InputsTouched(const Scenario &s, const World &w, const Result &r) {
  for (auto &f : w.files) {
    if (!IsInput(f.role)) continue;
    const OutFile *o = r.File(f.name);
    if (!o || !o->exists || o->data != f.data) return f.name + " was modified";
  }
  (void)s;
  return "";
}
void CheckC19(Case *c) {
  const Scenario &s = c->s;
  World w0 = CleanWorld(s);
  Result r0 = c->Run(w0);
  if (!r0.Success()) return c->Skip("undisturbed run fails");
  std::string t = InputsTouched(s, w0, r0);
  if (!t.empty()) return c->Fail("input-modified", t);
  World w = DisturbedWorld(s);
  for (auto &o : s.old)
    for (auto &f : w.files)
      if (f.role == o.first) { f.exists = true; f.data = o.second; }
  Result r1 = c->Run(w);
  t = InputsTouched(s, w, r1);
  if (!t.empty()) return c->Fail("input-modified", t);
  if (r1.outcome != O_CRASH) {
    if (r1.outcome != r0.outcome || r1.code != r0.code)
      return c->Fail("older-files-change-status", "over older output files the run ends with " + r1.Describe());
    std::string d = DiffOutputs(s, r0, r1);
    if (!d.empty()) return c->Fail("older-files-change-output", "over older output files: " + d);
  } else {
    c->Probe("killed");
  }
  World w2 = CleanWorld(s);
  w2.policies = s.policies2;
  std::vector<FileInit> files;
  for (auto &f : r1.files) {
    int role = R_OTHER;
    for (int k = 0; k < NROLE; ++k) if (f.first == kPath[k] && kPath[k][0]) role = k;
    files.push_back({f.first, role, f.second.data, f.second.exists});
    if (f.second.exists && IsOutput(role) && !f.second.data.empty()) c->Probe("debris left behind");
  }
  w2.files = files;
  Result r2 = c->Run(w2);
  std::string ft = FaultText(w, r1);
  if (r2.outcome != r0.outcome || r2.code != r0.code)
    return c->Fail("restart-changes-status", "after a run that was killed (" + ft + "), the next run ends with " + r2.Describe());
  std::string d = DiffOutputs(s, r0, r2);
  if (!d.empty()) return c->Fail("restart-changes-output", "after a run that was killed (" + ft + "), the next run: " + d);
  t = InputsTouched(s, w2, r2);
  if (!t.empty()) return c->Fail("input-modified", t);
}


// ---------------------------------------------------------------------------
// C22
// ---------------------------------------------------------------------------
// What a command line says, according to the usage text.
enum CmdKind { CMD_REJECT, CMD_HELP, CMD_ACCEPT, CMD_UNSPECIFIED };
static bool AllDigits(const std::string &s, size_t from) {
  return s.size() > from && s.find_first_not_of("0123456789", from) == std::string::npos;
}
// 0: not a value of the type, 1: one, 2: unspecified.
static int UintText(const std::string &s, uint64_t *v) {
  if (AllDigits(s, 0)) {
    size_t z = std::min(s.find_first_not_of('0'), s.size() - 1);
    std::string d = s.substr(z);
    if (d.size() > 20 || (d.size() == 20 && d > "18446744073709551615")) return 0;
    *v = strtoull(d.c_str(), nullptr, 10);
    return 1;
  }
  return s.size() > 1 && s[0] == '+' && AllDigits(s, 1) ? 2 : 0;
}
static int RealText(const std::string &s, double *v) {
  size_t i = 0, d = 0;
  if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
  std::string low;
  for (char c : s.substr(i)) low += (char)tolower(c);
  if (low.compare(0, 3, "nan") == 0 || low.compare(0, 3, "inf") == 0 || low.compare(0, 2, "0x") == 0) return 2;
  while (i < s.size() && IsDigit(s[i])) { ++i; ++d; }
  if (i < s.size() && s[i] == '.') for (++i; i < s.size() && IsDigit(s[i]); ++i) ++d;
  if (!d) return 0;
  if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
    size_t e = 0;
    ++i;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
    for (; i < s.size() && IsDigit(s[i]); ++i) ++e;
    if (!e) return 0;
    if (e > 2) return 2;
  }
  if (i != s.size()) return 0;
  *v = strtod(s.c_str(), nullptr);
  return 1;
}
static CmdKind ReadCommand(const std::vector<std::string> &a, const Scenario &s, Scenario *canon) {
  Scenario t = s;
  t.has_args = false;
  t.args.clear();
  t.o = Opts();
  t.o.reps = t.o.curve = 10000;
  t.has_qset = t.has_qgrp = false;
  bool help = false, unspec = false;
  std::map<std::string, bool *> bools = {{"collapse_matches", &t.o.collapse}, {"interpolated_precision", &t.o.interp},
      {"trapezoid_integral", &t.o.trap}, {"bootstrap_ci_gap", &t.o.bgap}, {"bootstrap_ci_map", &t.o.bmap},
      {"bootstrap_ci_gndcg", &t.o.bgn}, {"bootstrap_ci_mndcg", &t.o.bmn}};
  std::map<std::string, uint64_t *> nums = {{"bootstrap_samples", &t.o.reps}, {"bootstrap_seed", &t.o.bseed}, {"rp_curve_samples", &t.o.curve}};
  std::map<std::string, std::pair<int, bool *>> paths = {{"query_set", {R_QSET, &t.has_qset}}, {"query_groups", {R_QGRP, &t.has_qgrp}},
      {"dump_matches", {R_DUMP, &t.o.dump}}, {"output_grp", {R_GRP, &t.o.grp}}, {"output_mrp", {R_MRP, &t.o.mrp}}};
  size_t i = 0;
  while (i < a.size()) {
    if (a[i].size() < 2 || a[i][0] != '-') break;
    std::string n = a[i++];
    if (n == "--") break;
    if (n == "--help") { help = true; continue; }
    if (n.compare(0, 2, "--") != 0) return help ? CMD_UNSPECIFIED : CMD_REJECT;
    n = n.substr(2);
    if (bools.count(n)) {
      std::string v = i < a.size() && (a[i].empty() || a[i][0] != '-') ? a[i++] : "";
      if (v != "" && v != "true" && v != "1" && v != "false" && v != "0") return help ? CMD_UNSPECIFIED : CMD_REJECT;
      *bools[n] = v != "false" && v != "0";
    } else if (nums.count(n)) {
      int k = i < a.size() ? UintText(a[i], nums[n]) : 0;
      ++i;
      if (k == 0) return help || unspec ? CMD_UNSPECIFIED : CMD_REJECT;
      if (k == 2) unspec = true;
    } else if (n == "bootstrap_alpha") {
      double v = 0;
      int k = i < a.size() ? RealText(a[i], &v) : 0;
      if (k == 0) return help || unspec ? CMD_UNSPECIFIED : CMD_REJECT;
      if (k == 2 || v < 0 || v > 1) unspec = true;
      else t.o.alpha = a[i];
      ++i;
    } else if (n == "sort") {
      if (i == a.size()) return help || unspec ? CMD_UNSPECIFIED : CMD_REJECT;
      t.o.sort = a[i] == "desc" ? 0 : a[i] == "asc" ? 1 : a[i] == "none" ? 2 : 3;
      ++i;
    } else if (paths.count(n)) {
      if (i == a.size()) return help || unspec ? CMD_UNSPECIFIED : CMD_REJECT;
      *paths[n].second = !a[i].empty();
      if (!a[i].empty() && a[i] != kPath[paths[n].first]) unspec = true;
      ++i;
    } else {
      return help || unspec ? CMD_UNSPECIFIED : CMD_REJECT;
    }
  }
  if (unspec) return CMD_UNSPECIFIED;
  size_t np = a.size() - std::min(i, a.size());
  if (help) return np >= 1 && np <= 2 ? CMD_HELP : CMD_UNSPECIFIED;
  if (np < 1 || np > 2) return CMD_REJECT;
  if (a[i] != kPath[R_REFS] || (np == 2 && a[i + 1] != kPath[R_HYPS])) return CMD_UNSPECIFIED;
  t.hyps_stdin = np == 1;
  t.o.spell = 0;
  *canon = t;
  return CMD_ACCEPT;
}
// Everything there is: inputs by every way, and older outputs.
static World CommandWorld(const Scenario &s) {
  Scenario t = s;
  t.has_qset = t.has_qgrp = true;
  t.hyps_stdin = false;
  World w = MakeWorld(t, PlainInputs(t));
  w.stdin_data = Join(s.hyps);
  w.env = s.env;
  for (auto &o : s.old)
    for (auto &f : w.files)
      if (f.role == o.first) { f.exists = true; f.data = o.second; }
  return w;
}
Scenario GenC22(Rng &r, Stats *) {
  Scenario s;
  GenCfg c;
  BasicScenario(r, &s, &c);
  c.large = 0;
  c.max_refs = 6;
  c.max_hyps = 8;
  c.longtok = 0;
  GenInputs(r, &s, c);
  RandomOutputs(r, &s, 0.4);
  s.hyps_stdin = r.chance(0.3);
  RandomSelection(r, &s, 0.4);
  RandomBootstrap(r, &s, 0.4);
  if (s.qset.empty()) s.qset.push_back("word0\n");
  if (s.qgrp.empty()) s.qgrp.push_back("group0 word0\n");
  std::vector<std::string> a = Argv(s);
  a.erase(a.begin());
  s.has_args = true;
  static const char *const bad_opt[] = {"--bogus", "--sort_", "--Sort", "-sort", "-xsort", "--collapse", "--sort=desc", "---sort", "--query",
      "-collapse_matches", "-zcollapse_matches", "--bootstrap", "--references", "-h", "--dump_matches ", "--rp_curve_samples=5", "-1", "--\xff",
      "-=output_grp", "--collapse_matches=true", "--no_collapse_matches", "-v"};
  static const char *const good_opt[] = {"--sort", "--collapse_matches", "--bootstrap_seed", "--rp_curve_samples", "--bootstrap_samples",
      "--bootstrap_alpha", "--dump_matches", "--query_set", "--query_groups", "--output_grp", "--output_mrp", "--interpolated_precision",
      "--trapezoid_integral", "--bootstrap_ci_gap", "--bootstrap_ci_map", "--", "--help"};
  static const char *const val[] = {"true", "false", "1", "0", "5", "", "-5", "x", "1.5", "0.25", "yes", "TRUE", "False", "tru", "12abc", " 5", "5 ", "0x10",
      "18446744073709551615", "18446744073709551616", "99999999999999999999999", "-1", "-0", "1e3", "1e", "1,5", ".", "-", "--", "desc", "asc", "none", "DESC", ".5", "5.",
      "007", "1 2", "4294967297", "in/refs.txt", "in/hyps.txt", "out/dump.txt", "nan", "0.05x", "2#"};
  auto pick = [&](const char *const *t, size_t n) { return std::string(t[r.below(n)]); };
#define PICK(T) pick(T, sizeof T / sizeof *T)
  if (r.chance(0.85))
    for (int n = r.chance(0.25) ? 2 + (int)r.below(2) : 1; n > 0; --n) {
      size_t at = a.empty() ? 0 : r.below(a.size());
      switch (r.below(10)) {
        case 0: a.insert(a.begin() + at, PICK(bad_opt)); break;
        case 1: if (!a.empty()) a.erase(a.begin() + at); break;
        case 2: { std::string x = PICK(good_opt); a.insert(a.begin() + at, x); if (r.chance(0.7)) a.insert(a.begin() + at + 1, PICK(val)); break; }
        case 3: if (!a.empty()) a[at] = PICK(val); break;
        case 4: if (!a.empty()) { std::string x = a[at]; a.insert(a.begin() + r.below(a.size() + 1), x); } break;
        case 5: if (a.size() > 1) std::swap(a[at], a[r.below(a.size())]); break;
        case 6: a.push_back(r.chance(0.5) ? std::string("in/hyps.txt") : PICK(val)); break;
        case 7: if (!a.empty()) a.pop_back(); break;
        case 8: {                                             // a value of the wrong kind
          std::vector<size_t> k;
          for (size_t i = 0; i + 1 < a.size(); ++i) if (a[i].size() > 2 && a[i].compare(0, 2, "--") == 0) k.push_back(i);
          if (!k.empty()) a[k[r.below(k.size())] + 1] = PICK(val);
          break;
        }
        case 9: { std::string x = PICK(good_opt); a.insert(a.begin(), PICK(val)); a.insert(a.begin(), x); break; }
      }
    }
#undef PICK
  if (r.chance(0.06)) a.insert(a.begin(), "--help");
  s.args = a;
  for (int role : {R_DUMP, R_GRP, R_MRP}) if (r.chance(0.6)) s.old.emplace_back(role, "older contents\n");
  s.env = GenEnv(r);
  if (r.chance(0.25)) {
    Fault f;
    if (r.chance(0.6)) { f.role = R_STDERR; f.op = OP_WRITE; f.at = r.below(30); f.action = r.chance(0.5) ? EPIPE : EBADF; f.sticky = r.chance(0.7); }
    else { f.role = R_HEAP; f.op = OP_ALLOC; f.at = r.below(150); f.action = ENOMEM; f.sticky = r.chance(0.3); }
    s.faults.push_back(f);
  }
  if (r.chance(0.08)) s.closed = r.chance(0.6) ? 4 : 1 + (int)r.below(7);
  return s;
}
static std::string FilesTouched(const World &w, const Result &r) {
  for (auto &f : w.files) {
    const OutFile *o = r.File(f.name);
    bool ex = o && o->exists;
    if (ex != f.exists) return f.name + (ex ? " was created" : " was removed");
    if (ex && o->data != f.data) return f.name + " was changed";
  }
  for (auto &x : r.files) {
    if (!x.second.exists) continue;
    bool known = false;
    for (auto &f : w.files) known |= f.name == x.first;
    if (!known) return x.first + " was created";
  }
  return "";
}
void CheckC22(Case *c) {
  const Scenario &s = c->s;
  Scenario canon;
  CmdKind k = ReadCommand(s.args, s, &canon);
  if (k == CMD_UNSPECIFIED) return c->Skip("command line of unspecified meaning");
  if (k == CMD_ACCEPT && ((canon.o.AnyBootstrap() && canon.o.reps > 2000) || ((canon.o.grp || canon.o.mrp) && canon.o.curve > 20000)))
    return c->Skip("too much work");
  std::string line;
  for (auto &x : s.args) line += (line.empty() ? "" : " ") + (x.empty() || x.find(' ') != std::string::npos ? "'" + x + "'" : x);
  World w = CommandWorld(s);
  w.faults = s.faults;
  w.closed = s.closed;
  Result r = c->Run(w);
  std::string ft = FaultText(w, r);
  if (k != CMD_ACCEPT) {
    c->Probe(k == CMD_HELP ? "help asked for" : "ill-formed command line");
    if (k == CMD_REJECT && r.Success()) return c->Fail("bad-command-line-accepted", "the command line \"" + line + "\" is accepted");
    if (!Orderly(r)) return c->Fail("disorderly-end", "with the command line \"" + line + "\" and " + ft + " the run ends by " + r.Describe());
    if (k == CMD_HELP && !r.Success() && !r.Fired() && !w.closed) return c->Fail("help-refused", "with --help the run ends with " + r.Describe());
    if (!r.out.empty()) return c->Fail("rejected-but-prints", "with the command line \"" + line + "\" the run prints " + Quote(r.out));
    std::string t = FilesTouched(w, r);
    if (!t.empty()) return c->Fail("rejected-but-files-touched", "with the command line \"" + line + "\" " + t);
    for (int role = 0; role <= R_OTHER; ++role)
      if ((role < R_STDIN && r.calls[role][OP_OPEN]) || (role == R_STDIN && r.calls[role][OP_READ]))
        return c->Fail("rejected-but-files-touched", "with the command line \"" + line + "\" the run opens or reads " + kRoleName[role]);
    if (!r.Fired() && !Shut(w, R_STDERR) && r.err.empty()) return c->Fail("rejected-in-silence", "with the command line \"" + line + "\" the run fails without a word");
    return;
  }
  c->Probe("well-formed command line");
  // The same, written out in full.
  World wc = CommandWorld(s);
  Case cc;
  cc.s = canon;
  cc.st = c->st;
  Result r0 = cc.Run(wc);
  c->v.hash = hash2(c->v.hash, cc.v.hash);
  if (!r0.Success()) return c->Skip("undisturbed run fails");
  if (!r.Success()) {
    if (r.Fired() || (w.closed & ~4)) return c->Skip("run fails");
    return c->Fail("good-command-line-refused", "with the command line \"" + line + "\" the run ends with " + r.Describe() + ": " + Quote(r.err));
  }
  std::string d = DiffOutputs(canon, r0, r);
  if (!d.empty()) return c->Fail("option-misread", "with the command line \"" + line + "\", compared to the same options written out: " + d);
}

// ---------------------------------------------------------------------------
// C24
// ---------------------------------------------------------------------------
Scenario GenC24(Rng &r, Stats *st) {
  Scenario s;
  GenCfg c;
  BasicScenario(r, &s, &c);
  c.large = 0.03;
  c.huge = 0.0003;
  GenInputs(r, &s, c);
  RandomOutputs(r, &s, 0.5);
  s.hyps_stdin = r.chance(0.3);
  RandomSelection(r, &s, 0.4);
  if (s.has_qgrp && !s.qgrp.empty() && r.chance(0.15)) s.qgrp.insert(s.qgrp.begin() + r.below(s.qgrp.size() + 1), "lonely\n");
  RandomBootstrap(r, &s, 0.1);
  if (r.chance(0.4)) AddDelivery(r, &s, true, true);
  for (int role : {R_DUMP, R_GRP, R_MRP})
    if (r.chance(0.7)) s.old.emplace_back(role, std::string(1 + r.below(3), 'Z') + " older contents\n");
  if (r.chance(0.3)) {
    Damage d;
    d.role = r.chance(0.5) ? R_REFS : R_HYPS;
    const Lines &l = d.role == R_REFS ? s.refs : s.hyps;
    if (!l.empty()) {
      d.line = (int)r.below(l.size());
      d.col = (int)r.below(l[d.line].size() + 1);
      d.kind = (int)r.below(ND);
      d.val = (int)r.below(256);
      s.damage.push_back(d);
    }
  }
  if (r.chance(0.7)) {
    Result rl = LocateDisturbed(&s, st);
    static const int roles[] = {R_REFS, R_HYPS, R_STDIN, R_QSET, R_QGRP, R_DUMP, R_GRP, R_MRP, R_STDOUT, R_STDERR, R_OTHER};
    for (int n = r.chance(0.2) ? 2 : 1; n > 0; --n) {
      Fault f;
      if (r.chance(0.15)) {
        f.role = R_HEAP; f.op = OP_ALLOC; f.action = ENOMEM; f.at = r.below(rl.allocs + 1); f.sticky = r.chance(0.3);
        s.faults.push_back(f);
        continue;
      }
      for (int tries = 0; tries < 30; ++tries) {
        int role = roles[r.below(11)], op = (int)r.below(4);
        std::vector<int> act = r.chance(0.1) ? std::vector<int>{ACT_CRASH} : ErrorsOf(op);
        if (!PlaceFault(r, rl, role, op, act, &f, IsInput(role) ? InputBytes(s, role) : FileBytes(rl, role))) continue;
        if (f.action == ACT_CRASH) f.sticky = 0;
        s.faults.push_back(f);
        break;
      }
    }
  }
  if (r.chance(0.08)) s.closed = 1 + (int)r.below(7);
  return s;
}
static bool InputRejects(const Fault &f) { return IsInput(f.role) && (f.op == OP_OPEN || f.op == OP_READ) && f.action != ACT_CRASH; }
static bool OtherFault(const Fault &f) { return !InputRejects(f); }
void CheckC24(Case *c) {
  const Scenario &s = c->s;
  bool boxes = s.tool == "icdar";
  Inputs in = PlainInputs(s);
  in.refs = ApplyDamage(s.refs, R_REFS, s.damage);
  in.hyps = ApplyDamage(s.hyps, R_HYPS, s.damage);
  World w = MakeWorld(s, in);
  w.env = s.env;
  w.policies = s.policies;
  w.faults = s.faults;
  w.closed = s.closed;
  for (auto &o : s.old)
    for (auto &f : w.files)
      if (f.role == o.first) { f.exists = true; f.data = o.second; }
  Result r = c->Run(w);
  std::string ft = FaultText(w, r);
  std::string t = InputsTouched(s, w, r);
  if (!t.empty()) return c->Fail("input-modified", "with " + ft + ", " + t);
  const bool asked[NROLE] = {false, false, false, false, s.o.dump, s.o.grp, s.o.mrp};
  for (auto &f : w.files) {
    if (!IsOutput(f.role) || asked[f.role]) continue;
    const OutFile *o = r.File(f.name);
    bool ex = o && o->exists;
    if (ex != f.exists || (ex && o->data != f.data))
      return c->Fail("other-file-touched", "with " + ft + ", " + f.name + ", which nobody asked for, was " + (!ex ? "removed" : f.exists ? "changed" : "created"));
  }
  if (r.outcome == O_EXIT)
    for (auto &x : r.files) {
      if (!x.second.exists) continue;
      bool known = false;
      for (auto &f : w.files) known |= f.name == x.first;
      if (!known) return c->Fail("stray-file", "with " + ft + ", the run leaves " + x.first + " behind");
    }
  if (r.Success() || r.outcome == O_CRASH) return;
  // Rejected because of an input, and for no other reason.
  bool bad = FiredHard(w, r, InputRejects);
  if (!bad) {
    ParseOut pr = ParseFile(in.refs, boxes, false), ph = ParseFile(in.hyps, boxes, true);
    bad = pr.first_bad || ph.first_bad;
    if (s.has_qgrp) for (auto &l : s.qgrp) bad |= Words2(l).size() < 2;
  }
  if (!bad || FiredHard(w, r, OtherFault) || (w.closed & ~4)) return;
  c->Probe("rejected because of an input");
  t = FilesTouched(w, r);
  if (!t.empty()) return c->Fail("outputs-lost", "the run fails because of an input (" + (r.Fired() ? ft : std::string("malformed")) + "), but " + t);
}

// ---------------------------------------------------------------------------
// C25
// ---------------------------------------------------------------------------
Scenario GenC25(Rng &r, Stats *st) {
  Scenario s;
  GenCfg c;
  BasicScenario(r, &s, &c);
  c.large = 0.04;
  c.huge = 0.0003;
  GenInputs(r, &s, c);
  RandomOutputs(r, &s, 0.5);
  s.hyps_stdin = r.chance(0.35);
  RandomSelection(r, &s, 0.45);
  RandomBootstrap(r, &s, 0.1);
  if (r.chance(0.4)) AddDelivery(r, &s, true, true);
  if (s.has_qgrp && !s.qgrp.empty() && r.chance(0.1)) s.qgrp.insert(s.qgrp.begin() + r.below(s.qgrp.size() + 1), "lonely\n");
  if (r.chance(0.2)) {
    Damage d;
    d.role = r.chance(0.5) ? R_REFS : R_HYPS;
    const Lines &l = d.role == R_REFS ? s.refs : s.hyps;
    if (!l.empty()) {
      d.line = (int)r.below(l.size());
      d.col = (int)r.below(l[d.line].size() + 1);
      d.kind = (int)r.below(ND);
      d.val = (int)r.below(256);
      s.damage.push_back(d);
    }
  }
  if (s.damage.empty() || r.chance(0.2)) {
    Result rl = LocateDisturbed(&s, st);
    static const int roles[] = {R_REFS, R_HYPS, R_STDIN, R_QSET, R_QGRP, R_DUMP, R_GRP, R_MRP, R_STDOUT};
    for (int tries = 0; tries < 30; ++tries) {
      int role = roles[r.below(9)], op = (int)r.below(4);
      Fault f;
      if (IsInput(role) && op > OP_READ) continue;
      if (role == R_STDOUT && op != OP_WRITE) continue;
      if (!PlaceFault(r, rl, role, op, ErrorsOf(op), &f, IsInput(role) ? InputBytes(s, role) : FileBytes(rl, role))) continue;
      if (op == OP_OPEN) f.at = 0;
      s.faults.push_back(f);
      break;
    }
  }
  if (r.chance(0.06)) { s.closed = 1 + (int)r.below(3); if (r.chance(0.5)) { s.faults.clear(); s.damage.clear(); } }
  return s;
}
// Whether a diagnostic (not a mere progress message) names one of the words.
static bool Names(const std::string &err, const std::vector<std::string> &words) {
  for (auto &l : Split(err)) {
    if (l.compare(0, 4, "INFO") == 0) continue;
    std::string low;
    for (char ch : l) low += (char)tolower((unsigned char)ch);
    for (auto &x : words)
      for (size_t p = low.find(x); p != std::string::npos; p = low.find(x, p + 1)) {
        auto part = [](char ch) { return isalnum((unsigned char)ch) || ch == '_' || ch == '/'; };
        size_t e = p + x.size();
        if ((p == 0 || !part(low[p - 1])) && (e >= low.size() || !part(low[e]))) return true;
      }
  }
  return false;
}
static std::vector<std::string> CallIt(int role) {
  if (role == R_STDIN) return {"stdin", "standard input", "cin"};
  if (role == R_STDOUT) return {"stdout", "standard output", "cout"};
  return {kPath[role]};
}
void CheckC25(Case *c) {
  const Scenario &s = c->s;
  bool boxes = s.tool == "icdar";
  Result r0 = c->Run(CleanWorld(s));
  bool lonely = false;
  if (s.has_qgrp) for (auto &l : s.qgrp) lonely |= Words2(l).size() < 2;
  if (!r0.Success() && !lonely) return c->Skip("undisturbed run fails");
  Inputs in = PlainInputs(s);
  in.refs = ApplyDamage(s.refs, R_REFS, s.damage);
  in.hyps = ApplyDamage(s.hyps, R_HYPS, s.damage);
  World w = MakeWorld(s, in);
  w.env = s.env;
  w.policies = s.policies;
  w.faults = s.faults;
  w.closed = s.closed;
  Result r = c->Run(w);
  if (r.Success()) return;
  std::string ft = FaultText(w, r);
  if (!Orderly(r)) return c->Fail("disorderly-end", "with " + ft + " the run ends by " + r.Describe());
  // The run ends at the first thing that goes wrong; whichever of them that is,
  // it has to be named.
  std::vector<std::string> any;
  auto blame = [&](int role) { for (auto &x : CallIt(role)) any.push_back(x); };
  for (size_t i = 0; i < r.fired.size(); ++i) if (r.fired[i]) blame(w.faults[i].role);
  ParseOut pr = ParseFile(in.refs, boxes, false), ph = ParseFile(in.hyps, boxes, true);
  if (pr.first_bad || pr.unspecified) blame(R_REFS);
  if (ph.first_bad || ph.unspecified) blame(s.hyps_stdin ? R_STDIN : R_HYPS);
  if (lonely) blame(R_QGRP);
  if (Shut(w, R_STDIN) && s.hyps_stdin) blame(R_STDIN);
  if (Shut(w, R_STDOUT)) blame(R_STDOUT);
  if (any.empty()) return c->Skip("fails for no known reason");
  c->Probe("failure with a reason");
  if (!Names(r.err, any)) {
    std::string l;
    for (auto &x : any) l += (l.empty() ? "" : ", ") + x;
    return c->Fail("failure-not-explained", "with " + (r.Fired() || w.closed ? ft : std::string("a malformed input")) + " the run fails, but no diagnostic names " + l + ": " + Quote(r.err));
  }
}

// ---------------------------------------------------------------------------
// C26
// ---------------------------------------------------------------------------
// mode 0: repetitions of the bootstrap, 1: delivery, 2: lines that say nothing
Scenario GenC26(Rng &r, Stats *) {
  Scenario s;
  GenCfg c;
  BasicScenario(r, &s, &c);
  c.large = 0;
  c.longtok = 0;
  c.plain = true;
  c.min_refs = 1;
  c.min_hyps = 1;
  s.mode = (int)r.below(3);
  if (s.mode == 0) { c.max_refs = 8; c.max_hyps = 8; s.variant = r.chance(0.7) ? "rel" : "dbg"; }
  GenInputs(r, &s, c);
  RandomOutputs(r, &s, 0.5);
  s.hyps_stdin = r.chance(0.4);
  RandomSelection(r, &s, 0.3);
  if (s.mode == 0) {
    RandomBootstrap(r, &s, 1);
    s.o.reps = 300 + r.below(1500);
  } else {
    RandomBootstrap(r, &s, 0.2);
    if (s.mode == 1) AddDelivery(r, &s, true, true);
  }
  s.o.sort = 0;
  s.env = GenEnv(r);
  s.env.heap_mode = (int)r.below(3) == 0 ? 1 : 0;
  s.lib.push_back({(int64_t)(200 + r.below(1500)), (int64_t)r.below(1000000), (int64_t)r.below(3)});
  return s;
}
void CheckC26(Case *c) {
  const Scenario &s = c->s;
  Inputs in = PlainInputs(s);
  World w0 = MakeWorld(s, in);
  w0.env = s.env;
  Scenario p = s;
  World w1 = w0;
  double allowed = 0;
  std::string what;
  int64_t n = s.lib.empty() ? 500 : s.lib[0][0];
  Rng r((uint64_t)(s.lib.empty() ? 1 : s.lib[0][1]));
  int kind = s.lib.empty() ? 0 : (int)s.lib[0][2];
  size_t longest = 0;
  for (auto *l : {&s.refs, &s.hyps}) for (auto &x : *l) longest = std::max(longest, x.size());
  // What one resampled collection may take at most.
  size_t matches = s.refs.size() + s.hyps.size();
  double sample = 4.0 * matches * matches * (2 * 512 + 4.0 * longest) + 65536;
  if (s.mode == 0) {
    if (s.o.reps < 10) return c->Skip("too few repetitions");
    p.o.reps = 2;
    allowed = sample + 32.0 * s.o.reps;
    what = std::to_string(s.o.reps) + " repetitions instead of 2";
  } else if (s.mode == 1) {
    w1.policies = s.policies;
    allowed = 65536;
    what = "input and output in pieces";
  } else {
    std::string *f[2] = {&in.refs, &in.hyps};
    
    for (int k = 0; k < 2; ++k) {
      if (kind != 2 && kind != k) continue;
      if (!f[k]->empty() && f[k]->back() != '\n') *f[k] += '\n';
      for (int64_t i = 0; i < n; ++i) {
        std::string x;
        static const char *const junk[] = {"\n", "# a comment with several words\n", "   \t \n", "\r\n"}; x = junk[r.below(4)];
        *f[k] += x;
      }
    }
    w1 = MakeWorld(s, in);
    w1.env = s.env;
    allowed = 65536;
    what = std::to_string(n) + " lines without a record";
  }
  Case cc;
  cc.s = p;
  cc.st = c->st;
  Result a, b;
  if (s.mode == 0) { a = cc.Run(w0); b = c->Run(w0); c->v.hash = hash2(c->v.hash, cc.v.hash); }
  else { a = c->Run(w0); b = c->Run(w1); }
  if (!a.Success()) return c->Skip("undisturbed run fails");
  if (b.outcome == O_MEMORY) return c->Fail("memory-grows", "with " + what + " the run ends by " + b.Describe());
  if (!b.Success()) return c->Skip("run fails");
  c->Probe("memory compared");
  if ((double)b.peak > (double)a.peak + allowed)
    return c->Fail("memory-grows", "with " + what + " the run needs " + std::to_string(b.peak) + " bytes of memory at a time instead of " + std::to_string(a.peak));
}

// ---------------------------------------------------------------------------
// C30
// ---------------------------------------------------------------------------
// Two runs at the same time, with the same references and outputs of their own. The
// scenario describes the first; the second differs as lib[0] says. mode 0: the faults
// strike the first run, 1: the second.
enum { T_SEED, T_RATE, T_NAMES, T_BITS, T_REPS, T_BSEED, T_CURVE, T_SORT, T_HYPS, T_N };
static int64_t Tn(const Scenario &s, int i) { return s.lib.empty() || i >= (int)s.lib[0].size() || s.lib[0][i] < 0 ? 0 : s.lib[0][i]; }
static std::string SecondName(int role, int64_t names) {
  std::string n = kPath[role];
  if (!IsOutput(role)) return n == kPath[R_HYPS] ? "in/hyps-b.txt" : n;
  switch (names % 5) {
    case 0: return "other" + n.substr(n.find('/'));              // another directory
    case 1: return n + ".b";
    case 2: return n.substr(0, n.rfind('.')) + ".csv";           // another extension
    case 3: return n.substr(0, n.rfind('/') + 1) + "b-" + n.substr(n.rfind('/') + 1);
    default: return n.substr(n.find('/') + 1);                   // the current directory
  }
}
// Another subset of the same hypotheses.
static std::string SecondHyps(const Scenario &s) {
  int64_t k = Tn(s, T_HYPS);
  if (k == 0) return Join(s.hyps);
  std::string o;
  for (size_t i = 0; i < s.hyps.size(); ++i) if (hash2((uint64_t)k, i) % 3) o += s.hyps[i];
  return o;
}
static Scenario Second(const Scenario &s) {
  Scenario b = s;
  b.lib.clear();
  b.faults.clear();
  b.policies = s.policies2;
  b.env = s.env2;
  uint64_t bits = (uint64_t)Tn(s, T_BITS);
  Opts &o = b.o;
  auto flip = [&](int i, bool *v) { if (bits >> i & 1) *v = !*v; };
  flip(0, &o.collapse); flip(1, &o.interp); flip(2, &o.trap);
  flip(3, &o.dump); flip(4, &o.grp); flip(5, &o.mrp);
  flip(6, &o.bgap); flip(7, &o.bmap); flip(8, &o.bgn); flip(9, &o.bmn);
  if (bits >> 10 & 1) b.has_qset = false;
  if (bits >> 11 & 1) b.has_qgrp = false;
  flip(12, &b.hyps_stdin);
  if (bits >> 13 & 1) b.variant = b.variant == "dbg" ? "rel" : "dbg";
  if (o.AnyBootstrap()) {
    if (Tn(s, T_REPS)) o.reps = (uint64_t)Tn(s, T_REPS);
    if (Tn(s, T_BSEED)) o.bseed = (uint64_t)Tn(s, T_BSEED);
  }
  if (Tn(s, T_CURVE)) o.curve = (uint64_t)Tn(s, T_CURVE);
  o.sort = (int)((o.sort + Tn(s, T_SORT)) % 3);
  std::vector<std::string> a = Argv(b);
  b.has_args = true;
  b.args.assign(a.begin() + 1, a.end());
  for (auto &x : b.args)
    for (int role = 0; role < NROLE; ++role)
      if (x == kPath[role] && !x.empty() && (IsOutput(role) || (role == R_HYPS && Tn(s, T_HYPS)))) { x = SecondName(role, Tn(s, T_NAMES)); break; }
  return b;
}
// The worlds of the two runs; both see all files.
static void Worlds30(const Scenario &s, const Scenario &b, World *wa, World *wb) {
  Inputs in = PlainInputs(s);
  *wa = MakeWorld(s, in);
  in.hyps = SecondHyps(s);
  *wb = MakeWorld(b, in);
  wa->env = s.env;
  wb->env = b.env;
  if (wa->env.entropy == wb->env.entropy) ++wb->env.entropy;
  wb->proc = 1;
  for (auto &f : wb->files)
    if (IsOutput(f.role) || (f.role == R_HYPS && Tn(s, T_HYPS))) f.name = SecondName(f.role, Tn(s, T_NAMES));
  for (auto &o : s.old)
    for (World *w : {wa, wb})
      for (auto &f : w->files)
        if (f.role == o.first) { f.exists = true; f.data = o.second; }
  std::vector<FileInit> all = wa->files;
  for (auto &f : wb->files) {
    bool known = false;
    for (auto &x : all) known |= x.name == f.name;
    if (!known) all.push_back(f);
  }
  wa->files = wb->files = all;
  wa->policies = s.policies;
  wb->policies = b.policies;
  (s.mode & 1 ? wb : wa)->faults = s.faults;
}
Scenario GenC30(Rng &r, Stats *st) {
  Scenario s;
  GenCfg c;
  BasicScenario(r, &s, &c);
  c.large = 0.03;
  c.max_refs = 10;
  c.max_hyps = 14;
  GenInputs(r, &s, c);
  RandomOutputs(r, &s, 0.6);
  s.hyps_stdin = r.chance(0.25);
  RandomSelection(r, &s, 0.4);
  RandomBootstrap(r, &s, 0.25);
  s.env = GenEnv(r);
  s.env2 = GenEnv(r);
  if (r.chance(0.5)) s.env2.clock_base = s.env.clock_base;       // started at the same moment
  std::vector<int64_t> v(T_N, 0);
  v[T_SEED] = (int64_t)(r.next() >> 2);
  static const int rates[] = {20, 100, 300, 512, 800, 1000};
  v[T_RATE] = rates[r.below(6)];
  v[T_NAMES] = (int64_t)r.below(5);
  if (r.chance(0.75)) {
    uint64_t bits = 0;
    for (int i = 0; i < 14; ++i)
      if (r.chance(i >= 6 && i < 10 ? 0.1 : 0.3)) bits |= 1ull << i;
    v[T_BITS] = (int64_t)bits;
    if (r.chance(0.3)) v[T_REPS] = 1 + (int64_t)r.below(20);
    if (r.chance(0.3)) v[T_BSEED] = 1 + (int64_t)r.below(1000);
    if (r.chance(0.3)) v[T_CURVE] = 2 + (int64_t)r.below(30);
    if (r.chance(0.2)) v[T_SORT] = 1 + (int64_t)r.below(2);
    if (r.chance(0.4)) v[T_HYPS] = 1 + (int64_t)r.below(1000);
  }
  s.lib.push_back(v);
  if (r.chance(0.4)) AddDelivery(r, &s, true, true);
  if (r.chance(0.4)) {
    std::vector<Policy> keep = s.policies;
    s.policies.clear();
    AddDelivery(r, &s, true, true);
    s.policies2 = s.policies;
    s.policies = keep;
  }
  for (int role : {R_DUMP, R_GRP, R_MRP})
    if (r.chance(0.3)) s.old.emplace_back(role, std::string(1 + r.below(3), 'Z') + " older contents\n");
  s.mode = (int)r.below(2);
  if (r.chance(0.45)) {
    World w[2];
    Scenario b = Second(s);
    Worlds30(s, b, &w[0], &w[1]);
    const Scenario &who = s.mode & 1 ? b : s;
    Case cc;
    cc.s = who;
    cc.st = st;
    Result rl = cc.Run(w[s.mode & 1]);
    static const int roles[] = {R_REFS, R_HYPS, R_STDIN, R_QSET, R_QGRP, R_DUMP, R_GRP, R_MRP, R_STDOUT, R_STDERR, R_OTHER};
    for (int tries = 0; tries < 30; ++tries) {
      int role = roles[r.below(11)], op = (int)r.below(4);
      Fault f;
      if (r.chance(0.1)) {
        f.role = R_HEAP; f.op = OP_ALLOC; f.action = ENOMEM; f.at = r.below(rl.allocs + 1); f.sticky = r.chance(0.3);
      } else {
        std::vector<int> act = r.chance(0.4) ? std::vector<int>{ACT_CRASH} : ErrorsOf(op);
        if (!PlaceFault(r, rl, role, op, act, &f, IsInput(role) ? InputBytes(s, role) : rl.bytes_out)) continue;
      }
      if (f.action == ACT_CRASH) f.sticky = 0;
      s.faults.push_back(f);
      break;
    }
  }
  return s;
}
void CheckC30(Case *c) {
  const Scenario &s = c->s;
  Scenario b = Second(s);
  World w[2];
  Worlds30(s, b, &w[0], &w[1]);
  for (auto &x : w) x.verbose = c->verbose;
  Case cb;
  cb.s = b;
  cb.st = c->st;
  cb.verbose = c->verbose;
  Result alone[2] = {c->Run(w[0]), cb.Run(w[1])};
  std::vector<Result> both = RunTogether(s, w[0], b, w[1], (uint64_t)Tn(s, T_SEED), (uint64_t)Tn(s, T_RATE));
  c->Note(w[0], both[0]);
  cb.Note(w[1], both[1]);
  c->v.hash = hash2(c->v.hash, cb.v.hash);
  if (c->verbose) c->v.log += cb.v.log;
  c->Probe("handovers between runs", both[0].nswitch);
  if (alone[0].Success() && alone[1].Success()) c->Probe("both runs succeed");
  static const char *const kWhich[] = {"first", "second"};
  std::string ft;
  for (int p = 0; p < 2; ++p)
    if (alone[p].Fired()) ft = std::string(", with ") + FaultText(w[p], alone[p]) + " in the " + kWhich[p] + " run";
  for (int p = 0; p < 2; ++p) {
    const Result &a = alone[p], &t = both[p];
    std::string who = std::string("at the same time as another run") + ft + ", the " + kWhich[p] + " run ";
    if (t.outcome != a.outcome || t.code != a.code)
      return c->Fail("runs-interfere", who + "ends by " + t.Describe() + ", but alone by " + a.Describe());
    if (t.out != a.out) return c->Fail("runs-interfere", who + "prints " + Quote(t.out) + ", but alone " + Quote(a.out));
    if (t.err != a.err) return c->Fail("runs-interfere", who + "says " + Quote(t.err) + ", but alone " + Quote(a.err));
  }
  std::set<std::string> names;
  for (auto *r : {&alone[0], &alone[1], &both[0]}) for (auto &f : r->files) names.insert(f.first);
  auto state = [](const OutFile *f) { return f && f->exists ? "+" + f->data : std::string(); };
  for (auto &n : names) {
    std::string was, now = state(both[0].File(n)), by[2];
    for (auto &f : w[0].files) if (f.name == n && f.exists) was = "+" + f.data;
    for (int p = 0; p < 2; ++p) by[p] = state(alone[p].File(n));
    if (by[0] != was && by[1] != was && by[0] != by[1])
      return c->Fail("runs-share-a-file", "both of two runs with outputs of their own" + ft + " write " + n);
    std::string want = by[0] != was ? by[0] : by[1];
    if (now == want) continue;
    auto desc = [](const std::string &x) { return x.empty() ? std::string("does not exist") : "has " + std::to_string(x.size() - 1) + " bytes"; };
    return c->Fail("runs-interfere", "after two runs at the same time" + ft + ", " + n + " is not as after one of them alone: it " + desc(now) + ", then it " + desc(want));
  }
}

}  // namespace sim
