// Properties decided on histories of library operations.
#include <errno.h>
#include <stdio.h>
#include <string.h>

#include <algorithm>
#include <sstream>

#include "check.h"
#include "libspec.h"

namespace sim {

std::string JobFile(size_t job, int kind) {
  static const char *const k[3] = {"refs", "hyps", "curve"};
  return "job" + std::to_string(job) + "." + k[kind];
}
static const char *const kBench[10] = {"refs.txt", "more-refs.txt", "hyps.txt", "more-hyps.txt", "bad.txt", "missing.txt",
                                       "names.txt", "scored-names.txt", "curve-a.txt", "curve-b.txt"};
const char *BenchFile(int64_t k) { return kBench[k % 10]; }

static World LibWorld(const Scenario &s) {
  World w;
  w.env = s.env;
  w.cpu_seconds = 30;
  return w;
}
static Result RunLib(Case *c, const World &w, const Scenario &s, int what, int only = -1) {
  LibArgs a = {&s, what, only};
  return c->RunBody(w, lib_main, &a);
}
// Ends that no history may have.
static bool EndsBadly(Case *c, const Result &r) {
  if (!r.vclass.empty()) { c->Fail(r.vclass, r.vmsg); return true; }
  if (r.outcome == O_EXIT && r.code == 0) return false;
  c->Fail("disorderly-end", "the history ends by " + r.Describe());
  return true;
}
static void Counters(Case *c, const Result &r) {
  c->Probe("failed operation without effect", r.counters[0]);
  c->Probe("failed operation with full effect", r.counters[1]);
  c->Probe("operation out of memory", r.counters[2]);
  c->Probe("scorer threw", r.counters[3]);
  c->Probe("repeated matches", r.counters[4]);
  c->Probe("identifiers exhausted", r.counters[5]);
  c->Probe("output error", r.counters[6]);
  c->Probe("library intervals verified", r.counters[7]);
  c->st->fired["heap alloc ENOMEM"] += r.counters[0] + r.counters[1] + r.counters[2];
  c->st->fired["callback throw"] += r.counters[3];
}
static int64_t AllocFault(Rng &r, double p, int64_t far) {
  if (!r.chance(p)) return -1;
  return r.chance(0.6) ? (int64_t)r.below(4) : (int64_t)r.below(far);
}

// ---------------------------------------------------------------------------
// C12
// ---------------------------------------------------------------------------
Scenario GenC12(Rng &r, Stats *) {
  Scenario s;
  s.env = GenEnv(r);
  s.mode = r.chance(0.55) ? 0 : 1 + (int)r.below(3);
  int n = 3 + (int)r.below(r.chance(0.2) ? 60 : 22);
  double pf = r.chance(0.3) ? 0 : r.unit() * 0.6;
  // few distinct events, so that histories return to them
  std::vector<int64_t> pool;
  for (int i = 2 + (int)r.below(12); i > 0; --i) {
    if (!pool.empty() && r.chance(0.4)) {               // a close relative
      int64_t b = pool[r.below(pool.size())];
      pool.push_back((b + (r.chance(0.5) ? 6 : r.chance(0.5) ? 1 : 3 * (int64_t)r.below(40))) % kBoxCodes);
    } else {
      pool.push_back((int64_t)r.below(kBoxCodes));
    }
  }
  for (int i = 0; i < n; ++i) {
    int64_t c = pool[r.below(pool.size())];
    int op = r.chance(0.5) ? 0 : r.chance(0.5) ? 1 : r.chance(0.15) ? 2 : r.chance(0.3) ? 4 : 3;
    std::vector<int64_t> v = {op, (int64_t)(r.chance(0.75) ? 0 : 1), c, AllocFault(r, pf, op == 4 ? 40 : 12), (int64_t)r.chance(0.2)};
    if (op == 4) for (int k = (int)r.below(8); k > 0; --k) v.push_back(pool[r.below(pool.size())]);
    s.lib.push_back(v);
  }
  if (r.chance(0.02)) {                                 // a collection of hundreds, or of more than 2^16
    const int64_t count = r.chance(0.02) ? 65000 + (int64_t)r.below(3000) : 200 + (int64_t)r.below(500);
    if (count > 1000 && s.lib.size() > 6) s.lib.resize(6);
    for (int i = 1 + (int)r.below(3); i > 0; --i) {
      const int64_t kind = i > 2 ? 0 : (int64_t)r.below(3);
      s.lib.insert(s.lib.begin() + r.below(s.lib.size() + 1), {5, 0, (int64_t)r.below(7), -1, 0, 1 + (int64_t)r.below(2), count, kind});
    }
  }
  return s;
}
void CheckC12(Case *c) {
  Result r = RunLib(c, LibWorld(c->s), c->s, 12);
  Counters(c, r);
  EndsBadly(c, r);
}

// ---------------------------------------------------------------------------
// C13
// ---------------------------------------------------------------------------
Scenario GenC13(Rng &r, Stats *) {
  Scenario s;
  s.env = GenEnv(r);
  s.mode = r.chance(0.3) ? 3 : r.chance(0.5) ? 0 : 1 + (int)r.below(2);
  if (s.mode == 3) {
    int n = 2 + (int)r.below(30);
    double pf = r.chance(0.5) ? 0 : 0.3;
    // events that differ in one field from another one of the history
    static const int64_t stride[] = {1, 3, 6, 30, 90, 360}, radix[] = {3, 2, 5, 3, 4, 4};
    std::vector<int64_t> pool(1, r.below(kBoxCodes));
    int64_t more = (int64_t)r.below(80);
    auto code = [&]() {
      int64_t c = pool[r.below(pool.size())];
      if (r.chance(0.15)) c = (int64_t)r.below(kBoxCodes);
      else if (r.chance(0.5)) {
        int f = (int)r.below(6);
        int64_t old = c / stride[f] % radix[f];
        c += ((old + 1 + (int64_t)r.below(radix[f] - 1)) % radix[f] - old) * stride[f];
      }
      if (pool.size() < 12) pool.push_back(c);
      return c;
    };
    for (int i = 0; i < n; ++i) {
      if (r.chance(0.4)) more = (int64_t)r.below(80);
      int64_t kind = (int64_t)(r.chance(0.3) ? 7 : r.below(12)), c = code(), d = code();
      s.lib.push_back({kind, (int64_t)r.below(5), (int64_t)r.below(5), c, d, AllocFault(r, pf, 8), (int64_t)r.chance(0.2), more});
    }
    return s;
  }
  s.lib.push_back({(int64_t)r.below(3)});
  std::vector<int64_t> pool;
  for (int i = 2 + (int)r.below(10); i > 0; --i)
    pool.push_back(!pool.empty() && r.chance(0.5) ? (pool[r.below(pool.size())] + 6 * (int64_t)r.below(5)) % kBoxCodes : (int64_t)r.below(kBoxCodes));
  int n = 2 + (int)r.below(4);
  for (int i = 0; i < n; ++i) {
    int64_t kind = r.chance(0.45) ? 0 : r.chance(0.5) ? 1 : 2;
    int64_t nr = r.below(8), nh = r.below(10);
    if (r.chance(0.1)) nr = 0;
    std::vector<int64_t> v = {kind, kind == 1 ? (int64_t)(r.chance(0.3) ? r.below(10) : r.below(30 + 12 * (nr + nh))) : (int64_t)r.below(r.chance(0.5) ? 3 : 14),
                              (int64_t)(kind == 1 && r.chance(0.3)), nr, 0};
    for (int64_t k = 0; k < nr; ++k) v.push_back(pool[r.below(pool.size())]);
    for (int64_t k = 0; k < nh; ++k) { v.push_back(pool[r.below(pool.size())]); v.push_back((int64_t)r.below(6)); }
    s.lib.push_back(v);
  }
  if (s.lib.size() > 1) s.lib.back()[0] = 0;        // the last one runs to its end
  return s;
}
static std::string LineOf(const std::string &out, const std::string &pre) {
  size_t at = 0;
  while (at < out.size()) {
    size_t e = out.find('\n', at);
    if (e == std::string::npos) e = out.size();
    if (out.compare(at, pre.size(), pre) == 0) return out.substr(at, e - at);
    at = e + 1;
  }
  return "";
}
void CheckC13(Case *c) {
  const Scenario &s = c->s;
  Result r = RunLib(c, LibWorld(s), s, 13);
  Counters(c, r);
  if (EndsBadly(c, r) || s.mode == 3) return;
  for (size_t i = 1; i < s.lib.size(); ++i) {
    if (s.lib[i].size() < 5) continue;
    std::string pre = "eval " + std::to_string(i) + " ";
    std::string got = LineOf(r.out, pre);
    if (got == pre + "aborted") { c->Probe("evaluation aborted"); continue; }
    Result f = RunLib(c, LibWorld(s), s, 13, (int)i);
    if (EndsBadly(c, f)) return;
    std::string want = LineOf(f.out, pre);
    if (got != want)
      return c->Fail("matcher-remembers", "evaluation " + std::to_string(i) + " of a used matcher gives " + got + ", of a new one " + want);
    c->Probe("evaluation compared with a new matcher");
  }
}

// ---------------------------------------------------------------------------
// C14
// ---------------------------------------------------------------------------
Scenario GenC14(Rng &r, Stats *) {
  Scenario s;
  s.env = GenEnv(r);
  s.mode = (int)r.below(6);
  s.lib.push_back({(int64_t)r.below(3)});
  bool fill = s.mode != 1 && s.mode != 3 && s.mode != 5 && r.chance(0.35);
  int64_t names = fill ? 120 + r.below(40) : 2 + r.below(r.chance(0.1) ? 400 : 40);
  if (fill && s.mode == 2) names = 250 + r.below(30);
  int n = fill ? (int)(names * 1.4) : 3 + (int)r.below(r.chance(0.1) ? 500 : 60);
  double pf = r.chance(0.3) ? 0 : r.unit() * (fill ? 0.1 : 0.5);
  int64_t next = 0;
  for (int i = 0; i < n; ++i) {
    int64_t k = fill && r.chance(0.75) ? (next++) % names : (int64_t)r.below(names);
    s.lib.push_back({(int64_t)r.below(4), k, AllocFault(r, pf, 8), (int64_t)r.chance(0.2), (int64_t)r.below(names)});
  }
  return s;
}
void CheckC14(Case *c) {
  Result r = RunLib(c, LibWorld(c->s), c->s, 14);
  Counters(c, r);
  EndsBadly(c, r);
}

// ---------------------------------------------------------------------------
// C15
// ---------------------------------------------------------------------------
Scenario GenC15(Rng &r, Stats *) {
  Scenario s;
  s.env = GenEnv(r);
  static const int mem[] = {0, 1, 8, 40, 200, 1000, 6000};
  static const int ops[] = {0, 4, 20, 100, 400};
  s.env.sched_mem = mem[r.below(7)];
  s.env.sched_op = ops[r.below(5)];
  if (!s.env.sched_mem && !s.env.sched_op) s.env.sched_op = 100;
  s.env.sched_seed = r.next();
  s.lib.push_back({(int64_t)r.below(8)});
  int n = 2 + (int)r.below(3);
  int base = (int)r.below(4);
  bool same = r.chance(0.4);
  for (int i = 0; i < n; ++i) {
    int64_t type = r.chance(0.7) ? base : (int64_t)r.below(4);
    if (same && i && type == s.lib[1][0] && r.chance(0.6)) { s.lib.push_back(s.lib[1]); continue; }
    int64_t nr = 1 + r.below(6);
    std::vector<int64_t> v = {type, (int64_t)r.below(1000), nr};
    for (int64_t k = 0; k < nr; ++k) v.push_back((int64_t)r.below(type == 1 ? 63 : kBoxCodes));
    if (type < 2)
      for (int64_t k = 1 + r.below(7); k > 0; --k) {
        v.push_back(r.chance(0.6) ? v[3 + r.below(nr)] : (int64_t)r.below(type == 1 ? 63 : kBoxCodes));
        v.push_back((int64_t)r.below(6));
      }
    if (type < 2 && r.chance(0.12)) v[3 + r.below(nr)] = -1;     // a malformed record
    s.lib.push_back(v);
  }
  if (r.chance(0.3))
    for (int k = 0; k < 2; ++k) { Policy p = GenPolicy(r, R_OTHER, OP_READ); s.policies.push_back(p); break; }
  return s;
}
static void JobFiles(const Scenario &s, World *w) {
  for (size_t i = 1; i < s.lib.size(); ++i) {
    const std::vector<int64_t> &op = s.lib[i];
    if (op.size() < 3) continue;
    std::ostringstream refs, hyps;
    size_t nr = (size_t)op[2], j = 3;
    auto line = [&](std::ostream &o, int64_t c) {
      if (c < 0) o << "torn";
      else if (op[0] == 1) o << CodeName("word", c % 7) << " " << CodeName("loc", c / 7 % 9);
      else {
        CodeBox b = DecodeBox(c);
        o << CodeName("query", b.q) << " " << CodeName("page", b.d) << " " << b.x << " " << b.y << " " << b.w << " " << b.h;
      }
    };
    for (; j < op.size() && j - 3 < nr; ++j) { line(refs, op[j]); refs << "\n"; }
    for (; j + 1 < op.size(); j += 2) { line(hyps, op[j]); hyps << " " << op[j + 1] / 8.0 << "\n"; }
    w->files.push_back({JobFile(i, 0), R_OTHER, refs.str(), true});
    w->files.push_back({JobFile(i, 1), R_OTHER, hyps.str(), true});
    w->files.push_back({JobFile(i, 2), R_OTHER, "", false});
  }
}
static std::string JobResult(const std::string &out, size_t i) {
  std::string a = "job " + std::to_string(i) + ":\n";
  size_t p = out.find(a);
  if (p == std::string::npos) return "(no result)";
  p += a.size();
  size_t e = out.find("\njob ", p - 1);
  return out.substr(p, e == std::string::npos ? std::string::npos : e + 1 - p);
}
void CheckC15(Case *c) {
  const Scenario &s = c->s;
  World w = LibWorld(s);
  JobFiles(s, &w);
  World w0 = w;
  w0.env.explicit_sched = 1;
  w0.env.switches.clear();
  std::vector<Result> alone(s.lib.size());
  for (size_t i = 1; i < s.lib.size(); ++i) {
    alone[i] = RunLib(c, w0, s, 15, (int)i);
    if (!alone[i].Success()) return c->Skip("evaluation fails alone");
  }
  w.policies = s.policies;
  w.races = true;
  Result r = RunLib(c, w, s, 15);
  c->v.switches = r.switches;
  if (r.outcome == O_TERMINATE || !r.Success())
    return c->Fail("disorderly-end", "evaluations that succeed alone end together by " + r.Describe());
  for (size_t i = 1; i < s.lib.size(); ++i) {
    std::string a = JobResult(alone[i].out, i), b = JobResult(r.out, i);
    if (a != b) {
      size_t k = 0;
      while (k < a.size() && k < b.size() && a[k] == b[k]) ++k;
      return c->Fail("evaluations-interfere", "evaluation " + std::to_string(i) + " differs from byte " + std::to_string(k) + " of its result on when others run at the same time: " +
                                                  Escape(a.substr(k > 30 ? k - 30 : 0, 120)) + " became " + Escape(b.substr(k > 30 ? k - 30 : 0, 120)));
    }
    const OutFile *p = alone[i].File(JobFile(i, 2)), *q = r.File(JobFile(i, 2));
    if (p && q && (p->exists != q->exists || p->data != q->data))
      return c->Fail("evaluations-interfere", "evaluation " + std::to_string(i) + " writes another curve when others run at the same time");
  }
  if (r.race) return c->Fail("data-race", "two evaluations use the same memory at the same time: " + r.Race());
  c->Probe("no switch happened", r.nswitch == 0);
  c->Probe("more than 20 switches", r.nswitch > 20);
  c->Probe("more than 500 switches", r.nswitch > 500);
}

// ---------------------------------------------------------------------------
// C16
// ---------------------------------------------------------------------------
Scenario GenC16(Rng &r, Stats *) {
  Scenario s;
  s.env = GenEnv(r);
  if (s.env.heap_mode == 2) s.env.heap_mode = 1;
  int n = 3 + (int)r.below(22);
  double pf = r.chance(0.25) ? 0 : r.unit() * 0.5;
  // start with something to work on
  if (r.chance(0.85)) {
    s.lib.push_back({0, 0, 0, 0, -1, 0});
    s.lib.push_back({1, 0, 2, 0, -1, 0});
    if (r.chance(0.6)) s.lib.push_back({6, 0, 0, 1, -1, 0});
  }
  for (int i = 0; i < n; ++i) {
    int64_t op = (int64_t)r.below(29);
    s.lib.push_back({op, (int64_t)r.below(6), (int64_t)r.below(10), (int64_t)r.below(48), AllocFault(r, pf, 60), (int64_t)r.chance(0.15)});
  }
  if (r.chance(0.4)) {
    Fault f;
    f.role = r.chance(0.7) ? R_REFS : R_OTHER;
    f.op = r.chance(0.6) ? OP_READ : r.chance(0.5) ? OP_WRITE : r.chance(0.5) ? OP_OPEN : OP_CLOSE;
    if (f.op == OP_WRITE) f.role = R_OTHER;
    f.at = r.below(6);
    f.sticky = r.chance(0.4);
    f.action = f.op == OP_WRITE ? ENOSPC : EIO;
    s.faults.push_back(f);
  }
  return s;
}
void CheckC16(Case *c) {
  const Scenario &s = c->s;
  World w = LibWorld(s);
  auto add = [&](int k, int role, const char *text) { w.files.push_back({kBench[k], role, text, true}); };
  add(0, R_REFS, "a page 0 0 4 4\nb page-with-a-name-too-long-for-the-small-buffer 4 4 6 6\n# none\n\nb page 1 1 9 9\na page 0 0 4 4\n");
  add(1, R_REFS, "word-with-a-name-too-long-for-the-small-buffer p 0 0 4 4\na page 2 2 4 4\n");
  add(2, R_REFS, "a page 0 0 4 4 0.5\na page 1 1 3 3 0.25\nb page 1 1 9 9 0.5\nc page 1 1 9 9 1\nb page-with-a-name-too-long-for-the-small-buffer 4 4 6 6 2\n");
  add(3, R_REFS, "word-with-a-name-too-long-for-the-small-buffer p 0 0 4 4 1\nword-with-a-name-too-long-for-the-small-buffer p 0 0 3 4 1\n");
  add(4, R_REFS, "a page 0 0 4 4 0.5\nb page-with-a-name-too-long-for-the-small-buffer 4 x 6 6 0.5\n");
  add(6, R_REFS, "a b\nword-with-a-name-too-long-for-the-small-buffer location-with-a-name-too-long\n");
  add(7, R_REFS, "a b 0.5\nword-with-a-name-too-long-for-the-small-buffer location-with-a-name-too-long 1\n");
  w.files.push_back({kBench[8], R_OTHER, "", false});
  w.files.push_back({kBench[9], R_OTHER, "", false});
  w.faults = s.faults;
  w.policies = s.policies;
  Result r = RunLib(c, w, s, 16);
  Counters(c, r);
  EndsBadly(c, r);
}

// ---------------------------------------------------------------------------
// C27
// ---------------------------------------------------------------------------
std::string ReadFileName(size_t step) { return "read" + std::to_string(step) + ".txt"; }
ReadRec DecodeRead(int reader, int64_t c) {
  ReadRec r = {};
  if (c < 0) {                                         // no record
    static const char *const junk[] = {"", "   \t ", "# comment", "  # q page 1 2 3 4", "#", "\t"};
    static const char *const bad[] = {"q", "q page 0 0 4", "q page 0 x 4 4 1", "q page 0 0 4 4 0.5 7", "q page 1 1 1 1 1 1 1", "q p 3-"};
    int64_t k = -c - 1;
    r.malformed = k % 16 >= 12;
    r.text = r.malformed ? bad[k / 16 % 6] : junk[k % 6];
    if (r.malformed && reader == 2 && k / 16 % 6 == 5) r.text = "only-one-field-here";
    return r;
  }
  r.good = true;
  static const float sc[] = {0, 0.5f, -1.25f, 3, 1e6f, 0.125f};
  r.score = sc[c / 7 % 6];
  std::ostringstream o;
  const char *gap = c % 5 == 0 ? "\t " : " ";
  if (reader < 2) {
    r.box = DecodeBox(c);
    r.a = CodeName("query", r.box.q);
    r.b = CodeName("page", r.box.d);
    o << (c % 11 == 0 ? "  " : "") << r.a << gap << r.b << gap << r.box.x << " " << r.box.y << gap << r.box.w << " " << r.box.h;
  } else {
    r.a = CodeName("w", c % 9);
    r.b = CodeName(c % 4 ? "loc" : "w", c / 9 % 9);
    o << (c % 11 == 0 ? " \t" : "") << r.a << gap << r.b;
  }
  if (reader & 1) o << gap << r.score;
  if (c % 13 == 0) o << " \t ";
  r.text = o.str();
  return r;
}
std::string ReadText(const std::vector<int64_t> &op) {
  std::string t;
  for (size_t j = 8; j < op.size(); ++j) {
    t += DecodeRead((int)op[0], op[j]).text;
    if (op[6] == 2) t += "\r";
    if (j + 1 < op.size() || op[6] != 1) t += "\n";
  }
  return t;
}
Scenario GenC27(Rng &r, Stats *) {
  Scenario s;
  s.env = GenEnv(r);
  int n = 2 + (int)r.below(9);
  double pf = r.chance(0.3) ? 0 : r.unit() * 0.5, pb = r.chance(0.3) ? 0 : 0.05, pj = r.unit() * 0.4;
  int base = (int)r.below(4);
  for (int i = 0; i < n; ++i) {
    if (r.chance(0.1)) { s.lib.push_back({4 + (int64_t)r.below(2), (int64_t)r.below(2), 0, 0, AllocFault(r, pf, 4), 0, 0, 0}); continue; }
    int64_t reader = r.chance(0.6) ? base : (int64_t)r.below(4), del = (int64_t)r.below(5);
    std::vector<int64_t> v = {reader, (int64_t)r.below(2), del, -1, -1, (int64_t)r.chance(0.2), (int64_t)r.below(3), 1 + (int64_t)r.below(r.chance(0.5) ? 4 : 40)};
    int k = (int)r.below(r.chance(0.1) ? 60 : 9);
    for (int j = 0; j < k; ++j)
      v.push_back(r.chance(pj) ? -1 - (int64_t)(r.below(12) + 16 * r.below(6)) : r.chance(pb) ? -1 - (int64_t)(12 + r.below(4) + 16 * r.below(6)) : (int64_t)r.below(kBoxCodes));
    size_t len = ReadText(v).size();
    if ((del == 2 || del == 3) && r.chance(0.4)) v[3] = r.chance(0.2) ? (int64_t)len : (int64_t)r.below(len + 1);
    if (v[3] < 0) v[4] = AllocFault(r, pf, 10 + 8 * (k + 1));
    s.lib.push_back(v);
  }
  if (s.lib.back()[0] < 4) s.lib.back()[3] = s.lib.back()[4] = -1;
  if (r.chance(0.5)) s.policies.push_back(GenPolicy(r, R_REFS, OP_READ));
  return s;
}
void CheckC27(Case *c) {
  const Scenario &s = c->s;
  World w = LibWorld(s);
  for (size_t i = 0; i < s.lib.size(); ++i)
    if (s.lib[i].size() >= 8 && s.lib[i][0] < 4 && s.lib[i][2] == 0) w.files.push_back({ReadFileName(i), R_REFS, ReadText(s.lib[i]), true});
  w.policies = s.policies;
  Result r = RunLib(c, w, s, 27);
  Counters(c, r);
  c->Probe("list read and compared", r.counters[8]);
  c->Probe("failed read reported", r.counters[9]);
  EndsBadly(c, r);
}

// ---------------------------------------------------------------------------
// C28
// ---------------------------------------------------------------------------
Scenario GenC28(Rng &r, Stats *) {
  Scenario s;
  s.env = GenEnv(r);
  int n = 4 + (int)r.below(r.chance(0.2) ? 60 : 24);
  double pf = r.chance(0.4) ? 0 : r.unit() * 0.4;
  const int64_t rows = 5 * 4 * 3 * 7 * 4 * 81;
  std::vector<int64_t> pool;
  for (int i = 3 + (int)r.below(20); i > 0; --i) pool.push_back((int64_t)r.below(rows));
  static const int weight[14] = {4, 2, 4, 3, 6, 2, 3, 2, 3, 3, 1, 1, 2, 2};
  for (int i = 0; i < n; ++i) {
    int64_t op = 0;
    if (i > 1 || r.chance(0.2)) {
      int k = (int)r.below(38);
      while (k >= weight[op]) k -= weight[op++];
    }
    std::vector<int64_t> v = {op, (int64_t)r.below(3600), (int64_t)r.below(3600), (int64_t)r.below(1 << 20), AllocFault(r, pf, 80), (int64_t)r.chance(0.2), 0};
    if (op == 0) {
      v[4] = -1;
      bool plain = r.chance(0.3);
      for (int k = (int)r.below(r.chance(0.1) ? 150 : 14); k > 0; --k) {
        int64_t x = r.chance(0.7) ? pool[r.below(pool.size())] : (int64_t)r.below(rows);
        v.push_back(plain ? x / 5 * 5 + (int64_t)r.below(3) : x);
      }
    }
    s.lib.push_back(v);
  }
  if (r.chance(0.01)) {                                 // lists of hundreds of matches, or of more than 2^16
    const bool huge = r.chance(0.04);
    if (huge && s.lib.size() > 7) s.lib.resize(7);
    for (auto &v : s.lib)
      if (v[0] == 0 && v.size() > 7) v[6] = huge ? 60000 + (int64_t)r.below(20000) : 200 + (int64_t)r.below(2000);
      else if (v[0] == 9) v[3] &= ~(int64_t)480;
  }
  if (r.chance(0.3)) {
    Fault f;
    f.role = R_OTHER;
    f.op = r.chance(0.6) ? OP_WRITE : r.chance(0.5) ? OP_OPEN : OP_CLOSE;
    f.unit = f.op == OP_WRITE && r.chance(0.5) ? U_BYTE : U_CALL;
    f.at = r.below(f.unit == U_BYTE ? 600 : 5);
    f.sticky = r.chance(0.3);
    static const int err[] = {ENOSPC, EIO, EDQUOT};
    f.action = f.op == OP_OPEN ? EMFILE : err[r.below(3)];
    s.faults.push_back(f);
  }
  if (r.chance(0.3)) {
    Fault f;
    f.role = R_CB;
    f.op = OP_CALL;
    f.at = r.below(20);
    f.action = ACT_THROW;
    s.faults.push_back(f);
  }
  if (r.chance(0.3)) s.policies.push_back(GenPolicy(r, R_OTHER, OP_WRITE));
  return s;
}
void CheckC28(Case *c) {
  const Scenario &s = c->s;
  World w = LibWorld(s);
  for (int k = 8; k < 10; ++k) w.files.push_back({BenchFile(k), R_OTHER, "", false});
  w.faults = s.faults;
  w.policies = s.policies;
  Result r = RunLib(c, w, s, 28);
  Counters(c, r);
  c->Probe("curves compared", r.counters[8]);
  c->Probe("statistics compared", r.counters[9]);
  c->Probe("sampled curves compared", r.counters[10]);
  c->Probe("curve files compared", r.counters[11]);
  EndsBadly(c, r);
}

// ---------------------------------------------------------------------------
// C23
// ---------------------------------------------------------------------------
Scenario GenC23(Rng &r, Stats *) {
  Scenario s;
  s.env = GenEnv(r);
  std::vector<int64_t> head = {(int64_t)r.below(4), (int64_t)r.below(6)};
  for (int i = 0; i < 4; ++i) head.push_back((int64_t)(r.chance(0.5) ? r.below(4) : r.below(8)));
  double pf = r.chance(0.4) ? 0 : r.unit() * 0.4;
  if (head[1] == 5) head[1] = 4;
  s.lib.push_back(head);
  std::vector<int64_t> pool;
  for (int i = 2 + (int)r.below(14); i > 0; --i) {      // in other places of the same page, mostly
    int64_t c = (int64_t)r.below(kBoxCodes);
    if (!pool.empty() && r.chance(0.7)) c = (pool[r.below(pool.size())] + 6 * (int64_t)r.below(60)) % kBoxCodes;
    pool.push_back(c + (head[1] == 4 ? kBoxCodes * (int64_t)r.below(4) : 0));
  }
  auto code = [&]() { return r.chance(0.9) ? pool[r.below(pool.size())] : (int64_t)r.below(kBoxCodes); };
  int n = 2 + (int)r.below(r.chance(0.3) ? 24 : 8);
  for (int i = 0; i < n; ++i) {
    int op = r.chance(0.5) ? 0 : r.chance(0.7) ? 1 : r.chance(0.5) ? 2 : 3;
    if (op == 0) {
      int64_t nr = r.below(r.chance(0.05) ? 60 : 9), nh = r.below(r.chance(0.05) ? 60 : 11);
      std::vector<int64_t> v = {0, (int64_t)r.below(3), AllocFault(r, pf, 20 + 14 * (nr + nh)), (int64_t)r.chance(0.2),
                                (int64_t)(r.chance(pf / 2) ? r.below(12) : -1), nr};
      for (int64_t k = 0; k < nr; ++k) v.push_back(code());
      for (int64_t k = 0; k < nh; ++k) { v.push_back(code()); v.push_back((int64_t)r.below(6)); }
      s.lib.push_back(v);
    } else if (op == 1) {
      int64_t a = code();
      s.lib.push_back({1, (int64_t)r.below(6), a, r.chance(0.15) ? a : code(), AllocFault(r, pf, 4), (int64_t)r.chance(0.2)});
    } else {
      s.lib.push_back({op, (int64_t)r.below(6), (int64_t)r.below(6), (int64_t)r.below(3), 0, 0});
    }
  }
  return s;
}
void CheckC23(Case *c) {
  Result r = RunLib(c, LibWorld(c->s), c->s, 23);
  Counters(c, r);
  c->Probe("scorers asked by themselves", r.counters[12]);
  c->Probe("evaluations judged", r.counters[13]);
  c->Probe("evaluations that rounding may decide", r.counters[14]);
  EndsBadly(c, r);
}

// ---------------------------------------------------------------------------
// C29
// ---------------------------------------------------------------------------
Scenario GenC29(Rng &r, Stats *) {
  Scenario s;
  s.env = GenEnv(r);
  int n = 4 + (int)r.below(r.chance(0.2) ? 60 : 25);
  double pf = r.chance(0.4) ? 0 : r.unit() * 0.5;
  static const int weight[8] = {2, 10, 4, 2, 14, 4, 3, 1};
  for (int i = 0; i < n; ++i) {
    int64_t op = 0;
    int k = (int)r.below(40);
    while (k >= weight[op]) k -= weight[op++];
    if (i < 3 && op > 1) op = 1;
    std::vector<int64_t> v = {op, (int64_t)r.below(r.chance(0.7) ? 1 : 2), (int64_t)r.below(r.chance(0.5) ? 8 : 40), (int64_t)r.below(1 << 16),
                              AllocFault(r, pf, op == 4 ? 60 : 20), (int64_t)r.chance(0.2), 0};
    if (op == 4) {
      if (r.chance(0.75)) v[3] &= ~(int64_t)15;          // exactly the mandatory arguments, all of them good
      double bad = r.chance(0.7) ? 0 : 0.15;
      for (int j = (int)r.below(r.chance(0.1) ? 30 : 6); j > 0; --j) {
        int64_t kind = r.unit() < bad ? 1 + (int64_t)r.below(7) : r.chance(0.1) ? 8 : 0;
        v.push_back(kind + 9 * (int64_t)r.below(1 << 16));
      }
    }
    s.lib.push_back(v);
  }
  if (r.chance(0.2)) {
    Fault f;
    f.role = R_STDERR;
    f.op = OP_WRITE;
    f.unit = U_CALL;
    f.at = r.below(20);
    f.sticky = r.chance(0.5);
    static const int err[] = {ENOSPC, EIO, EPIPE};
    f.action = err[r.below(3)];
    s.faults.push_back(f);
  }
  if (r.chance(0.2)) s.policies.push_back(GenPolicy(r, R_STDERR, OP_WRITE));
  return s;
}
void CheckC29(Case *c) {
  const Scenario &s = c->s;
  World w = LibWorld(s);
  w.faults = s.faults;
  w.policies = s.policies;
  Result r = RunLib(c, w, s, 29);
  Counters(c, r);
  c->Probe("lines parsed", r.counters[8]);
  c->Probe("lines rejected", r.counters[9]);
  c->Probe("help texts compared", r.counters[10]);
  EndsBadly(c, r);
}

// ---------------------------------------------------------------------------
// C08 on the library
// ---------------------------------------------------------------------------
void GenC08Lib(Rng &r, Scenario *s) {
  s->mode = 1;
  s->env = GenEnv(r);
  std::vector<int64_t> v = {(int64_t)r.below(10), (int64_t)(r.chance(0.3) ? r.below(4) : r.below(40)), (int64_t)r.below(1000000)};
  for (int64_t n = r.below(8); n > 0; --n) v.push_back(1 + (int64_t)r.below(r.chance(0.2) ? 30 : 6));
  s->lib.push_back(v);
}
void CheckC08Lib(Case *c) {
  Result r = RunLib(c, LibWorld(c->s), c->s, 8);
  Counters(c, r);
  EndsBadly(c, r);
}

// ---------------------------------------------------------------------------
#define P(ID) {#ID, Gen##ID, Check##ID}
const Property kProperties[] = {P(C01), P(C02), P(C03), P(C04), P(C05), P(C06), P(C07), P(C08), P(C09), P(C10),
                                P(C11), P(C12), P(C13), P(C14), P(C15), P(C16), P(C17), P(C18), P(C19),
                                P(C22), P(C23), P(C24), P(C25), P(C26), P(C27), P(C28), P(C29), P(C30)};
#undef P
const size_t kNumProperties = sizeof kProperties / sizeof *kProperties;
const Property *FindProperty(const std::string &id) {
  for (auto &p : kProperties) if (id == p.id) return &p;
  return nullptr;
}
Verdict CheckScenario(const Scenario &s, Stats *st, bool verbose) {
  Case c;
  c.s = s;
  c.st = st;
  c.verbose = verbose;
  FindProperty(s.prop)->check(&c);
  return c.v;
}

}  // namespace sim
