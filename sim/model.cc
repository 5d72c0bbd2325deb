#include "model.h"

#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <algorithm>
#include <limits>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <tuple>

namespace sim {

static bool Ws(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool Dig(char c) { return c >= '0' && c <= '9'; }

static std::vector<std::string> Words(const std::string &s) {
  std::vector<std::string> v;
  size_t i = 0;
  while (i < s.size()) {
    while (i < s.size() && Ws(s[i])) ++i;
    size_t b = i;
    while (i < s.size() && !Ws(s[i])) ++i;
    if (i > b) v.push_back(s.substr(b, i - b));
  }
  return v;
}

// 0 bad, 1 ok, 2 unspecified
static int ClassInt(const std::string &t, uint32_t *v) {
  size_t i = 0;
  while (i < t.size() && Dig(t[i])) ++i;
  if (i == t.size()) {
    const size_t z = std::min(t.find_first_not_of('0'), t.size() - 1);
    if (t.size() - z > 10) return 0;                    // cannot be represented
    unsigned long long x = strtoull(t.c_str() + z, nullptr, 10);
    if (x > 0xFFFFFFFFull) return 0;
    *v = (uint32_t)x;
    return 1;
  }
  // A plus sign in front of a number, or minus nothing. Anything else, also a
  // negative number and two numbers glued together, is not a number of the type.
  if (i == 0 && t.size() > 1 && t[0] == '+' && t.find_first_not_of("0123456789", 1) == std::string::npos) return 2;
  if (i == 0 && t.size() > 1 && t[0] == '-' && t.find_first_not_of("0", 1) == std::string::npos) return 2;
  return 0;
}
static int ClassFloat(const std::string &t, float *v) {
  size_t i = 0, d = 0;
  if (i < t.size() && (t[i] == '+' || t[i] == '-')) ++i;
  while (i < t.size() && Dig(t[i])) { ++i; ++d; }
  if (i < t.size() && t[i] == '.') {
    ++i;
    while (i < t.size() && Dig(t[i])) { ++i; ++d; }
  }
  if (d == 0) return 0;
  if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) {
    ++i;
    if (i < t.size() && (t[i] == '+' || t[i] == '-')) ++i;
    size_t e = 0;
    while (i < t.size() && Dig(t[i])) { ++i; ++e; }
    if (e == 0) return 0;
  }
  if (i != t.size()) return 0;
  float f = strtof(t.c_str(), nullptr);
  if (!std::isfinite(f)) return 2;
  if (f != 0 && std::fabs(f) < std::numeric_limits<float>::min()) return 2;
  if (f == 0) {
    for (char c : t) {
      if (c == 'e' || c == 'E') break;
      if (c >= '1' && c <= '9') return 2;       // underflow
    }
  }
  *v = f;
  return 1;
}

LineClass ClassifyLine(const std::string &line, bool boxes, bool scored, MEvent *ev) {
  std::string s = line;
  if (!s.empty() && s.back() == '\n') s.pop_back();
  std::vector<std::string> t = Words(s);
  if (t.empty()) return L_SKIP;
  if (t[0][0] == '#') return L_SKIP;
  size_t need = (boxes ? 6 : 2) + (scored ? 1 : 0);
  size_t nint = boxes ? 4 : 0;
  if (t.size() > need) return L_BAD;
  bool unspec = false, bad = false;
  uint32_t val[4] = {0, 0, 0, 0};
  for (size_t i = 2; i < t.size(); ++i) {
    int c;
    if (i < 2 + nint) c = ClassInt(t[i], &val[i - 2]);
    else c = ClassFloat(t[i], &ev->score);
    if (c == 2) unspec = true;
    if (c == 0) bad = true;
    if (c != 1) break;                // what follows is shifted
  }
  if (bad) return L_BAD;
  if (unspec) return L_UNSPECIFIED;
  if (t.size() < need) return L_BAD;
  ev->query = t[0];
  ev->doc = t[1];
  ev->x = val[0]; ev->y = val[1]; ev->w = val[2]; ev->h = val[3];
  return L_OK;
}

ParseOut ParseFile(const std::string &data, bool boxes, bool scored) {
  ParseOut p;
  Lines l = Split(data);
  p.n_lines = l.size();
  for (size_t i = 0; i < l.size(); ++i) {
    MEvent e;
    LineClass c = ClassifyLine(l[i], boxes, scored, &e);
    if (c == L_BAD) { p.first_bad = (int)i + 1; break; }
    if (c == L_UNSPECIFIED) { p.unspecified = true; continue; }
    if (c == L_OK) {
      e.src = (int)p.ev.size();
      p.ev.push_back(e);
    }
  }
  return p;
}

// ---------------------------------------------------------------------------
struct Ctx { bool boxes; };
static int CmpS(const std::string &a, const std::string &b) { return a.compare(b); }
// order of unscored events
static int CmpEvent(const MEvent &a, const MEvent &b, bool boxes) {
  if (boxes) {
    if (int c = CmpS(a.query, b.query)) return c;
    if (int c = CmpS(a.doc, b.doc)) return c;
    auto ka = std::tie(a.x, a.y, a.w, a.h), kb = std::tie(b.x, b.y, b.w, b.h);
    return ka < kb ? -1 : kb < ka ? 1 : 0;
  }
  if (a.qid != b.qid) return a.qid < b.qid ? -1 : 1;
  if (a.lid != b.lid) return a.lid < b.lid ? -1 : 1;
  return 0;
}
static int CmpScored(const MEvent &a, const MEvent &b, bool boxes) {
  if (a.score != b.score) return a.score < b.score ? -1 : 1;
  return CmpEvent(a, b, boxes);
}

static uint64_t Overlap(const MEvent &a, const MEvent &b) {
  uint64_t x1 = std::max(a.x, b.x), x2 = std::min((uint64_t)a.x + a.w, (uint64_t)b.x + b.w);
  uint64_t y1 = std::max(a.y, b.y), y2 = std::min((uint64_t)a.y + a.h, (uint64_t)b.y + b.h);
  return x2 > x1 && y2 > y1 ? (x2 - x1) * (y2 - y1) : 0;
}

// One point of the recall-precision curve / one rank block.
struct Block { double nh = 0, nr = 0, fp = 0, fn = 0; };
static std::vector<Block> Blocks(const std::vector<MMatch> &m, bool collapse) {
  std::vector<Block> b;
  double last = 0;
  for (size_t i = 0; i < m.size(); ++i) {
    double s = m[i].has_hyp ? (double)m[i].hyp.score : -std::numeric_limits<double>::infinity();
    if (!collapse || b.empty() || s != last) b.push_back(Block());
    last = s;
    Block &k = b.back();
    k.nh += m[i].has_hyp;
    k.nr += m[i].has_ref;
    k.fp += m[i].fp;
    k.fn += m[i].fn;
  }
  return b;
}
static void PrRc(const std::vector<Block> &b, bool interp, std::vector<double> *pr, std::vector<double> *rc) {
  double tr = 0, nh = 0, nr = 0, fp = 0, fn = 0;
  for (auto &k : b) tr += k.nr;
  pr->clear();
  rc->clear();
  for (auto &k : b) {
    nh += k.nh; nr += k.nr; fp += k.fp; fn += k.fn;
    pr->push_back(nh > 0 ? 1.0 - fp / nh : 1.0);
    rc->push_back(tr > 0 ? (nr - fn) / tr : 1.0);
  }
  if (interp)
    for (size_t i = pr->size(); i-- > 1;) (*pr)[i - 1] = std::max((*pr)[i - 1], (*pr)[i]);
}
static double AP(const std::vector<MMatch> &m, const Opts &o) {
  std::vector<double> pr, rc;
  PrRc(Blocks(m, o.collapse), o.interp, &pr, &rc);
  double ap = 0;
  for (size_t i = 0; i < pr.size(); ++i) {
    double h = o.trap && i > 0 ? (pr[i] + pr[i - 1]) / 2 : pr[i];
    ap += h * (rc[i] - (i ? rc[i - 1] : 0.0));
  }
  return ap;
}
// `narrow`: the gain of a block of tied hypotheses in single precision (the
// precision in which match errors are kept).
static double NDCG(const std::vector<MMatch> &m, const Opts &o, bool narrow) {
  std::vector<Block> b = Blocks(m, o.collapse);
  double tr = 0, dcg = 0, z = 0;
  for (auto &k : b) tr += k.nr;
  if (tr == 0) return 0;
  long rank = 1;
  for (auto &k : b) {
    if (k.nh <= 0) continue;
    double r = narrow ? (double)(1 - (float)k.fp / (float)k.nh) : 1 - k.fp / k.nh;
    for (long j = 0; j < (long)k.nh; ++j, ++rank) dcg += (std::pow(2.0, r) - 1) / std::log2(rank + 1.0);
  }
  for (long j = 1; j <= (long)tr; ++j) z += 1 / std::log2(j + 1.0);
  return dcg / z;
}
typedef std::vector<std::vector<MMatch>> Groups;
static void SortDesc(std::vector<MMatch> *m) {
  std::stable_sort(m->begin(), m->end(), [](const MMatch &a, const MMatch &b) {
    if (a.has_hyp && b.has_hyp) return a.hyp.score > b.hyp.score;
    return a.has_hyp && !b.has_hyp;
  });
}
static double Stat(int which, const Groups &g, const Opts &o, bool sort, bool narrow = false) {
  if (which == 0 || which == 2) {
    std::vector<MMatch> all;
    for (auto &v : g) all.insert(all.end(), v.begin(), v.end());
    if (sort) SortDesc(&all);
    return which == 0 ? AP(all, o) : NDCG(all, o, narrow);
  }
  double s = 0;
  for (auto v : g) {
    if (sort) SortDesc(&v);
    s += which == 1 ? AP(v, o) : NDCG(v, o, narrow);
  }
  return g.empty() ? 0 : s / g.size();
}

static std::vector<std::pair<double, double>> Sample(const std::vector<double> &rc, const std::vector<double> &pr,
                                                     uint64_t n, bool linear) {
  std::vector<std::pair<double, double>> out;
  if (n < 2) return out;
  for (uint64_t k = 0; k < n; ++k) {
    double x = (double)k / (double)(n - 1), y = 0;
    size_t j = 0;
    while (j < rc.size() && rc[j] < x) ++j;
    if (j < rc.size()) {
      if (!linear || j == 0) y = pr[j];
      else {
        double t = (rc[j] - x) / ((rc[j] - x) + (x - rc[j - 1]));
        y = t * pr[j - 1] + (1 - t) * pr[j];
      }
    }
    out.emplace_back(x, y);
  }
  return out;
}

static std::string Num(float f) {
  char b[40];
  snprintf(b, sizeof b, "%.6g", (double)f);
  return b;
}
static std::string EventText(const MEvent &e, bool boxes, bool scored) {
  std::string s;
  if (boxes) {
    s = e.query + " " + e.doc + " " + std::to_string(e.x) + " " + std::to_string(e.y) + " " + std::to_string(e.w) +
        " " + std::to_string(e.h);
  } else {
    s = std::to_string(e.qid) + " " + std::to_string(e.lid);
  }
  if (scored) s += " " + Num(e.score);
  return s;
}
static std::string MatchText(const MMatch &m, bool boxes) {
  std::string s = "Match[";
  if (m.has_hyp) s += "Hyp=" + EventText(m.hyp, boxes, true) + ", ";
  if (m.has_ref) s += "Ref=" + EventText(m.ref, boxes, false) + ", ";
  bool nh = m.fp || !m.fn, nr = !m.fp || m.fn;
  s += std::string("Error=MatchError[fp=") + (m.fp ? "1" : "0") + ", fn=" + (m.fn ? "1" : "0") + ", nh=" + (nh ? "1" : "0") +
       ", nr=" + (nr ? "1" : "0") + "]]";
  return s;
}

ModelOut Evaluate(const Scenario &s, const Inputs &in, const ModelFlags &fl) {
  ModelOut out;
  const bool boxes = s.tool == "icdar";
  const Opts &o = s.o;
  ParseOut pr = ParseFile(in.refs, boxes, false), ph = ParseFile(in.hyps, boxes, true);
  if (pr.unspecified || ph.unspecified) { out.unspecified = true; return out; }
  if (pr.first_bad || ph.first_bad) return out;
  std::map<std::string, long> ids;
  auto id = [&](const std::string &n) { return ids.emplace(n, (long)ids.size()).first->second; };
  if (!boxes)
    for (auto *v : {&pr.ev, &ph.ev})
      for (auto &e : *v) {
        if (fl.variant) { e.qid = id(e.query); e.lid = id(e.doc); }
        else { e.lid = id(e.doc); e.qid = id(e.query); }
      }
  // Selection.
  bool select = false;
  std::map<std::string, std::string> group;
  if (s.has_qgrp) {
    select = true;
    for (auto &l : Split(in.qgrp)) {
      std::vector<std::string> w = Words(l);
      if (w.size() < 2) return out;
      for (size_t i = 1; i < w.size(); ++i) group[w[i]] = w[0];
    }
  } else if (s.has_qset) {
    select = true;
    for (auto &w : Words(in.qset)) group[w] = w;
  }
  std::vector<MEvent> refs, hyps;
  for (auto &e : pr.ev) if (!select || group.count(e.query)) refs.push_back(e);
  for (auto &e : ph.ev) if (!select || group.count(e.query)) hyps.push_back(e);
  // Ranking.
  int sort = o.sort;
  auto less = [&](const MEvent &a, const MEvent &b) { return CmpScored(a, b, boxes) < 0; };
  if (sort == 0) std::stable_sort(hyps.begin(), hyps.end(), [&](const MEvent &a, const MEvent &b) { return less(b, a); });
  else if (sort == 1) std::stable_sort(hyps.begin(), hyps.end(), less);
  for (size_t i = 1; i < hyps.size(); ++i) out.n_tie += hyps[i].score == hyps[i - 1].score;
  // Distinct references in their order.
  auto eless = [&](const MEvent &a, const MEvent &b) { return CmpEvent(a, b, boxes) < 0; };
  std::vector<MEvent> ur = refs;
  std::stable_sort(ur.begin(), ur.end(), eless);
  ur.erase(std::unique(ur.begin(), ur.end(), [&](const MEvent &a, const MEvent &b) { return CmpEvent(a, b, boxes) == 0; }), ur.end());
  out.n_refs_distinct = ur.size();
  std::vector<char> taken(ur.size(), 0);
  std::map<std::pair<std::string, std::string>, std::vector<size_t>> index;
  for (size_t i = 0; i < ur.size(); ++i) index[{ur[i].query, ur[i].doc}].push_back(i);
  for (auto &h : hyps) {
    std::vector<std::pair<uint64_t, size_t>> cand;
    auto it = index.find({h.query, h.doc});
    if (it != index.end())
      for (size_t i : it->second) {
        uint64_t a = boxes ? Overlap(ur[i], h) : 1;
        if (a == 0) continue;
        uint64_t area = (uint64_t)h.w * h.h;
        if (boxes && area > 0 && 2 * a == area) ++out.n_half;
        if (boxes && !(area > 0 && a >= area - a)) continue;
        cand.emplace_back(a, i);
      }
    std::sort(cand.begin(), cand.end(), std::greater<std::pair<uint64_t, size_t>>());
    if (cand.size() > 1) ++out.n_multi;
    MMatch m;
    m.has_hyp = true;
    m.hyp = h;
    bool served = cand.empty();
    if (cand.empty()) {
      m.fp = true;
      out.matches.push_back(m);
    }
    for (auto &c : cand) {
      m.has_ref = true;
      m.ref = ur[c.second];
      if (!taken[c.second]) {
        taken[c.second] = 1;
        out.matches.push_back(m);
        served = true;
        break;
      }
      out.repeated.push_back(m);
    }
    out.served.push_back(served);
  }
  for (size_t i = 0; i < ur.size(); ++i)
    if (!taken[i]) {
      MMatch m;
      m.has_ref = true;
      m.ref = ur[i];
      m.fn = true;
      out.matches.push_back(m);
    }
  out.hyps = hyps;
  for (auto &m : out.matches) out.dump_main.push_back(MatchText(m, boxes));
  for (auto &m : out.repeated) out.dump_rep.push_back("## " + MatchText(m, boxes));
  // Groups, by first appearance.
  Groups groups;
  std::map<std::string, size_t> pos;
  for (auto &m : out.matches) {
    const std::string &q = m.has_ref ? m.ref.query : m.hyp.query;
    auto it = group.find(q);
    const std::string &g = it == group.end() ? q : it->second;
    size_t p = pos.emplace(g, pos.size()).first->second;
    if (p == groups.size()) groups.emplace_back();
    groups[p].push_back(m);
  }
  out.n_groups = groups.size();
  // Scores.
  Groups whole(1, out.matches);
  const bool ci[4] = {o.bgap, o.bmap, o.bgn, o.bmn};
  for (int k = 0; k < 4; ++k) {
    MScore &sc = out.score[k];
    sc.value = Stat(k, k == 0 || k == 2 ? whole : groups, o, fl.force_desc);
    sc.alt = k >= 2 ? Stat(k, k == 2 ? whole : groups, o, fl.force_desc, true) : sc.value;
    if (!ci[k] || fl.no_ci) continue;
    sc.ci = true;
    std::vector<double> d, da;
    if (!groups.empty()) {
      std::default_random_engine rng(o.bseed);
      for (uint64_t r = 0; r < o.reps; ++r) {
        Groups sample(groups.size());
        std::uniform_int_distribution<size_t> qd(0, groups.size() - 1);
        for (size_t i = 0; i < groups.size(); ++i) {
          const auto &g = groups[qd(rng)];
          std::uniform_int_distribution<size_t> md(0, g.size() - 1);
          for (size_t j = 0; j < g.size(); ++j) sample[i].push_back(g[md(rng)]);
        }
        d.push_back(Stat(k, sample, o, true) - sc.value);
        if (k >= 2) da.push_back(Stat(k, sample, o, true, true) - sc.alt);
      }
    } else {
      for (uint64_t r = 0; r < o.reps; ++r) d.push_back(0);
    }
    std::sort(d.begin(), d.end());
    std::sort(da.begin(), da.end());
    double alpha = strtod(o.alpha.c_str(), nullptr);
    auto quant = [&](double f) {
      std::vector<double> v;
      if (d.empty()) { v.push_back(sc.value); v.push_back(sc.alt); return v; }
      double x = f * (double)o.reps;
      std::set<size_t> idx;
      for (double e : {-1e-9, 0.0, 1e-9}) {
        double y = std::floor(x + e * std::max(1.0, x));
        if (y < 0) y = 0;
        size_t i = (size_t)y;
        idx.insert(std::min(i, d.size() - 1));
      }
      for (size_t i : idx) v.push_back(sc.value - d[i]);
      if (!da.empty()) for (size_t i : idx) v.push_back(sc.alt - da[i]);
      return v;
    };
    sc.lo = quant(1.0 - alpha * 0.5);
    sc.hi = quant(alpha * 0.5);
  }
  // Curves.
  if (o.grp) {
    std::vector<double> p, r;
    PrRc(Blocks(out.matches, o.collapse), o.interp, &p, &r);
    out.grp = Sample(r, p, o.curve, o.trap);
    out.has_grp = true;
  }
  if (o.mrp) {
    std::vector<std::vector<std::pair<double, double>>> c;
    for (auto &g : groups) {
      std::vector<double> p, r;
      PrRc(Blocks(g, o.collapse), o.interp, &p, &r);
      c.push_back(Sample(r, p, o.curve, o.trap));
    }
    if (o.curve >= 2)
      for (uint64_t k = 0; k < o.curve; ++k) {
        double y = 0;
        for (auto &v : c) y += v[k].second;
        out.mrp.emplace_back((double)k / (double)(o.curve - 1), c.empty() ? 0 : y / c.size());
      }
    out.has_mrp = true;
  }
  out.ok = true;
  return out;
}

// ---------------------------------------------------------------------------
static bool StrictNum(const std::string &t, double *v) {
  if (t.empty() || Ws(t[0])) return false;
  char *e;
  *v = strtod(t.c_str(), &e);
  return *e == 0 && std::isfinite(*v);
}
static const char *const kName[4] = {"gAP", "mAP", "gNDCG", "mNDCG"};
Scores ParseScores(const std::string &out) {
  Scores s;
  Lines l = Split(out);
  if (l.size() != 4) { s.why = "standard output has " + std::to_string(l.size()) + " lines, not 4"; return s; }
  for (int i = 0; i < 4; ++i) {
    std::string x = l[i];
    if (x.empty() || x.back() != '\n') { s.why = "unterminated last line"; return s; }
    x.pop_back();
    s.text[i] = x;
    std::string head = std::string(kName[i]) + " = ";
    if (x.compare(0, head.size(), head)) { s.why = "line " + std::to_string(i + 1) + " is not a " + kName[i] + " line: " + Escape(x); return s; }
    std::string r = x.substr(head.size());
    size_t b = r.find(" [");
    s.ci[i] = b != std::string::npos;
    std::string v = r.substr(0, b);
    if (!StrictNum(v, &s.v[i])) { s.why = "bad value in " + Escape(x); return s; }
    if (s.ci[i]) {
      std::string c = r.substr(b + 2);
      size_t k = c.find(", ");
      if (k == std::string::npos || c.back() != ']' || !StrictNum(c.substr(0, k), &s.lo[i]) ||
          !StrictNum(c.substr(k + 2, c.size() - k - 3), &s.hi[i])) {
        s.why = "bad interval in " + Escape(x);
        return s;
      }
    }
  }
  s.ok = true;
  return s;
}
bool HasScoreLine(const std::string &out) {
  for (auto &l : Split(out)) {
    size_t e = l.find('=');
    if (e == std::string::npos) continue;
    for (size_t i = e + 1; i < l.size(); ++i) if (Dig(l[i])) return true;
  }
  return false;
}
// Half a unit of the sixth significant digit.
static double HalfUnit(double a, double b) {
  double m = std::max(std::fabs(a), std::fabs(b));
  return m > 0 ? 0.500001 * std::pow(10.0, std::floor(std::log10(m) + 1e-12) - 5) : 0;
}
bool Close(double a, double b) {
  if (std::isnan(a) || std::isnan(b)) return false;
  return std::fabs(a - b) <= 2 * HalfUnit(a, b) + 1e-9;
}
bool Prints(double printed, double value) {
  if (std::isnan(printed) || std::isnan(value)) return false;
  return std::fabs(printed - value) <= HalfUnit(printed, value) + 1e-9;
}
bool ParseCurve(const std::string &text, std::vector<std::pair<double, double>> *v, std::string *why) {
  v->clear();
  Lines l = Split(text);
  for (size_t i = 0; i < l.size(); ++i) {
    std::string x = l[i];
    if (x.empty() || x.back() != '\n') { *why = "line " + std::to_string(i + 1) + " is not terminated"; return false; }
    x.pop_back();
    size_t sp = x.find(' ');
    double a, b;
    if (sp == std::string::npos || !StrictNum(x.substr(0, sp), &a) || !StrictNum(x.substr(sp + 1), &b)) {
      *why = "line " + std::to_string(i + 1) + " is not two finite numbers: " + Escape(x);
      return false;
    }
    v->emplace_back(a, b);
  }
  return true;
}
bool SplitDump(const std::string &text, std::vector<std::string> *main, std::vector<std::string> *rep) {
  bool r = false, seen = false;
  for (auto &l : Split(text)) {
    std::string x = l;
    if (x.empty() || x.back() != '\n') return false;
    x.pop_back();
    if (x == "#### REPEATED MATCHES ####") { if (seen) return false; r = seen = true; continue; }
    (r ? rep : main)->push_back(x);
  }
  return seen;
}

}  // namespace sim
