#include "gen.h"

#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <algorithm>

#include "model.h"

namespace sim {

static std::string Name(Rng &r, bool ascii, double longtok, const char *pre, int k) {
  static const char *const odd[] = {"l'eau", "\xc3\xa9t\xc3\xa9", "a,b", "x=y", "Ref", "Match[", "50", "-", "0.5", "=", "caf\xe9", "~", "a#b", "%s", "\"q\""};
  static const std::string bytes[] = {std::string(1, '\0'), "\x1a", "\x04", "\x01", "\x7f", "\xff", "\xef\xbb\xbf", "\\", "//", ";", "'", "\xc2\xa0", "\x1b[0m", "\x08", "!", "?", "*", "$", "|", "<&>"};
  std::string s;
  if (!ascii && r.chance(0.04)) {                            // bytes that other formats treat specially
    const std::string &b = bytes[r.below(sizeof bytes / sizeof *bytes)];
    s = r.chance(0.5) ? b + std::to_string(k) : pre + std::to_string(k) + b;
  } else if (!ascii && r.chance(0.15)) s = std::string(odd[r.below(sizeof odd / sizeof *odd)]) + std::to_string(k);
  else s = std::string(pre) + std::to_string(k);
  if (r.chance(longtok)) {
    size_t n = r.chance(0.3) ? 8000 + r.below(2000) : 20 + r.below(300);
    while (s.size() < n) s += (char)('a' + r.below(26));
  }
  return s;
}

// Names that are easily confused: one another's prefixes, equal but for their
// case, their end or the way a number is written.
static std::vector<std::string> SimilarNames(Rng &r, int n) {
  static const char *const num[] = {"7", "07", "7.0", "+7", "007", "7e0", "-7", "0x7"};
  std::string stem;
  size_t len = r.chance(0.5) ? 1 + r.below(8) : r.chance(0.7) ? 12 + r.below(130) : 200 + r.below(400);
  while (stem.size() < len) stem += (char)('a' + r.below(26));
  std::vector<std::string> v;
  int how = (int)r.below(4);
  for (int i = 0; (int)v.size() < n; ++i) {
    std::string x = stem;
    switch (how) {
      case 0: x += std::string(i, 'a'); break;
      case 1: for (size_t k = 0; k < x.size() && k < 10; ++k) if (i >> k & 1) x[x.size() - 1 - k] -= 32; break;
      case 2: x += (char)('a' + i % 26); x += std::string(i / 26, 'b'); break;
      case 3: x = i < 8 ? num[i] : "7" + std::string(i, '0'); break;
    }
    if (how == 1 && i >= 1 << std::min<size_t>(10, stem.size())) x += std::to_string(i);
    v.push_back(x);
  }
  for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]);
  return v;
}

static std::string ScoreText(Rng &r, int k) {
  // k / 1000 with at most six digits, written in one of several ways
  char b[48];
  double v = k / 1000.0;
  switch (r.below(6)) {
    case 0: snprintf(b, sizeof b, "%.3f", v); break;
    case 1: snprintf(b, sizeof b, "%.6e", v); break;
    case 2: snprintf(b, sizeof b, "%g", v); break;
    case 3: snprintf(b, sizeof b, "%dE-3", k); break;
    case 4: if (k >= 0) snprintf(b, sizeof b, "+%g", v); else snprintf(b, sizeof b, "%g", v); break;
    default: snprintf(b, sizeof b, "%g", v);
  }
  if (b[0] == '0' && b[1] == '.' && r.chance(0.1)) return b + 1;
  return b;
}

// The number k floats after a given one.
static std::string NearText(float from, int k) {
  int32_t i;
  memcpy(&i, &from, 4);
  i += k;
  memcpy(&from, &i, 4);
  char b[48];
  snprintf(b, sizeof b, "%.9g", (double)from);
  return b;
}
// Numbers of very different sizes, in the order of k.
static std::string WideText(int k) {
  if (k == 0) return "0";
  char b[48];
  int m = k < 0 ? -k : k;
  snprintf(b, sizeof b, "%s%d.%03de%d", k < 0 ? "-" : "", 1 + m % 9000 / 1000, m % 1000, m / 9000 * 2 - 30);
  return b;
}

struct Box { std::string q, d; long x, y, w, h; };

static std::string Record(Rng &r, const std::vector<std::string> &f, bool noise, bool plain) {
  std::string s;
  if (noise && r.chance(0.2)) s += r.chance(0.5) ? "  " : "\t";
  for (size_t i = 0; i < f.size(); ++i) {
    if (i) {
      if (plain || !noise || r.chance(0.7)) s += ' ';
      else s += r.chance(0.5) ? "\t" : r.chance(0.5) ? "   " : " \t\v ";
    }
    s += f[i];
  }
  if (noise && r.chance(0.2)) s += r.chance(0.5) ? " " : " \t ";
  return s;
}

void GenInputs(Rng &r, Scenario *s, const GenCfg &c) {
  bool boxes = s->tool == "icdar";
  bool noise = !c.plain && r.chance(c.noise);
  bool crlf = noise && r.chance(0.3);
  bool large = r.chance(c.large);
  double lt = r.chance(0.3) && !large ? c.longtok : 0;      // long names, or many records
  int nq = 1 + (int)r.below(r.chance(0.3) ? 2 : 7), nd = 1 + (int)r.below(4);
  std::vector<std::string> qs, ds;
  for (int i = 0; i < nq; ++i) qs.push_back(Name(r, c.ascii, lt, "word", i));
  for (int i = 0; i < nd; ++i) ds.push_back(Name(r, c.ascii, lt, boxes ? "page" : "line", i));
  bool crowd = boxes && !large && r.chance(0.05);            // many references on one spot
  bool huge = r.chance(c.huge) && !noise && !crowd;
  if (!large && !huge && r.chance(0.08)) qs = SimilarNames(r, nq);
  if (!large && !huge && r.chance(0.08)) ds = SimilarNames(r, nd);
  if (!boxes && r.chance(0.3)) ds.push_back(qs[0]);          // a name used in both roles
  int nr = c.min_refs + (int)r.below(c.max_refs - c.min_refs + 1);
  int nh = c.min_hyps + (int)r.below(c.max_hyps - c.min_hyps + 1);
  if (large) { nr = 150 + (int)r.below(500); nh = 200 + (int)r.below(700); }
  if (crowd) { nr = 6 + (int)r.below(r.chance(0.3) ? 120 : 30); nh = 1 + (int)r.below(40); }
  if (huge) {
    s->variant = "rel";
    int n = r.chance(0.6) ? 5000 : r.chance(0.5) ? 20000 : 66000;
    nh = r.chance(0.7) ? n + (int)r.below(n / 4) : 3000;
    nr = nh > 3000 ? 50 + (int)r.below(3000) : n + (int)r.below(n / 4);
  }
  if (!c.min_refs && r.chance(0.03)) nr = 0;
  if (!c.min_hyps && r.chance(0.03)) nh = 0;
  if (huge) for (int i = 0; i < 2000; ++i) ds.push_back("extra" + std::to_string(i));
  if (large && boxes) for (int i = 0; i < 20; ++i) ds.push_back("extra" + std::to_string(i));
  if (large && !boxes) for (int i = 0; i < 200; ++i) ds.push_back("extra" + std::to_string(i));
  long grid = r.chance(0.2) ? 2000 : 40, maxw = r.chance(0.2) ? 400 : 14;
  std::vector<Box> rb;
  for (int i = 0; i < nr; ++i) {
    Box b;
    if (crowd && r.chance(0.9)) {
      b.q = qs[0];
      b.d = ds[0];
      b.x = r.below(3); b.y = r.below(3);
      b.w = 8 + r.below(12); b.h = 8 + r.below(12);
    } else if (!rb.empty() && r.chance(huge ? 0.05 : 0.45)) {
      b = rb[r.below(rb.size())];
      if (boxes) switch (r.below(6)) {
        case 0: b.x += r.range(0, 3); break;
        case 1: b.y += b.h; break;                           // adjacent
        case 2: b.w += r.range(0, 3); break;
        case 3: b.x += b.w; break;
        case 4: break;                                       // identical
        case 5: b.q = qs[r.below(qs.size())]; break;
      } else if (r.chance(0.6)) b.d = ds[r.below(ds.size())];
    } else {
      b.q = qs[r.below(qs.size())];
      b.d = ds[r.below(ds.size())];
      b.x = r.below(grid);
      b.y = r.below(grid);
      b.w = r.chance(0.06) ? 0 : 1 + r.below(maxw);
      b.h = r.chance(0.06) ? 0 : 1 + r.below(maxw);
    }
    rb.push_back(b);
  }
  auto add = [&](Lines *l, const std::string &rec) { l->push_back(rec + (crlf ? "\r\n" : "\n")); };
  auto junk = [&](Lines *l) {
    if (!noise || !r.chance(0.15)) return;
    switch (r.below(5)) {
      case 0: add(l, ""); break;
      case 1: add(l, "   \t "); break;
      case 2: add(l, "# comment 1 2 3"); break;
      case 3: add(l, "  #word0 page0 1 1 1 1 0.5"); break;
      case 4: add(l, "#"); break;
    }
    if (r.chance(0.03)) add(l, (r.chance(0.5) ? "#" : "") + std::string(3000 + r.below(7000), r.chance(0.5) ? ' ' : '\t'));
  };
  s->refs.clear();
  s->hyps.clear();
  // Far from the origin, and larger, with the same proportions or nearly so.
  const uint64_t top = 0xffffffffull;
  int sx = 0, sy = 0;
  uint64_t ox = 0, oy = 0;
  bool jitter = false;
  if (boxes && r.chance(0.2)) {
    sx = (int)r.below(r.chance(0.7) ? 10 : 20);
    sy = (int)r.below(r.chance(0.7) ? 10 : 20);
    jitter = r.chance(0.4);
  }
  if (boxes && r.chance(0.15)) {
    ox = r.chance(0.4) ? 0 : (1ull << (r.below(11) + 21)) - r.below(4000);
    oy = r.chance(0.4) ? 0 : (1ull << (r.below(11) + 21)) - r.below(4000);
    if (r.chance(0.2)) ox = top - (r.below(2 * grid + maxw) << sx);
    if (r.chance(0.2)) oy = top - (r.below(2 * grid + maxw) << sy);
  }
  auto coords = [&](const Box &b, std::vector<std::string> *f, bool zeros) {
    uint64_t v[4] = {((uint64_t)b.x << sx) + ox, ((uint64_t)b.y << sy) + oy, (uint64_t)b.w << sx, (uint64_t)b.h << sy};
    if (jitter && r.chance(0.5)) v[2] += r.below(3) - (v[2] > 0);
    if (jitter && r.chance(0.3)) v[3] += r.below(3) - (v[3] > 0);
    for (uint64_t x : v) f->push_back((zeros && r.chance(0.05) ? "0" : "") + std::to_string(std::min(x, top)));
  };
  for (auto &b : rb) {
    junk(&s->refs);
    std::vector<std::string> f = {b.q, b.d};
    if (boxes) coords(b, &f, noise);
    add(&s->refs, Record(r, f, noise, c.plain));
  }
  junk(&s->refs);
  bool ties = !c.distinct_scores && r.chance(c.ties);
  int style = r.chance(0.8) ? 0 : 1 + (int)r.below(2);
  float near = (float)((r.chance(0.5) ? -1 : 1) * pow(10.0, (double)r.range(-6, 6)) * (1 + r.unit() * 8));
  int base = (int)r.range(-3000, 3000);
  std::vector<int> used;
  for (int i = 0; i < nh; ++i) {
    junk(&s->hyps);
    Box b;
    if (crowd && r.chance(0.8)) {
      b.q = qs[0]; b.d = ds[0];
      b.x = 3 + r.below(4); b.y = 3 + r.below(4);
      b.w = 1 + r.below(4); b.h = 1 + r.below(4);
    } else if (!rb.empty() && r.chance(0.7)) {
      b = rb[r.below(rb.size())];
      if (boxes) switch (r.below(10)) {
        case 0: case 1: break;                               // exact
        case 2: b.w *= 2; break;                             // exactly half
        case 3: b.h *= 2; if (b.y >= b.h / 2 && r.chance(0.5)) b.y -= b.h / 2; break;
        case 4: b.x += b.w / 2; break;
        case 5: b.w = b.w * 2 + 1; break;                    // just below half
        case 6: if (b.w > 1) b.w -= 1; break;                // inside
        case 7: b.x = b.x > 2 ? b.x - 2 : 0; b.w += 4; break;
        case 8: if (r.chance(0.5)) b.q = qs[r.below(qs.size())]; else b.d = ds[r.below(ds.size())]; break;
        case 9: if (r.chance(0.3)) b.w = 0; else { b.w += r.below(6); b.h += r.below(6); } break;
      } else if (r.chance(0.25)) {
        if (r.chance(0.5)) b.q = qs[r.below(qs.size())]; else b.d = ds[r.below(ds.size())];
      }
    } else {
      b.q = r.chance(0.1) ? "unknown" : qs[r.below(qs.size())];
      b.d = ds[r.below(ds.size())];
      b.x = r.below(grid); b.y = r.below(grid);
      b.w = 1 + r.below(maxw); b.h = 1 + r.below(maxw);
    }
    int k;
    if (ties) k = base + 250 * (int)r.below(4);
    else {
      if (nh > 2000) k = (i * 7919 % nh) - nh / 2;
      else {
        int span = style == 1 ? 2000 : 200000;
        do k = (int)r.range(-span, span); while (std::find(used.begin(), used.end(), k) != used.end());
        used.push_back(k);
      }
    }
    std::vector<std::string> f = {b.q, b.d};
    if (boxes) coords(b, &f, false);
    f.push_back(style == 1 ? NearText(near, k) : style == 2 ? WideText(k) : ScoreText(r, k));
    add(&s->hyps, Record(r, f, noise, c.plain));
    if (!c.distinct_scores && r.chance(0.05)) add(&s->hyps, Record(r, f, noise, c.plain));   // verbatim repetition
  }
  junk(&s->hyps);
  for (Lines *l : {&s->refs, &s->hyps})
    if (!l->empty() && !c.plain && r.chance(0.15)) {
      std::string &x = l->back();
      while (!x.empty() && (x.back() == '\n' || x.back() == '\r')) x.pop_back();
    }
}

std::vector<std::string> QueriesOf(const Scenario &s) {
  std::vector<std::string> q;
  bool boxes = s.tool == "icdar";
  for (auto &e : ParseFile(Join(s.refs), boxes, false).ev) q.push_back(e.query);
  for (auto &e : ParseFile(Join(s.hyps), boxes, true).ev) q.push_back(e.query);
  std::sort(q.begin(), q.end());
  q.erase(std::unique(q.begin(), q.end()), q.end());
  return q;
}

void GenSelection(Rng &r, Scenario *s, bool groups, bool allow_empty) {
  std::vector<std::string> q = QueriesOf(*s);
  std::vector<std::string> pick;
  double p = r.chance(0.2) ? 1.0 : 0.3 + 0.6 * r.unit();
  for (auto &x : q) if (r.chance(p)) pick.push_back(x);
  if (r.chance(0.3)) pick.push_back(r.chance(0.1) ? "#unheard" : "unheard");
  if (r.chance(0.1)) for (int i = 0; i < 400; ++i) pick.push_back("filler" + std::to_string(r.below(10000)));
  for (size_t i = pick.size(); i > 1; --i) std::swap(pick[i - 1], pick[r.below(i)]);
  if (pick.empty() && !allow_empty) pick.push_back(q.empty() ? "unheard" : q[0]);
  if (allow_empty && r.chance(0.15)) pick.clear();
  if (pick.size() > 2 && r.chance(0.1)) pick.resize(1 + r.below(2));
  if (!groups) {
    s->has_qset = true;
    s->qset.clear();
    if (!pick.empty() && r.chance(0.3)) pick.push_back(pick[r.below(pick.size())]);
    std::string line;
    for (auto &x : pick) {
      line += x;
      if (r.chance(0.8)) { line += r.chance(0.1) ? "\r\n" : "\n"; s->qset.push_back(line); line.clear(); }
      else line += " ";
    }
    if (!line.empty()) s->qset.push_back(line);
    if (pick.empty() && r.chance(0.5)) s->qset.push_back("  \n\n");
    if (!s->qset.empty() && r.chance(0.2)) {
      std::string &x = s->qset.back();
      while (!x.empty() && (x.back() == '\n' || x.back() == '\r')) x.pop_back();
    }
  } else {
    s->has_qgrp = true;
    s->qgrp.clear();
    int ng = 1 + (int)r.below(4);
    size_t i = 0;
    int g = 0;
    while (i < pick.size()) {
      std::string line;
      bool named = !r.chance(pick.size() < 3 ? 0.5 : 0.15) || q.empty();
      line = named ? (r.chance(0.03) ? "#group" : "group") + std::to_string(g++ % (r.chance(0.8) ? 100 : 2)) : q[r.below(q.size())];
      size_t n = 1 + r.below(std::max<size_t>(1, 2 * pick.size() / ng));
      for (; n && i < pick.size(); --n) line += (r.chance(0.9) ? " " : "\t") + pick[i++];
      if (i && r.chance(0.15)) line += " " + pick[r.below(i)];          // also in an earlier group
      if (r.chance(0.1)) line += " ";
      if (r.chance(0.05)) line += "\r";
      s->qgrp.push_back(line + "\n");
    }
    if (!s->qgrp.empty() && r.chance(0.2)) s->qgrp.back().pop_back();
  }
}

void GenOpts(Rng &r, Scenario *s) {
  Opts &o = s->o;
  o = Opts();
  o.collapse = !r.chance(0.35);
  o.interp = !r.chance(0.35);
  o.trap = !r.chance(0.35);
  o.sort = r.chance(0.25) ? 1 + (int)r.below(3) : 0;
  o.spell = r.next() >> 16;
  o.curve = r.chance(0.08) ? r.below(3) : 2 + r.below(r.chance(0.1) ? 300 : 24);
}

Env GenEnv(Rng &r) {
  Env e;
  e.heap_seed = r.next() >> 8;
  e.heap_mode = (int)r.below(4);
  e.fill_mode = (int)r.below(5);
  e.clock_base = 1000000000ull * (1 + r.below(4000000000ull));
  e.clock_jumps = r.chance(0.3);
  e.entropy = r.next() >> 8;
  e.nprocs = 1 + (int)r.below(8);
  e.sched_seed = r.next() >> 8;
  e.sched_mem = r.chance(0.5) ? (int)(1u << r.below(18)) : 0;
  e.sched_op = (int)(1u << r.below(9));
  return e;
}

Policy GenPolicy(Rng &r, int role, int op) {
  Policy p;
  p.role = role;
  p.op = op;
  p.seed = r.next() >> 8;
  switch (r.below(4)) {
    case 0: p.mode = 1; p.maxn = 1 + r.below(16); break;
    case 1: p.mode = 1; p.maxn = 1 + r.below(4096); break;
    case 2: p.mode = 2; p.maxn = 1 + r.below(r.chance(0.5) ? 8 : 700); break;
    default: p.mode = 0;
  }
  if (r.chance(0.5)) p.eintr = 1 + (int)r.below(300);
  return p;
}

void AddDelivery(Rng &r, Scenario *s, bool in, bool out) {
  if (in) {
    if (r.chance(0.6)) s->policies.push_back(GenPolicy(r, R_REFS, OP_READ));
    if (r.chance(0.6)) s->policies.push_back(GenPolicy(r, s->hyps_stdin ? R_STDIN : R_HYPS, OP_READ));
    if (s->has_qset && r.chance(0.6)) s->policies.push_back(GenPolicy(r, R_QSET, OP_READ));
    if (s->has_qgrp && r.chance(0.6)) s->policies.push_back(GenPolicy(r, R_QGRP, OP_READ));
  }
  if (out) {
    if (r.chance(0.4)) s->policies.push_back(GenPolicy(r, R_STDOUT, OP_WRITE));
    if (s->o.dump && r.chance(0.5)) s->policies.push_back(GenPolicy(r, R_DUMP, OP_WRITE));
    if (s->o.grp && r.chance(0.5)) s->policies.push_back(GenPolicy(r, R_GRP, OP_WRITE));
    if (s->o.mrp && r.chance(0.5)) s->policies.push_back(GenPolicy(r, R_MRP, OP_WRITE));
  }
}

}  // namespace sim
