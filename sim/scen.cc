#include "scen.h"

#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <sstream>

extern "C" int sut_main_icdar_dbg(int, const char **);
extern "C" int sut_main_icdar_rel(int, const char **);
extern "C" int sut_main_simple_dbg(int, const char **);
extern "C" int sut_main_simple_rel(int, const char **);

namespace sim {

const char *const kPath[NROLE] = {"in/refs.txt", "in/hyps.txt", "in/queryset.txt", "in/querygroups.txt",
                                  "out/dump.txt", "out/grp.txt", "out/mrp.txt", "", "", "", "", "", ""};

std::string Escape(const std::string &s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '\n') o += "\\n";
    else if (c == '\t') o += "\\t";
    else if (c == '\r') o += "\\r";
    else if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
    else o += (char)c;
  }
  return o + "\"";
}
std::string Unescape(const std::string &s) {
  std::string o;
  size_t i = s.size() && s[0] == '"' ? 1 : 0;
  size_t e = s.size() > 1 && s.back() == '"' ? s.size() - 1 : s.size();
  for (; i < e; ++i) {
    if (s[i] != '\\') { o += s[i]; continue; }
    ++i;
    switch (s[i]) {
      case 'n': o += '\n'; break;
      case 't': o += '\t'; break;
      case 'r': o += '\r'; break;
      case 'x': o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; break;
      default: o += s[i];
    }
  }
  return o;
}

static void PutEnv(std::ostream &o, const char *k, const Env &e) {
  o << k << " heap_seed=" << e.heap_seed << " heap_mode=" << e.heap_mode << " fill=" << e.fill_mode
    << " clock=" << e.clock_base << " jumps=" << e.clock_jumps << " entropy=" << e.entropy
    << " nprocs=" << e.nprocs << " sched=" << e.sched_seed << " mem=" << e.sched_mem << " op=" << e.sched_op
    << " explicit=" << e.explicit_sched << " switches=";
  if (e.switches.empty()) o << "-";
  for (size_t i = 0; i < e.switches.size(); ++i) o << (i ? "," : "") << e.switches[i].at << ":" << e.switches[i].to;
  o << "\n";
}
static void PutPol(std::ostream &o, const char *k, const Policy &p) {
  o << k << " role=" << kRoleName[p.role] << " op=" << kOpName[p.op] << " mode=" << p.mode << " max=" << p.maxn
    << " seed=" << p.seed << " eintr=" << p.eintr << "\n";
}
static void PutLines(std::ostream &o, const char *k, const Lines &l) {
  for (auto &x : l) o << k << " " << Escape(x) << "\n";
}

std::string Serialize(const Scenario &s) {
  std::ostringstream o;
  o << "property " << s.prop << "\ntool " << s.tool << "\nvariant " << s.variant << "\nseed " << s.seed
    << "\nmode " << s.mode << "\n";
  const Opts &p = s.o;
  o << "opts collapse=" << p.collapse << " interp=" << p.interp << " trap=" << p.trap << " sort=" << p.sort
    << " bgap=" << p.bgap << " bmap=" << p.bmap << " bgn=" << p.bgn << " bmn=" << p.bmn << " reps=" << p.reps
    << " bseed=" << p.bseed << " alpha=" << p.alpha << " curve=" << p.curve << " dump=" << p.dump
    << " grp=" << p.grp << " mrp=" << p.mrp << " spell=" << p.spell << "\n";
  o << "flags stdin=" << s.hyps_stdin << " qset=" << s.has_qset << " qgrp=" << s.has_qgrp
    << " order=" << s.has_order << " args=" << s.has_args << " closed=" << s.closed << "\n";
  PutLines(o, "arg", s.args);
  PutLines(o, "ref", s.refs);
  PutLines(o, "hyp", s.hyps);
  PutLines(o, "queryset", s.qset);
  PutLines(o, "group", s.qgrp);
  if (s.has_order) {
    o << "order_r";
    for (int i : s.order_r) o << " " << i;
    o << "\norder_h";
    for (int i : s.order_h) o << " " << i;
    o << "\n";
  }
  for (auto &d : s.damage)
    o << "damage role=" << kRoleName[d.role] << " line=" << d.line << " col=" << d.col << " kind=" << d.kind
      << " val=" << d.val << "\n";
  for (auto &x : s.old) o << "old " << kRoleName[x.first] << " " << Escape(x.second) << "\n";
  for (auto &f : s.faults)
    o << "fault role=" << kRoleName[f.role] << " op=" << kOpName[f.op] << " unit=" << f.unit << " at=" << f.at
      << " action=" << f.action << " sticky=" << f.sticky << "\n";
  for (auto &x : s.policies) PutPol(o, "policy", x);
  for (auto &x : s.policies2) PutPol(o, "policy2", x);
  PutEnv(o, "env", s.env);
  PutEnv(o, "env2", s.env2);
  for (auto &v : s.lib) {
    o << "op";
    for (int64_t x : v) o << " " << x;
    o << "\n";
  }
  return o.str();
}

static std::map<std::string, std::string> KV(const std::string &rest) {
  std::map<std::string, std::string> m;
  std::istringstream i(rest);
  std::string t;
  while (i >> t) {
    size_t e = t.find('=');
    if (e != std::string::npos) m[t.substr(0, e)] = t.substr(e + 1);
  }
  return m;
}
static uint64_t U(const std::map<std::string, std::string> &m, const char *k) {
  auto it = m.find(k);
  return it == m.end() ? 0 : strtoull(it->second.c_str(), nullptr, 0);
}
static Env GetEnvLine(const std::string &rest) {
  auto m = KV(rest);
  Env e;
  e.heap_seed = U(m, "heap_seed"); e.heap_mode = U(m, "heap_mode"); e.fill_mode = U(m, "fill");
  e.clock_base = U(m, "clock"); e.clock_jumps = U(m, "jumps"); e.entropy = U(m, "entropy");
  e.nprocs = U(m, "nprocs"); e.sched_seed = U(m, "sched"); e.sched_mem = U(m, "mem"); e.sched_op = U(m, "op");
  e.explicit_sched = U(m, "explicit");
  std::string sw = m["switches"];
  if (!sw.empty() && sw != "-") {
    std::istringstream i(sw);
    std::string t;
    while (std::getline(i, t, ',')) {
      Switch x;
      x.at = strtoull(t.c_str(), nullptr, 10);
      x.to = atoi(t.c_str() + t.find(':') + 1);
      e.switches.push_back(x);
    }
  }
  return e;
}
static Policy GetPol(const std::string &rest) {
  auto m = KV(rest);
  Policy p;
  p.role = RoleByName(m["role"]); p.op = OpByName(m["op"]); p.mode = U(m, "mode"); p.maxn = U(m, "max");
  p.seed = U(m, "seed"); p.eintr = U(m, "eintr");
  return p;
}

bool Parse(const std::string &text, Scenario *s, std::map<std::string, std::string> *extra) {
  *s = Scenario();
  std::istringstream in(text);
  std::string line;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    size_t sp = line.find(' ');
    std::string k = line.substr(0, sp), r = sp == std::string::npos ? "" : line.substr(sp + 1);
    if (k == "property") s->prop = r;
    else if (k == "tool") s->tool = r;
    else if (k == "variant") s->variant = r;
    else if (k == "seed") s->seed = strtoull(r.c_str(), nullptr, 10);
    else if (k == "mode") s->mode = atoi(r.c_str());
    else if (k == "opts") {
      auto m = KV(r);
      Opts &p = s->o;
      p.collapse = U(m, "collapse"); p.interp = U(m, "interp"); p.trap = U(m, "trap"); p.sort = U(m, "sort");
      p.bgap = U(m, "bgap"); p.bmap = U(m, "bmap"); p.bgn = U(m, "bgn"); p.bmn = U(m, "bmn");
      p.reps = U(m, "reps"); p.bseed = U(m, "bseed"); p.alpha = m["alpha"]; p.curve = U(m, "curve");
      p.dump = U(m, "dump"); p.grp = U(m, "grp"); p.mrp = U(m, "mrp"); p.spell = U(m, "spell");
    } else if (k == "flags") {
      auto m = KV(r);
      s->hyps_stdin = U(m, "stdin"); s->has_qset = U(m, "qset"); s->has_qgrp = U(m, "qgrp"); s->has_order = U(m, "order"); s->closed = (int)U(m, "closed");
      s->has_args = U(m, "args");
    } else if (k == "arg") s->args.push_back(Unescape(r));
    else if (k == "ref") s->refs.push_back(Unescape(r));
    else if (k == "hyp") s->hyps.push_back(Unescape(r));
    else if (k == "queryset") s->qset.push_back(Unescape(r));
    else if (k == "group") s->qgrp.push_back(Unescape(r));
    else if (k == "order_r" || k == "order_h") {
      std::istringstream i(r);
      int x;
      while (i >> x) (k == "order_r" ? s->order_r : s->order_h).push_back(x);
    } else if (k == "damage") {
      auto m = KV(r);
      Damage d;
      d.role = RoleByName(m["role"]); d.line = U(m, "line"); d.col = U(m, "col"); d.kind = U(m, "kind"); d.val = U(m, "val");
      s->damage.push_back(d);
    } else if (k == "old") {
      size_t q = r.find(' ');
      s->old.emplace_back(RoleByName(r.substr(0, q)), Unescape(r.substr(q + 1)));
    } else if (k == "fault") {
      auto m = KV(r);
      Fault f;
      f.role = RoleByName(m["role"]); f.op = OpByName(m["op"]); f.unit = U(m, "unit"); f.at = U(m, "at");
      f.action = U(m, "action"); f.sticky = U(m, "sticky");
      s->faults.push_back(f);
    } else if (k == "policy") s->policies.push_back(GetPol(r));
    else if (k == "policy2") s->policies2.push_back(GetPol(r));
    else if (k == "env") s->env = GetEnvLine(r);
    else if (k == "env2") s->env2 = GetEnvLine(r);
    else if (k == "op") {
      std::istringstream i(r);
      std::vector<int64_t> v;
      int64_t x;
      while (i >> x) v.push_back(x);
      s->lib.push_back(v);
    } else if (extra) (*extra)[k] = r;
  }
  return !s->prop.empty();
}

std::string Join(const Lines &l) {
  std::string o;
  for (auto &x : l) o += x;
  return o;
}
Lines Split(const std::string &t) {
  Lines l;
  size_t i = 0;
  while (i < t.size()) {
    size_t e = t.find('\n', i);
    e = e == std::string::npos ? t.size() : e + 1;
    l.push_back(t.substr(i, e - i));
    i = e;
  }
  return l;
}
std::string ApplyOrder(const Lines &l, const std::vector<int> &order) {
  std::string o;
  for (int i : order) {
    o += l[i];
    if (o.empty() || o.back() != '\n') o += '\n';
  }
  return o;
}

static std::vector<std::pair<size_t, size_t>> Tokens(const std::string &s) {
  std::vector<std::pair<size_t, size_t>> v;
  size_t i = 0;
  auto ws = [](char c) { return c == ' ' || (c >= 9 && c <= 13); };
  while (i < s.size()) {
    while (i < s.size() && ws(s[i])) ++i;
    size_t b = i;
    while (i < s.size() && !ws(s[i])) ++i;
    if (i > b) v.emplace_back(b, i - b);
  }
  return v;
}
static const char *const kTok[] = {"x", "-", "1x", "0x1f", "12a", "1e", "--3", "3,5", "nan", "inf", "abc", "e5", "..5", "1/2", "\xff", "1_0",
                                   "10.5", "7.", "4294967296", "4294967297", "18446744073709551617", "1e1", "1,000", "2#", "12-3", "1d0", "0x1p3"};

std::string ApplyDamage(const Lines &l, int role, const std::vector<Damage> &ds) {
  Lines x = l;
  std::string out;
  int trunc_line = -1;
  size_t trunc_col = 0;
  struct Lose { int line; size_t col; size_t n; };
  std::vector<Lose> lose;
  for (auto &d : ds) {
    if (d.role != role || d.line < 0 || d.line >= (int)x.size()) continue;
    std::string &s = x[d.line];
    size_t c = s.empty() ? 0 : d.col % s.size();
    switch (d.kind) {
      case D_FLIP: if (!s.empty()) s[c] = (char)(s[c] ^ (d.val % 255 + 1)); break;
      case D_DELETE: if (!s.empty()) s.erase(c, 1); break;
      case D_INSERT: s.insert(c, 1, (char)d.val); break;
      case D_TRUNC: trunc_line = d.line; trunc_col = c; break;
      case D_ZERO: for (size_t i = c; i < s.size() && i < c + d.val; ++i) s[i] = 0; break;
      case D_LOSE: lose.push_back(Lose{d.line, c, (size_t)d.val}); break;
      case D_DUPTOK: case D_DROPTOK: case D_SETTOK: {
        auto t = Tokens(s);
        if (t.empty()) break;
        auto p = t[d.col % t.size()];
        if (d.kind == D_DUPTOK) s.insert(p.first, s.substr(p.first, p.second) + " ");
        else if (d.kind == D_DROPTOK) s.erase(p.first, p.second);
        else s.replace(p.first, p.second, kTok[d.val % (sizeof kTok / sizeof *kTok)]);
        break;
      }
      case D_EXTRATOK: {
        auto t = Tokens(s);
        size_t at = t.empty() ? 0 : t.back().first + t.back().second;
        s.insert(at, std::string(" ") + kTok[d.val % (sizeof kTok / sizeof *kTok)]);
        break;
      }
    }
  }
  std::vector<size_t> start;
  for (size_t i = 0; i < x.size(); ++i) {
    start.push_back(out.size());
    if ((int)i == trunc_line) { out += x[i].substr(0, trunc_col); break; }
    out += x[i];
  }
  for (auto &q : lose)
    if (q.line < (int)start.size()) {
      size_t p = start[q.line] + q.col;
      if (p < out.size()) out.erase(p, q.n);
    }
  return out;
}

std::vector<std::string> Argv(const Scenario &s) {
  if (s.has_args) {
    std::vector<std::string> v = {"kws"};
    v.insert(v.end(), s.args.begin(), s.args.end());
    return v;
  }
  std::vector<std::vector<std::string>> opts;
  const Opts &o = s.o;
  Rng r(s.o.spell);
  auto boolean = [&](const char *n, bool v, bool dflt) {
    if (v == dflt && r.chance(0.5)) return;
    opts.push_back({std::string("--") + n, v ? (r.chance(0.5) ? "true" : "1") : (r.chance(0.5) ? "false" : "0")});
  };
  auto str = [&](const char *n, const std::string &v) { opts.push_back({std::string("--") + n, v}); };
  boolean("collapse_matches", o.collapse, true);
  boolean("interpolated_precision", o.interp, true);
  boolean("trapezoid_integral", o.trap, true);
  boolean("bootstrap_ci_gap", o.bgap, false);
  boolean("bootstrap_ci_map", o.bmap, false);
  boolean("bootstrap_ci_gndcg", o.bgn, false);
  boolean("bootstrap_ci_mndcg", o.bmn, false);
  if (o.AnyBootstrap()) {
    // What is the default need not be said.
    if (o.reps != 10000 || r.chance(0.3)) str("bootstrap_samples", std::to_string(o.reps));
    if (o.bseed != 0x12345 || r.chance(0.3)) str("bootstrap_seed", std::to_string(o.bseed));
    if (o.alpha != "0.05" || r.chance(0.3)) str("bootstrap_alpha", o.alpha);
  } else if (r.chance(0.03)) {
    str("bootstrap_samples", std::to_string(r.below(1000)));          // of no consequence
    str("bootstrap_alpha", "0.5");
  }
  static const char *const kSort[] = {"desc", "asc", "none", "upwards"};
  if (o.sort || r.chance(0.3)) str("sort", kSort[o.sort]);
  if (s.has_qset) str("query_set", kPath[R_QSET]);
  if (s.has_qgrp) str("query_groups", kPath[R_QGRP]);
  if (o.dump) str("dump_matches", kPath[R_DUMP]);
  if (o.grp) str("output_grp", kPath[R_GRP]);
  if (o.mrp) str("output_mrp", kPath[R_MRP]);
  if (o.grp || o.mrp ? o.curve != 10000 || r.chance(0.3) : r.chance(0.03)) str("rp_curve_samples", std::to_string(o.curve));
  if (!o.dump && r.chance(0.03)) str("dump_matches", "");
  if (!o.grp && r.chance(0.03)) str("output_grp", "");
  if (!s.has_qset && r.chance(0.03)) str("query_set", "");
  for (size_t i = opts.size(); i > 1; --i) std::swap(opts[i - 1], opts[r.below(i)]);
  std::vector<std::string> v = {"kws"};
  for (auto &x : opts) v.insert(v.end(), x.begin(), x.end());
  if (r.chance(0.2)) v.push_back("--");
  v.push_back(kPath[R_REFS]);
  if (!s.hyps_stdin) v.push_back(kPath[R_HYPS]);
  return v;
}

Inputs PlainInputs(const Scenario &s) { return Inputs{Join(s.refs), Join(s.hyps), Join(s.qset), Join(s.qgrp)}; }

World MakeWorld(const Scenario &s, const Inputs &in) {
  World w;
  w.files.push_back({kPath[R_REFS], R_REFS, in.refs, true});
  if (!s.hyps_stdin) w.files.push_back({kPath[R_HYPS], R_HYPS, in.hyps, true});
  else w.stdin_data = in.hyps;
  if (s.has_qset) w.files.push_back({kPath[R_QSET], R_QSET, in.qset, true});
  if (s.has_qgrp) w.files.push_back({kPath[R_QGRP], R_QGRP, in.qgrp, true});
  w.max_ops += 40 * (in.refs.size() + in.hyps.size() + in.qset.size() + in.qgrp.size());
  for (int r : {R_DUMP, R_GRP, R_MRP}) w.files.push_back({kPath[r], r, "", false});
  return w;
}

struct ToolArg { int (*fn)(int, const char **); std::vector<const char *> argv; };
static int ToolBody(void *v) {
  ToolArg *a = (ToolArg *)v;
  return a->fn((int)a->argv.size() - 1, a->argv.data());
}
static void Prepare(const Scenario &s, const std::vector<std::string> &args, ToolArg *a) {
  bool icdar = s.tool == "icdar", dbg = s.variant == "dbg";
  a->fn = icdar ? (dbg ? sut_main_icdar_dbg : sut_main_icdar_rel) : (dbg ? sut_main_simple_dbg : sut_main_simple_rel);
  for (auto &x : args) a->argv.push_back(x.c_str());
  a->argv.push_back(nullptr);
}
Result RunTool(const Scenario &s, const World &w) {
  std::vector<std::string> args = Argv(s);
  ToolArg a;
  Prepare(s, args, &a);
  return Execute(w, ToolBody, &a);
}
std::vector<Result> RunTogether(const Scenario &s, const World &ws, const Scenario &t, const World &wt, uint64_t seed, uint64_t rate) {
  std::vector<std::string> as = Argv(s), at = Argv(t);
  ToolArg a, b;
  Prepare(s, as, &a);
  Prepare(t, at, &b);
  return ExecuteTogether({Proc{&ws, ToolBody, &a}, Proc{&wt, ToolBody, &b}}, seed, rate);
}

}  // namespace sim
