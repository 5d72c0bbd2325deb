// Command line of the simulator.
//   ksim run --prop ID --seed S --worker K --workers N --count C --time T
//            --out PREFIX --replays DIR
//   ksim replay FILE [--verbose]
//   ksim hash --prop ID --seed S --from A --to B
//   ksim show --prop ID --seed S --from A
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/personality.h>
#include <time.h>
#include <unistd.h>

#include <functional>
#include <sstream>

#include "check.h"

using namespace sim;

static double Now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static std::string Json(const std::string &s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o + "\"";
}
static Scenario Make(const Property *p, uint64_t seed, uint64_t i, Stats *st) {
  uint64_t h = 0;
  for (const char *c = p->id; *c; ++c) h = hash2(h, (unsigned char)*c);
  uint64_t cs = hash3(seed, h, i);
  Rng r(cs);
  Scenario s = p->gen(r, st);
  s.prop = p->id;
  s.seed = cs;
  return s;
}

// ---------------------------------------------------------------------------
// Minimisation
// ---------------------------------------------------------------------------
struct Shrinker {
  Scenario best;
  std::string cls;
  Stats scratch;
  double deadline;
  int budget;
  bool Expired() { return budget <= 0 || Now() > deadline; }
  bool Try(const Scenario &s) {
    if (Expired()) return false;
    --budget;
    Verdict v = CheckScenario(s, &scratch);
    if (!v.violated || v.cls != cls) return false;
    best = s;
    return true;
  }
  // Drops chunks of a list.
  void Drop(std::function<size_t(const Scenario &)> size, std::function<void(Scenario *, size_t, size_t)> erase) {
    size_t n = size(best), chunk = n;
    while (chunk >= 1 && n > 0 && !Expired()) {
      bool any = false;
      for (size_t at = 0; at < size(best) && !Expired();) {
        Scenario s = best;
        size_t k = std::min(chunk, size(best) - at);
        erase(&s, at, k);
        if (Try(s)) any = true; else at += k;
      }
      n = size(best);
      if (chunk == 1 && !any) break;
      chunk = chunk == 1 ? 1 : (chunk + 1) / 2;
      if (chunk > n) chunk = n;
    }
  }
  template <class T> void DropVec(T Scenario::*m) {
    Drop([m](const Scenario &s) { return (s.*m).size(); },
         [m](Scenario *s, size_t at, size_t k) { (s->*m).erase((s->*m).begin() + at, (s->*m).begin() + at + k); });
  }
  static void DropLines(Scenario *s, int role, size_t at, size_t k) {
    Lines &l = role == R_REFS ? s->refs : role == R_HYPS ? s->hyps : role == R_QSET ? s->qset : s->qgrp;
    l.erase(l.begin() + at, l.begin() + at + k);
    std::vector<Damage> d;
    for (auto x : s->damage) {
      if (x.role == role) {
        if (x.line >= (int)at && x.line < (int)(at + k)) continue;
        if (x.line >= (int)(at + k)) x.line -= (int)k;
      }
      d.push_back(x);
    }
    s->damage = d;
    if (role == R_REFS || role == R_HYPS) {
      std::vector<int> &o = role == R_REFS ? s->order_r : s->order_h, q;
      for (int i : o) {
        if (i >= (int)at && i < (int)(at + k)) continue;
        q.push_back(i >= (int)(at + k) ? i - (int)k : i);
      }
      o = q;
    }
  }
  template <class F> void Set(F f) {
    Scenario s = best;
    f(&s);
    if (Serialize(s) != Serialize(best)) Try(s);
  }
  void Once() {
    DropVec(&Scenario::faults);
    DropVec(&Scenario::policies);
    DropVec(&Scenario::policies2);
    DropVec(&Scenario::damage);
    DropVec(&Scenario::old);
    DropVec(&Scenario::args);
    DropVec(&Scenario::lib);
    if (best.env.explicit_sched)
      Drop([](const Scenario &s) { return s.env.switches.size(); },
           [](Scenario *s, size_t at, size_t k) { s->env.switches.erase(s->env.switches.begin() + at, s->env.switches.begin() + at + k); });
    for (int role : {R_HYPS, R_REFS, R_QGRP, R_QSET})
      Drop([role](const Scenario &s) { return (role == R_REFS ? s.refs : role == R_HYPS ? s.hyps : role == R_QSET ? s.qset : s.qgrp).size(); },
           [role](Scenario *s, size_t at, size_t k) { DropLines(s, role, at, k); });
    if (best.has_order) {
      Set([](Scenario *s) { s->order_r.clear(); for (size_t i = 0; i < s->refs.size(); ++i) s->order_r.push_back((int)i); });
      Set([](Scenario *s) { s->order_h.clear(); for (size_t i = 0; i < s->hyps.size(); ++i) s->order_h.push_back((int)i); });
    }
    Set([](Scenario *s) { s->has_qset = false; s->qset.clear(); });
    Set([](Scenario *s) { s->has_qgrp = false; s->qgrp.clear(); });
    Set([](Scenario *s) { s->closed = 0; });
    for (int b = 1; b <= 4; b *= 2) Set([b](Scenario *s) { s->closed &= ~b; });
    Set([](Scenario *s) { s->hyps_stdin = false; });
    Set([](Scenario *s) { s->o.bgap = s->o.bmap = s->o.bgn = s->o.bmn = false; });
    Set([](Scenario *s) { s->o.bgap = false; });
    Set([](Scenario *s) { s->o.bmap = false; });
    Set([](Scenario *s) { s->o.bgn = false; });
    Set([](Scenario *s) { s->o.bmn = false; });
    Set([](Scenario *s) { s->o.dump = false; });
    Set([](Scenario *s) { s->o.grp = false; });
    Set([](Scenario *s) { s->o.mrp = false; });
    Set([](Scenario *s) { s->o.collapse = true; });
    Set([](Scenario *s) { s->o.interp = true; });
    Set([](Scenario *s) { s->o.trap = true; });
    Set([](Scenario *s) { s->o.sort = 0; });
    Set([](Scenario *s) { s->o.reps = 1; });
    Set([](Scenario *s) { s->o.curve = 2; });
    Set([](Scenario *s) { s->o.alpha = "0.05"; });
    Set([](Scenario *s) { s->o.spell = 0; });
    Set([](Scenario *s) { s->env.heap_mode = 0; s->env.fill_mode = 0; });
    Set([](Scenario *s) { s->env.clock_jumps = 0; });
    Set([](Scenario *s) { s->env.nprocs = 1; });
    Set([](Scenario *s) { Env e; e.sched_seed = s->env.sched_seed; e.sched_mem = s->env.sched_mem; e.sched_op = s->env.sched_op;
                          e.explicit_sched = s->env.explicit_sched; e.switches = s->env.switches; e.nprocs = s->env.nprocs; s->env = e; });
    Set([](Scenario *s) { s->env2 = s->env; });
    for (size_t i = 0; i < best.faults.size(); ++i) {
      Set([i](Scenario *s) { s->faults[i].sticky = 0; });
      Set([i](Scenario *s) { s->faults[i].at = 0; });
      for (int k = 0; k < 12; ++k) {
        uint64_t b = best.faults[i].at;
        Set([i](Scenario *s) { s->faults[i].at /= 2; });
        if (best.faults[i].at == b) break;
      }
      for (int k = 0; k < 12; ++k) {
        uint64_t b = best.faults[i].at;
        Set([i](Scenario *s) { if (s->faults[i].at) --s->faults[i].at; });
        if (best.faults[i].at == b) break;
      }
    }
    for (size_t i = 0; i < best.lib.size(); ++i) {
      Drop([i](const Scenario &s) { return s.lib[i].size() > 5 ? s.lib[i].size() - 5 : 0; },
           [i](Scenario *s, size_t at, size_t k) { s->lib[i].erase(s->lib[i].begin() + 5 + at, s->lib[i].begin() + 5 + at + k); });
      for (size_t j = 0; j < best.lib[i].size(); ++j) {
        if (best.lib[i][j] == 0) continue;
        if (best.lib[i][j] > 0 && j >= 2) Set([i, j](Scenario *s) { s->lib[i][j] = -1; });
        Set([i, j](Scenario *s) { s->lib[i][j] = 0; });
        Set([i, j](Scenario *s) { s->lib[i][j] /= 2; });
      }
    }
  }
};
static Scenario Minimise(const Scenario &s, const Verdict &v, double seconds, int budget) {
  Shrinker k;
  k.best = s;
  k.cls = v.cls;
  k.deadline = Now() + seconds;
  k.budget = budget;
  if (!v.switches.empty() && s.prop == "C15") {
    // from here on the schedule is a list of switches
    Scenario e = s;
    e.env.explicit_sched = 1;
    e.env.switches = v.switches;
    k.Try(e);
  }
  std::string before;
  while (!k.Expired()) {
    before = Serialize(k.best);
    k.Once();
    if (Serialize(k.best) == before) break;
  }
  return k.best;
}

static std::string ReplayText(const Scenario &s, const Verdict &v) {
  std::ostringstream o;
  o << "# " << s.prop << ": " << v.cls << "\n# " << Escape(v.msg) << "\n";
  o << "class " << v.cls << "\nhash " << v.hash << "\n" << Serialize(s);
  std::istringstream in(v.log);
  std::string l;
  int n = 0;
  o << "# trace of all runs of the case\n";
  while (std::getline(in, l) && ++n <= 3000) o << "# " << l << "\n";
  return o.str();
}

static bool ReadFile(const char *p, std::string *t) {
  FILE *f = fopen(p, "r");
  if (!f) return false;
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) t->append(b, n);
  fclose(f);
  return true;
}
static void WriteFile(const std::string &p, const std::string &t) {
  FILE *f = fopen(p.c_str(), "w");
  if (!f || fwrite(t.data(), 1, t.size(), f) != t.size() || fclose(f)) {
    fprintf(stderr, "sim: cannot write %s\n", p.c_str());
    exit(3);
  }
}
static void PutMap(std::ostream &o, const char *k, const std::map<std::string, uint64_t> &m) {
  o << ",\"" << k << "\":{";
  bool first = true;
  for (auto &x : m) { o << (first ? "" : ",") << Json(x.first) << ":" << x.second; first = false; }
  o << "}";
}

static int CmdRun(const Property *p, uint64_t seed, uint64_t worker, uint64_t workers, uint64_t count, double secs,
                  const std::string &out, const std::string &dir, double min_secs) {
  Stats st;
  double t0 = Now();
  std::ostringstream samples;
  int ns = 0;
  uint64_t violations = 0, rechecks = 0, mismatches = 0;
  std::string vio;
  for (uint64_t i = worker; i < count; i += workers) {
    if (Now() - t0 > secs) break;
    Scenario s = Make(p, seed, i, &st);
    Verdict v = CheckScenario(s, &st);
    ++st.cases;
    if (ns < 2 && worker == 0 && !v.skipped) {
      std::string t = Serialize(s);
      if (t.size() > 1500) t = t.substr(0, 1500) + "...";
      samples << (ns ? "," : "") << Json(t);
      ++ns;
    }
    if (st.cases <= 3 || st.cases % 64 == 0) {
      Stats tmp;
      Verdict v2 = CheckScenario(s, &tmp);
      ++rechecks;
      if (v2.hash != v.hash || v2.cls != v.cls) {
        ++mismatches;
        fprintf(stderr, "sim: case %llu of %s is not repeatable\n", (unsigned long long)i, p->id);
      }
    }
    if (v.violated) {
      ++violations;
      Scenario m = Minimise(s, v, min_secs, 2500);
      Stats tmp;
      Verdict mv = CheckScenario(m, &tmp, true);
      if (!mv.violated || mv.cls != v.cls) { m = s; mv = CheckScenario(m, &tmp, true); }
      std::string path = dir + "/" + p->id + "-w" + std::to_string(worker) + ".replay";
      WriteFile(path, ReplayText(m, mv));
      vio = "{\"case\":" + std::to_string(i) + ",\"class\":" + Json(mv.cls) + ",\"message\":" + Json(mv.msg) + ",\"replay\":" + Json(path) + "}";
      break;
    }
  }
  std::ostringstream o;
  o << "{\"cases\":" << st.cases << ",\"execs\":" << st.execs << ",\"disturbed\":" << st.disturbed << ",\"skipped\":" << st.skipped << ",\"ops\":" << st.ops << ",\"steps\":" << st.steps
    << ",\"allocs\":" << st.allocs << ",\"simtime_ns\":" << st.simtime << ",\"switches\":" << st.switches << ",\"eintrs\":" << st.eintrs
    << ",\"shorts\":" << st.shorts << ",\"bytes_in\":" << st.bytes_in << ",\"bytes_out\":" << st.bytes_out << ",\"rechecks\":" << rechecks
    << ",\"mismatches\":" << mismatches << ",\"violations\":" << violations << ",\"wall\":" << Now() - t0;
  PutMap(o, "fired", st.fired);
  PutMap(o, "probes", st.probes);
  PutMap(o, "outcomes", st.outcomes);
  o << ",\"known\":[";
  bool first = true;
  for (auto &k : st.known_msgs) { o << (first ? "" : ",") << "[" << Json(k.first) << "," << Json(k.second) << "]"; first = false; }
  o << "],\"samples\":[" << samples.str() << "],\"violation\":" << (vio.empty() ? "null" : vio) << "}\n";
  WriteFile(out + ".json", o.str());
  std::vector<uint64_t> ph(st.paths.begin(), st.paths.end());
  WriteFile(out + ".paths", std::string((const char *)ph.data(), ph.size() * 8));
  return violations ? 1 : 0;
}

int main(int argc, char **argv) {
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("KSIM_REEXEC")) {
    if (personality(pers | ADDR_NO_RANDOMIZE) != -1) {
      setenv("KSIM_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  std::map<std::string, std::string> a;
  std::vector<std::string> pos;
  for (int i = 1; i < argc; ++i) {
    if (!strncmp(argv[i], "--", 2)) {
      std::string k = argv[i] + 2;
      if (k == "verbose") a[k] = "1";
      else if (i + 1 < argc) a[k] = argv[++i];
    } else pos.push_back(argv[i]);
  }
  if (pos.empty()) { fprintf(stderr, "usage: ksim run|replay|hash|show ...\n"); return 2; }
  InitRuntime();
  {
    std::istringstream k(a.count("known") ? a["known"] : "");
    std::string t;
    while (std::getline(k, t, ',')) g_known.insert(t);
  }
  auto num = [&](const char *k, uint64_t d) { return a.count(k) ? strtoull(a[k].c_str(), nullptr, 10) : d; };
  uint64_t seed = num("seed", 1);
  if (pos[0] == "replay") {
    if (pos.size() < 2) return 2;
    std::string t;
    if (!ReadFile(pos[1].c_str(), &t)) { fprintf(stderr, "sim: cannot read %s\n", pos[1].c_str()); return 2; }
    Scenario s;
    std::map<std::string, std::string> ex;
    if (!Parse(t, &s, &ex) || !FindProperty(s.prop)) { fprintf(stderr, "sim: not a replay file\n"); return 2; }
    Stats st;
    Verdict v = CheckScenario(s, &st, true);   // same recording as when the file was made
    if (a.count("verbose")) fputs(v.log.c_str(), stdout);
    if (!v.violated) {
      printf("HELD %s%s\n", s.prop.c_str(), v.skipped ? " (skipped)" : "");
      for (auto &k : st.known_msgs) printf("KNOWN %s %s\n", k.first.c_str(), k.second.c_str());
      return 0;
    }
    if (a.count("save")) WriteFile(a["save"], ReplayText(s, v));
    for (char &ch : v.msg) if (ch == '\n') ch = ' ';
    printf("VIOLATED %s %s hash=%llu\n%s\n", s.prop.c_str(), v.cls.c_str(), (unsigned long long)v.hash, v.msg.c_str());
    if (ex.count("class") && (ex["class"] != v.cls || strtoull(ex["hash"].c_str(), nullptr, 10) != v.hash)) {
      printf("DIFFERS from the recorded execution\n");
      return 4;
    }
    return 1;
  }
  const Property *p = FindProperty(a["prop"]);
  if (!p) { fprintf(stderr, "sim: unknown property\n"); return 2; }
  if (pos[0] == "run")
    return CmdRun(p, seed, num("worker", 0), num("workers", 1), num("count", 100), a.count("time") ? atof(a["time"].c_str()) : 1e9,
                  a.count("out") ? a["out"] : "/tmp/ksim", a.count("replays") ? a["replays"] : "/tmp",
                  a.count("minimise") ? atof(a["minimise"].c_str()) : 45);
  if (pos[0] == "hash") {
    Stats st;
    for (uint64_t i = num("from", 0); i < num("to", 10); ++i) {
      Verdict v = CheckScenario(Make(p, seed, i, &st), &st);
      printf("%llu %016llx %s\n", (unsigned long long)i, (unsigned long long)v.hash, v.cls.c_str());
    }
    return 0;
  }
  if (pos[0] == "show") {
    Stats st;
    Scenario s = Make(p, seed, num("from", 0), &st);
    fputs(Serialize(s).c_str(), stdout);
    if (a.count("verbose")) {
      Verdict v = CheckScenario(s, &st, true);
      fputs(v.log.c_str(), stdout);
      printf("%s %s %s\n", v.violated ? "VIOLATED" : v.skipped ? "SKIPPED" : "HELD", v.cls.c_str(), v.msg.c_str());
    }
    return 0;
  }
  return 2;
}
