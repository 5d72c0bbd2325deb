// C29: command line parsers. Included by lib.cc, inside its namespace.
// Variables that options and arguments write; one of eight types each.
struct PVars {
  bool b[3];
  int32_t i[3];
  uint32_t u[3];
  uint64_t z[3];
  float f[3];
  double d[3];
  std::string s[3];
  uint16_t h[3];
};
struct PVal {
  double d = 0;
  int64_t i = 0;
  uint64_t u = 0;
  std::string s;
  bool operator==(const PVal &o) const { return (d == o.d) && i == o.i && u == o.u && s == o.s; }
};
static const int kVars = 24;
struct PReg {
  std::string name, help;                // name as it is looked up
  int var;
};

PVal PRead(const PVars &v, int k) {
  PVal x;
  const int j = k / 8;
  switch (k % 8) {
    case 0: x.u = v.b[j]; break;
    case 1: x.i = v.i[j]; break;
    case 2: x.u = v.u[j]; break;
    case 3: x.u = v.z[j]; break;
    case 4: x.d = v.f[j]; break;
    case 5: x.d = v.d[j]; break;
    case 6: x.s = v.s[j]; break;
    default: x.u = v.h[j]; break;
  }
  return x;
}
const char *PType(int k) {
  static const char *const n[] = {"bool", "int32_t", "uint32_t", "uint64_t", nullptr, nullptr, "string", "uint16_t"};
  return k % 8 == 4 ? typeid(float).name() : k % 8 == 5 ? typeid(double).name() : n[k % 8];
}
std::string PText(const PVal &v, int k) {
  std::ostringstream o;
  switch (k % 8) {
    case 0: o << (v.u ? "true" : "false"); break;
    case 1: o << v.i; break;
    case 2: case 3: case 7: o << v.u; break;
    case 4: o << (float)v.d; break;
    case 5: o << v.d; break;
    default: o << v.s; break;
  }
  return o.str();
}
// Values that are good, and ones that are not.
static const char *const kGood[8][10] = {
    {"true", "false", "1", "0", "true", "false", "1", "0", "true", "false"},
    {"0", "-1", "17", "2147483647", "-2147483648", "+5", "007", "-0", "123456", "-99999"},
    {"0", "1", "17", "4294967295", "65536", "+5", "007", "10", "123456", "99999"},
    {"0", "1", "17", "18446744073709551615", "4294967296", "+5", "007", "10", "9223372036854775808", "99999"},
    {"0", "-1.5", "0.25", "1e5", "-2.5e-3", "+5", "007.5", ".5", "3.", "16777216"},
    {"0", "-1.5", "0.1", "1e300", "-2.5e-3", "+5", "007.5", ".5", "3.", "0.30000000000000004"},
    {"", "x", "-", "--", "two words", "a-text-that-is-too-long-for-the-small-buffer-of-a-string", "1", "=", " lead", "trail "},
    {"0", "1", "17", "65535", "256", "+5", "007", "10", "12345", "9999"}};
static const char *const kBad[8][6] = {{"TRUE", "2", "yes", "true ", "truefalse", "01"},
                                       {"", "x", "1x", "2147483648", " 1", "1.5"},
                                       {"", "-1", "1 ", "4294967296", "-0", "0x10"},
                                       {"", "-1", "18446744073709551616", "1e3", "1,000", "--1"},
                                       {"", "x", "1e", "1e99", "1.5x", "1..2"},
                                       {"", "1.5 ", " 2", "1e999", "nan", "0x1p3"},
                                       {nullptr, nullptr, nullptr, nullptr, nullptr, nullptr},
                                       {"", "-1", "65536", "99999999999999999999", "3 4", "ten"}};
bool PGood(int k, const std::string &t, PVal *out) {
  const int type = k % 8;
  *out = PVal();
  if (type == 6) { out->s = t; return true; }
  if (type == 0) {
    out->u = t == "true" || t == "1";
    return out->u || t == "false" || t == "0";
  }
  const char *c = t.c_str();
  char *end = nullptr;
  if (t.empty() || (type != 1 && type != 4 && type != 5 && t[0] == '-')) return false;
  if (t.find_first_not_of(type == 4 || type == 5 ? "+-.0123456789eE" : "+-0123456789") != std::string::npos) return false;
  errno = 0;
  switch (type) {
    case 1: out->i = strtol(c, &end, 10); break;
    case 4: out->d = strtof(c, &end); break;
    case 5: out->d = strtod(c, &end); break;
    default: out->u = strtoull(c, &end, 10); break;
  }
  if (errno || *end) return false;
  if (type == 1) return out->i >= INT32_MIN && out->i <= INT32_MAX;
  return type == 2 ? out->u <= UINT32_MAX : type == 7 ? out->u <= UINT16_MAX : true;
}
std::string POptName(int64_t k) { return k == 11 ? "help" : CodeName(k % 4 == 3 ? "Opt_" : "opt-", k); }

struct PModel {
  std::string prog, desc;
  std::map<std::string, PReg> opts;
  std::vector<PReg> args, more;

  std::string Help(const PVars &v) const {
    std::string t = "Usage: " + prog;
    if (!opts.empty()) t += " [ options ]";
    for (auto &a : args) t += " " + a.name;
    for (auto &a : more) t += " [ " + a.name;
    for (size_t i = 0; i < more.size(); ++i) t += " ]";
    t += "\n";
    if (!desc.empty()) t += "\nDescription:\n" + desc + "\n";
    size_t w = 0;
    for (auto &o : opts) w = std::max(w, o.first.size() + 2);
    for (auto &a : args) w = std::max(w, a.name.size());
    for (auto &a : more) w = std::max(w, a.name.size());
    auto pad = [w](std::string n) { n.resize(std::max(w, n.size()), ' '); return n; };
    if (!args.empty() || !more.empty()) t += "\nArguments:\n";
    for (auto l : {&args, &more})
      for (auto &a : *l) t += "  " + pad(a.name) + " : " + a.help + " (type = " + PType(a.var) + ")\n";
    if (!opts.empty()) t += "\nOptions:\n";
    for (auto &o : opts)
      t += "  " + pad("--" + o.first) + " : " + o.second.help + " (type = " + PType(o.second.var) + ", value = \"" + PText(PRead(v, o.second.var), o.second.var) +
           "\")\n";
    return t;
  }
  // Whether `line` is right; `set`: what it assigns; `touched`: what may change.
  bool Fits(const std::vector<std::string> &line, std::map<int, PVal> *set, std::set<int> *touched) const {
    size_t i = 0;
    PVal x;
    while (i < line.size()) {
      const std::string &t = line[i];
      if (t.size() < 2 || t[0] != '-') break;
      ++i;
      if (t == "--") break;
      auto o = t[1] == '-' ? opts.find(t.substr(2)) : opts.end();
      if (o == opts.end()) return false;
      const int var = o->second.var;
      if (var % 8 == 0) {
        touched->insert(var);
        if (i < line.size() && (line[i].empty() || line[i][0] != '-')) {
          if (line[i].empty()) x = PVal(), x.u = 1;
          else if (!PGood(var, line[i], &x)) return false;
          ++i;
        } else {
          x = PVal();
          x.u = 1;
        }
      } else {
        if (i == line.size()) return false;
        touched->insert(var);
        if (!PGood(var, line[i++], &x)) return false;
      }
      (*set)[var] = x;
    }
    for (auto l : {&args, &more})
      for (auto &a : *l) {
        if (i == line.size()) { if (l == &args) return false; break; }
        touched->insert(a.var);
        if (!PGood(a.var, line[i++], &x)) return false;
        (*set)[a.var] = x;
      }
    return i == line.size();
  }
};

std::vector<std::string> PLine(const PModel &m, const std::vector<int64_t> &op) {
  std::vector<std::string> line;
  auto value = [](int var, int64_t k) { return std::string(kGood[var % 8][k % 10]); };
  auto wrong = [](int var, int64_t k) { return var % 8 == 6 ? std::string("any") : std::string(kBad[var % 8][k % 6]); };
  for (size_t i = 7; i < op.size(); ++i) {
    const int64_t kind = op[i] % 9, k = op[i] / 9;
    const PReg *r = nullptr;
    if (!m.opts.empty()) { auto it = m.opts.begin(); std::advance(it, k % m.opts.size()); r = &it->second; }
    const std::string name = r ? "--" + r->name : "--none";
    const int64_t q = k / 16;
    switch (kind) {
      case 0: case 8:
        if (!r) break;
        line.push_back(name);
        if (r->var % 8 != 0 || q % 2) line.push_back(value(r->var, q / 2));
        break;
      case 1: if (r) { line.push_back(name); line.push_back(wrong(r->var, q)); } break;
      case 2: {
        if (!r || q % 3 == 0) { line.push_back("--" + POptName(q % 11)); break; }
        // nearly the name of an option
        std::string near = name;
        const int64_t z = q / 3;
        const size_t at = 2 + (size_t)(z / 8) % (name.size() - 2);
        switch (z % 8) {
          case 0: case 1: near.resize(at); break;
          case 2: near.resize(name.size() - 1); break;
          case 3: near += z & 8 ? " " : "x"; break;
          case 4: for (char &ch : near) ch = (char)(isupper((unsigned char)ch) ? tolower((unsigned char)ch) : toupper((unsigned char)ch)); break;
          case 5: for (size_t i = 2; i < near.size(); ++i) near[i] = near[i] == '-' ? '_' : near[i] == '_' ? '-' : near[i]; break;
          case 6: near.insert(2, z & 8 ? "no-" : "-"); break;
          default: near[at] ^= 1; break;
        }
        line.push_back(near);
        if (r->var % 8 != 0 || z & 64) line.push_back(value(r->var, z));
        break;
      }
      case 3: line.push_back("--"); break;
      case 4: line.push_back(kGood[q % 8][q / 8 % 10]); break;
      case 5: line.push_back(name); break;
      case 6: line.push_back(name.substr(1)); break;
      default: line.push_back(name + "=" + value(r ? r->var : 1, q)); break;
    }
  }
  // the positional arguments
  size_t n = m.args.size() + (op[3] >> 4) % (m.more.size() + 1);
  if ((op[3] & 3) == 1) n += 1;
  if ((op[3] & 3) == 2 && n > 0) n -= 1;
  if (!line.empty() && line.back().compare(0, 2, "--") == 0 && n > 0) line.push_back("--");   // or a flag would take the first
  for (size_t i = 0; i < n; ++i) {
    const int var = i < m.args.size() ? m.args[i].var : i - m.args.size() < m.more.size() ? m.more[i - m.args.size()].var : 1;
    std::string v = (op[3] & 12) == 4 && (int64_t)i == (op[3] >> 8) % (int64_t)n ? wrong(var, op[3] >> 9) : value(var, (op[3] >> 6) + i * 3);
    if (i == 0 && v.size() > 1 && v[0] == '-' && (line.empty() || line.back() != "--")) line.push_back("--");
    line.push_back(v);
  }
  return line;
}

template <class T> void PRegister(kws::cmd::Parser *p, int how, const std::string &name, const std::string &help, T *v, bool *ok) {
  if (how == 1) *ok = p->RegisterOption(name, help, v);
  else if (how == 2) p->RegisterArgument(name, help, v);
  else p->RegisterOptArgument(name, help, v);
}

void ParserHistory(const Scenario &s, bool faults) {
  using kws::cmd::Parser;
  std::unique_ptr<PVars> vars(new PVars());
  std::unique_ptr<Parser> p[2];
  PModel m[2];
  for (int i = 0; i < 2; ++i) {
    p[i].reset(new Parser("program"));
    Quiet q;
    m[i].prog = "program";
  }
  for (size_t step = 0; step < s.lib.size(); ++step) {
    const std::vector<int64_t> &op = s.lib[step];
    if (op.size() < 7) continue;
    const int k = (int)(op[1] & 1), how = (int)op[0];
    const int64_t n = op[2], x = op[3], fn = faults ? op[4] : -1;
    const bool sticky = op[5] != 0;
    std::string bad;
    int rc = 0;
    { Quiet q; NoteLog("parser %d", how); }
    switch (how) {
      case 0: {                                          // another parser
        std::unique_ptr<std::string> prog, desc;
        { Quiet q; prog.reset(new std::string(CodeName("program", n % 3))); desc.reset(new std::string(n % 5 ? CodeName("What it does.\nAnd ", n) : "")); }
        Parser *fresh = nullptr;
        rc = Guarded(fn, sticky, [&] { fresh = n % 5 ? new Parser(*prog, *desc) : new Parser(*prog); });
        if (!rc) p[k].reset(fresh);
        Quiet q;
        if (!rc) { m[k] = PModel(); m[k].prog = *prog; m[k].desc = *desc; }
        std::fill(prog->begin(), prog->end(), '#');
        break;
      }
      case 1: case 2: case 3: {                          // register
        std::unique_ptr<std::string> name, help;
        PReg r;
        bool ok = true, want = true;
        PModel after;
        {
          Quiet q;
          if (how > 1 && m[k].args.size() + m[k].more.size() > 5) break;
          r.name = how == 1 ? POptName(n % 12) : CodeName(how == 2 ? "argument" : "more", n % 6);
          r.help = CodeName("what it is for ", x % 5);
          r.var = (int)(x / 5 % kVars);
          after = m[k];
          if (how == 1) {
            want = r.name != "help" && !m[k].opts.count(r.name);
            if (want) after.opts[r.name] = r;
          } else {
            (how == 2 ? after.args : after.more).push_back(r);
          }
          name.reset(new std::string(r.name));
          help.reset(new std::string(r.help));
        }
        rc = Guarded(fn, sticky, [&] {
          const int j = r.var / 8;
          switch (r.var % 8) {
            case 0: PRegister(p[k].get(), how, *name, *help, &vars->b[j], &ok); break;
            case 1: PRegister(p[k].get(), how, *name, *help, &vars->i[j], &ok); break;
            case 2: PRegister(p[k].get(), how, *name, *help, &vars->u[j], &ok); break;
            case 3: PRegister(p[k].get(), how, *name, *help, &vars->z[j], &ok); break;
            case 4: PRegister(p[k].get(), how, *name, *help, &vars->f[j], &ok); break;
            case 5: PRegister(p[k].get(), how, *name, *help, &vars->d[j], &ok); break;
            case 6: PRegister(p[k].get(), how, *name, *help, &vars->s[j], &ok); break;
            default: PRegister(p[k].get(), how, *name, *help, &vars->h[j], &ok); break;
          }
        });
        Quiet q;
        std::fill(name->begin(), name->end(), '#');      // the caller's texts are the caller's
        std::fill(help->begin(), help->end(), '#');
        if (!rc && ok != want) bad = Str("registering '", r.name, "' ", ok ? "succeeds" : "fails");
        if (!rc) m[k] = after;
        else if (p[k]->Help() == after.Help(*vars)) m[k] = after;
        break;
      }
      case 4: {                                          // parse
        std::vector<std::string> line;
        std::unique_ptr<std::vector<std::string>> words;
        std::vector<const char *> argv;
        std::map<int, PVal> set;
        std::set<int> touched;
        PVal before[kVars];
        bool fits, got = false;
        {
          Quiet q;
          line = PLine(m[k], op);
          words.reset(new std::vector<std::string>(line));
          argv.push_back("program");
          for (auto &w : *words) argv.push_back(w.c_str());
          argv.push_back(nullptr);
          fits = m[k].Fits(line, &set, &touched);
          for (int i = 0; i < kVars; ++i) before[i] = PRead(*vars, i);
        }
        rc = Guarded(fn, sticky, [&] { got = p[k]->Parse((int)line.size() + 1, argv.data()); });
        Quiet q;
        for (auto &w : *words) std::fill(w.begin(), w.end(), '#');
        words.reset();
        std::string shown;
        for (auto &w : line) shown += " '" + w + "'";
        if (!rc && got && !fits) bad = "it accepts" + shown;
        if (!rc && !got && fits && !guard_fired) bad = "it rejects" + shown;
        for (int i = 0; i < kVars && bad.empty(); ++i) {
          const PVal now = PRead(*vars, i);
          if (!touched.count(i)) { if (!(now == before[i])) bad = Str("a value that is not on the line changes:", shown); }
          else if (!rc && got && !(now == set[i])) bad = Str("the value of a ", PType(i), " is '", PText(now, i), "' after", shown);
        }
        if (!rc) Count(got ? 8 : 9);
        break;
      }
      case 5: {                                          // help
        std::string text;
        rc = Guarded(fn, sticky, [&] { text = p[k]->Help(); });
        Quiet q;
        if (!rc && !guard_fired) {
          const std::string want = m[k].Help(*vars);
          if (text != want) bad = Str("the help text is\n", text, "instead of\n", want);
          Count(10);
        }
        std::string().swap(text);
        break;
      }
      case 6: {                                          // the program sets a variable itself
        const int var = (int)(x % kVars), j = var / 8;
        Quiet q;
        switch (var % 8) {
          case 0: vars->b[j] = n & 1; break;
          case 1: vars->i[j] = (int32_t)(n - 20); break;
          case 2: vars->u[j] = (uint32_t)n * 1000; break;
          case 3: vars->z[j] = (uint64_t)n << 33; break;
          case 4: vars->f[j] = n / 8.0f; break;
          case 5: vars->d[j] = n / 16.0; break;
          case 6: vars->s[j] = CodeName("text", n); break;
          default: vars->h[j] = (uint16_t)n; break;
        }
        break;
      }
      default: {                                         // no more of it
        p[k].reset();
        rc = Guarded(-1, false, [&] { p[k].reset(new Parser("program")); });
        Quiet q;
        m[k] = PModel();
        m[k].prog = "program";
        break;
      }
    }
    Quiet q;
    if (rc == 1) Count(2);
    if (bad.empty() && (rc || step + 1 == s.lib.size()))
      for (int i = 0; i < 2 && bad.empty(); ++i)
        if (p[i]->Help() != m[i].Help(*vars)) bad = rc ? "a failed operation leaves something half done" : "the registrations are not what they were";
    if (!bad.empty()) { Report("parser-deviates", Str("step ", step, " (operation ", op[0], "): ", bad)); return; }
  }
  p[0].reset();
  p[1].reset();
  Quiet q;
  vars.reset();
}
void RunParsers(const Scenario &s) {
  size_t l[4];
  for (int i = 0; i < 4; ++i) {
    ParserHistory(s, i >= 2);
    Quiet q;
    l[i] = LiveBlocks();
  }
  Quiet q;
  if (l[1] > l[0]) Report("memory-leak", Str("every repetition of the history leaves ", l[1] - l[0], " more blocks behind"));
  else if (l[3] > l[2]) Report("memory-leak", Str("every repetition of the history with its failures leaves ", l[3] - l[2], " more blocks behind"));
}
