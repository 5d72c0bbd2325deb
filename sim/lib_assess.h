// C28: assessment functions. Included by lib.cc, inside its namespace.
typedef Match<IntRef, IntHyp> AMatch;
typedef std::vector<AMatch> AList;
typedef std::vector<AList> AGroups;

struct ARow {
  bool hyp, ref;
  int32_t q, loc;
  float score, fp, fn;
  bool operator==(const ARow &o) const {
    return hyp == o.hyp && ref == o.ref && q == o.q && loc == o.loc && fp == o.fp && fn == o.fn && (!hyp || score == o.score);
  }
  double NH() const { return fp > 0 || fn < 1; }
  double NR() const { return fp < 1 || fn > 0; }
};
typedef std::vector<ARow> ARows;
typedef std::vector<ARows> AGroupRows;

ARow DecodeRow(int64_t c) {
  ARow r = {};
  const int64_t kind = c % 5;
  c /= 5;
  r.q = (int32_t)(c % 4); c /= 4;
  r.loc = (int32_t)(c % 3); c /= 3;
  r.score = (float)(c % 7) * 0.25f - 0.5f; c /= 7;
  if (c % 4 == 1) r.score = std::nextafter(r.score, 10.0f);
  c /= 4;
  r.hyp = kind != 1;
  r.ref = kind != 0;
  if (kind == 0) r.fp = 1;
  else if (kind == 1) r.fn = 1;
  else if (kind >= 3) { r.fp = (float)(c % 9) / 8; c /= 9; r.fn = (float)(c % 9) / 8; }
  if (!r.hyp) r.score = 0;
  return r;
}
AMatch MakeRow(const ARow &r) {
  IntRef e(r.q, r.loc);
  if (r.hyp && r.ref) return AMatch(e, IntHyp(e, r.score), MatchError(r.fp, r.fn));
  return r.hyp ? AMatch::MakeFalsePositive(IntHyp(e, r.score)) : AMatch::MakeFalseNegative(e);
}
ARow RowOf(const AMatch &m) {
  ARow r = {};
  r.hyp = m.HasHyp();
  r.ref = m.HasRef();
  if (r.ref) { r.q = m.GetRef().Query(); r.loc = m.GetRef().Location(); }
  if (r.hyp) { r.q = m.GetHyp().Query(); r.loc = m.GetHyp().Location(); r.score = m.GetHyp().Score(); }
  r.fp = m.GetError().FP();
  r.fn = m.GetError().FN();
  return r;
}
ARows RowsOf(const AList &l) {
  ARows r;
  for (auto &m : l) r.push_back(RowOf(m));
  return r;
}

// ---- the definitions
struct ABlock { double nh, nr, fp, fn; };
std::vector<ABlock> BlocksOf(const ARows &l, bool collapse) {
  std::vector<ABlock> b;
  for (size_t i = 0; i < l.size(); ++i) {
    const bool same = collapse && i > 0 && l[i].hyp == l[i - 1].hyp && (!l[i].hyp || l[i].score == l[i - 1].score);
    if (!same) b.push_back(ABlock());
    ABlock &k = b.back();
    k.nh += l[i].NH();
    k.nr += l[i].NR();
    k.fp += l[i].fp;
    k.fn += l[i].fn;
  }
  return b;
}
void CurveOf(const std::vector<ABlock> &b, bool interpolate, std::vector<double> *pr, std::vector<double> *rc) {
  double tr = 0, nh = 0, nr = 0, fp = 0, fn = 0;
  for (auto &k : b) tr += k.nr;
  pr->clear();
  rc->clear();
  for (auto &k : b) {
    nh += k.nh; nr += k.nr; fp += k.fp; fn += k.fn;
    pr->push_back(nh > 0 ? 1 - fp / nh : 1);
    rc->push_back(tr > 0 ? (nr - fn) / tr : 1);
  }
  if (interpolate)
    for (size_t i = pr->size(); i-- > 1;) if ((*pr)[i] > (*pr)[i - 1]) (*pr)[i - 1] = (*pr)[i];
}
struct AOpts { bool collapse, interpolate, trapezoid; };
double ApOf(const ARows &l, const AOpts &o) {
  std::vector<double> pr, rc;
  CurveOf(BlocksOf(l, o.collapse), o.interpolate, &pr, &rc);
  double ap = 0;
  for (size_t i = 0; i < pr.size(); ++i)
    ap += (rc[i] - (i ? rc[i - 1] : 0)) * (o.trapezoid && i ? (pr[i] + pr[i - 1]) / 2 : pr[i]);
  return ap;
}
double ApFromErrors(const std::vector<ABlock> &b, const std::vector<double> &pr, bool trapezoid) {
  double tr = 0, sum = 0;
  for (auto &k : b) tr += k.nr;
  for (size_t i = 0; i < b.size(); ++i) sum += (b[i].nh - b[i].fp) * (trapezoid && i ? (pr[i] + pr[i - 1]) / 2 : pr[i]);
  return tr > 0 ? sum / tr : 0;
}
double NdcgOfBlocks(const std::vector<ABlock> &b) {
  double tr = 0, dcg = 0, z = 0, rank = 1;
  for (auto &k : b) tr += k.nr;
  if (tr == 0) return 0;
  for (auto &k : b)
    for (double j = 0; j < k.nh; ++j, ++rank) dcg += (std::pow(2.0, 1 - k.fp / k.nh) - 1) / std::log2(rank + 1);
  for (double j = 1; j <= tr; ++j) z += 1 / std::log2(j + 1);
  return dcg / z;
}
double NdcgOf(const ARows &l, const AOpts &o) { return NdcgOfBlocks(BlocksOf(l, o.collapse)); }
void SortRows(ARows *l) {
  std::stable_sort(l->begin(), l->end(), [](const ARow &a, const ARow &b) { return a.hyp && b.hyp ? a.score > b.score : a.hyp && !b.hyp; });
}
// which: 0 gAP, 1 mAP, 2 gNDCG, 3 mNDCG
double StatOf(int which, AGroupRows g, const AOpts &o, bool sort) {
  if (which == 0 || which == 2) {
    ARows all;
    for (auto &l : g) all.insert(all.end(), l.begin(), l.end());
    if (sort) SortRows(&all);
    return which == 0 ? ApOf(all, o) : NdcgOf(all, o);
  }
  double sum = 0;
  for (auto &l : g) {
    if (sort) SortRows(&l);
    sum += which == 1 ? ApOf(l, o) : NdcgOf(l, o);
  }
  return g.empty() ? 0 : sum / g.size();
}
// The order of matches with equal scores is open when they are sorted; it matters
// unless they are alike or counted as one.
bool OrderMatters(const AGroupRows &g) {
  std::map<std::pair<bool, float>, std::pair<float, float>> seen;
  for (auto &l : g)
    for (auto &a : l) {
      auto at = seen.emplace(std::make_pair(a.hyp, a.hyp ? a.score : 0), std::make_pair(a.fp, a.fn));
      if (at.first->second != std::make_pair(a.fp, a.fn)) return true;
    }
  return false;
}
// `n` values were added up.
bool Near(double a, double b, double tol, size_t n = 0) { return std::fabs(a - b) <= tol * (1 + n / 500.0); }

size_t Total(const AGroupRows &g) {
  size_t n = 0;
  for (auto &l : g) n += l.size();
  return n;
}
struct AStats {                        // the statistics, as objects
  std::unique_ptr<kws::core::GlobalAP<AMatch>> gap;
  std::unique_ptr<kws::core::MeanAP<AMatch>> map;
  std::unique_ptr<kws::core::GlobalNDCG<AMatch>> gn;
  std::unique_ptr<kws::core::MeanNDCG<AMatch>> mn;
  AOpts o[4];
  const kws::core::Statistic<AMatch> *At(int k) const {
    return k == 0 ? (const kws::core::Statistic<AMatch> *)gap.get() : k == 1 ? (const kws::core::Statistic<AMatch> *)map.get()
           : k == 2 ? (const kws::core::Statistic<AMatch> *)gn.get() : (const kws::core::Statistic<AMatch> *)mn.get();
  }
};

struct ABench {
  static const int K = 3;
  AList l[K];
  AGroups g[K];
  std::vector<double> v[5];
  AStats st[2];
  // the model
  ARows ml[K];
  AGroupRows mg[K];
  std::vector<double> mv[5];
  bool kl[K] = {true, true, true}, kg[K] = {true, true, true}, kv[5] = {true, true, true, true, true};
  std::vector<AOpts> unused;

  std::string Compare() const {
    for (int i = 0; i < K; ++i) {
      if (kl[i] && !(RowsOf(l[i]) == ml[i])) return Str("list ", i, " of ", ml[i].size(), " matches is not what it was");
      if (!kg[i]) continue;
      bool same = g[i].size() == mg[i].size();
      for (size_t j = 0; same && j < g[i].size(); ++j) same = RowsOf(g[i][j]) == mg[i][j];
      if (!same) return Str("the groups ", i, " are not what they were");
    }
    for (int i = 0; i < 5; ++i) if (kv[i] && v[i] != mv[i]) return Str("numbers ", i, " are not what they were");
    return "";
  }
};
AOpts DecodeOpts(int64_t c) { return AOpts{(c & 1) != 0, (c & 2) != 0, (c & 4) != 0}; }

std::string CheckNumbers(const std::vector<double> &got, const std::vector<double> &want, double tol, const char *what) {
  if (got.size() != want.size()) return Str(what, ": ", got.size(), " values instead of ", want.size());
  for (size_t i = 0; i < got.size(); ++i)
    if (!Near(got[i], want[i], tol)) return Str(what, ": value ", i, " is ", got[i], " instead of ", want[i]);
  return "";
}

void RunAssess(const Scenario &s) {
  using namespace kws::core;
  ABench b;
  for (auto &x : b.st) {
    for (auto &o : x.o) o = AOpts{true, true, true};
    x.gap.reset(new GlobalAP<AMatch>(true, true, true));
    x.map.reset(new MeanAP<AMatch>(true, true, true));
    x.gn.reset(new GlobalNDCG<AMatch>(true));
    x.mn.reset(new MeanNDCG<AMatch>(true));
  }
  for (size_t step = 0; step < s.lib.size(); ++step) {
    const std::vector<int64_t> &op = s.lib[step];
    if (op.size() < 7) continue;
    const int a = (int)(op[1] % ABench::K), c = (int)(op[2] % ABench::K);
    const int64_t n = op[3];
    const AOpts o = DecodeOpts(n);
    std::string bad;
    int rc = 0;
    { Quiet q; NoteLog("assess %d", (int)op[0]); }
    auto guarded = [&](std::function<void()> f) { rc = Guarded(op[4], op[5] != 0, f); };
    switch (op[0]) {
      case 0: {                                          // another list
        Quiet q;
        AList fresh;
        b.ml[a].clear();
        for (size_t i = 7; i < op.size(); ++i) { b.ml[a].push_back(DecodeRow(op[i])); fresh.push_back(MakeRow(b.ml[a].back())); }
        const size_t base = b.ml[a].size();              // a long list: the same again and again
        for (size_t i = 0; base && (int64_t)b.ml[a].size() < op[6]; ++i) {
          b.ml[a].push_back(b.ml[a][i % base]);
          fresh.push_back(fresh[i % base]);
        }
        b.l[a].swap(fresh);
        b.kl[a] = true;
        break;
      }
      case 1: {                                          // sort a list
        guarded([&] { SortMatchesDecreasingScore(&b.l[a]); });
        Quiet q;
        if (rc) { b.kl[a] = false; break; }
        ARows now = RowsOf(b.l[a]), was = b.ml[a];
        if (!b.kl[a]) { b.ml[a] = now; b.kl[a] = true; break; }
        for (size_t i = 1; i < now.size(); ++i)
          if (now[i].hyp && (!now[i - 1].hyp || now[i - 1].score < now[i].score)) bad = "the sorted list is not in order";
        auto before = [](const ARow &x, const ARow &y) {
          return std::tie(x.hyp, x.ref, x.q, x.loc, x.score, x.fp, x.fn) < std::tie(y.hyp, y.ref, y.q, y.loc, y.score, y.fp, y.fn);
        };
        ARows sorted = now;
        std::sort(sorted.begin(), sorted.end(), before);
        std::sort(was.begin(), was.end(), before);
        if (!(sorted == was)) bad = "the sorted list has other matches";
        b.ml[a] = now;
        break;
      }
      case 2: {                                          // group a list
        std::unordered_map<int32_t, int32_t> m;
        { Quiet q; for (int k = 0; k < 4; ++k) if (n >> k & 1) m[k] = (int32_t)(n >> (4 + 2 * k) & 3) + (n & 4096 ? 0 : 100); }
        guarded([&] { GroupMatchesByQueryGroup(b.l[a], m, &b.g[c]); });
        Quiet q;
        b.kg[c] = rc == 0;
        if (rc) break;
        if (!b.kl[a]) { b.mg[c].clear(); for (auto &x : b.g[c]) b.mg[c].push_back(RowsOf(x)); break; }
        AGroupRows want;
        std::map<int32_t, size_t> at;
        for (auto &r : b.ml[a]) {
          auto it = m.find(r.q);
          size_t p = at.emplace(it == m.end() ? r.q : it->second, at.size()).first->second;
          if (p == want.size()) want.emplace_back();
          want[p].push_back(r);
        }
        bool same = want.size() == b.g[c].size();
        for (size_t i = 0; same && i < want.size(); ++i) same = RowsOf(b.g[c][i]) == want[i];
        if (!same) bad = "wrong groups";
        b.mg[c] = want;
        break;
      }
      case 3: {                                          // precision and recall
        const int p = (int)(op[2] % 5), r = (int)((op[2] + 1 + op[1] / 3 % 4) % 5);
        const int how = (int)(op[1] / 12 % 4);
        std::vector<MatchErrorCounts> points;
        std::vector<ABlock> blocks;
        double ap = 0, ndcg = 0;
        if (how == 3) {                                  // from points of any errors, also of none
          Quiet q;
          uint64_t h = (uint64_t)n;
          for (auto &m : b.l[a]) {
            h = h * 6364136223846793005u + 1442695040888963407u;
            if ((h >> 40) % 4 == 0) { points.emplace_back(); blocks.emplace_back(); }
            const ARow row = RowOf(m);
            if (points.empty() || (h >> 50) % 3) { points.emplace_back(); blocks.emplace_back(); }
            points.back() += m.GetError();
            ABlock &k = blocks.back();
            k.nh += row.NH(); k.nr += row.NR(); k.fp += row.fp; k.fn += row.fn;
          }
        }
        guarded([&] {
          if (how == 3) {
            ComputePrecisionAndRecall(points, o.interpolate, &b.v[p], &b.v[r]);
            ap = ComputeAP(points, b.v[p], o.trapezoid);
            ndcg = ComputeNDCG<double>(points);
            return;
          }
          if (how == 0) { ComputePrecisionAndRecall(b.l[a], o.collapse, o.interpolate, &b.v[p], &b.v[r]); return; }
          if (o.collapse) ComputePrecisionAndRecall(CollapseMatches(b.l[a]), o.interpolate, &b.v[p], &b.v[r]);
          else ComputePrecisionAndRecall(GetMatchErrors(b.l[a]), o.interpolate, &b.v[p], &b.v[r]);
        });
        Quiet q;
        b.kv[p] = b.kv[r] = rc == 0;
        if (rc) break;
        std::vector<double> wp, wr;
        if (how != 3) blocks = BlocksOf(RowsOf(b.l[a]), o.collapse);
        CurveOf(blocks, o.interpolate, &wp, &wr);
        bad = CheckNumbers(b.v[p], wp, 1e-12, "precision");
        if (bad.empty()) bad = CheckNumbers(b.v[r], wr, 1e-12, "recall");
        if (bad.empty() && how == 3) {
          const double wap = ApFromErrors(blocks, wp, o.trapezoid), wn = NdcgOfBlocks(blocks);
          if (!Near(ap, wap, 1e-9, blocks.size())) bad = Str("AP from errors is ", ap, ", the definition gives ", wap);
          else if (!Near(ndcg, wn, 1e-6, blocks.size())) bad = Str("NDCG from errors is ", ndcg, ", the definition gives ", wn);
        }
        b.mv[p] = b.v[p];
        b.mv[r] = b.v[r];
        Count(8);
        break;
      }
      case 4: {                                          // a statistic
        const int which = (int)(op[2] & 3), how = (int)(op[2] / 4 % 3);
        const bool sort = (n & 8) != 0, flat = (n & 16) != 0 && (which == 0 || which == 2);
        if (!flat && !b.kg[a]) break;
        if (flat && !b.kl[a]) break;
        double got = 0;
        AStats &st = b.st[op[1] / 3 & 1];
        const AOpts oo = how == 0 ? o : st.o[which];
        guarded([&] {
          if (how == 0) {
            if (flat) got = which == 0 ? ComputeGlobalAP(b.l[a], o.collapse, o.interpolate, o.trapezoid) : ComputeGlobalNDCG(b.l[a], o.collapse);
            else if (which == 0) got = ComputeGlobalAP(b.g[a], o.collapse, o.interpolate, o.trapezoid, sort);
            else if (which == 1) got = ComputeMeanAP(b.g[a], o.collapse, o.interpolate, o.trapezoid, sort);
            else if (which == 2) got = ComputeGlobalNDCG(b.g[a], o.collapse, sort);
            else got = ComputeMeanNDCG(b.g[a], o.collapse, sort);
          } else if (flat) {
            const GlobalStatistic<AMatch> &gs = which == 0 ? (const GlobalStatistic<AMatch> &)*st.gap : (const GlobalStatistic<AMatch> &)*st.gn;
            got = gs(b.l[a]);
          } else {
            got = (*st.At(which))(b.g[a], sort);
          }
        });
        Quiet q;
        if (rc) break;
        AGroupRows in = flat ? AGroupRows(1, b.ml[a]) : b.mg[a];
        if (!flat && sort && !oo.collapse && OrderMatters(in)) break;
        const double want = StatOf(which, in, oo, sort && !flat);
        static const char *const name[4] = {"gAP", "mAP", "gNDCG", "mNDCG"};
        if (!Near(got, want, which < 2 ? 1e-9 : 1e-6, Total(in))) bad = Str(name[which], " is ", got, ", the definition gives ", want);
        Count(9);
        break;
      }
      case 5: {                                          // AP from the errors of the points
        double got = 0;
        guarded([&] {
          std::vector<double> pr, rc2;
          if (o.collapse) {
            const auto e = CollapseMatches(b.l[a]);
            ComputePrecisionAndRecall(e, o.interpolate, &pr, &rc2);
            got = ComputeAP(e, pr, o.trapezoid);
          } else {
            const auto e = GetMatchErrors(b.l[a]);
            ComputePrecisionAndRecall(e, o.interpolate, &pr, &rc2);
            got = ComputeAP(e, pr, o.trapezoid);
          }
        });
        Quiet q;
        if (rc) break;
        const std::vector<ABlock> bl = BlocksOf(RowsOf(b.l[a]), o.collapse);
        std::vector<double> pr, rc2;
        CurveOf(bl, o.interpolate, &pr, &rc2);
        const double want = ApFromErrors(bl, pr, o.trapezoid);
        if (!Near(got, want, 1e-9, bl.size())) bad = Str("AP from errors is ", got, ", the definition gives ", want);
        break;
      }
      case 6: {                                          // sample a curve
        const int x = (int)(op[1] % 5), y = (int)(op[1] / 5 % 5), to = (int)(op[2] % 5), at = (int)(op[2] / 5 % 5);
        if (to == x || to == y || to == at || b.v[x].size() != b.v[y].size() || !b.kv[x] || !b.kv[y] || !b.kv[at]) break;
        if (!std::is_sorted(b.v[x].begin(), b.v[x].end()) || !std::is_sorted(b.v[at].begin(), b.v[at].end())) break;
        const bool linear = n & 1;
        guarded([&] { SampleCurveAtGivenPoints(b.v[x], b.v[y], b.v[at], &b.v[to], linear); });
        Quiet q;
        b.kv[to] = rc == 0;
        if (rc) break;
        std::vector<double> want;
        for (double p : b.v[at]) {
          size_t j = 0;
          while (j < b.v[x].size() && b.v[x][j] < p) ++j;
          if (j == b.v[x].size()) { want.push_back(0); continue; }
          if (!linear || j == 0) { want.push_back(b.v[y][j]); continue; }
          const double t = (b.v[x][j] - p) / (b.v[x][j] - b.v[x][j - 1]);
          want.push_back(t * b.v[y][j - 1] + (1 - t) * b.v[y][j]);
        }
        bad = CheckNumbers(b.v[to], want, 1e-9, "sampled curve");
        b.mv[to] = b.v[to];
        Count(10);
        break;
      }
      case 7: {                                          // evenly distributed points
        const int to = (int)(op[2] % 5);
        const size_t k = (size_t)(n % 40);
        guarded([&] { GetEvenlyDistributedPoints01Interval(k, &b.v[to]); });
        Quiet q;
        b.kv[to] = rc == 0;
        if (rc) break;
        std::vector<double> want;
        for (size_t i = 0; k > 1 && i < k; ++i) want.push_back((double)i / (k - 1));
        bad = CheckNumbers(b.v[to], want, 1e-15, "points");
        b.mv[to] = b.v[to];
        break;
      }
      case 8: {                                          // write a curve
        const int x = (int)(op[1] % 5), y = (int)(op[2] % 5);
        std::string name, before;
        { Quiet q; name = BenchFile(8 + (n & 1)); before = FileContents(name); }
        bool refused = false;
        guarded([&] {
          try {
            WriteCurveToFile(name, b.v[x], b.v[y]);
          } catch (const std::invalid_argument &) {
            refused = true;
          }
        });
        Quiet q;
        if (OpenFds() != 0) { bad = "a written curve is left open"; break; }
        if (rc == 4) Count(6);
        if (rc) break;
        if (refused != (b.v[x].size() != b.v[y].size())) { bad = refused ? "a good curve is refused" : "a curve of unequal coordinates is accepted"; break; }
        if (refused && FileContents(name) != before) bad = "a refused curve changes the file";
        if (refused) break;
        std::string want, got;
        for (size_t i = 0; i < b.v[x].size(); ++i) {
          char t[80];
          snprintf(t, sizeof t, "%.6e %.6e\n", b.v[x][i], b.v[y][i]);
          want += t;
        }
        got = FileContents(name);
        if (got != want) bad = Str("the curve file has ", got.size(), " bytes instead of ", want.size(), ", or others");
        Count(11);
        break;
      }
      case 9: {                                          // an interval
        const int which = (int)(op[2] & 3);
        const bool sort = (n & 8) != 0, flaky = (n & 16) != 0;
        const size_t reps = (size_t)(n >> 5 & 15), seed = (size_t)(n >> 9 & 1023);
        static const double levels[] = {0.05, 0, 1, 0.5, 0.3, 0.1, 0.9, 0.02};
        const double alpha = levels[op[2] >> 2 & 7];
        AStats &st = b.st[op[1] / 3 & 1];
        if (!b.kg[a]) break;
        double got = 0, lo = 0, hi = 0;
        const Statistic<AMatch> *stat = st.At(which);
        guarded([&] {
          got = ComputePercentileBootstrapCI(b.g[a], reps, alpha, seed, [&](const AGroups &x) -> double {
            if (flaky && CallPoint(R_CB)) throw CallbackError();
            return (*stat)(x, sort);
          }, &lo, &hi);
        });
        Quiet q;
        if (rc) break;
        const AOpts &oo = st.o[which];
        const AGroupRows &g = b.mg[a];
        if (sort && !oo.collapse && OrderMatters(g)) break;
        const double tol = (which < 2 ? 1e-9 : 1e-6) * (1 + Total(g) / 500.0), want = StatOf(which, g, oo, sort);
        if (!Near(got, want, tol)) { bad = Str("the interval's score is ", got, ", the definition gives ", want); break; }
        std::vector<double> d;
        std::default_random_engine rng(seed);
        for (size_t r = 0; r < reps; ++r) {
          AGroupRows smp(g.size());
          if (!g.empty()) {
            std::uniform_int_distribution<size_t> qd(0, g.size() - 1);
            for (auto &x : smp) {
              const ARows &from = g[qd(rng)];
              std::uniform_int_distribution<size_t> md(0, from.size() - 1);
              for (size_t j = 0; j < from.size(); ++j) x.push_back(from[md(rng)]);
            }
          }
          d.push_back(StatOf(which, smp, oo, sort) - want);
        }
        std::sort(d.begin(), d.end());
        auto ok = [&](double got_bound, double f) {
          if (d.empty()) return Near(got_bound, want, tol);
          for (double e : {-1e-9, 0.0, 1e-9}) {
            double x = std::floor(f * reps + e);
            size_t i = x < 0 ? 0 : std::min((size_t)x, d.size() - 1);
            if (Near(got_bound, want - d[i], tol)) return true;
          }
          return false;
        };
        if (!ok(lo, 1 - alpha * 0.5) || !ok(hi, alpha * 0.5))
          bad = Str("the interval of ", want, " at level ", alpha, " with ", reps, " repetitions is [", lo, ", ", hi, "]");
        Count(7);
        break;
      }
      case 10: {                                         // a sample of a list
        if (b.l[a].empty() || a == c || !b.kl[a]) break;
        guarded([&] {
          MatchesSampler<IntRef, IntHyp> one((size_t)n);
          MatchesSampler<IntRef, IntHyp> two(one);
          AList other;
          one(b.l[a], &b.l[c]);
          two(b.l[a], &other);
          Quiet q;
          if (!(RowsOf(other) == RowsOf(b.l[c]))) bad = "two samplers with the same seed disagree";
        });
        Quiet q;
        b.kl[c] = rc == 0;
        if (rc) break;
        b.ml[c] = RowsOf(b.l[c]);
        if (b.ml[c].size() != b.ml[a].size()) bad = Str("a sample of ", b.ml[a].size(), " matches has ", b.ml[c].size());
        for (auto &r : b.ml[c])
          if (std::find(b.ml[a].begin(), b.ml[a].end(), r) == b.ml[a].end()) bad = "a sample has a match that was not there";
        break;
      }
      case 11: {                                         // copies
        if (n & 1) {
          guarded([&] { b.l[c] = b.l[a]; });
          b.kl[c] = rc == 0 && b.kl[a];
          Quiet q;
          b.ml[c] = b.ml[a];
        } else {
          guarded([&] { b.g[c] = b.g[a]; });
          b.kg[c] = rc == 0 && b.kg[a];
          Quiet q;
          b.mg[c] = b.mg[a];
        }
        break;
      }
      case 12: {                                         // the errors of a list
        size_t total = 0, points = 0;
        double nh = 0, nr = 0, fp = 0, fn = 0;
        guarded([&] {
          const auto e = GetMatchErrors(b.l[a]);
          total = NumTotalReferences(e);
          const auto k = CollapseMatches(b.l[a]);
          if (NumTotalReferences(k) != total) { Quiet q; bad = "collapsing changes the number of references"; }
          points = k.size();
          for (auto &x : k) { nh += x.NH(); nr += x.NR(); fp += x.FP(); fn += x.FN(); }
        });
        Quiet q;
        if (rc) break;
        const std::vector<ABlock> w = BlocksOf(RowsOf(b.l[a]), true);
        double wnh = 0, wnr = 0, wfp = 0, wfn = 0;
        for (auto &x : w) { wnh += x.nh; wnr += x.nr; wfp += x.fp; wfn += x.fn; }
        if (total != wnr || points != w.size() || nh != wnh || nr != wnr || !Near(fp, wfp, 1e-3) || !Near(fn, wfn, 1e-3))
          bad = Str("the errors of the list: ", total, " references, ", points, " points, ", nh, "/", nr, "/", fp, "/", fn, " instead of ", wnr, ", ",
                    w.size(), ", ", wnh, "/", wnr, "/", wfp, "/", wfn);
        break;
      }
      case 13: {                                         // statistics made, copied, assigned
        const int which = (int)(op[2] & 3), k = (int)(op[1] / 3 & 1), how = (int)(op[2] >> 2) % 3;
        AStats &x = b.st[k], &y = b.st[1 - k];
        guarded([&] {
          if (how == 0) {
            if (which == 0) x.gap.reset(new GlobalAP<AMatch>(o.collapse, o.interpolate, o.trapezoid));
            else if (which == 1) x.map.reset(new MeanAP<AMatch>(o.collapse, o.interpolate, o.trapezoid));
            else if (which == 2) x.gn.reset(new GlobalNDCG<AMatch>(o.collapse));
            else x.mn.reset(new MeanNDCG<AMatch>(o.collapse));
            x.o[which] = o;
          } else if (how == 1) {
            if (which == 0) x.gap.reset(new GlobalAP<AMatch>(*y.gap));
            else if (which == 1) x.map.reset(new MeanAP<AMatch>(*y.map));
            else if (which == 2) x.gn.reset(new GlobalNDCG<AMatch>(*y.gn));
            else x.mn.reset(new MeanNDCG<AMatch>(*y.mn));
            x.o[which] = y.o[which];
          } else {
            if (which == 0) *x.gap = *y.gap;
            else if (which == 1) *x.map = *y.map;
            else if (which == 2) *x.gn = *y.gn;
            else *x.mn = *y.mn;
            x.o[which] = y.o[which];
          }
        });
        break;
      }
      default: break;
    }
    Quiet q;
    if (rc == 1) Count(2);
    if (rc == 2) Count(3);
    if (bad.empty()) {
      bad = b.Compare();
      if (!bad.empty()) { Report("inputs-changed", Str("step ", step, " (operation ", op[0], rc ? ", failed): " : "): ", bad)); return; }
    } else {
      Report("wrong-assessment", Str("step ", step, " (operation ", op[0], "): ", bad));
      return;
    }
    if (rc && op[4] < 0 && rc != 2 && rc != 4) { Report("operation-fails", Str("step ", step, " (operation ", op[0], ") fails without a fault")); return; }
  }
}
