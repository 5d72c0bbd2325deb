// C23: matchers with every scorer of the library. Included by lib.cc, inside its namespace.

// What the boxes of the codes become: the geometry of the oracle is in 64 bits.
struct Place { int64_t q, d, x, y, w, h; };
static const int64_t kScale[4] = {1, 3, 1000, 160000000};
// From 4 on, every code says its own scale.
inline int64_t ScaleOf(int64_t c, int64_t k) { return (k < 4 ? k : c / kBoxCodes) & 3; }

struct WideBoxes {                     // big unsigned boxes
  typedef BoxRef Ref;
  typedef BoxHyp Hyp;
  static const bool shaped = true;
  static Place At(int64_t c, int64_t k) {
    CodeBox b = DecodeBox(c % kBoxCodes);
    const int64_t s = kScale[ScaleOf(c, k)];
    return {b.q, b.d, b.x * s, b.y * s, b.w * s, b.h * s};
  }
  static Ref Make(const Place &p) {
    return Ref(CodeName("query", p.q), Box(CodeName("page", p.d), (uint32_t)p.x, (uint32_t)p.y, (uint32_t)p.w, (uint32_t)p.h));
  }
  static bool Is(const Ref &e, const Place &p) {
    const Box &l = e.Location();
    return e.Query() == CodeName("query", p.q) && l.document == CodeName("page", p.d) && l.x == p.x && l.y == p.y && l.w == p.w && l.h == p.h;
  }
};
template <class N> struct SignedBoxes {         // boxes on both sides of the origin
  typedef ShapedEvent<int32_t, DocumentBoundingBox<N>> Ref;
  typedef ScoredEvent<Ref> Hyp;
  static const bool shaped = true;
  static Place At(int64_t c, int64_t k) {
    CodeBox b = DecodeBox(c % kBoxCodes);
    const int64_t s = kScale[ScaleOf(c, k)] / (ScaleOf(c, k) == 3 ? 4 : 1);
    return {b.q, b.d, ((int64_t)b.x - 10) * s, ((int64_t)b.y - 5) * s, b.w * s, b.h * s};
  }
  static Ref Make(const Place &p) {
    return Ref((int32_t)p.q, DocumentBoundingBox<N>(CodeName("page", p.d), (N)p.x, (N)p.y, (N)p.w, (N)p.h));
  }
  static bool Is(const Ref &e, const Place &p) {
    const auto &l = e.Location();
    return e.Query() == p.q && l.document == CodeName("page", p.d) && l.x == (N)p.x && l.y == (N)p.y && l.w == (N)p.w && l.h == (N)p.h;
  }
};
struct PlainEvents {                   // no shape: an event overlaps itself
  typedef StrTraits::E Ref;
  typedef ScoredEvent<Ref> Hyp;
  static const bool shaped = false;
  static Place At(int64_t c, int64_t) { return {c % 3, 0, c / 3 % 7, 0, 1, 1}; }
  static Ref Make(const Place &p) { return Ref(CodeName("query", p.q), CodeName("loc", p.x)); }
  static bool Is(const Ref &e, const Place &p) { return e.Query() == CodeName("query", p.q) && e.Location() == CodeName("loc", p.x); }
};

inline bool SamePlace(const Place &a, const Place &b) {
  return a.q == b.q && a.d == b.d && a.x == b.x && a.y == b.y && a.w == b.w && a.h == b.h;
}
// As a fraction of 2^64 there is room: sides are below 2^32.
inline long double Common(const Place &a, const Place &b) {
  if (a.d != b.d) return 0;
  const int64_t w = std::min(a.x + a.w, b.x + b.w) - std::max(a.x, b.x), h = std::min(a.y + a.h, b.y + b.h) - std::max(a.y, b.y);
  return w > 0 && h > 0 ? (long double)w * h : 0;
}
struct Want { double fp, fn; bool open, hit; };     // `open`: rounding may decide
enum { S_HYP, S_UNION, S_SOFT, S_SAME };
inline Want WantError(int kind, float threshold, const Place &r, const Place &h) {
  Want w = {1, 1, false, false};
  const long double i = Common(r, h), ar = (long double)r.w * r.h, ah = (long double)h.w * h.h;
  if (kind == S_SAME) {
    if (SamePlace(r, h)) w.fp = w.fn = 0;
  } else if (r.q == h.q && kind == S_SOFT) {
    if (ah > 0) w.fp = (double)(1 - i / ah);
    if (ar > 0) w.fn = (double)(1 - i / ar);
    w.open = w.fp < 1 && w.fp > 1 - 1e-6;
  } else if (r.q == h.q && ah > 0) {
    const long double of = kind == S_HYP ? ah : ar + ah - i, v = i / of;
    const bool dyadic = threshold * 4 == std::floor(threshold * 4);
    w.open = std::fabs((double)(v - threshold)) < 1e-6 && !(dyadic && of < (1 << 24));
    if (v >= threshold) w.fp = w.fn = 0;
  }
  w.hit = w.fp < 1;
  return w;
}
inline bool ErrorIs(const MatchError &e, double fp, double fn) {
  return std::fabs(e.FP() - fp) <= 1e-6 && std::fabs(e.FN() - fn) <= 1e-6;
}

// One list of results against the definition. `open`: cannot be judged.
template <class T>
std::string JudgeMatches(const std::vector<Match<typename T::Ref, typename T::Hyp>> &res,
                         const std::vector<Match<typename T::Ref, typename T::Hyp>> &rep, const std::vector<Place> &all,
                         const std::vector<Place> &hyps, const std::vector<int64_t> &score, int kind, float threshold, bool *open) {
  std::vector<Place> refs;             // distinct ones
  for (auto &p : all) {
    bool seen = false;
    for (auto &q : refs) seen = seen || SamePlace(p, q);
    if (!seen) refs.push_back(p);
  }
  std::vector<bool> taken(refs.size(), false), reported(refs.size(), false);
  typedef Match<typename T::Ref, typename T::Hyp> M;
  std::vector<const M *> of_hyps;
  for (auto &m : res) {
    if (m.HasHyp()) { of_hyps.push_back(&m); continue; }
    if (!m.HasRef()) return "a match of nothing";
    size_t j = 0;
    while (j < refs.size() && (reported[j] || !T::Is(m.GetRef(), refs[j]))) ++j;
    if (j == refs.size()) return "a missed reference that is none, or is reported twice";
    reported[j] = true;
    if (!ErrorIs(m.GetError(), 0, 1)) return "a missed reference with other errors";
  }
  size_t at = 0, rat = 0;
  for (size_t i = 0; i < hyps.size(); ++i) {
    struct Cand { long double area; size_t j; Want w; };
    std::vector<Cand> hit;
    for (size_t j = 0; j < refs.size(); ++j) {
      const bool over = T::shaped ? refs[j].q == hyps[i].q && Common(refs[j], hyps[i]) > 0 : SamePlace(refs[j], hyps[i]);
      if (!over) continue;
      Want w = WantError(kind, threshold, refs[j], hyps[i]);
      if (w.open) { *open = true; return ""; }
      if (w.hit) hit.push_back({Common(refs[j], hyps[i]), j, w});
    }
    // The largest overlap among those that are still free.
    long double best = -1;
    for (auto &c : hit) if (!taken[c.j]) best = std::max(best, c.area);
    auto in = [&](const M &m) { return T::Is(m.GetHyp(), hyps[i]) && m.GetHyp().Score() == score[i] / 8.0f; };
    auto repeats = [&](const Cand &c) {
      for (; rat < rep.size(); ++rat) {
        const M &m = rep[rat];
        if (!m.HasHyp() || !m.HasRef()) return false;
        return in(m) && T::Is(m.GetRef(), refs[c.j]) && ErrorIs(m.GetError(), c.w.fp, c.w.fn);
      }
      return false;
    };
    // Those that overlap more and are taken already are repeated matches, in this order; among equals the order is free.
    std::stable_sort(hit.begin(), hit.end(), [](const Cand &a, const Cand &b) { return a.area > b.area; });
    for (size_t a = 0; a < hit.size();) {
      size_t b = a;
      while (b < hit.size() && hit[b].area == hit[a].area) ++b;
      if (best >= 0 && hit[a].area < best) break;
      const bool last = best >= 0 && hit[a].area == best;
      std::vector<bool> used(b - a, false);
      for (size_t n = a; n < b; ++n) {
        size_t k = a;
        for (; k < b; ++k) if (!used[k - a] && taken[hit[k].j] && repeats(hit[k])) break;
        if (k < b) { used[k - a] = true; ++rat; continue; }
        if (last) break;
        return Str("hypothesis ", i, ": a reference that it hits, and that was matched before, is not among the repeated matches");
      }
      a = b;
    }
    if (best < 0) {
      if (!hit.empty()) continue;      // nothing but repeated matches
      if (at >= of_hyps.size() || !in(*of_hyps[at]) || of_hyps[at]->HasRef()) return Str("hypothesis ", i, " is not reported as a false positive in its turn");
      if (!ErrorIs(of_hyps[at]->GetError(), 1, 0)) return Str("hypothesis ", i, ", a false positive, has other errors");
      ++at;
      continue;
    }
    if (at >= of_hyps.size() || !in(*of_hyps[at])) return Str("hypothesis ", i, " is not reported as a hit in its turn");
    const M &m = *of_hyps[at++];
    size_t k = 0;
    while (k < hit.size() && !(m.HasRef() && hit[k].area == best && !taken[hit[k].j] && T::Is(m.GetRef(), refs[hit[k].j]))) ++k;
    if (k == hit.size()) return Str("hypothesis ", i, " does not take the free reference that it overlaps most");
    if (!ErrorIs(m.GetError(), hit[k].w.fp, hit[k].w.fn)) return Str("hypothesis ", i, " has other errors than its scorer defines");
    taken[hit[k].j] = true;
  }
  if (at != of_hyps.size()) return "more results than hypotheses account for";
  if (rat != rep.size()) return "repeated matches that no hypothesis accounts for";
  for (size_t j = 0; j < refs.size(); ++j)
    if (taken[j] == reported[j]) return taken[j] ? "a matched reference is reported as missed too" : "an unmatched reference is not reported";
  return "";
}

template <class T> struct MatchLab {
  typedef typename T::Ref RE;
  typedef typename T::Hyp HE;
  typedef kws::scorer::Scorer<RE, HE> Base;
  typedef kws::matcher::SimpleMatcher<RE, HE> Matcher;
  enum { NS = 6, NM = 3 };
  std::unique_ptr<Base> scorer[NS];
  std::unique_ptr<TouchyScorer<RE, HE>> touchy[NM];
  std::unique_ptr<Matcher> matcher[NM];
  int uses[NM];
  int kind[NS];
  float threshold[NS];

  typedef kws::scorer::IntersectionOverHypothesisAreaScorer<RE, HE> OverHyp;
  typedef kws::scorer::IntersectionOverUnionAreaScorer<RE, HE> OverUnion;
  typedef kws::scorer::SoftIntersectionOverHypothesisAreaScorer<RE, HE> Soft;
  typedef kws::scorer::TrivialScorer<RE, HE> Same;
  template <class U> typename std::enable_if<U::shaped>::type Shaped(int k, Base *old) {
    if (kind[k] == S_HYP) scorer[k].reset(old ? new OverHyp(*(OverHyp *)old) : new OverHyp(threshold[k]));
    if (kind[k] == S_UNION) scorer[k].reset(old ? new OverUnion(*(OverUnion *)old) : new OverUnion(threshold[k]));
    if (kind[k] == S_SOFT) scorer[k].reset(old ? new Soft(*(Soft *)old) : new Soft());
  }
  template <class U> typename std::enable_if<!U::shaped>::type Shaped(int, Base *) {}
  // A new scorer, or a copy of what was there.
  void Set(int k, bool copy) {
    std::unique_ptr<Base> old(scorer[k].release());
    Base *from = copy ? old.get() : nullptr;
    if (kind[k] == S_SAME) scorer[k].reset(from ? new Same(*(Same *)from) : new Same());
    else Shaped<T>(k, from);
    for (int m = 0; m < NM; ++m) if (touchy[m] && uses[m] == k) touchy[m]->Use(scorer[k].get());
  }
  void SetMatcher(int m, int k, int64_t set) {
    matcher[m].reset();
    touchy[m].reset(new TouchyScorer<RE, HE>(scorer[k].get()));
    uses[m] = k;
    if (set == 0) { matcher[m].reset(new Matcher(touchy[m].get())); return; }
    EventSet<RE> *s = new EventSet<RE>();
    if (set == 2) for (int64_t i = 0; i < 9; ++i) s->Insert(T::Make(T::At(i * 11, 0)));
    matcher[m].reset(new Matcher(touchy[m].get(), s));
  }
};

template <class T> void RunMatchers(const Scenario &s) {
  typedef MatchLab<T> B;
  static const float thr[8] = {0.5f, 0.25f, 0.75f, 1.0f, 0.1f, 0.3f, 0.6f, 0.9f};
  const std::vector<int64_t> &head = s.lib[0];
  if (head.size() < 6) return;
  const int64_t scale = head[1] % 5;
  B b;
  for (int k = 0; k < B::NS; ++k) {
    static const int kinds[6] = {S_HYP, S_UNION, S_HYP, S_UNION, S_SOFT, S_SAME};
    b.kind[k] = T::shaped ? kinds[k] : S_SAME;
    b.threshold[k] = k < 4 ? thr[head[2 + k] & 7] : 0;
    b.Set(k, false);
  }
  for (int m = 0; m < B::NM; ++m) b.SetMatcher(m, (int)(head[2 + m] + m) % B::NS, 0);
  for (size_t step = 1; step < s.lib.size(); ++step) {
    const std::vector<int64_t> &op = s.lib[step];
    if (op.size() < 6) continue;
    if (op[0] == 1) {                                      // a scorer by itself
      const int k = (int)(op[1] % B::NS);
      const Place r = T::At(op[2], scale), h = T::At(op[3], scale);
      std::unique_ptr<typename T::Ref> ref;
      std::unique_ptr<typename T::Hyp> hyp;
      { Quiet q; ref.reset(new typename T::Ref(T::Make(r))); hyp.reset(new typename T::Hyp(T::Make(h), 1)); }
      MatchError e;
      if (Guarded(op[4], op[5] != 0, [&] { e = (*b.scorer[k])(*ref, *hyp); })) { Count(2); continue; }
      Quiet q;
      Want w = WantError(b.kind[k], b.threshold[k], r, h);
      Count(12);
      NoteLog("scorer %d gives %g %g", k, e.FP(), e.FN());
      if (!w.open && !ErrorIs(e, w.fp, w.fn)) {
        Report("scorer-error", Str("step ", step, ": scorer ", k, " gives ", e.FP(), "/", e.FN(), " instead of ", w.fp, "/", w.fn));
        return;
      }
      continue;
    }
    if (op[0] == 2) { b.Set((int)(op[1] % B::NS), op[2] != 0); continue; }
    if (op[0] == 3) { b.SetMatcher((int)(op[1] % B::NM), (int)(op[2] % B::NS), op[3] % 3); continue; }
    const int m = (int)(op[1] % B::NM), k = b.uses[m];
    std::vector<typename T::Ref> refs;
    std::vector<typename T::Hyp> hyps;
    std::vector<Place> pr, ph;
    std::vector<int64_t> score;
    {
      Quiet q;
      size_t j = 6;
      for (; j < op.size() && j - 6 < (size_t)op[5]; ++j) {
        pr.push_back(T::At(op[j], scale));
        refs.push_back(T::Make(pr.back()));
      }
      for (; j + 1 < op.size(); j += 2) {
        ph.push_back(T::At(op[j], scale));
        score.push_back(op[j + 1]);
        hyps.push_back(typename T::Hyp(T::Make(ph.back()), op[j + 1] / 8.0f));
      }
    }
    b.touchy[m]->left = op[4];
    typename B::Matcher::Result res;
    const int rc = Guarded(op[2], op[3] != 0, [&] { res = b.matcher[m]->Match(refs, hyps); });
    b.touchy[m]->left = -1;
    if (rc) { Quiet q; Count(rc == 1 ? 2 : 3); NoteLog("match of %zu and %zu fails by %d", refs.size(), hyps.size(), rc); continue; }
    Quiet q;
    NoteLog("match of %zu and %zu gives %zu and %zu", refs.size(), hyps.size(), res.size(), b.matcher[m]->GetRepeatedMatches().size());
    bool open = false;
    std::string bad = JudgeMatches<T>(res, b.matcher[m]->GetRepeatedMatches(), pr, ph, score, b.kind[k], b.threshold[k], &open);
    Count(open ? 14 : 13);
    if (!b.matcher[m]->GetRepeatedMatches().empty()) Count(4);
    if (!bad.empty()) {
      Report("wrong-matches", Str("step ", step, ", matcher ", m, " with scorer ", k, ": ", bad, "; results ", res.size(), ", repeated ",
                                  b.matcher[m]->GetRepeatedMatches().size()));
      return;
    }
    typename B::Matcher::Result().swap(res);
    std::vector<typename T::Ref>().swap(refs);
    std::vector<typename T::Hyp>().swap(hyps);
  }
}
void RunAllMatchers(const Scenario &s) {
  if (s.lib.empty() || s.lib[0].empty()) return;
  switch (s.lib[0][0] & 3) {
    case 0: return RunMatchers<WideBoxes>(s);
    case 1: return RunMatchers<SignedBoxes<int32_t>>(s);
    case 2: return RunMatchers<PlainEvents>(s);
    default: return RunMatchers<SignedBoxes<double>>(s);
  }
}
