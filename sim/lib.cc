// Library scenarios: histories of operations on the real library classes, run
// inside the simulator. This file is compiled like the code under test
// (memory accesses are scheduling points) except inside Quiet sections, which
// hold the oracles.
#include <algorithm>
#include <cmath>
#include <functional>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <unordered_map>
#include <vector>

#include "cmd/Parser.h"
#include "core/Assessment.h"
#include "core/Bootstrapping.h"
#include "core/DocumentBoundingBox.h"
#include "core/DocumentBoundingBoxEventSet.h"
#include "core/Event.h"
#include "core/EventSet.h"
#include "core/Match.h"
#include "core/ScoredEvent.h"
#include "core/ShapedEvent.h"
#include "core/Statistic.h"
#include "core/TypeInfo.h"
#include "mapper/IdentityMapper.h"
#include "mapper/ScoredEventMapper.h"
#include "mapper/StringEventToIntMapper.h"
#include "mapper/StringToIntMapper.h"
#include "matcher/SimpleMatcher.h"
#include "reader/PlainTextMapEventReader.h"
#include "reader/PlainTextReader.h"
#include "scorer/IntersectionOverHypothesisAreaScorer.h"
#include "scorer/IntersectionOverUnionAreaScorer.h"
#include "scorer/SoftBoundingBoxScorer.h"
#include "scorer/TrivialScorer.h"

#include "libspec.h"

namespace sim {
namespace {

using kws::core::DocumentBoundingBox;
using kws::core::Event;
using kws::core::EventSet;
using kws::core::Match;
using kws::core::MatchError;
using kws::core::ScoredEvent;
using kws::core::ShapedEvent;

typedef DocumentBoundingBox<uint32_t> Box;
typedef ShapedEvent<std::string, Box> BoxRef;
typedef ScoredEvent<BoxRef> BoxHyp;
typedef Event<int32_t, int32_t> IntRef;
typedef ScoredEvent<IntRef> IntHyp;

struct CallbackError : std::runtime_error { CallbackError() : std::runtime_error("callback") {} };

template <class... A> std::string Str(A... a) {
  std::ostringstream o;
  int x[] = {(o << a, 0)...};
  (void)x;
  return o.str();
}

// Runs `f` with an allocation fault `n` allocations from now (n < 0: none).
// Returns 0 done, 1 out of memory, 2 callback exception, 3 range error.
bool guard_fired;                    // whether the fault of the last one was met
template <class F> int Guarded(int64_t n, bool sticky, F f) {
  int rc = 0;
  ArmAlloc(n, sticky);
  try {
    f();
  } catch (const std::bad_alloc &) {
    rc = 1;
  } catch (const CallbackError &) {
    rc = 2;
  } catch (const std::range_error &) {
    rc = 3;
  } catch (const std::ios_base::failure &) {
    rc = 4;
  }
  guard_fired = AllocFired();
  ArmAlloc(-1, false);
  return rc;
}

// ---------------------------------------------------------------------------
// C12: collections
// ---------------------------------------------------------------------------
// A code stands for an event; codes are small so that collisions are common.
struct BoxTraits {
  typedef BoxRef E;
  static E Make(int64_t c) {
    CodeBox b = DecodeBox(c);
    return E(CodeName("query", b.q), Box(CodeName("page", b.d), b.x, b.y, b.w, b.h));
  }
  // The oracle compares fields itself: the operators of the code may be what is wrong.
  static bool Is(const E &e, int64_t c) {
    CodeBox b = DecodeBox(c);
    const Box &l = e.Location();
    return e.Query() == CodeName("query", b.q) && l.document == CodeName("page", b.d) && l.x == b.x && l.y == b.y && l.w == b.w && l.h == b.h;
  }
  static int64_t Area(int64_t a, int64_t b) { return CodeOverlap(a, b); }
  static const bool shaped = true;
};
struct IntBoxTraits {
  typedef ShapedEvent<int32_t, DocumentBoundingBox<int32_t>> E;
  static E Make(int64_t c) {
    CodeBox b = DecodeBox(c);
    return E((int32_t)b.q, DocumentBoundingBox<int32_t>(CodeName("page", b.d), (int)b.x, (int)b.y, (int)b.w, (int)b.h));
  }
  static bool Is(const E &e, int64_t c) {
    CodeBox b = DecodeBox(c);
    const auto &l = e.Location();
    return e.Query() == b.q && l.document == CodeName("page", b.d) && l.x == (int64_t)b.x && l.y == (int64_t)b.y && l.w == (int64_t)b.w &&
           l.h == (int64_t)b.h;
  }
  static int64_t Area(int64_t a, int64_t b) { return CodeOverlap(a, b); }
  static const bool shaped = true;
};
inline int64_t PlainQuery(int64_t c) { return c % 7; }
inline int64_t PlainPlace(int64_t c) { return c >= kDense ? 9 + (c - kDense) / 7 : c / 7 % 9; }
template <bool shaped> int64_t CanonCode(int64_t c) { return c >= kDense ? c : shaped ? c % kBoxCodes : c % 63; }
template <class T> int64_t Canon(int64_t c) { return CanonCode<T::shaped>(c); }
struct IntTraits {
  typedef IntRef E;
  static E Make(int64_t c) { return E((int32_t)PlainQuery(c), (int32_t)PlainPlace(c)); }
  static bool Is(const E &e, int64_t c) { return e.Query() == PlainQuery(c) && e.Location() == PlainPlace(c); }
  static int64_t Area(int64_t a, int64_t b) { return CanonCode<false>(a) == CanonCode<false>(b); }
  static const bool shaped = false;
};
struct StrTraits {
  typedef Event<std::string, std::string> E;
  static E Make(int64_t c) { return E(CodeName("query", PlainQuery(c)), CodeName("loc", PlainPlace(c))); }
  static bool Is(const E &e, int64_t c) { return e.Query() == CodeName("query", PlainQuery(c)) && e.Location() == CodeName("loc", PlainPlace(c)); }
  static int64_t Area(int64_t a, int64_t b) { return CanonCode<false>(a) == CanonCode<false>(b); }
  static const bool shaped = false;
};

// "" if `set` answers like the model set `m`.
template <class T>
std::string SetDiffers(const EventSet<typename T::E> &set, const std::set<int64_t> &m, const std::vector<int64_t> &probes) {
  Quiet q;
  if (set.Size() != m.size()) return Str("its size is ", set.Size(), " with ", m.size(), " members");
  for (int64_t p : probes) {
    typename T::E probe = T::Make(p);
    auto got = set.FindOverlapping(probe);
    std::vector<std::pair<int64_t, int64_t>> want;     // area, member
    for (int64_t x : m) {
      int64_t a = T::Area(x, p);
      if (a > 0) want.emplace_back(a, x);
    }
    std::sort(want.begin(), want.end(), std::greater<std::pair<int64_t, int64_t>>());
    if (got.size() != want.size())
      return Str("a query finds ", got.size(), " of ", want.size(), " overlapping members");
    // same areas in the same order, same members within equal areas
    size_t i = 0;
    auto it = got.begin();
    while (i < want.size()) {
      size_t j = i;
      while (j < want.size() && want[j].first == want[i].first) ++j;
      std::vector<bool> used(j - i, false);
      for (size_t k = i; k < j; ++k, ++it) {
        bool found = false;
        for (size_t l = i; l < j && !found; ++l)
          if (!used[l - i] && T::Is(*it, want[l].second)) used[l - i] = found = true;
        if (!found) return Str("a query returns an unexpected member at position ", k);
      }
      i = j;
    }
  }
  return "";
}

template <class T> int RunSets(const Scenario &s) {
  typedef typename T::E E;
  std::unique_ptr<EventSet<E>> sets[2];
  std::set<int64_t> model[2];
  bool alive[2] = {false, false};
  for (int i = 0; i < 2; ++i) {
    sets[i].reset(new EventSet<E>());
    alive[i] = true;
  }
  std::vector<int64_t> pool;
  for (size_t step = 0; step < s.lib.size(); ++step) {
    const std::vector<int64_t> &op = s.lib[step];
    if (op.size() < 5) continue;
    int k = (int)(op[1] & 1);
    int64_t c = Canon<T>(op[2]);
    int64_t fn = op[3];
    bool sticky = op[4] != 0;
    std::vector<int64_t> probes;
    std::set<int64_t> before, after;
    int rc = 0;
    bool replaced = false;
    std::unique_ptr<E> e;
    std::vector<E> range;
    {
      Quiet q;
      before = after = model[k];
      pool.push_back(c);
      for (size_t i = pool.size() > 10 ? pool.size() - 10 : 0; i < pool.size(); ++i) probes.push_back(pool[i]);
      if (T::shaped)
        for (int64_t d = 0; d < 6; ++d) probes.push_back(BigProbe(d));
      e.reset(new E(T::Make(c)));
      NoteLog("op %d", (int)op[0]);
    }
    switch (op[0]) {
      case 0:
        { Quiet q; after.insert(c); }
        rc = Guarded(fn, sticky, [&] { sets[k]->Insert(*e); });
        break;
      case 1:
        { Quiet q; after.erase(c); }
        rc = Guarded(fn, sticky, [&] { sets[k]->Remove(*e); });
        break;
      case 2:
        { Quiet q; after.clear(); }
        rc = Guarded(fn, sticky, [&] { sets[k]->Clear(); });
        break;
      case 3:
        rc = Guarded(fn, sticky, [&] { auto l = sets[k]->FindOverlapping(*e); (void)l.size(); });
        break;
      case 4: {
        {
          Quiet q;
          after.clear();
          range.reserve(op.size());
          for (size_t i = 5; i < op.size(); ++i) { after.insert(Canon<T>(op[i])); range.push_back(T::Make(op[i])); }
        }
        EventSet<E> *fresh = nullptr;
        rc = Guarded(fn, sticky, [&] { fresh = new EventSet<E>(range.begin(), range.end()); });
        if (rc == 0) { sets[k].reset(fresh); replaced = true; }
        break;
      }
      case 5: {                        // many: first code, stride, count, kind (0 insert, 1 remove, 2 construct)
        if (op.size() < 8) break;
        {
          Quiet q;
          if (op[7] == 2) after.clear();
          for (int64_t i = 0; i < op[6]; ++i) {
            const int64_t x = kDense + c % 7 + i * std::max<int64_t>(1, op[5]);
            range.push_back(T::Make(x));
            if (op[7] == 1) after.erase(x); else after.insert(x);
            if (i < 2 || i + 2 > op[6] || i % 1999 == 7) probes.push_back(x);
          }
        }
        if (op[7] == 2) {
          EventSet<E> *fresh = nullptr;
          Guarded(-1, false, [&] { fresh = new EventSet<E>(range.begin(), range.end()); });
          sets[k].reset(fresh);
        } else {
          Guarded(-1, false, [&] { for (auto &x : range) { if (op[7] == 1) sets[k]->Remove(x); else sets[k]->Insert(x); } });
        }
        break;
      }
    }
    (void)replaced;
    Quiet q;
    range.clear();
    std::string a = rc == 0 || op[0] != 4 ? SetDiffers<T>(*sets[k], after, probes) : "x";
    if (a.empty() && !(rc == 0 && op[0] == 3)) {
      model[k] = after;
      if (rc) Count(1);
    } else if (rc == 0 && op[0] == 3 && a.empty()) {
    } else if (rc != 0) {
      std::string b = SetDiffers<T>(*sets[k], before, probes);
      if (!b.empty()) {
        static const char *const nm[] = {"insert", "remove", "clear", "query", "construct"};
        Report("operation-half-done", Str("after step ", step, " (", nm[op[0] % 5], ") failed for lack of memory, ", b,
                                          op[0] == 4 ? "" : " (and with its effect: ", op[0] == 4 ? "" : a, op[0] == 4 ? "" : ")"));
        return 0;
      }
      Count(0);
    } else {
      static const char *const nm[] = {"insert", "remove", "clear", "query", "construct", "many"};
      Report("not-a-set", Str("after step ", step, " (", nm[op[0] % 6], "): ", a));
      return 0;
    }
    std::string other = SetDiffers<T>(*sets[1 - k], model[1 - k], probes);
    if (!other.empty()) {
      Report("sets-not-independent", Str("step ", step, " on one collection changes another one: ", other));
      return 0;
    }
  }
  return 0;
}

// ---------------------------------------------------------------------------
// C13: matchers and matches
// ---------------------------------------------------------------------------
template <class RE, class HE> class TouchyScorer : public kws::scorer::Scorer<RE, HE> {
 public:
  explicit TouchyScorer(kws::scorer::Scorer<RE, HE> *s) : s_(s) {}
  MatchError operator()(const RE &r, const HE &h) override {
    if (left == 0) { left = -1; fired = true; throw CallbackError(); }
    if (left > 0) --left;
    return (*s_)(r, h);
  }
  void Use(kws::scorer::Scorer<RE, HE> *s) { s_ = s; }
  int64_t left = -1;
  bool fired = false;

 private:
  kws::scorer::Scorer<RE, HE> *s_;
};
// Scores with partial errors.
class SoftScorer : public kws::scorer::Scorer<BoxRef, BoxHyp> {
 public:
  MatchError operator()(const BoxRef &r, const BoxHyp &h) override {
    float a = IntersectionArea(r, h);
    if (!(h.Area() > 0) || !(r.Area() > 0)) return MatchError(1, 1);
    return MatchError(1.0f - a / h.Area(), 1.0f - a / r.Area());
  }
};

std::string DumpEvent(const BoxRef &e) {
  const Box &b = e.Location();
  return Str(e.Query(), "|", b.document, "|", b.x, ",", b.y, ",", b.w, ",", b.h);
}
std::string DumpEvent(const IntRef &e) { return Str(e.Query(), "|", e.Location()); }
template <class M> std::string DumpMatches(const std::vector<M> &v) {
  std::string o;
  for (auto &m : v) {
    o += "[";
    if (m.HasHyp()) o += "H " + DumpEvent(m.GetHyp()) + Str(" ", m.GetHyp().Score()) + ";";
    if (m.HasRef()) o += "R " + DumpEvent(m.GetRef()) + ";";
    o += Str(m.GetError().FP(), "/", m.GetError().FN(), "]");
  }
  return o;
}

BoxRef MakeBoxRef(int64_t c) { return BoxTraits::Make(c); }
BoxHyp MakeBoxHyp(int64_t c, int64_t score) { return BoxHyp(BoxTraits::Make(c), score / 8.0f); }
IntRef MakeIntRef(int64_t c) { return IntTraits::Make(c % 63); }
IntHyp MakeIntHyp(int64_t c, int64_t score) { return IntHyp(IntTraits::Make(c % 63), score / 8.0f); }

template <class RE, class HE>
void RunMatcherWith(const Scenario &s, int only, kws::scorer::Scorer<RE, HE> *base, RE (*mkr)(int64_t), HE (*mkh)(int64_t, int64_t)) {
  TouchyScorer<RE, HE> scorer(base);
  typedef kws::matcher::SimpleMatcher<RE, HE> Matcher;
  std::unique_ptr<Matcher> matcher;
  int64_t ctor = s.lib.empty() ? 0 : s.lib[0].empty() ? 0 : s.lib[0][0];
  if (ctor == 0 || only >= 0) {
    matcher.reset(new Matcher(&scorer));
  } else {
    EventSet<RE> *set = new EventSet<RE>();
    if (ctor == 2) for (int64_t i = 0; i < 12; ++i) set->Insert(mkr(i * 7));   // a collection that was used before
    matcher.reset(new Matcher(&scorer, set));
  }
  for (size_t i = 1; i < s.lib.size(); ++i) {
    if (only >= 0 && (int)i != only) continue;
    const std::vector<int64_t> &op = s.lib[i];
    if (op.size() < 5) continue;
    std::vector<RE> refs;
    std::vector<HE> hyps;
    int64_t kind = only >= 0 ? 0 : op[0];
    size_t nr = (size_t)op[3];
    {
      Quiet q;
      size_t j = 5;
      for (; j < op.size() && j - 5 < nr; ++j) refs.push_back(mkr(op[j]));
      for (; j + 1 < op.size(); j += 2) hyps.push_back(mkh(op[j], op[j + 1]));
    }
    if (kind == 2) scorer.left = op[1]; else scorer.left = -1;
    typename Matcher::Result res;
    int rc = Guarded(kind == 1 ? op[1] : -1, op[2] != 0, [&] { res = matcher->Match(refs, hyps); });
    Quiet q;
    if (rc) {
      Count(rc == 1 ? 2 : 3);
      Emit(Str("eval ", i, " aborted\n"));
    } else {
      Emit(Str("eval ", i, " ", DumpMatches(res), " repeated ", DumpMatches(matcher->GetRepeatedMatches()), "\n"));
      if (!matcher->GetRepeatedMatches().empty()) Count(4);
    }
    typename Matcher::Result().swap(res);
    std::vector<RE>().swap(refs);
    std::vector<HE>().swap(hyps);
  }
}

// Histories on single matches, against values kept by the oracle.
struct MatchVal {
  bool known = false;
  int64_t ref = -1, hyp = -1, hs = 0;
  float fp = 0, fn = 0;
  bool Same(const MatchVal &o) const {
    return ref == o.ref && hyp == o.hyp && (hyp < 0 || hs == o.hs) && fp == o.fp && fn == o.fn;
  }
};
void RunMatchOps(const Scenario &s) {
  typedef Match<BoxRef, BoxHyp> M;
  enum { K = 5 };
  std::vector<M> v(K);
  std::vector<MatchVal> m(K);
  for (auto &x : m) x.known = true;
  for (size_t step = 0; step < s.lib.size(); ++step) {
    const std::vector<int64_t> &op = s.lib[step];
    if (op.size() < 7) continue;
    int i = (int)(op[1] % K), j = (int)(op[2] % K);
    int64_t c = op[3] % kBoxCodes, d = op[4] % kBoxCodes;
    int64_t fn = op[5];
    bool sticky = op[6] != 0;
    static const float err[4] = {0, 1, 0.5f, 0.25f};
    int64_t more = op.size() > 7 ? op[7] : op[4] % 5 + 5 * (op[3] & 3) + 20 * (op[4] & 3);
    float e1 = err[more / 5 & 3], e2 = err[more / 20 & 3];
    int64_t sc = more % 5;
    std::unique_ptr<BoxRef> r;
    std::unique_ptr<BoxHyp> h;
    MatchVal nv;
    {
      Quiet q;
      r.reset(new BoxRef(MakeBoxRef(c)));
      h.reset(new BoxHyp(MakeBoxHyp(d, sc)));
      nv = m[i];
      NoteLog("op %d", (int)op[0]);
    }
    int rc = 0;
    bool touches = true;
    if (op[0] % 12 >= 7 && op[0] % 12 <= 9 && !m[j].known) continue;
    switch (op[0] % 12) {
      case 0: nv = MatchVal(); nv.known = true; nv.hyp = d; nv.hs = sc; nv.fp = 1; nv.fn = 0;
        rc = Guarded(fn, sticky, [&] { v[i] = M::MakeFalsePositive(*h); }); break;
      case 1: nv = MatchVal(); nv.known = true; nv.ref = c; nv.fp = 0; nv.fn = 1;
        rc = Guarded(fn, sticky, [&] { v[i] = M::MakeFalseNegative(*r); }); break;
      case 2: nv = MatchVal(); nv.known = true; nv.ref = c; nv.hyp = d; nv.hs = sc; nv.fp = e1; nv.fn = e2;
        rc = Guarded(fn, sticky, [&] { v[i] = M(*r, *h, MatchError(e1, e2)); }); break;
      case 3: if (!nv.known) continue; nv.ref = c;
        rc = Guarded(fn, sticky, [&] { v[i].SetRef(*r); }); break;
      case 4: if (!nv.known) continue; nv.hyp = d; nv.hs = sc;
        rc = Guarded(fn, sticky, [&] { v[i].SetHyp(*h); }); break;
      case 5: if (!nv.known) continue; nv.fp = e1; nv.fn = e2; v[i].SetError(MatchError(e1, e2)); break;
      case 6: nv = MatchVal(); nv.known = true; nv.fp = e1; nv.fn = e2;
        rc = Guarded(fn, sticky, [&] { v[i] = M(e1, e2); }); break;
      case 7: nv = m[j];                                     // copy, itself included
        rc = Guarded(fn, sticky, [&] { const M &src = v[j]; v[i] = src; }); break;
      case 8: nv = m[j];                                     // copy construction and move
        rc = Guarded(fn, sticky, [&] { M t(v[j]); v[i] = std::move(t); }); break;
      case 9: {                                              // growth and removal in a vector
        rc = Guarded(fn, sticky, [&] {
          std::vector<M> w(v.begin(), v.end());
          w.push_back(w[j]);
          w.erase(w.begin());
          v[i] = w.back();
        });
        nv = m[j];
        break;
      }
      case 10: {                                             // reversal of everything
        if (fn >= 0) { touches = false; break; }
        std::reverse(v.begin(), v.end());
        std::reverse(m.begin(), m.end());
        touches = false;
        break;
      }
      case 11: {                                             // sorting by score keeps contents
        bool all = true;
        for (auto &x : m) all = all && x.known;
        if (!all || fn >= 0) { touches = false; break; }
        std::vector<M> w(v);
        kws::core::SortMatchesDecreasingScore(&w);
        Quiet q;
        std::vector<std::string> a, b;
        for (auto &x : v) a.push_back(DumpMatches(std::vector<M>(1, x)));
        for (auto &x : w) b.push_back(DumpMatches(std::vector<M>(1, x)));
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        if (a != b) { Report("match-contents-changed", Str("step ", step, ": sorting matches changes their contents")); return; }
        for (size_t k = 1; k < w.size(); ++k) {
          float x = w[k - 1].HasHyp() ? w[k - 1].GetHyp().Score() : -1e30f, y = w[k].HasHyp() ? w[k].GetHyp().Score() : -1e30f;
          if (x < y) { Report("match-order", Str("step ", step, ": sorted matches are out of order")); return; }
        }
        std::vector<M>().swap(w);
        touches = false;
        break;
      }
    }
    Quiet q;
    if (touches) {
      if (rc) { nv = m[i]; Count(2); }              // a failed operation changes nothing
      m[i] = nv;
    }
    for (int a = 0; a < K; ++a) {
      if (!m[a].known) continue;
      bool ok = v[a].HasRef() == (m[a].ref >= 0) && v[a].HasHyp() == (m[a].hyp >= 0) && v[a].GetError().FP() == m[a].fp &&
                v[a].GetError().FN() == m[a].fn;
      if (ok && m[a].ref >= 0) ok = BoxTraits::Is(v[a].GetRef(), m[a].ref);
      if (ok && m[a].hyp >= 0) ok = BoxTraits::Is(v[a].GetHyp(), m[a].hyp) && v[a].GetHyp().Score() == m[a].hs / 8.0f;
      if (!ok) {
        Report("match-contents-changed", Str("after step ", step, " (operation ", op[0] % 12, "), match ", a, " is ",
                                             DumpMatches(std::vector<M>(1, v[a])), a == i ? "" : ", though another one was changed"));
        return;
      }
      for (int b = 0; b < K; ++b) {
        if (!m[b].known) continue;
        bool same = m[a].Same(m[b]);                         // distinct codes stand for distinct events
        if ((v[a] == v[b]) != same) {
          Report("match-comparison", Str("after step ", step, ": == says ", !same, " for matches that are ", same ? "equal" : "different"));
          return;
        }
        if ((v[a] != v[b]) == same) {
          Report("match-comparison", Str("after step ", step, ": != says ", same, " for matches that are ", same ? "equal" : "different"));
          return;
        }
      }
    }
  }
}

// ---------------------------------------------------------------------------
// C14: mappers
// ---------------------------------------------------------------------------
struct NameBook {
  std::map<std::string, long> id;      // confirmed identifiers
  std::set<std::string> tried;         // names that were looked up at all
  // "" or what is wrong with `name` having `got`.
  std::string See(const std::string &name, long got, long cap) {
    tried.insert(name);
    auto it = id.find(name);
    if (it != id.end()) {
      if (it->second != got) return Str("the identifier of ", name, " changes from ", it->second, " to ", got);
      return "";
    }
    if (got < 0 || got >= (long)tried.size() || got >= cap) return Str(name, " gets identifier ", got, " though only ", tried.size(), " names are known");
    for (auto &x : id) if (x.second == got) return Str(name, " and ", x.first, " both have identifier ", got);
    id[name] = got;
    return "";
  }
};
// All distinct; many differ only in ways that a careless comparison misses.
std::string NameFor(int64_t k) {
  std::string n = std::to_string(k / 9);
  switch (k % 9) {
    case 0: return "w" + n;
    case 1: return CodeName("w", k / 9 * 3 + 1);
    case 2: return "W" + n;
    case 3: return "w" + n + std::string(1, '\0') + "a";
    case 4: return "w" + n + std::string(1, '\0') + "b";
    case 5: return std::string(70, 'x') + n;
    case 6: return k == 6 ? "" : "w" + n + " ";
    case 7: return n + "w";
    default: return "w\xc3\xa9" + n;
  }
}

template <class Int, class Impl> void RunNames(const Scenario &s) {
  typedef kws::mapper::StringToIntMapper<Int, Impl> Map;
  const long cap = (long)std::numeric_limits<Int>::max() + 1;
  std::unique_ptr<Impl> impl;
  std::vector<std::unique_ptr<Map>> comp;
  int64_t how = s.lib.empty() || s.lib[0].empty() ? 0 : s.lib[0][0];
  if (how == 0) {
    comp.emplace_back(new Map());
  } else if (how == 1) {
    impl.reset(new Impl());
    comp.emplace_back(new Map(impl.get()));
  } else {
    comp.emplace_back(new Map(new Impl(), true));
  }
  for (int i = 0; i < 3; ++i) comp.emplace_back(new Map(*comp[0]));
  NameBook book;
  for (size_t step = 1; step < s.lib.size(); ++step) {
    const std::vector<int64_t> &op = s.lib[step];
    if (op.size() < 4) continue;
    std::unique_ptr<std::string> name;
    { Quiet q; name.reset(new std::string(NameFor(op[1]))); NoteLog("op"); }
    long got = -1;
    Map &m = *comp[op[0] & 3];
    int rc = Guarded(op[2], op[3] != 0, [&] { got = (long)m(*name); });
    Quiet q;
    if (rc == 0) {
      std::string w = book.See(*name, got, cap);
      if (!w.empty()) { Report("identifiers", Str("step ", step, ": ", w)); return; }
    } else if (rc == 3) {
      Count(5);
      if (book.id.count(*name)) { Report("known-name-refused", Str("step ", step, ": known name ", *name, " is refused")); return; }
      if ((long)book.tried.size() < cap) { Report("name-refused", Str("step ", step, ": a name is refused with ", book.tried.size(), " names in use of ", cap)); return; }
    } else {
      Count(2);
      book.tried.insert(*name);
    }
  }
  // Identifiers in use are 0..n-1: find them all.
  Quiet q;
  std::vector<std::string> all(book.tried.begin(), book.tried.end());
  for (auto &n : all) {
    try {
      long g = (long)(*comp[1])(n);
      std::string w = book.See(n, g, cap);
      if (!w.empty()) { Report("identifiers", "at the end: " + w); return; }
    } catch (const std::range_error &) {
      if (book.id.count(n)) { Report("known-name-refused", "at the end: known name " + n + " is refused"); return; }
      if ((long)book.tried.size() <= cap) { Report("name-refused", Str("a name is refused with ", book.tried.size(), " names in use of ", cap)); return; }
    }
  }
  long n = std::min<long>(book.tried.size(), cap), top = -1;
  for (auto &x : book.id) top = std::max(top, x.second);
  if ((long)book.id.size() != n || top != n - 1)
    Report("identifiers-not-dense", Str(book.id.size(), " names of ", book.tried.size(), " have identifiers, the largest is ", top));
  while (comp.size() > 1) comp.pop_back();
}

template <class Int> void RunEventNames(const Scenario &s) {
  typedef kws::mapper::StringToIntMapper<Int> Str2Int;
  typedef kws::mapper::StringEventToIntMapper<Int> EvMap;
  typedef kws::mapper::ScoredEventMapper<EvMap> ScMap;
  typedef Event<std::string, std::string> SE;
  int64_t how = s.lib.empty() || s.lib[0].empty() ? 0 : s.lib[0][0];
  const long cap = (long)std::numeric_limits<Int>::max() + 1;
  std::unique_ptr<Str2Int> base;
  std::unique_ptr<EvMap> ev;
  if (how == 0) ev.reset(new EvMap());
  else if (how == 1) { base.reset(new Str2Int()); ev.reset(new EvMap(base.get())); }
  else ev.reset(new EvMap(new Str2Int(), true));
  EvMap copy(*ev);
  ScMap sc(ev.get());
  NameBook book;
  for (size_t step = 1; step < s.lib.size(); ++step) {
    const std::vector<int64_t> &op = s.lib[step];
    if (op.size() < 5) continue;
    std::unique_ptr<SE> e;
    { Quiet q; e.reset(new SE(NameFor(op[1]), NameFor(op[4]))); NoteLog("op"); }
    long gq = -1, gl = -1;
    float score = 0.5f;
    bool pair = true;
    int rc = Guarded(op[2], op[3] != 0, [&] {
      if (op[0] % 4 == 0) { auto r = (*ev)(*e); gq = r.Query(); gl = r.Location(); }
      else if (op[0] % 4 == 1) { auto r = copy(*e); gq = r.Query(); gl = r.Location(); }
      else if (op[0] % 4 == 2) { auto r = sc(ScoredEvent<SE>(*e, 0.25f)); gq = r.Query(); gl = r.Location(); score = r.Score(); }
      else { pair = false; gq = (*ev->GetMapper())(e->Query()); }
    });
    Quiet q;
    if (rc == 0) {
      book.tried.insert(e->Query());
      if (pair) book.tried.insert(e->Location());
      std::string w = book.See(e->Query(), gq, cap);
      if (w.empty() && pair) w = book.See(e->Location(), gl, cap);
      if (w.empty() && op[0] % 4 == 2 && score != 0.25f) w = "the score is lost";
      if (!w.empty()) { Report("identifiers", Str("step ", step, ": ", w)); return; }
    } else {
      Count(rc == 3 ? 5 : 2);
      book.tried.insert(e->Query());
      if (pair) book.tried.insert(e->Location());
      if (rc == 3 && book.id.count(e->Query()) && (!pair || book.id.count(e->Location()))) {
        Report("known-name-refused", Str("step ", step, ": known names are refused"));
        return;
      }
      if (rc == 3 && (long)book.tried.size() <= cap) { Report("name-refused", Str("step ", step, ": refused with ", book.tried.size(), " names of ", cap)); return; }
    }
  }
  Quiet q;
  std::vector<std::string> all(book.tried.begin(), book.tried.end());
  for (auto &n : all) {
    try {
      std::string w = book.See(n, (long)(*copy.GetMapper())(n), cap);
      if (!w.empty()) { Report("identifiers", "at the end: " + w); return; }
    } catch (const std::range_error &) {
      if (book.id.count(n)) { Report("known-name-refused", "at the end: known name " + n + " is refused"); return; }
    }
  }
  long n = std::min<long>(book.tried.size(), cap), top = -1;
  for (auto &x : book.id) top = std::max(top, x.second);
  if ((long)book.id.size() != n || top != n - 1)
    Report("identifiers-not-dense", Str(book.id.size(), " names of ", book.tried.size(), " have identifiers, the largest is ", top));
}

// ---------------------------------------------------------------------------
// C15: concurrent evaluations
// ---------------------------------------------------------------------------
typedef kws::reader::PlainTextReader<BoxRef> BoxRefReader;
typedef kws::reader::PlainTextReader<BoxHyp> BoxHypReader;
typedef kws::mapper::StringToIntMapper<int32_t> NameMap;
typedef kws::mapper::StringEventToIntMapper<int32_t> EvMap;
typedef kws::mapper::ScoredEventMapper<EvMap> ScEvMap;
typedef kws::reader::PlainTextMapEventReader<EvMap> IntRefReader;
typedef kws::reader::PlainTextMapEventReader<ScEvMap> IntHypReader;

struct Shared {
  BoxRefReader box_refs;
  BoxHypReader box_hyps;
  kws::scorer::IntersectionOverHypothesisAreaScorer<BoxRef, BoxHyp> box_scorer;
  kws::scorer::TrivialScorer<IntRef, IntHyp> int_scorer;
  kws::core::GlobalAP<Match<BoxRef, BoxHyp>> bgap;
  kws::core::MeanAP<Match<BoxRef, BoxHyp>> bmap;
  kws::core::GlobalNDCG<Match<BoxRef, BoxHyp>> bgn;
  kws::core::MeanNDCG<Match<BoxRef, BoxHyp>> bmn;
  EventSet<BoxRef> set;
  std::vector<Match<BoxRef, BoxHyp>> matches;
  Shared() : box_scorer(0.5f), bgap(true, true, true), bmap(true, true, true), bgn(true), bmn(true) {}
};
struct Job {
  const std::vector<int64_t> *op;
  int64_t flags;
  Shared *shared;
  std::string ref_file, hyp_file, out_file;
  std::string result;
};

template <class M> void Assess(const std::vector<M> &matches, std::ostringstream &o, const std::string &out_file, uint64_t seed,
                               const kws::core::GlobalStatistic<M> *gap, const kws::core::Statistic<M> *mp,
                               const kws::core::GlobalStatistic<M> *gn, const kws::core::Statistic<M> *mn, bool boot) {
  typedef typename M::RefEvent::QType QType;
  std::map<QType, QType> ident;
  for (auto &m : matches) { const auto &q = m.HasRef() ? m.GetRef().Query() : m.GetHyp().Query(); ident[q] = q; }
  std::vector<std::vector<M>> grouped;
  kws::core::GroupMatchesByQueryGroup(matches, ident, &grouped);
  o << (*gap)(matches) << " " << (*mp)(grouped, false) << " " << (*gn)(matches) << " " << (*mn)(grouped, false) << " "
    << grouped.size() << "\n";
  std::vector<double> pr, rc, x, y;
  kws::core::ComputePrecisionAndRecall(matches, true, true, &pr, &rc);
  kws::core::GetEvenlyDistributedPoints01Interval(7, &x);
  kws::core::SampleCurveAtGivenPoints(rc, pr, x, &y, true);
  for (double v : y) o << v << " ";
  o << "\n";
  kws::core::WriteCurveToFile(out_file, x, y);
  if (boot && !grouped.empty()) {
    double lo = 0, hi = 0;
    auto f = [mp](const std::vector<std::vector<M>> &smp) -> double { return (*mp)(smp, true); };
    double v = kws::core::ComputePercentileBootstrapCI(grouped, 4, 0.3, (size_t)seed, f, &lo, &hi);
    o << v << " " << lo << " " << hi << "\n";
  }
}
void RunJob(void *arg) {
  Job *j = (Job *)arg;
  const std::vector<int64_t> &op = *j->op;
  std::ostringstream o;
  const int64_t fl = j->flags;
  if (op[0] == 0) {                                   // boxes
    BoxRefReader own_r;
    BoxHypReader own_h;
    kws::scorer::IntersectionOverHypothesisAreaScorer<BoxRef, BoxHyp> own_s(0.5f);
    const BoxRefReader &rr = fl & 1 ? j->shared->box_refs : own_r;
    const BoxHypReader &rh = fl & 1 ? j->shared->box_hyps : own_h;
    std::vector<BoxRef> refs;
    std::vector<BoxHyp> hyps;
    o << rr.Read(j->ref_file, &refs) << rh.Read(j->hyp_file, &hyps) << " " << refs.size() << " " << hyps.size() << "\n";
    std::sort(hyps.begin(), hyps.end(), std::greater<BoxHyp>());
    typedef kws::matcher::SimpleMatcher<BoxRef, BoxHyp> Matcher;
    Matcher m(fl & 2 ? &j->shared->box_scorer : &own_s);
    const auto res = m.Match(refs, hyps);
    o << DumpMatches(res) << DumpMatches(m.GetRepeatedMatches()) << "\n";
    kws::core::GlobalAP<Match<BoxRef, BoxHyp>> gap(true, true, true);
    kws::core::MeanAP<Match<BoxRef, BoxHyp>> mp(true, true, true);
    kws::core::GlobalNDCG<Match<BoxRef, BoxHyp>> gn(true);
    kws::core::MeanNDCG<Match<BoxRef, BoxHyp>> mn(true);
    if (fl & 4) Assess(res, o, j->out_file, op[1], &j->shared->bgap, &j->shared->bmap, &j->shared->bgn, &j->shared->bmn, true);
    else Assess(res, o, j->out_file, op[1], &gap, &mp, &gn, &mn, true);
  } else if (op[0] == 1) {                            // names
    NameMap names;
    EvMap em(&names);
    ScEvMap sm(&em);
    IntRefReader rr(&em);
    IntHypReader rh(&sm);
    std::vector<IntRef> refs;
    std::vector<IntHyp> hyps;
    o << rr.Read(j->ref_file, &refs) << rh.Read(j->hyp_file, &hyps) << " " << refs.size() << " " << hyps.size() << "\n";
    std::sort(hyps.begin(), hyps.end(), std::greater<IntHyp>());
    kws::scorer::TrivialScorer<IntRef, IntHyp> own_s;
    typedef kws::matcher::SimpleMatcher<IntRef, IntHyp> Matcher;
    Matcher m(fl & 2 ? &j->shared->int_scorer : &own_s);
    const auto res = m.Match(refs, hyps);
    o << DumpMatches(res) << "\n";
    kws::core::GlobalAP<Match<IntRef, IntHyp>> gap(true, true, true);
    kws::core::MeanAP<Match<IntRef, IntHyp>> mp(true, true, true);
    kws::core::GlobalNDCG<Match<IntRef, IntHyp>> gn(true);
    kws::core::MeanNDCG<Match<IntRef, IntHyp>> mn(true);
    Assess(res, o, j->out_file, op[1], &gap, &mp, &gn, &mn, true);
  } else if (op[0] == 2) {                            // queries on a shared collection
    for (size_t i = 3; i < op.size(); ++i) {
      auto l = j->shared->set.FindOverlapping(MakeBoxRef(op[i]));
      o << j->shared->set.Size();
      for (auto &e : l) o << " " << DumpEvent(e);
      o << "\n";
    }
  } else {                                            // statistics of a shared list of matches
    std::vector<Match<BoxRef, BoxHyp>> mine(j->shared->matches);
    kws::core::SortMatchesDecreasingScore(&mine);
    Assess(mine, o, j->out_file, op[1], &j->shared->bgap, &j->shared->bmap, &j->shared->bgn, &j->shared->bmn, true);
    Assess(j->shared->matches, o, j->out_file, op[1], &j->shared->bgap, &j->shared->bmap, &j->shared->bgn, &j->shared->bmn, true);
    o << kws::core::TypeInfo<BoxRef>::Name() << kws::core::TypeInfo<float>::Name() << kws::core::TypeInfo<bool>::Name()
      << kws::core::TypeInfo<uint32_t>::Name() << kws::core::TypeInfo<std::string>::Name() << "\n";
  }
  j->result = o.str();
}
int RunJobs(const Scenario &s, int only) {
  Shared shared;
  int64_t flags = s.lib.empty() || s.lib[0].empty() ? 0 : s.lib[0][0];
  std::vector<Job> jobs(s.lib.size());
  {
    Quiet q;
    for (int64_t i = 0; i < 14; ++i) shared.set.Insert(MakeBoxRef(i * 13));
    for (int64_t i = 0; i < 10; ++i) {
      if (i % 3 == 0) shared.matches.push_back(Match<BoxRef, BoxHyp>::MakeFalsePositive(MakeBoxHyp(i * 5, i)));
      else if (i % 3 == 1) shared.matches.push_back(Match<BoxRef, BoxHyp>(MakeBoxRef(i * 7), MakeBoxHyp(i * 7, 9 - i), MatchError(0, 0)));
      else shared.matches.push_back(Match<BoxRef, BoxHyp>::MakeFalseNegative(MakeBoxRef(i * 5)));
    }
  }
  std::vector<int> ids;
  for (size_t i = 1; i < s.lib.size(); ++i) {
    if (only >= 0 && (int)i != only) continue;
    Job &j = jobs[i];
    j.op = &s.lib[i];
    j.flags = flags;
    j.shared = &shared;
    { Quiet q; j.ref_file = JobFile(i, 0); j.hyp_file = JobFile(i, 1); j.out_file = JobFile(i, 2); }
    if (only >= 0) RunJob(&j);
    else ids.push_back(SpawnThread(RunJob, &j));
  }
  for (int id : ids) JoinThread(id);
  Quiet q;
  for (size_t i = 1; i < s.lib.size(); ++i)
    if (only < 0 || (int)i == only) Emit(Str("job ", i, ":\n", jobs[i].result));
  return 0;
}

// ---------------------------------------------------------------------------
// C16: resources
// ---------------------------------------------------------------------------
struct Bench {
  typedef Match<BoxRef, BoxHyp> M;
  typedef kws::matcher::SimpleMatcher<BoxRef, BoxHyp> Matcher;
  typedef kws::mapper::StringToIntMapper<int8_t> Names;
  typedef kws::mapper::StringEventToIntMapper<int8_t> EvNames;
  std::vector<BoxRef> refs[2];
  std::vector<BoxHyp> hyps[2];
  std::unique_ptr<EventSet<BoxRef>> set[2];
  std::unique_ptr<Matcher> matcher;
  std::vector<M> res[3];
  std::unique_ptr<Names> names[2], shared_names;     // shared_names copies names[0]
  std::unique_ptr<EvNames> ev[2], ev_copy;           // ev_copy copies ev[0]
  std::vector<IntRef> irefs;
  std::vector<IntHyp> ihyps;
};
void BenchRun(const Scenario &s, bool faults) {
  typedef Bench::M M;
  kws::scorer::IntersectionOverHypothesisAreaScorer<BoxRef, BoxHyp> base(0.5f);
  TouchyScorer<BoxRef, BoxHyp> scorer(&base);
  Bench b;
  for (size_t step = 0; step < s.lib.size(); ++step) {
    const std::vector<int64_t> &op = s.lib[step];
    if (op.size() < 6) continue;
    int64_t x = op[1], y = op[2], z = op[3], fn = faults ? op[4] : -1;
    bool sticky = op[5] != 0;
    if (op[0] == 6) scorer.left = faults && z % 3 == 0 ? z % 7 : -1;
    { Quiet q; NoteLog("op %d", (int)op[0]); }
    int rc = Guarded(fn, sticky, [&] {
      switch (op[0]) {
        case 0: { BoxRefReader r; r.Read(std::string(BenchFile(y)), &b.refs[x & 1]); break; }
        case 1: { BoxHypReader r; r.Read(std::string(BenchFile(y)), &b.hyps[x & 1]); break; }
        case 2: {
          NameMap n;
          EvMap e(&n);
          ScEvMap sc(&e);
          IntRefReader rr(&e);
          IntHypReader rh(&sc);
          rr.Read(std::string(BenchFile(y)), &b.irefs);
          rh.Read(std::string(BenchFile(z)), &b.ihyps);
          break;
        }
        case 3: {
          std::istringstream in("q d 1 2 3 4\n# c\nq e 5 6 7 8\nr a long document name, x 1\n");
          BoxRefReader r;
          r.Read(&in, &b.refs[x & 1]);
          break;
        }
        case 4: {
          if (!b.set[x & 1]) b.set[x & 1].reset(new EventSet<BoxRef>());
          for (auto &e : b.refs[y & 1]) b.set[x & 1]->Insert(e);
          if (z & 1) b.set[x & 1]->Remove(MakeBoxRef(z));
          if ((z & 15) == 3) b.set[x & 1]->Clear();
          auto l = b.set[x & 1]->FindOverlapping(MakeBoxRef(z));
          break;
        }
        case 5: b.set[x & 1].reset(new EventSet<BoxRef>(b.refs[y & 1].begin(), b.refs[y & 1].end())); break;
        case 6: {
          if (!b.matcher) {
            if (z & 1) b.matcher.reset(new Bench::Matcher(&scorer));
            else {
              std::unique_ptr<EventSet<BoxRef>> es(new EventSet<BoxRef>());
              b.matcher.reset(new Bench::Matcher(&scorer, es.get()));
              es.release();
            }
          }
          b.res[x % 3] = b.matcher->Match(b.refs[y & 1], b.hyps[y & 1]);
          break;
        }
        case 7: b.res[x % 3] = b.res[y % 3]; break;
        case 8: {
          auto &u = b.res[x % 3], &v = b.res[y % 3];
          if (!u.empty() && !v.empty()) u[z % u.size()] = v[(z / 3) % v.size()];
          break;
        }
        case 9: {
          auto &u = b.res[x % 3], &v = b.res[y % 3];
          if (!u.empty() && !v.empty()) { M t(v[z % v.size()]); u[(z / 3) % u.size()] = std::move(t); }
          break;
        }
        case 10: kws::core::SortMatchesDecreasingScore(&b.res[x % 3]); break;
        case 11: {
          std::map<std::string, std::string> g;
          std::vector<std::vector<M>> grouped;
          kws::core::GroupMatchesByQueryGroup(b.res[x % 3], g, &grouped);
          kws::core::GlobalAP<M> gap(z & 1, z & 2, z & 4);
          kws::core::MeanAP<M> mp(z & 1, z & 2, z & 4);
          kws::core::GlobalNDCG<M> gn(z & 1);
          kws::core::MeanNDCG<M> mn(z & 1);
          gap(b.res[x % 3]);
          gap(grouped, true);
          mp(grouped, true);
          gn(b.res[x % 3]);
          gn(grouped, true);
          mn(grouped, true);
          if (!grouped.empty()) {
            double lo, hi;
            auto f = [&mp](const std::vector<std::vector<M>> &smp) -> double { return mp(smp, true); };
            kws::core::ComputePercentileBootstrapCI(grouped, 3, 0.5, (size_t)z, f, &lo, &hi);
            kws::core::MatchesSampler<BoxRef, BoxHyp> ms((size_t)z);
            std::vector<M> out;
            ms(b.res[x % 3], &out);
          }
          break;
        }
        case 12: {
          std::vector<double> px = {0, 0.5, 1}, py = {1, 0.5, 0.25};
          kws::core::WriteCurveToFile(BenchFile(8 + (y & 1)), px, py);
          break;
        }
        case 13: if (!(x & 1)) b.shared_names.reset(); b.names[x & 1].reset(new Bench::Names()); break;
        case 14: if (b.names[0]) b.shared_names.reset(new Bench::Names(*b.names[0])); break;
        case 15: {
          Bench::Names *n = z & 1 && b.shared_names ? b.shared_names.get() : b.names[x & 1].get();
          if (n) for (int64_t i = 0; i < (z & 2 ? 45 : 1 + y % 9); ++i) (*n)(NameFor(y * 12 + i));
          break;
        }
        case 16: if (!(x & 1)) b.ev_copy.reset(); b.ev[x & 1].reset(); b.ev[x & 1].reset(new Bench::EvNames()); break;
        case 17: if (b.ev[0]) b.ev_copy.reset(new Bench::EvNames(*b.ev[0])); break;
        case 18: {
          Bench::EvNames *n = z & 1 && b.ev_copy ? b.ev_copy.get() : b.ev[x & 1].get();
          if (n) for (int64_t i = 0; i < 1 + y % 5; ++i) (*n)(Event<std::string, std::string>(NameFor(y + i), NameFor(z + i)));
          break;
        }
        case 19: {                                       // a mapper that takes over a caller's one
          std::unique_ptr<kws::mapper::StringToIntMapper<int8_t>> sm(new kws::mapper::StringToIntMapper<int8_t>());
          b.ev[x & 1].reset();
          if (!(x & 1)) b.ev_copy.reset();
          b.ev[x & 1].reset(new Bench::EvNames(sm.get(), true));
          sm.release();
          break;
        }
        case 20: std::vector<M>().swap(b.res[x % 3]); break;
        case 21: b.matcher.reset(); break;
        case 22: {                                       // assignment between mappers
          if (b.names[0] && b.names[1]) {
            if (x & 1) { *b.names[1] = *b.names[0]; (*b.names[1])("again"); b.names[1].reset(); }
            else { b.shared_names.reset(); Bench::Names &self = *b.names[0]; *b.names[0] = self; (*b.names[0])("again"); }
          }
          break;
        }
        case 23: {
          if (b.ev[0] && b.ev[1]) {
            *b.ev[1] = *b.ev[0];
            (*b.ev[1])(Event<std::string, std::string>("a", "b"));
            b.ev[1].reset();
          }
          break;
        }
        case 24: {                                       // matches put together by hand
          auto &u = b.res[x % 3];
          auto &rs = b.refs[y & 1];
          auto &hs = b.hyps[y >> 1 & 1];
          if (rs.empty() || hs.empty()) break;
          const BoxRef &ref = rs[(size_t)z % rs.size()];
          const BoxHyp &hyp = hs[(size_t)(z / 2) % hs.size()];
          if (!u.empty()) {
            M &m = u[(size_t)(z / 3) % u.size()];
            if (y % 3 != 1) m.SetRef(ref);
            if (y % 3 != 2) m.SetHyp(hyp);
            m.SetError(MatchError(0.5f, 0));
            if (m.HasRef() && z & 1) m.SetRef(m.GetRef());
            if (m.HasHyp() && z & 2) m.SetHyp(m.GetHyp());
          }
          if (z & 4) u.push_back(M::MakeFalsePositive(hyp));
          if (z & 8) u.push_back(M::MakeFalseNegative(ref));
          if (z & 16) u.insert(u.begin(), M(ref, hyp, MatchError(0, 0)));
          if (u.size() > 2 && z & 32) u.erase(u.begin() + 1);
          if (u.size() > 40) u.resize(10);
          break;
        }
        case 25: {                                       // events and lists of them
          b.refs[x & 1] = b.refs[y & 1];
          b.hyps[x & 1] = b.hyps[y & 1];
          auto &v = b.refs[x & 1];
          if (v.size() > 1) { BoxRef t(v[0]); v[0] = v[(size_t)z % v.size()]; v[1] = std::move(t); }
          if (v.size() > 60) v.resize(8);
          if (b.hyps[x & 1].size() > 60) b.hyps[x & 1].resize(8);
          break;
        }
        case 26: {                                       // the other scorers
          kws::scorer::IntersectionOverUnionAreaScorer<BoxRef, BoxHyp> un(0.25f);
          kws::scorer::SoftIntersectionOverHypothesisAreaScorer<BoxRef, BoxHyp> soft;
          kws::scorer::TrivialScorer<BoxRef, BoxHyp> same;
          kws::scorer::Scorer<BoxRef, BoxHyp> *const all[3] = {&un, &soft, &same};
          std::unique_ptr<kws::matcher::Matcher<BoxRef, BoxHyp>> m(new Bench::Matcher(all[z % 3]));
          m->Match(b.refs[y & 1], b.hyps[x & 1]);
          std::unique_ptr<kws::scorer::Scorer<BoxRef, BoxHyp>> own(new kws::scorer::IntersectionOverHypothesisAreaScorer<BoxRef, BoxHyp>(0.5f));
          Bench::Matcher last(own.get());
          last.Match(b.refs[y & 1], b.hyps[x & 1]);
          break;
        }
        case 27: {                                       // readers that are copied and assigned
          NameMap n;
          EvMap e(&n);
          IntRefReader rr(&e);
          IntRefReader copy(rr);
          rr.Read(std::string(BenchFile(y)), &b.irefs);
          copy.Read(std::string(BenchFile(z)), &b.irefs);
          rr = copy;
          rr.Read(std::string(BenchFile(y)), &b.irefs);
          break;
        }
        case 28: {                                       // texts
          std::ostringstream o;
          for (auto &m : b.res[x % 3]) o << m << "\n";
          for (auto &e : b.refs[y & 1]) o << e << "\n";
          for (auto &e : b.hyps[y & 1]) o << e << "\n";
          o << kws::core::TypeInfo<std::string>::Name();
          break;
        }
      }
    });
    // what a failed operation was changing may be in any state that can be destroyed
    if (rc && ((op[0] >= 6 && op[0] <= 10) || op[0] == 24)) b.res[x % 3].clear();
    if (rc && (op[0] == 4 || op[0] == 5)) b.set[x & 1].reset();
    if (rc && op[0] == 22 && (x & 1)) b.names[1].reset();  // it must not outlive the one it was assigned
    if (rc && op[0] == 23) b.ev[1].reset();
    Quiet q;
    if (rc == 1) Count(2);
    if (rc == 2) Count(3);
    if (rc == 4) Count(6);
  }
}
int RunBench(const Scenario &s) {
  size_t l[4];
  for (int i = 0; i < 4; ++i) {
    ResetFaults();
    SetFaults(i >= 2);
    BenchRun(s, i >= 2);
    Quiet q;
    l[i] = LiveBlocks();
    size_t fds = OpenFds();
    NoteLog("live %zu fds %zu", l[i], fds);
    if (fds) { Report("file-left-open", Str(fds, " files are still open after everything was destroyed")); return 0; }
  }
  Quiet q;
  if (l[1] > l[0]) Report("memory-leak", Str("every repetition of the history leaves ", l[1] - l[0], " more blocks behind"));
  else if (l[3] > l[2]) Report("memory-leak", Str("every repetition of the history with its failures leaves ", l[3] - l[2], " more blocks behind"));
  return 0;
}

// ---------------------------------------------------------------------------
// C08: the library's samplers and intervals with an arbitrary statistic
// ---------------------------------------------------------------------------
int RunSampling(const Scenario &s) {
  typedef Match<IntRef, IntHyp> M;
  typedef std::vector<std::vector<M>> Groups;
  if (s.lib.empty() || s.lib[0].size() < 4) return 0;
  const std::vector<int64_t> &op = s.lib[0];
  static const double levels[] = {0, 1, 0.05, 0.5, 1e-12, 0.999999, 0.3, 0.1, 0.9, 0.02};
  double alpha = levels[op[0] % 10];
  size_t reps = (size_t)op[1], seed = (size_t)op[2];
  Groups g;
  {
    Quiet q;
    long id = 0;
    for (size_t i = 3; i < op.size(); ++i) {
      g.emplace_back();
      for (int64_t k = 0; k < op[i]; ++k, ++id)
        g.back().push_back(M::MakeFalsePositive(IntHyp(IntRef((int32_t)(i - 3), (int32_t)id), (float)id)));
    }
  }
  std::vector<double> seen;
  std::string bad;
  size_t calls = 0;
  bool pooled = op[2] % 2;
  auto stat = [&](const Groups &smp) -> double {
    Quiet q;
    ++calls;
    double v = 0;
    if (smp.size() != g.size()) bad = Str("a sample has ", smp.size(), " groups instead of ", g.size());
    for (auto &x : smp) {
      if (x.empty()) continue;
      size_t from = (size_t)x[0].GetHyp().Query();
      if (from >= g.size() || x.size() != g[from].size()) { bad = Str("a sampled group has ", x.size(), " matches"); continue; }
      for (auto &m : x) {
        if ((size_t)m.GetHyp().Query() != from) bad = "a sampled group mixes matches of several groups";
        v += m.GetHyp().Score() * (pooled ? 1.0 : 0.37) + 1;
      }
    }
    if (calls > 1) seen.push_back(v);
    return v;
  };
  double lo = 0, hi = 0, obs = 0;
  obs = kws::core::ComputePercentileBootstrapCI(g, reps, alpha, seed, stat, &lo, &hi);
  std::vector<double> first;
  {
    Quiet q;
    if (!bad.empty()) { Report("wrong-sample", bad); return 0; }
    if (calls != reps + 1) { Report("wrong-repetitions", Str(calls - 1, " samples instead of ", reps)); return 0; }
    double own = 0;
    { std::vector<double> keep = seen; size_t kc = calls; calls = 0; own = stat(g); calls = kc; seen = keep; }
    if (obs != own) { Report("interval-changes-score", Str("the statistic is ", own, ", reported ", obs)); return 0; }
    if (!(lo <= hi)) { Report("interval-reversed", Str("[", lo, ", ", hi, "]")); return 0; }
    std::vector<double> d;
    for (double v : seen) d.push_back(v - obs);
    std::sort(d.begin(), d.end());
    if (reps == 0) {
      if (lo != obs || hi != obs) { Report("wrong-interval", Str("without repetitions the interval of ", obs, " is [", lo, ", ", hi, "]")); return 0; }
    } else {
      // the quantile's rank may be rounded either way
      auto rank_ok = [&](double bound, double r) {
        for (int k = -1; k <= 1; ++k) {
          double x = std::floor(r) + k;
          if (k == -1 && r - std::floor(r) > 1e-9) continue;
          if (k == 1 && std::floor(r) + 1 - r > 1e-9) continue;
          size_t i = x < 0 ? 0 : (size_t)x;
          if (i >= reps) i = reps - 1;
          if (bound == obs - d[i]) return true;
        }
        return false;
      };
      if (!rank_ok(lo, (1 - alpha * 0.5) * reps) || !rank_ok(hi, alpha * 0.5 * reps)) {
        Report("wrong-interval", Str("[", lo, ", ", hi, "] around ", obs, " with ", reps, " repetitions at level ", alpha));
        return 0;
      }
    }
    first = seen;
    seen.clear();
    calls = 0;
    Count(7);
  }
  double lo2, hi2;
  kws::core::ComputePercentileBootstrapCI(g, reps, alpha, seed, stat, &lo2, &hi2);
  {
    Quiet q;
    if (seen != first || lo2 != lo || hi2 != hi) { Report("not-reproducible", "the same seed gives other samples"); return 0; }
  }
  // the sampler of a plain list
  std::vector<M> list, out;
  { Quiet q; for (auto &x : g) for (auto &m : x) list.push_back(m); }
  kws::core::MatchesSampler<IntRef, IntHyp> ms(seed);
  for (int k = 0; k < 2; ++k) {
    ms(list, &out);
    Quiet q;
    if (out.size() != list.size()) { Report("wrong-sample", Str("a sample of ", list.size(), " matches has ", out.size())); return 0; }
    for (auto &m : out)
      if (!m.HasHyp()) { Report("wrong-sample", "a sample holds something that is not one of the matches"); return 0; }
  }
  return 0;
}

// ---------------------------------------------------------------------------
// C27: readers
// ---------------------------------------------------------------------------
// Serves `text` in pieces; at byte `fail` (the end included) it throws.
class PieceBuf : public std::streambuf {
 public:
  PieceBuf(const std::string *text, size_t piece, int64_t fail) : t_(text), piece_(piece ? piece : 1), fail_(fail) {}
  bool failed = false;

 protected:
  int_type underflow() override {
    if (fail_ >= 0 && at_ >= (size_t)fail_) { failed = true; throw CallbackError(); }
    if (at_ >= t_->size()) return traits_type::eof();
    size_t n = std::min(piece_, t_->size() - at_);
    if (fail_ >= 0) n = std::min(n, (size_t)fail_ - at_);
    char *p = const_cast<char *>(t_->data()) + at_;
    setg(p, p, p + n);
    at_ += n;
    return traits_type::to_int_type(*p);
  }

 private:
  const std::string *t_;
  size_t piece_, at_ = 0;
  int64_t fail_;
};
// Returns 1 read, 0 refused, -1 an exception.
template <class R, class E> int OneRead(R &reader, std::vector<E> *list, const std::vector<int64_t> &op, size_t step, const std::string &text,
                                        const std::string &file, bool *stream_failed) {
  int res = 0;
  int rc = Guarded(op[4], op[5] != 0, [&] {
    switch (op[2]) {
      case 0: res = reader.Read(file, list); break;
      case 1: { std::istringstream in(text); res = reader.Read(&in, list); break; }
      case 4: {                                          // the caller has taken the first line
        std::istringstream in(text);
        std::string first;
        std::getline(in, first);
        res = reader.Read(&in, list);
        break;
      }
      default: {
        PieceBuf b(&text, (size_t)op[7], op[3]);
        std::istream in(&b);
        if (op[2] == 3) in.exceptions(std::ios_base::badbit);
        try {
          res = reader.Read(&in, list);
        } catch (...) {
          *stream_failed = b.failed;
          throw;
        }
        *stream_failed = b.failed;
      }
    }
  });
  (void)step;
  if (rc == 1) Count(2);
  if (rc == 2) Count(3);
  return rc ? -1 : res;
}
std::string ShowRead(const BoxRef &e) { return DumpEvent(e); }
std::string ShowRead(const BoxHyp &e) { return DumpEvent(e) + Str(" ", e.Score()); }
int RunReads(const Scenario &s) {
  std::unique_ptr<BoxRefReader> rr(new BoxRefReader());
  std::unique_ptr<BoxHypReader> rh(new BoxHypReader());
  NameMap names;
  EvMap ev(&names);
  ScEvMap sc(&ev);
  IntRefReader ir(&ev);
  IntHypReader ih(&sc);
  std::vector<BoxRef> lr[2];
  std::vector<BoxHyp> lh[2];
  std::vector<IntRef> li[2];
  std::vector<IntHyp> ls[2];
  NameBook book;
  for (size_t step = 0; step < s.lib.size(); ++step) {
    const std::vector<int64_t> &op = s.lib[step];
    if (op.size() < 8) continue;
    if (op[0] == 4) {
      Guarded(op[4], op[5] != 0, [&] {
        if (op[1] & 1) { std::unique_ptr<BoxRefReader> n(new BoxRefReader(*rr)); rr = std::move(n); }
        else { std::unique_ptr<BoxHypReader> n(new BoxHypReader(*rh)); rh = std::move(n); }
      });
      continue;
    }
    if (op[0] == 5) {
      Guarded(op[4], op[5] != 0, [&] {
        if (op[1] & 1) { std::unique_ptr<BoxRefReader> n(new BoxRefReader()); *rr = *n; }
        else { std::unique_ptr<BoxHypReader> n(new BoxHypReader()); *rh = *n; }
      });
      continue;
    }
    const int reader = (int)op[0], k = (int)(op[1] & 1);
    std::vector<ReadRec> want;
    std::string text, file;
    bool bad = false;
    {
      Quiet q;
      text = ReadText(op);
      file = ReadFileName(step);
      for (size_t j = 8; j < op.size(); ++j) {
        if (op[2] == 4 && j == 8) continue;
        ReadRec r = DecodeRead(reader, op[j]);
        if (r.malformed) bad = true;
        if (r.good) want.push_back(r);
      }
      NoteLog("read %d", reader);
    }
    bool stream_failed = false;
    int res;
    switch (reader) {
      case 0: res = OneRead(*rr, &lr[k], op, step, text, file, &stream_failed); break;
      case 1: res = OneRead(*rh, &lh[k], op, step, text, file, &stream_failed); break;
      case 2: res = OneRead(ir, &li[k], op, step, text, file, &stream_failed); break;
      default: res = OneRead(ih, &ls[k], op, step, text, file, &stream_failed); break;
    }
    Quiet q;
    if (reader >= 2) for (auto &r : want) { book.tried.insert(r.a); book.tried.insert(r.b); }
    if (OpenFds() != 0) { Report("descriptor-left", Str("read ", step, " leaves its file open")); return 0; }
    if (res <= 0) {
      Count(9);
      if (!bad && !stream_failed && op[4] < 0) {
        Report("good-input-refused", Str("read ", step, " of well-formed input ", res ? "throws" : "fails"));
        return 0;
      }
    } else if (bad || stream_failed) {
      Report("bad-input-accepted", Str("read ", step, bad ? " of malformed input succeeds" : " succeeds though its stream failed"));
      return 0;
    } else {
      Count(8);
      std::string w, g;
      size_t n = reader == 0 ? lr[k].size() : reader == 1 ? lh[k].size() : reader == 2 ? li[k].size() : ls[k].size();
      if (n != want.size()) {
        Report("wrong-records", Str("read ", step, " gives ", n, " records of ", want.size()));
        return 0;
      }
      for (size_t i = 0; i < n; ++i) {
        const ReadRec &r = want[i];
        if (reader < 2) {
          BoxRef e(r.a, Box(r.b, r.box.x, r.box.y, r.box.w, r.box.h));
          w = reader ? ShowRead(BoxHyp(e, r.score)) : ShowRead(e);
          g = reader ? ShowRead(lh[k][i]) : ShowRead(lr[k][i]);
        } else {
          const IntRef &e = reader == 2 ? li[k][i] : (const IntRef &)ls[k][i];
          g = book.See(r.a, e.Query(), 1l << 31);
          if (g.empty()) g = book.See(r.b, e.Location(), 1l << 31);
          if (g.empty() && reader == 3 && ls[k][i].Score() != r.score) g = "another score";
        }
        if (w != g) {
          Report("wrong-records", Str("read ", step, ", record ", i, ": ", g, reader < 2 ? " instead of " + w : ""));
          return 0;
        }
      }
    }
    std::vector<ReadRec>().swap(want);
    std::string().swap(text);
    std::string().swap(file);
  }
  return 0;
}

#include "lib_assess.h"
#include "lib_parser.h"
#include "lib_match.h"

}  // namespace
}  // namespace sim

extern "C" int lib_main(void *arg) {
  using namespace sim;
  LibArgs *a = (LibArgs *)arg;
  const Scenario &s = *a->s;
  if (a->what == 12) {
    switch (s.mode) {
      case 0: return RunSets<BoxTraits>(s);
      case 1: return RunSets<IntTraits>(s);
      case 2: return RunSets<StrTraits>(s);
      default: return RunSets<IntBoxTraits>(s);
    }
  }
  if (a->what == 13) {
    if (s.mode == 0) {
      kws::scorer::IntersectionOverHypothesisAreaScorer<BoxRef, BoxHyp> sc(0.5f);
      RunMatcherWith<BoxRef, BoxHyp>(s, a->only, &sc, MakeBoxRef, MakeBoxHyp);
    } else if (s.mode == 1) {
      kws::scorer::TrivialScorer<IntRef, IntHyp> sc;
      RunMatcherWith<IntRef, IntHyp>(s, a->only, &sc, MakeIntRef, MakeIntHyp);
    } else if (s.mode == 2) {
      SoftScorer sc;
      RunMatcherWith<BoxRef, BoxHyp>(s, a->only, &sc, MakeBoxRef, MakeBoxHyp);
    } else {
      RunMatchOps(s);
    }
    return 0;
  }
  if (a->what == 14) {
    switch (s.mode) {
      case 0: RunNames<int8_t, std::unordered_map<std::string, int8_t>>(s); break;
      case 1: RunNames<int32_t, std::unordered_map<std::string, int32_t>>(s); break;
      case 2: RunNames<uint8_t, std::map<std::string, uint8_t>>(s); break;
      case 3: RunNames<int16_t, std::map<std::string, int16_t>>(s); break;
      case 4: RunEventNames<int8_t>(s); break;
      default: RunEventNames<int32_t>(s); break;
    }
    return 0;
  }
  if (a->what == 15) return RunJobs(s, a->only);
  if (a->what == 16) return RunBench(s);
  if (a->what == 8) return RunSampling(s);
  if (a->what == 27) return RunReads(s);
  if (a->what == 28) { RunAssess(s); return 0; }
  if (a->what == 29) { RunParsers(s); return 0; }
  if (a->what == 23) { RunAllMatchers(s); return 0; }
  return 1;
}
