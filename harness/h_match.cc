// Runs SimpleMatcher on sequences of calls.
//   kind table|int|uint|plain <scorer> <n> <d>
//   call / r <id> <event> / h <id> <event> <score bits> / p <hyp id> <ref id>:<fp>:<fn> ...
// Events come with the number of their value; outcomes are reported with these.
// 'fresh' makes the following calls use a new matcher.
#include "common.h"
#include <algorithm>
#include <map>
#include <set>
#include "core/DocumentBoundingBox.h"
#include "core/DocumentBoundingBoxEventSet.h"
#include "core/ScoredEvent.h"
#include "core/ShapedEvent.h"
#include "matcher/SimpleMatcher.h"
#include "scorer/IntersectionOverHypothesisAreaScorer.h"
#include "scorer/IntersectionOverUnionAreaScorer.h"
#include "scorer/SoftBoundingBoxScorer.h"
#include "scorer/TrivialScorer.h"
using namespace kws::core;
using namespace kws::scorer;
using namespace vk;

static const int U = 1 << 20;
static std::map<int, std::vector<std::vector<int>>> g_prefs;  // hyp -> (ref, fp, fn)

template <class T> struct BoxKind {
  typedef ShapedEvent<std::string, DocumentBoundingBox<T>> RE;
  typedef ScoredEvent<RE> HE;
  static RE Make(const Line& l, size_t i) {
    return RE(Unhex(l[i]), DocumentBoundingBox<T>(Unhex(l[i + 1]), (T)I(l[i + 2]), (T)I(l[i + 3]), (T)I(l[i + 4]), (T)I(l[i + 5])));
  }
  static std::string Show(const RE& e) {
    const auto& b = e.Location();
    return Bytes(e.Query()) + Bytes(b.document) + std::to_string(b.x) + "," + std::to_string(b.y) + "," + std::to_string(b.w) + "," + std::to_string(b.h);
  }
  static EventSet<RE>* Set() { return nullptr; }
  static Scorer<RE, HE>* MakeScorer(const Line& l) {
    const float t = (float)I(l[3]) / (float)I(l[4]);
    if (l[2] == "ioh") return new IntersectionOverHypothesisAreaScorer<RE, HE>(t);
    if (l[2] == "iou") return new IntersectionOverUnionAreaScorer<RE, HE>(t);
    if (l[2] == "soft") return new SoftIntersectionOverHypothesisAreaScorer<RE, HE>();
    return new TrivialScorer<RE, HE>();
  }
};
struct PlainKind {
  typedef Event<std::string, std::string> RE;
  typedef ScoredEvent<RE> HE;
  static RE Make(const Line& l, size_t i) { return RE(Unhex(l[i]), Unhex(l[i + 1])); }
  static std::string Show(const RE& e) { return Bytes(e.Query()) + Bytes(e.Location()); }
  static EventSet<RE>* Set() { return nullptr; }
  static Scorer<RE, HE>* MakeScorer(const Line&) { return new TrivialScorer<RE, HE>(); }
};
struct TableKind {
  typedef Event<int, int> RE;
  typedef ScoredEvent<RE> HE;
  static RE Make(const Line& l, size_t) { return RE(1, (int)I(l[1])); }
  static std::string Show(const RE& e) { return std::to_string(e.Location()); }
  struct TS : public Scorer<RE, HE> {
    MatchError operator()(const RE& r, const HE& h) override {
      for (const auto& p : g_prefs[h.Location()])
        if (p[0] == r.Location()) return MatchError((float)p[1] / U, (float)p[2] / U);
      return MatchError(1, 1);
    }
  };
  struct ES : public EventSet<RE> {
    EventList FindOverlapping(const Event<int, int>& h) const override {
      EventList out;
      for (const auto& p : g_prefs[h.Location()])
        if (!EventSet<RE>::FindOverlapping(RE(1, p[0])).empty()) out.push_back(RE(1, p[0]));
      return out;
    }
  };
  static EventSet<RE>* Set() { return new ES; }
  static Scorer<RE, HE>* MakeScorer(const Line&) { return new TS; }
};

inline int Code(float f) {
  const float x = f * U;
  return (x >= 0 && x <= 1073741824.0f && x == (float)(int)x) ? (int)x : -1;
}

template <class K> std::string Run(const Case& c) {
  typedef typename K::RE RE;
  typedef typename K::HE HE;
  typedef kws::matcher::SimpleMatcher<RE, HE> M;
  std::unique_ptr<Scorer<RE, HE>> scorer(K::MakeScorer(c[0]));
  auto make = [&]() -> M* {
    EventSet<RE>* s = K::Set();
    return s ? new M(scorer.get(), s) : new M(scorer.get());
  };
  std::unique_ptr<M> m(make());
  std::string out = "{\"calls\":[";
  bool first = true;
  size_t i = 1;
  while (i < c.size()) {
    if (c[i][0] == "fresh") { m.reset(make()); ++i; continue; }
    ++i;  // call
    std::vector<RE> refs;
    std::vector<HE> hyps;
    std::map<std::string, std::string> rid, hid;
    g_prefs.clear();
    for (; i < c.size() && c[i][0] != "call" && c[i][0] != "fresh"; ++i) {
      const Line& l = c[i];
      if (l[0] == "r") { refs.push_back(K::Make(l, 2)); if (K::Set() ) refs.back() = K::Make(l, 1); rid[K::Show(refs.back())] = l[1]; }
      if (l[0] == "h") {
        const uint32_t b = (uint32_t)std::strtoul(l.back().c_str(), nullptr, 10);
        HE h(K::Set() ? K::Make(l, 1) : K::Make(l, 2), BitsToFloat(b));
        hyps.push_back(h);
        hid[K::Show(h) + "@" + std::to_string(Ord(h.Score()))] = l[1];
      }
      if (l[0] == "p") {
        auto& v = g_prefs[(int)I(l[1])];
        for (size_t k = 2; k < l.size(); ++k) {
          std::vector<int> t(3);
          std::sscanf(l[k].c_str(), "%d:%d:%d", &t[0], &t[1], &t[2]);
          v.push_back(t);
        }
      }
    }
    auto show = [&](const kws::core::Match<RE, HE>& x) {
      std::string h = "0", r = "0";
      if (x.HasHyp()) { auto it = hid.find(K::Show(x.GetHyp()) + "@" + std::to_string(Ord(x.GetHyp().Score()))); h = it == hid.end() ? "-1" : it->second; }
      if (x.HasRef()) { auto it = rid.find(K::Show(x.GetRef())); r = it == rid.end() ? "-1" : it->second; }
      return "[" + h + "," + r + "," + std::to_string(Code(x.GetError().FP())) + "," + std::to_string(Code(x.GetError().FN())) + "]";
    };
    const auto res = m->Match(refs, hyps);
    const auto& rep = m->GetRepeatedMatches();
    out += std::string(first ? "" : ",") + "{\"out\":" + Arr(res, show) + ",\"rep\":" + Arr(rep, show) + "}";
    first = false;
  }
  return out + "]}";
}

int main() {
  Case c;
  while (NextCase(&c)) {
    const std::string& k = c[0][1];
    if (k == "table") Emit(Run<TableKind>(c));
    else if (k == "int") Emit(Run<BoxKind<int>>(c));
    else if (k == "uint") Emit(Run<BoxKind<uint32_t>>(c));
    else Emit(Run<PlainKind>(c));
  }
}
