// Matches as values.
//   val <box|plain|int|counts> <n slots>
//   op <o> <i> <j> <r> <h> <fp> <fn>     (1-based; masses in 1/64)
#include "common.h"
#include <algorithm>
#include <map>
#include "core/DocumentBoundingBox.h"
#include "core/Event.h"
#include "core/Match.h"
#include "core/MatchError.h"
#include "core/ScoredEvent.h"
#include "core/ShapedEvent.h"
using namespace kws::core;
using namespace vk;

// pools of event values; number k -> value, and back by comparing fields
struct BoxV {
  typedef ShapedEvent<std::string, DocumentBoundingBox<uint32_t>> RE;
  typedef ScoredEvent<RE> HE;
  static RE Ref(int k) { return RE(k % 2 ? "q" : "a longer query than any small buffer holds", DocumentBoundingBox<uint32_t>(k > 3 ? "e" : "d", k, 2, 3, 4)); }
  static HE Hyp(int k) { return HE(Ref((k + 1) / 2), k % 2 ? 0.5f : -2.0f); }
  static bool SameRef(const RE& a, const RE& b) {
    const auto& x = a.Location(); const auto& y = b.Location();
    return a.Query() == b.Query() && x.document == y.document && x.x == y.x && x.y == y.y && x.w == y.w && x.h == y.h;
  }
  static bool SameHyp(const HE& a, const HE& b) { return a.Score() == b.Score() && SameRef(a, b); }
};
struct PlainV {
  typedef Event<std::string, std::string> RE;
  typedef ScoredEvent<RE> HE;
  static RE Ref(int k) { return RE(std::string(k * 7, 'a'), std::to_string(k)); }
  static HE Hyp(int k) { return HE(Ref(k % 3), k * 0.25f); }
  static bool SameRef(const RE& a, const RE& b) { return a.Query() == b.Query() && a.Location() == b.Location(); }
  static bool SameHyp(const HE& a, const HE& b) { return a.Score() == b.Score() && SameRef(a, b); }
};
struct IntV {
  typedef Event<int, int> RE;
  typedef ScoredEvent<RE> HE;
  static RE Ref(int k) { return RE(k / 3, k % 3); }
  static HE Hyp(int k) { return HE(Ref(k), 1.0f); }
  static bool SameRef(const RE& a, const RE& b) { return a.Query() == b.Query() && a.Location() == b.Location(); }
  static bool SameHyp(const HE& a, const HE& b) { return a.Score() == b.Score() && SameRef(a, b); }
};

template <class K> std::string Run(const Case& c) {
  typedef Match<typename K::RE, typename K::HE> M;
  const int n = (int)I(c[0][2]);
  std::vector<std::unique_ptr<M>> s;
  for (int i = 0; i < n; ++i) s.emplace_back(new M());
  std::vector<M> v;
  std::string out = "{\"ops\":[";
  for (size_t q = 1; q < c.size(); ++q) {
    const Line& l = c[q];
    const std::string& o = l[1];
    const int i = (int)I(l[2]) - 1, j = (int)I(l[3]) - 1, r = (int)I(l[4]), h = (int)I(l[5]);
    const float fp = I(l[6]) / 64.0f, fn = I(l[7]) / 64.0f;
    const MatchError e(fp, fn);
    if (o == "default") s[i].reset(new M());
    else if (o == "err") s[i].reset(new M(fp, fn));
    else if (o == "fp") *s[i] = M::MakeFalsePositive(K::Hyp(h));
    else if (o == "fn") *s[i] = M::MakeFalseNegative(K::Ref(r));
    else if (o == "full") s[i].reset(new M(K::Ref(r), K::Hyp(h), e));
    else if (o == "setref") s[i]->SetRef(K::Ref(r));
    else if (o == "sethyp") s[i]->SetHyp(K::Hyp(h));
    else if (o == "seterr") s[i]->SetError(e);
    else if (o == "copy") s[i].reset(new M(*s[j]));
    else if (o == "assign") *s[i] = static_cast<const M&>(*s[j]);
    else if (o == "chain") { M t; (t = *s[j]).SetError(MatchError(7, 7)); M u(*s[i]); *s[i] = u = *s[j]; }
    else if (o == "move") *s[i] = std::move(*s[j]);
    else if (o == "swap") std::swap(*s[i], *s[j]);
    else if (o == "aliasref") s[i]->SetRef(s[j]->GetRef());
    else if (o == "aliashyp") s[i]->SetHyp(s[j]->GetHyp());
    else if (o == "aliaserr") s[i]->SetError(s[j]->GetError());
    else if (o == "push") v.push_back(*s[j]);
    else if (o == "pushself") v.push_back(v[j]);
    else if (o == "emplace") v.emplace_back(K::Ref(r), K::Hyp(h), e);
    else if (o == "insert") v.insert(v.begin() + i, *s[j]);
    else if (o == "insertself") v.insert(v.begin() + i, v[j]);
    else if (o == "erase") v.erase(v.begin() + i);
    else if (o == "vswap") std::swap(v[i], v[j]);
    else if (o == "vassign") v[i] = v[j];
    else if (o == "load") *s[i] = v[j];
    else if (o == "store") v[i] = *s[j];
    else if (o == "vsetref") v[i].SetRef(K::Ref(r));
    else if (o == "vsethyp") v[i].SetHyp(K::Hyp(h));
    else if (o == "vseterr") v[i].SetError(e);
    else if (o == "rotate") std::rotate(v.begin(), v.begin() + i, v.end());
    else if (o == "reverse") std::reverse(v.begin(), v.end());
    else if (o == "resize") v.resize(i + 1);
    else if (o == "clear") v.clear();
    else if (o == "realloc") { v.reserve(v.capacity() * 2 + 3); }
    else if (o == "vself") { v = *&v; std::vector<M> w(v); w.swap(v); v = w; w = std::vector<M>(); v.shrink_to_fit(); }
    std::vector<const M*> cells;
    for (const auto& p : s) cells.push_back(p.get());
    for (const auto& m : v) cells.push_back(&m);
    auto ref = [&](const M& m) {
      if (!m.HasRef()) return std::string("0");
      for (int k = 1; k < 9; ++k) if (K::SameRef(m.GetRef(), K::Ref(k))) return std::to_string(k);
      return std::string("-9");
    };
    auto hyp = [&](const M& m) {
      if (!m.HasHyp()) return std::string("0");
      for (int k = 1; k < 9; ++k) if (K::SameHyp(m.GetHyp(), K::Hyp(k))) return std::to_string(k);
      return std::string("-9");
    };
    auto mass = [](float f) { const float x = f * 64; return x >= -1e6f && x <= 1e6f && (int)x == x ? std::to_string((int)x) : std::string("-777"); };
    if (q > 1) out += ",";
    out += "{\"cells\":" + Arr(cells, [&](const M* m) {
      return "[" + ref(*m) + "," + hyp(*m) + "," + mass(m->GetError().FP()) + "," + mass(m->GetError().FN()) + "]"; });
    std::string cmp;
    for (const M* a : cells) for (const M* b : cells) { cmp += (cmp.empty() ? "" : ","); cmp += std::to_string((*a == *b ? 1 : 0) + (*a != *b ? 2 : 0)); }
    out += ",\"cmp\":[" + cmp + "]}";
  }
  return out + "]}";
}

int main() {
  Case c;
  while (NextCase(&c)) {
    const std::string& k = c[0][1];
    if (k == "box") Emit(Run<BoxV>(c));
    else if (k == "plain") Emit(Run<PlainV>(c));
    else Emit(Run<IntV>(c));
  }
}
