// Values: areas and scorers, comparison operators.
//   geo <int|uint|long> <query ref> <query hyp> <doc> x y w h <doc> x y w h
//   rule <ioh|iou|triv> n d                 (any number)
//   ord <kind> / v <attributes...> / p i j  (positions from 1)
#include "common.h"
#include <algorithm>
#include <cmath>
#include <functional>
#include "core/DocumentBoundingBox.h"
#include "core/Event.h"
#include "core/ScoredEvent.h"
#include "core/ShapedEvent.h"
#include "scorer/IntersectionOverHypothesisAreaScorer.h"
#include "scorer/IntersectionOverUnionAreaScorer.h"
#include "scorer/SoftBoundingBoxScorer.h"
#include "scorer/TrivialScorer.h"
using namespace kws::core;
using namespace kws::scorer;
using namespace vk;

template <class T> std::string D(T v) { return Bytes(std::to_string(v)); }
static std::string Err(const MatchError& e) {
  if (e.FP() == 0.0f && e.FN() == 0.0f) return "\"yes\"";
  if (e.FP() == 1.0f && e.FN() == 1.0f) return "\"no\"";
  return "\"strange\"";
}
static std::string Soft(float f) {
  const double k = f * 1e7;
  if (!(k >= -0.0 && k <= 2e7)) return "{\"k\":99999999,\"zero\":false,\"one\":false}";
  return "{\"k\":" + std::to_string((long)std::lround(k)) + ",\"zero\":" + (f == 0.0f ? "true" : "false") + ",\"one\":" + (f == 1.0f ? "true" : "false") + "}";
}

template <class T> std::string Geo(const Case& c) {
  typedef DocumentBoundingBox<T> B;
  typedef ShapedEvent<std::string, B> RE;
  typedef ScoredEvent<RE> HE;
  const Line& l = c[0];
  auto num = [&](size_t i) { return (T)I(l[i]); };
  const B ba(Unhex(l[4]), num(5), num(6), num(7), num(8)), bb(Unhex(l[9]), num(10), num(11), num(12), num(13));
  const RE r(Unhex(l[2]), ba);
  const HE h(Unhex(l[3]), bb, 0.5f);
  const BoundingBox<T>& pa = ba;
  const BoundingBox<T>& pb = bb;
  const bool samedoc = ba.document == bb.document;
  std::string out = "{\"area\":[" + D(r.Area()) + "," + D(h.Area()) + "]";
  out += ",\"area2\":[" + D(pa.Area()) + "," + D(pb.Area()) + "]";
  std::string in = D(IntersectionArea(r, h)) + "," + D(IntersectionArea(h, r)) + "," + D(ba.IntersectionArea(bb)) + "," + D(IntersectionArea(bb, ba));
  std::string un = D(UnionArea(r, h)) + "," + D(UnionArea(h, r)) + "," + D(ba.UnionArea(bb)) + "," + D(UnionArea(bb, ba));
  if (samedoc) {  // plain boxes know no document
    in += "," + D(pa.IntersectionArea(pb)) + "," + D(IntersectionArea(pb, pa));
    un += "," + D(pa.UnionArea(pb)) + "," + D(UnionArea(pb, pa));
  }
  out += ",\"inter\":[" + in + "],\"union\":[" + un + "],\"rules\":[";
  for (size_t i = 1; i < c.size(); ++i) {
    const float t = (float)I(c[i][2]) / (float)I(c[i][3]);
    std::string y;
    if (c[i][1] == "ioh") { IntersectionOverHypothesisAreaScorer<RE, HE> s(t); y = Err(s(r, h)); }
    else if (c[i][1] == "iou") { IntersectionOverUnionAreaScorer<RE, HE> s(t); y = Err(s(r, h)); }
    else { TrivialScorer<RE, HE> s; y = Err(s(r, h)); }
    out += (i > 1 ? "," : "") + y;
  }
  SoftIntersectionOverHypothesisAreaScorer<RE, HE> soft;
  const MatchError e = soft(r, h);
  return out + "],\"soft\":[" + Soft(e.FP()) + "," + Soft(e.FN()) + "]}";
}

template <class V> std::string Ord(const std::vector<V>& vs, const Case& c) {
  std::string out = "{\"six\":[";
  bool first = true;
  for (const Line& l : c) {
    if (l[0] != "p") continue;
    const V& a = vs[I(l[1]) - 1];
    const V& b = vs[I(l[2]) - 1];
    out += std::string(first ? "[" : ",[") + (a < b ? "true" : "false") + "," + (a > b ? "true" : "false") + "," + (a <= b ? "true" : "false") + "," +
           (a >= b ? "true" : "false") + "," + (a == b ? "true" : "false") + "," + (a != b ? "true" : "false") + "]";
    first = false;
  }
  struct P { V v; int i; };
  std::vector<P> ps;
  for (size_t i = 0; i < vs.size(); ++i) ps.push_back(P{vs[i], (int)i + 1});
  auto sorted = [&](bool desc) {
    std::vector<P> s = ps;
    if (desc) std::stable_sort(s.begin(), s.end(), [](const P& x, const P& y) { return std::greater<V>()(x.v, y.v); });
    else std::stable_sort(s.begin(), s.end(), [](const P& x, const P& y) { return std::less<V>()(x.v, y.v); });
    return Arr(s, [](const P& p) { return std::to_string(p.i); });
  };
  const std::string a = sorted(false), d = sorted(true);
  return out + "],\"asc\":" + a + ",\"desc\":" + d + "}";
}
template <class F> auto Vals(const Case& c, F f) -> std::vector<decltype(f(c[0]))> {
  std::vector<decltype(f(c[0]))> v;
  for (const Line& l : c) if (l[0] == "v") v.push_back(f(l));
  return v;
}
static float Sc(const std::string& bits) { return BitsToFloat((uint32_t)std::strtoul(bits.c_str(), nullptr, 10)); }
template <class T> std::string Boxes(const Case& c, const std::string& k) {
  typedef DocumentBoundingBox<T> B;
  typedef ShapedEvent<std::string, B> SE;
  typedef Event<std::string, B> E;
  auto n = [](const std::string& s) { return (T)I(s); };
  auto dbox = [n](const Line& l, size_t i) { return B(Unhex(l[i]), n(l[i + 1]), n(l[i + 2]), n(l[i + 3]), n(l[i + 4])); };
  if (k == "box") return Ord(Vals(c, [&](const Line& l) { return BoundingBox<T>(n(l[1]), n(l[2]), n(l[3]), n(l[4])); }), c);
  if (k == "dbox") return Ord(Vals(c, [&](const Line& l) { return dbox(l, 1); }), c);
  if (k == "event") return Ord(Vals(c, [&](const Line& l) { return SE(Unhex(l[1]), dbox(l, 2)); }), c);
  if (k == "event2") return Ord(Vals(c, [&](const Line& l) { return E(Unhex(l[1]), dbox(l, 2)); }), c);
  if (k == "scored") return Ord(Vals(c, [&](const Line& l) { return ScoredEvent<SE>(Unhex(l[2]), dbox(l, 3), Sc(l[1])); }), c);
  return Ord(Vals(c, [&](const Line& l) { return ScoredEvent<E>(E(Unhex(l[2]), dbox(l, 3)), Sc(l[1])); }), c);
}
static std::string Labels(const Case& c, const std::string& k) {
  typedef Event<std::string, std::string> L;
  typedef Event<int, int> N;
  if (k == "lab") return Ord(Vals(c, [](const Line& l) { return L(Unhex(l[1]), Unhex(l[2])); }), c);
  if (k == "slab") return Ord(Vals(c, [](const Line& l) { return ScoredEvent<L>(Unhex(l[2]), Unhex(l[3]), Sc(l[1])); }), c);
  if (k == "ilab") return Ord(Vals(c, [](const Line& l) { return N((int)I(l[1]), (int)I(l[2])); }), c);
  return Ord(Vals(c, [](const Line& l) { return ScoredEvent<N>((int)I(l[2]), (int)I(l[3]), Sc(l[1])); }), c);
}

int main() {
  Case c;
  while (NextCase(&c)) {
    const Line& l = c[0];
    if (l[0] == "geo") {
      if (l[1] == "int") Emit(Geo<int>(c));
      else if (l[1] == "uint") Emit(Geo<uint32_t>(c));
      else Emit(Geo<long long>(c));
    } else if (l[2] == "lab" || l[2] == "slab" || l[2] == "ilab" || l[2] == "silab") {
      Emit(Labels(c, l[2]));
    } else if (l[1] == "uint") {
      Emit(Boxes<uint32_t>(c, l[2]));
    } else {
      Emit(Boxes<int>(c, l[2]));
    }
  }
}
