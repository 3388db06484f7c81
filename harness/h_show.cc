// Prints values, one after another on a single stream, and reads them back.
//   v box|dbox|event|scored|match|... <coordinate type> <values>
// Labels are hex encoded, real numbers are given by their bits.
//   match <type> <hyp?> <ref?> <fp> <fn> <hyp values> <ref values>
#include "common.h"
#include "core/DocumentBoundingBox.h"
#include "core/Match.h"
#include "core/MatchError.h"
#include "core/MatchErrorCounts.h"
#include "core/ScoredEvent.h"
#include "core/ShapedEvent.h"
using namespace kws::core;
using namespace vk;

template <class T> struct Val {
  static T From(const std::string& s) { return s[0] == '-' ? (T)std::strtoll(s.c_str(), nullptr, 10) : (T)std::strtoull(s.c_str(), nullptr, 10); }
  static std::string Show(const T& v) { return "[\"n\"," + Bytes(std::to_string(v)) + "]"; }
};
template <> struct Val<std::string> {
  static std::string From(const std::string& s) { return Unhex(s); }
  static std::string Show(const std::string& s) { return "[\"t\"," + Bytes(s) + "]"; }
};
template <> struct Val<float> {
  static float From(const std::string& s) { return BitsToFloat((uint32_t)std::strtoull(s.c_str(), nullptr, 10)); }
  static std::string Show(const float& v) { return "[\"f\"," + std::to_string(FloatToBits(v)) + "]"; }
};
template <> struct Val<double> {
  static double From(const std::string& s) {
    const uint64_t b = std::strtoull(s.c_str(), nullptr, 10);
    double d;
    std::memcpy(&d, &b, 8);
    return d;
  }
  static std::string Show(const double& v) {
    uint64_t b;
    std::memcpy(&b, &v, 8);
    return "[\"d\",\"" + std::to_string(b) + "\"]";
  }
};

static std::ostringstream* g_os;

// The text that v adds to the stream; left over flags or widths show in what follows.
template <class V> std::string Print(const V& v) {
  const auto from = g_os->str().size();
  *g_os << v;
  const std::string s = g_os->str().substr(from);
  *g_os << "\n";
  return s;
}
template <class V, class F> std::string Both(const V& v, V stale, bool back, F show) {
  const std::string s = Print(v);
  std::string r = "{\"text\":" + Bytes(s);
  if (back) {
    std::istringstream is(s + "\n");
    is >> stale;
    r += std::string(",\"back\":{\"ok\":") + (is ? "true" : "false") + ",\"a\":[" + show(stale) + "]}";
  }
  return r + "}";
}

template <class T> std::string Coordinates(const BoundingBox<T>& b) {
  return Val<T>::Show(b.x) + "," + Val<T>::Show(b.y) + "," + Val<T>::Show(b.w) + "," + Val<T>::Show(b.h);
}
template <class T> std::string Shown(const DocumentBoundingBox<T>& b) { return Val<std::string>::Show(b.document) + "," + Coordinates(b); }
template <class T> std::string Shown(const T& v) { return Val<T>::Show(v); }

template <class T> DocumentBoundingBox<T> Doc(const Line& l, size_t i) {
  return DocumentBoundingBox<T>(Unhex(l[i]), Val<T>::From(l[i + 1]), Val<T>::From(l[i + 2]), Val<T>::From(l[i + 3]), Val<T>::From(l[i + 4]));
}

template <class T> std::string Boxed(const Line& l, bool back) {
  typedef DocumentBoundingBox<T> B;
  typedef ShapedEvent<std::string, B> RE;
  typedef ScoredEvent<RE> HE;
  const B stale("stale", T(1), T(2), T(3), T(4));
  if (l[1] == "box") {
    const BoundingBox<T> b(Val<T>::From(l[3]), Val<T>::From(l[4]), Val<T>::From(l[5]), Val<T>::From(l[6]));
    return Both(b, static_cast<const BoundingBox<T>&>(stale), back, [](const BoundingBox<T>& v) { return Coordinates(v); });
  }
  if (l[1] == "dbox") return Both(Doc<T>(l, 3), stale, back, [](const B& v) { return Shown(v); });
  if (l[1] == "event") {
    return Both(Event<std::string, B>(Unhex(l[3]), Doc<T>(l, 4)), Event<std::string, B>("stale", stale), back,
                [](const Event<std::string, B>& v) { return Shown(v.Query()) + "," + Shown(v.Location()); });
  }
  if (l[1] == "shaped") {
    return Both(RE(Unhex(l[3]), Doc<T>(l, 4)), RE("stale", stale), back,
                [](const RE& v) { return Shown(v.Query()) + "," + Shown(v.Location()); });
  }
  if (l[1] == "scored") {
    return Both(HE(Unhex(l[3]), Doc<T>(l, 4), Val<float>::From(l[9])), HE("stale", stale, 7.0f), back,
                [](const HE& v) { return Shown(v.Query()) + "," + Shown(v.Location()) + "," + Shown(v.Score()); });
  }
  // match
  const MatchError e(Val<float>::From(l[5]), Val<float>::From(l[6]));
  Match<RE, HE> m(1.0f, 0.0f);
  size_t i = 7;
  if (l[3] == "1") { m.SetHyp(HE(Unhex(l[i]), Doc<T>(l, i + 1), Val<float>::From(l[i + 6]))); i += 7; }
  if (l[4] == "1") m.SetRef(RE(Unhex(l[i]), Doc<T>(l, i + 1)));
  m.SetError(e);
  return "{\"text\":" + Bytes(Print(m)) + ",\"n\":[\"" + std::to_string(e.NH()) + "\",\"" + std::to_string(e.NR()) + "\"]}";
}

template <class Q> std::string Labelled(const Line& l, bool back, const Q& stale) {
  typedef Event<Q, std::string> E;
  if (l[1] == "lab" || l[1] == "ilab") {
    return Both(E(Val<Q>::From(l[3]), Unhex(l[4])), E(stale, "stale"), back, [](const E& v) { return Shown(v.Query()) + "," + Shown(v.Location()); });
  }
  return Both(ScoredEvent<E>(Val<Q>::From(l[3]), Unhex(l[4]), Val<float>::From(l[5])), ScoredEvent<E>(stale, "stale", 7.0f), back,
              [](const ScoredEvent<E>& v) { return Shown(v.Query()) + "," + Shown(v.Location()) + "," + Shown(v.Score()); });
}

static std::string One(const Line& l) {
  const bool back = l[0] == "b";
  if (l[1] == "err") {
    const MatchError e(Val<float>::From(l[3]), Val<float>::From(l[4]));
    return "{\"text\":" + Bytes(Print(e)) + ",\"n\":[\"" + std::to_string(e.NH()) + "\",\"" + std::to_string(e.NR()) + "\"]}";
  }
  if (l[1] == "cnt") {
    const MatchErrorCounts e(Val<float>::From(l[3]), Val<float>::From(l[4]), Val<size_t>::From(l[5]), Val<size_t>::From(l[6]));
    return "{\"text\":" + Bytes(Print(e)) + ",\"n\":[\"" + std::to_string(e.NH()) + "\",\"" + std::to_string(e.NR()) + "\"]}";
  }
  if (l[1] == "lab" || l[1] == "slab") return Labelled<std::string>(l, back, "stale");
  if (l[1] == "ilab" || l[1] == "silab") return Labelled<long>(l, back, 3);
  if (l[2] == "i16") return Boxed<int16_t>(l, back);
  if (l[2] == "i32") return Boxed<int32_t>(l, back);
  if (l[2] == "u32") return Boxed<uint32_t>(l, back);
  if (l[2] == "i64") return Boxed<int64_t>(l, back);
  if (l[2] == "u64") return Boxed<uint64_t>(l, back);
  if (l[2] == "float") return Boxed<float>(l, back);
  return Boxed<double>(l, back);
}

int main() {
  Case c;
  while (NextCase(&c)) {
    std::ostringstream os;
    g_os = &os;
    Emit("{\"vals\":" + Arr(c, One) + "}");
  }
  return 0;
}
