// Runs histories on the event index: the specialised one (document boxes, with
// signed and unsigned coordinates) and the generic one (plain locations).
#include "common.h"
#include <cstdint>
#include <algorithm>
#include <new>
#include "core/EventSet.h"
#include "core/DocumentBoundingBox.h"
#include "core/DocumentBoundingBoxEventSet.h"
#include "core/ShapedEvent.h"
#include "core/Event.h"
using namespace kws::core;
using namespace vk;

template <class T> struct BoxKind {
  typedef ShapedEvent<std::string, DocumentBoundingBox<T>> E;
  static E Make(const Line& l, size_t i) {
    return E(Unhex(l[i]), DocumentBoundingBox<T>(Unhex(l[i + 1]), (T)I(l[i + 2]), (T)I(l[i + 3]), (T)I(l[i + 4]), (T)I(l[i + 5])));
  }
  static std::string Show(const E& e) {
    const auto& b = e.Location();
    return "{\"q\":" + Bytes(e.Query()) + ",\"d\":" + Bytes(b.document) + ",\"x\":" + std::to_string(b.x) +
           ",\"y\":" + std::to_string(b.y) + ",\"w\":" + std::to_string(b.w) + ",\"h\":" + std::to_string(b.h) + "}";
  }
};
// Coordinates in quarters, for the floating point types.
template <class T> struct QuarterKind {
  typedef ShapedEvent<std::string, DocumentBoundingBox<T>> E;
  static T Q(const std::string& s) { return (T)I(s) / 4; }
  static std::string P(T v) { const long long n = (long long)(v * 4); return (T)n / 4 == v ? std::to_string(n) : "-77"; }
  static E Make(const Line& l, size_t i) {
    return E(Unhex(l[i]), DocumentBoundingBox<T>(Unhex(l[i + 1]), Q(l[i + 2]), Q(l[i + 3]), Q(l[i + 4]), Q(l[i + 5])));
  }
  static std::string Show(const E& e) {
    const auto& b = e.Location();
    return "{\"q\":" + Bytes(e.Query()) + ",\"d\":" + Bytes(b.document) + ",\"x\":" + P(b.x) + ",\"y\":" + P(b.y) + ",\"w\":" + P(b.w) +
           ",\"h\":" + P(b.h) + "}";
  }
};
// Plain labels: d carries the location, coordinates unused.
struct StrKind {
  typedef Event<std::string, std::string> E;
  static E Make(const Line& l, size_t i) { return E(Unhex(l[i]), Unhex(l[i + 1])); }
  static std::string Show(const E& e) {
    return "{\"q\":" + Bytes(e.Query()) + ",\"d\":" + Bytes(e.Location()) + ",\"x\":0,\"y\":0,\"w\":0,\"h\":0}";
  }
};
struct IntKind {  // labels are one byte strings
  typedef Event<int32_t, int32_t> E;
  static int32_t N(const std::string& s) { return s.empty() ? 0 : (unsigned char)s[0]; }
  static std::string S(int32_t n) { return n == 0 ? "[]" : "[" + std::to_string(n) + "]"; }
  static E Make(const Line& l, size_t i) { return E(N(Unhex(l[i])), N(Unhex(l[i + 1]))); }
  static std::string Show(const E& e) {
    return "{\"q\":" + S(e.Query()) + ",\"d\":" + S(e.Location()) + ",\"x\":0,\"y\":0,\"w\":0,\"h\":0}";
  }
};

// Very many numbered events: I <a> <b> <step> | D <a> <b> <step> | q <number> <width> | c
struct ManyBox {
  typedef ShapedEvent<std::string, DocumentBoundingBox<uint32_t>> E;
  static E Make(long long k, long long w = 1) { return E(std::string(1, (char)('a' + k % 3)), DocumentBoundingBox<uint32_t>(k % 2 ? "odd" : "even", (uint32_t)k, 5, (uint32_t)w, 1)); }
  static std::string Show(const E& e) {
    const E w = Make(e.Location().x);
    return e == w ? std::to_string(e.Location().x) : std::string("-7");
  }
};
struct ManyPlain {
  typedef Event<int32_t, int32_t> E;
  static E Make(long long k, long long = 1) { return E((int32_t)(k % 3), (int32_t)k); }
  static std::string Show(const E& e) { return e == Make(e.Location()) ? std::to_string(e.Location()) : std::string("-7"); }
};
template <class K> std::string Many(const Case& c) {
  EventSet<typename K::E> s;
  std::string out = "{\"obs\":[";
  for (size_t i = 1; i < c.size(); ++i) {
    const Line& l = c[i];
    std::string res = "[]";
    if (l[0] == "I") { for (long long k = I(l[1]); k <= I(l[2]); k += I(l[3])) s.Insert(K::Make(k)); }
    else if (l[0] == "D") { for (long long k = I(l[1]); k <= I(l[2]); k += I(l[3])) s.Remove(K::Make(k)); }
    else if (l[0] == "c") s.Clear();
    else { const auto r = s.FindOverlapping(K::Make(I(l[1]), I(l[2]))); res = Arr(r, K::Show); }
    out += std::string(i > 1 ? "," : "") + "{\"size\":" + std::to_string(std::min<unsigned long long>(s.Size(), 2000000000ull)) + ",\"res\":" + res + "}";
  }
  return out + "]}";
}

// Commands: k, l, x (copy to, copy from, exchange with a second set) | i <ev> | r <ev> | c | q <ev> | n (fresh empty set) | R <k> (rebuild from
// the range of the next k event lines "e <ev>")
template <class K> std::string Run(const Case& c) {
  typedef typename K::E E;
  struct Del { void operator()(EventSet<E>* p) const { p->~EventSet<E>(); std::free(p); } };
  std::unique_ptr<EventSet<E>, Del> s(new (std::malloc(sizeof(EventSet<E>))) EventSet<E>());
#ifdef COPY
  std::unique_ptr<EventSet<E>> t;
#endif
  std::string out = "{\"obs\":[";
  bool first = true;
  for (size_t i = 1; i < c.size(); ++i) {
    const Line& l = c[i];
    std::string res = "[]";
    if (l[0] == "i") s->Insert(K::Make(l, 1));
    else if (l[0] == "r") s->Remove(K::Make(l, 1));
    else if (l[0] == "c") s->Clear();
    else if (l[0] == "n") s.reset(new (std::malloc(sizeof(EventSet<E>))) EventSet<E>());
#ifdef COPY
    else if (l[0] == "k") t.reset(new EventSet<E>(*s));
    else if (l[0] == "l") { if (!t) t.reset(new EventSet<E>()); *s = *t; }
    else if (l[0] == "x") { if (!t) t.reset(new EventSet<E>()); std::swap(*s, *t); }
#endif
    else if (l[0] == "q") { const auto r = s->FindOverlapping(K::Make(l, 1)); res = Arr(r, K::Show); }
    else if (l[0] == "R") {
      std::vector<E> v;
      const size_t k = I(l[1]);
      for (size_t j = 0; j < k; ++j) v.push_back(K::Make(c[++i], 1));
      // Build it in dirty memory, so that an uninitialised member shows.
      void* p = std::malloc(sizeof(EventSet<E>));
      std::memset(p, 0x5a, sizeof(EventSet<E>));
      asm volatile("" : : "r"(p) : "memory");
      s.reset(new (p) EventSet<E>(v.begin(), v.end()));
    }
    out += std::string(first ? "" : ",") + "{\"size\":" +
           std::to_string(std::min<unsigned long long>(s->Size(), 2000000000ull)) + ",\"res\":" + res + "}";
    first = false;
  }
  return out + "]}";
}

int main() {
  Case c;
  while (NextCase(&c)) {
    const std::string k = c[0][1];
    if (k == "many") Emit(c[0][2] == "1" ? Many<ManyPlain>(c) : Many<ManyBox>(c));
    else if (k == "int") Emit(Run<BoxKind<int>>(c));
    else if (k == "uint") Emit(Run<BoxKind<uint32_t>>(c));
    else if (k == "long") Emit(Run<BoxKind<int64_t>>(c));
    else if (k == "double") Emit(Run<QuarterKind<double>>(c));
    else if (k == "float") Emit(Run<QuarterKind<float>>(c));
    else if (k == "str") Emit(Run<StrKind>(c));
    else Emit(Run<IntKind>(c));
  }
}
