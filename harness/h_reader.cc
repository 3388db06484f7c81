// Reads event files with the real readers, several with the same reader and vector.
//   kind <kind> <scratch dir>
//   call stream|broken|file|nofile|dir <hex text> [<hex label> ...]
//   fresh                     (new reader and vector from here on)
// Labels of mapped readers are resolved with the labels given after the text.
#include "common.h"
#include <fstream>
#include <map>
#include <unistd.h>
#include "core/DocumentBoundingBox.h"
#include "core/Event.h"
#include "core/ScoredEvent.h"
#include "core/ShapedEvent.h"
#include "mapper/ScoredEventMapper.h"
#include "mapper/StringEventToIntMapper.h"
#include "mapper/StringToIntMapper.h"
#include "reader/PlainTextMapEventReader.h"
#include "reader/PlainTextReader.h"
using namespace kws::core;
using namespace kws::reader;
using namespace kws::mapper;
using namespace vk;

static std::string S(const std::string& s) { return Bytes(s); }
static std::string F(float f) {
  const uint32_t b = FloatToBits(f);
  const int ex = (b >> 23) & 255;
  if (ex == 255) return "{\"strange\":" + std::to_string(b) + "}";
  const uint32_t m = (b & 0x7fffff) | (ex ? 0x800000 : 0);
  return std::string("{\"neg\":") + ((b >> 31) && m ? "true" : "false") + ",\"m\":" + Bytes(std::to_string(m)) +
         ",\"e\":" + std::to_string(ex ? ex - 150 : -149) + "}";
}
template <class B> static std::string Box(const B& b) {
  return S(b.document) + "," + S(std::to_string(b.x)) + "," + S(std::to_string(b.y)) + "," + S(std::to_string(b.w)) + "," + S(std::to_string(b.h));
}
static std::map<int, std::string> g_inv;
static std::string Lab(int k) { return g_inv.count(k) ? S(g_inv[k]) : "[-1]"; }

template <class T> static std::string V(const ShapedEvent<std::string, DocumentBoundingBox<T>>& e) { return S(e.Query()) + "," + Box(e.Location()); }
static std::string V(const Event<std::string, std::string>& e) { return S(e.Query()) + "," + S(e.Location()); }
static std::string V(const Event<int, int>& e) { return Lab(e.Query()) + "," + Lab(e.Location()); }
static std::string V(int e) { return S(std::to_string(e)); }
template <class E> static std::string V(const ScoredEvent<E>& e) { return V(static_cast<const E&>(e)) + "," + F(e.Score()); }

typedef StringToIntMapper<int> LM;
template <class E> struct Plain {
  typedef PlainTextReader<E> R;
  typedef E Ev;
  R r;
  void Labels(const Line&) {}
};
template <bool Scored> struct MR;
template <> struct MR<false> {
  typedef Event<int, int> Ev;
  LM lm;
  StringEventToIntMapper<int> em{&lm};
  PlainTextMapEventReader<StringEventToIntMapper<int>> r{&em};
  void Labels(const Line& l) { g_inv.clear(); for (size_t i = 3; i < l.size(); ++i) g_inv[lm(Unhex(l[i]))] = Unhex(l[i]); }
};
template <> struct MR<true> {
  typedef ScoredEvent<Event<int, int>> Ev;
  typedef ScoredEventMapper<StringEventToIntMapper<int>> SM;
  LM lm;
  StringEventToIntMapper<int> em{&lm};
  SM sm{&em};
  PlainTextMapEventReader<SM> r{&sm};
  void Labels(const Line& l) { g_inv.clear(); for (size_t i = 3; i < l.size(); ++i) g_inv[lm(Unhex(l[i]))] = Unhex(l[i]); }
};

// A stream that fails after its text, instead of ending.
struct BrokenBuf : public std::streambuf {
  std::string s;
  explicit BrokenBuf(const std::string& t) : s(t) { setg(&s[0], &s[0], &s[0] + s.size()); }
  int_type underflow() override { throw std::ios_base::failure("broken"); }
};

static int LineOf(const std::string& err) {
  // the number after the first "line"
  for (size_t p = err.find("line"); p != std::string::npos; p = err.find("line", p + 1)) {
    const size_t d = err.find_first_not_of(" #:=", p + 4);
    if (d != std::string::npos && std::isdigit((unsigned char)err[d])) return std::atoi(err.c_str() + d);
  }
  return -1;
}

template <class K, bool Trips> struct Trip {
  static std::string Go(const typename K::Ev& e) {
    std::ostringstream os;
    os << e;
    std::istringstream is(os.str());
    K k;
    std::vector<typename K::Ev> v;
    const bool ok = k.r.Read(&is, &v);
    return ok && v.size() == 1 ? "[" + V(v[0]) + "]" : "[]";
  }
};
template <class K> struct Trip<K, false> { static std::string Go(const typename K::Ev&) { return "[]"; } };

template <class K, bool Trips> std::string Run(const Case& c) {
  typedef typename K::Ev Ev;
  std::unique_ptr<K> k(new K);
  std::vector<Ev> v;
  std::string out = "{\"calls\":[";
  bool first = true;
  const std::string base = c[0][2] + "/" + std::to_string(getpid());
  for (size_t i = 1; i < c.size(); ++i) {
    const Line& l = c[i];
    if (l[0] == "fresh") { k.reset(new K); v = std::vector<Ev>(); continue; }
    const std::string text = Unhex(l[2]);
    std::ostringstream err;
    std::streambuf* old = std::cerr.rdbuf(err.rdbuf());
    bool ok = false;
    if (l[1] == "stream") {
      std::istringstream is(text);
      ok = k->r.Read(&is, &v);
    } else if (l[1] == "broken") {
      BrokenBuf b(text);
      std::istream is(&b);
      ok = k->r.Read(&is, &v);
    } else if (l[1] == "file") {
      { std::ofstream f(base, std::ios::binary); f << text; }
      ok = k->r.Read(base, &v);
      unlink(base.c_str());
    } else if (l[1] == "nofile") {
      ok = k->r.Read(base + ".none", &v);
    } else {
      ok = k->r.Read(c[0][2], &v);
    }
    std::cerr.rdbuf(old);
    k->Labels(l);
    std::string vs = "[", tr = "[";
    if (ok) {
      vs += "";
      for (size_t j = 0; j < v.size(); ++j) {
        vs += (j ? ",[" : "[") + V(v[j]) + "]";
        if (Trips) tr += (j ? "," : "") + Trip<K, Trips>::Go(v[j]);
      }
    }
    out += std::string(first ? "" : ",") + "{\"ok\":" + (ok ? "true" : "false") + ",\"line\":" + std::to_string(LineOf(err.str())) +
           ",\"vs\":" + vs + "],\"tr\":" + tr + "]}";
    first = false;
  }
  return out + "]}";
}

int main() {
  typedef ShapedEvent<std::string, DocumentBoundingBox<uint32_t>> UB;
  typedef ShapedEvent<std::string, DocumentBoundingBox<int>> IB;
  typedef Event<std::string, std::string> L;
  Case c;
  while (NextCase(&c)) {
    const std::string& k = c[0][1];
    if (k == "ubox") Emit(Run<Plain<UB>, true>(c));
    else if (k == "usbox") Emit(Run<Plain<ScoredEvent<UB>>, true>(c));
    else if (k == "ibox") Emit(Run<Plain<IB>, true>(c));
    else if (k == "isbox") Emit(Run<Plain<ScoredEvent<IB>>, true>(c));
    else if (k == "lab") Emit(Run<Plain<L>, true>(c));
    else if (k == "slab") Emit(Run<Plain<ScoredEvent<L>>, true>(c));
    else if (k == "mlab") Emit(Run<MR<false>, false>(c));
    else if (k == "mslab") Emit(Run<MR<true>, false>(c));
    else Emit(Run<Plain<int>, true>(c));
  }
}
