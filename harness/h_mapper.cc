// Label mapping histories.
//   map <i8|u8|i16|i32|u32|i64|u64> <own|ext|take|lend, or with 'tree' after it> <prefill>
//   mappers are numbered from 1 (label, event and scored mappers on their own); 1 is the first:
//   'new' another one with a mapping of its own, 'copy h', 'set h g' an assignment, 'drop h',
//   'ev h' an event mapper on h, 'cev k' a copy of it, 'gev k' one on its label mapper, 'eset',
//   'evn' an event mapper with a label mapper of its own (which gets a number),
//   'sc k' a scored mapper on event mapper k, 'csc s' a copy of it, 'sset'
//   l <h> <hex>   e <k> <hex> <hex>   x <k> <hex> <hex> <score bits>
#include "common.h"
#include <map>
#include <stdexcept>
#include <unordered_map>
#include "core/Event.h"
#include "core/ScoredEvent.h"
#include "mapper/ScoredEventMapper.h"
#include "mapper/StringEventToIntMapper.h"
#include "mapper/StringToIntMapper.h"
using namespace kws::core;
using namespace kws::mapper;
using namespace vk;

static std::string Ans(bool ok, const std::string& nums, const std::string& score = "[0,0]") {
  return std::string("{\"ok\":") + (ok ? "true" : "false") + ",\"nums\":[" + nums + "],\"score\":" + score + "}";
}
template <class F> std::string Guard(F f) {
  try { return f(); }
  catch (const std::range_error&) { return Ans(false, ""); }
  catch (...) { return Ans(true, "-7"); }
}
template <class T> std::string N(T v) { return std::to_string((long long)v); }

// An assignment; with NOASSIGN, of something that can only be copied.
template <class X> void Assign(X& to, const X& from) {
#ifdef NOASSIGN
  if (&to == &from) return;
  X copy(from);
  to.~X();
  new (&to) X(copy);
#else
  to = from;
#endif
}
// What is done with label mappers; the mapping may be kept in a container of the caller.
template <class T, class Impl> struct Labels {
  typedef StringToIntMapper<T, Impl> LM;
  Impl ext;
  std::vector<std::shared_ptr<LM>> ls;
  explicit Labels(const std::string& kind) {
    if (kind.substr(0, 3) == "ext") ls.emplace_back(new LM(&ext));
    else if (kind.substr(0, 4) == "take") ls.emplace_back(new LM(new Impl, true));
    else if (kind.substr(0, 4) == "lend") ls.emplace_back(new LM(&ext, false));
    else ls.emplace_back(new LM());
  }
  LM& At(const std::string& k) { return *ls[I(k) - 1]; }
  bool Make(const Line& l) {
    if (l[0] == "new") ls.emplace_back(new LM());
    else if (l[0] == "copy") ls.emplace_back(new LM(At(l[1])));
    else if (l[0] == "set") Assign(At(l[1]), At(l[2]));
    else if (l[0] == "drop") ls[I(l[1]) - 1].reset();
    else return false;
    return true;
  }
  std::string Fill(int n) {
    for (int i = 0; i < n; ++i) if ((long long)(*ls[0])("#" + std::to_string(i)) != i) return "{\"badprefill\":[";
    return "{\"obs\":[";
  }
};
template <class T> std::string Run(const Case& c) {
  typedef StringEventToIntMapper<T> EM;
  typedef ScoredEventMapper<EM> SM;
  typedef Event<std::string, std::string> E;
  Labels<T, std::unordered_map<std::string, T>> L(c[0][2]);
  std::vector<std::unique_ptr<EM>> es;
  std::vector<std::unique_ptr<SM>> ss;
  std::string out = L.Fill(I(c[0][3]));
  bool first = true;
  for (size_t i = 1; i < c.size(); ++i) {
    const Line& l = c[i];
    std::string a;
    const auto k = [&](size_t j) { return I(l[j]) - 1; };
    if (L.Make(l)) continue;
    else if (l[0] == "ev") es.emplace_back(new EM(&L.At(l[1])));
    else if (l[0] == "evn") {
      es.emplace_back(es.size() % 2 ? new EM() : new EM(new StringToIntMapper<T>(), true));
      L.ls.emplace_back(es.back()->GetMapper(), [](StringToIntMapper<T>*) {});
    }
    else if (l[0] == "cev") es.emplace_back(new EM(*es[k(1)]));
    else if (l[0] == "gev") es.emplace_back(new EM(es[k(1)]->GetMapper()));
    else if (l[0] == "eset") Assign(*es[k(1)], *es[k(2)]);
    else if (l[0] == "sc") ss.emplace_back(new SM(es[k(1)].get()));
    else if (l[0] == "csc") ss.emplace_back(new SM(*ss[k(1)]));
    else if (l[0] == "sset") Assign(*ss[k(1)], *ss[k(2)]);
    else if (l[0] == "l") a = Guard([&] { return Ans(true, N(L.At(l[1])(Unhex(l[2])))); });
    else if (l[0] == "e") a = Guard([&] { const auto r = (*es[k(1)])(E(Unhex(l[2]), Unhex(l[3]))); return Ans(true, N(r.Query()) + "," + N(r.Location())); });
    else if (l[0] == "x") a = Guard([&] {
      const float s = BitsToFloat((uint32_t)std::strtoul(l[4].c_str(), nullptr, 10));
      const auto r = (*ss[k(1)])(ScoredEvent<E>(Unhex(l[2]), Unhex(l[3]), s));
      return Ans(true, N(r.Query()) + "," + N(r.Location()), "[" + N(Ord(s)) + "," + N(Ord(r.Score())) + "]");
    });
    if (!a.empty()) { out += (first ? "" : ",") + a; first = false; }
  }
  return out + "]}";
}
// mappings kept in ordered trees
template <class T> std::string Tree(const Case& c) {
  Labels<T, std::map<std::string, T>> L(c[0][2]);
  std::string out = L.Fill(I(c[0][3]));
  bool first = true;
  for (size_t i = 1; i < c.size(); ++i) {
    if (L.Make(c[i]) || c[i][0] != "l") continue;
    out += (first ? "" : ",") + Guard([&] { return Ans(true, N(L.At(c[i][1])(Unhex(c[i][2])))); });
    first = false;
  }
  return out + "]}";
}
template <class T> std::string Any(const Case& c) { return c[0][2].find("tree") != std::string::npos ? Tree<T>(c) : Run<T>(c); }

int main() {
  Case c;
  while (NextCase(&c)) {
    const std::string& k = c[0][1];
    if (k == "i8") Emit(Any<int8_t>(c));
    else if (k == "u8") Emit(Any<uint8_t>(c));
    else if (k == "i16") Emit(Any<int16_t>(c));
    else if (k == "u16") Emit(Any<uint16_t>(c));
    else if (k == "i32") Emit(Any<int32_t>(c));
    else if (k == "u32") Emit(Any<uint32_t>(c));
    else if (k == "i64") Emit(Any<int64_t>(c));
    else Emit(Any<uint64_t>(c));
  }
}
