// Bootstrap sampling and intervals (core/Bootstrapping.h).
//   sampler <seed> <number of samples> <group sizes> ...
//   flat <seed> <number of samples> <number of matches>       the sampler without groups
//   big | bigflat <seed> <number of samples> <sizes>     the same for many or large groups, in numbers:
//       distinct members and groups drawn, members of no group, samples of a wrong shape
//   interval <a> <b> <R> <obs> <value> ...   values of the statistic, one per sample drawn (cyclic)
#include "common.h"
#ifdef FULL
#include <cmath>
#include "core/Bootstrapping.h"
#include "core/Event.h"
#include "core/Match.h"
#include "core/ScoredEvent.h"
using namespace kws::core;
using namespace vk;
typedef Event<int, int> RE;
typedef ScoredEvent<RE> HE;
typedef Match<RE, HE> M;

struct Drawer {   // a sampler that puts the number of the sample into it
  int n = 0;
  void operator()(const std::vector<int>&, std::vector<int>* s) { s->assign(1, n++); }
};
static std::string Int(double x) { return x == std::floor(x) && std::fabs(x) < 1e6 ? std::to_string((int)x) : "-999999"; }

int main() {
  Case c;
  while (NextCase(&c)) {
    const Line& l = c[0];
    if (l[0] == "sampler") {
      std::vector<std::vector<M>> orig;
      int id = 0;
      for (size_t i = 3; i < l.size(); ++i) {
        orig.emplace_back();
        for (int k = 0; k < I(l[i]); ++k) { ++id; orig.back().push_back(M::MakeFalseNegative(RE(1, id))); }
      }
      MatchesByQuerySampler<RE, HE> s((size_t)std::strtoull(l[1].c_str(), nullptr, 10));
      std::string out = "{\"samples\":[";
      std::vector<std::vector<M>> got(2);
      for (int k = 0; k < I(l[2]); ++k) {
        s(orig, &got);
        out += (k ? "," : "") + Arr(got, [](const std::vector<M>& g) { return Arr(g, [](const M& m) { return std::to_string(m.HasRef() ? m.GetRef().Location() : -1); }); });
      }
      Emit(out + "]}");
    } else if (l[0] == "big" || l[0] == "bigflat") {
      const bool flat = l[0] == "bigflat";
      std::vector<std::vector<M>> orig, got(2);
      std::vector<int> group(1, -1), sizes;     // of the members, from 1
      for (size_t i = 3; i < l.size(); ++i) {
        orig.emplace_back();
        for (int k = 0; k < I(l[i]); ++k) {
          orig.back().push_back(M::MakeFalseNegative(RE(1, (int)group.size())));
          group.push_back((int)sizes.size());
        }
        sizes.push_back((int)I(l[i]));
      }
      const size_t seed = (size_t)std::strtoull(l[1].c_str(), nullptr, 10);
      MatchesByQuerySampler<RE, HE> s(seed);
      MatchesSampler<RE, HE> fs(seed);
      std::vector<char> seen(group.size(), 0), gseen(sizes.size(), 0);
      long outside = 0, wrong = 0, distinct = 0, gdistinct = 0;
      for (int k = 0; k < I(l[2]); ++k) {
        if (flat) { got.resize(1); fs(orig[0], &got[0]); } else s(orig, &got);
        bool shape = got.size() == orig.size();
        for (const auto& g : got) {
          int of = -1;
          for (const auto& m : g) {
            const int id = m.HasRef() ? m.GetRef().Location() : -1;
            if (id < 1 || id >= (int)group.size()) { ++outside; continue; }
            if (of >= 0 && group[id] != of) shape = false;
            of = group[id];
            if (!seen[id]) { seen[id] = 1; ++distinct; }
          }
          if (of >= 0) {
            if (!gseen[of]) { gseen[of] = 1; ++gdistinct; }
            if ((int)g.size() != sizes[of]) shape = false;
          }
        }
        if (!shape) ++wrong;
      }
      Emit("{\"distinct\":" + std::to_string(distinct) + ",\"gdistinct\":" + std::to_string(gdistinct) + ",\"outside\":" + std::to_string(outside) +
           ",\"wrong\":" + std::to_string(wrong) + "}");
    } else if (l[0] == "flat") {
      std::vector<M> orig, got(2);
      for (int k = 1; k <= I(l[3]); ++k) orig.push_back(M::MakeFalseNegative(RE(1, k)));
      MatchesSampler<RE, HE> s((size_t)std::strtoull(l[1].c_str(), nullptr, 10));
      std::string out = "{\"samples\":[";
      for (int k = 0; k < I(l[2]); ++k) {
        s(orig, &got);
        out += (k ? ",[" : "[") + Arr(got, [](const M& m) { return std::to_string(m.HasRef() ? m.GetRef().Location() : -1); }) + "]";
      }
      Emit(out + "]}");
    } else {
      const int a = (int)I(l[1]), b = (int)I(l[2]), R = (int)I(l[3]), obs = (int)I(l[4]);
      std::vector<double> vals;
      for (size_t i = 5; i < l.size(); ++i) vals.push_back((double)I(l[i]));
      Drawer d;
      double lo = -77, hi = -77;
      const double v = ComputePercentileBootstrapCI(
          std::vector<int>(3), (size_t)R, (double)a / b, (double)obs,
          [&](const std::vector<int>& s) -> double { return vals[s[0] % vals.size()]; }, &d, &lo, &hi);
      Emit("{\"v\":" + Int(v) + ",\"lo\":" + Int(lo) + ",\"hi\":" + Int(hi) + "}");
    }
  }
}
#else
int main() {
  vk::Case c;
  while (vk::NextCase(&c)) vk::Emit("{\"skip\":1}");
}
#endif
