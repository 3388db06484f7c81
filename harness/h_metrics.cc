// Metric functions of core/Assessment.h on lists of matches and of error counts.
//   m <query> <score bits> <hyp 0/1> <ref 0/1> <fp64> <fn64>     a match
//   e <fp64> <fn64> <nh> <nr>                                    error counts
//   n <points>             curves sampled at so many points
//   g <query> <group>      group of a query
//   rep <k>                the same list with every match k times
// Values are reported in units of 1e-7.
#include "common.h"
#include <cmath>
#include "core/Assessment.h"
#include "core/Event.h"
#include "core/Match.h"
#include "core/MatchErrorCounts.h"
#include "core/ScoredEvent.h"
#ifdef MORE
#include <stdexcept>
#include <unordered_map>
#include "core/Statistic.h"
#endif
using namespace kws::core;
using namespace vk;
typedef Event<int, int> RE;
typedef ScoredEvent<RE> HE;
typedef Match<RE, HE> M;

static std::string Fix(double v) {
  if (!(v >= -100 && v <= 100)) return "-1000000000";
  return std::to_string(std::llround(v * 1e7));
}
static std::string Mass(double v) {  // error mass in units of 1/64
  const double x = v * 64;
  return (x >= 0 && x < 1e8 && x == std::floor(x)) ? std::to_string((long long)x) : "-1";
}
static std::string ShowP(const MatchError& e) {
  return "{\"fp\":" + Mass(e.FP()) + ",\"fn\":" + Mass(e.FN()) + ",\"nh\":" + std::to_string(e.NH()) + ",\"nr\":" + std::to_string(e.NR()) + "}";
}

static int g_points = -1;
// The curve of the points sampled at given recalls, with stale content in the outputs.
static std::string Sampled(const std::vector<double>& pr, const std::vector<double>& rc, int interp) {
  std::string out;
#ifdef MORE
  if (g_points < 0) return out;
  std::vector<double> x{0.5, 7.0}, y{7.0};
  GetEvenlyDistributedPoints01Interval((size_t)g_points, &x);
  if (interp == 0) out += ",\"cx\":" + Arr(x, Fix);
  for (int t = 0; t < 2; ++t) {
    SampleCurveAtGivenPoints(rc, pr, x, &y, t != 0);
    out += std::string(",\"cy") + (interp ? "1" : "0") + (t ? "1" : "0") + "\":" + Arr(y, Fix);
  }
#endif
  return out;
}

template <class C> std::string Values(const C& errs) {
  std::string out;
  for (int interp = 0; interp < 2; ++interp) {
    std::vector<double> pr{7.0}, rc{7.0, 7.0};   // stale content must not matter
    ComputePrecisionAndRecall(errs, interp != 0, &pr, &rc);
    out += std::string(",\"pr") + (interp ? "1" : "0") + "\":" + Arr(pr, Fix) + ",\"rc" + (interp ? "1" : "0") + "\":" + Arr(rc, Fix);
    for (int t = 0; t < 2; ++t)
      out += std::string(",\"ap") + (interp ? "1" : "0") + (t ? "1" : "0") + "\":" + Fix(ComputeAP(pr, rc, t != 0));
    out += Sampled(pr, rc, interp);
#ifdef MORE
    for (int t = 0; t < 2; ++t)
      out += std::string(",\"ape") + (interp ? "1" : "0") + (t ? "1" : "0") + "\":" + Fix(ComputeAP(errs, pr, t != 0));
#endif
  }
  out += ",\"ndcg\":" + Fix(ComputeNDCG<double>(errs));
  return out;
}

#ifdef FULL
// The same through the functions on lists of matches.
static std::string OfMatches(const std::vector<M>& ms, bool collapse) {
  std::string out;
  for (int interp = 0; interp < 2; ++interp) {
    std::vector<double> pr{7.0}, rc{7.0, 7.0};
    ComputePrecisionAndRecall(ms, collapse, interp != 0, &pr, &rc);
    out += std::string(",\"pr") + (interp ? "1" : "0") + "\":" + Arr(pr, Fix) + ",\"rc" + (interp ? "1" : "0") + "\":" + Arr(rc, Fix);
    for (int t = 0; t < 2; ++t)
      out += std::string(",\"ap") + (interp ? "1" : "0") + (t ? "1" : "0") + "\":" + Fix(ComputeGlobalAP(ms, collapse, interp != 0, t != 0));
    out += Sampled(pr, rc, interp);
  }
  out += ",\"ndcg\":" + Fix(ComputeGlobalNDCG(ms, collapse));
  return out;
}
#endif

#ifdef MORE
// Statistics of the matches in groups.
static std::string Grouped(const std::vector<M>& ms, const std::unordered_map<int, int>& gm) {
  std::vector<std::vector<M>> gs(3, ms);
  GroupMatchesByQueryGroup(ms, gm, &gs);
  // Without sorting, the matches count in the order they have in the groups.
  std::vector<M> flat;
  for (const auto& g : gs) flat.insert(flat.end(), g.begin(), g.end());
  std::vector<double> map, mn, gap, gn, uns, all;
  for (int c = 0; c < 2; ++c) {
    for (int i = 0; i < 2; ++i)
      for (int t = 0; t < 2; ++t) {
        for (int s = 0; s < 2; ++s) map.push_back(MeanAP<M>(c != 0, i != 0, t != 0)(gs, s != 0));
        gap.push_back(GlobalAP<M>(c != 0, i != 0, t != 0)(gs, true));
        uns.push_back(GlobalAP<M>(c != 0, i != 0, t != 0)(gs, false));
        all.push_back(GlobalAP<M>(c != 0, i != 0, t != 0)(flat));
      }
    for (int s = 0; s < 2; ++s) mn.push_back(MeanNDCG<M>(c != 0)(gs, s != 0));
    gn.push_back(GlobalNDCG<M>(c != 0)(gs, true));
    uns.push_back(GlobalNDCG<M>(c != 0)(gs, false));
    all.push_back(GlobalNDCG<M>(c != 0)(flat));
  }
  return ",\"gs\":{\"ng\":" + std::to_string(gs.size()) + ",\"map\":" + Arr(map, Fix) + ",\"gap\":" + Arr(gap, Fix) +
         ",\"mn\":" + Arr(mn, Fix) + ",\"gn\":" + Arr(gn, Fix) +
         ",\"uns\":" + Arr(uns, Fix) + ",\"all\":" + Arr(all, Fix) + "}";
}

// The list with every match k times, at the ends of the blocks.
static std::string Repeated(const std::vector<M>& ms, size_t k) {
  std::vector<M> big;
  for (const auto& m : ms)
    for (size_t j = 0; j < k; ++j) big.push_back(m);
  const auto raw = GetMatchErrors(big);
  const auto col = CollapseMatches(big);
  std::string out = ",\"rep\":{\"k\":" + std::to_string(k) + ",\"len\":" + std::to_string(raw.size()) +
                    ",\"tr\":" + std::to_string(NumTotalReferences(raw)) + ",\"col\":" + Arr(col, ShowP);
  for (int interp = 0; interp < 2; ++interp) {
    std::vector<double> pr, rc, epr, erc;
    ComputePrecisionAndRecall(raw, interp != 0, &pr, &rc);
    for (size_t i = k - 1; i < pr.size() && i < rc.size(); i += k) { epr.push_back(pr[i]); erc.push_back(rc[i]); }
    out += std::string(",\"pr") + (interp ? "1" : "0") + "\":" + Arr(epr, Fix) + ",\"rc" + (interp ? "1" : "0") + "\":" + Arr(erc, Fix);
    for (int t = 0; t < 2; ++t)
      out += std::string(",\"cap") + (interp ? "1" : "0") + (t ? "1" : "0") + "\":" + Fix(ComputeGlobalAP(big, true, interp != 0, t != 0));
    if (interp == 0) out += ",\"ape\":" + Fix(ComputeAP(raw, pr, false));
    if (interp == 0) out += ",\"ap\":" + Fix(ComputeGlobalAP(big, false, false, false));
  }
  return out + ",\"ndcg\":" + Fix(ComputeGlobalNDCG(big, false)) + ",\"cndcg\":" + Fix(ComputeGlobalNDCG(big, true)) + "}";
}
#endif

int main() {
  Case c;
  while (NextCase(&c)) {
    std::vector<M> ms;
    std::vector<MatchErrorCounts> es;
    bool counts = false;
    g_points = -1;
    size_t rep = 0;
#ifdef MORE
    std::unordered_map<int, int> gm;
#endif
    for (const auto& l : c) {
      if (l[0] == "m") {
        M m;
        const int q = (int)I(l[1]);
        if (l[3] == "1") m.SetHyp(HE(q, (int)ms.size(), BitsToFloat((uint32_t)std::strtoul(l[2].c_str(), nullptr, 10))));
        if (l[4] == "1") m.SetRef(RE(q, (int)ms.size()));
        m.SetError(MatchError(I(l[5]) / 64.0f, I(l[6]) / 64.0f));
        ms.push_back(m);
#ifdef MORE
      } else if (l[0] == "n") {
        g_points = (int)I(l[1]);
      } else if (l[0] == "g") {
        gm.emplace((int)I(l[1]), (int)I(l[2]));
      } else if (l[0] == "rep") {
        rep = (size_t)I(l[1]);
#endif
      } else if (l[0] == "e") {
        counts = true;
        es.push_back(MatchErrorCounts(I(l[1]) / 64.0f, I(l[2]) / 64.0f, (size_t)I(l[3]), (size_t)I(l[4])));
      }
    }
    std::string out = "{\"n\":" + std::to_string(c.size());
    if (counts) {
      out += ",\"raw\":{\"k\":0" + Values(es) + "}";
    } else {
      std::vector<MatchError> raw;
      for (const auto& m : ms) raw.push_back(m.GetError());
      const auto col = CollapseMatches(ms);
      out += ",\"pts\":" + Arr(raw, ShowP) + ",\"col\":" + Arr(col, ShowP);
      out += ",\"raw\":{\"k\":0" + Values(raw) + "},\"cv\":{\"k\":1" + Values(col) + "}";
#ifdef FULL
      out += ",\"raw2\":{\"k\":0" + OfMatches(ms, false) + "},\"cv2\":{\"k\":1" + OfMatches(ms, true) + "}";
#endif
#ifdef MORE
      out += Grouped(ms, gm);
      if (rep) out += Repeated(ms, rep);
#endif
    }
    Emit(out + "}");
  }
}
