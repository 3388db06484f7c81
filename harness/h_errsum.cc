// Error values and their sums.
//   err <plain errors> <errors with counts>
//   op <o> <i> <j> <k> <fp64> <fn64> <nh> <nr>     (1-based)
#include "common.h"
#include "core/MatchError.h"
#include "core/MatchErrorCounts.h"
using namespace kws::core;
using namespace vk;

static std::string Mass(float f) {
  const double x = (double)f * 64;
  return x >= -16777216 && x <= 16777216 && (long long)x == x ? std::to_string((long long)x) : std::string("-777");
}
static std::string Count(unsigned long long n) {
  if (n >> 50) return "-7,-7";
  return std::to_string(n >> 20) + "," + std::to_string(n & 0xfffff);
}
static std::string Show(const MatchError& e) {
  return "[" + Mass(e.FP()) + "," + Mass(e.FN()) + "," + Count(e.NH()) + "," + Count(e.NR()) + "]";
}
template <class V> std::string Table(const V& v) {
  std::string out = "[";
  for (const auto& a : v)
    for (const auto& b : v) {
      if (out.size() > 1) out += ",";
      out += std::to_string((a == b ? 1 : 0) + (a != b ? 2 : 0));
    }
  return out + "]";
}

int main() {
  Case c;
  while (NextCase(&c)) {
    std::vector<MatchError> p((size_t)I(c[0][1]));
    std::vector<MatchErrorCounts> n((size_t)I(c[0][2]));
    std::string out = "{\"ops\":[";
    for (size_t q = 1; q < c.size(); ++q) {
      const Line& l = c[q];
      const std::string& o = l[1];
      const size_t i = (size_t)I(l[2]) - 1, j = (size_t)I(l[3]) - 1, k = (size_t)I(l[4]) - 1;
      const float fp = I(l[5]) / 64.0f, fn = I(l[6]) / 64.0f;
      auto cell = [&](size_t x) -> const MatchError& {
        if (x < p.size()) return p[x];
        return n[x - p.size()];
      };
      if (o == "plain") p[i] = MatchError(fp, fn);
      else if (o == "copyp") { const MatchError t(p[j]); p[i] = t; }
      else if (o == "counts") n[i] = MatchErrorCounts(fp, fn, (size_t)I(l[7]), (size_t)I(l[8]));
      else if (o == "zero") n[i] = MatchErrorCounts();
      else if (o == "copyc") { const MatchErrorCounts t(n[j]); n[i] = t; }
      else if (o == "conv") n[i] = MatchErrorCounts(cell(j));
      else if (o == "add") n[i] = n[j] + n[k];
      else if (o == "acc") n[i] += cell(j);
      else if (o == "fold") {
        MatchErrorCounts s;
        for (const auto& e : p) s += e;
        for (const auto& e : n) s += e;
        n[i] = s;
      }
      std::string cells;
      for (size_t x = 0; x < p.size() + n.size(); ++x) cells += (x ? "," : "") + Show(cell(x));
      out += std::string(q > 1 ? "," : "") + "{\"cells\":[" + cells + "],\"cmpp\":" + Table(p) + ",\"cmpc\":" + Table(n) + "}";
    }
    Emit(out + "]}");
  }
}
