// Helpers of the harness programs. Cases come on stdin, one command per line,
// each case closed by a line END; one JSON object per case goes to stdout.
#ifndef VK_COMMON_H_
#define VK_COMMON_H_
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <sys/resource.h>

namespace vk {

// Code that never stops allocating gets an error instead of the whole memory.
#ifndef __SANITIZE_ADDRESS__
static const int kMemoryLimit = [] {
  rlimit r;
  getrlimit(RLIMIT_AS, &r);
  r.rlim_cur = rlim_t(3) << 30;
  return setrlimit(RLIMIT_AS, &r);
}();
#endif

typedef std::vector<std::string> Line;
typedef std::vector<Line> Case;

inline Line Split(const std::string& s) {
  Line v;
  std::istringstream is(s);
  std::string t;
  while (is >> t) v.push_back(t);
  return v;
}

inline bool NextCase(Case* c) {
  c->clear();
  std::string s;
  while (std::getline(std::cin, s)) {
    if (s == "END") return true;
    Line l = Split(s);
    if (!l.empty()) c->push_back(l);
  }
  return false;
}

// Strings travel hex encoded, '-' being the empty string.
inline std::string Unhex(const std::string& h) {
  std::string r;
  if (h == "-") return r;
  for (size_t i = 0; i + 1 < h.size(); i += 2)
    r.push_back(static_cast<char>(std::strtol(h.substr(i, 2).c_str(), nullptr, 16)));
  return r;
}

inline std::string Bytes(const std::string& s) {  // JSON array of byte values
  std::string r = "[";
  for (size_t i = 0; i < s.size(); ++i) {
    if (i) r += ",";
    r += std::to_string(static_cast<int>(static_cast<unsigned char>(s[i])));
  }
  return r + "]";
}

inline long long I(const std::string& s) { return std::strtoll(s.c_str(), nullptr, 10); }

inline float BitsToFloat(uint32_t b) {
  float f;
  std::memcpy(&f, &b, 4);
  return f;
}

inline uint32_t FloatToBits(float f) {
  uint32_t b;
  std::memcpy(&b, &f, 4);
  return b;
}

// Order preserving integer image of a float (-0 and 0 coincide).
inline int64_t Ord(float f) {
  if (f == 0.0f) return 0;
  uint32_t b = FloatToBits(f);
  return (b & 0x80000000u) ? -static_cast<int64_t>(b & 0x7fffffffu) : static_cast<int64_t>(b);
}

template <class C, class F>
std::string Arr(const C& c, F f) {
  std::string r = "[";
  bool first = true;
  for (const auto& e : c) {
    if (!first) r += ",";
    first = false;
    r += f(e);
  }
  return r + "]";
}

inline void Emit(const std::string& s) {
  std::fputs(s.c_str(), stdout);
  std::fputc('\n', stdout);
  std::fflush(stdout);
}

}  // namespace vk
#endif
