// Runs the tools' own main functions in this process, many times.
//   tool icdar|simple|soft <scratch directory>
//   file <name> <hex>   a file in the directory
//   arg <hex>           an argument; a leading '@' stands for the directory
//   stdin <hex>
//   read <name>         report this file afterwards
#include "common.h"
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#include <fstream>
#include "core/DocumentBoundingBox.h"
#include "core/DocumentBoundingBoxEventSet.h"
#include "core/ScoredEvent.h"
#include "core/ShapedEvent.h"
#include "matcher/SimpleMatcher.h"
#include "reader/PlainTextReader.h"
#include "scorer/SoftBoundingBoxScorer.h"
#include "tools/GenericKwsEvalTool.h"

#define main icdar_main
#include "tools/Icdar17KwsEval.cc"
#undef main
#define main simple_main
#include "tools/SimpleKwsEval.cc"
#undef main

// The box tool with the soft scorer, whose errors are fractions.
int soft_main(int argc, const char** argv) {
  typedef kws::core::ShapedEvent<std::string, kws::core::DocumentBoundingBox<uint32_t>> RefEvent;
  typedef kws::core::ScoredEvent<RefEvent> HypEvent;
  typedef kws::reader::PlainTextReader<RefEvent> RefReader;
  typedef kws::reader::PlainTextReader<HypEvent> HypReader;
  typedef kws::matcher::SimpleMatcher<RefEvent, HypEvent> Matcher;
  typedef kws::mapper::IdentityMapper<std::string> StrMapper;
  RefReader ref_reader;
  HypReader hyp_reader;
  kws::scorer::SoftIntersectionOverHypothesisAreaScorer<RefEvent, HypEvent> scorer;
  Matcher matcher(&scorer);
  StrMapper query_mapper;
  kws::tools::GenericKwsEvalTool<RefReader, HypReader, Matcher, StrMapper> tool(
      &ref_reader, &hyp_reader, &matcher, &query_mapper, "soft");
  return tool.Main(argc, argv);
}

static std::string Hex(const std::string& s) {
  static const char* d = "0123456789abcdef";
  std::string r;
  for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
  return r;
}

int main() {
  vk::Case c;
  while (vk::NextCase(&c)) {
    const std::string dir = c[0][2] + "/" + std::to_string(getpid());
    mkdir(dir.c_str(), 0700);
    std::vector<std::string> args{"tool"}, files, reads;
    std::string in;
    for (size_t i = 1; i < c.size(); ++i) {
      const auto& l = c[i];
      if (l[0] == "file") {
        std::ofstream f(dir + "/" + l[1], std::ios::binary);
        f << vk::Unhex(l[2]);
        files.push_back(l[1]);
      } else if (l[0] == "arg") {
        std::string a = vk::Unhex(l[1]);
        if (!a.empty() && a[0] == '@') a = dir + "/" + a.substr(1);
        args.push_back(a);
      } else if (l[0] == "stdin") {
        in = vk::Unhex(l[1]);
      } else if (l[0] == "read") {
        reads.push_back(l[1]);
      }
    }
    std::vector<const char*> argv;
    for (const auto& a : args) argv.push_back(a.c_str());
    argv.push_back(nullptr);
    std::ostringstream out, err;
    std::istringstream is(in);
    std::cin.clear();
    auto* o = std::cout.rdbuf(out.rdbuf());
    auto* e = std::cerr.rdbuf(err.rdbuf());
    auto* s = std::cin.rdbuf(is.rdbuf());
    const auto fl = std::cout.flags();
    int st;
    if (c[0][1] == "icdar") st = icdar_main((int)args.size(), argv.data());
    else if (c[0][1] == "simple") st = simple_main((int)args.size(), argv.data());
    else st = soft_main((int)args.size(), argv.data());
    std::cout.rdbuf(o);
    std::cerr.rdbuf(e);
    std::cin.rdbuf(s);
    std::cin.clear();
    std::cout.flags(fl);
    std::string r = "{\"status\":" + std::to_string(st) + ",\"out\":\"" + Hex(out.str()) + "\",\"err\":\"" + Hex(err.str()) + "\",\"files\":{";
    for (size_t i = 0; i < reads.size(); ++i) {
      std::ifstream f(dir + "/" + reads[i], std::ios::binary);
      std::ostringstream t;
      if (f.is_open()) t << f.rdbuf();
      r += std::string(i ? "," : "") + "\"" + reads[i] + "\":" + (f.is_open() ? "\"" + Hex(t.str()) + "\"" : std::string("null"));
      unlink((dir + "/" + reads[i]).c_str());
    }
    for (const auto& f : files) unlink((dir + "/" + f).c_str());
    vk::Emit(r + "}}");
  }
  return 0;
}
