// Parses command lines with the real parser.
//   cmd <program>
//   opt <hex name> <type>     arg <type>     oarg <type>     tok <hex>
// Help ends the process, so cases run in a child process when they may ask for it.
#include "common.h"
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <cmath>
#include "cmd/Parser.h"
using namespace kws::cmd;
using namespace vk;

template <class F> std::string Real(F f, int p, int emin) {
  if (std::isnan(f) || std::isinf(f)) return "{\"strange\":1}";
  int e = 0;
  const bool neg = f < 0;
  F m = std::frexp(std::fabs(f), &e);  // m in [0.5,1)
  e -= p;
  if (e < emin) { m = std::ldexp(m, p - (emin - e)); e = emin; } else { m = std::ldexp(m, p); }
  if (f == 0) e = emin;
  const uint64_t n = (uint64_t)m;
  return std::string("{\"neg\":") + (neg ? "true" : "false") + ",\"m\":" + Bytes(std::to_string(n)) + ",\"e\":" + std::to_string(e) + "}";
}

struct Var {
  virtual ~Var() {}
  virtual void Register(Parser* p, const std::string& kind, const std::string& name) = 0;
  virtual std::string Show() const = 0;
};
static std::string ShowValue(bool v) { return Bytes(v ? "1" : "0"); }
static std::string ShowValue(const std::string& v) { return Bytes(v); }
static std::string ShowValue(float v) { return Real<float>(v, 24, -149); }
static std::string ShowValue(double v) { return Real<double>(v, 53, -1074); }
template <class T> std::string ShowValue(T v) { return Bytes(std::to_string(v)); }
template <class T> struct VarOf : Var {
  T v;
  explicit VarOf(const T& x) : v(x) {}
  void Register(Parser* p, const std::string& kind, const std::string& name) override {
    if (kind == "opt") p->RegisterOption(name, "help", &v);
    else if (kind == "arg") p->RegisterArgument("a", "help", &v);
    else p->RegisterOptArgument("o", "help", &v);
  }
  std::string Show() const override { return ShowValue(v); }
};
static Var* Make(const std::string& t, int k) {
  if (t == "bool") return new VarOf<bool>(k % 2);
  if (t == "string") return new VarOf<std::string>(k % 2 ? "" : "old value");
  if (t == "float") return new VarOf<float>(0.5f * k);
  if (t == "double") return new VarOf<double>(-0.75 * k);
  if (t == "i8") return new VarOf<int8_t>(-k);
  if (t == "u8") return new VarOf<uint8_t>(k);
  if (t == "i16") return new VarOf<int16_t>(-k);
  if (t == "u16") return new VarOf<uint16_t>(k);
  if (t == "i32") return new VarOf<int32_t>(-k);
  if (t == "u32") return new VarOf<uint32_t>(k);
  if (t == "i64") return new VarOf<int64_t>(-k);
  return new VarOf<uint64_t>(k);
}

static std::string One(const Case& c) {
  std::vector<std::unique_ptr<Var>> vars;
  std::vector<std::string> toks{"prog"};
  Parser p("prog", "description");
  int k = 3;
  for (size_t i = 1; i < c.size(); ++i) {
    const Line& l = c[i];
    if (l[0] == "tok") { toks.push_back(Unhex(l[1])); continue; }
    vars.emplace_back(Make(l[0] == "opt" ? l[2] : l[1], ++k));
    vars.back()->Register(&p, l[0], l[0] == "opt" ? Unhex(l[1]) : "");
  }
  auto show = [&] { return Arr(vars, [](const std::unique_ptr<Var>& v) { return v->Show(); }); };
  const std::string olds = show();
  std::vector<const char*> argv;
  for (const auto& t : toks) argv.push_back(t.c_str());
  argv.push_back(nullptr);
  std::ostringstream err;
  std::streambuf* old = std::cerr.rdbuf(err.rdbuf());
  const bool ok = p.Parse((int)toks.size(), argv.data());
  std::cerr.rdbuf(old);
  return std::string("{\"st\":\"") + (ok ? "ok" : "fail") + "\",\"vals\":" + (ok ? show() : "[]") + ",\"olds\":" + olds + "}";
}

int main() {
  Case c;
  while (NextCase(&c)) {
    bool help = false;
    for (const auto& l : c) help = help || (l[0] == "tok" && Unhex(l[1]) == "--help");
    if (!help) { Emit(One(c)); continue; }
    int fd[2];
    if (pipe(fd)) return 3;
    const pid_t pid = fork();
    if (pid == 0) {
      close(fd[0]);
      dup2(open("/dev/null", O_WRONLY), 2);
      const std::string s = One(c);
      if (write(fd[1], s.data(), s.size()) < 0) _exit(4);
      _exit(0);
    }
    close(fd[1]);
    std::string s;
    char buf[4096];
    for (ssize_t n; (n = read(fd[0], buf, sizeof buf)) > 0;) s.append(buf, n);
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (!WIFEXITED(st)) Emit("{\"crash\":\"ended by a signal\"}");
    else if (s.empty()) Emit("{\"st\":\"help\",\"vals\":[],\"olds\":[]}");
    else Emit(s);
  }
}
