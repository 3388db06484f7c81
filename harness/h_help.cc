// Declares command lines with the real parser and prints their help text.
//   help <prog> <hex prog> <hex desc>
//   decl <kind> <hex name> <hex help> <type> <hex value>    tok <hex>
// Tokens are parsed first; with --help among them the text is what parsing prints.
#include "common.h"
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include "cmd/Parser.h"
using namespace kws::cmd;
using namespace vk;

struct Var {
  virtual ~Var() {}
  virtual bool Register(Parser* p, const std::string& kind, const std::string& n, const std::string& h) = 0;
};
static void Set(bool* v, const std::string& s) { *v = s == "true"; }
static void Set(std::string* v, const std::string& s) { *v = s; }
static void Set(uint64_t* v, const std::string& s) { *v = std::strtoull(s.c_str(), nullptr, 10); }
template <class T> void Set(T* v, const std::string& s) { *v = (T)std::strtoll(s.c_str(), nullptr, 10); }
template <class T> struct VarOf : Var {
  T v;
  explicit VarOf(const std::string& s) { Set(&v, s); }
  bool Register(Parser* p, const std::string& kind, const std::string& n, const std::string& h) override {
    if (kind == "opt") return p->RegisterOption(n, h, &v);
    if (kind == "arg") p->RegisterArgument(n, h, &v);
    else p->RegisterOptArgument(n, h, &v);
    return true;
  }
};
static Var* Make(const std::string& t, const std::string& s) {
  if (t == "bool") return new VarOf<bool>(s);
  if (t == "string") return new VarOf<std::string>(s);
  if (t == "float") return new VarOf<float>(s);
  if (t == "double") return new VarOf<double>(s);
  if (t == "i8") return new VarOf<int8_t>(s);
  if (t == "u8") return new VarOf<uint8_t>(s);
  if (t == "i16") return new VarOf<int16_t>(s);
  if (t == "u16") return new VarOf<uint16_t>(s);
  if (t == "i32") return new VarOf<int32_t>(s);
  if (t == "u32") return new VarOf<uint32_t>(s);
  if (t == "i64") return new VarOf<int64_t>(s);
  return new VarOf<uint64_t>(s);
}

int main() {
  Case c;
  while (NextCase(&c)) {
    int fd[2], ed[2];
    if (pipe(fd) || pipe(ed)) return 3;
    const pid_t pid = fork();
    if (pid == 0) {
      close(fd[0]);
      close(ed[0]);
      dup2(ed[1], 2);
      const std::string desc = Unhex(c[0][2]);
      Parser one(Unhex(c[0][1])), two(Unhex(c[0][1]), desc);
      Parser& p = desc.empty() ? one : two;
      std::vector<std::unique_ptr<Var>> vars;
      std::vector<std::string> toks{"prog"};
      std::string ans;
      for (size_t i = 1; i < c.size(); ++i) {
        const Line& l = c[i];
        if (l[0] == "tok") { toks.push_back(Unhex(l[1])); continue; }
        vars.emplace_back(Make(l[4], Unhex(l[5])));
        ans += std::string(ans.empty() ? "" : ",") + (vars.back()->Register(&p, l[1], Unhex(l[2]), Unhex(l[3])) ? "true" : "false");
      }
      const std::string a = "{\"ans\":[" + ans + "],";
      if (write(fd[1], a.data(), a.size()) < 0) _exit(4);
      std::vector<const char*> argv;
      for (const auto& t : toks) argv.push_back(t.c_str());
      argv.push_back(nullptr);
      bool ok = true;
      if (toks.size() > 1) {
        std::ostringstream err;
        ok = p.Parse((int)toks.size(), argv.data());
      }
      const std::string s = std::string("\"st\":\"") + (ok ? "ok" : "fail") + "\",\"text\":" + Bytes(p.Help()) + "}";
      if (write(fd[1], s.data(), s.size()) < 0) _exit(4);
      _exit(0);
    }
    close(fd[1]);
    close(ed[1]);
    // the texts are short: they fit into the pipes
    std::string s, e;
    char buf[4096];
    for (ssize_t n; (n = read(fd[0], buf, sizeof buf)) > 0;) s.append(buf, n);
    for (ssize_t n; (n = read(ed[0], buf, sizeof buf)) > 0;) e.append(buf, n);
    close(fd[0]);
    close(ed[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (!WIFEXITED(st)) Emit("{\"crash\":\"ended by a signal\"}");
    else if (s.empty() || s.back() != '}') Emit(s + "\"st\":\"help\",\"status\":" + std::to_string(WEXITSTATUS(st)) + ",\"text\":" + Bytes(e) + "}");
    else Emit(s);
  }
}
