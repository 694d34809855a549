// Runs the whole program (its main function) on given arguments and standard input.
#pragma once
#include "oracle.h"
extern int redsea_main(int argc, char** argv);
namespace oracle {
struct Cli { std::string out, err; int rc = 0; };
inline void runCli(Cli& c, const std::vector<std::string>& args, const std::string& in) {
  std::string* keep = new std::string(in);
  symx_set_stdin(keep->data(), keep->size());
  symx_capture_(1, &c.out); symx_capture_(2, &c.err);
  symx_getopt_reset();
  auto* a = new std::vector<std::string>(args);
  auto* argv = new std::vector<char*>();
  static char prog[] = "redsea";
  argv->push_back(prog);
  for (auto& s : *a) argv->push_back(&s[0]);
  const int n = static_cast<int>(argv->size());
  argv->push_back(nullptr);
  c.rc = redsea_main(n, argv->data());
}
inline std::vector<std::string> splitLines(const std::string& s) {
  std::vector<std::string> r;
  std::size_t a = 0;
  while (a < s.size()) {
    std::size_t e = a;
    while (e < s.size() && s[e] != '\n') e++;
    check(e < s.size(), "every output line is terminated");
    r.push_back(s.substr(a, e - a));
    a = e + 1;
  }
  return r;
}
inline void expectStr(const std::string& got, const std::string& e, const char* m) {
  const unsigned ok = seq(got, e);
#ifndef SYMX
  if (!ok) std::fprintf(stderr, "MISMATCH %s\n  got      \"%s\"\n  expected \"%s\"\n", m, got.c_str(), e.c_str());
#endif
  check(ok, m);
}
}
