// Native runtime: runs a harness on concrete inputs (replay of a counterexample, validation of a path's model).
#include "sv.hpp"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <unistd.h>
#include <exception>
#include <memory>
#include <thread>

namespace sv {
struct H { std::string n; void (*f)(); std::string w; };
static std::vector<H> &regs() { static std::vector<H> r; return r; }
Reg::Reg(const char *n, void (*f)(), const char *w) { regs().push_back({ n, f, w }); }
static std::vector<std::pair<std::string, double>> in;
static size_t pos = 0;
static std::map<std::string, int> params;
static std::string scr = ".";
static FILE *obs = nullptr;

static double next(const char *name, double lo, double hi)
{
  double v = lo;
  if (pos < in.size()) {
    if (in[pos].first != name) { printf("REPLAY-DESYNC expected %s got %s\n", in[pos].first.c_str(), name); fflush(stdout); _exit(7); }
    v = in[pos].second;
  }
  pos++;
  if (v < lo) v = lo;
  if (v > hi) v = hi;
  return v;
}
double real(const char *name, double lo, double hi) { return next(name, lo, hi); }
int integer(const char *name, int lo, int hi) { return (int)next(name, lo, hi); }
bool symbolic() { return false; }
static void end(int code) { if (obs) fclose(obs); fflush(stdout); fflush(stderr); _exit(code); }
void assume(bool c) { if (!c) { printf("ASSUME-FALSE\n"); end(5); } }
void assume_le(double a, double b) { assume(a <= b + 1e-9 * (1 + std::fabs(b))); }
void assume_lt(double a, double b) { assume(a < b + 1e-9 * (1 + std::fabs(b))); }
static void viol(const char *label, double a, double b)
{
  printf("REPRODUCED %s a=%.17g b=%.17g\n", label, a, b);
  end(1);
}
static void ob(const char *k, const char *l, double a, double b) { if (obs) fprintf(obs, "%s\t%s\t%.17g\t%.17g\n", k, l, a, b); }
void check(bool c, const char *l) { ob("C", l, c, 1); if (!c) viol(l, c, 1); }
void check_eq(double a, double b, const char *l, double tol) { ob("E", l, a, b); if (!(std::fabs(a - b) <= tol)) viol(l, a, b); }
void check_le(double a, double b, const char *l, double tol) { ob("L", l, a, b); if (!(a <= b + tol)) viol(l, a, b); }
void check_same(double a, double b, const char *l) { ob("S", l, a, b); if (!(a == b)) viol(l, a, b); }
void check_pos(double a, const char *l) { ob("P", l, a, 0); if (!(a > 0)) viol(l, a, 0); }
void fail(const char *l) { viol(l, 0, 0); }
void observe(const char *n, double v) { ob("O", n, v, 0); }
double split(double v) { return v; }
void fptoint_overflow_is_violation(bool) {}
bool is_symbolic(double) { return false; }
void set_mode_fp(bool) {}
void private_files() {}
double number(const char *s, char **end) { return strtod(s, end); }
void note(const char *) {}
void stop() { printf("STOPPED\n"); end(0); for (;;) ; }
const char *scratch() { return scr.c_str(); }
int param(const char *n, int d) { auto i = params.find(n); return i == params.end() ? d : i->second; }
} // namespace sv
#include "threads.inc"

int main(int argc, char **argv)
{
  std::string h, file, ob;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--list") { for (auto &r : sv::regs()) printf("%s\t%s\n", r.n.c_str(), r.w.c_str()); return 0; }
    else if (a == "--harness") h = argv[++i];
    else if (a == "--input") file = argv[++i];
    else if (a == "--obs") ob = argv[++i];
    else if (a == "--scratch") sv::scr = argv[++i];
    else if (a == "--param") { std::string p = argv[++i]; auto e = p.find('='); sv::params[p.substr(0, e)] = atoi(p.c_str() + e + 1); }
  }
  if (!file.empty()) {
    FILE *f = fopen(file.c_str(), "r");
    if (!f) { perror("input"); return 9; }
    char n[512], v[512];
    while (fscanf(f, "%511s %511s", n, v) == 2)
      if (n[0] != '#') sv::in.push_back({ n, strtod(v, nullptr) });
    fclose(f);
  }
  if (!ob.empty()) sv::obs = fopen(ob.c_str(), "w");
  for (auto &r : sv::regs())
    if (r.n == h) {
      try { r.f(); }
      catch (int e) { printf("REPRODUCED uncaught-exception int %d\n", e); sv::end(1); }
      catch (const std::exception &e) { printf("REPRODUCED uncaught-exception %s\n", e.what()); sv::end(1); }
      catch (...) { printf("REPRODUCED uncaught-exception\n"); sv::end(1); }
      printf("HELD\n");
      sv::end(0);
    }
  fprintf(stderr, "no harness %s\n", h.c_str());
  return 9;
}
