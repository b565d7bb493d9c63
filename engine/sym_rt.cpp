// Symbolic runtime.  Linked with translation units compiled through SymPass: each floating-point operation calls
// __sym_*.  A symbolic double is a NaN-boxed node id.  Values are kept as polynomials over atoms (inputs, 1/den,
// sqrt(..), exp(..), |..|, ...) in normal form; a comparison with a symbolic operand asks z3 which outcomes the path
// condition admits and forks the process when both are possible.  Obligations are decided by z3 (portfolio z3/cvc5
// for what the incremental solver leaves open).
#include "sv.hpp"
#include <z3.h>
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <charconv>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <filesystem>
#include <map>
#include <istream>
#include <memory>
#include <ostream>
#include <string>
#include <thread>
#include <unordered_map>
#include <vector>
#include <fcntl.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

typedef long double LD;
static const uint32_t TAG = 0xFFFA5A5Au;
static inline uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static inline double dbl(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static inline bool boxed(double d) { return (bits(d) >> 32) == TAG; }
static inline uint32_t id(double d) { return (uint32_t)bits(d); }
static inline double box(uint32_t i) { return dbl(((uint64_t)TAG << 32) | i); }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

// ---------------------------------------------------------------------------------------------------------- shared
struct Shared
{
  sem_t slots;
  std::atomic<long> paths, forks, q_branch, q_ob, ob, ob_struct, ob_interval, br_interval, unknown_branch, undecided, viol, killed, trunc, infeasible, ext_calls, maxnodes, undecided_recorded, q_abs_unsat, q_search_sat, q_exact;
  std::atomic<double> tsolver;
  std::atomic<long> order;
  std::atomic<int> stopall;
};
static Shared *S;
static void addt(double x) { double o = S->tsolver.load(); while (!S->tsolver.compare_exchange_weak(o, o + x)) ; }

// ---------------------------------------------------------------------------------------------------------- options
static std::string g_out = "/tmp/sym.out", g_scratch = ".", g_harness;
static std::map<std::string, int> g_params;
static int g_out_fd = -1;
static long g_max_paths = 20000, g_max_viol = 6, g_max_nodes = 400000;
static double g_deadline = 0, g_ob_timeout = 30;
static unsigned g_rl_branch = 1500000, g_rl_ob = 20000000;
static double g_to_branch = 4, g_to_ob = 5; // backstop in seconds
static bool g_fpto_viol = false;
static bool g_have_token = false;
static std::string g_trail; // decisions of this path (for the report)

static void emit(const std::string &s)
{
  std::string l = s + "\n";
  (void)!write(g_out_fd, l.data(), l.size());
}
static std::string esc(const std::string &s)
{
  std::string r;
  for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; }
  return r;
}

// ---------------------------------------------------------------------------------------------------------- nodes
enum Op : uint8_t { VAR, POLY, INV, ABS, SQRT, EXP, LOG, SIN, COS, SINH, ASINH, TANH, CBRT, EXPM1, LOG1P, POW, FLOOR, CEIL, ROUND, TRUNC, REM, ITE, MINI, MAXI,
                    FADD, FSUB, FMUL, FDIV, FNEG, FCONST };
struct Poly { std::vector<std::pair<uint32_t, LD>> t; }; // sorted by monomial id; monomial 0 is 1
struct Node
{
  Op op;
  double a, b, c, d; // operands (boxed or concrete)
  int pred;
  Poly *p;
  double lo, hi; uint32_t iver;
  double mv; uint32_t mver;
  Z3_ast z, za;   // exact term, linear over-approximation
  const char *name;
};
static std::vector<Node> N(1);
static std::vector<std::vector<uint32_t>> monos(1); // atoms of a monomial, sorted
static std::unordered_map<std::string, uint32_t> monoTab, nodeTab;
static uint32_t iver = 1, mver = 1;
static bool model_ok = true;
static bool fpmode = false;

struct Input { const char *name; bool isint; double lo, hi; uint32_t node; double val; };
static std::vector<Input> inputs;

static Z3_context Z;
static Z3_solver SOL, SOLA; // exact constraints; linear over-approximation of them
static Z3_sort RS, FS, IS;
static std::vector<Z3_ast> pathc; // all asserted (axioms and path condition)

static uint32_t newNode(Op op, double a = 0, double b = 0, double c = 0, double d = 0, int pred = 0, Poly *p = nullptr)
{
  std::string key((char *)&op, 1);
  if (op != VAR) {
    if (p) key.append((char *)p->t.data(), 0);
    if (p) for (auto &x : p->t) { key.append((char *)&x.first, 4); char buf[16] = {}; memcpy(buf, &x.second, 10); key.append(buf, 10); }
    else {
      uint64_t u[4] = { bits(a), bits(b), bits(c), bits(d) };
      key.append((char *)u, 32);
      key.append((char *)&pred, 4);
    }
    auto it = nodeTab.find(key);
    if (it != nodeTab.end()) return it->second;
  }
  Node n{ op, a, b, c, d, pred, p ? new Poly(*p) : nullptr, -INFINITY, INFINITY, 0, 0, 0, nullptr, nullptr, nullptr };
  N.push_back(n);
  uint32_t i = N.size() - 1;
  if (op != VAR) nodeTab[key] = i;
  return i;
}
static uint32_t mono(std::vector<uint32_t> v)
{
  if (v.empty()) return 0;
  std::sort(v.begin(), v.end());
  std::string k((char *)v.data(), v.size() * 4);
  auto it = monoTab.find(k);
  if (it != monoTab.end()) return it->second;
  monos.push_back(v);
  monoTab[k] = monos.size() - 1;
  return monos.size() - 1;
}
static void toPoly(double v, Poly &p)
{
  p.t.clear();
  if (!boxed(v)) { if (v != 0) p.t.push_back({ 0, (LD)v }); return; }
  Node &n = N[id(v)];
  if (n.op == POLY) { p = *n.p; return; }
  p.t.push_back({ mono({ id(v) }), 1 });
}
static double fromPoly(Poly &p)
{
  if (p.t.empty()) return 0;
  if (p.t.size() == 1 && p.t[0].first == 0) return (double)p.t[0].second;
  if (p.t.size() == 1 && p.t[0].second == 1 && monos[p.t[0].first].size() == 1) return box(monos[p.t[0].first][0]);
  return box(newNode(POLY, 0, 0, 0, 0, 0, &p));
}
static void addPoly(const Poly &a, const Poly &b, LD sb, Poly &r)
{
  r.t.clear();
  r.t.reserve(a.t.size() + b.t.size());
  size_t i = 0, j = 0;
  while (i < a.t.size() || j < b.t.size()) {
    if (j >= b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) r.t.push_back(a.t[i++]);
    else if (i >= a.t.size() || b.t[j].first < a.t[i].first) { r.t.push_back({ b.t[j].first, sb * b.t[j].second }); j++; }
    else {
      LD x = a.t[i].second, y = sb * b.t[j].second, s = x + y;
      // coefficients that cancel up to the rounding noise of the constants are cancelled exactly
      if (fabsl(s) > 8e-16L * std::max(fabsl(x), fabsl(y))) r.t.push_back({ a.t[i].first, s });
      i++; j++;
    }
  }
}
static bool mulPoly(const Poly &a, const Poly &b, Poly &r)
{
  if (a.t.size() * b.t.size() > 400) return false;
  std::map<uint32_t, std::pair<LD, LD>> m;
  for (auto &x : a.t)
    for (auto &y : b.t) {
      std::vector<uint32_t> v(monos[x.first]);
      v.insert(v.end(), monos[y.first].begin(), monos[y.first].end());
      // y * (1/y) -> 1 for an atom y (y != 0 on every path where 1/y is meaningful)
      bool again = true;
      while (again) {
        again = false;
        for (size_t i = 0; i < v.size() && !again; i++)
          if (N[v[i]].op == INV && boxed(N[v[i]].a)) {
            uint32_t y2 = id(N[v[i]].a);
            if (N[y2].op == POLY) continue;
            for (size_t j = 0; j < v.size(); j++)
              if (v[j] == y2) { v.erase(v.begin() + std::max(i, j)); v.erase(v.begin() + std::min(i, j)); again = true; break; }
          }
      }
      if (v.size() > 12) return false;
      auto &e = m[mono(v)];
      LD t = x.second * y.second;
      e.first += t;
      e.second = std::max(e.second, fabsl(t));
    }
  r.t.clear();
  for (auto &e : m)
    if (fabsl(e.second.first) > 8e-16L * e.second.second) r.t.push_back({ e.first, e.second.first });
  return r.t.size() <= 200;
}

// ---------------------------------------------------------------------------------------------------------- intervals
struct Iv { double lo, hi; };
static Iv ival(double v);
static double dn(double x) { return std::isfinite(x) ? x - std::fabs(x) * 1e-15 - 1e-300 : x; }
static double up(double x) { return std::isfinite(x) ? x + std::fabs(x) * 1e-15 + 1e-300 : x; }
static double mulz(double a, double b) { return (a == 0 || b == 0) ? 0 : a * b; }
static Iv imul(Iv a, Iv b)
{
  double q[4] = { mulz(a.lo, b.lo), mulz(a.lo, b.hi), mulz(a.hi, b.lo), mulz(a.hi, b.hi) };
  return { dn(*std::min_element(q, q + 4)), up(*std::max_element(q, q + 4)) };
}
static Iv ipow(Iv a, int n)
{
  if (n == 1) return a;
  double l = std::pow(a.lo, n), h = std::pow(a.hi, n);
  if (n % 2) return { dn(l), up(h) };
  if (a.lo >= 0) return { dn(l), up(h) };
  if (a.hi <= 0) return { dn(h), up(l) };
  return { 0, up(std::max(l, h)) };
}
static Iv imono(uint32_t m)
{
  auto &v = monos[m];
  Iv r{ 1, 1 };
  for (size_t i = 0; i < v.size();) {
    size_t j = i;
    while (j < v.size() && v[j] == v[i]) j++;
    r = imul(r, ipow(ival(box(v[i])), j - i));
    i = j;
  }
  return r;
}
static Iv ival(double v)
{
  if (!boxed(v)) return { v, v };
  uint32_t k = id(v);
  if (N[k].iver == iver || N[k].op == VAR) return { N[k].lo, N[k].hi };
  Node n = N[k];
  Iv r{ -INFINITY, INFINITY };
  auto f1 = [&](double (*f)(double)) { Iv a = ival(n.a); r = { dn(f(a.lo)), up(f(a.hi)) }; };
  switch (n.op) {
  case POLY: {
    LD lo = 0, hi = 0;
    for (auto &t : n.p->t) {
      Iv m = imono(t.first);
      LD x = t.second * (LD)m.lo, y = t.second * (LD)m.hi;
      if (std::isnan((double)x)) x = -INFINITY;
      if (std::isnan((double)y)) y = INFINITY;
      lo += std::min(x, y);
      hi += std::max(x, y);
    }
    if (std::isnan((double)lo)) lo = -INFINITY;
    if (std::isnan((double)hi)) hi = INFINITY;
    r = { dn((double)lo), up((double)hi) };
    break;
  }
  case INV: {
    Iv a = ival(n.a);
    if (a.lo > 0 || a.hi < 0) r = { dn(1 / a.hi), up(1 / a.lo) };
    break;
  }
  case ABS: {
    Iv a = ival(n.a);
    if (a.lo >= 0) r = a;
    else if (a.hi <= 0) r = { -a.hi, -a.lo };
    else r = { 0, std::max(-a.lo, a.hi) };
    break;
  }
  case SQRT: { Iv a = ival(n.a); r = { dn(std::sqrt(std::max(0.0, a.lo))), up(std::sqrt(std::max(0.0, a.hi))) }; break; }
  case EXP: f1(std::exp); break;
  case EXPM1: f1(std::expm1); break;
  case LOG: { Iv a = ival(n.a); r = { a.lo > 0 ? dn(std::log(a.lo)) : -INFINITY, a.hi > 0 ? up(std::log(a.hi)) : INFINITY }; break; }
  case LOG1P: { Iv a = ival(n.a); r = { a.lo > -1 ? dn(std::log1p(a.lo)) : -INFINITY, a.hi > -1 ? up(std::log1p(a.hi)) : INFINITY }; break; }
  case SIN: case COS: r = { -1, 1 }; break;
  case SINH: f1(std::sinh); break;
  case ASINH: f1(std::asinh); break;
  case TANH: f1(std::tanh); break;
  case CBRT: f1(std::cbrt); break;
  case POW: { Iv a = ival(n.a); if (a.lo > 0 && !boxed(n.b)) { double x = std::pow(a.lo, n.b), y = std::pow(a.hi, n.b); r = { dn(std::min(x, y)), up(std::max(x, y)) }; } break; }
  case FLOOR: f1(std::floor); break;
  case CEIL: f1(std::ceil); break;
  case ROUND: f1(std::round); break;
  case TRUNC: f1(std::trunc); break;
  case REM: break;
  case FMUL: r = imul(ival(n.a), ival(n.b)); break;
  case ITE: { Iv a = ival(n.c), b = ival(n.d); r = { std::min(a.lo, b.lo), std::max(a.hi, b.hi) }; break; }
  case MINI: { Iv a = ival(n.a), b = ival(n.b); r = { std::min(a.lo, b.lo), std::min(a.hi, b.hi) }; break; }
  case MAXI: { Iv a = ival(n.a), b = ival(n.b); r = { std::max(a.lo, b.lo), std::max(a.hi, b.hi) }; break; }
  default: break;
  }
  if (std::isnan(r.lo)) r.lo = -INFINITY;
  if (std::isnan(r.hi)) r.hi = INFINITY;
  Node &m = N[k];
  // bounds learnt from the path (kept in lo/hi) only ever tighten
  m.lo = std::max(m.lo, r.lo);
  m.hi = std::min(m.hi, r.hi);
  m.iver = iver;
  return { m.lo, m.hi };
}

// ---------------------------------------------------------------------------------------------------------- evaluation
static bool evalc(int pred, double a, double b);
static double ev(double v)
{
  if (!boxed(v)) return v;
  uint32_t k = id(v);
  if (N[k].mver == mver || N[k].op == VAR) return N[k].mv;
  Node n = N[k];
  double r = 0;
  switch (n.op) {
  case POLY: {
    LD s = 0;
    for (auto &t : n.p->t) { LD x = t.second; for (auto m : monos[t.first]) x *= (LD)ev(box(m)); s += x; }
    r = (double)s;
    break;
  }
  case INV: r = 1 / ev(n.a); break;
  case ABS: r = std::fabs(ev(n.a)); break;
  case SQRT: r = std::sqrt(ev(n.a)); break;
  case EXP: r = std::exp(ev(n.a)); break;
  case LOG: r = std::log(ev(n.a)); break;
  case SIN: r = std::sin(ev(n.a)); break;
  case COS: r = std::cos(ev(n.a)); break;
  case SINH: r = std::sinh(ev(n.a)); break;
  case ASINH: r = std::asinh(ev(n.a)); break;
  case TANH: r = std::tanh(ev(n.a)); break;
  case CBRT: r = std::cbrt(ev(n.a)); break;
  case EXPM1: r = std::expm1(ev(n.a)); break;
  case LOG1P: r = std::log1p(ev(n.a)); break;
  case POW: r = std::pow(ev(n.a), ev(n.b)); break;
  case FLOOR: r = std::floor(ev(n.a)); break;
  case CEIL: r = std::ceil(ev(n.a)); break;
  case ROUND: r = std::round(ev(n.a)); break;
  case TRUNC: r = std::trunc(ev(n.a)); break;
  case REM: r = std::fmod(ev(n.a), ev(n.b)); break;
  case ITE: r = evalc(n.pred, ev(n.a), ev(n.b)) ? ev(n.c) : ev(n.d); break;
  case MINI: r = std::fmin(ev(n.a), ev(n.b)); break;
  case MAXI: r = std::fmax(ev(n.a), ev(n.b)); break;
  case FADD: r = ev(n.a) + ev(n.b); break;
  case FSUB: r = ev(n.a) - ev(n.b); break;
  case FMUL: r = ev(n.a) * ev(n.b); break;
  case FDIV: r = ev(n.a) / ev(n.b); break;
  case FNEG: r = -ev(n.a); break;
  default: break;
  }
  N[k].mv = r;
  N[k].mver = mver;
  return r;
}

// ---------------------------------------------------------------------------------------------------------- z3
static std::string dec(double d) // shortest decimal that reads back as d
{
  char b[64];
  auto r = std::to_chars(b, b + 60, d, std::chars_format::scientific);
  *r.ptr = 0;
  // z3 numerals: turn m.ffffe[+-]xx into a fraction
  std::string s(b);
  bool neg = s[0] == '-';
  if (neg) s = s.substr(1);
  size_t e = s.find('e');
  int ex = atoi(s.c_str() + e + 1);
  std::string m = s.substr(0, e);
  size_t dot = m.find('.');
  if (dot != std::string::npos) { ex -= m.size() - dot - 1; m.erase(dot, 1); }
  std::string num = m, den = "1";
  if (ex >= 0) num += std::string(ex, '0');
  else den += std::string(-ex, '0');
  return (neg ? "-" : "") + num + (den == "1" ? "" : "/" + den);
}
static Z3_ast zreal(double d) { return Z3_mk_numeral(Z, dec(d).c_str(), RS); }
static Z3_ast z2(Z3_ast (*f)(Z3_context, unsigned, Z3_ast const[]), Z3_ast a, Z3_ast b) { Z3_ast x[2] = { a, b }; return f(Z, 2, x); }
static void assertz(Z3_ast a)
{
  Z3_inc_ref(Z, a);
  pathc.push_back(a);
  Z3_solver_assert(Z, SOL, a);
}
static void asserta(Z3_ast a) { Z3_solver_assert(Z, SOLA, a); }
static Z3_ast zt(double v);
static Z3_ast zcmpz(int pred, double a, double b);
static std::map<int, std::vector<uint32_t>> ufs;
static Z3_ast zvar(const char *n, Z3_sort s) { Z3_ast v = Z3_mk_const(Z, Z3_mk_string_symbol(Z, n), s); Z3_inc_ref(Z, v); return v; }
static Z3_ast zmono(uint32_t m)
{
  std::vector<Z3_ast> f;
  for (auto a : monos[m]) f.push_back(zt(box(a)));
  return f.size() == 1 ? f[0] : Z3_mk_mul(Z, f.size(), f.data());
}
static Z3_ast zt(double v)
{
  if (!boxed(v)) return fpmode ? Z3_mk_fpa_numeral_double(Z, v, FS) : zreal(v);
  uint32_t k = id(v);
  if (N[k].z) return N[k].z;
  Node n = N[k];
  Z3_ast r = nullptr;
  char nm[64];
  if (fpmode) {
    Z3_ast rm = Z3_mk_fpa_rne(Z);
    switch (n.op) {
    case VAR: r = zvar(n.name, FS); break;
    case FADD: r = Z3_mk_fpa_add(Z, rm, zt(n.a), zt(n.b)); break;
    case FSUB: r = Z3_mk_fpa_sub(Z, rm, zt(n.a), zt(n.b)); break;
    case FMUL: r = Z3_mk_fpa_mul(Z, rm, zt(n.a), zt(n.b)); break;
    case FDIV: r = Z3_mk_fpa_div(Z, rm, zt(n.a), zt(n.b)); break;
    case FNEG: r = Z3_mk_fpa_neg(Z, zt(n.a)); break;
    case ABS: r = Z3_mk_fpa_abs(Z, zt(n.a)); break;
    case SQRT: r = Z3_mk_fpa_sqrt(Z, rm, zt(n.a)); break;
    case FLOOR: r = Z3_mk_fpa_round_to_integral(Z, Z3_mk_fpa_rtn(Z), zt(n.a)); break;
    case CEIL: r = Z3_mk_fpa_round_to_integral(Z, Z3_mk_fpa_rtp(Z), zt(n.a)); break;
    case TRUNC: r = Z3_mk_fpa_round_to_integral(Z, Z3_mk_fpa_rtz(Z), zt(n.a)); break;
    case ROUND: r = Z3_mk_fpa_round_to_integral(Z, Z3_mk_fpa_rna(Z), zt(n.a)); break;
    case ITE: r = Z3_mk_ite(Z, zcmpz(n.pred, n.a, n.b), zt(n.c), zt(n.d)); break;
    case MINI: r = Z3_mk_fpa_min(Z, zt(n.a), zt(n.b)); break;
    case MAXI: r = Z3_mk_fpa_max(Z, zt(n.a), zt(n.b)); break;
    default: snprintf(nm, 64, "fpuf!%u", k); r = zvar(nm, FS); break;
    }
    Z3_inc_ref(Z, r);
    N[k].z = r;
    return r;
  }
  Z3_ast zero = zreal(0), one = zreal(1);
  auto fresh = [&](const char *p) { snprintf(nm, 64, "%s!%u", p, k); r = zvar(nm, RS); N[k].z = r; };
  auto bounds = [&] {
    Iv i = ival(v);
    if (std::isfinite(i.lo)) assertz(Z3_mk_ge(Z, r, zreal(i.lo)));
    if (std::isfinite(i.hi)) assertz(Z3_mk_le(Z, r, zreal(i.hi)));
  };
  auto monotone = [&](int key) { // strictly increasing function: r order = argument order
    for (auto o : ufs[key])
      assertz(Z3_mk_iff(Z, Z3_mk_lt(Z, zt(N[o].a), zt(n.a)), Z3_mk_lt(Z, N[o].z, r)));
    ufs[key].push_back(k);
  };
  switch (n.op) {
  case VAR: r = zvar(n.name, RS); break;
  case POLY: {
    std::vector<Z3_ast> s;
    for (auto &t : n.p->t) {
      Z3_ast c = zreal((double)t.second);
      s.push_back(t.first == 0 ? c : (t.second == 1 ? zmono(t.first) : z2(Z3_mk_mul, c, zmono(t.first))));
    }
    r = s.size() == 1 ? s[0] : Z3_mk_add(Z, s.size(), s.data());
    break;
  }
  case INV: {
    Z3_ast d = zt(n.a);
    fresh("inv");
    Iv i = ival(n.a);
    Z3_ast e = Z3_mk_eq(Z, z2(Z3_mk_mul, d, r), one);
    if (!(i.lo > 0 || i.hi < 0)) e = z2(Z3_mk_or, Z3_mk_eq(Z, d, zero), e);
    assertz(e);
    bounds();
    break;
  }
  case ABS: { Z3_ast a = zt(n.a); r = Z3_mk_ite(Z, Z3_mk_ge(Z, a, zero), a, Z3_mk_unary_minus(Z, a)); break; }
  case SQRT: {
    Z3_ast a = zt(n.a);
    fresh("sqrt");
    assertz(Z3_mk_ge(Z, r, zero));
    assertz(z2(Z3_mk_or, Z3_mk_lt(Z, a, zero), Z3_mk_eq(Z, z2(Z3_mk_mul, r, r), a)));
    bounds();
    break;
  }
  case EXP: {
    Z3_ast a = zt(n.a);
    fresh("exp");
    assertz(Z3_mk_gt(Z, r, zero));
    assertz(Z3_mk_ge(Z, r, z2(Z3_mk_add, one, a)));
    assertz(Z3_mk_iff(Z, Z3_mk_gt(Z, a, zero), Z3_mk_gt(Z, r, one)));
    assertz(Z3_mk_iff(Z, Z3_mk_lt(Z, a, zero), Z3_mk_lt(Z, r, one)));
    bounds();
    monotone(EXP);
    break;
  }
  case LOG: {
    Z3_ast a = zt(n.a);
    fresh("log");
    assertz(z2(Z3_mk_or, Z3_mk_le(Z, a, zero), Z3_mk_le(Z, r, z2(Z3_mk_sub, a, one))));
    assertz(z2(Z3_mk_or, Z3_mk_le(Z, a, zero), Z3_mk_iff(Z, Z3_mk_gt(Z, a, one), Z3_mk_gt(Z, r, zero))));
    bounds();
    monotone(LOG);
    break;
  }
  case SINH: case ASINH: case TANH: case CBRT: case EXPM1: case LOG1P: {
    Z3_ast a = zt(n.a);
    fresh("f");
    assertz(Z3_mk_iff(Z, Z3_mk_gt(Z, a, zero), Z3_mk_gt(Z, r, zero)));
    assertz(Z3_mk_iff(Z, Z3_mk_lt(Z, a, zero), Z3_mk_lt(Z, r, zero)));
    if (n.op == ASINH || n.op == TANH || n.op == SINH) {
      // |asinh x|,|tanh x| <= |x| <= |sinh x|
      Z3_ast p = Z3_mk_ge(Z, a, zero);
      bool small = n.op != SINH;
      assertz(Z3_mk_implies(Z, p, small ? Z3_mk_le(Z, r, a) : Z3_mk_ge(Z, r, a)));
      assertz(Z3_mk_implies(Z, Z3_mk_not(Z, p), small ? Z3_mk_ge(Z, r, a) : Z3_mk_le(Z, r, a)));
      // odd
      for (auto o : ufs[n.op]) {
        Z3_ast m = Z3_mk_unary_minus(Z, zt(N[o].a));
        assertz(Z3_mk_implies(Z, Z3_mk_eq(Z, m, a), Z3_mk_eq(Z, r, Z3_mk_unary_minus(Z, N[o].z))));
      }
    }
    bounds();
    monotone(n.op);
    break;
  }
  case POW: {
    Z3_ast a = zt(n.a);
    fresh("pow");
    assertz(z2(Z3_mk_or, Z3_mk_le(Z, a, zero), Z3_mk_gt(Z, r, zero)));
    bounds();
    if (!boxed(n.b)) { // x^c for a fixed c: monotone on x>0
      for (auto o : ufs[POW])
        if (!boxed(N[o].b) && N[o].b == n.b) {
          Z3_ast both = z2(Z3_mk_and, Z3_mk_gt(Z, zt(N[o].a), zero), Z3_mk_gt(Z, a, zero));
          Z3_ast lt = Z3_mk_lt(Z, zt(N[o].a), a);
          assertz(Z3_mk_implies(Z, both, Z3_mk_iff(Z, lt, n.b > 0 ? Z3_mk_lt(Z, N[o].z, r) : Z3_mk_gt(Z, N[o].z, r))));
        }
      ufs[POW].push_back(k);
      Z3_ast gt = Z3_mk_gt(Z, a, one);
      assertz(Z3_mk_implies(Z, Z3_mk_gt(Z, a, zero), Z3_mk_iff(Z, gt, n.b > 0 ? Z3_mk_gt(Z, r, one) : Z3_mk_lt(Z, r, one))));
    }
    break;
  }
  case FLOOR: r = Z3_mk_int2real(Z, Z3_mk_real2int(Z, zt(n.a))); break;
  case CEIL: r = Z3_mk_unary_minus(Z, Z3_mk_int2real(Z, Z3_mk_real2int(Z, Z3_mk_unary_minus(Z, zt(n.a))))); break;
  case TRUNC: {
    Z3_ast a = zt(n.a);
    r = Z3_mk_ite(Z, Z3_mk_ge(Z, a, zero), Z3_mk_int2real(Z, Z3_mk_real2int(Z, a)), Z3_mk_unary_minus(Z, Z3_mk_int2real(Z, Z3_mk_real2int(Z, Z3_mk_unary_minus(Z, a)))));
    break;
  }
  case ROUND: {
    Z3_ast a = zt(n.a), h = zreal(0.5);
    r = Z3_mk_ite(Z, Z3_mk_ge(Z, a, zero), Z3_mk_int2real(Z, Z3_mk_real2int(Z, z2(Z3_mk_add, a, h))), Z3_mk_unary_minus(Z, Z3_mk_int2real(Z, Z3_mk_real2int(Z, z2(Z3_mk_sub, h, a)))));
    break;
  }
  case ITE: r = Z3_mk_ite(Z, zcmpz(n.pred, n.a, n.b), zt(n.c), zt(n.d)); break;
  case FMUL: r = z2(Z3_mk_mul, zt(n.a), zt(n.b)); break;
  case MINI: { Z3_ast a = zt(n.a), b = zt(n.b); r = Z3_mk_ite(Z, Z3_mk_le(Z, a, b), a, b); break; }
  case MAXI: { Z3_ast a = zt(n.a), b = zt(n.b); r = Z3_mk_ite(Z, Z3_mk_ge(Z, a, b), a, b); break; }
  default: fresh("uf"); bounds(); break;
  }
  Z3_inc_ref(Z, r);
  N[k].z = r;
  return r;
}

// ---------------------------------------------------------------------------------------------------------- abstraction
// zta(v): the same value with every non-linear term replaced by a fresh variable constrained by linear consequences
// (bounds, signs, McCormick envelopes, tangents, secants).  Every model of the exact constraints extends to one of the
// abstract ones, so unsat carries over; a model of the abstraction is only a candidate that is evaluated exactly.
static Z3_ast zta(double v);
static double rdn(double x) { if (!std::isfinite(x) || x == 0) return x; double m = std::pow(10.0, 5 - std::floor(std::log10(std::fabs(x)))); double r = std::floor(x * m) / m; return std::isfinite(r) && r <= x ? r : x; }
static double rup(double x) { return -rdn(-x); }
static Iv rnd_out(Iv i) { return { rdn(i.lo), rup(i.hi) }; }
static Z3_ast A2(Z3_ast a, Z3_ast b) { return z2(Z3_mk_add, a, b); }
static Z3_ast S2(Z3_ast a, Z3_ast b) { return z2(Z3_mk_sub, a, b); }
static Z3_ast K2(double c, Z3_ast b) { return z2(Z3_mk_mul, zreal(c), b); }
static Z3_ast KK(double c, double d) { return z2(Z3_mk_mul, zreal(c), zreal(d)); }
struct AbsMono { Z3_ast r; Iv used; bool on; };
static std::unordered_map<uint32_t, AbsMono> absMono;
static std::vector<uint32_t> absList;
static void aBounds(Z3_ast r, Iv i)
{
  i = rnd_out(i);
  if (std::isfinite(i.lo)) asserta(Z3_mk_ge(Z, r, zreal(i.lo)));
  if (std::isfinite(i.hi)) asserta(Z3_mk_le(Z, r, zreal(i.hi)));
}
static void aProduct(Z3_ast r, Z3_ast x, Iv ix, Z3_ast y, Iv iy, bool signs)
{
  ix = rnd_out(ix);
  iy = rnd_out(iy);
  auto fin = [](double q) { return std::isfinite(q); };
  auto env = [&](double a, double b, bool ge) { // r >= a*y + b*x - a*b
    if (!fin(a) || !fin(b)) return;
    Z3_ast e = S2(A2(K2(a, y), K2(b, x)), KK(a, b));
    asserta(ge ? Z3_mk_ge(Z, r, e) : Z3_mk_le(Z, r, e));
  };
  env(ix.lo, iy.lo, true);
  env(ix.hi, iy.hi, true);
  env(ix.hi, iy.lo, false);
  env(ix.lo, iy.hi, false);
  if (!signs) return;
  Z3_ast zero = zreal(0);
  auto scaled = [&](Z3_ast y, Iv ix) { // x of one sign: r lies between xl*y and xh*y
    if (!(ix.lo >= 0 || ix.hi <= 0)) return;
    Z3_ast yp = Z3_mk_ge(Z, y, zero), yn = Z3_mk_le(Z, y, zero);
    if (fin(ix.lo)) { asserta(Z3_mk_implies(Z, yp, Z3_mk_ge(Z, r, K2(ix.lo, y)))); asserta(Z3_mk_implies(Z, yn, Z3_mk_le(Z, r, K2(ix.lo, y)))); }
    if (fin(ix.hi)) { asserta(Z3_mk_implies(Z, yp, Z3_mk_le(Z, r, K2(ix.hi, y)))); asserta(Z3_mk_implies(Z, yn, Z3_mk_ge(Z, r, K2(ix.hi, y)))); }
    if (ix.lo > 0) asserta(Z3_mk_iff(Z, Z3_mk_gt(Z, y, zero), Z3_mk_gt(Z, r, zero)));
    if (ix.lo > 0) asserta(Z3_mk_iff(Z, Z3_mk_lt(Z, y, zero), Z3_mk_lt(Z, r, zero)));
    if (ix.hi < 0) asserta(Z3_mk_iff(Z, Z3_mk_gt(Z, y, zero), Z3_mk_lt(Z, r, zero)));
    if (ix.hi < 0) asserta(Z3_mk_iff(Z, Z3_mk_lt(Z, y, zero), Z3_mk_gt(Z, r, zero)));
  };
  bool dx = ix.lo >= 0 || ix.hi <= 0, dy = iy.lo >= 0 || iy.hi <= 0;
  if (dx && !dy) scaled(y, ix);
  else if (dy && !dx) scaled(x, iy);
  else if (!dx && !dy)
    for (int i = 0; i < 4; i++) {
      Z3_ast c = z2(Z3_mk_and, i & 1 ? Z3_mk_ge(Z, x, zero) : Z3_mk_le(Z, x, zero), i & 2 ? Z3_mk_ge(Z, y, zero) : Z3_mk_le(Z, y, zero));
      asserta(Z3_mk_implies(Z, c, (i == 0 || i == 3) ? Z3_mk_ge(Z, r, zero) : Z3_mk_le(Z, r, zero)));
    }
}
static Z3_ast zamono(uint32_t m, int depth = 0);
static void monoLemmas(uint32_t m, bool first, int depth)
{
  Z3_ast r = absMono[m].r;
  auto v = monos[m];
  Iv im = imono(m);
  absMono[m].used = im;
  aBounds(r, im);
  if (v.size() == 2 && v[0] == v[1]) { // square
    Z3_ast x = zta(box(v[0]));
    Iv i = rnd_out(ival(box(v[0])));
    if (first) asserta(Z3_mk_ge(Z, r, zreal(0)));
    if (std::isfinite(i.lo) && std::isfinite(i.hi)) {
      double ps[3] = { i.lo, i.hi, rdn(0.5 * (i.lo + i.hi)) };
      for (double p : ps) asserta(Z3_mk_ge(Z, r, S2(K2(2 * p, x), KK(p, p))));
      asserta(Z3_mk_le(Z, r, S2(A2(K2(i.lo, x), K2(i.hi, x)), KK(i.lo, i.hi))));
    }
    return;
  }
  // x * rest
  for (size_t i = v.size(); i-- > 0;) {
    if (i + 1 < v.size() && (v.size() > 3 || v[i] == v[i + 1])) continue;
    auto rest = v;
    rest.erase(rest.begin() + i);
    uint32_t rm = mono(rest);
    aProduct(r, zta(box(v[i])), ival(box(v[i])), zamono(rm, depth + 1), imono(rm), first);
    if (v.size() == 2) break;
  }
  if (!first || depth > 0) return;
  // x * (1/D): sum of c_i*(t_i*x/D) is x;  x*sqrt(a)^2 is x*a
  for (size_t i = 0; i < v.size(); i++) {
    if (i && v[i] == v[i - 1]) { // repeated atom
      if (N[v[i]].op == SQRT && ival(N[v[i]].a).lo >= 0) {
        auto rest = v;
        rest.erase(rest.begin() + i - 1, rest.begin() + i + 1);
        Poly a;
        toPoly(N[v[i]].a, a);
        if (a.t.size() > 8) continue;
        std::vector<Z3_ast> sum{ zreal(0), zreal(0) };
        for (auto &t : a.t) { auto w = rest; w.insert(w.end(), monos[t.first].begin(), monos[t.first].end()); uint32_t q = mono(w); sum.push_back(q ? K2((double)t.second, zamono(q, depth + 1)) : zreal((double)t.second)); }
        asserta(Z3_mk_eq(Z, r, Z3_mk_add(Z, sum.size(), sum.data())));
      }
      continue;
    }
    if (N[v[i]].op == INV && boxed(N[v[i]].a) && v.size() <= 4) {
      Iv d = ival(N[v[i]].a);
      if (!(d.lo > 0 || d.hi < 0)) continue;
      Poly a;
      toPoly(N[v[i]].a, a);
      if (a.t.size() > 6) continue;
      auto rest = v;
      rest.erase(rest.begin() + i);
      std::vector<Z3_ast> sum{ zreal(0), zreal(0) };
      for (auto &t : a.t) { auto w = v; w.insert(w.end(), monos[t.first].begin(), monos[t.first].end()); uint32_t q = mono(w); sum.push_back(K2((double)t.second, zamono(q, depth + 1))); }
      uint32_t rm = mono(rest);
      asserta(Z3_mk_eq(Z, rm ? zamono(rm, depth + 1) : zreal(1), Z3_mk_add(Z, sum.size(), sum.data())));
    }
  }
}
static Z3_ast zamono(uint32_t m, int depth)
{
  if (m == 0) return zreal(1);
  if (monos[m].size() == 1) return zta(box(monos[m][0]));
  auto it = absMono.find(m);
  if (it != absMono.end()) return it->second.r;
  char nm[64];
  snprintf(nm, 64, "m!%u", m);
  Z3_ast r = zvar(nm, RS);
  absMono[m] = { r, { -INFINITY, INFINITY }, true };
  absList.push_back(m);
  monoLemmas(m, true, depth);
  return r;
}
static uint32_t absVer = 0;
static void refreshAbs() // tighter bounds learnt since: tighter envelopes
{
  if (absVer == iver) return;
  absVer = iver;
  for (size_t i = 0; i < absList.size(); i++) {
    uint32_t m = absList[i];
    Iv u = absMono[m].used, n = imono(m);
    double wu = u.hi - u.lo, wn = n.hi - n.lo;
    if (wn < 0.8 * wu || (std::isinf(wu) && !std::isinf(wn)) || (n.lo >= 0 && u.lo < 0) || (n.hi <= 0 && u.hi > 0)) monoLemmas(m, false, 1);
  }
}
static Z3_ast zrel(int p, Z3_ast x, Z3_ast y);
static Z3_ast zta(double v)
{
  if (!boxed(v)) return zreal(v);
  uint32_t k = id(v);
  if (N[k].za) return N[k].za;
  Node n = N[k];
  Z3_ast r = nullptr, zero = zreal(0), one = zreal(1);
  char nm[64];
  auto fresh = [&](const char *p) { snprintf(nm, 64, "%s!%u", p, k); r = zvar(nm, RS); N[k].za = r; };
  auto monotone = [&](int key) {
    static std::map<int, std::vector<uint32_t>> seen;
    for (auto o : seen[key])
      asserta(Z3_mk_iff(Z, Z3_mk_lt(Z, zta(N[o].a), zta(n.a)), Z3_mk_lt(Z, N[o].za, r)));
    seen[key].push_back(k);
  };
  switch (n.op) {
  case VAR: r = zt(v); break;
  case POLY: {
    std::vector<Z3_ast> s{ zero, zero };
    for (auto &t : n.p->t) s.push_back(t.first == 0 ? zreal((double)t.second) : K2((double)t.second, zamono(t.first)));
    r = Z3_mk_add(Z, s.size(), s.data());
    break;
  }
  case INV: {
    Z3_ast d = zta(n.a);
    fresh("inv");
    Iv i = rnd_out(ival(n.a));
    if (i.lo > 0 || i.hi < 0) {
      aBounds(r, ival(v));
      bool pos = i.lo > 0;
      double l = pos ? i.lo : -i.hi, h = pos ? i.hi : -i.lo; // magnitude range
      Z3_ast x = pos ? d : Z3_mk_unary_minus(Z, d), y = pos ? r : Z3_mk_unary_minus(Z, r);
      double ps[4] = { l, std::isfinite(h) ? h : 2 * l, rdn(std::isfinite(h) ? std::sqrt(l) * std::sqrt(h) : 4 * l), rdn(std::isfinite(h) ? 0.5 * (l + h) : 8 * l) };
      for (double p : ps)
        if (p > 0) asserta(Z3_mk_ge(Z, z2(Z3_mk_mul, KK(p, p), y), S2(zreal(2 * p), x)));
      if (std::isfinite(h)) asserta(Z3_mk_le(Z, z2(Z3_mk_mul, KK(l, h), y), S2(A2(zreal(l), zreal(h)), x)));
    } else {
      asserta(Z3_mk_implies(Z, Z3_mk_gt(Z, d, zero), Z3_mk_gt(Z, r, zero)));
      asserta(Z3_mk_implies(Z, Z3_mk_lt(Z, d, zero), Z3_mk_lt(Z, r, zero)));
    }
    break;
  }
  case ABS: { Z3_ast a = zta(n.a); r = Z3_mk_ite(Z, Z3_mk_ge(Z, a, zero), a, Z3_mk_unary_minus(Z, a)); break; }
  case SQRT: {
    Z3_ast a = zta(n.a);
    fresh("sqrt");
    asserta(Z3_mk_ge(Z, r, zero));
    asserta(z2(Z3_mk_or, Z3_mk_lt(Z, a, zero), Z3_mk_iff(Z, Z3_mk_gt(Z, a, zero), Z3_mk_gt(Z, r, zero))));
    aBounds(r, ival(v));
    Iv i = ival(n.a);
    if (i.lo >= 0) {
      double sl = rdn(std::sqrt(i.lo)), sh = rup(std::sqrt(i.hi));
      if (std::isfinite(sh)) { // (r-sl)(r-sh) <= 0 : r*(sl+sh) >= a + sl*sh
        asserta(Z3_mk_ge(Z, z2(Z3_mk_mul, A2(zreal(sl), zreal(sh)), r), A2(a, KK(sl, sh))));
        double ps[3] = { sl, sh, rdn(0.5 * (sl + sh)) };
        for (double p : ps) // (r-p)^2 >= 0 : 2pr <= a + p^2
          asserta(Z3_mk_le(Z, K2(2 * p, r), A2(a, KK(p, p))));
      }
      monotone(SQRT);
    }
    break;
  }
  case EXP: {
    Z3_ast a = zta(n.a);
    fresh("exp");
    asserta(Z3_mk_gt(Z, r, zero));
    asserta(Z3_mk_ge(Z, r, A2(one, a)));
    asserta(Z3_mk_iff(Z, Z3_mk_gt(Z, a, zero), Z3_mk_gt(Z, r, one)));
    asserta(Z3_mk_iff(Z, Z3_mk_lt(Z, a, zero), Z3_mk_lt(Z, r, one)));
    aBounds(r, ival(v));
    monotone(EXP);
    break;
  }
  case LOG: {
    Z3_ast a = zta(n.a);
    fresh("log");
    asserta(z2(Z3_mk_or, Z3_mk_le(Z, a, zero), Z3_mk_le(Z, r, S2(a, one))));
    asserta(z2(Z3_mk_or, Z3_mk_le(Z, a, zero), Z3_mk_iff(Z, Z3_mk_gt(Z, a, one), Z3_mk_gt(Z, r, zero))));
    aBounds(r, ival(v));
    if (ival(n.a).lo > 0) monotone(LOG);
    break;
  }
  case SINH: case ASINH: case TANH: case CBRT: case EXPM1: case LOG1P: {
    Z3_ast a = zta(n.a);
    fresh("f");
    asserta(Z3_mk_iff(Z, Z3_mk_gt(Z, a, zero), Z3_mk_gt(Z, r, zero)));
    asserta(Z3_mk_iff(Z, Z3_mk_lt(Z, a, zero), Z3_mk_lt(Z, r, zero)));
    if (n.op == ASINH || n.op == TANH || n.op == SINH) {
      Z3_ast p = Z3_mk_ge(Z, a, zero);
      bool small = n.op != SINH;
      asserta(Z3_mk_implies(Z, p, small ? Z3_mk_le(Z, r, a) : Z3_mk_ge(Z, r, a)));
      asserta(Z3_mk_implies(Z, Z3_mk_not(Z, p), small ? Z3_mk_ge(Z, r, a) : Z3_mk_le(Z, r, a)));
      static std::map<int, std::vector<uint32_t>> oddSeen;
      for (auto o : oddSeen[n.op]) asserta(Z3_mk_implies(Z, Z3_mk_eq(Z, Z3_mk_unary_minus(Z, zta(N[o].a)), a), Z3_mk_eq(Z, r, Z3_mk_unary_minus(Z, N[o].za))));
      oddSeen[n.op].push_back(k);
    }
    aBounds(r, ival(v));
    monotone(n.op);
    break;
  }
  case POW: {
    Z3_ast a = zta(n.a);
    fresh("pow");
    asserta(z2(Z3_mk_or, Z3_mk_le(Z, a, zero), Z3_mk_gt(Z, r, zero)));
    aBounds(r, ival(v));
    break;
  }
  case FLOOR: { Z3_ast a = zta(n.a); fresh("fl"); asserta(Z3_mk_le(Z, r, a)); asserta(Z3_mk_lt(Z, a, A2(r, one))); aBounds(r, ival(v)); break; }
  case CEIL: { Z3_ast a = zta(n.a); fresh("ce"); asserta(Z3_mk_ge(Z, r, a)); asserta(Z3_mk_gt(Z, a, S2(r, one))); aBounds(r, ival(v)); break; }
  case ITE: r = (!boxed(n.a) && !boxed(n.b)) ? zta(n.c) : Z3_mk_ite(Z, zrel(n.pred, zta(n.a), zta(n.b)), zta(n.c), zta(n.d)); break;
  case FMUL: { Z3_ast a = zta(n.a), b = zta(n.b); fresh("pr"); aBounds(r, ival(v)); aProduct(r, a, ival(n.a), b, ival(n.b), true); break; }
  case MINI: { Z3_ast a = zta(n.a), b = zta(n.b); r = Z3_mk_ite(Z, Z3_mk_le(Z, a, b), a, b); break; }
  case MAXI: { Z3_ast a = zta(n.a), b = zta(n.b); r = Z3_mk_ite(Z, Z3_mk_ge(Z, a, b), a, b); break; }
  default: fresh("au"); aBounds(r, ival(v)); break;
  }
  Z3_inc_ref(Z, r);
  N[k].za = r;
  return r;
}

// comparison predicates: llvm FCMP codes; in real mode the unordered variants coincide with the ordered ones
enum { FALSE_ = 0, OEQ, OGT, OGE, OLT, OLE, ONE_, ORD, UNO, UEQ, UGT, UGE, ULT, ULE, UNE, TRUE_ };
static bool evalc(int p, double a, double b)
{
  bool u = std::isnan(a) || std::isnan(b);
  switch (p) {
  case FALSE_: return false;
  case OEQ: return !u && a == b;
  case OGT: return !u && a > b;
  case OGE: return !u && a >= b;
  case OLT: return !u && a < b;
  case OLE: return !u && a <= b;
  case ONE_: return !u && a != b;
  case ORD: return !u;
  case UNO: return u;
  case UEQ: return u || a == b;
  case UGT: return u || a > b;
  case UGE: return u || a >= b;
  case ULT: return u || a < b;
  case ULE: return u || a <= b;
  case UNE: return u || a != b;
  default: return true;
  }
}
static Z3_ast zrel(int p, Z3_ast x, Z3_ast y)
{
  switch (p) {
  case OEQ: case UEQ: return Z3_mk_eq(Z, x, y);
  case OGT: case UGT: return Z3_mk_gt(Z, x, y);
  case OGE: case UGE: return Z3_mk_ge(Z, x, y);
  case OLT: case ULT: return Z3_mk_lt(Z, x, y);
  case OLE: case ULE: return Z3_mk_le(Z, x, y);
  case ONE_: case UNE: return Z3_mk_not(Z, Z3_mk_eq(Z, x, y));
  case FALSE_: case UNO: return Z3_mk_false(Z);
  default: return Z3_mk_true(Z);
  }
}
static Z3_ast zcmpz(int p, double a, double b)
{
  Z3_ast x = zt(a), y = zt(b);
  if (fpmode) {
    Z3_ast nan = z2(Z3_mk_or, Z3_mk_fpa_is_nan(Z, x), Z3_mk_fpa_is_nan(Z, y));
    Z3_ast base = nullptr;
    switch (p) {
    case OEQ: case UEQ: base = Z3_mk_fpa_eq(Z, x, y); break;
    case OGT: case UGT: base = Z3_mk_fpa_gt(Z, x, y); break;
    case OGE: case UGE: base = Z3_mk_fpa_geq(Z, x, y); break;
    case OLT: case ULT: base = Z3_mk_fpa_lt(Z, x, y); break;
    case OLE: case ULE: base = Z3_mk_fpa_leq(Z, x, y); break;
    case UNE: return Z3_mk_not(Z, Z3_mk_fpa_eq(Z, x, y));
    case ONE_: return z2(Z3_mk_and, Z3_mk_not(Z, nan), Z3_mk_not(Z, Z3_mk_fpa_eq(Z, x, y)));
    case ORD: return Z3_mk_not(Z, nan);
    case UNO: return nan;
    case FALSE_: return Z3_mk_false(Z);
    default: return Z3_mk_true(Z);
    }
    return p >= UEQ ? z2(Z3_mk_or, nan, base) : base;
  }
  return zrel(p, x, y);
}
// z3's own timeout option starts a thread; a timer signal interrupts the query instead
static int g_alarms = 0;
static void onalarm(int)
{
  if (++g_alarms < 16) { Z3_interrupt(Z); return; }
  // the solver does not answer to the interrupt (arithmetic on huge numbers): give this path up
  if (S) S->trunc++;
  const char t[] = "{\"truncated\":\"solver\"}\n";
  (void)!write(g_out_fd, t, sizeof t - 1);
  while (waitpid(-1, nullptr, 0) > 0 || errno == EINTR) ;
  if (g_have_token) sem_post(&S->slots);
  _exit(0);
}
static void timer(double sec)
{
  itimerval t{};
  g_alarms = 0;
  t.it_value.tv_sec = (long)sec;
  t.it_value.tv_usec = (long)((sec - (long)sec) * 1e6);
  if (sec > 0) { t.it_interval.tv_usec = 500000; }
  setitimer(ITIMER_REAL, &t, nullptr);
}
static void setrl(Z3_solver s, unsigned rl)
{
  Z3_params p = Z3_mk_params(Z);
  Z3_params_inc_ref(Z, p);
  Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "rlimit"), rl);
  Z3_solver_set_params(Z, s, p);
  Z3_params_dec_ref(Z, p);
}
static double num(Z3_ast a)
{
  if (Z3_is_algebraic_number(Z, a)) return strtod(Z3_get_numeral_decimal_string(Z, a, 30), nullptr);
  if (fpmode) {
    Z3_ast r = Z3_simplify(Z, Z3_mk_fpa_to_ieee_bv(Z, a));
    uint64_t u = 0;
    if (Z3_get_numeral_uint64(Z, r, &u)) return dbl(u);
    return NAN;
  }
  // exact rational -> nearest double
  const char *s = Z3_get_numeral_string(Z, a);
  std::string t(s);
  size_t sl = t.find('/');
  if (sl == std::string::npos) return strtod(s, nullptr);
  return (double)(strtold(t.substr(0, sl).c_str(), nullptr) / strtold(t.substr(sl + 1).c_str(), nullptr));
}
static std::vector<double> getModel(Z3_model m)
{
  std::vector<double> r;
  for (auto &i : inputs) {
    if (!i.node) { r.push_back(i.val); continue; }
    Z3_ast o = nullptr;
    double v = N[i.node].mv;
    if (Z3_model_eval(Z, m, zt(box(i.node)), true, &o) && o) v = num(o);
    if (!std::isfinite(v)) { const char *s = Z3_get_numeral_decimal_string(Z, o, 20); if (s) v = strtod(s, nullptr); }
    r.push_back(std::min(std::max(v, i.lo), i.hi));
  }
  return r;
}
static void useModel(const std::vector<double> &m)
{
  for (size_t k = 0; k < inputs.size() && k < m.size(); k++)
    if (inputs[k].node) N[inputs[k].node].mv = m[k];
  mver++;
  model_ok = true;
}
static Z3_lbool query(Z3_ast extra, unsigned rl, std::vector<double> *model, Z3_solver s = nullptr)
{
  if (!s) s = SOL;
  double t0 = now(), to = rl >= g_rl_ob ? g_to_ob : g_to_branch;
  if (g_deadline > 0) to = std::max(0.2, std::min(to, g_deadline - t0 + 1));
  setrl(s, rl);
  Z3_solver_push(Z, s);
  Z3_solver_assert(Z, s, extra);
  timer(to);
  Z3_lbool r = Z3_solver_check(Z, s);
  timer(0);
  if (r == Z3_L_TRUE && model) {
    Z3_model m = Z3_solver_get_model(Z, s);
    if (m) { Z3_model_inc_ref(Z, m); *model = getModel(m); Z3_model_dec_ref(Z, m); }
    else r = Z3_L_UNDEF;
  }
  Z3_solver_pop(Z, s, 1);
  addt(now() - t0);
  return r;
}
// ---- constraints as clauses over (difference, predicate, constant); raw terms in floating-point mode
struct Lit { int p; double d, c; };
typedef std::vector<Lit> Clause;
typedef std::vector<Clause> Cnf;
static Cnf g_cons; // what this path assumes (branches, assumptions, integer cells)
static Z3_ast zcnf(const Cnf &f, bool abs)
{
  std::vector<Z3_ast> cs{ Z3_mk_true(Z), Z3_mk_true(Z) };
  for (auto &c : f) {
    std::vector<Z3_ast> ls;
    for (auto &l : c) ls.push_back(zrel(l.p, abs ? zta(l.d) : zt(l.d), zreal(l.c)));
    cs.push_back(ls.size() == 1 ? ls[0] : Z3_mk_or(Z, ls.size(), ls.data()));
  }
  return Z3_mk_and(Z, cs.size(), cs.data());
}
static double evmag(double d)
{
  if (!boxed(d)) return std::fabs(d);
  Node &n = N[id(d)];
  if (n.op != POLY) return std::fabs(ev(d));
  Poly *q = n.p;
  double s = 0;
  for (auto &t : q->t) { double x = (double)t.second; for (auto m : monos[t.first]) x *= ev(box(m)); s += std::fabs(x); }
  return s;
}
static int holds(const Lit &l) // 1 holds, 0 too close to tell, -1 does not hold
{
  double x = ev(l.d) - l.c;
  if (!std::isfinite(x)) return -1;
  double tol = 1e-12 * (evmag(l.d) + std::fabs(l.c)) + 1e-300;
  if (l.p == OEQ || l.p == UEQ) return std::fabs(x) <= tol ? 1 : -1;
  if (std::fabs(x) <= tol) return 0;
  return evalc(l.p, x, 0) ? 1 : -1;
}
static bool holds(const Cnf &f)
{
  for (auto &c : f) {
    bool ok = false;
    for (auto &l : c) if (holds(l) > 0) { ok = true; break; }
    if (!ok) return false;
  }
  return true;
}
static bool rawPath = false; // something on this path is not in g_cons
static std::vector<double> curModel();
static uint64_t g_rng;
static double rnd01() { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; return (double)(g_rng >> 11) / 9007199254740992.0; }
static void setVals(const std::vector<double> &m)
{
  for (size_t k = 0; k < inputs.size() && k < m.size(); k++)
    if (inputs[k].node) N[inputs[k].node].mv = m[k];
  mver++;
}
// a point that satisfies the path and f, found by evaluating candidates exactly (near a model of the abstraction)
static bool search(const Cnf &f, const std::vector<double> &cand, std::vector<double> *out, int tries)
{
  if (rawPath) return false;
  std::vector<double> cur = curModel();
  bool got = false, base = model_ok;
  auto tryp = [&](const std::vector<double> &m) {
    setVals(m);
    if (holds(f) && holds(g_cons)) { if (out) *out = m; got = true; return true; }
    return false;
  };
  g_rng = 0x9E3779B97F4A7C15ull ^ (N.size() * 2654435761ull + g_cons.size());
  double t0 = now();
  auto go = [&] {
    if (!cand.empty()) {
      if (tryp(cand)) return;
      if (base)
        for (double t : { 0.9, 0.7, 0.5, 0.3, 0.15, 0.05 }) {
          auto m = cur;
          for (size_t i = 0; i < m.size(); i++) m[i] = cur[i] + t * (cand[i] - cur[i]);
          if (tryp(m)) return;
        }
    }
    size_t n = 0;
    for (auto &i : inputs) n += i.node != 0;
    if (!n) return;
    for (int it = 0; it < tries && now() - t0 < 0.5; it++) {
      auto m = (it % 3 == 0 && !cand.empty()) ? cand : cur;
      double pr = it % 4 == 1 ? 1.0 : std::max(1.2 / n, 0.3);
      double width = it % 5 == 0 ? 0.02 : it % 5 == 1 ? 0.2 : 1.0;
      for (size_t i = 0; i < inputs.size(); i++) {
        if (!inputs[i].node || rnd01() > pr) continue;
        double lo = N[inputs[i].node].lo, hi = N[inputs[i].node].hi;
        if (!std::isfinite(lo)) lo = std::min(m[i] - 10, -10.0);
        if (!std::isfinite(hi)) hi = std::max(m[i] + 10, 10.0);
        double u = rnd01();
        if (width < 1) m[i] = std::min(hi, std::max(lo, m[i] + (u - 0.5) * width * (hi - lo)));
        else m[i] = u < 0.06 ? lo : u > 0.94 ? hi : lo + (hi - lo) * rnd01();
      }
      if (tryp(m)) return;
      if (base && holds(f)) // the right side, off the path: walk back towards the path's own point
        for (double t : { 0.5, 0.25, 0.12, 0.06, 0.03, 0.01 }) {
          auto q = m;
          for (size_t i = 0; i < q.size(); i++) q[i] = cur[i] + t * (m[i] - cur[i]);
          if (tryp(q)) return;
        }
    }
  };
  go();
  setVals(cur);
  return got;
}
// is path and f satisfiable?  staged: linear abstraction (unsat is final), evaluation of candidates (sat is final),
// then the exact query
static bool g_trace = getenv("SYM_TRACE") != nullptr;
static Z3_lbool ask(const Cnf &f, unsigned rl, std::vector<double> *model)
{
  std::vector<double> cand, m;
  double t = now();
  auto tr = [&](const char *w, int r) { if (g_trace) fprintf(stderr, "[%d] %s=%d %.3f N=%zu monos=%zu\n", getpid(), w, r, now() - t, N.size(), absList.size()); t = now(); };
  auto found = [&] { S->q_search_sat++; if (model) *model = m; return Z3_L_TRUE; };
  bool q = search(f, cand, &m, 40);
  tr("search", q);
  if (q) return found();
  Z3_ast e = zcnf(f, false);
  Z3_inc_ref(Z, e);
  S->q_exact++;
  Z3_lbool r = query(e, 100000, model);
  tr("exact-short", r);
  if (r != Z3_L_UNDEF) return r;
  refreshAbs();
  Z3_ast a = zcnf(f, true);
  Z3_inc_ref(Z, a);
  r = query(a, rl >= g_rl_ob ? 3000000 : 500000, &cand, SOLA);
  tr("abs", r);
  if (r == Z3_L_FALSE) { S->q_abs_unsat++; return r; }
  q = search(f, r == Z3_L_TRUE ? cand : std::vector<double>(), &m, 160);
  tr("search2", q);
  if (q) return found();
  S->q_exact++;
  r = query(e, rl, model);
  tr("exact", r);
  return r;
}
static void assertc(const Cnf &f) // the path continues under f
{
  assertz(zcnf(f, false));
  Z3_ast a = zcnf(f, true);
  Z3_inc_ref(Z, a);
  asserta(a);
  g_cons.insert(g_cons.end(), f.begin(), f.end());
}
// portfolio for what the incremental solver leaves open: external z3 and cvc5 with a time limit
static std::string smt2(Z3_ast extra)
{
  Z3_solver s = Z3_mk_simple_solver(Z);
  Z3_solver_inc_ref(Z, s);
  for (auto a : pathc) Z3_solver_assert(Z, s, a);
  Z3_solver_assert(Z, s, extra);
  std::string r = Z3_solver_to_string(Z, s);
  Z3_solver_dec_ref(Z, s);
  return r;
}
static Z3_lbool external(Z3_ast extra, std::vector<double> *model, double timeout)
{
  S->ext_calls++;
  double t0 = now();
  std::string q = smt2(extra);
  char base[600];
  snprintf(base, 600, "%s/q%d_%ld.smt2", g_scratch.c_str(), getpid(), (long)S->ext_calls.load());
  FILE *f = fopen(base, "w");
  if (!f) return Z3_L_UNDEF;
  fprintf(f, "(set-option :produce-models true)\n%s%s\n(check-sat)\n", fpmode ? "(set-logic QF_FP)\n" : "", q.c_str());
  std::string names;
  for (auto &i : inputs) if (i.node) names += std::string(" |") + i.name + "|";
  fclose(f);
  const char *cmds[] = { "z3-new %s", "z3-new tactic.default_tactic=qfnra-nlsat %s", "cvc5 --nl-cov %s", "cvc5 --nl-ext-tplanes %s" };
  const char *cmdf[] = { "z3-new %s", "cvc5 --fp-exp %s", nullptr, nullptr };
  Z3_lbool res = Z3_L_UNDEF;
  pid_t pids[4] = {};
  int fds[4] = { -1, -1, -1, -1 };
  for (int i = 0; i < 4; i++) {
    const char *c = fpmode ? cmdf[i] : cmds[i];
    if (!c) continue;
    int p[2];
    if (pipe(p)) continue;
    pid_t pid = fork();
    if (pid == 0) {
      setpgid(0, 0);
      dup2(p[1], 1);
      dup2(p[1], 2);
      close(p[0]);
      close(p[1]);
      char cmd[1200], tmp[1100];
      snprintf(tmp, 1100, c, base);
      snprintf(cmd, 1200, "exec timeout %d %s 2>/dev/null", (int)timeout + 1, tmp);
      execl("/bin/sh", "sh", "-c", cmd, (char *)nullptr);
      _exit(127);
    }
    close(p[1]);
    pids[i] = pid;
    fds[i] = p[0];
    fcntl(p[0], F_SETFL, O_NONBLOCK);
  }
  std::string outs[4];
  int live = 0;
  for (int i = 0; i < 4; i++) live += fds[i] >= 0;
  while (live && res == Z3_L_UNDEF && now() - t0 < timeout + 2) {
    bool any = false;
    for (int i = 0; i < 4; i++) {
      if (fds[i] < 0) continue;
      char b[4096];
      ssize_t k = read(fds[i], b, 4096);
      if (k > 0) { outs[i].append(b, k); any = true; }
      else if (k == 0) {
        close(fds[i]); fds[i] = -1; live--; any = true;
        if (outs[i].find("(error") != std::string::npos) continue;
        if (outs[i].compare(0, 5, "unsat") == 0) res = Z3_L_FALSE;
        else if (outs[i].compare(0, 3, "sat") == 0) res = Z3_L_TRUE;
      }
    }
    if (!any) usleep(3000);
  }
  for (int i = 0; i < 4; i++) {
    if (pids[i] > 0) { kill(-pids[i], SIGKILL); kill(pids[i], SIGKILL); waitpid(pids[i], nullptr, 0); }
    if (fds[i] >= 0) close(fds[i]);
  }
  if (res == Z3_L_TRUE && model) { // ask once more for values
    FILE *g = fopen(base, "a");
    fprintf(g, "(get-value (%s))\n", names.c_str());
    fclose(g);
    bool got = false;
    for (int i = 0; i < 4 && !got; i++) {
      const char *c = fpmode ? cmdf[i] : cmds[i];
      if (!c) continue;
      char cmd[1300], tmp[1100];
      snprintf(tmp, 1100, c, base);
      snprintf(cmd, 1300, "timeout %d %s 2>/dev/null", (int)timeout + 1, tmp);
      FILE *p = popen(cmd, "r");
      std::string o;
      char b[4096];
      size_t k;
      while ((k = fread(b, 1, 4096, p)) > 0) o.append(b, k);
      pclose(p);
      if (o.compare(0, 3, "sat")) continue;
      // parse through z3: assert the values
      std::vector<double> m;
      for (auto &in : inputs) {
        if (!in.node) { m.push_back(in.val); continue; }
        std::string key1 = std::string("(") + in.name + " ", key2 = std::string("(|") + in.name + "| ";
        size_t at = o.find(key1), len = key1.size();
        if (at == std::string::npos) { at = o.find(key2); len = key2.size(); }
        double v = N[in.node].mv;
        if (at != std::string::npos) {
          std::string e = o.substr(at + len, 400);
          // forms: 1.5  (/ a b)  (- x)  (- (/ a b))  (/ (- a) b) ; fp literal (fp #b.. #b.. #b..)
          if (e.compare(0, 4, "(fp ") == 0) {
            uint64_t u = 0; int nb = 0;
            for (size_t q2 = 4; q2 < e.size() && nb < 64; q2++) {
              if (e[q2] == '#' && e[q2 + 1] == 'b') { q2 += 2; while (e[q2] == '0' || e[q2] == '1') { u = (u << 1) | (e[q2] - '0'); nb++; q2++; } q2--; }
              else if (e[q2] == '#' && e[q2 + 1] == 'x') { q2 += 2; while (isxdigit(e[q2])) { u = (u << 4) | (uint64_t)(isdigit(e[q2]) ? e[q2] - '0' : (tolower(e[q2]) - 'a' + 10)); nb += 4; q2++; } q2--; }
            }
            v = dbl(u);
          } else {
            bool neg = false;
            std::vector<LD> nums;
            for (size_t q2 = 0; q2 < e.size(); q2++) {
              if (e[q2] == '-') neg = !neg;
              else if (isdigit(e[q2])) { char *endp; nums.push_back(strtold(e.c_str() + q2, &endp)); q2 = endp - e.c_str() - 1; }
              else if (e[q2] == ')' ) { int dep = 0; for (size_t w = 0; w <= q2; w++) dep += e[w] == '(' ? 1 : e[w] == ')' ? -1 : 0; if (dep <= 0) break; }
              else if (e[q2] == '\n') break;
            }
            if (nums.size() == 1) v = (double)nums[0];
            else if (nums.size() >= 2) v = (double)(nums[0] / nums[1]);
            if (neg) v = -v;
          }
        }
        m.push_back(std::min(std::max(v, in.lo), in.hi));
      }
      *model = m;
      got = true;
    }
    if (!got) res = Z3_L_UNDEF;
  }
  unlink(base);
  addt(now() - t0);
  return res;
}

// ---------------------------------------------------------------------------------------------------------- path end
static void writeInputs(const std::vector<double> &m, std::string &s)
{
  for (size_t k = 0; k < inputs.size(); k++) {
    char b[300];
    snprintf(b, 300, "%s[\"%s\",\"%a\"]", k ? "," : "", inputs[k].name, k < m.size() ? m[k] : inputs[k].val);
    s += b;
  }
}
static std::vector<double> curModel()
{
  std::vector<double> m;
  for (auto &i : inputs) m.push_back(i.node ? N[i.node].mv : i.val);
  return m;
}
static std::map<std::string, int> g_labels; // obligations met on this path
static std::string g_obs;                   // observed values under the model (filled at the end)
struct Ob { char k; const char *l; double a, b; };
static std::vector<Ob> g_obl;
static bool g_ending = false;
static bool onBoundary();
static Cnf margin(double eps);
static bool off(const Cnf &f, unsigned rl, std::vector<double> *m) { return search(f, {}, m, 60) || ask(f, rl, m) == Z3_L_TRUE; }

static void finish(const char *how)
{
  if (g_ending) _exit(0);
  g_ending = true;
  long mx = S->maxnodes.load();
  while ((long)N.size() > mx && !S->maxnodes.compare_exchange_weak(mx, (long)N.size())) ;
  if (strcmp(how, "killed") == 0) S->killed++;
  else {
    S->paths++;
    long ord = S->order++;
    if (!model_ok) { // find a witness of this path
      std::vector<double> m;
      Z3_lbool q = fpmode ? query(Z3_mk_true(Z), g_rl_branch, &m) : ask({}, g_rl_branch, &m);
      if (q == Z3_L_TRUE) useModel(m);
      else if (q == Z3_L_FALSE) { S->infeasible++; how = "infeasible"; }
    }
    if (model_ok && !fpmode && !rawPath && !holds(g_cons)) { // the solver's model rests on an uninterpreted function
      std::vector<double> m;
      if (ord < 400 && search({}, curModel(), &m, 300)) useModel(m);
      else model_ok = false;
    }
    bool edge = !fpmode && model_ok && onBoundary();
    if (edge && ord < 400) {
      std::vector<double> m;
      if (off(margin(1e-6), g_rl_branch / 8, &m)) { useModel(m); edge = false; }
    }
    std::string s = "{\"path\":\"" + std::string(how) + "\",\"n\":" + std::to_string(ord) + ",\"model_ok\":" + (model_ok ? "true" : "false") + ",\"edge\":" + (edge ? "true" : "false") + ",\"inputs\":[";
    if (ord < 400) writeInputs(curModel(), s);
    s += "],\"labels\":{";
    bool first = true;
    for (auto &l : g_labels) { s += std::string(first ? "" : ",") + "\"" + esc(l.first) + "\":" + std::to_string(l.second); first = false; }
    s += "}";
    if (ord < 400 && model_ok) {
      s += ",\"obs\":[";
      int c = 0;
      for (auto &o : g_obl) {
        if (c >= 60) break;
        char b[400];
        double x = ev(o.a), y = ev(o.b);
        snprintf(b, 400, "%s[\"%c\",\"%s\",\"%.17g\",\"%.17g\"]", c ? "," : "", o.k, esc(o.l).substr(0, 200).c_str(), x, y);
        s += b;
        c++;
      }
      s += "]";
    }
    s += "}";
    emit(s);
  }
  while (waitpid(-1, nullptr, 0) > 0 || errno == EINTR) ;
  if (g_have_token) sem_post(&S->slots);
  _exit(0);
}
static void violation(const char *label, const char *kind, const std::vector<double> &m, bool end)
{
  long k = S->viol++;
  if (k < g_max_viol * 6) { // edge: the counterexample lies within rounding distance of a branch boundary
    bool edge = !fpmode && strcmp(kind, "crash") && onBoundary();
    std::string s = "{\"violation\":\"" + esc(label) + "\",\"kind\":\"" + kind + "\",\"edge\":" + (edge ? "true" : "false") + ",\"inputs\":[";
    writeInputs(m, s);
    s += "]}";
    emit(s);
  }
  if (end) finish("violation");
}
static void onsig(int sig)
{
  if (g_ending) _exit(0);
  const char *w = sig == SIGSEGV ? "crash SIGSEGV" : sig == SIGABRT ? "crash abort" : sig == SIGFPE ? "crash SIGFPE" : "crash";
  violation(w, "crash", curModel(), true);
}
static void budget()
{
  if ((long)N.size() > g_max_nodes || (g_deadline > 0 && now() > g_deadline)) { S->trunc++; emit("{\"truncated\":\"" + std::string((long)N.size() > g_max_nodes ? "nodes" : "deadline") + "\"}"); finish("truncated"); }
}

// ---------------------------------------------------------------------------------------------------------- branching
// learn bounds of a single atom from  c1*atom + c0 (rel) 0
static void learn(int p, double a, double b)
{
  if (fpmode) return;
  Poly x, y, d;
  toPoly(a, x);
  toPoly(b, y);
  addPoly(x, y, -1, d);
  LD c0 = 0, c1 = 0;
  uint32_t at = 0;
  for (auto &t : d.t) {
    if (t.first == 0) c0 = t.second;
    else if (monos[t.first].size() == 1 && !at) { at = monos[t.first][0]; c1 = t.second; }
    else return;
  }
  if (!at) return;
  double v = (double)(-c0 / c1);
  bool up_ = false, lo_ = false;
  switch (p) {
  case OEQ: case UEQ: up_ = lo_ = true; break;
  case OGT: case UGT: case OGE: case UGE: (c1 > 0 ? lo_ : up_) = true; break;
  case OLT: case ULT: case OLE: case ULE: (c1 > 0 ? up_ : lo_) = true; break;
  default: return;
  }
  double e = std::fabs(v) * 1e-15;
  ival(box(at));
  bool ch = false;
  if (lo_ && v - e > N[at].lo) { N[at].lo = v - e; ch = true; }
  if (up_ && v + e < N[at].hi) { N[at].hi = v + e; ch = true; }
  if (ch) iver++;
}
// the comparisons decided by the solver on this path: (predicate as taken, difference)
static std::vector<std::pair<int, double>> g_br;
static Cnf margin(double eps) // every taken inequality holds with some room (keeps replays off rounding boundaries)
{
  Cnf c;
  for (auto &b : g_br) {
    switch (b.first) {
    case OGT: case UGT: case OGE: case UGE: c.push_back({ { OGE, b.second, eps } }); break;
    case OLT: case ULT: case OLE: case ULE: c.push_back({ { OLE, b.second, -eps } }); break;
    case ONE_: case UNE: c.push_back({ { OGE, b.second, eps }, { OLE, b.second, -eps } }); break;
    default: break;
    }
  }
  return c;
}
static bool onBoundary()
{
  for (auto &b : g_br) {
    double x = ev(b.second);
    if (std::fabs(x) < 1e-9) return true;
  }
  return false;
}
static int negp(int p) { return p ^ 15; } // complement incl. unordered
static long g_depth = 0;

// what a process assumes when it takes one side of a decision: clauses, or a raw term in floating-point mode
struct Side { Cnf f; Z3_ast raw; };
// files: a harness that writes files asks for a working directory of its own for every path
static bool g_private = false;
static std::string g_base;
static std::string copyFiles() // before a fork: the directory of the child
{
  static int n = 0;
  if (!g_private) return "";
  const std::string d = g_base + "/c" + std::to_string(getpid()) + "_" + std::to_string(n++);
  std::error_code e;
  std::filesystem::create_directories(d, e);
  for (auto &f : std::filesystem::directory_iterator(".", e)) {
    const auto b = f.path().filename().string();
    if (f.is_symlink() || b == "results" || (f.is_regular_file() && b[0] != 'q' && b != "out.jsonl" && b != "stdout"))
      std::filesystem::copy(f.path(), d + "/" + b, std::filesystem::copy_options::recursive | std::filesystem::copy_options::copy_symlinks, e);
  }
  return d;
}
// in the child: its own working directory, and its own copies of the files that are open for writing
static bool enterFiles(const std::string &dir)
{
  if (!g_private) return true;
  std::error_code e;
  const std::string old = std::filesystem::current_path(e).string() + "/";
  if (chdir(dir.c_str())) return false;
  for (int fd = 3; fd < 256; fd++) {
    const int fl = fcntl(fd, F_GETFL);
    if (fl < 0) continue;
    const std::string f = std::filesystem::read_symlink("/proc/self/fd/" + std::to_string(fd), e).string();
    std::string mine = !e && f.rfind(old, 0) == 0 ? dir + "/" + f.substr(old.size()) : "";
    if (mine.empty() && !e && (fl & O_ACCMODE) == O_RDONLY) mine = f; // a position of its own
    if (mine.empty() || !std::filesystem::is_regular_file(mine, e)) continue; // a file of the engine
    const int n = open(mine.c_str(), (fl & (O_ACCMODE | O_APPEND)) | O_CLOEXEC);
    if (n < 0) return false;
    lseek(n, lseek(fd, 0, SEEK_CUR), SEEK_SET);
    dup2(n, fd);
    close(n);
  }
  return true;
}
static void take(const Side &s)
{
  if (s.raw) { assertz(s.raw); rawPath = true; }
  else assertc(s.f);
}
static Z3_lbool askSide(const Side &s, unsigned rl, std::vector<double> *m) { return s.raw ? query(s.raw, rl, m) : ask(s.f, rl, m); }
// returns true in the process that explores `yes`, false in the one that explores `no`
static bool forkOn(const Side &yes, const Side &no, bool side, const std::vector<double> &otherModel, bool otherModelOk)
{
  budget();
  if (S->paths.load() + S->killed.load() > g_max_paths) { S->trunc++; emit("{\"truncated\":\"paths\"}"); finish("truncated"); }
  S->forks++;
  bool tok = sem_trywait(&S->slots) == 0;
  fflush(stdout);
  const std::string dir = copyFiles();
  pid_t pid = fork();
  if (pid < 0) { S->trunc++; finish("truncated"); }
  if (pid == 0) {
    if (!enterFiles(dir)) finish("truncated");
    g_have_token = tok;
    take(side ? no : yes);
    if (otherModelOk) useModel(otherModel);
    else model_ok = false;
    return !side;
  }
  if (!tok) { int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ; }
  take(side ? yes : no);
  return side;
}
static bool decide(const Side &yes, const Side &no, bool guess, bool sure)
{
  g_depth++;
  budget();
  std::vector<double> m1, m2;
  if (!model_ok || !sure) {
    S->q_branch += 2;
    Z3_lbool a = askSide(yes, g_rl_branch, &m1), b = askSide(no, g_rl_branch, &m2);
    if (a == Z3_L_UNDEF || b == Z3_L_UNDEF) S->unknown_branch++;
    if (a == Z3_L_FALSE && b == Z3_L_FALSE) { S->infeasible++; finish("infeasible"); }
    if (a == Z3_L_FALSE) { if (b == Z3_L_TRUE) useModel(m2); return false; }
    if (b == Z3_L_FALSE) { if (a == Z3_L_TRUE) useModel(m1); return true; }
    bool r = forkOn(yes, no, true, m2, b == Z3_L_TRUE);
    if (r) { if (a == Z3_L_TRUE) useModel(m1); else model_ok = false; }
    return r;
  }
  S->q_branch++;
  Z3_lbool o = askSide(guess ? no : yes, g_rl_branch, &m2);
  if (o == Z3_L_FALSE) return guess;
  if (o == Z3_L_UNDEF) S->unknown_branch++;
  return forkOn(yes, no, guess, m2, o == Z3_L_TRUE);
}
static bool decideRaw(Z3_ast c, bool guess)
{
  Z3_ast n = Z3_mk_not(Z, c);
  Z3_inc_ref(Z, c);
  Z3_inc_ref(Z, n);
  return decide({ {}, c }, { {}, n }, guess, true);
}
static int intervalDecide(int p, double lo, double hi) // sign of the difference in [lo,hi]; -1 unknown
{
  switch (p) {
  case OGT: case UGT: return lo > 0 ? 1 : hi <= 0 ? 0 : -1;
  case OGE: case UGE: return lo >= 0 ? 1 : hi < 0 ? 0 : -1;
  case OLT: case ULT: return hi < 0 ? 1 : lo >= 0 ? 0 : -1;
  case OLE: case ULE: return hi <= 0 ? 1 : lo > 0 ? 0 : -1;
  case OEQ: case UEQ: return (lo > 0 || hi < 0) ? 0 : -1;
  case ONE_: case UNE: return (lo > 0 || hi < 0) ? 1 : -1;
  case FALSE_: case UNO: return 0;
  default: return 1;
  }
}
static double dsub(double a, double b)
{
  Poly x, y, d;
  toPoly(a, x);
  toPoly(b, y);
  addPoly(x, y, -1, d);
  return fromPoly(d);
}
extern "C" int __sym_fcmp(int p, double a, double b)
{
  if (!boxed(a) && !boxed(b)) return evalc(p, a, b);
  if (fpmode) {
    bool g = evalc(p, ev(a), ev(b));
    return decideRaw(zcmpz(p, a, b), g);
  }
  if (!boxed(a) && !std::isfinite(a)) { // comparison with inf / nan
    if (std::isnan(a)) return p >= UNO;
    return evalc(p, a, 0);
  }
  if (!boxed(b) && !std::isfinite(b)) {
    if (std::isnan(b)) return p >= UNO;
    return evalc(p, 0, b);
  }
  if (p == ORD || p == TRUE_) return 1;
  if (p == UNO || p == FALSE_) return 0;
  double d = dsub(a, b);
  if (!boxed(d)) return evalc(p, d, 0);
  Iv i = ival(d);
  int q = intervalDecide(p, i.lo, i.hi);
  if (q >= 0) { S->br_interval++; return q; }
  double x = ev(d), mag = std::fabs(ev(a)) + std::fabs(ev(b));
  bool g = evalc(p, x, 0);
  bool sure = std::isfinite(x) && std::fabs(x) > 1e-9 * mag + 1e-13;
  bool r = decide({ { { { p, d, 0 } } }, nullptr }, { { { { negp(p), d, 0 } } }, nullptr }, g, sure);
  g_br.push_back({ r ? p : negp(p), d });
  learn(r ? p : negp(p), d, 0);
  return r;
}

// ---------------------------------------------------------------------------------------------------------- arithmetic
#define BOTHC(a, b) (!boxed(a) && !boxed(b))
static bool special(double x) { return !boxed(x) && !std::isfinite(x); }
extern "C" double __sym_add(double a, double b)
{
  if (BOTHC(a, b)) return a + b;
  if (fpmode) return box(newNode(FADD, a, b));
  if (special(a)) return a;
  if (special(b)) return b;
  Poly x, y, r;
  toPoly(a, x);
  toPoly(b, y);
  addPoly(x, y, 1, r);
  return fromPoly(r);
}
extern "C" double __sym_sub(double a, double b)
{
  if (BOTHC(a, b)) return a - b;
  if (fpmode) return box(newNode(FSUB, a, b));
  if (special(a)) return a;
  if (special(b)) return -b;
  return dsub(a, b);
}
extern "C" double __sym_mul(double a, double b)
{
  if (BOTHC(a, b)) return a * b;
  if (fpmode) return box(newNode(FMUL, a, b));
  if (special(a) || special(b)) { sv::note("symbolic times inf/nan"); return NAN; }
  Poly x, y, r;
  toPoly(a, x);
  toPoly(b, y);
  if (mulPoly(x, y, r)) return fromPoly(r);
  // too large to expand: name the factors
  auto atomise = [&](double v) -> uint32_t {
    uint32_t k = id(v);
    if (N[k].op != POLY) return k;
    return newNode(ITE, 0.0, 0.0, v, v, OLE); // ite(true, v, v): opaque alias
  };
  Poly xa = x, ya = y;
  if (x.t.size() > 1 && boxed(a)) { xa.t = { { mono({ atomise(a) }), 1 } }; }
  if (y.t.size() > 1 && boxed(b)) { ya.t = { { mono({ atomise(b) }), 1 } }; }
  if (mulPoly(xa, ya, r)) return fromPoly(r);
  return box(newNode(FMUL, a, b)); // opaque product
}
extern "C" double __sym_div(double a, double b)
{
  if (BOTHC(a, b)) return a / b;
  if (fpmode) return box(newNode(FDIV, a, b));
  if (!boxed(b)) {
    if (!std::isfinite(b)) return 0;
    if (b == 0) { sv::note("symbolic divided by 0"); return NAN; }
    Poly x, r;
    toPoly(a, x);
    for (auto &t : x.t) t.second /= (LD)b;
    return fromPoly(x);
  }
  // scale the denominator to leading coefficient 1
  Poly y;
  toPoly(b, y);
  LD lead = y.t.back().second;
  Poly ys = y;
  for (auto &t : ys.t) t.second /= lead;
  // a monomial denominator splits into the inverses of its atoms
  Poly inv;
  if (ys.t.size() == 1) {
    std::vector<uint32_t> v;
    for (auto at : monos[ys.t[0].first]) {
      if (N[at].op == INV) {
        if (boxed(N[at].a) && N[id(N[at].a)].op == POLY) { v.push_back(newNode(INV, box(at))); }
        else v.push_back(id(N[at].a));
      } else v.push_back(newNode(INV, box(at)));
    }
    inv.t = { { mono(v), 1 / lead } };
  } else {
    uint32_t k = newNode(INV, fromPoly(ys));
    inv.t = { { mono({ k }), 1 / lead } };
    // (c * D) / D -> c
    Poly x;
    toPoly(a, x);
    if (x.t.size() == ys.t.size() && boxed(a)) {
      LD c = x.t.back().second;
      bool same = true;
      for (size_t i = 0; i < x.t.size() && same; i++)
        same = x.t[i].first == ys.t[i].first && fabsl(x.t[i].second / c - ys.t[i].second) <= 1e-16L * fabsl(ys.t[i].second);
      if (same) return (double)(c / lead);
    }
  }
  return __sym_mul(a, fromPoly(inv));
}
extern "C" double __sym_neg(double a)
{
  if (!boxed(a)) return -a;
  if (fpmode) return box(newNode(FNEG, a));
  return __sym_mul(a, -1.0);
}
static double un(Op op, double a) { return box(newNode(op, a)); }
extern "C" double __sym_fabs(double a)
{
  if (!boxed(a)) return std::fabs(a);
  if (!fpmode) {
    Iv i = ival(a);
    if (i.lo >= 0) return a;
    if (i.hi <= 0) return __sym_neg(a);
    // |x| and |-x| are the same atom
    if (N[id(a)].op == POLY && N[id(a)].p->t.back().second < 0) a = __sym_neg(a);
    // |c*p| = |c|*|p|
    Poly p;
    toPoly(a, p);
    LD lead = fabsl(p.t.back().second);
    if (lead != 1) {
      for (auto &t : p.t) t.second /= lead;
      return __sym_mul((double)lead, un(ABS, fromPoly(p)));
    }
  }
  return un(ABS, a);
}
extern "C" double __sym_sqrt(double a) { return boxed(a) ? un(SQRT, a) : std::sqrt(a); }
extern "C" double __sym_exp(double a) { return boxed(a) ? un(EXP, a) : std::exp(a); }
extern "C" double __sym_log(double a) { return boxed(a) ? un(LOG, a) : std::log(a); }
extern "C" double __sym_sin(double a) { return boxed(a) ? un(SIN, a) : std::sin(a); }
extern "C" double __sym_cos(double a) { return boxed(a) ? un(COS, a) : std::cos(a); }
static double odd(Op op, double a)
{
  if (!fpmode && N[id(a)].op == POLY && N[id(a)].p->t.back().second < 0) return __sym_neg(un(op, __sym_neg(a)));
  return un(op, a);
}
extern "C" double __sym_sinh(double a) { return boxed(a) ? odd(SINH, a) : std::sinh(a); }
extern "C" double __sym_asinh(double a) { return boxed(a) ? odd(ASINH, a) : std::asinh(a); }
extern "C" double __sym_tanh(double a) { return boxed(a) ? odd(TANH, a) : std::tanh(a); }
extern "C" double __sym_cbrt(double a) { return boxed(a) ? odd(CBRT, a) : std::cbrt(a); }
extern "C" double __sym_expm1(double a) { return boxed(a) ? un(EXPM1, a) : std::expm1(a); }
extern "C" double __sym_log1p(double a) { return boxed(a) ? un(LOG1P, a) : std::log1p(a); }
static double rnd(Op op, double a, double (*f)(double))
{
  if (!boxed(a)) return f(a);
  if (!fpmode) { Iv i = ival(a); if (std::isfinite(i.lo) && f(i.lo) == f(i.hi)) return f(i.lo); }
  return un(op, a);
}
extern "C" double __sym_floor(double a) { return rnd(FLOOR, a, std::floor); }
extern "C" double __sym_ceil(double a) { return rnd(CEIL, a, std::ceil); }
extern "C" double __sym_trunc(double a) { return rnd(TRUNC, a, std::trunc); }
extern "C" double __sym_round(double a) { return rnd(ROUND, a, std::round); }
extern "C" double __sym_hypot(double a, double b)
{
  if (BOTHC(a, b)) return std::hypot(a, b);
  return __sym_sqrt(__sym_add(__sym_mul(a, a), __sym_mul(b, b)));
}
extern "C" double __sym_pow(double a, double b)
{
  if (BOTHC(a, b)) return std::pow(a, b);
  if (!boxed(b) && !fpmode) {
    if (b == 0) return 1;
    if (b == std::floor(b) && std::fabs(b) <= 6) {
      double r = 1;
      for (int i = 0; i < (int)std::fabs(b); i++) r = __sym_mul(r, a);
      return b > 0 ? r : __sym_div(1, r);
    }
    if (b == 0.5) return __sym_sqrt(a);
  }
  return box(newNode(POW, a, b));
}
extern "C" double __sym_rem(double a, double b) { return BOTHC(a, b) ? std::fmod(a, b) : box(newNode(REM, a, b)); }
extern "C" double __sym_fmin(double a, double b) { return BOTHC(a, b) ? std::fmin(a, b) : box(newNode(MINI, a, b)); }
extern "C" double __sym_fmax(double a, double b) { return BOTHC(a, b) ? std::fmax(a, b) : box(newNode(MAXI, a, b)); }
extern "C" double __sym_copysign(double a, double b)
{
  if (BOTHC(a, b)) return std::copysign(a, b);
  double m = __sym_fabs(a);
  return __sym_fcmp(OGE, b, 0) ? m : __sym_neg(m);
}
extern "C" int __sym_fpclass(double a, int mask)
{
  if (!boxed(a)) {
    int c;
    switch (std::fpclassify(a)) {
    case FP_NAN: c = 3; break;
    case FP_INFINITE: c = std::signbit(a) ? 4 : 512; break;
    case FP_NORMAL: c = std::signbit(a) ? 8 : 256; break;
    case FP_SUBNORMAL: c = std::signbit(a) ? 16 : 128; break;
    default: c = std::signbit(a) ? 32 : 64;
    }
    return (c & mask) != 0;
  }
  if (fpmode) {
    Z3_ast x = zt(a), r = Z3_mk_false(Z);
    if (mask & 3) r = z2(Z3_mk_or, r, Z3_mk_fpa_is_nan(Z, x));
    if (mask & 516) r = z2(Z3_mk_or, r, Z3_mk_fpa_is_infinite(Z, x));
    if (mask & 264) r = z2(Z3_mk_or, r, Z3_mk_fpa_is_normal(Z, x));
    if (mask & 96) r = z2(Z3_mk_or, r, Z3_mk_fpa_is_zero(Z, x));
    return decideRaw(r, __sym_fpclass(ev(a), mask));
  }
  if ((mask & ~(3 | 516)) == 0) return 0; // finite
  return 1;
}
extern "C" float __sym_d2f(double d)
{
  if (!boxed(d)) return (float)d;
  uint32_t i = id(d);
  if (i >= (1u << 22)) { S->trunc++; finish("truncated"); }
  uint32_t u = 0xFFC00000u | i;
  float f;
  memcpy(&f, &u, 4);
  return f;
}
extern "C" double __sym_f2d(float f)
{
  uint32_t u;
  memcpy(&u, &f, 4);
  if ((u & 0xFFC00000u) == 0xFFC00000u && (u & 0x3FFFFF)) return box(u & 0x3FFFFF);
  return (double)f;
}
extern "C" std::ostream *__sym_print(std::ostream *o, double v)
{
  if (boxed(v)) (*o << '@') << id(v);
  else *o << v;
  return o;
}
extern "C" std::istream *__sym_scan(std::istream *i, double *v)
{
  if (*i && (*i >> std::ws) && i->peek() == '@') {
    uint32_t k = 0;
    i->get();
    *i >> k;
    if (k >= N.size()) abort(); // a file of another path
    *v = box(k);
  } else *i >> *v;
  return i;
}
static int64_t toint(double x, int bw, bool uns)
{
  double lim = uns ? std::ldexp(1.0, bw) : std::ldexp(1.0, bw - 1), low = uns ? -1.0 : -std::ldexp(1.0, bw - 1) - 1;
  // out of range: undefined behaviour
  bool inr = false;
  if (!fpmode) { Iv i = ival(x); inr = i.lo > low && i.hi < lim; }
  if (!inr) {
    int hi = __sym_fcmp(UGE, x, lim);
    int lo = hi ? 0 : __sym_fcmp(OLE, x, low);
    if (hi || lo) {
      if (g_fpto_viol) { violation("float to integer conversion out of range", "fptoint", curModel(), true); }
      sv::note("float to integer conversion out of range");
      finish("killed");
    }
  }
  auto cell = [&](double k, double l, double h, bool guess, bool sure) {
      int pl = k > 0 ? OGE : OGT, ph = k < 0 ? OLE : OLT;
      if (fpmode) return decideRaw(z2(Z3_mk_and, zcmpz(pl, x, l), zcmpz(ph, x, h)), guess);
      return decide({ { { { pl, x, l } }, { { ph, x, h } } }, nullptr }, { { { { negp(pl), x, l }, { negp(ph), x, h } } }, nullptr }, guess, sure);
    };
  for (int guard = 0; guard < 100000; guard++) {
    if (!model_ok) {
      std::vector<double> m;
      S->q_branch++;
      Z3_lbool q = fpmode ? query(Z3_mk_true(Z), g_rl_ob, &m) : ask({}, g_rl_ob, &m);
      if (q == Z3_L_FALSE) { S->infeasible++; finish("infeasible"); }
      Iv i = ival(x);
      if (q == Z3_L_UNDEF && !fpmode && i.hi - i.lo <= 64) { // no model at hand: try the cells of the range one by one
        for (double k = std::trunc(i.lo); k <= std::trunc(i.hi); k++)
          if (cell(k, k > 0 ? k : k - 1, k < 0 ? k : k + 1, true, false)) { learn(k > 0 ? OGE : OGT, x, k > 0 ? k : k - 1); learn(k < 0 ? OLE : OLT, x, k < 0 ? k : k + 1); return (int64_t)k; }
        S->infeasible++;
        finish("infeasible");
      }
      if (q == Z3_L_UNDEF) { S->trunc++; emit("{\"truncated\":\"no model for an integer conversion\"}"); finish("truncated"); }
      useModel(m);
    }
    double v = ev(x);
    double k = std::trunc(v);
    // x in the cell of k?
    double l = k > 0 ? k : k - 1, h = k < 0 ? k : k + 1;
    if (!fpmode) {
      Iv i = ival(x);
      bool in = (k > 0 ? i.lo >= l : i.lo > l) && (k < 0 ? i.hi <= h : i.hi < h);
      if (in) { S->br_interval++; return (int64_t)k; }
    }
    bool sure = fpmode || (std::fabs(v - l) > 1e-9 * (1 + std::fabs(v)) && std::fabs(v - h) > 1e-9 * (1 + std::fabs(v)));
    bool r = cell(k, l, h, true, sure);
    if (r) {
      learn(k > 0 ? OGE : OGT, x, l);
      learn(k < 0 ? OLE : OLT, x, h);
      return (int64_t)k;
    }
    // the other process continues with the remaining values
    if (!sure && model_ok) { // make sure the model moved out of the cell
      double v2 = ev(x);
      if (std::trunc(v2) == k) {
        // numerically on the boundary: step over it
        double k2 = (v2 - l < h - v2) ? k - 1 : k + 1;
        double l2 = k2 > 0 ? k2 : k2 - 1, h2 = k2 < 0 ? k2 : k2 + 1;
        if (cell(k2, l2, h2, true, false)) return (int64_t)k2;
      }
    }
  }
  S->trunc++;
  finish("truncated");
  return 0;
}
extern "C" int64_t __sym_toint(double x, int bw)
{
  if (!boxed(x)) return bw <= 32 ? (int64_t)(int32_t)x : (int64_t)x;
  return toint(x, bw, false);
}
extern "C" int64_t __sym_touint(double x, int bw)
{
  if (!boxed(x)) return bw < 64 ? (int64_t)x : (int64_t)(uint64_t)x;
  return toint(x, bw, true);
}

// ---------------------------------------------------------------------------------------------------------- API
namespace sv {
struct H { std::string n; void (*f)(); std::string w; };
static std::vector<H> &regs() { static std::vector<H> r; return r; }
Reg::Reg(const char *n, void (*f)(), const char *w) { regs().push_back({ n, f, w }); }
bool symbolic() { return true; }
bool is_symbolic(double v) { return boxed(v); }
void set_mode_fp(bool on) { fpmode = on; }
void private_files() { g_private = true; g_base = std::filesystem::current_path().string(); }
void note(const char *w) { emit(std::string("{\"note\":\"") + esc(w) + "\"}"); }
double number(const char *s, char **end)
{
  if (*s != '@') return strtod(s, end);
  const auto k = strtoul(s + 1, end, 10);
  if (k >= N.size()) abort(); // a file of another path
  return box((uint32_t)k);
}
const char *scratch() { return g_scratch.c_str(); }
int param(const char *n, int d) { auto i = g_params.find(n); return i == g_params.end() ? d : i->second; }
void fptoint_overflow_is_violation(bool on) { g_fpto_viol = on; }
void stop() { finish("done"); for (;;) ; }

double real(const char *name, double lo, double hi)
{
  for (auto &i : inputs)
    if (!strcmp(i.name, name)) { fprintf(stderr, "duplicate input name %s\n", name); _exit(9); }
  if (lo == hi) { inputs.push_back({ strdup(name), false, lo, hi, 0, lo }); return lo; }
  uint32_t k = newNode(VAR);
  N[k].name = strdup(name);
  N[k].lo = lo;
  N[k].hi = hi;
  // a generic starting point in the range (the model is refined by the solver)
  double f = 0.37 + 0.017 * (double)((inputs.size() * 7) % 13);
  if (std::isfinite(lo) && std::isfinite(hi)) N[k].mv = (hi - lo > 1e10 && lo <= 1 && hi >= 1) ? 1.0 : lo + (hi - lo) * f;
  else N[k].mv = std::isfinite(lo) ? lo + 1 : std::isfinite(hi) ? hi - 1 : 1;
  inputs.push_back({ N[k].name, false, lo, hi, k, 0 });
  double v = box(k);
  if (fpmode) {
    Z3_ast z = zt(v);
    assertz(Z3_mk_not(Z, Z3_mk_fpa_is_nan(Z, z)));
    assertz(Z3_mk_fpa_geq(Z, z, zt(lo)));
    assertz(Z3_mk_fpa_leq(Z, z, zt(hi)));
  } else {
    Z3_ast z = zt(v);
    if (std::isfinite(lo)) { assertz(Z3_mk_ge(Z, z, zreal(lo))); asserta(Z3_mk_ge(Z, z, zreal(lo))); }
    if (std::isfinite(hi)) { assertz(Z3_mk_le(Z, z, zreal(hi))); asserta(Z3_mk_le(Z, z, zreal(hi))); }
  }
  return v;
}
int integer(const char *name, int lo, int hi)
{
  int v = lo;
  while (v < hi) {
    // choose v or a larger one
    Z3_ast t = Z3_mk_true(Z);
    std::vector<double> cm;
    budget();
    S->forks++;
    bool tok = sem_trywait(&S->slots) == 0;
    const std::string dir = copyFiles();
    pid_t pid = fork();
    if (pid < 0) { S->trunc++; finish("truncated"); }
    if (pid == 0) { if (!enterFiles(dir)) finish("truncated"); g_have_token = tok; (void)t; break; }
    if (!tok) { int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ; }
    v++;
  }
  inputs.push_back({ strdup(name), true, (double)lo, (double)hi, 0, (double)v });
  return v;
}
void assume(bool c) { if (!c) finish("killed"); }
static void assumez(int p, double a, double b)
{
  if (BOTHC(a, b)) { assume(evalc(p, a, b)); return; }
  double d = fpmode ? 0 : dsub(a, b);
  bool g;
  if (!fpmode) {
    if (!boxed(d)) { assume(evalc(p, d, 0)); return; }
    Iv i = ival(d);
    int q = intervalDecide(p, i.lo, i.hi);
    if (q == 1) return;
    if (q == 0) finish("killed");
    g = model_ok && evalc(p, ev(d), 0) && std::fabs(ev(d)) > 1e-9 * (std::fabs(ev(a)) + std::fabs(ev(b)));
  } else {
    g = model_ok && evalc(p, ev(a), ev(b));
  }
  if (fpmode) assertz(zcmpz(p, a, b));
  else assertc({ { { p, d, 0 } } });
  if (!g) {
    std::vector<double> m;
    S->q_branch++;
    model_ok = false;
    Z3_lbool r = fpmode ? query(Z3_mk_true(Z), g_rl_ob, &m) : ask({}, g_rl_ob, &m);
    if (r == Z3_L_FALSE) finish("killed");
    if (r == Z3_L_TRUE) useModel(m);
    else { S->unknown_branch++; model_ok = false; }
  }
  if (!fpmode) { g_br.push_back({ p, d }); learn(p, d, 0); }
}
void assume_le(double a, double b) { assumez(OLE, a, b); }
void assume_lt(double a, double b) { assumez(OLT, a, b); }

static void concreteViolation(const char *label)
{
  // a concrete failure on this path: the path itself must be feasible
  if (!model_ok) {
    std::vector<double> m;
    S->q_ob++;
    Z3_lbool r = fpmode ? query(Z3_mk_true(Z), g_rl_ob, &m) : ask({}, g_rl_ob, &m);
    if (r == Z3_L_UNDEF) r = external(Z3_mk_true(Z), &m, g_ob_timeout);
    if (r == Z3_L_FALSE) { S->infeasible++; finish("infeasible"); }
    if (r == Z3_L_UNDEF) { S->undecided++; emit(std::string("{\"undecided\":\"") + esc(label) + "\"}"); finish("undecided"); }
    useModel(m);
  }
  std::vector<double> m;
  if (!fpmode && onBoundary() && off(margin(1e-6), g_rl_branch, &m)) useModel(m);
  violation(label, "check", curModel(), true);
}
void fail(const char *l) { S->ob++; g_labels[l]++; concreteViolation(l); }
void check(bool c, const char *l)
{
  S->ob++;
  g_labels[l]++;
  g_obl.push_back({ 'C', l, (double)c, 1 });
  if (c) { S->ob_struct++; return; }
  concreteViolation(l);
}
// neg: literals any of which, with the path condition, means the obligation fails; big: a clear failure
static void oblige(const Clause &neg, Z3_ast raw, const char *l, const Clause &big = {})
{
  std::vector<double> m;
  S->q_ob++;
  if (raw) Z3_inc_ref(Z, raw);
  Z3_lbool r = raw ? query(raw, g_rl_ob, &m) : ask({ neg }, g_rl_ob, &m);
  if (r == Z3_L_UNDEF && !(g_deadline > 0 && now() > g_deadline)) r = external(raw ? raw : zcnf({ neg }, false), &m, g_deadline > 0 ? std::min(g_ob_timeout, std::max(1.0, g_deadline - now())) : g_ob_timeout);
  if (r == Z3_L_FALSE) return;
  if (r == Z3_L_UNDEF) {
    S->undecided++;
    if (S->undecided_recorded++ < 5) {
      std::string s = std::string("{\"undecided\":\"") + esc(l) + "\",\"inputs\":[";
      writeInputs(curModel(), s);
      emit(s + "]}");
      if (getenv("SYM_DUMP")) { static int n = 0; std::string f = g_scratch + "/undecided_" + std::to_string(getpid()) + "_" + std::to_string(n++) + ".smt2"; FILE *o = fopen(f.c_str(), "w"); fprintf(o, "%s(check-sat)\n", smt2(raw ? raw : zcnf({ neg }, false)).c_str()); fclose(o); }
    }
    return;
  }
  if (!raw) { // a clearer counterexample, away from rounding, when there is one
    useModel(m);
    std::vector<double> m2;
    Cnf mg = margin(1e-6), mg2 = margin(1e-9), mb = mg;
    mg.push_back(neg);
    mg2.push_back(neg);
    mb.push_back(big);
    if (!big.empty() && off(mb, g_rl_branch, &m2)) m = m2;
    else if (off(mg, g_rl_branch, &m2)) m = m2;
    else if (off(mg2, g_rl_branch, &m2)) m = m2;
    useModel(m);
  }
  violation(l, "check", m, false);
  // continue on the part of the path where it holds
  if (raw) assertz(Z3_mk_not(Z, raw));
  else {
    Cnf pos;
    for (auto &x : neg) pos.push_back({ { negp(x.p), x.d, x.c } });
    assertc(pos);
  }
  model_ok = false;
  if (S->viol.load() > 40) finish("violation");
}
void check_eq(double a, double b, const char *l, double tol)
{
  S->ob++;
  g_labels[l]++;
  g_obl.push_back({ 'E', l, a, b });
  if (BOTHC(a, b)) { if (std::fabs(a - b) <= 2 * tol) { S->ob_struct++; return; } concreteViolation(l); return; }
  if (special(a) || special(b)) { concreteViolation(l); return; }
  if (fpmode) {
    if (bits(a) == bits(b)) { S->ob_struct++; return; }
    Z3_ast d = zt(__sym_fabs(__sym_sub(a, b)));
    oblige({}, Z3_mk_not(Z, Z3_mk_fpa_leq(Z, d, zt(tol))), l);
    return;
  }
  double d = dsub(a, b);
  if (!boxed(d)) { if (std::fabs(d) <= 2 * tol) { S->ob_struct++; return; } concreteViolation(l); return; }
  Iv i = ival(d);
  if (i.lo >= -2 * tol && i.hi <= 2 * tol) { S->ob_interval++; return; }
  oblige({ { OGT, d, 2 * tol }, { OLT, d, -2 * tol } }, nullptr, l, { { OGT, d, 1e3 * tol }, { OLT, d, -1e3 * tol } });
}
void check_le(double a, double b, const char *l, double tol)
{
  S->ob++;
  g_labels[l]++;
  g_obl.push_back({ 'L', l, a, b });
  if (BOTHC(a, b)) { if (a <= b + 2 * tol) { S->ob_struct++; return; } concreteViolation(l); return; }
  if (special(a) || special(b)) { if ((!boxed(a) && a == -INFINITY) || (!boxed(b) && b == INFINITY)) return; concreteViolation(l); return; }
  if (fpmode) { oblige({}, Z3_mk_not(Z, Z3_mk_fpa_leq(Z, zt(a), zt(__sym_add(b, tol)))), l); return; }
  double d = dsub(a, b);
  if (!boxed(d)) { if (d <= 2 * tol) { S->ob_struct++; return; } concreteViolation(l); return; }
  Iv i = ival(d);
  if (i.hi <= 2 * tol) { S->ob_interval++; return; }
  oblige({ { OGT, d, 2 * tol } }, nullptr, l, { { OGT, d, 1e3 * tol } });
}
void check_same(double a, double b, const char *l)
{
  S->ob++;
  g_labels[l]++;
  g_obl.push_back({ 'S', l, a, b });
  if (BOTHC(a, b)) { if (a == b || (std::isnan(a) && std::isnan(b))) { S->ob_struct++; return; } concreteViolation(l); return; }
  if (bits(a) == bits(b)) { S->ob_struct++; return; }
  if (special(a) || special(b)) { concreteViolation(l); return; }
  if (fpmode) { oblige({}, Z3_mk_not(Z, Z3_mk_fpa_eq(Z, zt(a), zt(b))), l); return; }
  double d = dsub(a, b);
  if (!boxed(d)) { if (std::fabs(d) <= 1e-12) { S->ob_struct++; return; } concreteViolation(l); return; }
  // differ by more than rounding noise
  oblige({ { OGT, d, 1e-10 }, { OLT, d, -1e-10 } }, nullptr, l, { { OGT, d, 1e-4 }, { OLT, d, -1e-4 } });
}
void check_pos(double a, const char *l)
{
  S->ob++;
  g_labels[l]++;
  g_obl.push_back({ 'P', l, a, 0 });
  if (!boxed(a)) { if (a > 0) { S->ob_struct++; return; } concreteViolation(l); return; }
  if (fpmode) { oblige({}, Z3_mk_not(Z, Z3_mk_fpa_gt(Z, zt(a), zt(0.0))), l); return; }
  Iv i = ival(a);
  if (i.lo > 0) { S->ob_interval++; return; }
  oblige({ { OLE, a, 0 } }, nullptr, l, { { OLE, a, -1e-3 } });
}
void observe(const char *n, double v) { g_obl.push_back({ 'O', strdup(n), v, 0 }); }
double split(double v)
{
  if (!boxed(v)) return v;
  if (__sym_fcmp(OLT, v, 0)) return v;
  if (__sym_fcmp(OGT, v, 0)) return v;
  return v;
}
} // namespace sv

// ---------------------------------------------------------------------------------------------------------- threads
#include "threads.inc"

int main(int argc, char **argv)
{
  double tl = 600;
  int jobs = 8;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--list") { for (auto &r : sv::regs()) printf("%s\t%s\n", r.n.c_str(), r.w.c_str()); return 0; }
    else if (a == "--harness") g_harness = argv[++i];
    else if (a == "--out") g_out = argv[++i];
    else if (a == "--scratch") g_scratch = argv[++i];
    else if (a == "--time") tl = atof(argv[++i]);
    else if (a == "--jobs") jobs = atoi(argv[++i]);
    else if (a == "--max-paths") g_max_paths = atol(argv[++i]);
    else if (a == "--max-nodes") g_max_nodes = atol(argv[++i]);
    else if (a == "--ob-timeout") g_ob_timeout = atof(argv[++i]);
    else if (a == "--param") { std::string p = argv[++i]; auto e = p.find('='); g_params[p.substr(0, e)] = atoi(p.c_str() + e + 1); }
  }
  g_out_fd = open(g_out.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  if (g_out_fd < 0) { perror(g_out.c_str()); return 9; }
  g_deadline = now() + tl;
  S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  new (S) Shared();
  sem_init(&S->slots, 1, jobs - 1);
  void (*h)() = nullptr;
  for (auto &r : sv::regs()) if (r.n == g_harness) h = r.f;
  if (!h) { fprintf(stderr, "no harness %s\n", g_harness.c_str()); return 9; }
  double t0 = now();
  pid_t pid = fork();
  if (pid == 0) {
    signal(SIGALRM, onalarm);
    stack_t ss{};
    ss.ss_sp = malloc(1 << 16);
    ss.ss_size = 1 << 16;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_handler = onsig;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL }) sigaction(s, &sa, nullptr);
    Z3_config c = Z3_mk_config();
    Z = Z3_mk_context(c); // terms live as long as the process
    Z3_set_error_handler(Z, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); });
    RS = Z3_mk_real_sort(Z);
    IS = Z3_mk_int_sort(Z);
    FS = Z3_mk_fpa_sort_double(Z);
    Z3_inc_ref(Z, Z3_sort_to_ast(Z, RS));
    Z3_inc_ref(Z, Z3_sort_to_ast(Z, IS));
    Z3_inc_ref(Z, Z3_sort_to_ast(Z, FS));
    SOL = Z3_mk_simple_solver(Z);
    Z3_solver_inc_ref(Z, SOL);
    SOLA = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_LRA"));
    Z3_solver_inc_ref(Z, SOLA);
    try { h(); }
    catch (int e) { char b[64]; snprintf(b, 64, "uncaught-exception int %d", e); sv::concreteViolation(b); }
    catch (const std::exception &e) { sv::concreteViolation((std::string("uncaught-exception ") + e.what()).c_str()); }
    catch (...) { sv::concreteViolation("uncaught-exception"); }
    finish("done");
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
  char b[2000];
  snprintf(b, 2000, "{\"summary\":{\"paths\":%ld,\"forks\":%ld,\"branch_queries\":%ld,\"obligation_queries\":%ld,\"obligations\":%ld,\"by_identity\":%ld,\"by_interval\":%ld,\"branch_by_interval\":%ld,\"unknown_branch\":%ld,\"undecided\":%ld,\"violations\":%ld,\"assumed_away\":%ld,\"truncated\":%ld,\"infeasible\":%ld,\"external_solver_calls\":%ld,\"max_nodes\":%ld,\"decided_by_linear_abstraction\":%ld,\"witness_by_evaluation\":%ld,\"exact_queries\":%ld,\"solver_s\":%.3f,\"wall_s\":%.3f,\"exit\":%d}}",
           S->paths.load(), S->forks.load(), S->q_branch.load(), S->q_ob.load(), S->ob.load(), S->ob_struct.load(), S->ob_interval.load(), S->br_interval.load(), S->unknown_branch.load(), S->undecided.load(), S->viol.load(), S->killed.load(), S->trunc.load(), S->infeasible.load(), S->ext_calls.load(), S->maxnodes.load(), S->q_abs_unsat.load(), S->q_search_sat.load(), S->q_exact.load(), S->tsolver.load(), now() - t0, WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st));
  emit(b);
  return 0;
}
