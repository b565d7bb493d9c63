// Shared helpers of the harnesses.
#pragma once
#include "sv.hpp"
#include "slide.hpp"
#include <vector>
#include <memory>
#include <string>
#include <span>
#include <array>
#include <cmath>

namespace h {
using namespace slide;

inline std::string nm(const char *a, size_t i) { return std::string(a) + std::to_string(i); }
inline double realn(const std::string &n, double lo, double hi) { return sv::real(n.c_str(), lo, hi); }

inline std::vector<double> states(StorageUnit &su)
{
  std::vector<double> s;
  su.getStates(s);
  return s;
}

inline Status putStates(StorageUnit &su, const std::vector<double> &in, bool check = false)
{
  std::vector<double> s = in;
  std::span<double> sp{ s };
  return su.setStates(sp, check, false);
}

// every entry the same (no tolerance)
inline void same(const std::vector<double> &a, const std::vector<double> &b, const char *label)
{
  sv::check(a.size() == b.size(), label);
  for (size_t i = 0; i < a.size() && i < b.size(); i++) sv::check_same(a[i], b[i], label);
}

// a cell whose state is any valid state: T, SOC, I, Ir[0..N_RC), time, Ah, Wh
template <size_t N>
void anyState(Cell_ECM<N> &c, const std::string &p = "", double imax = 100)
{
  std::vector<double> s;
  s.push_back(realn(p + "T", 274, 333));
  s.push_back(realn(p + "SOC", 0, 1));
  s.push_back(realn(p + "I", -imax, imax));
  for (size_t i = 0; i < N; i++) s.push_back(realn(p + "Ir" + std::to_string(i), -imax, imax));
  s.push_back(realn(p + "time", 0, 1e6));
  s.push_back(realn(p + "Ah", 0, 1e4));
  s.push_back(realn(p + "Wh", 0, 1e5));
  const auto st = putStates(c, s, false);
  sv::check(st == Status::Success, "a valid state is accepted when the voltage check is off");
}

template <size_t N>
struct EcmPar
{
  double cap, Rdc;
  std::array<double, N> Rp, it;
};
template <size_t N>
EcmPar<N> anyPar(const std::string &p = "")
{
  EcmPar<N> q{ realn(p + "cap", 0.5, 100), realn(p + "Rdc", 1e-4, 0.1), {}, {} };
  for (size_t i = 0; i < N; i++) {
    q.Rp[i] = realn(p + nm("Rp", i), 0, 0.1);
    q.it[i] = realn(p + nm("invtau", i), 0, 0.1);
  }
  return q;
}
} // namespace h
