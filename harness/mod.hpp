// Helpers for modules of equivalent-circuit cells.
#pragma once
#include "common.hpp"

namespace h {
using namespace slide;

template <size_t K>
std::unique_ptr<Cell_ECM<K>> anyCell(const std::string &p, double imax, double lo, double hi)
{
  const auto q = anyPar<K>(p);
  auto c = std::make_unique<Cell_ECM<K>>(p + "cell", q.cap, 0.5, q.Rdc, q.Rp, q.it);
  std::vector<double> s{ realn(p + "T", 274, 333), realn(p + "SOC", lo, hi), realn(p + "I", -imax, imax) };
  for (size_t i = 0; i < K; i++) s.push_back(realn(p + nm("Ir", i), -imax, imax));
  s.push_back(realn(p + "time", 0, 1e6));
  s.push_back(realn(p + "Ah", 0, 1e4));
  s.push_back(realn(p + "Wh", 0, 1e5));
  putStates(*c, s, false);
  return c;
}

template <size_t K>
std::vector<Deep_ptr<StorageUnit>> anyCells(int n, const std::string &p, double imax = 10)
{
  std::vector<Deep_ptr<StorageUnit>> v;
  // the default open circuit voltage has a knee at half charge: every cell stays on one side of it
  for (int i = 0; i < n; i++) v.push_back(i % 2 ? anyCell<K>(p + nm("c", i) + "_", imax, 0.51, 0.95) : anyCell<K>(p + nm("c", i) + "_", imax, 0.05, 0.49));
  return v;
}

template <typename M>
std::unique_ptr<M> mod(const std::string &id, std::vector<Deep_ptr<StorageUnit>> &&v, bool top = true, bool par = false, int control = 1)
{
  size_t n = 0;
  for (auto &u : v) n += u->getNcells();
  auto m = std::make_unique<M>(id, settings::T_ENV, true, par, (int)n, control, top ? 1 : 0);
  m->setSUs(v, false, false);
  return m;
}

inline std::vector<double> anyRc(const std::string &p, size_t n, double hi = 0.01)
{
  std::vector<double> r;
  for (size_t i = 0; i < n; i++) r.push_back(realn(p + nm("Rc", i), 0, hi));
  return r;
}
} // namespace h
