// Helpers for single-particle-model cells.
#pragma once
#include "common.hpp"

namespace h {
using namespace slide;
using IX = State_SPM::Index;

// replaces the measured curves (hundreds of points) by short monotone ones, so that the whole lithium range is one
// exploration; the interpolation of arbitrary curves is a property of its own
inline void shortCurves(Cell_SPM &c, bool line = false)
{
  auto set = [](auto &d, std::vector<double> x, std::vector<double> y) {
    auto *px = new std::vector<double>(x), *py = new std::vector<double>(y); // the curves are views: keep the data alive
    d.x = *px;
    d.y = *py;
    d.check_is_fixed();
  };
  if (line) {
    set(c.OCV_curves.OCV_neg, { 0, 1 }, { 0.5, 0.02 });
    set(c.OCV_curves.OCV_pos, { 0, 1 }, { 4.7, 3.0 });
    set(c.OCV_curves.dOCV_neg, { 0, 1 }, { 1e-4, -2e-4 });
    set(c.OCV_curves.dOCV_tot, { 0, 1 }, { -3e-4, 2e-4 });
    return;
  }
  set(c.OCV_curves.OCV_neg, { 0, 0.4, 1 }, { 0.9, 0.15, 0.02 });
  set(c.OCV_curves.OCV_pos, { 0, 0.6, 1 }, { 4.5, 3.9, 3.0 });
  set(c.OCV_curves.dOCV_neg, { 0, 1 }, { 1e-4, -2e-4 });
  set(c.OCV_curves.dOCV_tot, { 0, 1 }, { -3e-4, 2e-4 });
}

struct SpmOpt
{
  double fplo = 0.55, fphi = 0.8, fnlo = 0.3, fnhi = 0.6; // lithium fractions
  double imax = 30;
  bool T = true, deg = false, modes = false;
  bool shortc = true, line = false;
};
// states in the middle of the range: the surface concentrations stay legal, one segment per curve
inline SpmOpt mid()
{
  SpmOpt o;
  o.fplo = 0.6, o.fphi = 0.75, o.fnlo = 0.35, o.fnhi = 0.55;
  o.imax = 10;
  o.T = false;
  o.line = true;
  return o;
}

// a cell in any state: uniform concentration plus (optionally) perturbed modes, any temperature and current
inline void anySpm(Cell_SPM &c, const SpmOpt &o = {}, const std::string &p = "")
{
  if (o.shortc) shortCurves(c, o.line);
  c.setC(realn(p + "fp", o.fplo, o.fphi), realn(p + "fn", o.fnlo, o.fnhi));
  auto s = states(c);
  s[IX::i_I] = realn(p + "I", -o.imax, o.imax);
  s[IX::i_SOC] = realn(p + "SOC", 0, 1);
  if (o.T) s[IX::i_T] = realn(p + "T", 274, 333);
  if (o.modes)
    for (int i = 0; i < 2 * (int)settings::nch; i++) {
      const double k = (i == 0 || i == (int)settings::nch) ? 1 : 1;
      s[IX::i_zp + i] = s[IX::i_zp + i] + k * 1e-4 * realn(p + nm("m", i), -1, 1);
    }
  if (o.deg) {
    s[IX::i_delta] = s[IX::i_delta] * realn(p + "kdelta", 1, 20);
    s[IX::i_LLI] = realn(p + "LLI", 0, 5000);
    s[IX::i_thickp] = s[IX::i_thickp] * realn(p + "kthickp", 0.8, 1);
    s[IX::i_thickn] = s[IX::i_thickn] * realn(p + "kthickn", 0.8, 1);
    s[IX::i_CS] = s[IX::i_CS] * realn(p + "kCS", 1, 50);
    s[IX::i_delta_pl] = 1e-6 * realn(p + "kpl", 0, 1);
    s[IX::i_Dn] = s[IX::i_Dn] * realn(p + "kDn", 0.8, 1);
  }
  const auto st = putStates(c, s, false);
  if (st != Status::Success) sv::stop(); // surface concentration out of range: not a valid state
}

inline double freshV(Cell_SPM &c) // the voltage computed from the states alone
{
  Cell_SPM d(c);
  auto st = d.getStateObj();
  d.setStateObj(st);
  return d.V();
}
} // namespace h
