// Fitting of the open circuit voltage curve of a cell.  Some of the functions are local to their source file, so it is
// included here in a namespace of its own.
#include "sv.hpp"
#include "utility/utility.hpp"
#include "settings/settings.hpp"
namespace slide_ocv {
using namespace slide;
}
#define slide slide_ocv
#include "procedures/determine_OCV.cpp"
#undef slide
#include <array>
#include <string>
#include <vector>
#include <fstream>
#include <filesystem>

namespace {
using namespace slide;
namespace o = slide_ocv;
double realn(const std::string &n, double lo, double hi) { return sv::real(n.c_str(), lo, hi); }
std::string nm(const char *a, int i) { return a + std::to_string(i); }
constexpr double F = PhyConst::F;

struct El // an electrode: one straight curve over all lithium fractions
{
  XYdata_vv d;
  double at(double z) const { return d.y[0] + z * (d.y[1] - d.y[0]); }
};
El el(const std::string &p, double lo, double hi)
{
  El e;
  e.d.x = { 0, 1 };
  e.d.y = { realn(p + "_0", lo, hi), realn(p + "_1", lo, hi) };
  return e;
}
El elc(double y0, double y1)
{
  El e;
  e.d.x = { 0, 1 };
  e.d.y = { y0, y1 };
  return e;
}
double sq(double v) { return v * v; }
} // namespace

HARNESS(ocv_valid, "which curves are accepted")
{
  const int n = sv::integer("n", 1, sv::param("points", 4));
  const bool range = sv::boolean("range");
  XYdata_vv d;
  bool ok = true;
  for (int i = 0; i < n; i++) d.x.push_back(realn(nm("x", i), -1, 2)), d.y.push_back(realn(nm("y", i), -2, 12));
  const bool got = o::validOCV(range, d);
  if (d.x[0] >= 1e-5 || d.x[0] <= -1e-5) ok = false;
  if (range && (d.x[n - 1] - 1 >= 1e-5 || d.x[n - 1] - 1 <= -1e-5)) ok = false;
  for (int i = 0; i < n; i++) {
    if (i && d.x[i] <= d.x[i - 1]) ok = false;
    if (d.y[i] < 0 || d.y[i] > 10) ok = false;
  }
  sv::check(got == ok, "exactly the curves that start at zero, increase and have realistic voltages are valid");
}

HARNESS(ocv_rmse, "error between two curves")
{
  const int n = sv::integer("n", 1, sv::param("points", 3));
  XYdata_vv cell, sim;
  const bool other = sv::boolean("curve");
  const double x1 = other ? 0.5 : 2, end = other ? 4 : 2.5;
  sim.x = { 0, x1, end };
  sim.y = { other ? 4 : 3.5, other ? 2.5 : 3, other ? 2.25 : 3.25 };
  const bool bound = sv::boolean("bound");
  double sum = 0;
  for (int i = 0; i < n; i++) {
    const double x = realn(nm("x_", i), 0, 5), y = realn(nm("y_", i), 5, 8);
    cell.x.push_back(x), cell.y.push_back(y);
    double v;
    if (x > end) v = bound ? 0 : sim.y[2];
    else if (x <= x1) v = sim.y[0] + (sim.y[1] - sim.y[0]) * x / x1;
    else v = sim.y[1] + (sim.y[2] - sim.y[1]) * (x - x1) / (end - x1);
    sum += sq(y - v);
  }
  const double e = o::calculateError(bound, cell, sim);
  sv::check_le(0, e, "an error is not negative");
  sv::check_eq(e * e * n, sum, "root of the mean square of the differences", 1e-6);
}

HARNESS(ocv_cost, "squared error of a set of parameters")
{
  const bool flat = sv::boolean("flat");
  const auto p = elc(flat ? 4 : 4.5, flat ? 3.5 : 3), a = elc(flat ? 0.25 : 0.75, 0.0625);
  const int n = sv::integer("n", 1, sv::param("points", 3));
  XYdata_vv cell;
  double x = 0;
  for (int i = 0; i < n; i++) {
    cell.x.push_back(x), cell.y.push_back(realn(nm("V", i), 2, 5));
    x += 1 + i;
  }
  const double cmp = 50000, cmn = 30000;
  const double am[] = { 3, 20 };
  const double mp = am[sv::integer("per_AMp", 0, 1)] * 1e4, mn = am[sv::integer("per_AMn", 0, 1)] * 1e4; // one over the active material
  const double sp = sv::real("sp", 0, 1), sn = sv::real("sn", 0, 1);
  const double got = o::cost_OCV(p.d, a.d, 1 / mp, 1 / mn, sp, sn, cmp, cmn, cell);
  // lithium moves from the anode to the cathode with the charge; the curve ends where the cell ends
  double want = 0;
  bool end = false;
  for (int i = 0; i < n; i++) {
    const double zp = sp + cell.x[i] * 3600 / F * mp / cmp, zn = sn - cell.x[i] * 3600 / F * mn / cmn;
    if (!end) sv::assume(zp < 1 - 1e-6 || zp > 1 + 1e-6), sv::assume(zn < -1e-6 || zn > 1e-6); // rounding at the jump to zero
    const bool out = end || zp > 1 || zn < 0;
    const double v = out ? 0 : p.at(zp) - a.at(zn);
    want += sq(cell.y[i] - v);
    if (i + 1 < n && !out) sv::assume(v < cell.y[n - 1] - 1e-6 || v > cell.y[n - 1] + 1e-6);
    if (out || v <= cell.y[n - 1]) end = true;
  }
  sv::check_eq(got, want, "sum of the squared differences to the curve of two electrodes that exchange the charge", 1e-6);
}

HARNESS(ocv_fit, "the best point of a search space")
{
  const auto p = elc(4.5, 3), a = elc(0.75, 0.0625);
  XYdata_vv cell;
  cell.x = { 0, 1.5 };
  cell.y = { sv::real("V0", 2, 5), sv::real("V1", 0.2, 1.2) };
  const int na = sv::integer("na", 1, 2), np = sv::integer("np", 1, 2), nn = sv::integer("nn", 1, 2);
  auto A = linspace_fix(3.5e-6, 4.1e-6, na), P = linspace_fix(0.35, 0.41, np), N = linspace_fix(0.55, 0.62, nn);
  const double AMp = 2e-6, cp = 50000, cn = 30000;
  std::array<double, 4> par{};
  double err = -1;
  o::fitAMnAndStartingPoints(0, 0, AMp, A, P, N, cp, cn, &err, par, const_cast<XYdata_vv &>(p.d), const_cast<XYdata_vv &>(a.d), cell);
  bool found = false;
  for (int i = 0; i < na; i++)
    for (int j = 0; j < np; j++)
      for (int k = 0; k < nn; k++) {
        const double c = o::cost_OCV(p.d, a.d, AMp, A[i], P[j], N[k], cp, cn, cell);
        sv::check_le(err * err * 2, c, "no point of the search space is better", 1e-7);
        if (par[1] == A[i] && par[2] == P[j] && par[3] == N[k]) {
          found = true;
          sv::check_eq(err * err * 2, c, "the error is that of the point", 1e-7);
        }
      }
  sv::check(found && par[0] == AMp, "the best point is in the search space");
}

HARNESS(ocv_dis, "simulated discharge of two electrodes")
{
  const auto p = el("p", 3, 5), a = el("n", 0, 1);
  const double cap = sv::param("cap", 3), cmp = 50000, cmn = 30000;
  // electrodes so small that a step is a large part of their charge
  const double mp = sv::real("per_AMp", 3, 8) * 1e8, mn = sv::real("per_AMn", 2, 5) * 1e8;
  const double sp = sv::real("sp", 0.3, 0.5), sn = sv::real("sn", 0.5, 0.7), Vend = sv::real("Vend", 2, 4);
  XYdata_vv c, ca, cc;
  double fp[3], fn[3];
  const bool three = sv::boolean("electrodes");
  if (three) o::discharge(p.d, a.d, cap, 1 / mp, 1 / mn, cmp, cmn, sp, sn, Vend, c, ca, cc, fp, fn);
  else sv::check(o::discharge_noexcept(p.d, a.d, cap, 1 / mp, 1 / mn, cmp, cmn, sp, sn, Vend, c, fp, fn), "a discharge from legal fractions succeeds");
  sv::check_same(fp[0], sp, "the fractions at full charge are those at the start");
  sv::check_same(fn[0], sn, "the fractions at full charge are those at the start");
  sv::check_eq(2 * fp[1], fp[0] + fp[2], "half charge is half way");
  sv::check_eq(2 * fn[1], fn[0] + fn[2], "half charge is half way");
  const double ap = 3600 / F * mp / cmp, an = 3600 / F * mn / cmn, Ah = 0.1 * cap * 5 / 3600;
  const size_t n = c.x.size();
  sv::check(n >= 2 && c.y.size() == n, "a curve has its first and last point");
  sv::check_same(c.x[0], 0, "the curve starts at no charge");
  sv::check_eq(c.y[0], p.at(sp) - a.at(sn), "the curve starts at the voltage of the full cell");
  const double end = c.x[n - 1];
  sv::check_eq(fp[2], sp + end * ap, "the discharged charge is in the cathode", 1e-7);
  sv::check_eq(fn[2], sn - end * an, "the discharged charge is from the anode", 1e-7);
  // it ended because of the voltage or because an electrode is full or empty, and not a step earlier
  const double v = p.at(fp[2] - Ah * ap) - a.at(fn[2] + Ah * an);
  sv::check(v <= Vend || fp[2] >= 1 || fn[2] <= 0, "the discharge ends at the end voltage or with an empty or full electrode");
  if (end > 1.5 * Ah) {
    const double w = p.at(fp[2] - 2 * Ah * ap) - a.at(fn[2] + 2 * Ah * an);
    sv::check(w > Vend, "the discharge does not end early");
    sv::check_le(fp[2] - Ah * ap, 1, "the discharge does not end late");
    sv::check_le(0, fn[2] + Ah * an, "the discharge does not end late");
  }
  sv::check_eq(c.y[n - 1], v, "the last voltage is that of the last step");
  if (three) {
    sv::check(ca.x.size() == n && cc.x.size() == n && ca.y.size() == n && cc.y.size() == n, "a point of each electrode for every point");
    sv::check_same(cc.x[0], sp, "the curve of an electrode has its fractions");
    sv::check_same(ca.x[0], sn, "the curve of an electrode has its fractions");
    sv::check_same(cc.x[n - 1], fp[2], "the curve of an electrode has its fractions");
    sv::check_same(ca.x[n - 1], fn[2], "the curve of an electrode has its fractions");
    for (size_t i = 0; i < n; i++) sv::check_eq(cc.y[i] - ca.y[i], c.y[i], "the voltage is the difference of the electrodes");
  }
}

HARNESS(ocv_levels, "refining the search space around the best point")
{
  sv::private_files();
  sv::thread_order(true);
  sv::set_hw(sv::integer("hw", 1, 2));
  auto table = [](const char *f, const XYdata_vv &d) {
    std::ofstream o(f);
    o.precision(17);
    for (size_t i = 0; i < d.x.size(); i++) o << d.x[i] << ',' << d.y[i] << '\n';
    return (std::filesystem::current_path() / f).string();
  };
  const auto p = elc(4.5, 3), a = elc(0.75, 0.0625);
  XYdata_vv cell;
  cell.x = { 0, 1.5 };
  cell.y = { sv::real("V0", 2, 5), sv::real("V1", 0.2, 1.2) };
  const auto fp = table("p.csv", p.d), fa = table("n.csv", a.d), fc = table("cell.csv", cell);
  const int hmax = sv::integer("levels", 1, 2), np = sv::integer("np", 1, 2), ns = sv::integer("ns", 2, 3), nn = sv::integer("nn", 1, sv::param("nn", 1));
  const double cp = 50000, cn = 30000;
  auto P = linspace_fix(2e-6, 2.6e-6, np), A = linspace_fix(3.5e-6, 4.1e-6, 1), S = linspace_fix(sv::boolean("edge") ? 0. : 0.35, 0.41, ns), N = linspace_fix(0.55, 0.62, nn);
  auto [par, err] = o::hierarchicalOCVfit(hmax, P, A, S, N, fp, fa, fc, cp, cn);
  XYdata_vv cs; // numbers as written to the file
  cs.setCurve(std::filesystem::path(fc));
  std::array<double, 4> best{};
  double lim[4][2] = { { 2e-6, 2.6e-6 }, { 3.5e-6, 4.1e-6 }, { S[0], 0.41 }, { 0.55, 0.62 } };
  const int n[4] = { np, 1, ns, nn };
  double e = 0;
  for (int h = 0; h < hmax; h++) {
    double d[4];
    for (int k = 0; k < 4; k++) {
      if (n[k] == 1) lim[k][0] = lim[k][1]; // a single point is the last one
      d[k] = n[k] > 1 ? (lim[k][1] - lim[k][0]) / (n[k] - 1) : 0;
    }
    bool first = true;
    for (int i = 0; i < n[0]; i++)
      for (int j = 0; j < n[2]; j++)
        for (int k = 0; k < n[3]; k++) {
          const std::array<double, 4> q{ lim[0][0] + i * d[0], lim[1][0], lim[2][0] + j * d[2], lim[3][0] + k * d[3] };
          const double c = o::cost_OCV(p.d, a.d, q[0], q[1], q[2], q[3], cp, cn, cs);
          if (!first && h + 1 < hmax) sv::assume(c < e - 1e-9 || c > e + 1e-9); // equally good points: either may be refined
          if (first || c < e) best = q, e = c;
          first = false;
        }
    if (h + 1 < hmax)
      for (int k = 0; k < 4; k++) {
        lim[k][0] = best[k] - d[k], lim[k][1] = best[k] + d[k];
        if (k > 1) lim[k][0] = std::max(lim[k][0], 0.), lim[k][1] = std::min(lim[k][1], 1.);
      }
  }
  sv::check_eq(err * err * 2, e, "the error is the smallest of the last level", 1e-7);
  sv::check_eq(o::cost_OCV(p.d, a.d, par[0], par[1], par[2], par[3], cp, cn, cs), e, "the parameters are those of the smallest error of the last level", 1e-7);
}
