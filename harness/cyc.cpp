// The cycler: constant current, constant voltage, rest, their combination and the capacity test.
#include "mod.hpp"
using namespace slide;
using namespace h;

namespace {
// A bucket cell whose voltage moves quickly, so that voltage limits lie a few steps apart: 0.1 Ah, open circuit voltage
// linear in the state of charge (2.0 V empty, 4.3 V full; both halves of the curve have the same slope).
constexpr double CAP = 0.1, SLOPE = 2.3, R = 0.01;
std::unique_ptr<Cell_Bucket> fast(const std::string &p, double lo, double hi, double cap = CAP)
{
  auto c = std::make_unique<Cell_Bucket>(p + "cell", cap, 0.5);
  c->Rdc = R;
  c->OCV.x = slide::linspace_fix(0, 1, 2);
  c->OCV.y = slide::linspace_fix(2, 4.3, 2);
  std::vector<double> s{ 290, realn(p + "SOC", lo, hi), 0, 0, 0, 0 };
  putStates(*c, s, false);
  return c;
}
enum { CELL, STRING, BLOCK };
struct Unit
{
  std::unique_ptr<StorageUnit> u;
  std::vector<Cell *> c;
};
Unit unit(int kind, double lo, double hi)
{
  Unit r;
  if (kind == CELL) {
    r.u = fast("", lo, hi);
    r.c.push_back(static_cast<Cell *>(r.u.get()));
    return r;
  }
  std::vector<Deep_ptr<StorageUnit>> v;
  for (int i = 0; i < 2; i++) {
    auto c = fast(nm("c", i), lo, hi, kind == STRING && i ? 2 * CAP : CAP);
    if (kind == BLOCK) c->Rdc = 1 / CAP / 100, c->setCapacity(100 * CAP); // converges in one round
    v.push_back(std::move(c));
  }
  std::unique_ptr<Module> m;
  if (kind == STRING) m = mod<Module_s>("s", std::move(v));
  else m = mod<Module_p>("p", std::move(v));
  for (auto &s : m->getSUs()) r.c.push_back(static_cast<Cell *>(s.get()));
  r.u = std::move(m);
  return r;
}
ThroughputData anyTh()
{
  ThroughputData th{};
  th.time() = sv::real("th_time", 0, 1e6);
  th.Ah() = sv::real("th_Ah", 0, 1e4);
  th.Wh() = sv::real("th_Wh", 0, 1e4);
  return th;
}
} // namespace

// ------------------------------------------------------------------------------------------------- constant current
static void cc(int kind, double I, int ndmax)
{
  auto q = unit(kind, 0.2, 0.8);
  auto &u = *q.u;
  const int n = (int)q.c.size();
  const bool cha = sv::boolean("charge"), diag = sv::boolean("diagnostic");
  if (cha) I = -I;
  const double I0 = sv::real("I0", -10, 10);
  if (kind != BLOCK) for (auto c : q.c) c->setCurrent(I0, false, false);
  const double f = kind == STRING ? n : 1;
  const double vlim = sv::real("vlim", 2.3, 4.25) * f, tlim = sv::real("tlim", 0, sv::param("tlim", 3) + 0.5);
  const int nd = ndmax ? sv::integer("ndata", 0, ndmax) : 0;
  auto th = anyTh();
  const auto th0 = th;
  const auto s0 = states(u);
  const auto t0 = q.c[0]->getThroughputs();
  auto beyond = [&](double v) { return cha ? v > vlim : v < vlim; };
  const double v0 = u.V();

  Cycler cyc(&u, "c");
  const auto st = cyc.setDiagnostic(diag).CC(I, vlim, tlim, 1, nd, th);
  const auto t1 = q.c[0]->getThroughputs();
  const double dt = t1.time() - t0.time(), v1 = u.V();
  sv::check_eq(th.time() - th0.time(), dt, "the time counted by CC is the time that passed for the cells");
  double dAh = t1.Ah() - t0.Ah();
  if (kind == BLOCK) sv::check_eq(th.Ah() - th0.Ah(), std::abs(I) * dt / 3600, "the charge counted by CC is the charge that flowed");
  else sv::check_eq(th.Ah() - th0.Ah(), dAh, "the charge counted by CC is the charge that flowed");
  sv::check_le(dt, tlim, "CC never runs beyond the time limit");
  // energy: the charge times a voltage between the first and the last
  if (kind == CELL && (st == Status::ReachedVoltageLimit || st == Status::ReachedTimeLimit)) {
    const double w = th.Wh() - th0.Wh(), vi = s0[1] * SLOPE + 2 - R * I;
    sv::check_le(w, dAh * (cha ? v1 : vi), "the energy counted by CC is the charge times the voltage");
    sv::check_le(dAh * (cha ? vi : v1), w, "the energy counted by CC is the charge times the voltage");
  }
  if (st == Status::ReachedTimeLimit) {
    sv::check_eq(dt, tlim, "CC reports the time limit exactly when it was reached");
    sv::check_eq(u.I(), I, "CC applies the requested current");
  } else if (st == Status::ReachedVoltageLimit) {
    sv::check(beyond(v1), "CC reports the voltage limit only when the voltage is beyond it");
    sv::check_eq(u.I(), I, "CC applies the requested current");
    const double dv = SLOPE * 2 * std::abs(I) / 3600 / CAP * f;
    if (kind == CELL) {
      const double vi = s0[1] * SLOPE + 2 - R * I; // the voltage right after the current was set
      const bool at_once = cha ? vi > vlim : vi < vlim;
      if (at_once) sv::check(dt == 0, "CC takes no step when the limit is exceeded from the start");
      else sv::check_le(cha ? v1 - vlim : vlim - v1, dv, "CC stops within the first steps beyond the voltage limit");
    }
  } else {
    sv::check(diag, "without the diagnostic mode CC ends at the voltage or the time limit");
    sv::check(isStatusVoltageLimitsViolated(st), "the diagnostic mode ends CC on the voltage of a cell");
    if (dt == 0) {
      const auto s1 = states(u);
      for (size_t i = 0; i < s0.size(); i++) sv::check_eq(s0[i], s1[i], "a current that is refused in diagnostic mode is undone");
    } else {
      double x;
      sv::check(u.checkVoltage(x, false) == st, "the diagnostic mode ends CC on the voltage of a cell");
    }
  }
  if (diag && (st == Status::ReachedVoltageLimit || st == Status::ReachedTimeLimit) && dt > 0)
    for (auto c : q.c) {
      double x;
      sv::check(c->checkVoltage(x, false) == Status::Success, "in diagnostic mode CC ends as soon as a cell leaves its voltage window");
    }
  (void)v0;
}
HARNESS(cc_cell, "constant current on a cell") { cc(CELL, 10, 3); }
HARNESS(cc_slow, "constant current on a cell, small steps") { cc(CELL, 2, 0); }
HARNESS(cc_ser, "constant current on a series string") { cc(STRING, 10, 0); }

HARNESS(cc_par, "constant current on a parallel block")
{
  auto q = unit(BLOCK, 0.3, 0.7);
  auto &u = *q.u;
  u.setCurrent(0, false, false);
  const double I = sv::real("I", -200, 200), tlim = sv::real("tlim", 0, sv::param("tlimp", 1));
  const bool cha = I < 0;
  const double vlim = sv::real("vlim", 2.3, 4.25);
  auto th = anyTh();
  const auto th0 = th;
  const double t0 = q.c[0]->getThroughputs().time();
  const auto st = Cycler(&u, "c").CC(I, vlim, tlim, 1, 0, th);
  const double dt = q.c[0]->getThroughputs().time() - t0;
  sv::check_eq(th.time() - th0.time(), dt, "the time counted by CC is the time that passed for the cells");
  sv::check_eq(th.Ah() - th0.Ah(), std::abs(I) * dt / 3600, "the charge counted by CC is the current times the time");
  sv::check_eq(u.I(), I, "CC applies the requested current", 1e-6);
  if (st == Status::ReachedTimeLimit) sv::check_eq(dt, tlim, "CC reports the time limit exactly when it was reached");
  else {
    sv::check(st == Status::ReachedVoltageLimit, "without the diagnostic mode CC ends at the voltage or the time limit");
    sv::check(cha ? u.V() > vlim : u.V() < vlim, "CC reports the voltage limit only when the voltage is beyond it");
  }
}

HARNESS(cc_before, "CC after charging or discharging with any other current")
{
  Cell_Bucket c("c", CAP, 0.5);
  c.Rdc = 0.05;
  std::vector<double> s{ 290, sv::real("SOC", 0.1, 0.9), sv::real("I0", -10, 10), 0, 0, 0 };
  putStates(c, s, false);
  const double I = sv::real("I", -10, 10), vlim = sv::real("vlim", 2.3, 4.25);
  sv::assume(I != 0);
  ThroughputData th{};
  const auto st = Cycler(&c, "c").CC(I, vlim, 1, 1, 0, th);
  const double v = c.V();
  if (st == Status::ReachedVoltageLimit) sv::check(I < 0 ? v > vlim : v < vlim, "CC reports the voltage limit only when the voltage is beyond it");
  else {
    sv::check(st == Status::ReachedTimeLimit, "CC ends at the voltage or the time limit");
    sv::check_eq(th.time(), 1, "CC reports the time limit exactly when it was reached");
  }
}

// a unit that refuses a current for another reason than its voltage
struct Stubborn : Cell_Bucket
{
  bool refuse{ false };
  Status code{ Status::RedistributeCurrent_failed };
  Stubborn() : Cell_Bucket("stubborn", CAP, 0.5) {}
  Status setCurrent(double I, bool v = true, bool p = true) override
  {
    if (refuse) return code;
    return Cell_Bucket::setCurrent(I, v, p);
  }
};
HARNESS(cc_refuse, "CC when the unit refuses the current")
{
  Stubborn c;
  c.setCurrent(sv::real("I0", -1, 1), false, false);
  c.refuse = true;
  c.code = static_cast<Status>(sv::integer("code", (int)Status::VMIN_violation, (int)Status::timeStep_CC_failed));
  ThroughputData th{};
  const auto s0 = states(c);
  const auto st = Cycler(&c, "c").setDiagnostic(sv::boolean("diagnostic")).CC(sv::real("I", 2, 4), 2.1, 2, 1, 0, th);
  sv::check(st == c.code, "CC reports why the current was refused");
  same(s0, states(c), "CC does not run with another current than the requested one");
  sv::check(th.time() == 0 && th.Ah() == 0 && th.Wh() == 0, "CC does not count charge that did not flow");
}

// ------------------------------------------------------------------------------------------------- rest
static void rest(int kind)
{
  auto q = unit(kind, 0.2, 0.8);
  auto &u = *q.u;
  if (kind != BLOCK) {
    const double I0 = sv::real("I0", -10, 10);
    for (auto c : q.c) c->setCurrent(I0, false, false);
  }
  const double tlim = sv::real("tlim", 0, sv::param("tlim", 12));
  const int nd = kind == CELL ? sv::integer("ndata", 0, 4) : 0;
  auto th = anyTh();
  const auto th0 = th;
  std::vector<double> soc;
  for (auto c : q.c) soc.push_back(c->SOC());
  const auto t0 = q.c[0]->getThroughputs();
  const auto st = Cycler(&u, "c").setDiagnostic(sv::boolean("diagnostic")).rest(tlim, 1, nd, th);
  const auto t1 = q.c[0]->getThroughputs();
  sv::check(st == Status::ReachedTimeLimit, "resting ends at the time limit, whatever the voltage");
  sv::check_eq(t1.time() - t0.time(), tlim, "resting lasts exactly as long as requested");
  sv::check_eq(th.time() - th0.time(), tlim, "the time counted by rest is the time that passed");
  sv::check_same(th.Ah(), th0.Ah(), "resting passes no charge");
  sv::check_same(th.Wh(), th0.Wh(), "resting passes no energy");
  sv::check_eq(u.I(), 0, "after resting no current flows");
  for (size_t i = 0; i < q.c.size(); i++)
    if (kind != BLOCK) {
      sv::check_eq(q.c[i]->SOC(), soc[i], "resting does not change the state of charge");
      sv::check_eq(t1.Ah(), t0.Ah(), "resting passes no charge");
    }
}
HARNESS(rest_cell, "resting a cell") { rest(CELL); }
HARNESS(rest_ser, "resting a series string") { rest(STRING); }
HARNESS(rest_par, "resting a parallel block") { rest(BLOCK); }

// ------------------------------------------------------------------------------------------------- constant voltage
static void cv(int kind)
{
  auto q = unit(kind, 0.45, 0.55);
  auto &u = *q.u;
  const double vset = sv::real("vset", 2.8, 4.1) * (kind == STRING ? 2 : 1), Ilim = sv::real("Ilim", 0.01, 20), tlim = sv::real("tlim", 0, sv::param("tlimv", 2));
  auto th = anyTh();
  const auto th0 = th;
  const auto t0 = q.c[0]->getThroughputs();
  const auto st = Cycler(&u, "c").CV(vset, Ilim, tlim, 1, 0, th);
  const auto t1 = q.c[0]->getThroughputs();
  const double dt = t1.time() - t0.time();
  sv::check_eq(th.time() - th0.time(), dt, "the time counted by CV is the time that passed for the cells");
  if (kind != BLOCK) sv::check_eq(th.Ah() - th0.Ah(), t1.Ah() - t0.Ah(), "the charge counted by CV is the charge that flowed");
  if (kind == CELL && dt <= 1) sv::check_eq(th.Wh() - th0.Wh(), t1.Wh() - t0.Wh(), "the energy counted by CV is that of the cell");
  sv::check_le(dt, tlim, "CV never runs beyond the time limit");
  const double tol = std::max(settings::MODULE_P_V_ABSTOL, settings::MODULE_P_V_RELTOL * vset);
  switch (st) {
  case Status::ReachedTimeLimit: sv::check_eq(dt, tlim, "CV reports the time limit exactly when it was reached"); break;
  case Status::ReachedCurrentLimit:
    sv::check(std::abs(u.I()) < Ilim, "CV reports the current limit only when the current is below it");
    sv::check_le(std::abs(u.V() - vset), tol, "CV reports the current limit only at the set voltage");
    break;
  case Status::ReachedSmallCurrent: sv::check(std::abs(u.I()) < Ilim / 10 || std::abs(u.I()) < 1e-6, "CV gives up only when the current vanished"); break;
  case Status::VMINsafety_violation: sv::check(u.V() < 0.99 * u.VMIN(), "CV stops for safety only outside the safety window"); break;
  case Status::VMAXsafety_violation: sv::check(u.V() > 1.01 * u.VMAX(), "CV stops for safety only outside the safety window"); break;
  default: sv::fail("CV ends for one of the documented reasons");
  }
}
HARNESS(cv_cell, "constant voltage on a cell") { cv(CELL); }
HARNESS(cv_ser, "constant voltage on a series string") { cv(STRING); }

// The defect this guards against is a rounding error, which real arithmetic does not have: both values are concrete
// floating point numbers on every path.
HARNESS(cv_time, "constant voltage until the time limit, in floating point")
{
  Cell_Bucket c("c", 1e6, 0.5); // so large that neither voltage nor current move
  const double dts[] = { 0.1, 0.3, 0.7 };
  const double dt = dts[sv::integer("dt", 0, 2)], tlim = dt * sv::integer("n", 0, 20) + 0.05 * sv::integer("part", 0, 1);
  ThroughputData th{};
  Status st{};
  try {
    st = Cycler(&c, "c").CV(3.0, 1e-9, tlim, dt, 0, th);
  } catch (int) {
    sv::fail("CV that runs until its time limit does not fail");
  }
  sv::check(st == Status::ReachedTimeLimit, "CV reports the time limit exactly when it was reached");
}

// ------------------------------------------------------------------------------------------------- CCCV
HARNESS(cccv, "constant current followed by constant voltage")
{
  auto q = unit(CELL, 0.45, 0.55);
  auto &u = *q.u;
  const double vset = sv::real("vset", 2.5, 4.4), I = sv::real("I", 4, 10), Ilim = sv::real("Ilim", 5, 20);
  auto th = anyTh();
  const auto th0 = th;
  const auto s0 = states(u);
  const auto t0 = q.c[0]->getThroughputs();
  const double ocv = q.c[0]->getOCV();
  const double tlim = sv::param("tlim", 3);
  const auto st = Cycler(&u, "c").CCCV_with_tlim(sv::boolean("negative") ? -I : I, vset, Ilim, tlim, 1, 0, th);
  const auto t1 = q.c[0]->getThroughputs();
  const double dt = t1.time() - t0.time();
  sv::check_eq(th.time() - th0.time(), dt, "the time counted by CCCV is the time that passed for the cells");
  sv::check_eq(th.Ah() - th0.Ah(), t1.Ah() - t0.Ah(), "the charge counted by CCCV is the charge that flowed");
  sv::check_le(dt, tlim, "CCCV never runs beyond the time limit");
  const bool legal = vset >= u.Vmin() && vset <= u.Vmax();
  sv::check((st == Status::Invalid_Vset) == !legal, "CCCV refuses set voltages outside the operating window, and only those");
  if (!legal) same(s0, states(u), "a refused CCCV changes nothing");
  else {
    const double soc = q.c[0]->SOC();
    if (ocv > vset) sv::check_le(soc, s0[1], "CCCV discharges a cell above the set voltage and charges one below it");
    else sv::check_le(s0[1], soc, "CCCV discharges a cell above the set voltage and charges one below it");
    if (st == Status::ReachedCurrentLimit) {
      sv::check(std::abs(u.I()) < Ilim, "CCCV reports the current limit only when the current is below it");
      sv::check_le(std::abs(u.V() - vset), std::max(settings::MODULE_P_V_ABSTOL, settings::MODULE_P_V_RELTOL * vset), "CCCV reports the current limit only at the set voltage");
    } else if (st == Status::ReachedTimeLimit) sv::check_eq(dt, tlim, "CCCV reports the time limit exactly when it was reached");
  }
}

// ------------------------------------------------------------------------------------------------- capacity
HARNESS(capacity, "the capacity test")
{
  // C/25 for one second moves the charge by 1/90000 and, on this curve, the voltage by a quarter of the operating window
  Cell_Bucket c("c", sv::real("cap", 1, 50), 0.5);
  c.Rdc = sv::real("R", 0, 0.01);
  const double k = 90000 * 1.5 / 4;
  c.OCV.y = slide::linspace_fix(3.45 - k * 0.25, 3.45 + k * 0.75, 3);
  const double I0 = sv::real("I0", -1, 1);
  std::vector<double> s{ sv::real("T", 280, 320), 0.25 + sv::real("dsoc", -2, 2) / 90000, I0, sv::real("time", 0, 1e5), sv::real("Ah", 0, 1e3), sv::real("Wh", 0, 1e3) };
  putStates(c, s, false);
  double Ah = sv::real("Ah0", 0, 1), t = sv::real("t0", 0, 1);
  const double t00 = t;
  const auto s0 = states(c);
  const double q = Cycler(&c, "c").testCapacity(Ah, t);
  same(s0, states(c), "the capacity test leaves the states as they were");
  const double step = c.Cap() / 90000, ir = 2 * c.Rdc * c.Cap() / 25 / k; // the window minus the drop over the resistance
  const double want = c.Cap() * (1.5 / k - ir);
  sv::check_le(want - 1e-12, q, "the capacity is the charge between the upper and the lower voltage limit");
  sv::check_le(q, want + 4 * step + 1e-12, "the capacity is the charge between the upper and the lower voltage limit");
  sv::check_le(q, Ah, "the charge of the capacity test contains the discharge");
  sv::check_le(t00, t, "the time of the capacity test is counted");
  sv::check_eq((t - t00) * step, Ah, "the charge of the capacity test is the C/25 current times its time");
}
