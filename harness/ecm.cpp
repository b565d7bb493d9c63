// Cell-level properties of the equivalent-circuit cells (bucket, one RC pair, two RC pairs).
#include "common.hpp"
using namespace slide;
using namespace h;

// ---------------------------------------------------------------------------------------------------- P01 dynamics
template <size_t N>
static void dynamics()
{
  const auto q = anyPar<N>();
  Cell_ECM<N> c("c", q.cap, 0.5, q.Rdc, q.Rp, q.it);
  anyState(c);
  const double dt = sv::real("dt", 0, 100);
  const int n = sv::integer("n", 0, sv::param("steps", 3));
  const auto s0 = states(c);
  Cell_ECM<N> d(c);
  c.timeStep_CC(dt, n);
  const auto s1 = states(c);
  sv::check_same(s1[0], s0[0], "temperature is not changed by a time step");
  sv::check_eq(s1[1], s0[1] - s0[2] * dt * n / 3600 / q.cap, "state of charge follows the charge balance");
  sv::check_same(s1[2], s0[2], "current is kept by a constant-current step");
  sv::check_eq(c.SOC(), s1[1], "SOC() is the stored state of charge");
  for (size_t i = 0; i < N; i++) {
    double ir = s0[3 + i];
    for (int k = 0; k < n; k++) ir = ir + dt * q.it[i] * (s0[2] - ir);
    sv::check_eq(s1[3 + i], ir, "RC current relaxes towards the cell current with its time constant");
  }
  for (int k = 0; k < n; k++) d.timeStep_CC(dt, 1);
  const auto s2 = states(d);
  for (size_t i = 0; i < s2.size() - 1; i++) sv::check_eq(s1[i], s2[i], "n steps in one call equal n calls of one step");
}
HARNESS(dyn0, "bucket cell: charge balance") { dynamics<0>(); }
HARNESS(dyn1, "one RC pair: charge balance and RC relaxation") { dynamics<1>(); }
HARNESS(dyn2, "two RC pairs: charge balance and RC relaxation") { dynamics<2>(); }

HARNESS(negdt, "a negative time step is refused and nothing changes")
{
  Cell_ECM<1> c("c", 16, 0.5);
  anyState(c);
  const double dt = sv::real("dt", -100, -1e-9);
  const auto s0 = states(c);
  bool thrown = false;
  try {
    c.timeStep_CC(dt, 2);
  } catch (int) {
    thrown = true;
  }
  sv::check(thrown, "a negative time step is refused");
  same(s0, states(c), "a refused time step changes nothing");
}

HARNESS(zerodt, "a step of zero seconds changes nothing")
{
  Cell_ECM<2> c("c", sv::real("cap", 1, 100), 0.5);
  anyState(c);
  const auto s0 = states(c);
  c.timeStep_CC(0, 2);
  const auto s1 = states(c);
  for (size_t i = 0; i < s0.size(); i++) sv::check_eq(s1[i], s0[i], "a step of zero seconds changes nothing");
}

HARNESS(reverse, "discharging and then charging with the same current and duration restores the state of charge")
{
  Cell_Bucket c("c", sv::real("cap", 1, 100), 0.5);
  anyState(c);
  const double I = sv::real("Iset", 0, 20), dt = sv::real("dt", 0, 10);
  const double soc0 = c.SOC();
  c.setCurrent(I, false, false);
  c.timeStep_CC(dt, 2);
  sv::check_le(c.SOC(), soc0, "discharging does not raise the state of charge");
  c.setCurrent(-I, false, false);
  c.timeStep_CC(dt, 2);
  sv::check_eq(c.SOC(), soc0, "discharging and then charging with the same current and duration restores the state of charge");
}

// ---------------------------------------------------------------------------------------------------- P02 throughput
template <size_t N>
static void throughput()
{
  const auto q = anyPar<N>();
  Cell_ECM<N> c("c", q.cap, 0.5, q.Rdc, q.Rp, q.it);
  anyState(c);
  const double dt = sv::real("dt", 0, 100);
  const int n = sv::integer("n", 1, sv::param("steps", 3));
  const double I = c.I();
  // keep the state of charge inside its range, so that the terminal voltage exists after every step
  sv::assume_le(c.SOC() - I * dt * n / 3600 / q.cap, 1);
  sv::assume_le(0, c.SOC() - I * dt * n / 3600 / q.cap);
  auto th = c.getThroughputs();
  for (int k = 0; k < n; k++) {
    c.timeStep_CC(dt, 1);
    const auto t1 = c.getThroughputs();
    sv::check_eq(t1.time() - th.time(), dt, "elapsed time grows by the step");
    sv::check_eq(t1.Ah() - th.Ah(), std::abs(I) * dt / 3600, "charge throughput grows by |I| dt");
    sv::check_eq(t1.Wh() - th.Wh(), std::abs(I * c.V()) * dt / 3600, "energy throughput grows by |I V| dt", 1e-6);
    th = t1;
  }
}
HARNESS(thr0, "bucket cell throughput") { throughput<0>(); }
HARNESS(thr1, "ECM cell throughput") { throughput<1>(); }
HARNESS(thr2, "two RC pairs throughput") { throughput<2>(); }

HARNESS(thr_mono, "no input makes a throughput counter of an ECM cell decrease")
{
  Cell_ECM<1> c("c", sv::real("cap", 0.5, 50), 0.5);
  anyState(c);
  const double dt = sv::real("dt", 0, 10);
  auto th = c.getThroughputs();
  for (int k = 0; k < sv::param("steps", 3); k++) {
    c.setCurrent(realn(nm("J", k), -60, 60), false, false);
    c.timeStep_CC(dt, 1);
    const auto t1 = c.getThroughputs();
    sv::check_le(th.time(), t1.time(), "elapsed time never decreases");
    sv::check_le(th.Ah(), t1.Ah(), "charge throughput never decreases");
    sv::check_le(th.Wh(), t1.Wh(), "energy throughput never decreases");
    th = t1;
  }
}

HARNESS(thr_other, "operations that are not time steps leave the throughput counters alone")
{
  Cell_ECM<1> c("c", 16, 0.5);
  anyState(c);
  const auto a = c.getThroughputs();
  const double x = sv::real("x", -50, 50);
  const bool chk = sv::boolean("check");
  switch (sv::integer("op", 0, 6)) {
  case 0: c.setCurrent(x, chk, false); break;
  case 1: c.setSOC(x / 20, chk, false); break;
  case 2: c.setVoltage(x / 8, chk, false); break;
  case 3: c.setT(280 + x); break;
  case 4: c.V(); c.getOCV(); break;
  case 5: { double v; c.checkVoltage(v, false); } break;
  case 6: c.storeData(); break;
  }
  const auto b = c.getThroughputs();
  sv::check_same(a.time(), b.time(), "time only moves in a time step");
  sv::check_same(a.Ah(), b.Ah(), "charge throughput only moves in a time step");
  sv::check_same(a.Wh(), b.Wh(), "energy throughput only moves in a time step");
}

// ---------------------------------------------------------------------------------------------------- P03 voltage law
template <size_t N>
static void vlaw()
{
  const auto q = anyPar<N>();
  Cell_ECM<N> c("c", q.cap, 0.5, q.Rdc, q.Rp, q.it);
  anyState(c);
  const auto s = states(c);
  // the documented default open-circuit curve is the straight line from VMIN (empty) to VMAX (full)
  const double ocv = c.VMIN() + (c.VMAX() - c.VMIN()) * s[1];
  sv::check_eq(c.getOCV(), ocv, "open-circuit voltage is the curve at the state of charge");
  double v = ocv - q.Rdc * s[2];
  for (size_t i = 0; i < N; i++) v -= q.Rp[i] * s[3 + i];
  sv::check_eq(c.V(), v, "terminal voltage is OCV minus the ohmic and the RC drops");
  sv::check_eq(c.getVhigh(), v, "highest cell voltage of a cell is its own");
  sv::check_eq(c.getVlow(), v, "lowest cell voltage of a cell is its own");
  double w = 0;
  c.checkVoltage(w, false);
  sv::check_eq(w, v, "checkVoltage hands back the terminal voltage");
  same(s, states(c), "reading the voltage changes nothing");
  // ohmic slope
  const double J = sv::real("J", -100, 100);
  const double v0 = c.V();
  c.setCurrent(J, false, false);
  sv::check_eq(c.V() - v0, -(J - s[2]) * c.getRtot(), "a current change moves the voltage by -dI * Rtot at once");
}
HARNESS(vlaw0, "bucket cell voltage law") { vlaw<0>(); }
HARNESS(vlaw1, "ECM voltage law") { vlaw<1>(); }
HARNESS(vlaw2, "two RC pairs voltage law") { vlaw<2>(); }

template <size_t N>
static void setv()
{
  const auto q = anyPar<N>();
  Cell_ECM<N> c("c", q.cap, 0.5, q.Rdc, q.Rp, q.it);
  anyState(c);
  const auto s = states(c);
  const double vset = sv::real("vset", 0.1, 6);
  const bool chk = sv::boolean("check");
  const auto st = c.setVoltage(vset, chk, false);
  const auto t = states(c);
  if (isStatusBad(st))
    same(s, t, "a refused voltage leaves the cell as it was");
  else {
    sv::check_eq(c.V(), vset, "after setVoltage the terminal voltage is the requested one", 1e-7);
    for (size_t i = 0; i < s.size(); i++)
      if (i != 2) sv::check_same(s[i], t[i], "setVoltage changes the current only");
  }
  if (!chk) sv::check(st == Status::Success, "without the check, setVoltage succeeds");
}
HARNESS(setv0, "setVoltage on a bucket cell") { setv<0>(); }
HARNESS(setv1, "setVoltage on an ECM cell") { setv<1>(); }
HARNESS(setv2, "setVoltage with two RC pairs") { setv<2>(); }

// ---------------------------------------------------------------------------------------------------- P04 setters
template <size_t N>
static void setcurrent()
{
  const auto q = anyPar<N>();
  Cell_ECM<N> c("c", q.cap, 0.5, q.Rdc, q.Rp, q.it);
  anyState(c);
  const auto s = states(c);
  const double J = sv::real("J", -200, 200);
  const bool chk = sv::boolean("check");
  const auto st = c.setCurrent(J, chk, false);
  const auto t = states(c);
  for (size_t i = 0; i < s.size(); i++)
    if (i != 2) sv::check_same(s[i], t[i], "setCurrent changes the current only");
  if (isStatusBad(st)) sv::check_same(t[2], s[2], "a refused current leaves the old current");
  else sv::check_same(t[2], J, "an accepted current is the one requested");
  if (!chk) sv::check(st == Status::Success, "without the check the current is accepted");
  // an accepted current never leaves the cell beyond its safety limits in the direction of the current
  if (chk && isStatusOK(st)) {
    double v = c.V();
    if (J > 0) sv::check_le(c.VMIN(), v, "an accepted discharge current does not pull the cell below the safety limit");
    if (J < 0) sv::check_le(v, c.VMAX(), "an accepted charge current does not push the cell above the safety limit");
    sv::check_pos(v, "an accepted current leaves a positive voltage");
  }
}
HARNESS(setI0, "setCurrent on a bucket cell") { setcurrent<0>(); }
HARNESS(setI1, "setCurrent on an ECM cell") { setcurrent<1>(); }
HARNESS(setI2, "setCurrent with two RC pairs") { setcurrent<2>(); }

template <size_t N>
static void setsoc()
{
  const auto q = anyPar<N>();
  Cell_ECM<N> c("c", q.cap, 0.5, q.Rdc, q.Rp, q.it);
  anyState(c);
  const auto s = states(c);
  const double x = sv::real("newSOC", -2, 3);
  const bool chk = sv::boolean("check");
  const auto st = c.setSOC(x, chk, false);
  const auto t = states(c);
  for (size_t i = 0; i < s.size(); i++)
    if (i != 1) sv::check_same(s[i], t[i], "setSOC changes the state of charge only");
  if (isStatusBad(st)) sv::check_same(t[1], s[1], "a refused state of charge leaves the old one");
  else sv::check_same(t[1], x, "an accepted state of charge is the one requested");
  if (x < 0 || x > 1) sv::check(isStatusBad(st), "a state of charge outside [0,1] is refused");
  else if (!chk) sv::check(st == Status::Success, "a state of charge inside [0,1] is accepted without the voltage check");
  sv::check_le(0, c.SOC(), "state of charge stays non-negative");
  sv::check_le(c.SOC(), 1, "state of charge stays below one");
}
HARNESS(setsoc0, "setSOC on a bucket cell") { setsoc<0>(); }
HARNESS(setsoc1, "setSOC on an ECM cell") { setsoc<1>(); }

template <size_t N>
static void setstates()
{
  const auto q = anyPar<N>();
  Cell_ECM<N> c("c", q.cap, 0.5, q.Rdc, q.Rp, q.it);
  anyState(c);
  const auto s = states(c);
  std::vector<double> x;
  for (size_t i = 0; i < s.size(); i++) x.push_back(realn(nm("x", i), i == 0 ? 200 : i == 1 ? -1 : -1000, i == 0 ? 400 : i == 1 ? 2 : 1000));
  const bool chk = sv::boolean("check");
  const auto st = putStates(c, x, chk);
  const auto t = states(c);
  if (isStatusBad(st)) same(s, t, "a refused state vector leaves the cell as it was");
  else same(x, t, "an accepted state vector is stored entirely");
  const bool ok = x[1] >= 0 && x[1] <= 1 && x[0] >= c.Tmin() && x[0] <= c.Tmax();
  if (!ok) sv::check(isStatusBad(st), "an out-of-range state of charge or temperature is refused");
  else if (!chk) sv::check(st == Status::Success, "a valid state vector is accepted");
}
HARNESS(setst0, "setStates on a bucket cell") { setstates<0>(); }
HARNESS(setst1, "setStates on an ECM cell") { setstates<1>(); }
HARNESS(setst2, "setStates with two RC pairs") { setstates<2>(); }

HARNESS(ctor, "construction: any legal state of charge and capacity, nothing else")
{
  const double cap = sv::real("cap", 0.01, 1000), soc = sv::real("soc", -2, 3);
  bool thrown = false;
  try {
    Cell_ECM<1> c("c", cap, soc);
    sv::check_same(c.Cap(), cap, "capacity as constructed");
    sv::check_same(c.SOC(), soc, "state of charge as constructed");
    sv::check_eq(c.I(), 0, "a new cell carries no current");
    sv::check(c.getID() == "c", "name as constructed");
    sv::check(c.getNcells() == 1, "a cell is one cell");
    const auto th = c.getThroughputs();
    sv::check_eq(th.time() + th.Ah() + th.Wh(), 0, "a new cell has no throughput");
    sv::check_eq(c.T(), settings::T_ENV, "a new cell is at the environment temperature");
    sv::check(soc >= 0 && soc <= 1, "an illegal state of charge is refused at construction");
  } catch (int) {
    thrown = true;
  }
  if (thrown) sv::check(soc < 0 || soc > 1, "only an illegal state of charge is refused at construction");
}

// ---------------------------------------------------------------------------------------------------- P05 status
template <size_t N>
static void vstatus()
{
  Cell_ECM<N> c("c", 16, 0.5);
  anyState(c);
  const double vset = sv::real("vset", -1, 7);
  const double I = c.I();
  // reach exactly vset through the state of the cell: the voltage law fixes the current, so vary Ir (N>0) or the current
  c.setVoltage(vset, false, false);
  const double J = c.I();
  double v = -1;
  const auto st = c.checkVoltage(v, false);
  sv::check_eq(v, c.V(), "the voltage handed back is the terminal voltage");
  v = c.V();
  const double e = settings::MODULE_P_V_ABSTOL;
  Status want;
  if (v <= 0) want = Status::V_not_calculated;
  else if (v > c.Vmin() - e && v < c.Vmax() + e) want = Status::Success;
  else if (v < c.VMIN() && J > 0) want = Status::VMIN_violation;
  else if (v > c.VMAX() && J < 0) want = Status::VMAX_violation;
  else if (v < c.Vmin() - e && J > 0) want = Status::Vmin_violation;
  else if (v > c.Vmax() + e && J < 0) want = Status::Vmax_violation;
  else want = Status::Success;
  sv::check(st == want, "voltage status is the documented band of the terminal voltage and the direction of the current");
  (void)I;
}
HARNESS(vst0, "voltage classification of a bucket cell") { vstatus<0>(); }
HARNESS(vst1, "voltage classification of an ECM cell") { vstatus<1>(); }

HARNESS(limits, "the voltage limits of a cell are ordered")
{
  Cell_ECM<1> c;
  sv::check(c.VMIN() < c.Vmin() && c.Vmin() < c.Vmax() && c.Vmax() < c.VMAX(), "VMIN < Vmin < Vmax < VMAX");
  sv::check(c.Tmin() < c.Tmax(), "Tmin < Tmax");
}

HARNESS(predicates, "status predicates partition the status codes as documented")
{
  const Status s = static_cast<Status>(sv::integer("status", -6, 14));
  const bool reached = s == Status::ReachedCurrentLimit || s == Status::ReachedVoltageLimit || s == Status::ReachedTimeLimit || s == Status::ReachedSmallCurrent || s == Status::Invalid_Vset || s == Status::SafeVoltage;
  const bool fine = reached || s == Status::Success || s == Status::Vmin_violation || s == Status::Vmax_violation;
  sv::check(isStatusOK(s) == fine, "OK means: success, a limit was reached, or only the soft voltage range is left");
  sv::check(isStatusBad(s) == !isStatusOK(s), "bad is not OK");
  sv::check(isStatusSuccessful(s) == (s == Status::Success), "successful is Success only");
  sv::check(isStatusFailed(s) == (s != Status::Success), "failed is everything but Success");
  sv::check(isStatusWarning(s) == (fine && s != Status::Success), "a warning is OK without being Success");
  sv::check(isStatusSafe(s) == (fine || s == Status::VMIN_violation || s == Status::VMAX_violation), "safe ends at the safety limits");
  sv::check(isCCLimitReached(s) == (s == Status::ReachedVoltageLimit || s == Status::ReachedTimeLimit), "CC ends with voltage or time");
  sv::check(isCVLimitReached(s) == (s == Status::ReachedCurrentLimit || s == Status::ReachedTimeLimit), "CV ends with current or time");
  sv::check(isLimitsReached(s) == (s == Status::ReachedCurrentLimit || s == Status::ReachedVoltageLimit), "limits reached");
  sv::check(isCurrentLimitReached(s) == (s == Status::ReachedCurrentLimit), "current limit");
  sv::check(isVoltageLimitReached(s) == (s == Status::ReachedVoltageLimit), "voltage limit");
  const bool volt = s == Status::Vmin_violation || s == Status::Vmax_violation || s == Status::VMIN_violation || s == Status::VMAX_violation || s == Status::VMINsafety_violation || s == Status::VMAXsafety_violation;
  sv::check(isStatusVoltageLimitsViolated(s) == volt, "voltage limit violations");
  sv::check(getStatusMessage(s) != nullptr, "every status has a message");
}
