// Cooling systems.
#include "mod.hpp"
using namespace slide;
using namespace h;

namespace {
// a cooling system in any state
void any(CoolSystem &c)
{
  c.Tcoolant = sv::real("Tc", 273, 348);
  c.flowrate = c.control_onoff_flr * sv::real("flow", 0, 2);
  auto &d = c.coolData.cData;
  d.Qevac_life = sv::real("Qevac", -1e3, 1e3);
  d.Qabs_life = sv::real("Qabs", -1e3, 1e3);
  d.Qevac = sv::real("Qevac1", -1e3, 1e3);
  d.t_life = sv::real("t", 0, 1e3);
  d.time_life = sv::real("tl", 0, 1e3);
  d.time = sv::real("t1", 0, 1e3);
  d.E = sv::real("E", 0, 1e3);
  d.Eoperate = sv::real("Eop", 0, 1e3);
}
double cubed(double v) { return v * v * v; }
} // namespace

HARNESS(cool_step, "coolant temperature, heat and fan energy of a time step")
{
  const int n = sv::integer("ncells", 1, 50), kind = sv::integer("kind", 0, 1);
  std::unique_ptr<CoolSystem> c;
  if (kind) c = std::make_unique<CoolSystem_open>(n, 1);
  else c = std::make_unique<CoolSystem>(n, 1);
  any(*c);
  if (kind) c->control(sv::real("Ta", 280, 330), sv::real("Tb", 280, 330));
  const auto d = c->coolData.cData;
  const double T = c->T(), Q = sv::real("Q", -1000, 1000), Qc = sv::real("Qc", -1000, 1000), t = sv::real("dt", 0, 20), v = c->flowrate / (25e-6 * n);
  const double Tn = c->dstate(Q, Qc, t);
  sv::check_same(c->T(), T, "the caller sets the temperature of the coolant");
  sv::check_eq((Tn - T) * 1.225 * 1005 * n, Q, "the heat is stored in the coolant", 1e-6);
  sv::check_eq(c->getHeatEvac(), d.Qevac_life + Qc, "heat of the children is added up");
  sv::check_eq(c->coolData.cData.Qevac, d.Qevac + Qc, "heat of the children is added up");
  sv::check_eq(c->getHeatabsorbed(), d.Qabs_life + Q, "absorbed heat is added up");
  sv::check_eq(c->getTotalTime(), d.t_life + t, "time is added up");
  sv::check_eq(c->coolData.cData.time, d.time + t, "time is added up");
  sv::check_eq(c->coolData.cData.time_life, d.time_life + t, "time is added up");
  const double E = 1.225 * 25e-6 * n * cubed(v) / 2 / 0.5 * t;
  sv::check_eq(c->getEoperation(), d.Eoperate + E, "the fan uses the kinetic energy of the air", 1e-6);
  sv::check_eq(c->coolData.cData.E, d.E + E, "the fan uses the kinetic energy of the air", 1e-6);
  if (kind) {
    sv::check_same(c->getFlr(), 0, "an open heat exchanger has no fan");
    sv::check_pos(c->getH(), "an open heat exchanger always exchanges heat");
  }
  c->reset_Eoperation();
  sv::check_same(c->getEoperation(), 0, "the energy can be reset");
}

HARNESS(cool_h, "heat transfer depends on the speed of the coolant only")
{
  CoolSystem c(sv::integer("ncells", 1, 50), 1);
  const double full = c.getH();
  CoolSystem one(1, 1);
  sv::check_eq(full, one.getH(), "the size of the system does not change the heat transfer at full flow", 1e-9);
  sv::check_eq(c.flowrate / c.Across, 20, "at full flow the coolant moves at 20 m/s");
  c.flowrate = 0;
  sv::check_same(c.getH(), 0, "a system that is off exchanges no heat by convection");
  const double a = sv::real("a", 0.001, 1), b = sv::real("b", 0.001, 1);
  const double f = c.control_onoff_flr;
  c.flowrate = f * a;
  const double ha = c.getH();
  c.flowrate = f * b;
  const double hb = c.getH();
  sv::check_pos(ha, "a running system exchanges heat");
  sv::check_le(ha, full, "no flow below the full one cools more than it", 1e-9);
  const double r = std::sqrt(20 * a);
  sv::check_eq(ha, 12.12 - 1.16 * 20 * a + 11.6 * r, "the heat transfer coefficient of forced air", 1e-6);
}

HARNESS(cool_T, "illegal coolant temperatures are refused")
{
  const int kind = sv::integer("kind", 0, 2);
  std::unique_ptr<CoolSystem> c;
  if (kind == 0) c = std::make_unique<CoolSystem>(3, 1);
  else if (kind == 1) c = std::make_unique<CoolSystem_HVAC>(3, 1, 0);
  else c = std::make_unique<CoolSystem_open>(3, 1);
  any(*c);
  const double T0 = c->T(), T = sv::boolean("nan") ? NAN : sv::real("T", 0, 1000);
  int err = 0;
  try {
    c->setT(T);
  } catch (int e) {
    err = e;
  }
  if (err) {
    sv::check(err == 99, "an illegal temperature is error 99");
    sv::check(!(T >= 273 && T <= 348), "a legal temperature is set");
    sv::check_same(c->T(), T0, "refusing a temperature changes nothing");
  } else {
    sv::check_same(c->T(), T, "the temperature is set");
    sv::check_le(273, T, "no temperature below the legal ones is set", 0);
    sv::check_le(T, 348, "no temperature above the legal ones is set", 0);
  }
}

namespace {
struct Ctl
{
  double flow, qac;
};
void control(bool hvac)
{
  const int strat = sv::integer("strategy", 1, 5), n = sv::integer("ncells", 1, 3);
  const double Q0 = hvac ? sv::real("Q0", 0, 100) : 0;
  auto make = [&]() {
    std::unique_ptr<CoolSystem> c;
    if (hvac) c = std::make_unique<CoolSystem_HVAC>(n, strat, Q0);
    else c = std::make_unique<CoolSystem>(n, strat);
    return c;
  };
  auto c = make();
  const double full = c->flowrate, Tc = sv::real("Tc", 273, 348), Tl = sv::real("Tlocal", 273, 340), Tg = sv::real("Tglobal", 273, 340);
  sv::check_eq(full, 0.0005 * n, "the full flow is proportional to the number of cells");
  c->Tcoolant = Tc;
  const bool was = sv::boolean("was_on");
  if (!was) c->flowrate = 0;
  auto *h = dynamic_cast<CoolSystem_HVAC *>(c.get());
  const double design = h ? h->Q_ac : 0;
  const bool acwas = hvac && sv::boolean("ac_was_on");
  if (h) {
    sv::check_eq(design, 7.5 * n + Q0, "the design power covers the cells and the other losses");
    sv::check_eq(h->fluid_V / h->Q_ac, 1 / 7.5, "the inertia is proportional to the design power");
    if (!acwas) h->Q_ac = 0;
  }
  c->control(Tl, Tg);
  const double f = c->getFlr(), T = strat == 2 || strat == 4 ? Tl : Tg;
  const double Ton = c->control_onoff_Ton, Toff = c->control_onoff_Toff;
  if (strat == 1) sv::check_same(f, was ? full : 0, "an always-on fan is not controlled");
  else if (strat <= 3) {
    if (T >= Ton) sv::check_same(f, full, "a hot spot at the upper threshold switches the fan on");
    else if (T <= Toff) sv::check_same(f, 0, "the fan is off below the lower threshold");
    else sv::check_same(f, was ? full : 0, "between the thresholds the fan stays as it is");
  } else {
    const double x = (T - c->control_prop_T) * 0.1; // 1 at the upper threshold, 0 at the target
    if (f == 0) sv::check_le(x, 0.2, "a proportional fan is off up to a fifth of its range", 1e-9);
    else sv::check_eq(f, full * x, "a proportional fan follows the temperature above its target"), sv::check_le(0.2, x, "a proportional fan does not run slower than a fifth");
  }
  sv::check_le(0, f, "the flow is never negative", 0);
  if (!h) return;
  const double q = h->Q_ac;
  sv::check_le(0, q, "the air conditioning never heats", 0);
  sv::check_le(q, design, "the air conditioning never exceeds its design power");
  if (q > 0) sv::check_le(293, Tc, "the air conditioning never cools below the minimum temperature", 0);
  const double on = strat == 3 || strat == 5 ? 303 : 298;
  if (strat == 1) {
    if (Tc > 293) sv::check_same(q, design, "an always-on air conditioning cools above the minimum temperature");
  } else if (strat <= 3) {
    const double Th = strat == 2 ? Tc : Tg;
    if (Tc > 293) {
      if (Th >= on) sv::check_same(q, design, "a temperature at the upper threshold switches the air conditioning on");
      else sv::check_same(q, acwas ? design : 0, "between the thresholds the air conditioning stays as it is");
    }
  } else {
    const double Th = strat == 4 ? Tc : Tg, target = strat == 4 ? 293 : 298;
    if (q > 0) {
      if (Th >= on) sv::check_eq(q, design, "a proportional air conditioning is at its design power above the threshold", 1e-6);
      else sv::check_eq(q, design * (Th - target) / (on - target), "a proportional air conditioning follows the temperature", 1e-6);
    } else if (Tc > 293) sv::check_le(Th - target, 2, "a proportional air conditioning runs once the error is two degrees", 1e-9);
  }
}
} // namespace
HARNESS(cool_ctrl, "control of the fan") { control(false); }
HARNESS(hvac_ctrl, "control of the fan and the air conditioning") { control(true); }

HARNESS(hvac_step, "coolant temperature, heat and energy of a time step with air conditioning")
{
  const int n = sv::integer("ncells", 1, 10);
  CoolSystem_HVAC c(n, 1, 0);
  any(c);
  const double Eac0 = sv::real("Eac", 0, 1000), Qc0 = sv::real("QcoolAC", 0, 1000), Qac = sv::real("Qac", 0, 100);
  c.HVACdata.cData.Eac = Eac0;
  c.HVACdata.cData.QcoolAC = Qc0;
  c.Q_ac = Qac;
  const auto d = c.coolData.cData;
  const double T = c.T(), Q = sv::real("Q", -1000, 1000), other = sv::boolean("differs") ? sv::real("dQ", -1, 1) : 0, t = sv::real("dt", 0, 20), v = c.flowrate / (25e-6 * n);
  double Tn = 0;
  int err = 0;
  try {
    Tn = c.dstate(Q, Q + other, t);
  } catch (int e) {
    err = e;
  }
  sv::check_same(c.T(), T, "the caller sets the temperature of the coolant");
  if (err) {
    sv::check(err == 10 && other != 0, "only heat from elsewhere than the children is an error");
    sv::check_same(c.getHeatEvac(), d.Qevac_life, "an error counts nothing");
    sv::check_same(c.getEoperation(), d.Eoperate, "an error counts nothing");
    return;
  }
  sv::check_eq(other, 0, "heat from elsewhere than the children is an error", 1e-9);
  sv::check_eq((Tn - T) * 1.225 * 1005 * n, Q - Qac * t, "the heat that the air conditioning does not remove is stored in the coolant", 1e-6);
  sv::check_eq(c.getHeatEvac(), d.Qevac_life + Q, "heat of the children is added up");
  sv::check_eq(c.coolData.cData.Qevac, d.Qevac + Q, "heat of the children is added up");
  sv::check_eq(c.getHeatabsorbed(), d.Qabs_life + Q - Qac * t, "absorbed heat is added up", 1e-8);
  sv::check_eq(c.getTotalTime(), d.t_life + t, "time is added up");
  sv::check_eq(c.coolData.cData.time, d.time + t, "time is added up");
  sv::check_eq(c.coolData.cData.time_life, d.time_life + t, "time is added up");
  sv::check_eq(c.getQcoolAC_tot(), Qc0 + Qac * t, "the heat removed by the air conditioning is added up");
  const double fan = 1.225 * 25e-6 * n * cubed(v) / 2 / 0.5 * t, Eac = c.HVACdata.cData.Eac - Eac0;
  sv::check_eq(c.getEoperation(), d.Eoperate + fan + Eac, "the operating energy is that of the fan and the air conditioning", 1e-6);
  sv::check_eq(c.coolData.cData.E, d.E + fan, "the fan energy is added up", 1e-6);
  sv::check_le(0, Eac, "the air conditioning does not deliver energy", 1e-9);
  if (Qac * t == 0) sv::check_eq(Eac, 0, "an air conditioning that is off uses no energy");
  else if (T < settings::T_ENV + 5) sv::check_eq(Eac, 3 * Qac * t, "active cooling uses three times the heat", 1e-6);
  else { // outside air
    const double flow = Qac / (1.225 * 1005 * (T - settings::T_ENV)), A = 2 * 25e-6 * n;
    sv::check_eq(Eac, 1.225 * cubed(flow) / (A * A) * t, "cooling with outside air uses its kinetic energy", 1e-5);
  }
}
