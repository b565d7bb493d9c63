// The battery as a whole (copies of its module, converter) and the power electronic converter.
#include "zoo.hpp"
using namespace slide;
using namespace h;

namespace {
// ---- reference for one inverter, from the description of the model in the documentation of the class -----------------
double absv(double v) { return v < 0 ? -v : v; }
double igbt(double i) // voltage drop of a switch: i/30 below 30 A, 1 V at 30 A and 3 V at 300 A above
{
  return i > 30 ? 1 + 2.0 / 270.0 * (i - 30) : i / 30.0;
}
double oneInverter(double V, double I)
{
  const double pi = PhyConst::pi, f = 8000, Vdc = 1500;
  const double Ib = I * V / Vdc; // current of the intermediate bus
  const double dc = absv(I) * igbt(absv(I)) * (1 + 2 * V / Vdc) + f * (6 + 0.1 * absv(I - 50)) * 1e-3;
  const double Eon = (6 + 0.1 * absv(Ib - 50)) * 1e-3;
  const double ac = absv(Ib) * igbt(absv(Ib)) * 3 + 6 * f * (2 * Eon + 1e-3);
  const double w = 2 * pi * f * 3e-3;
  return dc + ac + 13.6e-3 * w * w + 3 * 13.6e-3 * Ib * Ib + 13.6e-3 * I * I;
}
Converter conv(double P)
{
  Converter c;
  c.setPower(P);
  return c;
}
} // namespace

HARNESS(conv_one, "losses of one inverter")
{
  auto c = conv(sv::real("P", 1, 200e3));
  const double V = sv::real("V", 0, 1500), I = sv::real("I", -400, 400);
  sv::check_eq(c.getLosses(V, I), oneInverter(V, I), "the losses are those of conduction, switching and filters", 1e-6);
}

HARNESS(conv_default, "a converter as constructed")
{
  Converter c;
  const double V = sv::real("V", 0, 1500), I = sv::real("I", -400, 400);
  sv::check_eq(c.getLosses(V, I), oneInverter(V, I), "a new converter has one inverter", 1e-6);
}

HARNESS(conv_many, "inverters share the current")
{
  const double P = sv::real("P", 1, 200e3 * sv::param("inverters", 4));
  int n = 1;
  while (P > 200e3 * n) n++;
  auto c = conv(P);
  const double V = sv::real("V", 0, 1500), I = sv::real("I", -400, 400);
  sv::check_eq(c.getLosses(V, I * n), n * oneInverter(V, I), "every started 200 kW need one inverter, which share the current", 1e-6);
}

HARNESS(conv_bound, "losses are never below those of switching")
{
  auto c = conv(sv::real("P", 1, 400e3));
  const double V = sv::real("V", 0, 1500), I = sv::real("I", -400, 400);
  sv::check_le(980, c.getLosses(V, I), "switching and filter losses remain at any current");
  sv::check_le(1500, c.getLosses(V, 0), "idle losses are at least 1.5 kW");
}

HARNESS(conv_jump, "losses have no jump where the branches of the model meet")
{
  auto c = conv(200e3);
  const double V = sv::real("V", 10, 1500);
  const double s = sv::boolean("charge") ? -1 : 1, at = sv::boolean("bus") ? 30 * 1500 / V : 30;
  const double e = sv::real("e", 0, 1e-6);
  const double lo = c.getLosses(V, s * (at - e)), hi = c.getLosses(V, s * (at + e));
  const double d = hi - lo;
  // slope: each of the terms by the current, times 1500/V at most 150 for those of the bus
  sv::check_le(d, 0.1, "the losses are continuous");
  sv::check_le(-d, 0.1, "the losses are continuous");
}

// ---- battery ---------------------------------------------------------------------------------------------------------
namespace {
struct B
{
  std::unique_ptr<Battery> b;
  int ns, np;
};
std::unique_ptr<StorageUnit> module(int kind, const std::string &p, double q = 8)
{
  if (kind == 0) {
    auto m = mod<Module_s>(p + "s", anyCells<1>(2, p, q), false);
    { auto rc = anyRc(p, 2); m->setRcontact(rc); }
    return m;
  }
  auto m = mod<Module_p>(p + "p", anyCells<0>(2, p, q), false);
  { auto rc = anyRc(p, 2); m->setRcontact(rc); }
  return m;
}
// every number of copies, or three combinations in which no two numbers can be confused
B battery(bool full = true, int kind = 0, double q = 8)
{
  B r;
  if (full) {
    r.ns = sv::integer("ns", 1, 3);
    r.np = sv::integer("np", 1, 3);
  } else {
    const int k = sv::integer("copies", 0, 2);
    r.ns = k == 0 ? 1 : k == 1 ? 3 : 2;
    r.np = k == 0 ? 2 : k == 1 ? 1 : 3;
  }
  r.b = std::make_unique<Battery>("batt");
  r.b->setSeriesandParallel(r.ns, r.np);
  auto m = module(kind, "", q);
  r.b->setModule(Deep_ptr<Module>(std::unique_ptr<Module>(dynamic_cast<Module *>(m.release()))));
  return r;
}
} // namespace

HARNESS(batt_scale, "a battery is its module times the copies in series and parallel")
{
  auto [b, ns, np] = battery(true, sv::integer("kind", 0, 1), 2);
  auto &m = *b->getCells();
  sv::check_eq(b->Cap(), np * m.Cap(), "capacity: copies in parallel");
  sv::check_eq(b->I(), np * m.I(), "current: copies in parallel");
  sv::check_eq(b->V(), ns * m.V(), "voltage: copies in series");
  sv::check_eq(b->getOCV(), ns * m.getOCV(), "open circuit voltage: copies in series");
  sv::check_eq(b->Vmin(), ns * m.Vmin(), "voltage limits: copies in series");
  sv::check_eq(b->VMIN(), ns * m.VMIN(), "voltage limits: copies in series");
  sv::check_eq(b->Vmax(), ns * m.Vmax(), "voltage limits: copies in series");
  sv::check_eq(b->VMAX(), ns * m.VMAX(), "voltage limits: copies in series");
  sv::check_eq(b->getRtot() * np, ns * m.getRtot(), "resistance: copies in series over copies in parallel");
  sv::check(b->getNcells() == m.getNcells() * ns * np, "cells: every copy");
  sv::check_same(b->getThermalSurface(), m.getThermalSurface(), "surface: of the module");
  const double T = sv::real("Tb", 280, 310);
  b->setT(T);
  sv::check_same(b->T(), T, "temperature: of the air conditioning");
}

HARNESS(batt_check, "the cells of a battery are checked through its module")
{
  auto [b, ns, np] = battery(false);
  auto &m = *b->getCells();
  double v = -1, vm = -1;
  const auto sb = b->checkVoltage(v, false), sm = m.checkVoltage(vm, false);
  sv::check(sb == sm, "voltage check: that of the module");
  sv::check_eq(v, ns * vm, "voltage check: copies in series");
  sv::check(b->isCharging() == m.isCharging() && b->isDischarging() == m.isDischarging(), "direction: that of the module");
  sv::check_same(b->getVhigh(), m.getVhigh(), "cell voltages: those of the module");
  sv::check_same(b->getVlow(), m.getVlow(), "cell voltages: those of the module");
}

HARNESS(batt_setI, "the current of a battery is split over the copies in parallel")
{
  auto [b, ns, np] = battery(false);
  auto &m = *b->getCells();
  std::unique_ptr<Module> r(m.copy());
  const auto before = states(*b);
  const double I = sv::real("I", -20, 20);
  const bool chk = sv::boolean("check");
  const auto st = b->setCurrent(I, chk, false), sr = r->setCurrent(I / np, chk, false);
  sv::check(st == sr, "the status is that of the module");
  const auto a = states(m), e = states(*r);
  sv::check(a.size() == e.size(), "the module has its states");
  for (size_t i = 0; i < a.size() && i < e.size(); i++) sv::check_eq(a[i], e[i], "the module carries its share of the current");
  if (isStatusBad(st)) same(states(*b), before, "a refused current changes nothing");
  else sv::check_eq(b->I(), I, "an accepted current is the current of the battery");
}

HARNESS(batt_step, "a time step of a battery steps its module and adds the losses of the converter")
{
  auto [b, ns, np] = battery(false, 0, 2);
  auto &m = *b->getCells();
  std::unique_ptr<Module> r(m.copy());
  const double l0 = sv::real("loss0", 0, 1e6), t0 = sv::real("loss_tot0", 0, 1e6);
  b->convlosses = l0;
  b->convlosses_tot = t0;
  const bool blk = sv::boolean("blocked");
  if (blk) b->setBlockDegAndTherm(true), r->setBlockDegAndTherm(true);
  const double T0 = b->T();
  const double dt = sv::real("dt", 0, 10);
  const int n = sv::integer("n", 1, 2);
  b->timeStep_CC(dt, n);
  r->timeStep_CC(dt, n);
  const auto a = states(m), e = states(*r);
  for (size_t i = 0; i < a.size() && i < e.size(); i++) sv::check_eq(a[i], e[i], "the module takes the time step");
  auto c = conv(b->Cap() * b->Vmax());
  const double l = c.getLosses(b->V(), b->I()) * dt * n;
  sv::check_eq(b->convlosses - l0, l, "the losses of the converter in this step are added", 1e-6);
  sv::check_eq(b->getConvLosses_total() - t0, l, "the losses of the converter are added to the total", 1e-6);
  sv::check_same(b->T(), T0, "the temperature is constant without a thermal model");
  const double all = b->convlosses;
  sv::check_same(b->getAndResetConvLosses(), all, "the losses since the last reset are reported");
  sv::check_same(b->getAndResetConvLosses(), 0, "the losses are reported once");
  sv::check_eq(b->getConvLosses_total() - t0, l, "the total is never reset", 1e-6);
}

HARNESS(batt_load, "the cooling load of a battery is that of every copy, reported once")
{
  auto [b, ns, np] = battery(false);
  auto &m = *b->getCells();
  const double eb = sv::real("Eb", 0, 1e6), em = sv::real("Em", 0, 1e6);
  b->getCoolSystem()->coolData.cData.Eoperate = eb;
  m.getCoolSystem()->coolData.cData.Eoperate = em;
  sv::check_eq(b->getCoolingLoad(), eb + em * ns * np, "the cooling of the battery and of every copy of its module", 1e-6);
  sv::check_same(b->getCoolingLoad(), 0, "cooling energy is reported once");
}

HARNESS(batt_connect, "only modules without parent and with conventional cooling are connected, and only one")
{
  const int what = sv::integer("what", 0, 4);
  Battery b("batt");
  Battery other("other");
  auto m = mod<Module_s>("s", anyCells<0>(2, ""), what == 1); // 1: with air conditioning
  Deep_ptr<Module> p(std::move(m));
  auto *raw = p.get();
  if (what == 2) raw->setParent(&other); // belongs to someone else
  if (what == 3) raw->cool = Deep_ptr<CoolSystem>(); // no cooling at all
  if (what == 4) { // a battery that has a module
    Deep_ptr<Module> q(std::unique_ptr<Module>(mod<Module_s>("q", anyCells<0>(1, "q"), false)));
    b.setModule(std::move(q));
  }
  auto *had = b.getCells();
  auto *hadCool = b.getCoolSystem();
  int err = 0;
  try {
    b.setModule(std::move(p));
  } catch (int e) {
    err = e;
  }
  if (what == 0) {
    sv::check(err == 0, "a module is accepted");
    sv::check(b.getCells() == raw, "the module is connected");
    sv::check(raw->getParent() == &b, "the module knows its battery");
    sv::check(b.getCoolSystem() != nullptr, "the battery has air conditioning");
    sv::check(raw->getFullID() == "batt_s", "the name of the module starts with the name of its battery");
  } else {
    sv::check(err == 10, "other modules are refused");
    sv::check(b.getCells() == had && b.getCoolSystem() == hadCool, "a refused module changes nothing");
    sv::check(p.get() == raw, "a refused module stays with the caller");
    sv::check(raw->getParent() == (what == 2 ? &other : nullptr), "a refused module keeps its parent");
  }
}

HARNESS(batt_power, "the converter is sized for the power of the battery")
{
  auto [b, ns, np] = battery(false);
  auto c = conv(b->Cap() * b->Vmax());
  const double V = sv::real("V", 0, 1500), I = sv::real("Ic", -100, 100);
  sv::check_eq(b->conv.getLosses(V, I), c.getLosses(V, I), "the converter has the power of the battery", 1e-6);
}
