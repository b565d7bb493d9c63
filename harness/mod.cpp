// Module-level properties: series and parallel strings of equivalent-circuit cells, nested.
#include "mod.hpp"
using namespace slide;
using namespace h;

// ------------------------------------------------------------------------------------------------- series: circuit laws
template <size_t K>
static void serlaw()
{
  const int n = sv::integer("n", 1, sv::param("cells", 3));
  auto cs = anyCells<K>(n, "", 8);
  const double I = sv::real("Imod", -8, 8);
  for (auto &c : cs) c->setCurrent(I, false, false);
  std::vector<StorageUnit *> p;
  for (auto &c : cs) p.push_back(c.get());
  auto m = mod<Module_s>("s", std::move(cs));
  auto rc = anyRc("", n);
  m->setRcontact(rc);
  double v = 0, ocv = 0, r = 0, vm = 0, vM = 0, VM = 0, Vm = 0;
  for (int i = 0; i < n; i++) {
    v += p[i]->V() - rc[i] * I;
    ocv += p[i]->getOCV();
    r += p[i]->getRtot() + rc[i];
    vm += p[i]->Vmin(), vM += p[i]->Vmax(), Vm += p[i]->VMIN(), VM += p[i]->VMAX();
    sv::check_le(m->Cap(), p[i]->Cap(), "a series string has no more capacity than its smallest cell");
  }
  sv::check_eq(m->V(), v, "the voltage of a series string is the sum over its cells minus the contact drops");
  sv::check_eq(m->getOCV(), ocv, "the open circuit voltage of a series string is the sum over its cells");
  sv::check_eq(m->getRtot(), r, "the resistance of a series string is the sum of cells and contacts");
  sv::check_same(m->I(), I, "the current of a series string is that of its cells");
  sv::check_eq(m->Vmin(), vm, "limits of a series string add up");
  sv::check_eq(m->Vmax(), vM, "limits of a series string add up");
  sv::check_eq(m->VMIN(), Vm, "limits of a series string add up");
  sv::check_eq(m->VMAX(), VM, "limits of a series string add up");
  bool isone = false;
  for (int i = 0; i < n; i++)
    if (m->Cap() == p[i]->Cap()) isone = true;
  sv::check(isone, "the capacity of a series string is that of one of its cells");
}
HARNESS(ser_law0, "series string of bucket cells: voltage, resistance, capacity, limits") { serlaw<0>(); }
HARNESS(ser_law1, "series string of ECM cells: voltage, resistance, capacity, limits") { serlaw<1>(); }

static double serV(Module_s &m, const std::vector<double> &rc)
{
  double v = 0;
  for (size_t i = 0; i < m.getNSUs(); i++) v += m[i]->V() - rc[i] * m[i]->I();
  return v;
}
HARNESS(ser_cache, "after any operation on a series string its voltage is that of its present state")
{
  const int n = 2;
  auto cs = anyCells<1>(n, "", 8);
  const double I = sv::real("Imod", -8, 8);
  for (auto &c : cs) c->setCurrent(I, false, false);
  auto m = mod<Module_s>("s", std::move(cs));
  auto rc = anyRc("", n);
  m->setRcontact(rc);
  m->V(); // remember a voltage
  const int nops = sv::param("ops", 2);
  for (int k = 0; k < nops; k++) {
    switch (sv::integer(nm("op", k).c_str(), 0, 5)) {
    case 0: m->setCurrent(realn(nm("Iset", k), -8, 8), false, false); break;
    case 1: m->timeStep_CC(realn(nm("dt", k), 0, 1), 1); break;
    case 2: {
      auto s = states(*m);
      s[1] = realn(nm("SOCa", k), 0.05, 0.49);
      s[8] = realn(nm("SOCb", k), 0.51, 0.95);
      putStates(*m, s);
    } break;
    case 3: rc = anyRc(nm("k", k), n); m->setRcontact(rc); break;
    case 4: {
      Module_s c(*m);
      c.setCurrent(realn(nm("Icopy", k), -8, 8), false, false);
      sv::check_eq(c.V(), serV(c, rc), "the voltage of a copied string is that of the copy");
    } break;
    case 5: m->setCurrent(realn(nm("Ibig", k), -60, 60), true, false); break;
    }
    for (int i = 0; i < n; i++)
      if (auto c = dynamic_cast<Cell *>((*m)[i].get()); c->SOC() < 0 || c->SOC() > 1) sv::stop(); // an empty or overfull cell has no voltage
    if ((*m)[0]->V() <= 0 || (*m)[1]->V() <= 0) sv::stop();
    sv::check_eq(m->V(), serV(*m, rc), "the voltage of a series string is that of its present state");
  }
}

// ------------------------------------------------------------------------------------------------- series: setCurrent
template <size_t K>
static void sercur()
{
  const int n = sv::integer("n", 1, sv::param("cells", 3));
  auto cs = anyCells<K>(n, "", 20);
  const double I = sv::real("Imod", -20, 20);
  for (auto &c : cs) c->setCurrent(I, false, false);
  auto m = mod<Module_s>("s", std::move(cs));
  const auto s0 = states(*m);
  const double Inew = sv::real("Inew", -1000, 1000);
  const bool chk = sv::boolean("check");
  const auto st = m->setCurrent(Inew, chk, false);
  if (isStatusBad(st)) {
    same(s0, states(*m), "a refused current leaves every cell of the string as it was");
    bool some = false; // some cell could not have carried it
    for (int i = 0; i < n; i++) {
      double v;
      auto c = std::unique_ptr<StorageUnit>((*m)[i]->copy());
      if (isStatusBad(c->setCurrent(Inew, true, false))) some = true;
    }
    sv::check(some && chk, "a current is refused only when a cell would leave its safety window");
  } else {
    const auto s1 = states(*m);
    for (int i = 0; i < n; i++) {
      sv::check_same((*m)[i]->I(), Inew, "an accepted current flows through every cell of the string");
      double v;
      if (chk) sv::check(isStatusOK((*m)[i]->checkVoltage(v, false)), "an accepted current keeps every cell inside its safety window");
    }
    sv::check(s0.size() == s1.size(), "setCurrent changes currents only");
    const size_t w = 6 + K;
    for (size_t i = 0; i < s0.size(); i++)
      if (i % w != 2 || i + 1 == s0.size()) sv::check_same(s0[i], s1[i], "setCurrent changes currents only");
  }
}
HARNESS(ser_cur0, "series string of bucket cells: all or nothing") { sercur<0>(); }
HARNESS(ser_cur1, "series string of ECM cells: all or nothing") { sercur<1>(); }

HARNESS(nest_cur, "a string of strings: the current is set everywhere or nowhere")
{
  std::vector<Deep_ptr<StorageUnit>> kids;
  const double I = sv::real("Imod", -10, 10);
  for (int k = 0; k < 2; k++) {
    auto cs = anyCells<0>(2, nm("m", k), 10);
    for (auto &c : cs) c->setCurrent(I, false, false);
    kids.push_back(mod<Module_s>(nm("in", k), std::move(cs), false));
  }
  auto m = mod<Module_s>("out", std::move(kids));
  const auto s0 = states(*m);
  const double Inew = sv::real("Inew", -1000, 1000);
  const auto st = m->setCurrent(Inew, true, false);
  if (isStatusBad(st))
    same(s0, states(*m), "a refused current leaves every cell of the string as it was");
  else
    for (int k = 0; k < 2; k++)
      for (int i = 0; i < 2; i++) {
        auto in = dynamic_cast<Module *>((*m)[k].get());
        sv::check_same((*in)[i]->I(), Inew, "an accepted current flows through every cell of the string");
      }
}

HARNESS(ser_step, "a time step of a string is the same time step of each of its cells")
{
  const int n = 2;
  auto cs = anyCells<1>(n, "", 10);
  std::vector<std::unique_ptr<StorageUnit>> alone;
  for (auto &c : cs) alone.emplace_back(c->copy());
  auto m = mod<Module_s>("s", std::move(cs), true, sv::boolean("parallel"));
  const double dt = sv::real("dt", 0, 1);
  const int ns = sv::integer("n", 1, 2);
  m->timeStep_CC(dt, ns);
  for (int i = 0; i < n; i++) {
    alone[i]->timeStep_CC(dt, ns);
    const auto a = states(*alone[i]), b = states(*(*m)[i]);
    for (size_t j = 0; j < a.size(); j++) sv::check_eq(a[j], b[j], "a time step of a string is the same time step of each of its cells");
  }
}

HARNESS(mod_negdt, "a negative time step of a module is refused and nothing changes")
{
  auto cs = anyCells<0>(2, "", 10);
  const bool p = sv::boolean("series");
  std::unique_ptr<Module> m;
  if (p) m = mod<Module_s>("s", std::move(cs));
  else m = mod<Module_p>("p", std::move(cs));
  const auto s0 = states(*m);
  bool thrown = false;
  try {
    m->timeStep_CC(sv::real("dt", -100, -1e-9), 1);
  } catch (int) {
    thrown = true;
  }
  sv::check(thrown, "a negative time step is refused");
  same(s0, states(*m), "a refused time step changes nothing");
}

// ------------------------------------------------------------------------------------------------- parallel: circuit laws
template <size_t K>
static void parlaw()
{
  const int n = sv::integer("n", 1, sv::param("cells", 3));
  auto cs = anyCells<K>(n, "", 10);
  std::vector<StorageUnit *> p;
  for (auto &c : cs) p.push_back(c.get());
  auto m = mod<Module_p>("p", std::move(cs));
  auto rc = anyRc("", n);
  m->setRcontact(rc);
  double I = 0, cap = 0, ocv = 0;
  for (int i = 0; i < n; i++) {
    I += p[i]->I();
    cap += p[i]->Cap();
    ocv += p[i]->getOCV();
    sv::check_le(p[i]->Vmin(), m->Vmin(), "the limits of a parallel block are the tightest of its cells");
    sv::check_le(p[i]->VMIN(), m->VMIN(), "the limits of a parallel block are the tightest of its cells");
    sv::check_le(m->Vmax(), p[i]->Vmax(), "the limits of a parallel block are the tightest of its cells");
    sv::check_le(m->VMAX(), p[i]->VMAX(), "the limits of a parallel block are the tightest of its cells");
  }
  sv::check_eq(m->I(), I, "the current of a parallel block is the sum over its cells");
  sv::check_eq(m->Cap(), cap, "the capacity of a parallel block is the sum over its cells");
  sv::check_eq(m->getOCV() * n, ocv, "the open circuit voltage of a parallel block is the mean over its cells");
  sv::check_eq(m->V(), p[0]->V() - rc[0] * I, "the voltage of a parallel block is that of its first cell minus the contact drop of the total current");
  // resistance ladder: contact i in series with (cell i parallel to everything behind it)
  double r = rc[n - 1] + p[n - 1]->getRtot();
  for (int i = n - 2; i >= 0; i--) r = rc[i] + p[i]->getRtot() * r / (p[i]->getRtot() + r);
  sv::check_eq(m->getRtot(), r, "the resistance of a parallel block is that of its resistor ladder");
  sv::check_le(m->getRtot(), rc[0] + p[0]->getRtot(), "a further parallel cell does not raise the resistance");
}
HARNESS(par_law0, "parallel block of bucket cells: current, capacity, resistance, limits") { parlaw<0>(); }
HARNESS(par_law1, "parallel block of ECM cells: current, capacity, resistance, limits") { parlaw<1>(); }

// parallel cells with a resistance of one over the capacity: the current iteration converges in one round
static std::vector<Deep_ptr<StorageUnit>> parCells(int n, double imax, double f = 1)
{
  std::vector<Deep_ptr<StorageUnit>> v;
  static const double caps[] = { 16, 8, 32, 16 };
  for (int i = 0; i < n; i++) {
    auto c = std::make_unique<Cell_Bucket>(nm("cell", i), caps[i], 0.5);
    c->Rdc = f / caps[i];
    std::vector<double> s{ 290, i % 2 ? realn(nm("SOC", i), 0.51, 0.95) : realn(nm("SOC", i), 0.05, 0.49), imax == 0 ? 0 : realn(nm("I", i), -imax, imax), 0, 0, 0 };
    putStates(*c, s, false);
    v.push_back(std::move(c));
  }
  return v;
}
static void kcl(Module_p &m, const std::vector<double> &rc, double tol)
{
  // terminal voltage of every branch, contact resistances carrying the currents of all cells behind them
  const size_t n = m.getNSUs();
  std::vector<double> vt(n);
  for (size_t i = 0; i < n; i++) {
    vt[i] = m[i]->V();
    for (size_t j = 0; j <= i; j++) {
      double Ij = 0;
      for (size_t k = j; k < n; k++) Ij += m[k]->I();
      vt[i] -= rc[j] * Ij;
    }
  }
  for (size_t i = 1; i < n; i++) sv::check_eq(vt[i], vt[0], "every branch of a parallel block has the same terminal voltage", tol);
}
static void parcur(double f, int n, double rcv, bool full)
{
  auto m = mod<Module_p>("p", parCells(n, full && n == 2 ? 8 : 0, f));
  std::vector<double> rc; // different in every branch
  for (int i = 0; i < n; i++) rc.push_back(rcv * (i % 2 ? 0.5 : 1));
  m->setRcontact(rc);
  const auto s0 = states(*m);
  const double Inew = sv::real("Inew", -20 * n, 20 * n);
  const bool chk = full ? sv::boolean("check") : false;
  const auto st = m->setCurrent(Inew, chk, false);
  if (isStatusBad(st)) {
    same(s0, states(*m), "a refused current leaves every cell of the block as it was");
    sv::check(chk, "without the voltage check the current is always set");
  } else {
    sv::check_eq(m->I(), Inew, "the cell currents of a parallel block add up to the requested current", 1e-7);
    kcl(*m, rc, 2e-8);
    const auto s1 = states(*m);
    for (size_t i = 0; i < s0.size(); i++)
      if (i % 6 != 2 || i + 1 == s0.size()) sv::check_same(s0[i], s1[i], "setCurrent changes currents only");
    double v;
    for (int i = 0; i < n; i++)
      if (chk) sv::check(isStatusOK((*m)[i]->checkVoltage(v, false)), "an accepted current keeps every cell inside its safety window");
  }
}
HARNESS(par_cur2, "two parallel cells: total current, equal voltages, all or nothing") { parcur(1, 2, 0, true); }
HARNESS(par_cur3, "three parallel cells: total current, equal voltages, all or nothing") { parcur(1, 3, 0, true); }
HARNESS(par_cur3n, "three parallel cells without the voltage check") { parcur(1, 3, 0, false); }
HARNESS(par_curslow, "two parallel cells, several rounds of the iteration") { parcur(0.75, 2, 0, false); }
HARNESS(par_curRc3, "three parallel cells with contact resistances that differ") { parcur(0.85, 3, 0.0008, false); }
HARNESS(par_curRc, "two parallel cells with contact resistances") { parcur(0.75, 2, 0.002, false); }

HARNESS(par_redis, "redistributing the current keeps the total and equalises the voltages")
{
  const int n = sv::integer("n", 2, 3);
  auto m = mod<Module_p>("p", parCells(n, 5));
  const double I0 = m->I();
  const auto s0 = states(*m);
  const auto st = m->redistributeCurrent(false, false);
  sv::check_eq(m->I(), I0, "redistributing the current keeps the total", 1e-7);
  if (isStatusSuccessful(st)) kcl(*m, std::vector<double>(n, 0), 2e-9);
  const auto s1 = states(*m);
  for (size_t i = 0; i < s0.size(); i++)
    if (i % 6 != 2 || i + 1 == s0.size()) sv::check_same(s0[i], s1[i], "redistributing changes currents only");
  sv::check(isStatusSuccessful(st), "redistribution converges");
}
HARNESS(par_setv, "setVoltage on a parallel block: reached, or reported and reverted")
{
  auto cs = parCells(2, 5);
  for (auto &c : cs) dynamic_cast<Cell_Bucket *>(c.get())->Rdc = 0.005;
  auto m = mod<Module_p>("p", std::move(cs));
  const auto s0 = states(*m);
  const double vset = sv::real("vset", 2.8, 4.1);
  const auto st = m->setVoltage(vset, true, false);
  if (isStatusBad(st))
    same(s0, states(*m), "a voltage that was not reached leaves the block as it was");
  else {
    sv::check_eq(m->V(), vset, "after setVoltage the block has the requested voltage", 1e-8);
    kcl(*m, { 0, 0 }, 2e-8);
  }
}
HARNESS(par_step, "a time step of a parallel block keeps the total current and equal voltages")
{
  const int n = 2;
  auto cs = parCells(n, 5);
  std::vector<double> soc;
  auto m = mod<Module_p>("p", std::move(cs), true, sv::boolean("parallel"));
  const double I0 = m->I();
  std::vector<double> i0, s0, cap;
  for (int i = 0; i < n; i++) i0.push_back((*m)[i]->I()), s0.push_back(dynamic_cast<Cell *>((*m)[i].get())->SOC()), cap.push_back((*m)[i]->Cap());
  const double dt = sv::real("dt", 0, 10);
  m->timeStep_CC(dt, 1);
  sv::check_eq(m->I(), I0, "a time step of a parallel block keeps the total current", 1e-7);
  kcl(*m, { 0, 0 }, 2e-9);
  for (int i = 0; i < n; i++) sv::check_eq(dynamic_cast<Cell *>((*m)[i].get())->SOC(), s0[i] - i0[i] * dt / 3600 / cap[i], "each cell is stepped with the current it carried");
}
