// Heat of cells, modules and batteries; built with the coupled thermal model (settings T_MODEL 2).
#include "mod.hpp"
#include "spm.hpp"
using namespace slide;
using namespace h;
static_assert(settings::T_MODEL == 2);

namespace {
struct Owner : Module_s // a parent that only exists
{
};
double heatCap(const Cell_SPM &c) { return c.rho * c.Cp * c.geo.L * c.geo.elec_surf; }
double coolCap(const CoolSystem &c) { return c.fluid_rho * c.fluid_cp * c.fluid_V; }
SpmOpt optT(bool T = true)
{
  auto o = mid();
  o.imax = 8;
  o.T = T;
  return o;
}
// a cell whose heat is given instead of computed
// by default within ranges that keep every temperature legal
int cellNo = 0;
std::unique_ptr<Cell_SPM> hot(const std::string &p, double tim, double lo = 295, double hi = 305)
{
  auto c = std::make_unique<Cell_SPM>();
  c->st.T() = realn(p + "T", lo, hi);
  c->Vcell_valid = false;
  c->Therm_Qgen = realn(p + "Q", -50, 200);
  c->Therm_Qgentot = realn(p + "Qtot", 0, 1000);
  c->Therm_time = tim;
  c->geo.Acell = realn(p + "A", 0.005, 0.2);
  c->geo.L = c->geo.L * 2;
  c->Cp = 700 + 60 * (cellNo++ % 5);
  return c;
}
} // namespace

HARNESS(heat_gen, "the heat generated in a cell is its losses plus the reversible heat")
{
  Cell_SPM c;
  anySpm(c, optT());
  Owner o;
  c.setParent(&o); // the temperature is left to the parent
  const double q0 = sv::real("Q0", -100, 100), t0 = sv::real("t0", 0, 100);
  c.Therm_Qgen = q0;
  c.Therm_time = t0;
  const double T0 = c.T();
  const double dt = sv::real("dt", 0.1, 3);
  const int n = sv::integer("n", 1, 2);
  c.timeStep_CC(dt, n);
  sv::check_same(c.T(), T0, "the parent sets the temperature");
  sv::check_eq(c.Therm_time, t0 + n * dt, "the time of the heat is counted");
  // open circuit voltage at the surface of the particles
  auto [Dpt, Dnt] = c.calcDiffConstant();
  auto [i_app, jp, jn] = c.calcMolarFlux();
  auto [cps, cns] = c.calcSurfaceConcentration(jp, jn, Dpt, Dnt);
  const double zp = cps / c.Cmaxpos, zn = cns / c.Cmaxneg;
  const double dOCV = c.OCV_curves.dOCV_tot.interp(zp, true, true);
  const double ocv = c.OCV_curves.OCV_pos.interp(zp, true, true) - c.OCV_curves.OCV_neg.interp(zn, true, true) + (T0 - c.T_ref) * dOCV;
  const double P = c.I() * (ocv - c.V()); // electrical losses [W]
  const double Q = (c.Therm_Qgen - q0) / (n * dt);
  sv::check_eq(Q, P - c.I() * T0 * dOCV, "the heat is the electrical loss plus the entropic heat", 1e-6);
  sv::check_le(0, Q + c.I() * T0 * dOCV, "losses heat the cell", 1e-6);
}

HARNESS(heat_alone, "a cell on its own is heated by its losses and cooled by the environment")
{
  Cell_SPM c;
  anySpm(c, optT(false));
  c.T_env = sv::real("Tenv", 280, 310);
  c.st.T() = sv::real("T", 280, 325);
  c.Vcell_valid = false;
  Owner o;
  Cell_SPM r(c); // the same cell, which only collects its heat
  r.setParent(&o);
  const double T0 = c.T(), tot0 = sv::real("tot0", 0, 100);
  c.Therm_Qgentot = tot0;
  const double dt = sv::real("dt", 0.1, 3);
  const int n = sv::integer("n", 1, 2);
  r.timeStep_CC(dt, n);
  int err = 0;
  try {
    c.timeStep_CC(dt, n);
  } catch (int e) {
    err = e;
  }
  const double T1 = T0 + (r.Therm_Qgen + c.Qch * c.geo.Acell * (c.T_env - T0) * n * dt) / heatCap(c);
  if (err) {
    sv::check(err == 9, "only an illegal temperature is an error");
    sv::check(T1 > c.Tmax() - 1e-9 || T1 < c.Tmin() + 1e-9, "a legal temperature is not an error");
  } else {
    sv::check_eq(c.T(), T1, "the temperature follows the heat balance", 1e-6);
    sv::check_le(c.T(), c.Tmax(), "the temperature is legal");
    sv::check_le(c.Tmin(), c.T(), "the temperature is legal");
  }
  sv::check_same(c.Therm_Qgen, 0, "the heat is used once");
  sv::check_same(c.Therm_time, 0, "the heat is used once");
  sv::check_eq(c.thermal_getTotalHeat(), tot0 + r.Therm_Qgen, "the total heat is the sum of the heat of the steps", 1e-6);
}

HARNESS(heat_blocked, "a cell with the thermal model blocked keeps its temperature")
{
  Cell_SPM c;
  anySpm(c, optT());
  c.setBlockDegAndTherm(true);
  const double q = sv::real("Q", -10, 10);
  c.Therm_Qgen = q;
  const double T0 = c.T();
  c.timeStep_CC(sv::real("dt", 0, 3), sv::integer("n", 1, 2));
  sv::check_same(c.T(), T0, "blocking keeps the temperature");
  sv::check_same(c.Therm_Qgen, q, "blocking generates no heat");
}

HARNESS(heat_exchange, "a cell exchanges heat with up to three neighbours")
{
  const double tim = sv::real("time", 0, 100);
  auto c = hot("", sv::real("own_time", 0, 100), 274, 332);
  const int n = sv::integer("n", 0, 3);
  double T[3], K[3], A[3];
  for (int i = 0; i < n; i++) T[i] = realn(nm("Tn", i), 250, 400), K[i] = realn(nm("K", i), 0, 100), A[i] = realn(nm("An", i), 0.005, 0.2);
  const double T0 = c->T(), Q = c->Therm_Qgen, tot = c->Therm_Qgentot, t = c->Therm_time;
  double E = Q;
  for (int i = 0; i < n; i++) E += K[i] * std::min(A[i], c->geo.Acell) * (T[i] - T0) * t;
  const double Tn = T0 + E / heatCap(*c);
  int err = 0;
  double T1 = 0;
  try {
    T1 = c->thermalModel(n, T, K, A, tim);
  } catch (int e) {
    err = e;
  }
  if (err == 8) sv::check_le(1, std::abs(t - tim), "a clock that agrees is not an error", 1e-9);
  else {
    sv::check_le(std::abs(t - tim), 1, "clocks that disagree by more than a second are an error");
    if (err) sv::check(err == 9 && (Tn > c->Tmax() - 1e-9 || Tn < c->Tmin() + 1e-9), "a legal temperature is not an error");
    else {
      sv::check_eq(T1, Tn, "the new temperature follows the heat balance", 1e-6);
      sv::check_le(T1, c->Tmax(), "the new temperature is legal");
      sv::check_le(c->Tmin(), T1, "the new temperature is legal");
    }
  }
  sv::check_same(c->T(), T0, "the parent sets the new temperature");
  sv::check_same(c->Therm_Qgen, 0, "the heat is used once");
  sv::check_same(c->Therm_time, 0, "the heat is used once");
  sv::check_eq(c->thermal_getTotalHeat(), tot + Q, "the heat is added to the total once");
}

// heat balance over a whole unit -------------------------------------------------------------------------------------
namespace {
struct Sum
{
  double cells = 0, gen = 0, coolant = 0, ac = 0;
};
void coolOf(CoolSystem *cs, const std::string &p, double lo, double hi)
{
  cs->Tcoolant = realn(p + "Tc", lo, hi);
}
std::unique_ptr<Module> hotModule(const std::string &p, bool series, int n, double tim, bool top, double lo = 295, double hi = 305)
{
  std::vector<Deep_ptr<StorageUnit>> v;
  for (int i = 0; i < n; i++) v.push_back(hot(p + nm("c", i) + "_", tim, lo, hi));
  std::unique_ptr<Module> m;
  if (series) m = mod<Module_s>(p + "s", std::move(v), top);
  else m = mod<Module_p>(p + "p", std::move(v), top);
  coolOf(m->getCoolSystem(), p, lo, hi);
  m->therm.time = tim;
  m->therm.Qcontact = realn(p + "Qc", 0, 20);
  m->therm.A = realn(p + "Am", 0.01, 0.5);
  m->therm.k_cell2cell = realn(p + "k", 0, 10);
  return m;
}
void before(StorageUnit &u, std::vector<double> &T, double &gen)
{
  if (auto c = dynamic_cast<Cell_SPM *>(&u)) T.push_back(c->T()), gen += c->Therm_Qgen;
  else if (auto m = dynamic_cast<Module *>(&u)) {
    T.push_back(m->T());
    gen += m->therm.Qcontact;
    for (auto &s : m->getSUs()) before(*s, T, gen);
  }
}
double after(StorageUnit &u, const std::vector<double> &T, size_t &k, bool skipTop)
{
  double e = 0;
  if (auto c = dynamic_cast<Cell_SPM *>(&u)) e += heatCap(*c) * (c->T() - T[k++]);
  else if (auto m = dynamic_cast<Module *>(&u)) {
    if (skipTop) k++;
    else e += coolCap(*m->getCoolSystem()) * (m->T() - T[k++]);
    for (auto &s : m->getSUs()) e += after(*s, T, k, false);
  }
  return e;
}
void clean(StorageUnit &u)
{
  if (auto c = dynamic_cast<Cell_SPM *>(&u)) sv::check_same(c->Therm_Qgen, 0, "the heat of a cell is used once"), sv::check_same(c->Therm_time, 0, "the heat of a cell is used once");
  else if (auto m = dynamic_cast<Module *>(&u)) {
    sv::check_same(m->therm.time, 0, "the time of a module is used once");
    sv::check_same(m->therm.Qcontact, 0, "the contact heat is used once");
    for (auto &s : m->getSUs()) clean(*s);
  }
}
void balance(std::unique_ptr<Module> m, double tim, double Qac)
{
  std::vector<double> T;
  double gen = 0;
  before(*m, T, gen);
  double dummy[1] = { 0 };
  double Tn = 0;
  int err = 0;
  try {
    Tn = m->thermalModel(0, dummy, dummy, dummy, tim);
  } catch (int e) {
    err = e;
  }
  if (err) {
    sv::check(err == 9 || err == 99, "only illegal temperatures are errors");
    return;
  }
  sv::check_same(m->T(), T[0], "the caller sets the temperature of the module");
  m->setT(Tn);
  size_t k = 0;
  const double e = after(*m, T, k, false);
  sv::check_eq(e, gen - Qac * tim, "the heat generated is the heat stored in cells and coolant and the heat removed", 1e-5);
  clean(*m);
}
} // namespace

HARNESS(bal_mod, "energy balance of a module with its own air conditioning")
{
  const double tim = sv::real("tim", 0.1, 3);
  const int n = sv::integer("n", 1, sv::param("n", 3));
  auto m = hotModule("m", sv::boolean("series"), n, tim, true);
  auto *hv = dynamic_cast<CoolSystem_HVAC *>(m->getCoolSystem());
  sv::check(hv, "a top level module has an air conditioning system");
  const double Q = sv::real("Qac", 0, 50);
  hv->Q_ac = Q;
  hv->flowrate = hv->flowrate * sv::integer("fan", 0, 1);
  balance(std::move(m), tim, Q);
}
HARNESS(bal_nest, "energy balance of a module of modules")
{
  const double tim = sv::real("tim", 0.1, 3);
  std::vector<Deep_ptr<StorageUnit>> v;
  v.push_back(hotModule("a", true, 2, tim, false, 295, 305));
  if (sv::boolean("second")) v.push_back(hotModule("b", false, 1, tim, false, 295, 305));
  else v.push_back(hot("b", tim, 295, 305));
  auto m = mod<Module_s>("top", std::move(v), true);
  coolOf(m->getCoolSystem(), "top", 295, 305);
  m->therm.time = tim;
  m->therm.Qcontact = sv::real("Qc", 0, 20);
  m->therm.A = sv::real("Am", 0.01, 0.5);
  auto *hv = dynamic_cast<CoolSystem_HVAC *>(m->getCoolSystem());
  const double Q = sv::real("Qac", 0, 50);
  hv->Q_ac = Q;
  balance(std::move(m), tim, Q);
}
HARNESS(bal_batt, "energy balance of a battery")
{
  const double tim = sv::real("tim", 0.1, 3);
  auto up = hotModule("m", true, 2, tim, false, 295, 305);
  const int ns = sv::integer("ns", 1, 2), np = sv::integer("np", 1, 2);
  Battery b("batt");
  b.setSeriesandParallel(ns, np);
  b.setModule(Deep_ptr<Module>(std::move(up)));
  auto *m = b.getCells();
  auto *hv = b.getCoolSystem();
  coolOf(hv, "batt", 295, 305);
  const double Q = sv::real("Qac", 0, 50);
  hv->Q_ac = Q;
  std::vector<double> T;
  double gen = 0;
  before(*m, T, gen);
  const double Tb = b.T(), loss = b.conv.getLosses(b.V(), b.I());
  double dummy[1] = { 0 };
  int err = 0;
  try {
    b.thermalModel(0, dummy, dummy, dummy, tim);
  } catch (int e) {
    err = e;
  }
  if (err) {
    sv::check(err == 9 || err == 99, "only illegal temperatures are errors");
    return;
  }
  size_t k = 0;
  const double e = after(*m, T, k, false), eb = coolCap(*hv) * (b.T() - Tb);
  sv::check_eq((eb + ns * np * e) * 1e-1, (ns * np * gen + (loss - Q) * tim) * 1e-1, "the heat generated is the heat stored in cells and coolant and the heat removed", 1e-5);
  clean(*m);
}

HARNESS(mod_edge, "time keeping and illegal temperatures of a module")
{
  const bool clocks = sv::boolean("clocks"); // clocks that disagree, or extreme temperatures
  const double tim = clocks ? sv::real("tim", 0, 20) : 10 * sv::integer("dur", 0, 2);
  std::vector<Deep_ptr<StorageUnit>> v;
  v.push_back(hot("c", clocks ? sv::real("cell_time", 0, 20) : tim, clocks ? 300 : 274, clocks ? 300 : 332));
  auto m = mod<Module_s>("m", std::move(v), false);
  auto *c = dynamic_cast<Cell_SPM *>(m->getSUs()[0].get());
  c->geo.Acell = 0.05;
  if (clocks) m->getCoolSystem()->Tcoolant = 300;
  else {
    coolOf(m->getCoolSystem(), "", 273, 348);
    m->getCoolSystem()->fluid_V = 0.5; // little air
  }
  const double mt = clocks ? sv::real("mod_time", 0, 20) : tim;
  m->therm.time = mt;
  m->therm.Qcontact = 1;
  const double ct = c->Therm_time;
  double T[1] = { clocks ? 300 : sv::real("Tn", 200, 400) }, K[1] = { 20 }, A[1] = { 0.3 };
  double Tn = 0;
  int err = 0;
  try {
    Tn = m->thermalModel(1, T, K, A, tim);
  } catch (int e) {
    err = e;
  }
  sv::check_same(m->therm.time, 0, "the time of a module is used once, also after an error");
  sv::check_same(m->therm.Qcontact, 0, "the contact heat is used once, also after an error");
  sv::check(!err || err == 98 || err == 99 || err == 8 || err == 9, "an error is a clock or a temperature");
  if (err == 98) sv::check_le(1, std::abs(mt - tim), "a clock that agrees is not an error");
  else sv::check_le(std::abs(mt - tim), 1, "clocks that disagree by more than a second are an error");
  if (err == 8) sv::check_le(1, std::abs(ct - tim), "a clock that agrees is not an error");
  if (!err && tim > 0) {
    sv::check_le(std::abs(ct - tim), 1, "clocks that disagree by more than a second are an error");
    sv::check_le(PhyConst::Kelvin, Tn, "the coolant temperature is legal");
    sv::check_le(Tn, PhyConst::Kelvin + 75, "the coolant temperature is legal");
  }
}

HARNESS(mod_neigh, "heat from the neighbours goes into the coolant of a module")
{
  const double tim = sv::real("tim", 0.1, 3);
  auto m = hotModule("m", sv::boolean("series"), 2, tim, false);
  const double Tm = m->T();
  const int n = sv::integer("n", 1, 2);
  double T[2], K[2], A[2];
  for (int i = 0; i < n; i++) T[i] = realn(nm("Tn", i), 290, 310), K[i] = realn(nm("K", i), 0, 50), A[i] = realn(nm("An", i), 0.005, 0.2);
  double in = 0;
  for (int i = 0; i < n; i++) in += K[i] * std::min(A[i], m->therm.A) * (T[i] - Tm) * tim;
  std::vector<double> T0;
  double gen = 0;
  before(*m, T0, gen);
  double Tn = 0;
  try {
    Tn = m->thermalModel(n, T, K, A, tim);
  } catch (int) {
    return;
  }
  m->setT(Tn);
  size_t k = 0;
  sv::check_eq(after(*m, T0, k, false), gen + in, "heat from the neighbours goes into the module", 1e-5);
}

// the time step drives the model ---------------------------------------------------------------------------------------
namespace {
struct Flat : Cell_Bucket // a cell whose voltage makes up for the contact resistances before it: the branches are balanced
{
  using Cell_Bucket::Cell_Bucket;
  std::vector<double> *rc = nullptr;
  Module *m = nullptr;
  double V() override
  {
    double v = 3.5;
    if (m)
      for (size_t i = 0; i < m->getNSUs(); i++) {
        double Ii = 0;
        for (size_t j = i; j < m->getNSUs(); j++) Ii += m->getSUs()[j]->I();
        v += (*rc)[i] * Ii;
        if (m->getSUs()[i].get() == this) break;
      }
    return v;
  }
  Flat *copy() override { return new Flat(*this); }
};
template <typename M>
void stepChild()
{
  std::vector<Deep_ptr<StorageUnit>> v;
  const int n = sv::integer("n", 1, 3);
  for (int i = 0; i < n; i++) {
    auto c = std::make_unique<Flat>(nm("c", i), 10, 0.3);
    c->Rdc = 1e-4; // so little that the currents of parallel cells need not be redistributed
    c->st.I() = realn(nm("I", i), -2, 2);
    v.push_back(std::move(c));
  }
  auto m = mod<M>("m", std::move(v), false);
  auto rc = anyRc("", n, 1e-4);
  if (std::is_same_v<M, Module_p>)
    for (auto &c : m->getSUs()) dynamic_cast<Flat *>(c.get())->rc = &rc, dynamic_cast<Flat *>(c.get())->m = m.get();
  m->setRcontact(rc);
  Owner o;
  m->setParent(&o);
  if constexpr (std::is_same_v<M, Module_s>)
    for (auto &c : m->getSUs()) dynamic_cast<Cell_Bucket *>(c.get())->st.I() = dynamic_cast<Cell_Bucket *>(m->getSUs()[0].get())->st.I();
  const double q0 = sv::real("q0", 0, 1), t0 = sv::real("t0", 0, 10);
  m->therm.Qcontact = q0;
  m->therm.time = t0;
  std::vector<double> I;
  for (auto &c : m->getSUs()) I.push_back(c->I());
  const double dt = sv::real("dt", 0, 2);
  const int ns = sv::integer("steps", 1, 2);
  const bool blk = sv::boolean("block");
  m->blockDegAndTherm = blk;
  const double T0 = m->T();
  m->timeStep_CC(dt, ns);
  sv::check_same(m->T(), T0, "the parent sets the temperature");
  double P = 0; // what the resistances take: resistor i carries the current of every branch behind it
  for (int i = 0; i < n; i++) {
    double Ii = 0;
    if (std::is_same_v<M, Module_s>) Ii = I[0];
    else
      for (int j = i; j < n; j++) Ii += I[j];
    P += rc[i] * Ii * Ii;
  }
  sv::check_eq((m->therm.Qcontact - q0) * 1e4, blk ? 0 : P * ns * dt * 1e4, "the heat of the contact resistances is collected");
  sv::check_eq(m->therm.time, blk ? t0 : t0 + ns * dt, "the time of the heat is counted");
}
} // namespace
HARNESS(step_ser, "time steps of a series module collect the heat of its contacts") { stepChild<Module_s>(); }
HARNESS(step_par, "time steps of a parallel module collect the heat of its contacts") { stepChild<Module_p>(); }

HARNESS(step_top, "a time step of a top level module runs the thermal model for its time")
{
  std::vector<Deep_ptr<StorageUnit>> v;
  for (int i = 0; i < 2; i++) {
    auto c = std::make_unique<Cell_SPM>();
    shortCurves(*c, true);
    c->setC(0.65, 0.45);
    c->st.T() = i ? 299 : 303;
    c->st.I() = i ? v[0]->I() : sv::real("I", -5, 5);
    c->Vcell_valid = false;
    v.push_back(std::move(c));
  }
  auto m = mod<Module_s>("m", std::move(v), true);
  auto rc = anyRc("", 2);
  m->setRcontact(rc);
  coolOf(m->getCoolSystem(), "", 295, 305);
  auto *hv = dynamic_cast<CoolSystem_HVAC *>(m->getCoolSystem());
  const double Q = hv->Q_ac;
  const double I = m->I();
  // the same cells, which only collect their heat
  std::vector<double> T;
  double gen = 0;
  const double dt = sv::real("dt", 0.1, 3);
  const int n = sv::integer("n", 1, 2);
  Owner o;
  for (auto &u : m->getSUs()) {
    Cell_SPM r(*dynamic_cast<Cell_SPM *>(u.get()));
    r.setParent(&o);
    r.timeStep_CC(dt, n);
    gen += r.Therm_Qgen;
  }
  double none = 0;
  before(*m, T, none);
  try {
    m->timeStep_CC(dt, n);
  } catch (int e) {
    sv::check(e == 9 || e == 99, "only illegal temperatures are errors");
    return;
  }
  size_t k = 0;
  sv::check_eq(after(*m, T, k, false), gen + (rc[0] + rc[1]) * I * I * dt * n - Q * dt * n, "a time step balances the heat of all its parts", 1e-4);
  clean(*m);
}

HARNESS(step_ctrl, "a time step controls the cooling at every level by the temperatures after it")
{
  const int strat = sv::integer("strategy", 2, 5), top = sv::integer("top", 0, 2);
  const bool off = sv::boolean("off");
  auto cell = [&](const std::string &p) {
    auto c = std::make_unique<Flat>(p, 10, 0.3);
    c->st.T() = p == "b" ? 300 : realn(p + "T", 290, 333);
    return c;
  };
  auto level = [&](auto *kind, std::vector<Deep_ptr<StorageUnit>> &&v, const std::string &p, bool first) {
    using M = std::remove_pointer_t<decltype(kind)>;
    auto m = mod<M>(p, std::move(v), first, false, first || top == 2 ? strat : 1);
    m->getCoolSystem()->Tcoolant = first ? realn(p + "Tc", 290, 340) : 295;
    if (off) m->getCoolSystem()->flowrate = 0;
    return m;
  };
  Module_p *P = nullptr;
  Module_s *S = nullptr;
  std::vector<Deep_ptr<StorageUnit>> a, b;
  a.push_back(cell("a0"));
  a.push_back(cell("a1"));
  std::vector<CoolSystem *> cs;
  std::vector<StorageUnit *> su;
  std::unique_ptr<StorageUnit> u;
  if (top == 2) {
    auto m = level(S, std::move(a), "m", false);
    auto bt = std::make_unique<Battery>("batt");
    bt->setModule(Deep_ptr<Module>(std::unique_ptr<Module>(m.release())));
    bt->getCoolSystem()->Tcoolant = sv::real("Tb", 290, 340);
    if (off) bt->getCoolSystem()->flowrate = 0;
    u = std::move(bt);
  } else {
    b.push_back(level(P, std::move(a), "m", false));
    b.push_back(cell("b"));
    u = top ? std::unique_ptr<StorageUnit>(level(S, std::move(b), "top", true)) : level(P, std::move(b), "top", true);
  }
  std::vector<double> flow;
  auto each = [&](auto &&self, StorageUnit &x, auto &&f) -> void {
    if (auto bt = dynamic_cast<Battery *>(&x)) f(*bt->getCoolSystem(), *bt->getCells(), *bt), self(self, *bt->getCells(), f);
    else if (auto m = dynamic_cast<Module *>(&x)) {
      f(*m->getCoolSystem(), *m, *m);
      for (auto &k : m->getSUs()) self(self, *k, f);
    }
  };
  each(each, *u, [&](CoolSystem &c, Module &, StorageUnit &) { flow.push_back(c.flowrate); });
  u->timeStep_CC(1, 1);
  size_t k = 0;
  each(each, *u, [&](CoolSystem &c, Module &m, StorageUnit &x) {
    double hot = 0;
    for (auto &s : m.getSUs()) hot = std::max(hot, s->T());
    std::unique_ptr<CoolSystem> r(c.copy());
    r->flowrate = flow[k++];
    const double f = c.flowrate;
    r->control(hot, x.getThotSpot());
    if (k > 1) return; // the coolant of inner levels changes again after they are controlled
    sv::check_eq(f * 1e3, r->flowrate * 1e3, "a time step controls the cooling by the temperatures after it");
  });
}
