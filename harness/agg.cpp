// Properties every storage unit shares: state vectors, copies, aggregated queries.
#include "zoo.hpp"
using namespace slide;
using namespace h;

// something that changes the unit
static void disturb(StorageUnit &u, int op, const std::string &p)
{
  const double x = realn(p + "x", 0, 1);
  auto cs = cellsOf(u);
  switch (op) {
  case 0:
    for (auto c : cs) c->setCurrent(10 * x - 5, false, false);
    break;
  case 1: // only the cells: modules iterate over currents
    for (auto c : cs) c->timeStep_CC(x, 1);
    break;
  case 2: u.setT(280 + 20 * x); break;
  case 3: {
    auto s = states(u);
    s[s.size() - 1 - (cs.size() == 1 && !dynamic_cast<Module *>(&u) ? 0 : 0)] += x;
    putStates(u, s, false);
  } break;
  case 4: cs.back()->setCapacity(1 + x); break;
  }
}
static constexpr int NDIST = 5;

// ------------------------------------------------------------------------------------------------- state vectors
static void roundtrip(int kind)
{
  auto a = zoo(kind, "a_"), b = zoo(kind, "b_");
  std::vector<double> s{ 1.5, 2.5 };
  a->getStates(s);
  sv::check(s.size() > 2 && s[0] == 1.5 && s[1] == 2.5, "getStates appends to what the caller already collected");
  s.erase(s.begin(), s.begin() + 2);
  const auto n = s.size();
  auto t = s;
  t.push_back(-7);
  t.push_back(-8);
  std::span<double> sp{ t };
  const bool chk = false;
  const auto st = b->setStates(sp, chk, false);
  sv::check(st == Status::Success, "the state vector of one unit is accepted by another of the same structure");
  sv::check(sp.size() == 2, "a unit consumes exactly its own entries of a state vector");
  if (sp.size() == 2) sv::check(sp[0] == -7 && sp[1] == -8, "a unit consumes its entries from the front");
  same(states(*b), s, "a state vector is read back as it was set");
  same(states(*a), s, "reading the states changes nothing");
  sv::check(t.size() == n + 2, "sizes");
  const auto ca = cellsOf(*a), cb = cellsOf(*b);
  for (size_t i = 0; i < ca.size(); i++) {
    sv::check_same(ca[i]->I(), cb[i]->I(), "every cell gets its own entries");
    sv::check_same(ca[i]->T(), cb[i]->T(), "every cell gets its own entries");
    sv::check_same(ca[i]->SOC(), cb[i]->SOC(), "every cell gets its own entries");
  }
  const auto pa = partsOf(*a), pb = partsOf(*b);
  for (size_t i = 0; i < pa.size(); i++) sv::check_same(pa[i]->T(), pb[i]->T(), "the temperature of every part is part of the state");
}
HARNESS(rt_bucket, "state vector of a bucket cell") { roundtrip(BUCKET); }
HARNESS(rt_ecm1, "state vector of an ECM cell") { roundtrip(ECM1); }
HARNESS(rt_ecm2, "state vector of an ECM cell with two RC pairs") { roundtrip(ECM2); }
HARNESS(rt_spm, "state vector of an SPM cell") { roundtrip(SPM); }
HARNESS(rt_ser, "state vector of a series string") { roundtrip(SERIES); }
HARNESS(rt_par, "state vector of a parallel block") { roundtrip(PARALLEL); }
HARNESS(rt_nest, "state vector of a nested module") { roundtrip(NESTED); }
HARNESS(rt_batt, "state vector of a battery") { roundtrip(BATTERY); }

static void restore(int kind)
{
  auto a = zoo(kind, "a_");
  a->V();
  const auto s = states(*a);
  std::unique_ptr<StorageUnit> b(a->copy());
  const double v = a->V(), ocv = a->getOCV(), r = a->getRtot();
  disturb(*b, sv::integer("op", 0, 3), "d_");
  b->V();
  if (putStates(*b, s, false) != Status::Success) sv::fail("the states a unit had are accepted back");
  same(states(*b), s, "restored states are the states that were saved");
  sv::check_eq(b->V(), v, "a unit whose states were restored has its voltage back");
  sv::check_eq(b->getOCV(), ocv, "a unit whose states were restored has its open circuit voltage back");
  sv::check_eq(b->getRtot(), r, "a unit whose states were restored has its resistance back");
}
HARNESS(rs_ecm1, "saving and restoring an ECM cell") { restore(ECM1); }
HARNESS(rs_spm, "saving and restoring an SPM cell") { restore(SPM); }
HARNESS(rs_ser, "saving and restoring a series string") { restore(SERIES); }
HARNESS(rs_par, "saving and restoring a parallel block") { restore(PARALLEL); }
HARNESS(rs_nest, "saving and restoring a nested module") { restore(NESTED); }
HARNESS(rs_batt, "saving and restoring a battery") { restore(BATTERY); }

// ------------------------------------------------------------------------------------------------- copies
static void alike(StorageUnit &a, StorageUnit &b, const char *l)
{
  same(states(a), states(b), l);
  sv::check_eq(a.V(), b.V(), l);
  sv::check_eq(a.getOCV(), b.getOCV(), l);
  sv::check_eq(a.getRtot(), b.getRtot(), l);
  sv::check_eq(a.Cap(), b.Cap(), l);
  sv::check_eq(a.I(), b.I(), l);
  sv::check_eq(a.T(), b.T(), l);
  sv::check_eq(a.getThermalSurface(), b.getThermalSurface(), l);
  sv::check_eq(a.getThotSpot(), b.getThotSpot(), l);
  sv::check_eq(a.Vmin(), b.Vmin(), l);
  sv::check_eq(a.VMAX(), b.VMAX(), l);
  sv::check(a.getNcells() == b.getNcells(), l);
  sv::check(a.getID() == b.getID(), l);
  const auto pa = partsOf(a), pb = partsOf(b);
  sv::check(pa.size() == pb.size(), l);
  for (size_t i = 0; i < pa.size(); i++) {
    sv::check_same(pa[i]->T(), pb[i]->T(), l);
    sv::check_same(pa[i]->Cap(), pb[i]->Cap(), l);
    sv::check_eq(pa[i]->getRtot(), pb[i]->getRtot(), l);
    sv::check(pa[i]->blockDegAndTherm == pb[i]->blockDegAndTherm, l);
  }
}
static void parents(StorageUnit &u, const std::string &id)
{
  for (auto c : cellsOf(u)) {
    sv::check(c->getFullID().compare(0, id.size(), id) == 0, "the parts of a copy belong to the copy");
    StorageUnit *top = c;
    while (top->getParent()) top = top->getParent();
    sv::check(top == &u, "the parts of a copy belong to the copy");
  }
}
static void copying(int kind)
{
  auto a = zoo(kind, "a_");
  if (sv::boolean("queried")) a->V();
  if (sv::boolean("blocked")) a->setBlockDegAndTherm(true);
  std::unique_ptr<StorageUnit> b(a->copy());
  alike(*a, *b, "a copy equals the original");
  const auto s = states(*a);
  const double v = a->V(), cap = a->Cap(), r = a->getRtot();
  const std::string id = a->getID();
  const int op = sv::integer("op", 0, NDIST - 1);
  const bool first = sv::boolean("change_original");
  StorageUnit &ch = first ? *a : *b, &kept = first ? *b : *a;
  ch.setID("changed");
  disturb(ch, op, "d_");
  same(states(kept), s, "changing one of original and copy leaves the other alone");
  sv::check_eq(kept.V(), v, "changing one of original and copy leaves the other alone");
  sv::check_eq(kept.Cap(), cap, "changing one of original and copy leaves the other alone");
  sv::check_eq(kept.getRtot(), r, "changing one of original and copy leaves the other alone");
  sv::check(kept.getID() == id, "changing one of original and copy leaves the other alone");
  if (isModule(kind)) {
    parents(*b, first ? id : "changed");
    parents(*a, first ? "changed" : id);
  }
  if (first) {
    a.reset(); // the copy outlives the original
    same(states(*b), s, "the copy outlives the original");
    for (auto c : cellsOf(*b)) sv::check(c->getFullID().find(id) == 0 || !isModule(kind), "the copy outlives the original");
  }
}
HARNESS(cp_bucket, "copy of a bucket cell") { copying(BUCKET); }
HARNESS(cp_ecm2, "copy of an ECM cell") { copying(ECM2); }
HARNESS(cp_spm, "copy of an SPM cell") { copying(SPM); }
HARNESS(cp_ser, "copy of a series string") { copying(SERIES); }
HARNESS(cp_par, "copy of a parallel block") { copying(PARALLEL); }
HARNESS(cp_nest, "copy of a nested module") { copying(NESTED); }
HARNESS(cp_batt, "copy of a battery") { copying(BATTERY); }

static void copystep(int kind)
{
  auto a = zoo(kind, "a_");
  std::unique_ptr<StorageUnit> b(a->copy());
  const double dt = sv::real("dt", 0, 1);
  auto ca = cellsOf(*a), cb = cellsOf(*b);
  if (kind == PARALLEL || kind == NESTED) // cell by cell: the current iteration is a property of its own
    for (size_t i = 0; i < ca.size(); i++) ca[i]->timeStep_CC(dt, 2), cb[i]->timeStep_CC(dt, 2);
  else
    a->timeStep_CC(dt, 2), b->timeStep_CC(dt, 2);
  const auto s = states(*a), t = states(*b);
  for (size_t i = 0; i < s.size(); i++) sv::check_eq(s[i], t[i], "original and copy evolve alike");
  sv::check_eq(a->V(), b->V(), "original and copy evolve alike");
}
HARNESS(cs_ecm1, "original and copy of an ECM cell evolve alike") { copystep(ECM1); }
HARNESS(cs_spm, "original and copy of an SPM cell evolve alike") { copystep(SPM); }
HARNESS(cs_ser, "original and copy of a series string evolve alike") { copystep(SERIES); }
HARNESS(cs_nest, "original and copy of a nested module evolve alike") { copystep(NESTED); }
HARNESS(cs_batt, "original and copy of a battery evolve alike") { copystep(BATTERY); }

// ------------------------------------------------------------------------------------------------- module setStates
static void setall(int kind)
{
  auto a = zoo(kind, "a_");
  const auto s = states(*a);
  auto t = s;
  // new temperatures, charges and currents, any of them possibly illegal
  const size_t w = kind == PARALLEL ? 6 : 7;
  const int n = (int)cellsOf(*a).size();
  const bool chk = sv::boolean("check"); // with the voltage check the temperatures stay legal: they do not matter for the voltage
  auto T = [&](const std::string &k) { return chk ? realn(k, 280, 330) : realn(k, 200, 400); };
  if (kind == NESTED) { // two bucket cells and the temperature of their block, an ECM cell, the temperature of the string
    const size_t at[] = { 0, 6, 13 };
    for (int i = 0; i < 3; i++) t[at[i] + 1] = chk ? realn(nm("soc", i), i == 1 ? 0.51 : -0.5, i == 1 ? 0.95 : 0.49) : realn(nm("soc", i), -0.5, 1.5);
    t[6] = T("t1");
    t[12] = T("tmod1");
    t[20] = T("tmod2");
  } else {
    for (int i = 0; i < n; i++) {
      if (i == 1 || kind != BATTERY) t[i * w] = T(nm("t", i));
      t[i * w + 1] = chk && kind == BATTERY ? realn(nm("soc", i), i ? 0.51 : -0.5, i ? 1.5 : 0.49) : realn(nm("soc", i), -0.5, 1.5);
      t[i * w + 2] = realn(nm("i", i), -8, 8);
    }
    t[n * w] = T("tmod");
    if (kind == BATTERY) t[n * w + 1] = T("tbatt");
  }
  const auto st = putStates(*a, t, chk);
  if (isStatusBad(st)) same(states(*a), s, "a refused state vector leaves every part as it was");
  else {
    same(states(*a), t, "an accepted state vector is set everywhere");
    for (auto c : cellsOf(*a)) {
      sv::check(c->validStates(false), "an accepted state vector leaves every cell in a legal state");
      double v;
      if (chk) sv::check(isStatusOK(c->checkVoltage(v, false)), "with the voltage check, an accepted state vector keeps every cell in its safety window");
    }
  }
  bool legal = true; // without the check, exactly the legal vectors are accepted
  if (!chk) {
    for (auto c : cellsOf(*a)) (void)c;
    const double lo = settings::Tmin_Cell_K, hi = settings::Tmax_Cell_K, lm = PhyConst::Kelvin, hm = PhyConst::Kelvin + 75;
    auto in = [&](double x, double l, double u) { return x >= l && x <= u; };
    if (kind == SERIES || kind == PARALLEL) {
      for (int i = 0; i < n; i++) legal = legal && in(t[i * w], lo, hi) && in(t[i * w + 1], 0, 1);
      legal = legal && in(t[n * w], lm, hm);
      sv::check(legal == !isStatusBad(st), "exactly the legal state vectors are accepted");
    }
  }
}
HARNESS(all_ser, "setStates on a series string: all or nothing") { setall(SERIES); }
HARNESS(all_par, "setStates on a parallel block: all or nothing") { setall(PARALLEL); }
HARNESS(all_nest, "setStates on a nested module: all or nothing") { setall(NESTED); }
HARNESS(all_batt, "setStates on a battery: all or nothing") { setall(BATTERY); }

// ------------------------------------------------------------------------------------------------- aggregates
static void aggregate(int kind)
{
  auto a = zoo(kind, "a_");
  const auto cs = cellsOf(*a);
  sv::check(a->getNcells() == cs.size() * (kind == BATTERY ? 6 : 1), "the number of cells is counted through all levels");
  switch (sv::integer("what", 0, 2)) {
  case 0: {
    const double vh = a->getVhigh(), vl = a->getVlow();
    bool ish = false, isl = false;
    for (auto c : cs) {
      const double v = c->V();
      sv::check_le(v, vh, "no cell has a higher voltage than the reported highest");
      sv::check_le(vl, v, "no cell has a lower voltage than the reported lowest");
      if (v == vh) ish = true;
      if (v == vl) isl = true;
    }
    sv::check(ish, "the highest cell voltage is that of a cell");
    sv::check(isl, "the lowest cell voltage is that of a cell");
    break;
  }
  case 1: {
    if (sv::boolean("warm")) a->setT(sv::real("Tmod", 280, 340));
    const double hot = a->getThotSpot();
    bool isT = false;
    std::vector<double> tm{ a->T() };
    if (auto b = dynamic_cast<Battery *>(a.get())) tm.push_back(b->getCells()->T());
    if (kind == NESTED) tm.push_back((*dynamic_cast<Module *>(a.get()))[0]->T());
    for (auto c : cs) tm.push_back(c->T());
    for (auto t : tm) {
      sv::check_le(t, hot, "no part is hotter than the reported hot spot");
      if (t == hot) isT = true;
    }
    sv::check(isT, "the hot spot is the temperature of a part");
    break;
  }
  default: {
    Status worst = Status::Success;
    for (auto c : cs) {
      double x;
      worst = std::max(worst, c->checkVoltage(x, false));
    }
    double v;
    sv::check(a->checkVoltage(v, false) == worst, "the voltage status of a module is the worst status of its cells");
    sv::check_eq(v, a->V(), "checkVoltage reports the voltage of the unit");
  }
  }
}
HARNESS(ag_ser, "highest, lowest, hottest, worst: series") { aggregate(SERIES); }
HARNESS(ag_par, "highest, lowest, hottest, worst: parallel") { aggregate(PARALLEL); }
HARNESS(ag_nest, "highest, lowest, hottest, worst: nested") { aggregate(NESTED); }
HARNESS(ag_batt, "highest, lowest, hottest, worst: battery") { aggregate(BATTERY); }

static void blocking(int kind)
{
  auto a = zoo(kind, "a_");
  StorageUnit &u = *a;
  const bool b = sv::boolean("block");
  u.setBlockDegAndTherm(!b);
  u.setBlockDegAndTherm(b);
  for (auto c : cellsOf(u)) {
    StorageUnit *p = c;
    for (; p; p = p->getParent()) sv::check(p->blockDegAndTherm == b, "blocking degradation and thermal models reaches every part");
  }
}
HARNESS(block_nest, "blocking reaches every part of a nested module") { blocking(NESTED); }
HARNESS(block_batt, "blocking reaches every part of a battery") { blocking(BATTERY); }

HARNESS(cool_load, "the cooling energy of a module is that of all its levels and is reported once")
{
  auto a = zoo(NESTED, "a_");
  auto m = dynamic_cast<Module *>(a.get());
  auto in = dynamic_cast<Module *>((*m)[0].get());
  const double t1 = sv::real("t1", 0, 100), t2 = sv::real("t2", 0, 100);
  m->getCoolSystem()->dstate(0, 0, t1);
  in->getCoolSystem()->dstate(0, 0, t2);
  const double e1 = m->getCoolSystem()->getEoperation(), e2 = in->getCoolSystem()->getEoperation();
  sv::check_le(0, e1, "cooling costs energy");
  sv::check_le(0, e2, "cooling costs energy");
  sv::check_eq(m->getCoolingLoad(), e1 + e2, "the cooling energy of a module is that of all its levels");
  sv::check_eq(m->getCoolingLoad(), 0, "the cooling energy is reported once");
}

HARNESS(setsus, "connecting cells: parents, count, refusal of cells that belong elsewhere")
{
  auto c1 = anyCells<0>(2, "a", 8), c2 = anyCells<0>(3, "b", 8);
  auto m1 = mod<Module_s>("m1", std::move(c1));
  auto m2 = std::make_unique<Module_p>("m2", settings::T_ENV, true, false, 3, 1, 1);
  const bool foreign = sv::boolean("foreign");
  if (foreign) c2[sv::integer("which", 0, 2)]->setParent(m1.get());
  bool thrown = false;
  try {
    m2->setSUs(c2, false, false);
  } catch (int) {
    thrown = true;
  }
  sv::check(thrown == foreign, "a cell that belongs to another module is refused");
  if (!thrown) {
    sv::check(m2->getNSUs() == 3 && m2->getNcells() == 3, "the cells of a module are counted");
    for (int i = 0; i < 3; i++) sv::check((*m2)[i]->getParent() == m2.get(), "connected cells belong to the module");
    sv::check((*m2)[1]->getFullID() == "m2_" + (*m2)[1]->getID(), "the full name starts with that of the parent");
  } else
    sv::check(m2->getNSUs() == 0, "a refused connection connects nothing");
}
