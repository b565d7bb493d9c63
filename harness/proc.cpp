// Experiments: cycle ageing, use-case ageing, balancing and check-ups.
#include "zoo.hpp"
#include <fstream>
#include <sstream>
using namespace slide;
using namespace h;

namespace {
using Row = std::vector<double>;
constexpr const char *RES = "the results of the experiment are those of its actions";

// A cell whose open circuit voltage is so steep that a few steps of a small current cross the operating window:
// 1/25 C moves it by 75 mV per second.
constexpr double K = 90000 * 1.5 / 20;
std::unique_ptr<Cell_Bucket> steep(const std::string &p, double capmin = 1e3, double capmax = 1e4, bool settles = false, double slope = K, double dv = 0.00375)
{
  auto c = std::make_unique<Cell_Bucket>(p + "cell", realn(p + "cap", capmin, capmax), 0.5);
  // at a constant voltage, a cell which settles loses nearly all of its current within one step
  c->Rdc = settles ? 0.999 * (slope * 2 / (3600 * capmin)) : slope == K ? realn(p + "R", 0, 1e-6) : 1e-7;
  c->OCV.x = linspace_fix(0, 1, 2);
  c->OCV.y = linspace_fix(3.45 - slope * 0.25, 3.45 + slope * 0.75, 2);
  Row s{ realn(p + "T", 280, 310), 0.25 + realn(p + "V0", -1, 1) * dv / slope, 0, slope == K ? realn(p + "time", 0, 1e5) : 1e5, realn(p + "Ah", 0, 1e3), realn(p + "Wh", 0, 1e3) };
  putStates(*c, s, false);
  return c;
}
void near(double a, double b, const char *l) // numbers are written with six digits
{
  sv::check_le(std::abs(a - b) * 1e-6, 1e-11 * std::abs(b) + 1e-17, l, 0);
}
Row numbers(const char *s)
{
  Row r;
  while (*s) {
    char *e = nullptr;
    const double v = sv::number(s, &e);
    sv::check(e != s && (*e == ',' || !*e), "a row consists of numbers");
    if (e == s) break;
    r.push_back(v);
    s = *e ? e + 1 : e;
  }
  return r;
}
std::vector<std::string> lines(const std::string &f)
{
  std::vector<std::string> r;
  std::ifstream in(f);
  sv::check(in.good(), "a file is written");
  for (std::string l; std::getline(in, l);)
    if (!l.empty()) r.push_back(l);
  return r;
}
int columns(const std::string &l) { return 1 + (int)std::count(l.begin(), l.end(), ','); }
void sameRow(const Row &a, const Row &b, const char *l)
{
  sv::check(a.size() == b.size(), l);
  for (size_t i = 0; i < a.size() && i < b.size(); i++) near(a[i], b[i], l);
}
std::string results(const std::string &f) { return (PathVar::results / f).string(); }
void stale(const std::string &f)
{
  std::ofstream o(f);
  o << "left by an earlier experiment\n1,2,3\n";
}
double load(StorageUnit &u) // energy for cooling since the last time, and losses of the converter
{
  if (auto m = dynamic_cast<Module *>(&u)) return m->getCoolingLoad();
  if (auto b = dynamic_cast<Battery *>(&u)) return b->getCoolingLoad();
  return 0;
}
double losses(StorageUnit &u)
{
  auto b = dynamic_cast<Battery *>(&u);
  return b ? b->getAndResetConvLosses() : 0;
}
std::vector<CoolSystem *> cooling(StorageUnit &u)
{
  std::vector<CoolSystem *> r;
  for (auto s : partsOf(u)) {
    if (auto m = dynamic_cast<Module *>(s)) r.push_back(m->getCoolSystem());
    if (auto b = dynamic_cast<Battery *>(s)) r.push_back(b->getCoolSystem());
  }
  return r;
}
void anyCooling(StorageUnit &u, StorageUnit &copy)
{
  size_t k = 0;
  const auto same = cooling(copy);
  for (auto c : cooling(u)) {
    auto &d = c->coolData.cData;
    d.Eoperate = realn(nm("cool_E", k), 0, 1e6);
    d.Qevac_life = realn(nm("cool_Qe", k), -1e6, 1e6);
    d.Qabs_life = realn(nm("cool_Qa", k), -1e6, 1e6);
    d.t_life = realn(nm("cool_t", k), 0, 1e6);
    same[k++]->coolData.cData = d;
  }
}
enum { CELL, STRING, BATT, SPMCELL };
std::unique_ptr<StorageUnit> unit(int kind, bool cv)
{
  if (kind == CELL) return cv ? steep("", 1e3, 1e3, true) : steep("");
  if (kind == SPMCELL) {
    auto c = std::make_unique<Cell_SPM>("cell", DEG_ID{}, 1.1, 0.9, 1.2, 0.8);
    auto s = states(*c);
    s[State_SPM::i_LLI] = realn("LLI", 0, 1); // does not change the voltage
    s[s.size() - 3] = 1e5, s[s.size() - 2] = 1e3, s[s.size() - 1] = 4e3; // a capacity test has far too many steps for symbolic sums
    putStates(*c, s, false);
    return c;
  }
  std::vector<Deep_ptr<StorageUnit>> v;
  v.push_back(steep("a", 1e3, 1e3));
  v.push_back(steep("b", 1100, 1100));
  auto m = mod<Module_s>("s", std::move(v), kind == STRING);
  if (kind == STRING) return m;
  auto b = std::make_unique<Battery>("batt");
  b->setSeriesandParallel(2, 3);
  b->setModule(Deep_ptr<Module>(std::unique_ptr<Module>(m.release())));
  return b;
}

// what an experiment should do, replayed with the cycler on a copy of the unit
struct Replay
{
  StorageUnit &u;
  Cycler c;
  ThroughputData th{};
  std::vector<Row> actions;       // one for every action
  std::vector<Row> cells;         // one for every cell and check-up
  std::vector<std::string> names; // of the cells
  explicit Replay(StorageUnit &x) : u(x), c(&x, "replay") { c.setDiagnostic(true); }
  void act(const ThroughputData &b) { actions.push_back({ th.Ah() - b.Ah(), th.Wh() - b.Wh(), load(u) / 3600, losses(u) / 3600 }); }
  void checkUp(int cycles)
  {
    ThroughputData t{};
    Cycler(&u, "prep").setDiagnostic(true).CC(-u.Cap() / 25, 0.75 * u.Vmax() + 0.25 * u.Vmin(), TIME_INF, 2, 0, t);
    std::vector<Cell *> v;
    cellsOf(u, v);
    for (auto x : v) {
      Row r;
      for (auto k : x->getVariations()) r.push_back(k);
      const auto now = x->getThroughputs();
      for (double k : { th.Ah(), (double)cycles, now.time(), now.Ah(), now.Wh() }) r.push_back(k);
      std::unique_ptr<Cell> y(static_cast<Cell *>(x->copy()));
      r.push_back(Cycler(y.get(), "cap").testCapacity());
      const auto s = states(*x);
      const bool spm = dynamic_cast<Cell_SPM *>(x);
      for (size_t i = 0; i < s.size(); i++)
        if (!spm || i < State_SPM::i_zp || i >= State_SPM::i_zn + settings::nch) r.push_back(s[i]); // without concentrations
      cells.push_back(r), names.push_back(x->getFullID());
    }
  }
};
void checkThroughput(const std::string &id, const std::vector<Row> &want)
{
  const auto l = lines(results(id + "_throughput.csv"));
  sv::check(!l.empty() && l.size() == want.size() + 1, "every action has one row after the header, and nothing else is in the file");
  if (l.empty()) return;
  sv::check(columns(l[0]) == 4 && l[0].rfind("left", 0) != 0, "the header names every column");
  for (size_t i = 0; i < want.size() && i + 1 < l.size(); i++) sameRow(numbers(l[i + 1].c_str()), want[i], "a row has the charge, energy, cooling energy and losses of its action");
}
void checkCells(const std::string &id, const Replay &r, int checkups)
{
  const auto l = lines(id + "_checkUp.csv");
  size_t k = 0, heads = 0;
  for (auto &s : l) {
    if (s.rfind("ID,", 0) == 0) {
      heads++;
      sv::check(columns(s) == 12, "the header names every column"); // the last of them stands for all states
      continue;
    }
    const auto c = s.find(',');
    sv::check(c != std::string::npos, "a row has numbers");
    if (k < r.cells.size()) {
      sv::check(s.substr(0, c) == r.names[k], "a row for every cell in order");
      sameRow(numbers(s.c_str() + c + 1), r.cells[k], "a row has the parameters, throughput, capacity and states of its cell");
    }
    k++;
  }
  sv::check(k == r.cells.size() && (int)heads == checkups, "every check-up has a row for every cell");
}
void checkModules(StorageUnit &u)
{
  const auto l = lines(results(u.getFullID() + "_checkModules_overall.csv"));
  std::vector<StorageUnit *> m;
  for (auto s : partsOf(u))
    if (!dynamic_cast<Cell *>(s)) m.push_back(s);
  const auto cool = cooling(u);
  sv::check(l.size() == m.size() + 1 && columns(l[0]) == 5, "every module and battery has a row after the header");
  for (size_t i = 0; i < m.size() && i + 1 < l.size(); i++) {
    const auto c = l[i + 1].find(',');
    sv::check(l[i + 1].substr(0, c) == m[i]->getFullID(), "a row for every module in order");
    auto &d = cool[i]->coolData.cData;
    sameRow(numbers(l[i + 1].c_str() + c + 1), { (double)m[i]->getNcells(), d.t_life, d.Qevac_life, d.Qabs_life }, "a row has the heat and time of its cooling system");
  }
}

// In diagnostic mode, an action also ends when a cell reaches its limit. What follows then is covered by age_limit.
void age(int kind, bool cv, bool limit = false)
{
  sv::private_files();
  auto u = unit(kind, cv);
  std::unique_ptr<StorageUnit> copy(u->copy());
  anyCooling(*u, *copy);
  const int n = kind == SPMCELL ? 0 : sv::integer("Ncycle", kind == CELL ? 0 : 1, sv::param("cycles", 2)), nc = kind == SPMCELL ? 1 : sv::integer("Ncheck", 1, 2);
  const bool full = kind == CELL && sv::boolean("full"), quiet = kind != CELL || sv::boolean("quiet");
  const double C = kind == CELL && sv::boolean("slow") ? 0.01 : 0.04;
  const double Vmax = full ? u->Vmax() : u->Vmax() * 4 / 4.2, Vmin = full ? u->Vmin() : u->Vmin() * 2.9 / 2.7;
  const auto id = u->getFullID();
  stale(results(id + "_throughput.csv"));
  stale(results(id + "_checkModules_overall.csv"));
  stale(results(id + "_state.csv"));
  sv::observe("V", u->V());

  Procedure p(false, 3.5, 0, quiet);
  p.cycleAge(u.get(), n, nc, 1, cv, C, C, Vmax, Vmin);

  Replay r(*copy);
  Row last;
  bool hit = false;
  auto ok = [&](Status s) {
    if (s == Status::Vmax_violation || s == Status::Vmin_violation) {
      if (!limit) sv::stop();
      return hit = true;
    }
    return s == Status::ReachedVoltageLimit;
  };
  int i = 0, ups = 0;
  for (; i < n; i++) {
    last = states(*copy);
    if (i % nc == 0) r.checkUp(i), ups++;
    auto b = r.th;
    auto st = r.c.CC(-C * copy->Cap(), Vmax, TIME_INF, 2, 0, r.th);
    r.act(b);
    if (!ok(st) || r.th.Ah() - b.Ah() < 1e-5) break; // a charge that fails or does nothing ends the experiment
    if (cv) {
      b = r.th;
      st = r.c.CV(Vmax, 0.1, TIME_INF, 2, 0, r.th);
      r.act(b);
      if (st != Status::ReachedCurrentLimit) break;
    }
    b = r.th;
    st = r.c.CC(C * copy->Cap(), Vmin, TIME_INF, 2, 0, r.th);
    r.act(b);
    if (!ok(st)) break;
    if (cv) {
      b = r.th;
      st = r.c.CV(Vmin, 0.1, TIME_INF, 2, 0, r.th);
      r.act(b);
      if (st != Status::ReachedCurrentLimit) break;
    }
  }
  sv::observe("cycles", i);
  r.checkUp(i), ups++;

  if (limit) {
    if (hit) sv::check(lines(results(id + "_throughput.csv")).size() == r.actions.size() + 1, "an experiment goes on after a cell has reached its voltage limit");
    return;
  }
  same(states(*u), states(*copy), "the unit goes through the actions of the experiment and nothing else");
  checkThroughput(id, r.actions);
  checkCells(id, r, ups);
  if (kind != CELL) checkModules(*u);
  if (!quiet && n) {
    const auto l = lines(results(id + "_state.csv"));
    sv::check(l.size() == last.size() + 1, "the states at the start of the last cycle are written");
    if (l.size() != last.size() + 1) return;
    near(numbers(l[0].c_str())[0], i < n ? i : n - 1, "the number of the last cycle is written");
    for (size_t k = 0; k < last.size(); k++) near(numbers(l[k + 1].c_str())[0], last[k], "the states at the start of the last cycle are written");
  }
}

void use(bool limit)
{
  sv::private_files();
  // 1C moves the voltage by 0.45 V per second
  auto u = steep("", 1e3, 1e3, false, 1634, limit ? 0.003 : 0.02); // with this slope, a check-up and the cycle after it can end at the limits of the cell without passing them
  std::unique_ptr<StorageUnit> copy(u->copy());
  stale(results(u->getFullID() + "_throughput.csv"));
  sv::observe("V", u->V());
  Procedure p(false, 3.5, 0, true);
  p.useCaseAge(u.get(), 0);

  Replay r(*copy);
  const double C = copy->Cap(), hi = copy->Vmax(), lo = copy->Vmin();
  r.c.CC(C / 2, lo, TIME_INF, 1, 0, r.th);
  bool hit = false;
  auto rest = [&](double h) {
    const auto b = r.th;
    const bool ok = r.c.rest(h * 3600, 1, 0, r.th) == Status::ReachedTimeLimit;
    r.act(b);
    return ok;
  };
  auto cc = [&](double I, double V) {
    const auto b = r.th;
    const auto s = r.c.CC(I, V, TIME_INF, 1, 0, r.th);
    r.act(b);
    return s;
  };
  int i = 0, ups = 0;
  for (; i < 20; i++) {
    if (i % 10 == 0) r.checkUp(i), ups++;
    if (!rest(4)) break;
    cc(-C, hi);
    if (!rest(1)) break;
    cc(C, lo);
    if (!rest(4)) break;
    cc(-C / 2, hi);
    if (!rest(4)) break;
    const auto s = cc(C / 2, lo);
    if (s == Status::Vmin_violation) {
      if (!limit) sv::stop();
      hit = true;
    } else if (s != Status::ReachedVoltageLimit) break;
    if (!rest(5)) break;
  }
  sv::observe("cycles", i);
  r.checkUp(i), ups++;
  if (limit) {
    if (hit) sv::check(lines(results(u->getFullID() + "_throughput.csv")).size() == r.actions.size() + 1, "an experiment goes on after a cell has reached its voltage limit");
    return;
  }
  same(states(*u), states(*copy), "the unit goes through the actions of the experiment and nothing else");
  checkThroughput(u->getFullID(), r.actions);
  checkCells(u->getFullID(), r, ups);
}
} // namespace

HARNESS(use_cell, "use case ageing of a cell") { use(false); }
HARNESS(use_limit, "use case ageing of a cell up to its limits") { use(true); }
HARNESS(age_cell, "cycle ageing of a cell") { age(CELL, false); }
HARNESS(age_cv, "cycle ageing of a cell with phases of constant voltage") { age(CELL, true); }
HARNESS(age_limit, "cycle ageing of a cell up to its limits") { age(CELL, false, true); }
HARNESS(age_spm, "check-up of an SPM cell") { age(SPMCELL, false); }
HARNESS(age_ser, "cycle ageing of a string") { age(STRING, false); }
HARNESS(age_batt, "cycle ageing of a battery") { age(BATT, false); }

namespace {
// A cell whose open circuit voltage moves by 75 mV per second at C/2, and whose current is nearly gone after one second at a constant voltage.
std::unique_ptr<Cell_Bucket> quick(const std::string &p, double dv = 0.2)
{
  constexpr double slope = 540, cap = 1e3;
  auto c = std::make_unique<Cell_Bucket>(p + "cell", cap, 0.5);
  c->Rdc = 0.999 * slope / (3600 * cap);
  c->OCV.x = linspace_fix(0, 1, 2);
  c->OCV.y = linspace_fix(3.45 - slope * 0.25, 3.45 + slope * 0.75, 2);
  Row s{ realn(p + "T", 280, 310), 0.25 + realn(p + "V0", -dv, dv) / slope, 0, realn(p + "time", 0, 1e5), realn(p + "Ah", 0, 1e3), realn(p + "Wh", 0, 1e3) };
  putStates(*c, s, false);
  return c;
}
std::unique_ptr<StorageUnit> unbalanced(int kind)
{
  if (kind == 0) return quick("");
  std::vector<Deep_ptr<StorageUnit>> in;
  in.push_back(quick("a"));
  in.push_back(quick("b"));
  std::unique_ptr<Module> m;
  if (kind == 2) m = mod<Module_p>("p", std::move(in), true);
  else {
    m = mod<Module_s>("s", std::move(in), false);
    if (kind == 1) {
      std::vector<Deep_ptr<StorageUnit>> out;
      out.push_back(Deep_ptr<StorageUnit>(std::move(m)));
      out.push_back(quick("c", 0.01));
      m = mod<Module_s>("top", std::move(out), true);
    }
  }
  if (kind != 3) return m;
  auto b = std::make_unique<Battery>("batt");
  b->setSeriesandParallel(2, 3);
  b->setModule(Deep_ptr<Module>(std::move(m)));
  return b;
}
void balance(int kind)
{
  sv::private_files();
  auto u = unbalanced(kind);
  const double Vset = 3.45 + realn("Vset", -0.1, 0.1);
  sv::observe("V", u->V()); // also known to the unit
  std::vector<Cell *> cells;
  cellsOf(*u, cells);
  std::vector<double> before;
  for (auto c : cells) before.push_back(c->SOC());

  Procedure p(true, Vset, 0, true);
  p.balanceCheckup(u.get(), true, false, 0, 0, "");

  for (size_t i = 0; i < cells.size(); i++) {
    sv::check_same(cells[i]->I(), 0, "a balanced cell has no current");
    sv::check_le(std::abs(cells[i]->V() - Vset), settings::MODULE_P_V_RELTOL * 3.55 + settings::MODULE_P_V_ABSTOL + 1e-3, "a balanced cell has the voltage of the procedure");
  }
  std::unique_ptr<StorageUnit> copy(u->copy());
  putStates(*copy, states(*u), false); // computed from scratch
  sv::check_eq(u->V(), copy->V(), "after balancing, the voltage of the unit is that of its cells");
  for (auto s : partsOf(*u)) sv::check(!s->blockDegAndTherm, "degradation and heating go on after balancing");
}
} // namespace
HARNESS(bal_cell, "balancing a cell") { balance(0); }
HARNESS(bal_nest, "balancing nested strings") { balance(1); }
HARNESS(bal_par, "balancing parallel cells") { balance(2); }
HARNESS(bal_batt, "balancing a battery") { balance(3); }
