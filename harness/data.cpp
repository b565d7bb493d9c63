// Data storage: what is stored is what the unit reports, and every stored point is written exactly once.
#include "zoo.hpp"
#include <fstream>
#include <sstream>
using namespace slide;
using namespace h;

namespace {
constexpr bool timeData = settings::DATASTORE_CELL == settings::cellDataStorageLevel::storeTimeData;
constexpr bool moduleData = settings::DATASTORE_MODULE == settings::moduleDataStorageLevel::storeTimeData;
using Row = std::vector<double>;
using Rows = std::vector<Row>;
Row numbers(const char *s, bool &bad)
{
  Row r;
  while (*s) {
    char *e = nullptr;
    const double v = sv::number(s, &e);
    if (e == s) { bad = true; return r; }
    r.push_back(v);
    s = *e == ',' ? e + 1 : e;
    if (*e && *e != ',') { bad = true; return r; }
  }
  return r;
}
struct Doc
{
  Rows rows, states;
  bool bad = false, open = false, ended = true;
};
Doc read(const std::string &name)
{
  Doc d;
  std::ifstream in(name);
  d.open = in.good();
  std::string l;
  while (std::getline(in, l)) {
    if (in.eof()) d.ended = false;
    if (l.rfind("States:,", 0) == 0) d.states.push_back(numbers(l.c_str() + 8, d.bad));
    else if (!l.empty()) d.rows.push_back(numbers(l.c_str(), d.bad));
  }
  return d;
}
void near(double a, double b, const char *l) // numbers are written with six digits
{
  sv::check_le(std::abs(a - b) / (1 + std::abs(b)) * 1e-2, 1e-7, l, 0);
}
void sameRows(const Rows &a, const Rows &b, const char *l)
{
  sv::check(a.size() == b.size(), l);
  for (size_t i = 0; i < a.size() && i < b.size(); i++) {
      sv::check(a[i].size() == b[i].size(), l);
    for (size_t j = 0; j < a[i].size() && j < b[i].size(); j++) near(a[i][j], b[i][j], l);
  }
}
Row point(Cell &c)
{
  const auto t = c.getThroughputs();
  return { c.I(), c.V(), c.SOC(), c.T(), t.time(), t.Ah(), t.Wh() };
}
Row point(Module &m)
{
  const auto s = states(m);
  // a module stores its counters after the states of its children and its temperature
  return { m.st_module.Ah(), m.st_module.Wh(), m.st_module.time(), m.I(), m.V(), m.T() };
}
std::string file(Cell &c, const std::string &p) { return (PathVar::results / (p + "_" + c.getFullID() + "_cellData.csv")).string(); }
std::string file(Module &m, const std::string &p) { return p + "_" + m.getFullID() + "_ModuleData.csv"; }

struct Model // what should be in the memory and the files of a unit
{
  StorageUnit *u;
  std::vector<Cell *> cells;
  std::vector<Module *> mods;
  std::vector<Rows> mem, out, mmem, mout, st;
  explicit Model(StorageUnit &x) : u(&x)
  {
    for (auto s : partsOf(x)) {
      if (auto c = dynamic_cast<Cell *>(s)) cells.push_back(c);
      if (auto m = dynamic_cast<Module *>(s)) mods.push_back(m);
    }
    mem.resize(cells.size()), out.resize(cells.size()), st.resize(cells.size()), mmem.resize(mods.size()), mout.resize(mods.size());
  }
  void stored()
  {
    if constexpr (timeData)
      for (size_t i = 0; i < cells.size(); i++) mem[i].push_back(point(*cells[i]));
    if constexpr (moduleData)
      for (size_t i = 0; i < mods.size(); i++) mmem[i].push_back(point(*mods[i]));
  }
  void written()
  {
    for (size_t i = 0; i < cells.size(); i++) {
      out[i].insert(out[i].end(), mem[i].begin(), mem[i].end()), mem[i].clear();
      if constexpr (settings::data::writeCumulativeData) {
        auto v = cells[i]->viewStates();
        st[i].push_back(Row(v.begin(), v.end()));
      }
    }
    for (size_t i = 0; i < mods.size(); i++) mout[i].insert(mout[i].end(), mmem[i].begin(), mmem[i].end()), mmem[i].clear();
  }
  void compare(const std::string &p, bool any)
  {
    for (size_t i = 0; i < cells.size(); i++) {
      const auto d = read(file(*cells[i], p));
      sv::check(!any || d.open, "every cell writes its file");
      sv::check(!d.bad, "a file holds rows of numbers");
      sv::check(d.ended, "the last row is complete");
      sameRows(d.rows, out[i], "every stored point of a cell is written once, in a row of its own");
      sameRows(d.states, st[i], "the states of a cell are written with its data");
    }
    if constexpr (moduleData)
      for (size_t i = 0; i < mods.size(); i++) {
        const auto d = read(file(*mods[i], p));
        sv::check(!any || d.open, "every module writes its file");
        sv::check(!d.bad, "a file holds rows of numbers");
        sv::check(d.ended, "the last row is complete");
        sameRows(d.rows, mout[i], "every stored point of a module is written once, in a row of its own");
      }
  }
};
void change(StorageUnit &u, int k)
{
  if (dynamic_cast<Cell *>(&u)) u.timeStep_CC(realn(nm("dt", k), 0, 2), 1);
  else
    for (auto s : partsOf(u)) {
      static int n = 0;
      s->setT(realn(nm("T", k) + nm("_", n++), 280, 320));
    }
}
void script(int kind, int n, bool steps)
{
  const std::string p = "pre";
  auto u = zoo(kind, "");
  Model m(*u);
  u->V();
  bool any = false;
  for (int k = 0; k < n; k++) {
    const int op = sv::integer(nm("op", k).c_str(), 0, steps ? 2 : 1);
    const auto before = states(*u);
    if (op == 2) change(*u, k);
    else {
      if (op == 0) u->storeData(), m.stored();
      else u->writeData(p), m.written(), any = true;
      same(states(*u), before, "storing and writing data changes no state");
    }
  }
  m.compare(p, any);
  u->writeData(p), m.written();
  m.compare(p, true);
}
} // namespace

HARNESS(data_cell, "any sequence of storing, writing and time steps of a cell") { sv::private_files(), script(sv::integer("kind", BUCKET, SPM), sv::param("ops", 3), true); }
HARNESS(data_unit, "any sequence of storing, writing and time steps of a module or battery")
{
  sv::private_files();
  script(sv::integer("kind", SERIES, BATTERY), sv::param("ops", 3), true);
}

// points stored during the phases of a cycler ------------------------------------------------------------------------
HARNESS(data_phase, "a phase stores a point at its start, at its end and regularly in between")
{
  const int phase = sv::integer("phase", 0, 2), ndt = sv::integer("ndt", 0, 4), k = sv::integer("steps", 1, sv::param("steps", 7));
  Cell_Bucket c("c", 10, 0.3);
  c.Rdc = 1e-3;
  const double dt = sv::real("dt", 1, 4), tlim = k * dt - sv::real("frac", 0.1, 0.9) * dt;
  c.st.SOC() = sv::real("SOC", 0.3, 0.4);
  c.st.time() = sv::real("t0", 0, 1e4);
  const double t0 = c.st.time(), soc0 = c.SOC(), I = phase ? sv::real("I", -1, -0.5) : 0;
  if (phase == 2) {
    c.setCurrent(0);
    c.st.I() = I;
  }
  Cycler cyc(&c, "pre");
  ThroughputData th{};
  Status s;
  if (phase == 0) s = cyc.rest(tlim, dt, ndt, th);
  else if (phase == 1) s = cyc.CC(I, 4, tlim, dt, ndt, th);
  else s = cyc.CV(c.V(), 0.01, tlim, dt, ndt, th);
  sv::check(s == Status::ReachedTimeLimit, "the phase takes its time");
  const auto &d = c.cellData.data;
  if (ndt == 0) {
    sv::check(d.empty(), "no point is stored unless asked for");
    return;
  }
  sv::check(d.size() % 7 == 0 && d.size() >= 14, "a phase stores a point at its start and at its end");
  const size_t n = d.size() / 7;
  auto at = [&](size_t i) { return d[7 * i + 4]; };
  sv::check_eq(at(0), t0, "the first point is stored before the first step", 1e-8);
  sv::check_eq(d[2], soc0, "the first point is stored before the first step");
  sv::check_eq(at(n - 1), c.st.time(), "the last point is stored after the last step", 1e-8);
  sv::check_eq(d[7 * (n - 1) + 2], c.SOC(), "the last point is stored after the last step");
  for (size_t i = 0; i + 1 < n; i++) {
    const double gap = (at(i + 1) - at(i)) / dt;
    sv::check_le(gap, phase == 2 ? ndt : 2 * ndt - 1, "a point is stored every so many steps", 1e-7);
    // the points at the end may be closer: the last step is shorter and the end is always stored
    if (i + 3 < n) sv::check_le(ndt, gap, "points are not stored more often", 1e-7);
  }
}
HARNESS(data_limit, "a cycler writes the data when the memory is full")
{
  sv::private_files();
  const int kind = sv::integer("kind", 0, 2);
  auto u = zoo(kind ? kind == 1 ? SERIES : BATTERY : BUCKET, "");
  u->V();
  Cycler cyc(u.get(), "pre");
  Model m(*u);
  const int n = sv::integer("n", 0, sv::param("points", 8)), w = sv::integer("write_before", 0, 8);
  for (int i = 0; i < n; i++) {
    if (i == w) cyc.writeData();
    static int k = 0;
    for (auto s : partsOf(*u)) s->setT(realn(nm("T", k++), 280, 320));
    cyc.storeData();
    m.stored();
    for (auto c : m.cells) sv::check(c->cellData.data.size() <= 7 * settings::CELL_NDATA_MAX, "a cell never holds more points than allowed");
  }
  cyc.writeData();
  m.written();
  for (auto &s : m.st) s.clear();
  for (size_t i = 0; i < m.cells.size(); i++) {
    const auto d = read(file(*m.cells[i], "pre"));
    sv::check(!d.bad && d.ended, "a file holds rows of numbers");
    sameRows(d.rows, m.out[i], "every stored point is written once, in order");
    sv::check(m.cells[i]->cellData.data.empty(), "written points are not kept");
  }
}
