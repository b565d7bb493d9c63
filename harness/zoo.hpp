// One of every kind of storage unit, in any state.
#pragma once
#include "mod.hpp"
#include "spm.hpp"

namespace h {
enum Kind { BUCKET, ECM1, ECM2, SPM, SERIES, PARALLEL, NESTED, BATTERY, NKIND };

inline std::unique_ptr<StorageUnit> zoo(int kind, const std::string &p, bool top = true)
{
  switch (kind) {
  case BUCKET: return anyCell<0>(p, 8, 0.05, 0.49);
  case ECM1: return anyCell<1>(p, 8, 0.05, 0.49);
  case ECM2: return anyCell<2>(p, 8, 0.51, 0.95);
  case SPM: {
    auto c = std::make_unique<Cell_SPM>();
    anySpm(*c, mid(), p);
    return c;
  }
  case SERIES: {
    auto m = mod<Module_s>(p + "s", anyCells<1>(2, p, 8), top);
    auto rc = anyRc(p, 2);
    m->setRcontact(rc);
    m->setT(realn(p + "Tm", 280, 340));
    return m;
  }
  case PARALLEL: {
    auto m = mod<Module_p>(p + "p", anyCells<0>(2, p, 8), top);
    auto rc = anyRc(p, 2);
    m->setRcontact(rc);
    m->setT(realn(p + "Tm", 280, 340));
    return m;
  }
  case NESTED: {
    std::vector<Deep_ptr<StorageUnit>> k;
    k.push_back(zoo(PARALLEL, p + "a", false));
    k.push_back(zoo(ECM1, p + "b", false));
    auto m = mod<Module_s>(p + "n", std::move(k), top);
    auto rc = anyRc(p, 2);
    m->setRcontact(rc);
    m->setT(realn(p + "Tm", 280, 340));
    return m;
  }
  default: {
    auto b = std::make_unique<Battery>(p + "batt");
    Deep_ptr<Module> m(std::unique_ptr<Module>(dynamic_cast<Module *>(zoo(SERIES, p, false).release())));
    b->setSeriesandParallel(2, 3);
    b->setModule(std::move(m));
    b->setT(realn(p + "Tbatt", 280, 340));
    return b;
  }
  }
}
// the cells of a unit, in order
inline void cellsOf(StorageUnit &u, std::vector<Cell *> &v)
{
  if (auto c = dynamic_cast<Cell *>(&u)) v.push_back(c);
  else if (auto m = dynamic_cast<Module *>(&u))
    for (auto &k : m->getSUs()) cellsOf(*k, v);
  else if (auto b = dynamic_cast<Battery *>(&u)) cellsOf(*b->getCells(), v);
}
inline std::vector<Cell *> cellsOf(StorageUnit &u)
{
  std::vector<Cell *> v;
  cellsOf(u, v);
  return v;
}
// every part of a unit, at every level
inline void partsOf(StorageUnit &u, std::vector<StorageUnit *> &v)
{
  v.push_back(&u);
  if (auto m = dynamic_cast<Module *>(&u))
    for (auto &k : m->getSUs()) partsOf(*k, v);
  else if (auto b = dynamic_cast<Battery *>(&u)) partsOf(*b->getCells(), v);
}
inline std::vector<StorageUnit *> partsOf(StorageUnit &u)
{
  std::vector<StorageUnit *> v;
  partsOf(u, v);
  return v;
}
inline bool isModule(int k) { return k >= SERIES; }
} // namespace h
