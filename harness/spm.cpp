// Single-particle-model cell: voltage cache, lithium and charge balance, heat.
#include "spm.hpp"
using namespace slide;
using namespace h;

// ---------------------------------------------------------------------------------------------------- cache
static void op(Cell_SPM &c, int k, int which)
{
  const double x = realn(nm("x", k), 0, 1);
  switch (which) {
  case 0: c.setCurrent(20 * x - 10, true, false); break;
  case 1: c.setCurrent(20 * x - 10, false, false); break;
  case 2: c.setT(290 + 20 * x); break;
  case 3: c.setSOC(x, false, false); break;
  case 4: {
    auto s = states(c);
    s[IX::i_T] = 290 + 20 * x;
    putStates(c, s, true);
  } break;
  case 5: c.setC(0.6 + 0.1 * x, 0.35 + 0.2 * x); break;
  case 6: c.timeStep_CC(2 * x, 1); break;
  case 7: c.V(); break;
  case 8: c.setBlockDegAndTherm(true); break;
  case 9: c.overwriteCharacterisationStates(8e-14 * (1 + x), 7e-14, 2.8e-3 * (1 + x)); break;
  case 10: c.overwriteGeometricStates(7e-5 * (1 - 0.1 * x), 7.35e-5, 0.5, 0.5, 1.5 / 8.5e-6, 1.5 / 1.25e-5); break;
  case 11: { // a refused state vector
    auto s = states(c);
    s[IX::i_SOC] = 2 + x;
    putStates(c, s, true);
  } break;
  }
}
HARNESS(cache1, "after one operation the reported voltage is that of the current state")
{
  Cell_SPM c;
  anySpm(c, mid());
  if (sv::boolean("read")) c.V();
  op(c, 0, sv::integer("op", 0, 11));
  sv::check_eq(c.V(), freshV(c), "the reported voltage is the voltage of the current state");
  double v = 0;
  c.checkVoltage(v, false);
  sv::check_eq(v, c.V(), "checkVoltage hands back the terminal voltage");
}
HARNESS(cache2, "after two operations the reported voltage is that of the current state")
{
  Cell_SPM c;
  anySpm(c, mid());
  c.V();
  op(c, 0, sv::integer("op", 0, 11));
  if (sv::boolean("read")) c.V();
  op(c, 1, sv::integer("op2", 0, 11));
  sv::check_eq(c.V(), freshV(c), "the reported voltage is the voltage of the current state");
}

HARNESS(cache_deg, "with degradation on, the voltage after a time step is that of the degraded cell")
{
  DEG_ID d;
  switch (sv::integer("model", 0, 3)) {
  case 0: d.SEI_id.add_model(1); break;
  case 1: d.SEI_id.add_model(4); break;
  case 2: d.LAM_id.add_model(4); break;
  case 3: d.pl_id = 1; break;
  }
  Cell_SPM c("c", d, 1, 1, 1, 1);
  anySpm(c, mid());
  if (sv::boolean("read")) c.V();
  c.timeStep_CC(sv::real("dt", 0.5, 3), sv::integer("n", 1, 2));
  sv::check_eq(c.V(), freshV(c), "the reported voltage is the voltage of the current state");
}

// ---------------------------------------------------------------------------------------------------- setters
HARNESS(spm_setI, "setCurrent on an SPM cell")
{
  Cell_SPM c;
  anySpm(c, mid());
  if (sv::boolean("read")) c.V();
  const auto s = states(c);
  const double J = sv::real("J", -200, 200);
  const bool chk = sv::boolean("check");
  const double v0 = freshV(c);
  const auto st = c.setCurrent(J, chk, false);
  const auto t = states(c);
  for (size_t i = 0; i < s.size(); i++)
    if (i != IX::i_I && i != IX::i_V) sv::check_same(s[i], t[i], "setCurrent changes the current only");
  if (isStatusBad(st)) {
    sv::check_same(t[IX::i_I], s[IX::i_I], "a refused current leaves the old current");
    sv::check_eq(c.V(), v0, "a refused current leaves the old voltage");
  } else sv::check_same(t[IX::i_I], J, "an accepted current is the one requested");
  if (!chk) sv::check(st == Status::Success, "without the check the current is accepted");
  if (chk && isStatusOK(st)) {
    const double v = c.V();
    if (J > 0) sv::check_le(c.VMIN(), v, "an accepted discharge current does not pull the cell below the safety limit");
    if (J < 0) sv::check_le(v, c.VMAX(), "an accepted charge current does not push the cell above the safety limit");
    sv::check_pos(v, "an accepted current leaves a positive voltage");
  }
}
HARNESS(spm_setsoc, "setSOC on an SPM cell")
{
  Cell_SPM c;
  anySpm(c, mid());
  const auto s = states(c);
  const double x = sv::real("newSOC", -2, 3);
  const bool chk = sv::boolean("check");
  const auto st = c.setSOC(x, chk, false);
  const auto t = states(c);
  for (size_t i = 0; i < s.size(); i++)
    if (i != IX::i_SOC && i != IX::i_V) sv::check_same(s[i], t[i], "setSOC changes the state of charge only");
  if (isStatusBad(st)) sv::check_same(t[IX::i_SOC], s[IX::i_SOC], "a refused state of charge leaves the old one");
  else sv::check_same(t[IX::i_SOC], x, "an accepted state of charge is the one requested");
  if (x < 0 || x > 1) sv::check(isStatusBad(st), "a state of charge outside [0,1] is refused");
}
HARNESS(spm_setst, "setStates on an SPM cell is all or nothing")
{
  Cell_SPM c;
  anySpm(c, mid());
  c.V();
  const auto s = states(c);
  auto x = s;
  const int which = sv::integer("field", 0, 8);
  const double r = sv::real("r", -2, 3);
  int f = 0;
  double val = 0;
  bool legal = true;
  switch (which) {
  case 0: f = IX::i_SOC; val = r; legal = r >= 0 && r <= 1; break;
  case 1: f = IX::i_T; val = 300 + 100 * r; legal = val >= c.Tmin() && val <= c.Tmax(); break;
  case 2: f = IX::i_delta; val = 1e-9 * r; legal = r > 0; break;
  case 3: f = IX::i_LLI; val = r; legal = r >= 0; break;
  case 4: f = IX::i_CS; val = r; legal = r >= 0; break;
  case 5: f = IX::i_delta_pl; val = 1e-9 * r; legal = r >= 0; break;
  case 6: f = IX::i_rDCp; val = 1e-3 * r; legal = r >= 0; break;
  case 7: f = IX::i_rDCcc; val = 1e-3 * r; legal = r >= 0; break;
  case 8: f = IX::i_I; val = 100 * r; legal = true; break;
  }
  x[f] = val;
  const bool chk = sv::boolean("check");
  Status st = Status::Invalid_states;
  bool thrown = false;
  try {
    st = putStates(c, x, chk);
  } catch (int) {
    thrown = true;
  }
  const auto t = states(c);
  if (thrown || isStatusBad(st)) same(s, t, "a refused state vector leaves the cell as it was");
  else
    for (size_t i = 0; i < t.size(); i++)
      if (i != IX::i_V) sv::check_same(x[i], t[i], "an accepted state vector is stored entirely");
  if (!legal) sv::check(thrown || isStatusBad(st), "a state vector with an illegal field is refused");
  sv::check_eq(c.V(), freshV(c), "the reported voltage is the voltage of the current state");
}

// ---------------------------------------------------------------------------------------------------- balance
HARNESS(li_balance, "lithium leaving one electrode, entering the other and the charge passed agree")
{
  Cell_SPM c;
  SpmOpt o;
  o.modes = true;
  anySpm(c, o);
  c.setBlockDegAndTherm(true);
  const double dt = sv::real("dt", 0, 5);
  const int n = sv::integer("n", 1, sv::param("steps", 2));
  // amount of lithium that one unit of the uniform mode stands for, read off a uniformly filled cell
  Cell_SPM f(c), e(c);
  f.setC(1, 1);
  e.setC(0, 0);
  const auto sf = states(f), se = states(e), s0 = states(c);
  const double I = c.I();
  c.timeStep_CC(dt, n);
  const auto s1 = states(c);
  int ip = -1, in = -1;
  for (int i = 0; i < (int)settings::nch; i++) {
    if (sf[IX::i_zp + i] != 0) ip = IX::i_zp + i;
    if (sf[IX::i_zn + i] != 0) in = IX::i_zn + i;
  }
  sv::check(ip >= 0 && in >= 0, "a uniformly filled particle has one nonzero mode");
  const double F = PhyConst::F;
  const double fillp = (s1[ip] - s0[ip]) / (sf[ip] - se[ip]), filln = (s1[in] - s0[in]) / (sf[in] - se[in]);
  const double molp = fillp * c.Cmaxpos * s0[IX::i_ep] * s0[IX::i_thickp] * c.geo.elec_surf;
  const double moln = filln * c.Cmaxneg * s0[IX::i_en] * s0[IX::i_thickn] * c.geo.elec_surf;
  sv::check_eq(molp * F, I * dt * n, "charge passed equals the lithium stored in the cathode", 1e-4);
  sv::check_eq(moln * F, -I * dt * n, "charge passed equals the lithium taken from the anode", 1e-4);
  sv::check_eq(s1[IX::i_SOC], s0[IX::i_SOC] - I * dt * n / 3600 / c.Cap(), "state of charge follows the charge balance");
  for (size_t i = 0; i < s0.size(); i++) {
    const bool moves = (i >= IX::i_zp && i < IX::i_zp + 2 * settings::nch) || i == IX::i_SOC || i == IX::i_V || i == State_SPM::i_time || i == State_SPM::i_Ah || i == State_SPM::i_Wh || i >= State_SPM::N_states;
    if (i < 29 && !moves) sv::check_same(s0[i], s1[i], "with degradation blocked, a time step changes lithium, charge and throughput only");
  }
}

HARNESS(rest_modes, "without current the lithium is conserved and every diffusion mode decays")
{
  Cell_SPM c;
  SpmOpt o;
  o.modes = true;
  o.imax = 0;
  o.T = sv::param("T", 0);
  anySpm(c, o);
  c.setBlockDegAndTherm(true);
  const double dt = sv::real("dt", 0, 2);
  Cell_SPM f(c);
  f.setC(1, 1);
  const auto sf = states(f), s0 = states(c);
  c.timeStep_CC(dt, 1);
  const auto s1 = states(c);
  for (int i = IX::i_zp; i < IX::i_zp + 2 * (int)settings::nch; i++) {
    if (sf[i] != 0) sv::check_eq(s1[i], s0[i], "at rest the amount of lithium in a particle does not change", 1e-12);
    else sv::check_le(s1[i] * s1[i] * 1e8, s0[i] * s0[i] * 1e8, "at rest every diffusion mode decays", 1e-9);
  }
}

HARNESS(rest_uniform, "a cell at rest with uniform lithium keeps its voltage")
{
  Cell_SPM c;
  SpmOpt o;
  o.imax = 0;
  anySpm(c, o);
  c.setBlockDegAndTherm(true);
  const double v0 = c.V();
  sv::check_eq(c.V(), c.getOCV(), "without current and gradients the terminal voltage is the open-circuit voltage");
  c.timeStep_CC(sv::real("dt", 0, 100), 2);
  sv::check_eq(c.V(), v0, "a relaxed cell at rest keeps its voltage", 1e-7);
}

HARNESS(nsteps, "n steps in one call equal n calls of one step when degradation is blocked")
{
  Cell_SPM c;
  SpmOpt o;
  o.modes = true;
  anySpm(c, o);
  c.setBlockDegAndTherm(true);
  Cell_SPM d(c);
  const double dt = sv::real("dt", 0, 5);
  c.timeStep_CC(dt, 2);
  d.timeStep_CC(dt, 1);
  d.timeStep_CC(dt, 1);
  const auto a = states(c), b = states(d);
  for (size_t i = 0; i < a.size(); i++) sv::check_eq(a[i], b[i], "n steps in one call equal n calls of one step");
}

HARNESS(spm_negdt, "a negative time step is refused and nothing changes")
{
  Cell_SPM c;
  anySpm(c);
  const auto s0 = states(c);
  bool thrown = false;
  try {
    c.timeStep_CC(sv::real("dt", -10, -1e-6), 1);
  } catch (int) {
    thrown = true;
  }
  sv::check(thrown, "a negative time step is refused");
  same(s0, states(c), "a refused time step changes nothing");
}

// ---------------------------------------------------------------------------------------------------- throughput
HARNESS(spm_thr, "throughput of an SPM cell")
{
  Cell_SPM c;
  SpmOpt o = mid();
  anySpm(c, o);
  if (sv::boolean("blocked")) c.setBlockDegAndTherm(true);
  const double dt = sv::real("dt", 0, 5), I = c.I();
  auto th = c.getThroughputs();
  c.timeStep_CC(dt, 1);
  const auto t1 = c.getThroughputs();
  sv::check_eq(t1.time() - th.time(), dt, "elapsed time grows by the step");
  sv::check_eq(t1.Ah() - th.Ah(), std::abs(I) * dt / 3600, "charge throughput grows by |I| dt");
  sv::check_le(th.Wh(), t1.Wh(), "energy throughput never decreases");
  if (c.blockDegAndTherm) sv::check_eq(t1.Wh() - th.Wh(), std::abs(I * c.V()) * dt / 3600, "energy throughput grows by |I V| dt", 1e-6);
}
HARNESS(spm_thr_other, "operations that are not time steps leave the throughput counters of an SPM cell alone")
{
  Cell_SPM c;
  anySpm(c, mid());
  const auto a = c.getThroughputs();
  int w = sv::integer("op", 0, 11);
  if (w == 6) w = 7;
  op(c, 0, w);
  const auto b = c.getThroughputs();
  sv::check_same(a.time(), b.time(), "time only moves in a time step");
  sv::check_same(a.Ah(), b.Ah(), "charge throughput only moves in a time step");
  sv::check_same(a.Wh(), b.Wh(), "energy throughput only moves in a time step");
}

// ---------------------------------------------------------------------------------------------------- voltage law
HARNESS(spm_vlaw, "terminal voltage of an SPM cell: OCV at zero current, lower on discharge, higher on charge")
{
  Cell_SPM c;
  SpmOpt o;
  o.deg = true;
  anySpm(c, o);
  const double v = c.V(), I = c.I();
  if (v == 0) sv::stop();
  const double ocv = c.getOCV();
  sv::check_pos(c.getRtot(), "the resistance of a cell is positive");
  if (I > 0) sv::check_le(v, ocv - I * c.getRtot(), "on discharge the voltage is below OCV by at least the ohmic drop");
  if (I < 0) sv::check_le(ocv - I * c.getRtot(), v, "on charge the voltage is above OCV by at least the ohmic drop");
  if (I == 0) sv::check_eq(v, ocv, "at zero current the terminal voltage is the open-circuit voltage");
  sv::check_eq(c.getVhigh(), v, "highest cell voltage of a cell is its own");
  sv::check_eq(c.getVlow(), v, "lowest cell voltage of a cell is its own");
}
HARNESS(spm_rdc, "the resistance grows with the SEI layer and shrinks with the electrode area")
{
  Cell_SPM c;
  SpmOpt o;
  o.deg = true;
  o.T = false;
  anySpm(c, o);
  auto s = states(c);
  const double r0 = c.getRtot();
  s[IX::i_delta] = s[IX::i_delta] * sv::real("g", 1, 3);
  putStates(c, s);
  const double r1 = c.getRtot();
  sv::check_le(r0, r1, "a thicker SEI layer does not lower the resistance");
  s[IX::i_thickp] = s[IX::i_thickp] * sv::real("g2", 0.5, 1);
  putStates(c, s);
  sv::check_le(r1, c.getRtot(), "losing electrode material does not lower the resistance");
}
