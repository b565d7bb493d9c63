// Degradation of the single-particle-model cell.
#include "spm.hpp"
using namespace slide;
using namespace h;

namespace {
enum { SEI1 = 0, SEI2, SEI3, SEI4, CS1, CS2, CS3, CS4, CS5, LAM1, LAM2, LAM3, LAM4, PL1, NMODELS };
void add(DEG_ID &d, int m)
{
  if (m <= SEI4) d.SEI_id.add_model((DEG_ID::data_t)(m - SEI1 + 1));
  else if (m <= CS5) d.CS_id.add_model((DEG_ID::data_t)(m - CS1 + 1));
  else if (m <= LAM4) d.LAM_id.add_model((DEG_ID::data_t)(m - LAM1 + 1));
  else d.pl_id = 1;
}
bool sei(int m) { return m <= SEI4; }
bool cs(int m) { return m >= CS1 && m <= CS5; }
bool lam(int m) { return m >= LAM1 && m <= LAM4; }

// amount of lithium [C] in the anode per unit of its uniform mode
struct Anode
{
  int in = -1;
  double full = 0;
};
Anode anode(const Cell_SPM &c)
{
  Anode a;
  Cell_SPM f(c), e(c);
  f.setC(1, 1);
  e.setC(0, 0);
  const auto sf = states(f), se = states(e);
  for (int i = 0; i < (int)settings::nch; i++)
    if (sf[IX::i_zn + i] != 0) a.in = IX::i_zn + i, a.full = sf[a.in] - se[a.in];
  sv::check(a.in >= 0, "a uniformly filled particle has one nonzero mode");
  return a;
}
SpmOpt opt()
{
  SpmOpt o = mid();
  o.deg = true;
  o.T = sv::param("T", 0);
  return o;
}
const int lamIx[] = { IX::i_thickp, IX::i_thickn, IX::i_ep, IX::i_en, IX::i_ap, IX::i_an };
bool isDeg(size_t i)
{
  return i == IX::i_delta || i == IX::i_LLI || i == IX::i_CS || i == IX::i_Dp || i == IX::i_Dn || i == IX::i_delta_pl || i == IX::i_rDCp || i == IX::i_rDCn || i == IX::i_rDCcc
         || std::find(std::begin(lamIx), std::end(lamIx), (int)i) != std::end(lamIx);
}

// any rates: the parameters scaled by a common symbolic factor (large, so that the effect of one step is not lost in the
// rounding of the native replay), activation energies as they are
void anyRates(Cell_SPM &c, double k)
{
  for (double *p : { &c.sei_p.sei1k, &c.sei_p.sei2k, &c.sei_p.sei2D, &c.sei_p.sei3k, &c.sei_p.sei3D, &c.sei_p.sei4k, &c.sei_p.sei4D, &c.csparam.CS1alpha, &c.csparam.CS2alpha, &c.csparam.CS3alpha,
         &c.csparam.CS4alpha, &c.csparam.CS5k, &c.lam_p.lam1p, &c.lam_p.lam1n, &c.lam_p.lam2ap, &c.lam_p.lam2bp, &c.lam_p.lam2an, &c.lam_p.lam2bn, &c.lam_p.lam4p, &c.lam_p.lam4n, &c.pl_p.pl1k })
    *p *= k;
  c.lam_p.lam3k *= 1e-3 * k;
}
} // namespace

static void one(std::initializer_list<int> ms, bool stress = false)
{
  const int m = ms.begin()[sv::integer("model", 0, (int)ms.size() - 1)];
  DEG_ID d;
  add(d, m);
  if (cs(m)) d.CS_diffusion = sv::boolean("CS_diffusion");
  Cell_SPM c("c", d, 1, 1, 1, 1);
  auto o = opt();
  if (stress) o.deg = false;
  anySpm(c, o);
  anyRates(c, sv::real("rates", 100, 1000));
  if (stress) { // the stress of the step before
    c.sparam.s_lares_n = sv::real("s_lares_n", 0, 23);
    c.sparam.s_dai_p = sv::real("s_dai_p", -0.1, 0.1);
    c.sparam.s_dai_n = sv::real("s_dai_n", -0.1, 0.1);
  }
  const auto a = anode(c);
  const double dt = sv::real("dt", 0.5, 3);
  const int n = stress ? 1 : sv::integer("n", 1, 2);
  Cell_SPM b(c);
  b.setBlockDegAndTherm(true);
  const auto s0 = states(c);
  c.timeStep_CC(dt, n);
  b.timeStep_CC(dt, n);
  const auto s1 = states(c), sb = states(b);
  sv::check_le(s0[IX::i_delta] * 1e9, s1[IX::i_delta] * 1e9, "the SEI layer never shrinks");
  sv::check_le(s0[IX::i_LLI], s1[IX::i_LLI], "lost lithium never comes back");
  sv::check_le(s0[IX::i_CS], s1[IX::i_CS], "cracks never heal");
  sv::check_le(s0[IX::i_delta_pl] * 1e9, s1[IX::i_delta_pl] * 1e9, "plated lithium never dissolves");
  sv::check_le(s1[IX::i_Dn] * 1e14, s0[IX::i_Dn] * 1e14, "cracks never speed up diffusion");
  for (int i : lamIx) sv::check_le(s1[i] * 1e5, s0[i] * 1e5, "active material never comes back");
  // what each mechanism does not touch
  auto keeps = [&](int i, const char *l) { sv::check_same(s0[i], s1[i], l); };
  if (!sei(m)) keeps(IX::i_delta, "only SEI models grow the SEI layer");
  if (!sei(m) && m != PL1) keeps(IX::i_LLI, "cracks and loss of active material alone do not consume lithium");
  if (!cs(m)) keeps(IX::i_CS, "only crack models grow cracks");
  if (!cs(m) || !d.CS_diffusion) keeps(IX::i_Dn, "the diffusion constant changes only if asked for");
  if (m != PL1) keeps(IX::i_delta_pl, "only the plating model plates lithium");
  if (!lam(m))
    for (int i : lamIx) keeps(i, "only the models for it lose active material");
  keeps(IX::i_Dp, "degradation does not change the cathode diffusion");
  keeps(IX::i_rDCp, "degradation does not change the electrode resistances");
  keeps(IX::i_rDCn, "degradation does not change the electrode resistances");
  keeps(IX::i_rDCcc, "degradation does not change the electrode resistances");
  if (sei(m)) sv::check_pos((s1[IX::i_delta] - s0[IX::i_delta]) * 1e17, "an SEI model grows the layer");
  // against the same cell with degradation blocked
  for (size_t i = 0; i < s0.size(); i++) {
    if (isDeg(i)) sv::check_same(s0[i], sb[i], "blocked degradation changes no degradation state");
    else if (i >= IX::i_zn && i < IX::i_zn + settings::nch) continue;
    else if (i == IX::i_V || i == State_SPM::i_Wh) continue; // the voltage is that of the degraded cell
    else sv::check_eq(s1[i], sb[i], "degradation leaves everything else as without it", 1e-12);
  }
  // lithium lost = lithium taken from the anode
  const double coul = (sb[a.in] - s1[a.in]) / a.full * c.Cmaxneg * s0[IX::i_en] * s0[IX::i_thickn] * c.geo.elec_surf * PhyConst::F;
  const double ratio = s0[IX::i_an] * c.geo.Rn / 3 / s0[IX::i_en]; // the surface that the state carries against the one of the volume fraction
  if (sei(m) || m == PL1) sv::check_eq(coul * ratio * 1e7, (s1[IX::i_LLI] - s0[IX::i_LLI]) * 1e7, "the lost lithium is the lithium taken from the anode", 1e-2);
  else sv::check_eq(coul * 1e7, 0, "without side reactions no lithium leaves the anode", 1e-2);
}
HARNESS(deg_sei, "SEI growth") { one({ SEI1, SEI2, SEI3, SEI4 }); }
HARNESS(deg_cs, "surface cracks") { one({ CS3, CS4, CS5 }); }
HARNESS(deg_lam, "loss of active material") { one({ LAM2, LAM3, LAM4 }); }
HARNESS(deg_pl, "lithium plating") { one({ PL1 }); }
HARNESS(deg_lares, "surface cracks by Laresgoiti's stress") { one({ CS1 }, true); }
HARNESS(deg_dai, "cracks and loss of active material by Dai's stress") { one({ CS2, LAM1 }, true); }

HARNESS(deg_none, "without degradation models no degradation state changes")
{
  Cell_SPM c;
  anySpm(c, opt());
  const auto s0 = states(c);
  c.timeStep_CC(sv::real("dt", 0, 3), sv::integer("n", 0, 2));
  const auto s1 = states(c);
  for (size_t i = 0; i < s0.size(); i++)
    if (isDeg(i)) sv::check_same(s0[i], s1[i], "without degradation models no degradation state changes");
}

HARNESS(deg_zero, "a time step without duration changes nothing")
{
  DEG_ID d;
  const int m = sv::integer("model", 0, NMODELS - 1);
  add(d, m);
  d.CS_diffusion = 1;
  d.SEI_porosity = 1;
  Cell_SPM c("c", d, 1, 1, 1, 1);
  anySpm(c, opt());
  const auto s0 = states(c);
  const int k = sv::integer("zero", 0, 1);
  c.timeStep_CC(k ? 0 : sv::real("dt", 0, 3), k ? 1 : 0);
  const auto s1 = states(c);
  for (size_t i = 0; i < s0.size(); i++)
    if (i != IX::i_V) sv::check_same(s0[i], s1[i], "a time step without duration changes nothing");
}

HARNESS(deg_sum, "the effects of two models of one mechanism add up")
{
  static const int pairs[][2] = { { SEI1, SEI2 }, { SEI1, SEI3 }, { SEI1, SEI4 }, { SEI2, SEI3 }, { SEI2, SEI4 }, { SEI3, SEI4 }, { SEI1, SEI1 }, { CS3, CS4 }, { CS3, CS5 }, { CS4, CS5 }, { LAM2, LAM3 }, { LAM2, LAM4 }, { LAM3, LAM4 } };
  const int g = sv::integer("pair", 0, 12);
  const int m1 = pairs[g][0], m2 = pairs[g][1];
  DEG_ID d1, d2, d3;
  add(d1, m1);
  add(d2, m2);
  add(d3, m1);
  add(d3, m2);
  Cell_SPM c("c", d1, 1, 1, 1, 1), e("e", d2, 1, 1, 1, 1), f("f", d3, 1, 1, 1, 1);
  anySpm(c, opt());
  shortCurves(e, true);
  shortCurves(f, true);
  const auto s0 = states(c);
  putStates(e, s0);
  putStates(f, s0);
  const double dt = sv::real("dt", 0.5, 3);
  c.timeStep_CC(dt, 1);
  e.timeStep_CC(dt, 1);
  f.timeStep_CC(dt, 1);
  const auto s1 = states(c), s2 = states(e), s3 = states(f);
  for (size_t i = 0; i < s0.size(); i++)
    if (isDeg(i) && i != IX::i_LLI) {
      const double k = 1 / s0[i];
      if (i == IX::i_delta_pl) sv::check_same(s3[i], s0[i], "the effects of two models add up");
      else sv::check_eq((s3[i] - s0[i]) * k * 1e6, (s1[i] - s0[i]) * k * 1e6 + (s2[i] - s0[i]) * k * 1e6, "the effects of two models add up", 1e-7);
    }
}

HARNESS(deg_crack_sei, "SEI growth on cracks, with loss of active material and plating at the same time")
{
  DEG_ID d;
  const int m = sv::integer("sei", SEI1, SEI4), x = sv::integer("cs", CS3, CS5);
  add(d, m);
  add(d, x);
  if (sv::boolean("lam")) add(d, LAM4);
  if (sv::boolean("pl")) add(d, PL1);
  Cell_SPM c("c", d, 1, 1, 1, 1);
  anySpm(c, opt());
  anyRates(c, sv::real("rates", 100, 1000));
  const auto a = anode(c);
  const double dt = sv::real("dt", 0.5, 3);
  const auto s0 = states(c);
  Cell_SPM b(c), e(c);
  b.setBlockDegAndTherm(true);
  e.deg_id.CS_id = DEG_ID::DegArray{};
  c.timeStep_CC(dt, 1);
  b.timeStep_CC(dt, 1);
  e.timeStep_CC(dt, 1);
  const auto s1 = states(c), sb = states(b), s2 = states(e);
  const double coul = (sb[a.in] - s1[a.in]) / a.full * c.Cmaxneg * s0[IX::i_en] * s0[IX::i_thickn] * c.geo.elec_surf * PhyConst::F;
  const double ratio = s0[IX::i_an] * c.geo.Rn / 3 / s0[IX::i_en];
  const double lli = s1[IX::i_LLI] - s0[IX::i_LLI], pl = (s1[IX::i_delta_pl] - s0[IX::i_delta_pl]) * c.rhopl * PhyConst::F * c.npl * c.getAnodeSurface(); // [C] in the plated layer
  sv::check_eq(coul * ratio * 1e7, lli * 1e7, "the lost lithium is the lithium taken from the anode", 1e-2);
  sv::check_eq(s1[IX::i_delta] * 1e12, s2[IX::i_delta] * 1e12, "cracks do not thicken the layer on the original surface", 1e-6);
  if (d.LAM_id.empty()) { // the surface is that of the start of the step
    const double area = s0[IX::i_an] * s0[IX::i_thickn] * c.geo.elec_surf;
    const double base = (s1[IX::i_delta] - s0[IX::i_delta]) * c.rhosei * c.nsei * PhyConst::F * area; // [C] in the SEI layer
    sv::check_eq((lli - pl) * 1e7, base * (1 + s0[IX::i_CS] / area) * 1e7, "SEI grows on the cracks like on the original surface", 1e-2);
  }
}

HARNESS(deg_variation, "cell to cell variation of the rates, the capacity and the resistance")
{
  DEG_ID d;
  static const int ms[] = { SEI1, SEI2, SEI3, SEI4, LAM2, LAM3, LAM4 };
  const int m = ms[sv::integer("model", 0, 6)];
  add(d, m);
  const double fc = sv::real("f_cap", 0.8, 1.2), fr = sv::real("f_res", 0.5, 2), fs = sv::real("f_sei", 0.5, 2), fl = sv::real("f_lam", 0.5, 2);
  Cell_SPM c("c", d, 1, 1, 1, 1), v("v", d, fc, fr, fs, fl), w("w", d, 1, 1, fs, fl);
  sv::check_eq(v.Cap(), c.Cap() * fc, "the capacity factor scales the capacity");
  {
    auto a = states(c), b = states(v);
    sv::check_eq(b[IX::i_rDCp] * 1e6, a[IX::i_rDCp] * fr * 1e6, "the resistance factor scales the resistances");
    sv::check_eq(b[IX::i_rDCn] * 1e6, a[IX::i_rDCn] * fr * 1e6, "the resistance factor scales the resistances");
    sv::check_eq(b[IX::i_rDCcc] * 1e6, a[IX::i_rDCcc] * fr * 1e6, "the resistance factor scales the resistances");
  }
  auto q = v.getVariations();
  sv::check(q[0] == fc && q[1] == fr && q[2] == fs && q[3] == fl, "the variations are reported");
  shortCurves(w, true);
  anySpm(c, mid());
  auto s0 = states(c);
  s0[IX::i_T] = c.T_ref; // the factors scale the rates at the reference temperature
  putStates(c, s0);
  putStates(w, s0);
  const double dt = sv::real("dt", 0.5, 3);
  c.timeStep_CC(dt, 1);
  w.timeStep_CC(dt, 1);
  const auto s1 = states(c), s2 = states(w);
  const double f = sei(m) ? fs : fl;
  auto grows = [&](int i, double k) { sv::check_eq((s2[i] - s0[i]) * k, (s1[i] - s0[i]) * k * f, "the degradation factors scale the rates of their mechanism", 1e-3); };
  if (sei(m)) grows(IX::i_delta, 1e20), grows(IX::i_LLI, 1e10);
  else if (m == LAM2 || m == LAM4) {
    grows(IX::i_ap, 1e4), grows(IX::i_an, 1e4), grows(IX::i_ep, 1e9), grows(IX::i_en, 1e9);
  } else sv::check_le(s2[IX::i_ep], s0[IX::i_ep], "active material never comes back"); // capped rate
}

HARNESS(deg_dai_stress, "Dai's stress model")
{
  Cell_SPM c;
  SpmOpt o = mid();
  o.imax = 0;
  anySpm(c, o);
  auto s = states(c);
  const int base = sv::boolean("anode") ? IX::i_zn : IX::i_zp, N = settings::nch;
  const int j = sv::integer("mode", 0, N - 1);
  s[base + j] = s[base + j] + 1e-3 * sv::real("m1", -1, 1);
  s[base + (j + 1) % N] = s[base + (j + 1) % N] + 1e-3 * sv::real("m2", -1, 1);
  putStates(c, s);
  double sp, sn;
  Cell_SPM::sigma_type rp, rn, tp, tn, hp, hn;
  c.getDaiStress(&sp, &sn, rp, rn, tp, tn, hp, hn);
  double cp[settings::nch + 2], cn[settings::nch + 2];
  c.getC(cp, cn);
  const int C = settings::nch + 1; // centre
  const double kp = 2 * c.sparam.omegap * c.sparam.Ep / (9 * (1 - c.sparam.nup)), kn = 2 * c.sparam.omegan * c.sparam.En / (9 * (1 - c.sparam.nun));
  const double u = 1e3;
  for (int i = 0; i <= C; i++) {
    sv::check_eq((hp[i] - hp[C]) * u, -kp * (cp[i] - cp[C]) * u, "the hydrostatic stress follows the concentration profile", 1e-6);
    sv::check_eq((hn[i] - hn[C]) * u, -kn * (cn[i] - cn[C]) * u, "the hydrostatic stress follows the concentration profile", 1e-6);
    sv::check_eq(hp[i] * 3 * u, (rp[i] + 2 * tp[i]) * u, "the hydrostatic stress is the mean of the principal stresses", 1e-6);
    sv::check_eq(hn[i] * 3 * u, (rn[i] + 2 * tn[i]) * u, "the hydrostatic stress is the mean of the principal stresses", 1e-6);
  }
  sv::check_eq(rp[0] * u, 0, "the surface of a particle is free of radial stress", 1e-6);
  sv::check_eq(rn[0] * u, 0, "the surface of a particle is free of radial stress", 1e-6);
  for (int i = 0; i <= C; i++) {
    sv::check_le(hp[i] * u, std::abs(sp) * u, "the reported stress is the largest in the particle", 1e-6);
    sv::check_le(-hp[i] * u, std::abs(sp) * u, "the reported stress is the largest in the particle", 1e-6);
    sv::check_le(hn[i] * u, std::abs(sn) * u, "the reported stress is the largest in the particle", 1e-6);
    sv::check_le(-hn[i] * u, std::abs(sn) * u, "the reported stress is the largest in the particle", 1e-6);
  }
}

HARNESS(deg_porosity, "SEI growth that fills the pores")
{
  DEG_ID d, d0;
  const int m = sv::integer("sei", SEI1, SEI4);
  add(d, m);
  add(d0, m);
  d.SEI_porosity = 1;
  Cell_SPM c("c", d, 1, 1, 1, 1), e("e", d0, 1, 1, 1, 1);
  anySpm(c, opt());
  anyRates(c, sv::real("rates", 100, 1000));
  e.sei_p = c.sei_p;
  shortCurves(e, true);
  const auto s0 = states(c);
  putStates(e, s0);
  const double dt = sv::real("dt", 0.5, 3);
  c.timeStep_CC(dt, 1);
  e.timeStep_CC(dt, 1);
  const auto s1 = states(c), s2 = states(e);
  if (s0[IX::i_I] >= 0) sv::check_le(s1[IX::i_en] * 1e6, s0[IX::i_en] * 1e6, "side reactions do not open the pores while discharging");
  sv::check_eq((s1[IX::i_an] - s0[IX::i_an]) * c.geo.Rn / 3 * 1e6, (s1[IX::i_en] - s0[IX::i_en]) * 1e6, "the surface follows the volume fraction", 1e-6);
  for (size_t i = 0; i < s0.size(); i++)
    if (isDeg(i) && i != IX::i_en && i != IX::i_an) sv::check_same(s1[i], s2[i], "filling the pores changes nothing but the volume fraction and the surface");
}

HARNESS(deg_anode, "side reactions of the anode do not depend on the cathode")
{
  const int ms[] = { SEI1, SEI2, SEI3, SEI4, PL1 };
  DEG_ID d;
  add(d, ms[sv::integer("model", 0, 4)]);
  Cell_SPM c("c", d, 1, 1, 1, 1);
  auto o = mid();
  anySpm(c, o);
  anyRates(c, sv::real("rates", 100, 1000));
  c.setT(sv::integer("warm", 0, 1) ? 320 : 285);
  Cell_SPM b(c);
  auto s = states(b);
  Cell_SPM e(c);
  e.setC(sv::real("fp2", 0.6, 0.75), 0.5);
  const auto se = states(e);
  for (int i = 0; i < (int)settings::nch; i++) s[IX::i_zp + i] = se[IX::i_zp + i];
  putStates(b, s, false);
  const auto s0 = states(c);
  const double dt = sv::real("dt", 0.5, 3);
  c.timeStep_CC(dt, 1);
  b.timeStep_CC(dt, 1);
  const auto s1 = states(c), s2 = states(b);
  sv::check_eq((s1[IX::i_delta] - s0[IX::i_delta]) * 1e15, (s2[IX::i_delta] - s0[IX::i_delta]) * 1e15, "the SEI layer grows as the anode is, whatever the cathode", 1e-5);
  sv::check_eq((s1[IX::i_delta_pl] - s0[IX::i_delta_pl]) * 1e15, (s2[IX::i_delta_pl] - s0[IX::i_delta_pl]) * 1e15, "lithium plates as the anode is, whatever the cathode", 1e-5);
  sv::check_eq((s1[IX::i_LLI] - s0[IX::i_LLI]) * 1e7, (s2[IX::i_LLI] - s0[IX::i_LLI]) * 1e7, "the anode loses lithium as the anode is, whatever the cathode", 1e-5);
  for (int i = 0; i < (int)settings::nch; i++)
    sv::check_eq(s1[IX::i_zn + i] * 1e-3, s2[IX::i_zn + i] * 1e-3, "the lithium in the anode does not depend on the cathode", 1e-12);
}

HARNESS(deg_many, "a list of models takes as many as it has room for")
{
  DEG_ID deg;
  const int n = sv::integer("n", 1, 12);
  int k = 0;
  try {
    for (; k < n; k++) deg.SEI_id.add_model(1 + k % 4);
  } catch (int e) {
    sv::check(e == 1234 && k == DEG_ID::len, "one more model than there is room for is refused");
  }
  sv::observe("k", k);
  sv::check(k == std::min<int>(n, DEG_ID::len) && deg.SEI_id.N == k && deg.CS_id.N == 0, "models are added until there is no room");
  for (int i = 0; i < k; i++) sv::check(deg.SEI_id[i] == 1 + i % 4, "every added model is in the list");
}
