"""All property metadata in one place (see gen.py)."""
PROPS, NA = [], []
NOTE = "Every path of the real code within the stated bounds is explored and decided over the reals; rounding, and sizes beyond the bounds, are outside."


def P(**k):
    k.setdefault("note", NOTE)
    PROPS.append(k)


def C(file, harnesses, **k):
    return dict(file=file, harnesses=harnesses.split(), **k)


ECMF = ["src/cells/Cell_ECM/Cell_ECM.hpp", "src/cells/Cell.hpp"]
SPMF = ["src/cells/Cell_SPM/Cell_SPM.cpp", "src/cells/Cell_SPM/Cell_SPM.hpp", "src/cells/Cell_SPM/State_SPM.hpp"]

P(id="P01", title="Equivalent-circuit cells follow the charge balance and RC relaxation",
  statement="For every parameter set, state, current and time step, a constant-current step changes the state of charge by minus current times time over capacity, moves every RC current towards the cell current with its own time constant, and changes nothing else but time and throughput. A step of n sub-steps equals n single steps, a negative step is refused without effect, and a charge undone by the opposite charge restores the state of charge.",
  text="all capacities, resistances, time constants, states, currents and step sizes; up to 3 (thorough 6) sub-steps; 0, 1 and 2 RC pairs",
  why="unit tests check a handful of currents and one step size with default parameters; the law must hold for every real-valued state, parameter and step",
  files=ECMF, mech=[("explicit Euler step", "src/cells/Cell_ECM/Cell_ECM.hpp Cell_ECM::timeStep_CC")],
  state=[("SOC, Ir, I", "cell state vector", "src/cells/Cell_ECM/State_ECM.hpp")], observe=["getStates", "SOC"],
  check=C("ecm.cpp", "dyn0 dyn1 dyn2 negdt zerodt reverse", params={"quick": {"steps": 3}, "thorough": {"steps": 6}}),
  how="timeStep_CC runs on symbolic parameters, states, currents and dt; the resulting state terms are compared with the reference law; each out-of-range branch is a separate path decided by Z3.",
  bounds="sub-steps n ≤ 3 (thorough 6); N_RC ∈ {0,1,2}; cap 0.5–100 Ah, Rdc 1e-4–0.1 Ω, |I| ≤ 100 A, dt 0–100 s, T 274–333 K. Real arithmetic (rounding outside).")

P(id="P02", title="Throughput counters record time, charge and energy of every step",
  statement="Each constant-current step advances time by its duration, the charge throughput by the absolute current times duration, and the energy throughput by the absolute current times the voltage of each sub-step; no counter ever decreases. Operations that are not time steps leave the counters untouched.",
  text="all states, parameters, currents and step sizes of equivalent-circuit and single-particle cells; every non-stepping operation",
  why="tests look at throughput after fixed profiles only; a wrong sign or voltage matters for currents and states no test samples",
  files=ECMF + SPMF, mech=[("throughput accumulation", "src/cells/Cell_ECM/Cell_ECM.hpp Cell_ECM::timeStep_CC"), ("throughput accumulation", "src/cells/Cell_SPM/Cell_SPM.cpp Cell_SPM::timeStep_CC")],
  observe=["getThroughputs", "getStates"],
  check=C("ecm.cpp spm.cpp", "thr0 thr1 thr2 thr_mono thr_other spm_thr spm_thr_other"),
  how="symbolic states before/after timeStep_CC and after every setter; differences of the counters compared to the reference terms (with the voltage the cell itself reports per sub-step).",
  bounds="up to 2–3 sub-steps; parameters as in P01; SPM cells with mid-range lithium states (fp 0.6–0.75, fn 0.35–0.55), |I| ≤ 10 A, one-segment OCV curves, degradation models off.")

P(id="P03", title="Terminal voltage law and setVoltage reach the requested voltage",
  statement="The terminal voltage equals the open-circuit voltage at zero current, falls with discharge current and rises with charge current through the series resistance (and RC or reaction overpotentials), and the reported resistance grows with surface-layer growth. A successful setVoltage leaves the cell at the requested voltage with a current inside its limits; otherwise it reports failure.",
  text="all states, parameters and voltage requests for cells with 0–2 RC pairs; all mid-range states of single-particle cells",
  why="existing tests compare a few voltages to hand-computed constants",
  files=ECMF + SPMF, mech=[("voltage", "src/cells/Cell_ECM/Cell_ECM.hpp Cell_ECM::V"), ("voltage", "src/cells/Cell_SPM/Cell_SPM.cpp Cell_SPM::V"), ("root search", "src/cells/Cell.hpp setVoltage")],
  observe=["V", "getOCV", "getRdc", "setVoltage"],
  check=C("ecm.cpp spm.cpp", "vlaw0 vlaw1 vlaw2 setv0 setv1 setv2 spm_vlaw spm_rdc"),
  how="V() and setVoltage() executed on symbolic states; iteration loop of setVoltage unrolled by path exploration; obligations are linear or polynomial identities plus monotonicity of asinh/exp axioms.",
  bounds="parameters as in P01; SPM restricted to mid-range lithium and linear OCV curves; asinh, exp, sqrt axiomatised.")

P(id="P04", title="Cell setters either apply fully or change nothing",
  statement="Setting a cell's current, state of charge, voltage-checked value or whole state vector either takes effect exactly as requested and reports a non-error status, or reports an error (or throws) and leaves the cell exactly as it was. Construction accepts exactly the legal capacities and states of charge. A state vector is consumed entry by entry and read back unchanged.",
  text="every requested value and every previous state, with and without the voltage check, for equivalent-circuit and single-particle cells",
  why="tests try one legal and one or two illegal values; half-applied settings appear only for particular mixed-validity inputs",
  files=ECMF + SPMF, mech=[("restore on failure", "src/cells/Cell_ECM/Cell_ECM.hpp setCurrent/setSOC/setStates"), ("restore on failure", "src/cells/Cell_SPM/Cell_SPM.cpp setCurrent/setSOC/setStates"), ("state validity", "src/cells/Cell_SPM/Cell_SPM.cpp validStates")],
  observe=["getStates before and after", "returned Status"],
  check=C("ecm.cpp spm.cpp", "setI0 setI1 setI2 setsoc0 setsoc1 setst0 setst1 setst2 ctor spm_setI spm_setsoc spm_setst"),
  how="symbolic previous state and symbolic request; after the call the state vector must be bit-identical to the previous one on error and equal to the request otherwise; every validity branch is a path.",
  bounds="request ranges exceed the legal range on both sides (e.g. SOC −0.5–1.5); SPM state vectors perturb every entry's legality one by one, one-segment OCV curves.")

P(id="P05", title="Voltage status classification and status predicates are exact",
  statement="The status of a cell voltage is the documented one: success within the operating window (a tolerance of 10 mV included); below Vmin or VMIN a low-voltage violation while discharging, above Vmax or VMAX a high-voltage violation while charging, the safety limits taking precedence; not calculated if the voltage is not positive. The predicates that group statuses into ok, bad, warning, safe and limit reached follow the documented bands, and the limits of a cell are ordered.",
  text="every voltage and every status code",
  why="tests check single voltages; the boundary behaviour and the full partition are universally quantified",
  files=["src/cells/Cell.hpp", "src/StorageUnit.hpp", "src/types/Status.hpp"], mech=[("classification", "src/StorageUnit.hpp check_voltage"), ("predicates", "src/types/Status.hpp isStatusOK/isStatusBad/…")],
  observe=["checkVoltage", "status predicates"],
  check=C("ecm.cpp", "vst0 vst1 limits predicates"),
  how="check_voltage executed with a symbolic state so every ordering of the voltage with the four limits is a path; predicates evaluated over every symbolic code.",
  bounds="voltages reachable from any state with |I| ≤ 100 A; all codes of the enumeration.")

MODF = ["src/modules/Module.cpp", "src/modules/Module.hpp"]
P(id="P06", title="State vectors round-trip and restoring them restores the behaviour",
  statement="The state vector read from any storage unit (cell, series string, parallel block, nested module, battery) is appended to what the caller holds, can be set on a unit of the same structure, is consumed entry by entry from the front, and is read back unchanged with every cell and module temperature in its place. A unit that was used and then gets its saved states back has its old voltage, open-circuit voltage and resistance again.",
  over=["inputs", "histories"],
  text="all states of every kind of storage unit; one operation of each kind between saving and restoring",
  why="tests round-trip default states in which swapped or shifted entries are equal; only distinct symbolic entries reveal an order or offset error",
  files=["src/cells/Cell_ECM/Cell_ECM.hpp", "src/cells/Cell_SPM/Cell_SPM.cpp", "src/modules/Module.cpp", "src/system/Battery.hpp"],
  mech=[("state vector", "src/modules/Module.cpp Module::getStates/setStates"), ("state vector", "src/system/Battery.hpp Battery::getStates/setStates"), ("state vector", "src/cells/Cell_ECM/Cell_ECM.hpp setStates")],
  observe=["getStates", "V", "getOCV", "getRtot"],
  check=C("agg.cpp", "rt_bucket rt_ecm1 rt_ecm2 rt_spm rt_ser rt_par rt_nest rt_batt rs_ecm1 rs_spm rs_ser rs_par rs_nest rs_batt"),
  how="two units of the same structure with independent symbolic states; the vector of the first is set on the second and every entry compared as a term; for restoring, a symbolic operation with a symbolic argument disturbs a copy before the old vector is set again and voltage terms are compared.",
  bounds="cells: bucket, one and two RC pairs, SPM (mid-range lithium); series and parallel of 2 cells, a series string of a parallel pair and a cell, a battery holding a series pair.")

P(id="P07", title="A copy equals the original, is independent of it and evolves alike",
  statement="Copying a storage unit gives one with the same states, voltage, resistance, capacity, limits, temperature and thermal surface. Changing or destroying either afterwards leaves the other alone; the parts of a copied module or battery belong to the copy; and the same time step applied to both gives the same result.",
  over=["inputs", "histories"],
  text="all states of every kind of storage unit, one changing operation on either side, whether or not the voltage had been queried before",
  why="tests copy single default cells; missed members and shared parts show only for non-default parameters, nested modules or after the original is gone",
  files=["src/cells/Cell_SPM/Cell_SPM.hpp", "src/modules/Module_s.hpp", "src/modules/Module_p.hpp", "src/modules/Module.hpp", "src/system/Battery.hpp", "src/utility/free_functions.hpp"],
  mech=[("copy", "src/modules/Module_s.hpp copy"), ("copy", "src/modules/Module_p.hpp copy"), ("copy", "src/system/Battery.hpp copy")],
  observe=["getStates", "V", "getRtot", "getFullID", "getParent"],
  check=C("agg.cpp", "cp_bucket cp_ecm2 cp_spm cp_ser cp_par cp_nest cp_batt cs_ecm1 cs_spm cs_ser cs_nest cs_batt"),
  how="a unit with symbolic states, parameters and contact resistances is copied; all observables are compared as terms, then a symbolic operation changes one of the two and the other is compared with what it was; the original is destroyed on half of the paths.",
  bounds="units as in P06; one operation out of five; one step of up to 1 s in two sub-steps (parallel blocks stepped cell by cell).")

P(id="P08", title="A reported cell voltage always belongs to the cell's present state",
  statement="Whatever sequence of operations was applied to a single-particle cell, the voltage it reports is the one computed from its present states, temperature and parameters, never a remembered older value.",
  over=["histories", "inputs"],
  text="every sequence of up to two (thorough three) mutating operations with any arguments, followed by a voltage query",
  why="the cache bug classes need a particular operation after a voltage query; tests exercise a few fixed sequences",
  files=SPMF, mech=[("voltage cache invalidation", "src/cells/Cell_SPM/Cell_SPM.cpp V / setT / overwrite* / dState")],
  state=[("cached voltage", "last computed voltage and its validity flag", "src/cells/Cell_SPM/Cell_SPM.hpp")],
  observe=["V() against V() of an identical fresh cell"],
  check=C("spm.cpp", "cache1 cache2 cache_deg"),
  how="operations chosen by a symbolic selector, arguments symbolic; reported voltage term compared with that of a copy whose states were re-installed.",
  bounds="histories of length ≤ 2 over the full operation list; mid-range states; SEI model 1 for the degradation variant.")

P(id="P09", title="Lithium is conserved between electrodes and matches the charge passed",
  statement="With degradation blocked, the lithium leaving one electrode in a step equals that entering the other and equals the charge passed, for every state, current and step. At rest the lithium content stays constant while concentration differences decay, and a uniform cell keeps its voltage; n sub-steps equal n single steps and negative steps are refused.",
  text="all mid-range lithium distributions, currents and step sizes",
  why="a flux or volume factor error shifts SOC slightly for some state only; no test checks conservation",
  files=SPMF + ["src/cells/Cell_SPM/Model_SPM.hpp"], mech=[("diffusion", "src/cells/Cell_SPM/Cell_SPM.cpp dState_diffusion"), ("integration", "src/cells/Cell_SPM/Cell_SPM.cpp timeStep_CC")],
  observe=["getStates", "getC", "V"],
  check=C("spm.cpp", "li_balance rest_modes rest_uniform nsteps spm_negdt"),
  how="dState_diffusion and timeStep_CC executed with symbolic modes, current and dt; the zero mode's change is compared to charge/(nFAL) for both electrodes.",
  bounds="nch = 5 modes per electrode (the compiled discretisation), mid-range states, |I| ≤ 10 A, dt ≤ 10 s, ≤ 3 sub-steps, degradation off.")

P(id="P12", title="Series strings add voltages, share the current and step cell by cell",
  statement="The voltage of a series string is the sum of its parts minus the contact resistance drops, its open-circuit voltage, resistance and voltage limits are sums, its capacity is the smallest and its current that of its parts. After any operation on the string or its cells through it, the voltage is that of the present state. A time step of the string is the same time step of every cell, and a negative one is refused without effect.",
  over=["inputs", "histories"],
  text="all cell parameters, states and contact resistances; every sequence of two operations followed by a voltage query",
  why="tests build strings of identical cells, for which wrong weights and stale cached values go unnoticed",
  files=["src/modules/Module_s.cpp", "src/modules/Module_s.hpp"] + MODF,
  mech=[("string laws", "src/modules/Module_s.cpp Module_s::V/getOCV/getRtot"), ("voltage cache", "src/modules/Module.hpp Vmodule_valid")],
  state=[("cached module voltage", "last voltage and its validity flag", "src/modules/Module.hpp")],
  observe=["V", "I", "Cap", "getOCV", "getRtot", "Vmin", "Vmax", "getStates"],
  check=C("mod.cpp", "ser_law0 ser_law1 ser_cache ser_step mod_negdt", params={"quick": {"ops": 2}, "thorough": {"ops": 3}}),
  how="strings of cells with independent symbolic parameters and states; the string's answers are compared with sums over the cells' own answers; operations of the history are chosen by a symbolic selector.",
  bounds="2–3 cells with 0 or 1 RC pair, contact resistance 0–10 mΩ, ≤ 2 (thorough 3) operations, one knee of the open-circuit curve, no thermal model (T_MODEL 0).")

P(id="P13", title="Setting the current of a series string is all or nothing",
  statement="Setting a current on a series string, also one made of modules, either gives every cell exactly that current and reports success or a warning, or reports an error and leaves the current of every cell, and every other state, as it was. With the voltage check it succeeds only if every cell stays within its safety window.",
  text="all cell states, parameters and requested currents, with and without the voltage check",
  why="the refusing cell must be the second or a later one for the roll-back to matter, which tests with identical cells never produce",
  files=["src/modules/Module_s.cpp"] + MODF, mech=[("roll-back", "src/modules/Module_s.cpp Module_s::setCurrent")],
  observe=["getStates before and after", "returned Status"],
  check=C("mod.cpp", "ser_cur0 ser_cur1 nest_cur"),
  how="strings with independent symbolic cells so that each cell may be the one that refuses; the state vector must be identical on error and differ only in the currents on success.",
  bounds="2–3 cells or two strings of cells; |I| ≤ 10 A previous, requested range beyond what the safety window allows.")

P(id="P14", title="Parallel blocks conserve the total current and equalise the voltages",
  statement="After a successful setCurrent, setVoltage, redistribution or time step the cell currents of a parallel block add up to the requested (or unchanged) total and the branch voltages agree within the solver tolerance, contact resistances included; otherwise an error is reported and the currents are what they were.",
  text="all cell parameters, states and requests for two and three cells, with and without contact resistances",
  why="tests use identical or slightly different cells and a few currents; conservation and the fallback of the iteration depend on how different the cells are",
  files=["src/modules/Module_p.cpp", "src/modules/Module_p.hpp"], mech=[("current iteration", "src/modules/Module_p.cpp Module_p::setCurrent/redistributeCurrent/setVoltage"), ("time step", "src/modules/Module_p.cpp Module_p::timeStep_CC")],
  observe=["I of the block and of every cell", "V of every branch"],
  check=C("mod.cpp", "par_cur2 par_cur3 par_cur3n par_curslow par_curRc par_curRc3 par_redis par_setv par_step"),
  how="the current iteration is explored path by path until it converges or gives up; on every path the sum of the current terms is compared with the request and the branch voltages with each other.",
  bounds="2–3 cells; resistances such that the iteration needs at most a few rounds per path (see the harness); linear stretch of the open-circuit curve.")

P(id="P15", title="Parallel blocks add currents and capacities and combine resistances",
  statement="The current and capacity of a parallel block are sums over its branches, its resistance is the parallel combination of the branch resistances with contact resistances, its voltage limits are the tightest of its parts, its open-circuit voltage is the mean of its parts, and its voltage is that of the first branch less the contact drop of the total current (which equals that of every other branch once the currents are balanced).",
  text="all cell parameters, states and contact resistances",
  why="tests build blocks of identical cells, for which means, sums and extremes coincide up to factors",
  files=["src/modules/Module_p.cpp", "src/modules/Module_p.hpp"], mech=[("block laws", "src/modules/Module_p.cpp V/getRtot/getOCV"), ("sums", "src/modules/Module_p.hpp I/Cap/Vmin/Vmax")],
  observe=["V", "I", "Cap", "getOCV", "getRtot", "Vmin", "Vmax"],
  check=C("mod.cpp", "par_law0 par_law1"),
  how="blocks of independent symbolic cells; each answer compared with the textbook combination of the cells' own answers.",
  bounds="2–3 cells with 0 or 1 RC pair; contact resistance 0–10 mΩ.")

P(id="P16", title="setStates on modules and batteries is all or nothing",
  statement="Setting a state vector on a module or battery either sets every cell, module and battery temperature as given, leaving every cell in a legal state (and, with the voltage check, inside its safety window), or reports an error and leaves every part as it was. Without the voltage check exactly the vectors with legal temperatures and states of charge are accepted.",
  text="all previous states and all requested vectors, any entry of which may be illegal",
  why="which entry is illegal decides how much has already been set; tests try one illegal entry",
  files=MODF + ["src/system/Battery.hpp", "src/cells/Cell_ECM/Cell_ECM.hpp"], mech=[("roll-back", "src/modules/Module.cpp Module::setStates"), ("roll-back", "src/system/Battery.hpp Battery::setStates")],
  observe=["getStates before and after", "returned Status"],
  check=C("agg.cpp", "all_ser all_par all_nest all_batt"),
  how="symbolic previous states and a symbolic vector ranging beyond the legal range for temperature, state of charge and current; every legality branch is a path.",
  bounds="2–3 cells in series, parallel, nested and battery; temperatures 200–400 K, SOC −0.5–1.5, |I| ≤ 8 A.")

P(id="P17", title="Aggregated queries and settings of modules reach every level",
  statement="A module or battery reports the highest and lowest single-cell voltage, the hottest part, the number of cells and the worst voltage status over all levels; blocking degradation and thermal models reaches every part; the cooling energy covers all levels and is reported once; connecting cells sets their parent and refuses cells that belong elsewhere without connecting anything.",
  text="all states of nested modules and batteries",
  why="tests query one level with ordered cells; the maximum over all orders and levels is a universal statement",
  files=MODF + ["src/system/Battery.hpp", "src/StorageUnit.hpp"], mech=[("aggregation", "src/modules/Module.cpp getVhigh/getVlow/checkVoltage"), ("blocking", "src/StorageUnit.hpp setBlockDegAndTherm"), ("connecting", "src/modules/Module.cpp setSUs")],
  observe=["getVhigh", "getVlow", "getThotSpot", "checkVoltage", "getCoolingLoad", "getFullID"],
  check=C("agg.cpp", "ag_ser ag_par ag_nest ag_batt block_nest block_batt cool_load setsus"),
  how="symbolic states so that every order of the cells' voltages, temperatures and statuses is a path; the aggregate must bound every part and be attained by one.",
  bounds="2–3 cells in up to three levels.")

CYC = ["src/procedures/Cycler.cpp", "src/procedures/Cycler.hpp"]
P(id="P18", title="A constant current phase ends exactly at its limits and counts what flowed",
  statement="A constant current phase applies the requested current and ends at the first of: the voltage limit (then the voltage is beyond it by at most one adaptive step), the time limit (then exactly that much time passed), or, in diagnostic mode, a cell leaving its voltage window. A current that the unit refuses leaves the original current in place. The time, charge and energy added to the throughput are those that passed through the cells, whatever the reason for stopping.",
  text="all currents before and during the phase, voltage and time limits, states of charge, throughput so far, storage intervals and diagnostic mode; single cells, series strings and parallel blocks; every refusal code",
  why="the tests run a few full cycles; stopping in the middle of an adaptive step, from any earlier current, with any refusal, is not reachable by them",
  files=CYC + ["src/StorageUnit.hpp"], mech=[("constant current", "src/procedures/Cycler.cpp Cycler::CC"), ("starting the current", "src/procedures/Cycler.cpp Cycler::setCurrent")],
  state=[("th", "time, charge and energy throughput", "src/types/ThroughputData.hpp")],
  observe=["Status of CC", "ThroughputData", "V()", "I()"],
  check=C("cyc.cpp", "cc_cell cc_slow cc_ser cc_par cc_before cc_refuse", params=dict(quick=dict(tlim=3, tlimp=1), thorough=dict(tlim=5, tlimp=2)), time=dict(quick=300, thorough=800)),
  how="the real Cycler drives real bucket cells with symbolic limits, currents and states; each path is one sequence of adaptive steps and the obligations are decided over all its real values.",
  bounds="time limits up to 3.5 s at 1 s steps (thorough 5.5 s); two units per module; linear open circuit voltage; real arithmetic (the comparison of accumulated time with the limit is exact).")
P(id="P19", title="A constant voltage phase holds the voltage until its current or time limit",
  statement="A constant voltage phase ends at the current limit (then the current is below it and the voltage is the set voltage), at the time limit (then exactly that much time passed, also when floating point sums of steps do not add up), when the current vanishes, or when the voltage leaves the safety window; it counts the time, charge and energy of all its steps. Constant current followed by constant voltage moves towards the set voltage, never runs longer than allowed in total and refuses set voltages outside the operating window without changing anything.",
  text="all set voltages, current and time limits, states of charge, and throughput so far, for cells and series strings",
  why="tests check a handful of set points with wide tolerances",
  files=CYC, mech=[("constant voltage", "src/procedures/Cycler.cpp Cycler::CV"), ("combination", "src/procedures/Cycler.cpp Cycler::CCCV_with_tlim")],
  observe=["Status of CV and CCCV", "ThroughputData", "V()", "I()"],
  check=C("cyc.cpp", "cv_cell cv_ser cv_time cccv", params=dict(quick=dict(tlimv=2, tlim=3), thorough=dict(tlimv=3, tlim=4)), time=dict(quick=300, thorough=800)),
  how="symbolic limits and states through the real loops including the secant search of setVoltage; the floating point sums of steps are exercised as concrete values on forked schedules (cv_time), because the loop only depends on them through rounding.",
  bounds="2 s (CV) and 3 s (CCCV) at 1 s steps; energy compared for phases up to one step; up to 20 steps of 0.1, 0.3 and 0.7 s for the rounding.")
P(id="P20", title="Rest and the capacity test leave the unit as documented and count exactly",
  statement="Resting lasts exactly as long as requested whatever the voltage limits are, passes no charge, leaves the state of charge unchanged and ends without a current. The capacity test returns the charge between the two voltage limits, adds its full charge and time to the counters it is given and leaves the states of the unit as they were.",
  text="all durations, earlier currents, capacities, resistances and initial states",
  why="tests rest for round numbers of steps and compare capacities with percent tolerances",
  files=CYC, mech=[("rest", "src/procedures/Cycler.cpp Cycler::rest"), ("capacity test", "src/procedures/Cycler.cpp Cycler::testCapacity")],
  observe=["Status of rest", "ThroughputData", "SOC()", "testCapacity"],
  check=C("cyc.cpp", "rest_cell rest_ser rest_par capacity", params=dict(quick=dict(tlim=12), thorough=dict(tlim=25)), time=dict(quick=300, thorough=800)),
  how="symbolic durations through the adaptive rest loop (every sequence of 1–10 step strides is a path); the capacity test runs on a cell whose open circuit voltage is steep enough for its C/25 current to cross the window in a few steps.",
  bounds="rests up to 12 s at 1 s steps (thorough 25 s); capacity test of a bucket cell with a linear, steep open circuit voltage.")

P(id="P10", title="Degradation is irreversible, stays in its own states and accounts for lithium",
  statement="Over any time step of a single-particle cell with any degradation model, SEI, cracks, plated lithium and lost lithium never decrease and active material never increases; each mechanism changes only its own states; blocked or absent degradation, and a step without duration, change none. Lost lithium equals the lithium taken from the anode, effects of models of one mechanism add up, cell-to-cell factors scale capacity, resistance and rates, and Dai's stress follows the concentration profile.",
  over=["inputs"],
  text="all mid-range lithium distributions, currents, step sizes and rates, for every SEI, crack, active material and plating model and pairs of them",
  why="the tests compare the remaining capacity of a few ageing runs with nothing; a model that heals for some state, or counts lithium twice, passes them",
  files=SPMF + ["src/cells/Cell_SPM/Cell_SPM_degradation.cpp", "src/cells/Cell_SPM/Cell_SPM_dstate.cpp"],
  mech=[("degradation models", "src/cells/Cell_SPM/Cell_SPM_degradation.cpp SEI/CS/LAM/LiPlating"), ("integration", "src/cells/Cell_SPM/Cell_SPM_dstate.cpp dState_degradation"), ("stress", "src/cells/Cell_SPM/Cell_SPM_degradation.cpp getDaiStress"), ("variations", "src/cells/Cell_SPM/Cell_SPM.cpp Cell_SPM::Cell_SPM")],
  state=[("degradation states", "SEI thickness, lost lithium, cracks, plated lithium, volume fractions, thicknesses and surfaces of the electrodes", "src/cells/Cell_SPM/State_SPM.hpp")],
  observe=["getStates", "Cap", "getVariations", "getDaiStress"],
  check=C("deg.cpp", "deg_sei deg_cs deg_lam deg_pl deg_lares deg_dai deg_none deg_zero deg_sum deg_crack_sei deg_variation deg_dai_stress deg_porosity deg_anode deg_many", params=dict(quick=dict(T=0), thorough=dict(T=1)), time=dict(quick=450, thorough=800)),
  how="timeStep_CC is executed with symbolic lithium distribution, current, step and rates; every obligation is on the degradation states before and after, against the same cell with degradation blocked.",
  bounds="one or two sub-steps of up to 3 s, mid-range states, rates 100–1000 times the defaults (so that one step is visible in the replay); reference temperature (thorough: any of the T options of the harness); stress models on the stresses left by the step before.")

P(id="P11", title="Cells heat up by their losses and reversible heat, and store every joule",
  statement="With the thermal model on, the heat generated in a single-particle cell over a time step is its electrical loss (open-circuit minus terminal voltage times current) minus the entropic heat, times the duration. A cell on its own follows the balance of that heat, its heat capacity and convection to the environment; a cell in a module collects heat and time and leaves its temperature to the parent, exchanging heat with each neighbour over the smaller area. Heat is used exactly once, illegal temperatures and clocks that disagree are refused, and blocking the thermal model freezes heat and temperature.",
  over=["inputs"],
  text="all mid-range lithium distributions, currents, temperatures, step sizes and numbers of sub-steps, all heats, clocks, areas and heat transfer coefficients of up to three neighbours",
  why="the thermal model is switched off in the tests; a wrong sign, a forgotten duration or heat counted twice changes nothing they look at",
  files=SPMF + ["src/cells/Cell_SPM/Cell_SPM_thermal.cpp", "src/cells/Cell_SPM/Cell_SPM_dstate.cpp"],
  mech=[("heat of a step", "src/cells/Cell_SPM/Cell_SPM_dstate.cpp Cell_SPM::timeStep_CC"), ("temperature of a cell on its own", "src/cells/Cell_SPM/Cell_SPM_thermal.cpp thermalModel_cell"), ("heat exchange", "src/cells/Cell_SPM/Cell_SPM_thermal.cpp thermalModel_coupled")],
  state=[("Therm_Qgen, Therm_Qgentot, Therm_time", "heat and time since the parent last asked", "src/cells/Cell_SPM/Cell_SPM.hpp")],
  observe=["T", "thermal_getTotalHeat", "thermalModel"],
  check=C("therm.cpp", "heat_gen heat_alone heat_blocked heat_exchange", settings={"T_MODEL": 2}, time=dict(quick=300, thorough=800)),
  how="the sources are compiled with the coupled thermal model selected (settings T_MODEL 2); timeStep_CC and thermalModel run on symbolic states, currents, durations, heats and neighbours, and the resulting heat and temperature are compared with the energy balance.",
  bounds="one or two sub-steps of up to 3 s, cells at mid-range lithium, up to three neighbours, heats within 1 kJ; equivalent-circuit cells have no thermal model.")

P(id="P21", title="Every stored data point is what the unit reported and is written exactly once",
  statement="For any sequence of storing data, writing data and time steps, every unit keeps and writes exactly the points it was asked to store: current, voltage, state of charge, temperature and counters (modules: counters, current, voltage, temperature) as they were then, in order, each once, in a complete row of its own file, with the states at the time of writing; storing and writing change no state. Cyclers store a point at the start and end of a phase and regularly in between, and write before the memory is full.",
  over=["histories", "inputs"],
  text="all sequences of three operations on cells, series and parallel modules, nested modules and batteries, all states and step sizes; phases of up to 7 steps with any storage interval",
  why="no test reads back a data file; rows that run together, points lost at the memory limit and stored values of the wrong moment go unnoticed",
  files=["src/types/data_storage/CellDataStorage.hpp", "src/types/data_storage/CellDataWriter.hpp", "src/cells/Cell.hpp", "src/modules/Module.hpp", "src/system/Battery.cpp", "src/procedures/Cycler.cpp"],
  mech=[("points", "src/types/data_storage/CellDataStorage.hpp storeData"), ("files", "src/types/data_storage/CellDataWriter.hpp"), ("modules", "src/modules/Module.hpp storeData/writeData"), ("limit", "src/procedures/Cycler.cpp Cycler::storeData/writeData")],
  state=[("cellData", "points stored and not yet written", "src/cells/Cell.hpp")],
  observe=["storeData", "writeData", "the csv files"],
  check=C("data.cpp", "data_cell data_unit data_phase data_limit",
    parts=[{"file": "data.cpp", "harnesses": ["data_cell", "data_unit", "data_phase"]},
           {"file": "data.cpp", "harnesses": ["data_limit"], "settings": {"CELL_NDATA_INST_MAX": 3}},
           {"file": "data.cpp", "harnesses": ["data_unit"], "settings": {"DATASTORE_MODULE": "moduleDataStorageLevel::storeTimeData"}}],
    params=dict(quick=dict(), thorough=dict(ops=4, steps=9, points=10)), time=dict(quick=300, thorough=800)),
  how="the sources are compiled three times: as configured, with a memory limit of three points and with storage in modules; symbolic values keep their identity through the text of the written files, so the solver compares what is read back with what the unit reported for every value.",
  bounds="three operations (thorough four), phases of up to 7 steps (9), memory limit of 3 points with up to 8 (10) points; the number of digits printed is outside; histogram storage of cells does not compile in this version.")

P(id="P25", title="Cooling systems account for heat and energy and obey their control strategy",
  statement="Over any time step a cooling system warms its coolant by the heat it receives minus the heat its air conditioning removes, and adds up heat, time, fan and air-conditioning energy exactly; no energy is negative. Fan and air conditioning obey the chosen control strategy at every temperature: thresholds, hysteresis and proportional range, local or global temperature; they never exceed their design power and never cool below the minimum. Illegal coolant temperatures are refused.",
  over=["inputs", "histories"],
  text="all heats, temperatures, flow rates, durations, sizes up to 10 cells, all control strategies and previous on/off states",
  why="the tests run one cooling system at one temperature per strategy; hysteresis and proportional ranges are continuous and need every temperature",
  files=["src/cooling/CoolSystem.cpp", "src/cooling/CoolSystem.hpp", "src/cooling/CoolSystem_HVAC.cpp", "src/cooling/CoolSystem_HVAC.hpp"],
  mech=[("heat balance", "src/cooling/CoolSystem.cpp CoolSystem::dstate"), ("control", "src/cooling/CoolSystem.cpp CoolSystem::control"), ("air conditioning", "src/cooling/CoolSystem_HVAC.cpp dstate/getACoperatingPower/control")],
  state=[("Tcoolant, flowrate, Q_ac", "coolant temperature, fan and cooling power", "src/cooling/CoolSystem.hpp")],
  observe=["T", "getHeatEvac", "getEoperation", "getFlr", "dstate"],
  check=C("cool.cpp", "cool_step cool_h cool_T cool_ctrl hvac_ctrl hvac_step", time=dict(quick=300, thorough=800)),
  how="dstate, control, setT, getH and the power models run on symbolic temperatures, heats, durations and counters; fan energies are checked against the kinetic energy of the flow, control decisions against the thresholds.",
  bounds="1 to 10 cells; temperatures 200–400 K, heats within 1 kJ, steps to 20 s; the open-air system is covered as far as it inherits.")

P(id="P26", title="Modules and batteries balance heat: what cells generate is stored or removed",
  statement="Running the thermal model of a module, a module of modules or a battery conserves energy: the heat generated in cells, contacts and (times the number of copies) converter equals the heat stored in cells and coolants plus what the air conditioning removes, plus exchange with neighbours. Each heat and duration is used once, also after an error; illegal temperatures and disagreeing clocks are refused. A time step collects the contact heat of the actual currents, runs the model once for its whole duration and then sets the cooling from the temperatures after it.",
  over=["inputs", "histories"],
  text="all temperatures, heats, currents, contact resistances, areas, conductivities, durations; modules of up to 3 cells in series or parallel, nested modules, batteries of up to 2 by 2 copies; every control strategy",
  why="the thermal model is switched off in the tests; heat that is lost, doubled or given to the wrong level leaves every tested number unchanged",
  files=["src/modules/Module.cpp", "src/modules/Module_s.cpp", "src/modules/Module_p.cpp", "src/system/Battery.cpp"],
  mech=[("balance", "src/modules/Module.cpp Module::thermalModel_coupled"), ("contact heat", "src/modules/Module_p.cpp and Module_s.cpp timeStep_CC"), ("battery", "src/system/Battery.cpp Battery::thermalModel")],
  state=[("therm", "heat and time collected by a module", "src/modules/Module.hpp")],
  observe=["T", "thermalModel", "timeStep_CC"],
  check=C("therm.cpp", "bal_mod bal_nest bal_batt mod_edge mod_neigh step_ser step_par step_top step_ctrl", settings={"T_MODEL": 2}, time=dict(quick=400, thorough=800)),
  how="the sources are compiled with the coupled thermal model selected; all temperatures, heats, areas and durations are symbolic and one obligation is the sum of all energies before and after.",
  bounds="modules of 1–3 cells, one level of nesting, batteries of up to 2×2 copies, durations to 3 s; temperatures within legal ranges for the balances, up to and beyond the limits for refusals.")

P(id="P22", title="An experiment does its actions, stops when one fails, and reports them",
  statement="Cycle ageing and use case ageing take the unit through exactly their documented sequence of balancing, check-ups and (dis)charges: the unit ends in the states the sequence leads to, one failing action ends it, and a cell that reaches its limit does not. The throughput file has one row per action with the charge, energy, cooling energy and converter losses of that action and nothing of an earlier experiment; every check-up has a row for every cell with its factors, throughput, capacity and states, and every module its cooling statistics. Balancing brings every cell to the balance voltage without current, and the unit knows its new voltage.",
  over=["inputs", "histories"],
  text="all cells within ranges, alone, in strings, nested strings, in parallel and in a battery; up to two cycles with every combination of options (thorough three), 20 cycles of use case ageing",
  why="the tests only run experiments without looking at what they do or write; most of them end in the first cycle",
  files=["src/procedures/Procedure.cpp", "src/procedures/Procedure.hpp"],
  mech=[("sequence", "src/procedures/Procedure.cpp cycleAge and useCaseAge"), ("balancing", "src/procedures/Procedure.cpp rebalance"), ("reports", "src/procedures/Procedure.cpp storeThroughput, checkUp, checkMod, writeThroughput")],
  state=[("throughput", "the throughput of every action of the experiment", "src/procedures/Procedure.hpp throughput")],
  observe=["cycleAge", "useCaseAge", "balanceCheckup", "rebalance", "getStates"],
  check=C("proc.cpp", "age_cell age_cv age_limit age_spm age_ser age_batt use_cell use_limit bal_cell bal_nest bal_par bal_batt", params=dict(quick=dict(cycles=2), thorough=dict(cycles=3)), time=dict(quick=300, thorough=800)),
  how="the experiment runs on symbolic cells, and its sequence is replayed action by action on a copy with the cycler (whose behaviour is decided by other checks); states, and the expressions that went through the files, must be the same. Cells have so steep a voltage curve that every phase takes a few steps.",
  bounds="cells whose phases take a few steps; up to 2 cycles (thorough 3) of cycle ageing, an SPM cell only in a check-up with symbolic degradation; files are compared with six digits. Known findings: an experiment stops when a cell reaches its own limit.")

P(id="P23", title="A battery is its module times the copies in series and parallel",
  statement="A battery with any number of copies of its module in series and parallel has the module's voltages and limits times the copies in series and its current and capacity times those in parallel; resistance, number of cells and the cooling energy scale with the copies it counts. Currents and time steps reach the module as its share; a refused current changes nothing. Each time step adds the losses of a converter of the battery's power once. Only a module without parent and with conventional cooling is connected, and only one.",
  over=["inputs", "histories"],
  text="all states, contact resistances and currents of the module, all numbers of copies up to 3 by 3, all durations and previous counters",
  why="the tests use a battery with one copy in series and parallel, where swapped or missing factors are invisible",
  files=["src/system/Battery.cpp", "src/system/Battery.hpp"],
  mech=[("scaling", "src/system/Battery.hpp V/I/Cap/getRtot"), ("time step", "src/system/Battery.cpp Battery::timeStep_CC"), ("connecting", "src/system/Battery.cpp Battery::setModule"), ("cooling", "src/system/Battery.cpp Battery::getCoolingLoad")],
  state=[("convlosses, convlosses_tot", "losses since the last reset and of all time", "src/system/Battery.hpp")],
  observe=["V", "I", "Cap", "getRtot", "setCurrent", "getCoolingLoad", "getAndResetConvLosses"],
  check=C("sys.cpp", "batt_scale batt_check batt_setI batt_step batt_load batt_connect batt_power", time=dict(quick=300, thorough=800)),
  how="batteries of symbolic cells in series or parallel modules; every quantity of the battery is compared with that of its module (or a copy of the module given its share) for every number of copies.",
  bounds="modules of two cells, copies up to 3 by 3; without thermal model (see P26 for the thermal side).")

P(id="P24", title="Converter losses follow the documented loss model for every operating point",
  statement="The losses of the power electronic converter are, for every voltage and current in both directions, those of conduction, switching and filters of its inverters, one for every started 200 kW of power, which share the current. They are never below the losses of switching, and have no jump where branches of the model meet.",
  text="all voltages up to 1500 V, currents within 400 A per inverter and powers up to four (thorough: eight) inverters",
  why="no test looks at the losses of the converter",
  files=["src/power_conversion/Converter.cpp", "src/power_conversion/Converter.hpp"],
  mech=[("losses", "src/power_conversion/Converter.cpp getLosses"), ("size", "src/power_conversion/Converter.cpp setPower")],
  observe=["getLosses"],
  check=C("sys.cpp", "conv_one conv_default conv_many conv_bound conv_jump", params=dict(quick=dict(inverters=4), thorough=dict(inverters=8)), time=dict(quick=300, thorough=800)),
  how="getLosses on symbolic power, voltage and current against a reference model written from the documentation of the class; each branch of both is a path.",
  bounds="powers up to four inverters (thorough eight), 0–1500 V, ±400 A per inverter; a power of zero or less is outside.")

P(id="P27", title="Lookup in any table gives the line between neighbouring points",
  statement="Looking up a value in a curve gives the value on the straight line between the neighbouring points, whatever the number and spacing of the points: also if steps are only nearly equal and treated as equidistant, and for a single point. Values out of range are refused exactly when the range is binding and are extended by the last value otherwise. Points spaced linearly, logarithmically or by a step are where they are said to be, in every way they can be made, and iterating visits each once.",
  text="all tables with up to 4 points (6 with nearly equal steps), a table of 150 points, the curves of the cells, and all values to look up",
  why="the tests look up a few values in tables with exactly equal or clearly unequal steps",
  files=["src/utility/interpolation.hpp", "src/types/XYdata.hpp", "src/types/FixedData.hpp", "src/utility/util.hpp"],
  mech=[("lookup", "src/utility/interpolation.hpp linInt_noexcept"), ("equal steps", "src/types/XYdata.hpp check_is_fixed"), ("spacing", "src/utility/util.hpp linspace_fix and others")],
  observe=["XYdata::interp", "linspace", "linspace_fix", "range_fix"],
  check=C("util.cpp", "interp_any interp_near interp_long interp_fixed interp_cells spaces ranges", params=dict(quick=dict(points=4, near=6), thorough=dict(points=6, near=8)), time=dict(quick=300, thorough=800)),
  how="the table and the value are symbolic; the result must satisfy the equation of the line between its neighbours (without dividing).",
  bounds="tables of up to 4 points (thorough 6), near-equidistant ones up to 6 (8) points, one of 150 points with concrete nearly equal steps.")

P(id="P28", title="Every value is counted in the bin of a histogram it belongs to",
  statement="A histogram counts every value, up to and beyond the range of integers, in the one bin whose interval contains it, or in the bins for values below and above; it has the bins it was asked for, whose edges divide its range equally also when the width of a bin is rounded; a histogram without bins stays empty. Printing gives every edge and every count once.",
  text="all ranges, all values within 1e12, up to 3 bins and 2 values (thorough 5 and 3)",
  why="values far outside the range, and counts whose bin width is rounded, are not sampled",
  files=["src/types/Histogram.hpp"],
  mech=[("counting", "src/types/Histogram.hpp add"), ("edges", "src/types/Histogram.hpp getEdgeValues")],
  observe=["viewBinValues", "getEdgeValues", "operator<<"],
  check=C("util.cpp", "hist_count hist_edges hist_empty hist_print", params=dict(quick=dict(bins=3, values=2), thorough=dict(bins=5, values=3)), time=dict(quick=300, thorough=800)),
  how="symbolic range and values; conversions of numbers that do not fit in an integer are violations; the number of edges is checked for bin widths of 128 different rounded values.",
  bounds="up to 3 bins and 2 values (thorough 5 and 3); real arithmetic, so a value within rounding of an edge may be counted on either side.")

P(id="P29", title="Tasks spread over threads each run exactly once, in any order",
  statement="Running a number of tasks runs each of them exactly once before it returns, and each has its own result, whatever the number of tasks, workers and processors (also if the number of processors is unknown), and in whichever order the threads run.",
  over=["interleavings", "inputs"],
  text="all orders of the threads for up to 5 tasks, 4 workers and 4 processors; larger numbers of each; all inputs of the tasks",
  why="a machine has one number of processors and runs threads in the orders it likes",
  files=["src/utility/parallelisation.hpp"],
  mech=[("distribution", "src/utility/parallelisation.hpp run")],
  observe=["the calls of the task"],
  check=C("par.cpp", "run_order run_many run_default", params=dict(quick=dict(n=5, workers=4, hw=4), thorough=dict(n=7, workers=5, hw=5)), time=dict(quick=300, thorough=800)),
  how="std::thread is replaced by threads that run one at a time in an order chosen by the exploration, and the number of processors by a chosen one; each order and choice is a path over symbolic inputs.",
  bounds="whole threads are ordered (the threads share no data but the index arithmetic, so switches within a task are not explored); up to 5 tasks, 4 workers and 4 processors in every order.")

P(id="P31", title="Tables read from files are exactly the numbers in the file, whatever wrote it",
  statement="Reading a table gives every number of the file once, in its row and column, up to the number of rows asked for or that fit, for any number of rows and columns, with or without byte order mark, final newline, carriage returns or empty last lines; a file that does not exist throws; nothing is written beyond an array. Matrix and array helpers do what they say, and a rank-one update of a Cholesky factor gives the factor of the updated matrix.",
  text="all numbers within 10, files of up to 4 rows and 3 columns in five styles, any number of requested rows, all matrices of size 2",
  why="the tests read the files that come with the repository, all of one style",
  files=["src/utility/io/read_CSVfiles.hpp", "src/types/matrix.hpp", "src/types/XYdata.hpp"],
  mech=[("reading", "src/utility/io/read_CSVfiles.hpp loadCSV_2col/loadCSV_mat/loadCSV_Ncol"), ("update", "src/types/matrix.hpp cholUpdate")],
  observe=["loadCSV_1col", "loadCSV_2col", "loadCSV_Ncol", "loadCSV_mat", "cholUpdate"],
  check=C("util.cpp", "csv_2col csv_xy csv_mat csv_ncol matrices cholesky", time=dict(quick=300, thorough=800)),
  how="symbolic numbers keep their identity through the text of the file, so the solver compares what is read with what was written for every value; every style, shape and request is a path.",
  bounds="up to 4 rows and 3 columns; text that is not a number is outside; numbers as printed with six digits.")

P(id="P33", title="Fitting an open circuit voltage returns the best point of its search space",
  statement="The cost of a set of electrode parameters is the error between the measured curve and the simulated discharge plus the penalty for missing capacity; a simulated discharge passes the same charge through both electrodes, stops at the end voltage or when an electrode is full or empty, and its voltage is the difference of the electrodes at every point. The fit returns a point of the search space than which no other is better, with its error, on every level of refinement and in every order of the threads. Exactly the curves that start at zero, increase and have realistic voltages are valid.",
  over=["inputs", "interleavings"],
  text="all electrode curves and measured curves of a few points, all parameters within ranges, grids of up to 8 points, one or two levels, all thread orders",
  why="the fit is not tested at all: the examples print its result",
  files=["src/procedures/determine_OCV.cpp", "src/procedures/determine_OCV.hpp"],
  mech=[("cost", "src/procedures/determine_OCV.cpp cost_OCV"), ("discharge", "src/procedures/determine_OCV.cpp discharge and discharge_noexcept"), ("search", "src/procedures/determine_OCV.cpp fitAMnAndStartingPoints and hierarchicalOCVfit")],
  observe=["validOCV", "calculateError", "cost_OCV", "discharge", "hierarchicalOCVfit"],
  check=C("ocv.cpp", "ocv_valid ocv_rmse ocv_cost ocv_fit ocv_dis ocv_levels", time=dict(quick=300, thorough=800)),
  how="the source file is compiled into the harness (its functions are local to it) and runs on symbolic curves and parameters; the best point is compared with the cost of every point of the grid.",
  bounds="straight electrode curves, measured curves of 2–3 points, electrodes small enough for a discharge of a few steps; grids of up to 8 points and 2 levels.")
