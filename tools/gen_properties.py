"""Writes /verif/properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, quant, why, files, mech, state=(), observe=(), over=('inputs',)):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": list(over), "text": quant},
      "why_tests_cant": why,
      "anchors": {"files": ["pypower/"+f for f in files],
                  "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                  "mechanism": [{"name": a, "where": "pypower/"+b} for a, b in mech],
                  "observe_at": list(observe), "hook_needed": None}})

NET = "every network of every size: any number of buses, branches and generators, any terminal numbering including parallel branches and self-loops, any status, tap, shift, shunt and charging values"
prop("C01", "Admittance matrices are the pi-model of exactly the in-service network",
 "For every consecutively numbered network the branch admittance matrices give, for any bus voltages, exactly the from-end and to-end currents of each in-service branch's pi-model (series impedance, line charging split equally, off-nominal tap and phase shift on the from side, a zero tap meaning nominal), and zero for out-of-service branches. The bus admittance matrix gives the sum of the branch currents leaving each bus plus the bus shunt current (shunt values scaled by the MVA base), and nothing else.",
 NET, "the tests use the matrices of a handful of shipped cases through power-flow results; no test states an entry for arbitrary sizes, taps, shifts, statuses and parallel lines",
 ["makeYbus.py"], [("branch pi-model and connection-matrix assembly", "makeYbus.py:makeYbus")], observe=["return values of makeYbus"])
prop("C02", "Net bus injections sum exactly the in-service generation minus load",
 "The complex bus power injection vector equals, at every bus, the sum of the output of the in-service generators connected to that bus minus the bus load, in per unit on the MVA base. Generators with non-positive status contribute nothing, and several generators at one bus add up.",
 "every bus and generator table of every size, several generators per bus, any status", "only exercised through a few cases where nearly every generator is in service and at a distinct bus",
 ["makeSbus.py"], [("generator connection matrix", "makeSbus.py:makeSbus")], observe=["return value of makeSbus"])
prop("C03", "DC model matrices give the linearised flow of each in-service branch",
 "The DC model returned for a network satisfies, for every voltage angle vector, branch flow = status * (angle difference - phase shift) / (reactance * tap), with a zero tap meaning nominal, and bus injection = sum of branch flows leaving minus arriving. The constant injection terms are exactly the contribution of the phase shifters.",
 NET, "tests compare a few solved cases with MATPOWER, in which shifters, taps and outages are rare",
 ["makeBdc.py"], [("B matrices and phase-shift injections", "makeBdc.py:makeBdc")], observe=["return values of makeBdc"])
prop("C04", "Fast-decoupled B' and B'' are those of the documented BX/XB approximations",
 "The two fast-decoupled matrices equal minus the imaginary part of the bus admittance matrix of the network after exactly the documented simplifications: B' neglects line charging, bus shunts and taps (and resistance for the XB scheme), B'' neglects phase shifts (and resistance for the BX scheme). The caller's bus and branch tables are not modified.",
 NET + "; both schemes", "t_pf runs the fast-decoupled flow on one 9-bus case with no taps or shifters, and a wrong B'/B'' still converges to the same solution",
 ["makeB.py", "makeYbus.py"], [("simplified copies of the branch data passed to the admittance builder", "makeB.py:makeB")])
prop("C05", "First derivatives of injections, flows and currents are exact",
 "For every admittance matrix and every nonzero voltage vector, the returned partial derivatives of bus power injections, branch power flows, branch currents and squared flow magnitudes with respect to voltage angles and magnitudes equal the analytic derivatives of those quantities. Sparse and dense inputs give the same matrices, and the returned flows and currents equal their definitions.",
 "all sizes, all complex matrices and voltages, sparse and dense storage", "t_jacobian compares with finite differences on one case with a loose tolerance and one voltage profile",
 ["dSbus_dV.py", "dSbr_dV.py", "dIbr_dV.py", "dAbr_dV.py"], [("closed-form derivative formulas", "dSbus_dV.py:dSbus_dV"), ("", "dSbr_dV.py:dSbr_dV"), ("", "dIbr_dV.py:dIbr_dV"), ("", "dAbr_dV.py:dAbr_dV")])
prop("C06", "Second derivatives (Hessian blocks) are exact",
 "For every admittance matrix, multiplier vector and nonzero voltage vector, the returned second-derivative blocks of the multiplier-weighted bus injections, branch flows, branch currents and squared flow or current magnitudes equal the analytic second derivatives with respect to voltage angles and magnitudes.",
 "all sizes, all complex matrices, voltages and multipliers", "t_hessian compares with finite differences on one case at one point",
 ["d2Sbus_dV2.py", "d2Sbr_dV2.py", "d2Ibr_dV2.py", "d2ASbr_dV2.py", "d2AIbr_dV2.py"], [("closed-form second derivative formulas", "d2Sbus_dV2.py:d2Sbus_dV2"), ("", "d2Sbr_dV2.py:d2Sbr_dV2"), ("", "d2Ibr_dV2.py:d2Ibr_dV2"), ("", "d2ASbr_dV2.py:d2ASbr_dV2"), ("", "d2AIbr_dV2.py:d2AIbr_dV2")])
prop("C07", "Bus classification partitions the buses and always names a reference",
 "Every bus is classified as exactly one of reference, voltage-controlled or load bus. A bus declared reference or voltage-controlled keeps that class only if at least one in-service generator is connected to it, and otherwise becomes a load bus; if no reference bus remains, the first voltage-controlled bus becomes the reference and is no longer listed as voltage-controlled.",
 "every bus/generator table (types 1-3), any combination of generator statuses", "tests only see cases whose declared types already agree with the generator statuses",
 ["bustypes.py"], [("type and generator-status masks", "bustypes.py:bustypes")])
prop("C08", "A power-flow solver reports convergence only at a genuine solution",
 "If the Newton, fast-decoupled or Gauss-Seidel solver reports convergence, then the returned voltages satisfy the power balance at every controlled equation (real power at voltage-controlled and load buses, reactive power at load buses) to the requested tolerance (mismatch relative to the voltage magnitude for the fast-decoupled solver), the reference bus voltages are exactly as given, and voltage-controlled bus magnitudes are as given. No solver exceeds its iteration limit, and a start point already within tolerance is returned unchanged.",
 "every admittance matrix, injection vector, start voltage and bus partition, every number of iterations", "tests run convergent shipped cases; false convergence, limits and non-convergent histories are never exercised",
 ["newtonpf.py", "fdpf.py", "gausspf.py"], [("mismatch evaluation, convergence test and update loop", "newtonpf.py:newtonpf"), ("", "fdpf.py:fdpf"), ("", "gausspf.py:gausspf")],
 over=("inputs", "histories"))
prop("C09", "Solved tables agree with the solved voltages and conserve power",
 "After a power-flow solution is written back, every in-service branch's end flows equal the complex power implied by the bus voltages, out-of-service branches carry zero, and bus magnitudes and angles are those of the voltages. At every bus with in-service generators their total reactive output equals the network injection plus load, shared in proportion to their reactive ranges where these are finite and not all zero and equally at a bus whose ranges are all zero, and the total real output at the reference bus balances its injection plus load by adjusting exactly one in-service generator there; out-of-service generators are given zero reactive output.",
 NET + "; any number of generators per bus, any voltage vector", "t_pf checks a few solved cases; multi-generator buses with mixed statuses and zero ranges are barely exercised",
 ["pfsoln.py"], [("branch flow update, Q split, slack P", "pfsoln.py:pfsoln")])
prop("C10", "The DC power flow solves the linear balance exactly and holds the reference",
 "The DC power-flow solver returns angles such that the real-power balance holds at every voltage-controlled and load bus and the reference angles are unchanged. A DC power-flow run reports flat voltage magnitudes, zero reactive flows, equal and opposite branch end flows consistent with the angles, and a slack generator that balances the reference bus.",
 "all sizes, all reduced matrices that are nonsingular, any reference set", "the DC test data cover two cases; part of the DC test does not run at this commit",
 ["dcpf.py", "runpf.py", "makeBdc.py"], [("reduced linear solve", "dcpf.py:dcpf"), ("DC branch of the driver", "runpf.py:runpf")])
prop("C11", "The power-flow driver delivers a consistent, externally numbered solution",
 "A power-flow run that reports success returns, in the caller's own numbering and row order and with all original rows present, bus voltages at which every bus's power balance holds to the tolerance, generator voltage set-points are held at controlled buses, and flows of every branch match those voltages; out-of-service generators and branches report zero. The caller's case data are not modified.",
 "arbitrary networks with non-consecutive bus numbers, isolated buses, out-of-service elements and permuted generator rows; all solver selections", "tests use cases with consecutive numbering and everything in service",
 ["runpf.py", "ext2int.py", "int2ext.py", "pfsoln.py", "newtonpf.py"], [("driver", "runpf.py:runpf")])
prop("C12", "Distribution factors equal the true DC sensitivities",
 "Each column of the power transfer distribution factor matrix is the change in DC branch flows for a unit injection at that bus withdrawn at the slack (a bus or a weighted distribution). Each off-diagonal outage factor, times the pre-outage flow of the outaged branch, equals the exact change of the monitored branch's DC flow when that branch is removed, and every diagonal factor is -1.",
 "all connected networks, slack buses and slack distributions; all non-bridge branch outages", "the tests check two cases against themselves with consecutive data",
 ["makePTDF.py", "makeLODF.py"], [("reduced solve and slack correction", "makePTDF.py:makePTDF"), ("outage factor formula", "makeLODF.py:makeLODF")])
prop("C13", "External/internal renumbering is a lossless, order-preserving round trip",
 "Converting a case to internal form keeps exactly the in-service, non-isolated buses, branches and generators (a branch or generator attached to an isolated bus counts as out of service), numbers buses consecutively, orders generators by bus, carries cost rows with their generators and never alters values other than bus numbers. Converting back restores every original row, order and bus number exactly while keeping solved values, and arbitrary user data or fields reordered one way and back are unchanged for every ordering and dimension.",
 "every case: arbitrary positive bus numbers, statuses, isolated buses, generator orders, cost layouts; every ordering specification", "t_ext2int2ext, the only test of this, does not run at this commit",
 ["ext2int.py", "int2ext.py", "e2i_data.py", "e2i_field.py", "i2e_data.py", "i2e_field.py", "get_reorder.py", "set_reorder.py"],
 [("permutation and status bookkeeping", "ext2int.py:ext2int"), ("inverse mapping", "int2ext.py:int2ext"), ("data reorder helpers", "e2i_data.py:e2i_data"), ("", "i2e_data.py:i2e_data"), ("", "get_reorder.py:get_reorder"), ("", "set_reorder.py:set_reorder")],
 state=[("order", "maps between external and internal numbering stored with the case", "pypower/ext2int.py")], over=("inputs", "histories"))
prop("C14", "Loading never aliases the caller, and saving then loading preserves a case",
 "Loading a case from a dictionary never lets later changes to the result reach the caller's arrays and returns every supplied value unchanged (version 1 tables being widened to version 2 with documented defaults and column moves). Saving a case and loading the file back yields the same base, bus, generator, branch and cost data up to the printed precision, for plain and for MAT files.",
 "every valid case table, solved or unsolved, any number of rows, any finite or infinite limits", "t_loadcase and t_savecase use one 9-bus style case",
 ["loadcase.py", "savecase.py"], [("deep copy, version conversion", "loadcase.py:loadcase"), ("row formatting", "savecase.py:savecase")])
prop("C15", "Cost evaluation and transformation follow the cost model exactly",
 "The cost of a generator equals its polynomial, or the piecewise linear interpolation through its breakpoints extended by the end segments, at every output. Polynomial cost derivatives of any order are exact, and scaling or shifting a cost function by output or by value changes its value at every point exactly as documented; splitting real and reactive cost rows preserves the rows.",
 "all polynomial degrees, breakpoint counts, mixtures of models and output levels", "t_totcost/t_modcost check a handful of hand-computed values at fixed rows",
 ["totcost.py", "polycost.py", "modcost.py", "pqcost.py"], [("piecewise linear and polynomial evaluation", "totcost.py:totcost"), ("polynomial derivative", "polycost.py:polycost"), ("transformations", "modcost.py:modcost"), ("row split", "pqcost.py:pqcost")])
prop("C16", "The OPF objective, its gradient and its Hessian are mutually exact",
 "At every point the OPF objective equals the total generation cost (polynomial costs of the per-unit outputs scaled by the base plus the piecewise-linear cost variables) plus the generalised user cost with its deadband, linear/quadratic and weighting terms. The gradient and Hessian it returns are the exact derivatives of that value (away from deadband breakpoints).",
 "every model size, cost mix (P and Q, polynomial and piecewise), user cost matrices and point", "tests only reach it through converged OPF runs; user costs with quadratic or deadband terms are never differentiated",
 ["opf_costfcn.py", "polycost.py", "totcost.py"], [("objective and derivatives", "opf_costfcn.py:opf_costfcn")])
prop("C17", "OPF nonlinear constraints and their Jacobian are exact",
 "At every point the equality constraints are exactly the real and reactive bus power mismatches of the network at those voltages and generator outputs, and the inequality constraints are exactly squared end flows minus squared limits of each limited branch in the selected flow measure. The returned Jacobians are the exact derivatives with respect to every variable, including zero columns for variables that do not enter.",
 "every network, point, flow-limit type and variable layout", "only reached through converged OPF runs on two cases",
 ["opf_consfcn.py", "dSbus_dV.py", "dSbr_dV.py", "dIbr_dV.py", "dAbr_dV.py"], [("constraints and Jacobian", "opf_consfcn.py:opf_consfcn")])
prop("C18", "The OPF Lagrangian Hessian is exact",
 "The Hessian handed to the optimiser equals the exact second derivative of cost multiplier times objective plus multiplier-weighted equality and inequality constraints, for every point and multiplier vector and each flow-limit measure.",
 "every network, point, multipliers, flow-limit type, cost multiplier", "only reached through converged OPF runs; an inexact Hessian usually still converges",
 ["opf_hessfcn.py", "opf_costfcn.py", "d2Sbus_dV2.py", "d2ASbr_dV2.py", "d2AIbr_dV2.py"], [("Hessian assembly", "opf_hessfcn.py:opf_hessfcn")])
prop("C19", "OPF linear constraints encode exactly the modelled limits",
 "A point satisfies the generated linear constraints exactly when each piecewise-linear cost variable lies on or above every segment of its cost curve, every dispatchable load keeps its power factor, every generator with a sloped capability curve stays inside it, and every branch with a nonzero angle limit inside +-360 degrees keeps its angle difference within its nonzero limits. No constraint is generated for elements without such data, and dispatchable loads are recognised exactly by their negative minimum and zero maximum output.",
 "all tables and mixtures of generators, loads, capability curves, cost curves and angle limits", "t_hasPQcap has five checks; the constraint builders have no direct test",
 ["makeAy.py", "makeAvl.py", "makeApq.py", "makeAang.py", "hasPQcap.py", "isload.py"], [("cost segments", "makeAy.py:makeAy"), ("constant power factor", "makeAvl.py:makeAvl"), ("capability curves", "makeApq.py:makeApq"), ("angle limits", "makeAang.py:makeAang")])
prop("C20", "The OPF model assembles named blocks without overlap or loss",
 "For every sequence of additions of variable, linear/nonlinear constraint and cost blocks, blocks occupy consecutive, disjoint, gap-free index ranges in the order added, bounds and starting values default as documented, and the assembled linear constraints and costs act on the full variable vector exactly as each block acts on its own named variables. Evaluating the model's cost never changes the model.",
 "every sequence of block additions with any sizes (including empty blocks), variable subsets and optional data", "no direct tests; OPF runs use one fixed sequence of blocks",
 ["opf_model.py"], [("index bookkeeping", "opf_model.py:opf_model.add_vars"), ("", "opf_model.py:opf_model.add_constraints"), ("", "opf_model.py:opf_model.add_costs"), ("aggregation", "opf_model.py:opf_model.linear_constraints"), ("", "opf_model.py:opf_model.build_cost_params"), ("", "opf_model.py:opf_model.compute_cost")],
 over=("histories", "inputs"))
prop("C21", "The interior-point solver reports success only at a KKT point",
 "When the interior-point solver reports success, the returned point satisfies the variable bounds, linear constraints and nonlinear constraints, and the returned multipliers satisfy stationarity of the Lagrangian, sign and complementarity, each to the documented scaled tolerance. Each multiplier is reported against the bound, linear or nonlinear constraint and side it belongs to, the reported objective is the value at the returned point, and the iteration limit is respected.",
 "all problems: any mixture of fixed, one-sided, boxed and free variables and constraints, any number of iterations", "the tests solve about a dozen fixed problems with known answers",
 ["pips.py", "qps_pips.py", "qps_pypower.py"], [("bound splitting, termination test, multiplier packaging", "pips.py:pips"), ("QP front end", "qps_pips.py:qps_pips")], over=("inputs", "histories"))
prop("C22", "OPF results restate the optimiser's solution faithfully",
 "In the results of an OPF the bus voltages, generator outputs and branch flows are those of the optimal point in engineering units, the objective value is the model's cost at that point, and every shadow price is reported in $/MW or $/MVAr against the bus, branch end and generator limit it belongs to with non-negative limit multipliers and zero for unlimited elements. Multipliers of sloped capability-curve constraints are redistributed onto P and Q limits without changing the total marginal value.",
 "all networks, solutions and multiplier vectors; AC and DC formulations", "tests compare printed results of two cases",
 ["pipsopf_solver.py", "dcopf_solver.py", "update_mupq.py", "opf_execute.py"], [("result unpacking", "pipsopf_solver.py:pipsopf_solver"), ("", "dcopf_solver.py:dcopf_solver"), ("capability curve multipliers", "update_mupq.py:update_mupq")])
prop("C23", "User callbacks and reserve/interface extensions are applied exactly as declared",
 "Registered callbacks of a stage run exactly once each in registration order with their own arguments, each receiving the previous one's result, and removing one removes only the latest matching registration of that stage. The reserve extension's model has, for each eligible generator, reserve bounded by zero, ramp and quantity limits and headroom within the maximum output, and meets each zone's requirement. The interface extension's model bounds, for each interface, the DC flow over its in-service branches in their declared directions by the declared limits, and reports that flow.",
 "every sequence of add/remove/run; every reserve data set with any eligible-generator pattern", "tests register one callback per stage and solve one 30-bus case",
 ["add_userfcn.py", "remove_userfcn.py", "run_userfcn.py", "toggle_reserves.py", "toggle_iflims.py"], [("callback list", "add_userfcn.py:add_userfcn"), ("", "remove_userfcn.py:remove_userfcn"), ("", "run_userfcn.py:run_userfcn"), ("reserve model", "toggle_reserves.py:userfcn_reserves_formulation"), ("interface model", "toggle_iflims.py:userfcn_iflims_formulation")], over=("histories", "inputs"))
prop("C24", "Zone load totals and load scaling conserve and hit their targets",
 "Total load per zone equals the sum of the fixed demand of the zone's buses plus the nominal demand of its in-service dispatchable loads as requested. Scaling loads by factor or to a target changes exactly the selected kind of load in each zone so that the zone total is the factor times the old total or equals the target, keeps power factors when asked, and leaves all other data unchanged.",
 "every bus/generator table, zone assignment, load kind and scaling option", "t_total_load fails to run past three checks and t_scale_load does not run at this commit",
 ["total_load.py", "scale_load.py"], [("zone aggregation", "total_load.py:total_load"), ("scaling", "scale_load.py:scale_load")])
prop("C25", "Unit commitment never returns a worse or uncommitted-inconsistent schedule",
 "The unit-decommitment heuristic returns a solution whose cost is no greater than that of every candidate schedule it evaluated successfully, starting with the original one, and which is the original's or a successful one's, where decommitted units are off-line at zero output. It shuts down only units that are in service with a positive minimum output, and never turns a unit on.",
 "every commitment history the heuristic can follow", "runuopf is only run once on a small case",
 ["uopf.py", "fairmax.py", "opf.py"], [("results of out-of-service equipment", "opf.py:opf"), ("staged search", "uopf.py:uopf")], over=("histories", "inputs"))
prop("C26", "Continuation power flow stays on the solution path and its tangent is exact",
 "Each corrected continuation point satisfies the power-flow equations at its reported loading parameter and its step-length equation to the tolerance, whichever parameterisation is used, with reference voltage and controlled magnitudes held. The derivatives of the step-length equation are exact (for the arc length the slope at an unchanged loading parameter is one by convention), and the predicted point moves along the normalised tangent by the step length from the previous solution.",
 "all networks, transfers, step sizes, parameterisations and histories", "test coverage is nil for the continuation power flow",
 ["cpf_p.py", "cpf_p_jac.py", "cpf_predictor.py", "cpf_corrector.py", "runcpf.py"], [("step-length equation", "cpf_p.py:cpf_p"), ("its derivative", "cpf_p_jac.py:cpf_p_jac"), ("predictor", "cpf_predictor.py:cpf_predictor"), ("corrector", "cpf_corrector.py:cpf_corrector")], over=("inputs", "histories"))
prop("C27", "Option overrides are exact and isolated",
 "An options set contains every documented option at its default unless overridden, overrides change only the named options, and deriving a new set from an existing one never changes the existing one.",
 "every base set and every set of overrides", "no direct test; sharing between option sets would only show across calls",
 ["ppoption.py"], [("copy and update", "ppoption.py:ppoption")], over=("configurations", "histories"))
prop("C28", "The OPF formulation declares exactly the modelled variables and limits",
 "The OPF set up from a case has angle, magnitude, real and reactive output variables with bounds given by the case (reference angles fixed, per-unit scaling, all in-service generators and dispatchable loads), starting values inside the model's data, and all constraint blocks required by the data. The DC formulation enforces the linear power balance and flow limits of every branch with a nonzero limit, and user-supplied linear constraints, variables and costs keep their meaning.",
 "every valid case, AC and DC", "OPF tests only compare optima of two cases, where most bounds are inactive",
 ["opf_setup.py", "opf_args.py", "opf.py"], [("formulation", "opf_setup.py:opf_setup")])
prop("C29", "DC transmission lines behave as lossy linked injections",
 "A DC line in service is represented by a withdrawal at its sending bus and an injection at its receiving bus that equals the withdrawal less constant and proportional loss, with its flow limits at the sending end, reactive limits, voltage set-points and cost of flow carried over, and its solved flows are reported back on the line with the original generators restored. Out-of-service lines have no effect.",
 "every set of DC lines, directions, limits and losses", "t_dcline has one case",
 ["toggle_dcline.py"], [("dummy generators", "toggle_dcline.py:userfcn_dcline_ext2int"), ("linking constraint", "toggle_dcline.py:userfcn_dcline_formulation"), ("results", "toggle_dcline.py:userfcn_dcline_int2ext")])
prop("C30", "The printed report shows the solved data",
 "Every number printed in the solution report equals the corresponding solved quantity or total rounded to the printed precision.",
 "every solved case and every output option", "no test reads the report",
 ["printpf.py"], [("report", "printpf.py:printpf")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    assert p["statement"].replace("e.g.", "").count(". ") <= 2, p["id"]
print(len(P))
