"""Writes properties.jsonl and MANIFEST.json from the texts below (development helper, not run by the checks)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe:
        a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


INT, ENT, FE = "flory/interaction", "flory/entropy", "flory/free_energy"
FEF = [FE + "/base.py", FE + "/flory_huggins.py", INT + "/flory_huggins.py", INT + "/flory_huggins_block.py", ENT + "/ideal_gas.py", ENT + "/ideal_gas_polydispersed.py"]
F = "flory/mcmp/finder.py"
I = "flory/mcmp/_finder_impl.py"

prop("C01", "Free energy density is the documented Flory-Huggins expression",
     "For every composition, the free energy density is sum_i phi_i ln(phi_i)/l_i + 1/2 sum_ij chi_ij phi_i phi_j, also for grouped components, and after the matrix or the sizes were assigned anew; integer arrays mean the same as real ones. Compositions may be single ones or arrays of any number of leading dimensions, each entry being evaluated independently, and components that are absent contribute zero.",
     ["inputs"], "all chi matrices, molecule sizes, compositions (zeros included) and array shapes within the bounds",
     "The tests compare a few numbers of components at random compositions; they cannot cover every real composition, zero entries and stacked shapes.", FEF,
     [("energy of the interaction", INT + "/flory_huggins.py _energy_impl"), ("ideal gas entropy", ENT + "/ideal_gas.py _energy_impl"), ("sum of both", FE + "/base.py")])
prop("C02", "Jacobian and Hessian are the derivatives of the free energy",
     "The Jacobian and the Hessian of the free energy are the exact first and second derivatives of the free energy density with respect to the volume fractions, for plain and grouped components. When one component is chosen as dependent, they are the derivatives along compositions whose total is fixed, for every choice of that component, and stacked compositions are treated one by one.",
     ["inputs", "configurations"], "all chi, sizes, positive compositions, every dependent component",
     "Derivatives hold as identities over all reals; the tests compare selected values, mostly with unit molecule sizes, where missing factors of the size are invisible.", FEF,
     [("Jacobian/Hessian", FE + "/base.py jacobian, hessian"), ("reduced derivatives", FE + "/base.py jacobian, hessian with index")])
prop("C03", "Chemical potentials and pressure follow from the free energy",
     "The chemical potential of component i is f - sum_j phi_j df/dphi_j + df/dphi_i of the free energy density f, the exchange chemical potential with respect to a solvent is the difference of the derivatives (zero for the solvent itself, equal to the derivatives along fixed-total compositions for the others), and the pressure is minus the chemical potential of the solvent. This holds for every choice of the solvent and composition by composition for stacked arrays; an absent component has chemical potential minus infinity (as solvent: infinite pressure) while the others stay finite and correct.",
     ["inputs", "configurations"], "all chi, sizes, positive compositions, every solvent index",
     "Only some relations are tested at few points; consistency between the quantities is a relation over all compositions.", FEF,
     [("chemical_potentials, exchange_chemical_potentials, pressure", FE + "/base.py")])
prop("C04", "Stability analysis counts the negative modes of the free energy",
     "The number of unstable modes is the number of negative eigenvalues of the second-derivative matrix of the free energy, on fixed-total compositions if the total is conserved and of the full matrix otherwise, and it does not depend on which component is taken as dependent. A composition is stable exactly when this number is zero, for single compositions and elementwise for stacks.",
     ["inputs", "configurations"], "all chi, sizes, positive compositions; both settings of conservation",
     "The tests check a few binary and ternary points; a wrong sign, threshold or dropped mode shows only for particular matrices.", FEF,
     [("num_unstable_modes, is_stable", FE + "/base.py")])
prop("C05", "Equilibration error measures the imbalance between phases",
     "The equilibration error of a set of phases is the requested norm (per phase, per component, or over all entries) of the deviations of the chemical potentials from their average over the phases. It is never negative, zero when all phases are equal, and does not depend on the order of the phases; the per-phase and per-component results belong to the phase or component at their index.",
     ["inputs", "configurations"], "all chi, sizes and sets of phases, all supported norms and modes",
     "Tests use one set of phases; axis or averaging mistakes are invisible for symmetric cases.", FEF,
     [("equilibration_error", FE + "/base.py")])
prop("C06", "Invalid compositions are rejected, valid ones accepted",
     "Every analysis function of a free energy raises the dedicated error for compositions of the wrong length or with any negative fraction, in single and stacked compositions alike, and valid ones are accepted and used unchanged. Interactions and entropies with different numbers of components cannot be combined.",
     ["inputs"], "all arrays of the listed shapes, with any sign pattern",
     "A handful of invalid inputs is tested; which entry of which stacked composition is negative, and through which function, is not.", FEF + ["flory/common/utilities.py"],
     [("check_volume_fractions", FE + "/base.py")])
prop("C07", "The interaction matrix is the symmetric matrix that was asked for",
     "Whatever matrix, row, nested list or scalar is assigned, at construction or later and from any earlier state, the stored interaction matrix is its symmetric part (a scalar: that value everywhere; uniform: one value with the diagonal vanishing if requested; random: mean plus standard deviation times one independent draw per pair), and arguments of wrong size are refused leaving the matrix as it was. The caller's array is neither changed nor shared.",
     ["inputs", "histories"], "all real matrices and scalars, sequences of assignments, all random draws",
     "Tests assign symmetric matrices once; asymmetric ones and sequences of assignments are not covered.", [INT + "/flory_huggins.py", INT + "/flory_huggins_block.py", FE + "/flory_huggins.py"],
     [("chis setter", INT + "/flory_huggins.py"), ("chis_feat setter", INT + "/flory_huggins_block.py"), ("random/uniform chis", INT + "/flory_huggins.py set_random_chis, set_uniform_chis, from_random_normal, from_uniform")])
prop("C08", "Grouped components behave as the explicit mixture",
     "A mixture described by groups of components sharing their interactions gives the same energies, derivatives, potentials and iteration quantities as the same mixture written with the full matrix for every component. Group sizes may be given as one integer, a list or an array.",
     ["inputs", "configurations"], "all group sizes within bounds; all chi, sizes, compositions and fields",
     "Equality of two descriptions is relational; tests compare one small case.", FEF + [ENT + "/base.py"],
     [("block interaction", INT + "/flory_huggins_block.py"), ("polydispersed ideal gas", ENT + "/ideal_gas_polydispersed.py")])
prop("C09", "Canonical ensemble conserves the amount of every component",
     "In the canonical ensemble, after every iteration from any state, the volume-weighted sum of each component's fraction over the living compartments equals the prescribed mean times their total volume, whatever the fields, sizes, interactions and constraints, while the fractions in different compartments keep the ratio of their Boltzmann factors. Dead compartments contain nothing, the deviation of a compartment is its total fraction minus one, and mean fractions may be given as scalar, list, integers or any array and be reassigned.",
     ["inputs", "histories", "configurations"], "any state before the step, all parameters; by induction every step of every run",
     "Tests only look at converged results for few systems; conservation must hold at each step from any state.", ["flory/ensemble/canonical.py", I],
     [("normalize", "flory/ensemble/canonical.py"), ("step", I + " multicomponent_self_consistent_metastep")])
prop("C10", "Grand-canonical fractions follow from the chemical potentials",
     "In the grand-canonical ensemble, the fraction of each component in each living compartment after an iteration is its activity times the Boltzmann factor of its field, independent of the volumes and of the other compartments, and dead compartments contain nothing. Given chemical potentials mu, the fraction is l exp(l (mu - w)) for size l and field w; activities may be given as scalar, list or any array and be reassigned.",
     ["inputs", "histories", "configurations"], "any state, all chemical potentials, sizes and fields",
     "Tests look at converged results of few systems.", ["flory/ensemble/grandcanonical.py", I],
     [("normalize", "flory/ensemble/grandcanonical.py"), ("activities", "flory/ensemble/grandcanonical.py")])
prop("C11", "Total volume is conserved and volumes move by bounded steps",
     "Every iteration leaves the total volume at the number of living compartments, gives dead compartments neither volume nor fields, and moves no volume of a normalised state by more than the requested maximum per step; where this slows down the volumes, fields and multipliers are slowed down by the same factor. Whether a compartment died in the last step is reported.",
     ["inputs", "histories", "configurations"], "one step from any state (by induction every step), all parameters",
     "A volume leak or an unbounded step shows only away from convergence, which the tests do not inspect.", [I],
     [("volume update and limiter", I + " multicomponent_self_consistent_metastep")])
prop("C12", "Converged states are in thermodynamic equilibrium",
     "For whatever state an iteration reports errors, the living compartments satisfy the equilibrium conditions up to these errors: the fractions sum to one, exchange chemical potentials agree between compartments (and with the imposed ones in the grand-canonical ensemble), chemical potentials including the pressure agree, and the constraints hold. In particular a state reported as converged is in thermodynamic equilibrium up to a small multiple of the tolerance. Conversely, a step whose size is not limited moves fields and volumes in proportion to these imbalances.",
     ["inputs", "configurations"], "any state with vanishing or small reported errors, all parameters",
     "Tests check that some runs converge to known states; they cannot show that no wrong state is ever accepted.", [I, F],
     [("errors of a step", I + " multicomponent_self_consistent_metastep")])
prop("C13", "Reported errors are exact and independent of iteration parameters",
     "The errors reported by an iteration are the exact largest absolute values, over living compartments, of the deviation of the total fraction from one, of the field mismatch, of the mismatch of the volume forces and of the constraint residues. They and the compositions depend on the state only, not on acceptance factors, step bounds or revive settings, and nothing moves exactly when they vanish.",
     ["inputs", "configurations"], "any state, any two settings of the iteration parameters",
     "Errors are only compared with the tolerance in tests; a too small error ends the run early with a wrong result.", [I],
     [("errors of a step", I + " multicomponent_self_consistent_metastep")])
prop("C14", "Equilibria are fixed points of the iteration",
     "If the compartments are in thermodynamic equilibrium (equal chemical potentials and pressures, constraints satisfied), one iteration changes neither fields, volumes nor compositions and reports vanishing errors, for all acceptance factors and step bounds, in both ensembles.",
     ["inputs", "configurations"], "homogeneous states, symmetric binary coexistence, and every binary/ternary coexistence satisfying the balance equations",
     "Tests run from random states to convergence; a shifted fixed point within the loose test tolerance, or for other parameters, is not seen.", [I, F],
     [("step", I + " multicomponent_self_consistent_metastep")])
prop("C15", "Constraints act as derivatives of their documented energy",
     "The fields and volume forces of linear constraints, local and global, are the derivatives of their documented augmented energy with respect to feature fractions and volumes; the multipliers start from zero at initialisation (those of a local constraint also in a compartment that was dead), grow by the acceptance times the residue in every step, and the reported residue is the largest violation over living compartments. Targets and coefficients may be given in any array layout and changed later.",
     ["inputs", "histories", "configurations"], "all coefficients, targets, fractions, volumes, elasticities; up to three iterations",
     "Tests check that some constrained runs converge; the exact gradients for all dead/living patterns are not tested.", ["flory/constraint/linear_local.py", "flory/constraint/linear_global.py", "flory/constraint/base.py"],
     [("prepare, evolve", "flory/constraint/linear_local.py, flory/constraint/linear_global.py")])
prop("C16", "The solver iterates with the thermodynamics the user sees",
     "The potentials, volume forces, partition sums and feature fractions the solver iterates with are those of the energies the user evaluates: potential = derivative of the interaction energy, volume force = energy minus pressure work, composition = ideal-gas Boltzmann distribution in the fields. This holds for all forms in which matrices and sizes can be handed in, and after they were changed.",
     ["inputs", "histories", "configurations"], "all chi, sizes, compositions, fields, array layouts and later assignments",
     "The analytical side and the compiled side are written twice and tested separately.", [INT + "/flory_huggins.py", INT + "/flory_huggins_block.py", ENT + "/ideal_gas.py", ENT + "/ideal_gas_polydispersed.py", INT + "/base.py", ENT + "/base.py"],
     [("compiled interaction", INT + "/flory_huggins.py"), ("compiled entropy", ENT + "/ideal_gas.py")])
prop("C17", "Dead compartments are revived within the range of the fields",
     "Reviving gives every dead compartment unit volume and fields inside the range spanned by the fields of all compartments, scaled about its centre by the requested factor and reached up to both ends independently for every field, and leaves volumes and fields of living compartments untouched. The number of revived compartments is reported; within an iteration all dead compartments are revived as long as the budget is not exhausted, and none afterwards.",
     ["inputs", "fault_sequences"], "all volumes, thresholds, fields, scales and random draws",
     "Reviving is random and rare in tests.", [I],
     [("revive_compartments_by_random", I)])
prop("C18", "Filling vanished compartments conserves volume and amounts, and ends",
     "When vanished compartments are filled, each becomes a copy of a living compartment whose volume is shared with it, so that the total volume and the amount of each component stay as they are, whatever the random choices. The procedure always ends, never copies a dead compartment, changes no living composition, keeps both halves alive if a large enough compartment exists, leaves every compartment with a positive volume, and reports the number of copies.",
     ["inputs", "fault_sequences"], "all volumes, thresholds, compositions and sequences of random choices",
     "The copy is random and happens only in runs with dead compartments; termination needs all choices.", [I, F],
     [("revive_compartments_by_copy", I)])
prop("C19", "One consistent notion of dead compartments",
     "A compartment is dead exactly if its volume does not exceed the kill threshold, in every part of an iteration: composition, volumes, fields, constraints and reviving. Volumes exactly at the threshold are treated the same everywhere, and the flag telling that no compartment died refers to the last step made.",
     ["inputs", "configurations"], "any volumes and any threshold, including equality",
     "Floating-point tests never hit the boundary.", [I, F],
     [("masks", I + " multicomponent_self_consistent_metastep, revive_compartments_by_random, revive_compartments_by_copy")])
prop("C20", "Runs stop exactly when the errors allow, or the steps are used up",
     "A run ends early only after a check at which all errors of the last step are below the tolerance and no compartment died in it, checks at least once per interval, never makes more steps than the maximum, and reports the number of steps made and the errors of the last one. Arguments of one run override the defaults for this run only, and the revive budget counts down over runs until it is reset.",
     ["inputs", "histories", "configurations", "fault_sequences"], "every sequence of errors over the steps, any tolerance, listed step numbers and intervals",
     "Which error is the last to converge depends on the system; tests see only few sequences.", [F, I],
     [("run", F + " run"), ("diagnostics", F + " diagnostics"), ("revive budget", F + " reset_revive, set_*")])
prop("C21", "Runs can be continued and results do not share state",
     "Running n steps and then m steps leads to the same fields, volumes, compositions, multipliers and errors as n+m steps at once, and how often convergence is checked does not change the trajectory. Returned phases and diagnostics are independent of the finder: changing them does not affect later runs, and later runs do not change them.",
     ["inputs", "histories"], "every split of up to listed numbers of steps, any fields and parameters, any tampering with returned arrays",
     "Tests run once and look at the final state.", [F, I],
     [("run", F + " run"), ("diagnostics", F + " diagnostics")])
prop("C22", "Mismatched components are refused and leave the finder unchanged",
     "The finder refuses interactions, entropies, ensembles and constraints whose numbers of components or features do not fit, alone or in a list, and fields of another shape, at construction and on later replacement. After a refused replacement the finder goes on with exactly the components, fields, constraint multipliers and budgets it had before.",
     ["inputs", "histories", "configurations"], "all combinations of sizes within bounds, each kind of component",
     "Tests replace by fitting components only.", [F],
     [("set_interaction, set_entropy, set_ensemble, set_constraints", F)])
prop("C23", "Re-initialisation forgets the past, and the finder owns its data",
     "After re-initialising (randomly, from given fields, or from given fractions) and replacing components, a finder behaves as a freshly constructed one with these data, and data handed in by the user are neither changed by runs nor shared with the finder. Settings for components follow the precedence defaults, then call, then individual settings; they reach the components, and those of one call do not alter the defaults.",
     ["inputs", "histories", "configurations"], "any earlier history of assignments and runs, any arrays and later changes to them",
     "Tests use fresh finders.", [F, "flory/ensemble/base.py", "flory/constraint/base.py", INT + "/base.py", ENT + "/base.py"],
     [("reinitialize_*", F), ("compiled", INT + "/base.py")])
prop("C24", "Clustering phases conserves volume and amounts",
     "Merging compartments to distinct phases keeps the total volume and the volume-weighted mean composition, gives each phase the summed volume and mean composition of its members, merges compartments closer than the distance and keeps separated groups apart. The original phases are unchanged, and the result is sorted as documented.",
     ["inputs"], "all volumes, compositions and distances within bounds, and every possible assignment to clusters",
     "Tests cluster well separated phases of few sizes.", ["flory/common/phases.py"],
     [("get_clusters", "flory/common/phases.py")])
prop("C25", "Phases are validated, sorted and normalised without loss",
     "Phase collections with mismatching lengths or wrong dimensions are rejected; the mean composition is the volume-weighted average; sorting orders phases as documented by permuting volumes and compositions together; normalising gives total volume one without changing compositions. Methods that return new collections keep the old one unchanged and keep additional information of results.",
     ["inputs"], "all volumes and compositions within bounds, ties included",
     "Tests use one or two examples.", ["flory/common/phases.py"],
     [("Phases, PhasesResult", "flory/common/phases.py")])
prop("C26", "Shortcut functions equal the explicit finder pipeline",
     "The shortcut for finding coexisting phases returns exactly what building interaction, entropy, canonical ensemble and finder by hand, running it, and clustering, sorting and normalising the result gives, together with the diagnostics of the run. This holds for each documented form of its arguments and for every option passed on.",
     ["inputs", "configurations"], "all argument forms and options, any chi, compositions and sizes",
     "Tests call the shortcut for one system and compare loosely.", ["flory/shortcut.py", F],
     [("find_coexisting_phases", "flory/shortcut.py")])
prop("C27", "Random compositions are uniform on the simplex; helpers are exact",
     "Random compositions have non-negative fractions adding to one for every number of components and every draw, are distributed uniformly on the simplex, and depend only on the generator passed in. Helper functions keep exactly the keyword arguments a function accepts, broadcast and expand arrays entry by entry, refuse shapes that do not fit, and x ln x vanishes at zero.",
     ["inputs", "fault_sequences"], "all random draws",
     "Tests look at a few draws.", ["flory/common/phases.py", "flory/common/utilities.py", "flory/common/math.py"],
     [("random compositions", "flory/common/phases.py"), ("helpers", "flory/common/utilities.py")])

prop("C28", "The iteration is the documented scheme for any components",
     "For arbitrary interactions, entropies, ensembles and constraints following the documented interfaces, one step of the finder is the documented scheme: the multiplier of incompressibility averages fields minus potentials (plus the interaction's coefficient times the deviation), fields move by their acceptance towards potential plus constraint fields plus multiplier, volumes by theirs along the difference of the volume forces from the average, all alike slowed down if the volumes would move too far. Each component is handed the current fields, volumes, fractions and living compartments, all constraints are added up, and a free energy built from any interaction and entropy is their sum with the derivatives, potentials and pressures that follow.",
     ["inputs", "configurations"], "all values the components can return, all normalised states, any number of constraints within bounds",
     "Tests use the package's own components with one constraint at most; what a different component would be handed and how its values enter is not visible there.", [I, FE + "/base.py", INT + "/base.py", ENT + "/base.py", "flory/ensemble/base.py", "flory/constraint/base.py"],
     [("one step", I + " multicomponent_self_consistent_metastep"), ("sum of interaction and entropy", FE + "/base.py")])
prop("C29", "Relabelling components or compartments relabels the result",
     "No component, feature, compartment or constraint is special: permuting components (with their interactions, sizes, amounts and constraint coefficients), features with their groups, compartments, or the order of constraints permutes the fields, volumes and compositions after an iteration accordingly and leaves the reported errors as they are, in both ensembles and with dead compartments. Energies, derivatives, chemical potentials and pressures are relabelled alike.",
     ["inputs", "configurations"], "all parameters and states within bounds, the listed permutations",
     "Relations between two executions; tests use symmetric systems in which special treatment of an index is invisible.", [I, FE + "/base.py", INT + "/flory_huggins.py", INT + "/flory_huggins_block.py", ENT + "/ideal_gas.py", ENT + "/ideal_gas_polydispersed.py", "flory/ensemble/canonical.py", "flory/ensemble/grandcanonical.py", "flory/constraint/linear_local.py", "flory/constraint/linear_global.py"],
     [("one step", I + " multicomponent_self_consistent_metastep"), ("grouped components", ENT + "/ideal_gas_polydispersed.py partition, comp_to_feat")])
prop("C30", "Runs with enough steps end in coexisting phases",
     "Started from random fields with enough compartments and steps, a run reaches a state whose errors are below the tolerance, and the phases found are those of lowest free energy for most starting points.",
     ["inputs", "histories"], "all mixtures, all random starts, unbounded numbers of steps",
     "Tests run a few mixtures from fixed seeds.", [F, I],
     [("run", F + " run"), ("iteration", I)])
prop("C31", "Rounding and overflow do not spoil results",
     "In floating point all results agree with the exact ones up to rounding, and fields or compositions of large magnitude neither overflow nor turn into invalid numbers.",
     ["inputs"], "all floating-point inputs",
     "Tests use moderate values.", [I, FE + "/base.py", ENT + "/ideal_gas.py"],
     [("Boltzmann factors", ENT + "/ideal_gas.py partition"), ("iteration", I)])

NA = [dict(property="C30", reason="convergence of thousands of non-linear steps with exponentials from random starts: no bounded unrolling within reach of a solver says anything about it, and the documentation itself gives no guarantee"),
      dict(property="C31", reason="floating-point semantics of exp/log chains over arrays cannot be encoded within reach (no decidable theory of the library functions); the encoding uses exact reals, and only the replays on the compiled code see rounding")]
na = {x["property"] for x in NA}
have = [p for p in P if p["id"] in na or os.path.exists(os.path.join(ROOT, "props", p["id"].lower() + ".py"))]
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in have:
        f.write(json.dumps(p) + "\n")
checks = []
for p in [p for p in have if p['id'] not in na]:
    i = p["id"]
    checks.append(dict(property=i, quick_cmd="python3-vt check.py %s" % i, thorough_cmd="python3-vt check.py %s --tier thorough" % i,
                       technique="symbolic execution of the Python source of the functions involved, assertions decided by SMT (z3) for all values within bounds; counterexamples replayed on the compiled package",
                       level="model_checking", level_note="all real values within the stated sizes; sizes, steps and layouts bounded as listed in the evidence; exact real arithmetic in place of floating point"))
json.dump(dict(version=1, setup_cmd="python3-vt -c 'import z3, numpy'", checks=checks, not_applicable=NA), open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
