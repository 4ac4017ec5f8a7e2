#!/usr/bin/env python3
"""Writes properties.jsonl (one-off authoring helper; the jsonl file is what counts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     observe_at=observe, hook_needed=None)))

E = "evoMPS/"
prop("P01", "Tensor-network contractions equal their many-body definition",
 "Every building-block contraction (transfer maps acting from the left or the right, with or without one-, two- or three-site operators or matrix-product operators, products of site tensors, operator-contracted tensors, and accumulated Hamiltonian environments) returns exactly the sum over physical and bond indices that defines it. This holds for complex tensors of any shape, including unequal site dimensions, non-square bond dimensions, different ket and bra tensors, non-Hermitian operators, callable operators and operators given as sums of products. The inputs are never modified.",
 ["inputs"], "all site dimensions, bond dimensions, complex tensors, operators (array, callable, product form) and argument matrices (dense, diagonal or identity)",
 "tdvp_common_tests.py compares a handful of maps on one shape with equal site dimensions; it never uses unequal dimensions, ket != bra, non-Hermitian operators or 3-site and product forms.",
 [E+"core_common.py", E+"tdvp_common.py"],
 [("transfer maps", E+"core_common.py: eps_l_noop, eps_r_noop, eps_*_op_*"), ("operator-contracted tensors", E+"tdvp_common.py: calc_C_*, calc_K*")],
 ["return values of the module-level functions"])
prop("P02", "Identity and diagonal matrix objects behave as the dense matrices they stand for",
 "The special identity and diagonal matrix objects give the same result as the equivalent dense matrix in every supported operation: multiplication from either side, products with scalars, sums and differences, transpose, conjugate, inverse, square root, trace, diagonal, flattening, copying and conversion. The matrix helpers for chained products, trace inner products, Hermitian conjugates, roots and inverses return the values their definitions prescribe for real, complex, dense or special arguments, without changing their inputs.",
 ["inputs"], "all sizes, dtypes and mixtures of dense, identity and diagonal operands",
 "No test touches the special matrix classes on their own; they are only exercised on the code paths that happen to produce them.",
 [E+"matmul.py"],
 [("identity matrix class", E+"matmul.py: eyemat"), ("diagonal matrix class", E+"matmul.py: simple_diag_matrix"), ("helpers", E+"matmul.py: mmul, adot, H, sqrtmh, invmh, invtr")],
 ["return values of the public methods and functions"])
prop("P03", "Factorisation, root and null-space helpers satisfy their defining equations",
 "For every positive semi-definite Hermitian matrix, the factor/root helpers return a factor that reproduces the matrix and an inverse (a pseudo-inverse on the numerical support when the matrix is rank deficient), together with the correct rank. The null-space helpers return orthonormal bases that are annihilated by, and together with the row space exhaust, the given matrix, so that the derived gauge-fixing tensors are isometric and orthogonal to the site tensor in the required left or right sense.",
 ["inputs"], "all sizes, ranks, conditionings, tolerances and shapes of the input matrices and site tensors",
 "Tests reach these helpers only through full-rank states of one spin model and never look at the returned factors.",
 [E+"tdvp_common.py", E+"nullspace.py"],
 [("Hermitian factorisation", E+"tdvp_common.py: herm_fac_with_inv, herm_sqrt_inv"), ("null spaces", E+"nullspace.py: nullspace, nullspace_qr, rank"), ("gauge-fixing tensors", E+"tdvp_common.py: calc_Vsh, calc_Vsh_l")],
 ["return values of the module-level functions"])
prop("P04", "Finite chains: restoring a canonical form never changes the physical state",
 "Updating or canonicalising a finite matrix product state, to either the right- or the left-canonical form and from any starting tensors, leaves the represented state vector unchanged up to its norm and a global phase; with normalisation the result has norm one. Afterwards the tensors really are in the requested form (isometric on one side, diagonal Schmidt weights on the other), the stored left and right environment matrices equal those of the tensors, the advertised bond dimensions equal the tensor shapes and do not exceed the previous ones, and repeating the operation changes nothing physical.",
 ["inputs", "histories"], "all chain lengths, site and bond dimensions (unequal, over-complete, rank deficient), and all sequences of updates, canonicalisations and tensor edits",
 "Tests only use random, full-rank, right-canonical qubit chains; they never compare the state before and after, and never use the left form or rank-deficient or over-complete bonds.",
 [E+"mps_gen.py", E+"tdvp_common.py"],
 [("canonicalisation", E+"mps_gen.py: restore_CF, restore_RCF, restore_LCF"), ("sequential gauge sweeps", E+"tdvp_common.py: restore_RCF_r_seq, restore_LCF_l_seq, restore_RCF_l, restore_LCF_r"), ("update protocol", E+"mps_gen.py: update, calc_l, calc_r, simple_renorm")],
 ["A, l, r, D after each call"], [("A", "site tensors", E+"mps_gen.py"), ("l,r", "environment matrices", E+"mps_gen.py"), ("canonical_form", "requested gauge", E+"mps_gen.py")])
prop("P05", "Finite chains: truncation keeps exactly the dominant Schmidt components",
 "The Schmidt coefficients and entanglement entropies reported for a bond are those of the represented state, for either canonical form. Explicit truncation gives bond dimensions no larger than requested and keeps the largest Schmidt components, so truncating at a single bond gives the best possible approximation at that bond dimension; automatic truncation only discards components whose weight is below the tolerance and otherwise leaves the state unchanged. After truncation with update, all stored matrices, dimensions and norms are again consistent.",
 ["inputs", "configurations"], "all states, target bond dimensions, tolerances and both canonical forms",
 "Only automatic truncation of an already low-rank random state in the right form is touched by the tests; Schmidt values and entropies are never checked.",
 [E+"mps_gen.py"],
 [("truncation", E+"mps_gen.py: truncate, auto_truncate, _update_after_truncate"), ("Schmidt data", E+"mps_gen.py: schmidt_sq, entropy")],
 ["D, A, l, r, schmidt_sq(n), entropy(n)"])
prop("P06", "Finite chains: expectation values and reduced density matrices are exact",
 "For an up-to-date finite state, every reported expectation value (one-, two- and three-site operators, products of distant one-site operators, strings, local terms of a sum) equals the expectation value computed from the full state vector, and every reported reduced density matrix and correlation function equals the corresponding partial trace (in the convention expectation = trace of density matrix times operator). This holds at every site including the ends, for non-Hermitian and callable operators, unequal site dimensions and both canonical forms, and does not modify the state.",
 ["inputs", "configurations"], "all states, sites, distances, operators given as arrays or callables, site dimensions, canonical forms",
 "Tests check only the total energy of one spin chain; they never ask for density matrices, correlations, strings, non-Hermitian or callable operators, or unequal site dimensions.",
 [E+"mps_gen.py", E+"tdvp_gen.py"],
 [("observables", E+"mps_gen.py: expect_1s, expect_2s, expect_3s, expect_1s_1s, expect_string_1s, correlation_1s_1s, density_1s, density_2s, expect_1s_cor"), ("cached two- and three-site products", E+"tdvp_gen.py: expect_2s, expect_3s")],
 ["return values of the observable methods"])
prop("P07", "Finite chains: constructors and operator application act exactly on the state vector",
 "Building a state from tensors or from a list of local basis states or vectors gives exactly that state; applying a one-site operator or a matrix-product operator yields the operator applied to the state vector, with environments consistent afterwards when an update is requested. The inner product of two chains equals that of their state vectors, and enlarging bond dimensions or adding small noise changes the state only by an amount of the order of the noise.",
 ["inputs", "histories"], "all chain lengths, unequal site dimensions, operators, matrix-product operators and histories of such operations",
 "Tests always start from one random qubit state and never build product states, apply operators, take overlaps or enlarge bonds by hand.",
 [E+"mps_gen.py"],
 [("constructors", E+"mps_gen.py: __init__, from_tensors, initialize_state, randomize, set_state_product, expand_D, add_noise"), ("operators", E+"mps_gen.py: apply_op_1s, apply_op_MPO, inner")],
 ["A, l, r, D, return value of inner"])
prop("P08", "A saved finite chain reloads to the same physical state",
 "Saving a finite chain to a file at any point of its history, and loading it into a fresh object of the same site dimensions, reproduces the same tensors, bond dimensions and observables; copies and conversions between the plain and the evolving class share no mutable data with their source.",
 ["inputs", "histories"], "all shapes, dtypes and preceding histories, receivers of different bond dimensions",
 "No test saves or loads anything.",
 [E+"mps_gen.py", E+"tdvp_gen.py"],
 [("files", E+"mps_gen.py: save_state, load_state"), ("copies and conversions", E+"tdvp_gen.py: from_mps; copy.deepcopy")],
 ["tensors and observables of the reloaded object"])
prop("P09", "Finite chains: energy is exact and the flow is the best tangent-space direction",
 "After an update the reported energy of a finite chain equals the expectation value of the full Hamiltonian, and local term values sum to it. The computed evolution direction is the orthogonal projection of (H minus its expectation) applied to the state onto the tangent space of the matrix product state, in either gauge, and the reported per-site and total norms are the norms of that direction. This holds for nearest-neighbour and next-nearest-neighbour Hamiltonians given as arrays or callables, site-dependent or with missing terms, and for unequal site and bond dimensions of full-rank states.",
 ["inputs", "configurations"], "all chain lengths, site dimensions, bond dimensions, Hamiltonians (2- and 3-site, array or callable, inhomogeneous, missing terms) and both gauges",
 "Tests check converged ground-state energies of one homogeneous qubit chain in the right gauge, where errors in the flow direction vanish at the fixed point.",
 [E+"tdvp_gen.py", E+"tdvp_common.py"],
 [("energy environments", E+"tdvp_gen.py: calc_C, calc_K, calc_K_l"), ("tangent vector", E+"tdvp_gen.py: calc_B, calc_B_n, calc_x; "+E+"tdvp_common.py: calc_x*, calc_Vsh*")],
 ["H_expect, h_expect, calc_B(), eta, eta_sq"])
prop("P10", "Finite chains: explicit integrators follow the variational flow to their order",
 "One Euler or Runge-Kutta step of size dt moves the state along the variational flow with an error of second, respectively fifth, order in dt, for real, imaginary or complex time; when the bond dimensions are complete this flow is exact Schroedinger evolution. Real-time evolution conserves energy and norm to that order and imaginary-time evolution never raises the energy for small steps; missing directions at complete bonds are handled. A precomputed direction may be supplied without changing the result, and after a step followed by an update the object is fully consistent.",
 ["inputs", "histories"], "all states, Hamiltonians, step sizes in the asymptotic regime, real/imaginary/complex time, and sequences of steps",
 "The tests only check that many imaginary-time steps end near a known energy, which any descent direction of the right fixed point achieves.",
 [E+"tdvp_gen.py"],
 [("Euler", E+"tdvp_gen.py: take_step"), ("Runge-Kutta", E+"tdvp_gen.py: take_step_RK4")],
 ["A after the step, H_expect, norm"])
prop("P11", "Finite chains: split-step evolution and sweeping optimisation use the exact local problem",
 "Sweeping integrators and optimisers (one-site and two-site) work with the exact restriction of the full Hamiltonian to the current local block, for 2- and 3-site Hamiltonians. Consequently real-time sweeps conserve norm and energy, are exact Schroedinger evolution up to the splitting order when the bond dimensions are complete, minimising sweeps never raise the energy and end at an energy no lower than the true ground energy, and two-site sweeps never exceed the requested bond dimension.",
 ["inputs", "configurations"], "all chain lengths from two sites, site and bond dimensions, 2- and 3-site Hamiltonians, one- and two-site variants, time directions",
 "The tests only run one-site sweeps of one homogeneous qubit chain to convergence; split_step.py and two-site variants are never run.",
 [E+"split_step.py", E+"tdvp_gen.py"],
 [("effective operators", E+"split_step.py / tdvp_gen.py: Vari_Opt_Single_Site_Op, Vari_Opt_Two_Site_Op, Vari_Opt_SC_op"), ("sweeps", E+"split_step.py: evolve_split; "+E+"tdvp_gen.py: take_step_split, vari_opt_ss_sweep")],
 ["A, D, energy and norm after sweeps, matvec of the effective operators"])
prop("P12", "Dynamical bond growth adds the leading directions outside the tangent space",
 "When a step is asked to grow bonds, the added components are the dominant singular directions of the part of the evolution lying outside the one-site tangent space, weighted so that the step captures that part, and the reported projection error is its norm. The new bond dimensions never exceed the allowed maximum or the allowed growth per step, directions below the tolerance are not added, and shapes of neighbouring tensors stay compatible.",
 ["inputs", "configurations"], "all states, 2- and 3-site Hamiltonians, growth limits and tolerances, step sizes",
 "Tests only run growth from a product state to a converged energy; limits, weights and the projection error are not looked at.",
 [E+"tdvp_gen.py", E+"tdvp_common.py", E+"tdvp_uniform.py"],
 [("two-site directions", E+"tdvp_common.py: calc_BB_Y_2s, calc_BB_Y_2s_ham_3s, calc_BB_2s"), ("growth in steps", E+"tdvp_gen.py: calc_BB, take_step(dynexp)")],
 ["D, A after the step, etaBB"])
prop("P13", "Dissipative steps follow the stochastic Lindblad unravelling",
 "A dissipative step moves the state by the variational projection of the Hamiltonian part, the deterministic Lindblad damping and the noise-weighted jump operators, as prescribed by the quantum-state-diffusion equation, for the given noise realisation and time step. Zero jump operators reduce it to Hamiltonian evolution, and the Hamiltonian stored in the object is left as it was.",
 ["inputs", "histories"], "all jump operators, noise realisations, Hamiltonians and step sizes in the asymptotic regime",
 "No test constructs a dissipative simulation.",
 [E+"tdvp_gen_diss.py"],
 [("step", E+"tdvp_gen_diss.py: take_step_dissipative / take_step_imp")],
 ["A after the step, ham"])
prop("P14", "The Krylov exponential returns exp(tA)v to the requested accuracy",
 "For any linear operator, vector, time and Krylov dimension, the matrix-exponential routine returns the exponential applied to the vector within the requested tolerance whenever it reports convergence, including for real and complex operators, Hermitian or not, invariant subspaces (happy breakdown), negative times and multiple internal steps. It never reports convergence for a result that only covers part of the time interval.",
 ["inputs"], "all operators, vectors, times (positive, negative), subspace sizes, tolerances and step limits",
 "No passing test calls it: the only caller in the tests fails before using its result.",
 [E+"sexpmv.py"],
 [("Krylov stepping", E+"sexpmv.py: gexpmv")],
 ["returned vector and convergence report"])
prop("P15", "Uniform chains: canonical forms preserve the physical state and are reached",
 "For a uniform (block-translation-invariant) state of any block length whose transfer map has a spectral gap, an update yields the true dominant left and right fixed points of the transfer map with unit spectral radius and unit norm, and canonicalisation (symmetric, right or left) leaves all reduced density matrices unchanged while bringing the fixed points into the advertised identity/diagonal form. The result is independent of the solver used and of warm starts.",
 ["inputs", "histories"], "all block lengths, site and bond dimensions, real and complex tensors, canonical forms, solver choices and previous states",
 "Uniform states are not touched by the passing tests, except for one pseudo-inverse.",
 [E+"mps_uniform.py", E+"tdvp_common.py"],
 [("fixed points", E+"mps_uniform.py: calc_lr, _calc_lr_ARPACK, _calc_lr_brute, _calc_lr (power)"), ("canonical forms", E+"mps_uniform.py: restore_CF, restore_SCF, restore_RCF, restore_LCF")],
 ["A, l, r after update"])
prop("P16", "Uniform chains: observables equal those of the infinite state",
 "Every reported expectation value, one-site reduced density matrix, correlation function, correlation length, Schmidt spectrum, entropy and per-site fidelity of an up-to-date uniform state with a spectral gap equals the value computed from the tensors and exact fixed points, for every position in the block, any block length, non-Hermitian and callable operators, and each canonical form.",
 ["inputs", "configurations"], "all block lengths, positions, distances, operators and canonical forms",
 "No passing test reads an observable of a uniform state.",
 [E+"mps_uniform.py"],
 [("observables", E+"mps_uniform.py: expect_1s, expect_2s, expect_3s, expect_1s_1s, expect_string_per_site_1s, correlation_1s_1s, density_1s, correlation_length, entropy, schmidt_sq, fidelity_per_site, phase_align, gauge_align")],
 ["return values of the observable methods"])
prop("P17", "Uniform chains: energy density and environment sums solve their linear equations",
 "The pseudo-inverse of one minus the (momentum-phased) transfer map, and the left and right Hamiltonian environments built with it, satisfy their defining linear equations to the solver tolerance with no component along the fixed points; brute-force and iterative solvers agree. The reported energy per block or per site equals the expectation value of the local Hamiltonian, for 2- and 3-site Hamiltonians and any block length.",
 ["inputs", "configurations"], "all block lengths, momenta, left/right variants, mixed transfer maps, Hamiltonians and solvers",
 "One test compares the iterative and brute-force pseudo-inverse for a single random state; environments and energies are never checked.",
 [E+"mps_uniform_pinv.py", E+"tdvp_uniform.py"],
 [("pseudo-inverse", E+"mps_uniform_pinv.py: pinv_1mE, pinv_1mE_brute"), ("environments", E+"tdvp_uniform.py: calc_C, calc_K, calc_K_l")],
 ["pinv_1mE result, K, K_left, h_expect"])
prop("P18", "Uniform chains: the flow is the best tangent direction and integrators follow it",
 "For a uniform state the computed evolution direction is the gauge-fixed orthogonal projection of the Hamiltonian action onto the tangent space, its reported norm is the norm of that direction per block, and it vanishes exactly when the energy gradient does. Euler and Runge-Kutta steps follow the resulting flow with errors of second and fifth order, real-time steps conserve the energy density and imaginary-time steps and accepted line-search or conjugate-gradient steps do not raise it.",
 ["inputs", "histories"], "all block lengths, bond dimensions, 2- and 3-site Hamiltonians, time directions, sequences of steps",
 "No passing test evolves a uniform state.",
 [E+"tdvp_uniform.py", E+"dynamics.py"],
 [("tangent vector", E+"tdvp_uniform.py: calc_B, get_B_from_x, calc_BB_Y_2s, calc_B_2s"), ("integrators", E+"tdvp_uniform.py: take_step (also with growing bonds), take_step_RK4, calc_B_CG, EvoMPS_line_search")],
 ["calc_B(), eta, A after steps, h_expect"])
prop("P19", "Uniform chains: re-blocking, resizing, conversion and records preserve the state",
 "Re-blocking several sites into one, enlarging the bond or site dimension, converting between the plain and the evolving class, and carrying a state through an exported record or a file (into the same or another object, with or without resizing) give the same physical infinite state (up to noise where noise is requested, and with new basis states unoccupied), with dimensions, block lengths and Hamiltonians mapped accordingly, so that energies per physical site agree. Exported records share no memory with the object, and a record of other dimensions is refused without changing the object unless resizing was asked for.",
 ["inputs", "histories"], "all block lengths, site and bond dimensions, Hamiltonian ranges and forms, histories of such conversions",
 "No passing test converts, re-blocks, resizes or saves a uniform state.",
 [E+"mps_uniform.py", E+"tdvp_uniform.py"],
 [("conversion", E+"mps_uniform.py / "+E+"tdvp_uniform.py: convert_to_TI_blocked, expand_D, set_q, from_mps, from_tensors"), ("records", E+"tdvp_uniform.py: export_state, import_state, save_state, load_state, from_file")],
 ["tensors, q, L, D, environments, energies and userdata after the conversion"])
prop("P20", "Uniform chains: tangent vectors with a momentum and excitation spectra are exact",
 "The effective excitation Hamiltonian at each momentum is the restriction of the infinite Hamiltonian (minus the energy of the chain) to the gauge-fixed momentum tangent space of the given state, or of a pair of states of equal energy (kinks); it is Hermitian, and the reported excitation energies and vectors are its extremal eigenpairs, for 2- and 3-site Hamiltonians given as arrays, callables or sums of products; a solver run that does not converge is repeated and does not spoil a result already found. Overlaps of tangent vectors of any momentum, their gauge-fixed representatives, and expectation values and correlations in the neighbourhood of a local perturbation equal the values defined by the infinite chain.",
 ["inputs", "configurations"], "all momenta, gapped states, trivial and non-trivial sectors, 2- and 3-site Hamiltonians, block lengths (overlaps), solver failures",
 "No passing test computes an excitation or uses a tangent vector with a momentum.",
 [E+"mps_uniform_excite.py", E+"tdvp_uniform.py"],
 [("effective Hamiltonian", E+"mps_uniform_excite.py: Excite_H_Op, Excite_H_Op_tp"), ("eigenproblem", E+"tdvp_uniform.py: excite_top_triv, excite_top_triv_brute, excite_top_nontriv, excite_top_nontriv_brute"), ("tangent vectors", E+"tdvp_uniform.py: _B_overlap, _B_to_B_GF, expect_tangent_1s, expect_tangent_2s, correlation_tangent_1s_1s")],
 ["matrix and eigenpairs returned by the excite_* methods, return values of the tangent-vector methods"])
prop("P21", "Window states: the finite window inside uniform bulks is consistent",
 "A nonuniform window between two uniform bulks represents one well-defined infinite state: updating and canonicalising preserve its reduced density matrices up to normalisation and reach the centre-canonical form, growing the window on either side by bulk sites leaves every observable unchanged, and expectation values of operators anywhere, density matrices inside the window, and overlaps with another window equal those of the infinite state.",
 ["inputs", "histories"], "all window lengths, bulk block lengths, different left and right bulks, sites, growth and update histories",
 "No passing test creates a window state.",
 [E+"mps_sandwich.py"],
 [("canonical form", E+"mps_sandwich.py: restore_CF, update, simple_renorm"), ("growth", E+"mps_sandwich.py: grow_left, grow_right"), ("observables", E+"mps_sandwich.py: expect_1s, expect_2s, density_1s, overlap, get_A, get_l, get_r")],
 ["A, l, r, observables"])
prop("P22", "Window states: excess energy and evolution are those of the embedded window",
 "The excess energy of a window equals the sum of local energy differences from the bulks (zero for an undisturbed window), the evolution direction is the projection of the full infinite Hamiltonian action onto variations of the window tensors with the prescribed mixed gauge, and steps move the window along that flow, conserving the excess energy in real time and keeping an undisturbed window stationary when the bulk is stationary.",
 ["inputs", "histories"], "all windows, bulks, 2- and 3-site Hamiltonians, step sizes in the asymptotic regime and growth histories",
 "No passing test evolves a window state.",
 [E+"tdvp_sandwich.py"],
 [("energy", E+"tdvp_sandwich.py: calc_C, calc_K"), ("flow", E+"tdvp_sandwich.py: calc_B, calc_B_centre, calc_B_n, take_step, take_step_RK4")],
 ["dH_expect, h_expect, calc_B(), A after steps"])
prop("P23", "High-level drivers honour their schedules, tolerances and limits",
 "The high-level drivers for ground-state search and time evolution make the requested number of steps or stop only when the requested convergence is reached, call the user callback once per iteration with an up-to-date state, respect bond-dimension and iteration limits, leave the state they report in the system at the elapsed time they report, and, when minimising (in imaginary time: with steps small enough to descend), never return a state of higher energy than they started from.",
 ["configurations", "histories"], "all iteration limits, tolerances, expansion schedules, integrators and callbacks",
 "No test calls a driver.",
 [E+"dynamics.py"],
 [("drivers", E+"dynamics.py: evolve, opt_im_time, opt_conj_grad, opt_grad_descent, find_ground, evolve_scipy_ode")],
 ["return values, callback calls, final state"])
prop("P24", "Compiled extension modules are interchangeable with the Python code",
 "The compiled versions of the transfer maps, contractions, operator-contracted tensors and matrix comparison, whether translated from their sources now or compiled from the distributed C files, return the values that define them for all contiguous complex tensors, dense, diagonal or identity arguments and any number of threads, without changing their inputs; with the compiled modules in place, finite, uniform and window states behave exactly as specified without them.",
 ["inputs", "configurations"], "all site and bond dimensions, complex tensors, argument kinds, thread counts, both origins of the C code",
 "The tests run without compiled modules; nothing executes them.",
 [E+"eps_maps_c.pyx", E+"eps_maps_c.c", E+"core_common.pxd", E+"core_common.c", E+"tdvp_calc_C.pyx", E+"allclose.pyx"],
 [("transfer maps", E+"eps_maps_c.pyx: eps_l_noop, eps_r_noop, eps_*_noop_inplace"), ("compiled contractions", E+"core_common.py with core_common.pxd / core_common.c"), ("operators behind a C function", E+"tdvp_calc_C.pyx: calc_C"), ("comparison", E+"allclose.pyx: allclose_mat")],
 ["return values of the compiled functions; the classes on top of them"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        if not p["anchors"]["state"]: del p["anchors"]["state"]
        f.write(json.dumps(p) + "\n")
