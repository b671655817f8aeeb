"""The properties: text only (the deciding machinery is in registry.py)."""

WHY = ("The suite samples %s; it never varies %s, so agreement on every representation, "
       "shape and history within the bounds is not something it can settle.")


def P(pid, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=pid, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    return d


GEN = "evoMPS/mps_gen.py"
TG = "evoMPS/tdvp_gen.py"
UNI = "evoMPS/mps_uniform.py"
TU = "evoMPS/tdvp_uniform.py"
UPB = "evoMPS/mps_uniform_pinv.py"
EXC = "evoMPS/mps_uniform_excite.py"
SW = "evoMPS/mps_sandwich.py"
TS = "evoMPS/tdvp_sandwich.py"
TCM = "evoMPS/tdvp_common.py"
TM = "evoMPS/core_common.py"

PROPS = [
    P("F01", "Gauge handling of a finite chain never changes the state",
      "Restoring either canonical form (with or without QR, diagonalisation or normalisation), updating, and changing the "
      "gauge or overall scale by hand in any order never changes the physical state of a finite chain beyond the requested "
      "normalisation. After each restoration the chain really has the promised canonical form: identity environments on one "
      "side, diagonal non-negative Schmidt weights in ascending order with the right sum on the other. The stored left and "
      "right environments always equal the exact contractions of the stored tensors, and no weights that matter are dropped.",
      ["histories", "inputs", "configurations"],
      "all sequences of updates, restorations, gauge changes, rescalings and unsynchronised operator applications up to the "
      "depth bound, over every site-dimension and bond-dimension profile, state kind (generic, ill-conditioned gauge, rank-deficient, "
      "product, degenerate) and canonical form within the bounds",
      WHY % ("a handful of fixed spin-1/2 profiles after a single update", "the order of operations, the gauge, the site dimensions or the rank"),
      [GEN, "evoMPS/tdvp_common.py", "evoMPS/core_common.py"],
      [("restore_RCF / restore_LCF / update", GEN), ("restore_RCF_r, restore_LCF_l ...", "evoMPS/tdvp_common.py")],
      ["s.A, s.l, s.r, s.D after every operation"]),
    P("F02", "Finite-chain expectation values equal those of the state vector",
      "Every expectation value a finite chain reports - of one-, two- and three-site operators given as tensors or as functions, "
      "of products of operators on distant sites, of operator strings of every length, of connected correlation functions and of "
      "matrix product operators on any window - equals the value computed from the full state vector. This holds in every "
      "canonical form and gauge, and measuring does not change the state.",
      ["inputs", "histories", "configurations"],
      "all sites, site pairs, windows and string lengths, for every reachable representation of every state within the bounds",
      WHY % ("none of the correlation, string or MPO measurements", "the positions, the operators or the canonical form"),
      [GEN, "evoMPS/mps_gen.py", "evoMPS/tdvp_common.py"],
      [("expect_1s .. expect_MPO, correlation_1s_1s, expect_string_1s", GEN)]),
    P("F03", "Reduced states, Schmidt spectra, entropies and overlaps are exact",
      "Reduced density matrices of single sites and of pairs of sites at any distance, Schmidt spectra and entanglement "
      "entropies of every cut, and inner products of any two finite chains equal those of the corresponding state vectors "
      "(density matrices in the convention <op> = sum_st op[s,t] rho[s,t]). This holds for unequal site dimensions, "
      "rank-deficient states and both canonical forms.",
      ["inputs", "histories", "configurations"],
      "all sites, pairs, cuts and pairs of chains, for every reachable representation of every state within the bounds",
      WHY % ("no reduced density matrices at all", "the cut, the pair of sites or the rank of the state"),
      [GEN], [("density_1s, density_2s, schmidt_sq, entropy, inner", GEN)]),
    P("F04", "Truncation keeps the heaviest Schmidt weights and a valid normalised state",
      "Truncating a canonical finite chain to any admissible bond profile yields a normalised state with exactly these bond "
      "dimensions, in canonical form, whose loss of fidelity equals the discarded Schmidt weight when one bond is cut and is "
      "bounded by the total discarded weight otherwise. Automatic truncation removes precisely the weights below its "
      "tolerance, reports truthfully whether it did anything, and otherwise leaves the state as it was.",
      ["inputs", "configurations", "histories"],
      "all admissible target profiles and both canonical forms, for every state within the bounds, and all sequences of two truncations",
      WHY % ("no truncation", "the target profile, the canonical form or degenerate weights"),
      [GEN], [("truncate, auto_truncate, _update_after_truncate", GEN)]),
    P("F05", "Preparing, acting on, saving and loading a chain gives the stated state",
      "Preparing a product state, setting tensors, applying a single-site operator (tensor or function) or a matrix product "
      "operator on any window, adding noise and randomising produce exactly the stated state with the stated norm and bond "
      "dimensions, and keep the environments and canonical form in step when an update is requested. Constructing a chain "
      "corrects bond dimensions to the largest useful values and starts from a full-rank normalised state. "
      "Saving and loading, in the same or another object, reproduces the state; a file cut short at any byte is refused and changes nothing.",
      ["histories", "inputs", "configurations"],
      "all sequences of preparations, operator applications and save/load steps up to the depth bound within the size bounds, and all constructor profiles",
      WHY % ("no preparation or persistence methods", "the order of operations, the window or the site dimensions"),
      [GEN], [("set_state_product, set_state_from_tensors, apply_op_1s, apply_op_MPO, randomize, add_noise, save_state, load_state, initialize_state", GEN)]),
    P("F06", "The TDVP step is the exact tangent-plane projection of the Schroedinger step",
      "For any nearest- or next-nearest-neighbour Hamiltonian, the TDVP parameter change of a finite chain is minus the best "
      "approximation of (H - <H>) applied to the state among tangent vectors: same direction as the projection of the dense "
      "Hamiltonian's action, with norm equal to the reported step size. The reported total and per-term energies equal the "
      "dense expectation values. Neither depends on the gauge, on how terms are given (arrays, callables, missing terms) or "
      "on the canonical form.",
      ["inputs", "configurations", "histories"],
      "all bond and site-dimension profiles, state kinds, canonical forms, Hamiltonian ranges and encodings within the bounds, before and after every short sequence of steps",
      WHY % ("the critical Ising chain from one start state, by its final energy", "the Hamiltonian range, the site dimensions, missing terms or the canonical form"),
      [TG, "evoMPS/tdvp_common.py"],
      [("calc_C, calc_K, calc_K_l, calc_B, _calc_B_r/_l, eta", TG), ("calc_x, calc_x_3s, calc_C_K_r ...", "evoMPS/tdvp_common.py")]),
    P("F07", "Truncation-error estimate and dynamical expansion follow the two-site projection",
      "The reported error of the TDVP approximation equals the norm of the part of (H - <H>) applied to the state that lies in the "
      "two-site tangent directions but outside the one-site tangent plane. Dynamical expansion adds at most the requested "
      "number of directions, chosen as the dominant ones, keeps the step unchanged within the old manifold, respects bounds on bond "
      "dimensions, and its step reproduces the improved first-order evolution.",
      ["inputs", "configurations", "histories"],
      "all profiles, Hamiltonians and expansion sizes within the bounds, at every bond",
      WHY % ("no expansion or projection-error code", "the bond, the number of added directions or the Hamiltonian"),
      [TG, "evoMPS/tdvp_common.py"],
      [("calc_BB, update_etaBB, take_step(dynexp=True), vary_D", TG), ("calc_BB_Y_2s, calc_BB_2s", "evoMPS/tdvp_common.py")]),
    P("F08", "Finite-chain integrators have their order, conserve what they should, lower energy",
      "Euler and fourth-order Runge-Kutta steps converge to the exact flow of the TDVP equation with global order one and four, "
      "forwards, backwards and in imaginary time, with and without intermediate updates. Real-time evolution conserves norm and energy to that order, "
      "imaginary-time evolution never raises the energy for small steps, and at full bond dimension both reproduce the exact "
      "dense propagation. A step only needs an update before it, and never modifies anything but the state.",
      ["histories", "inputs", "configurations"],
      "all sequences of Euler/RK4 real/imaginary steps with step sizes from a ladder, for all profiles and Hamiltonians within the bounds",
      WHY % ("one Ising start state with one step size per integrator", "the step sequence, the Hamiltonian or the profile"),
      [TG], [("take_step, take_step_RK4", TG), ("evolve", "evoMPS/dynamics.py")]),
    P("F09", "Split-step and DMRG sweeps are the projector-splitting flow of the exact state",
      "A split-step sweep (one- or two-site, real, imaginary or complex step, local-term and/or MPO Hamiltonian, before and after other sweeps) gives "
      "the state obtained by alternately evolving the centre and the bond of the dense state in its own Schmidt bases, within the requested bond "
      "dimension; in real time the energy is kept and stepping back undoes the step. A DMRG sweep gives the sweep of local ground states and never "
      "raises the energy. Reported energies, truncation errors, shapes and the canonical form are those of the state left behind.",
      ["histories", "inputs", "configurations"],
      "all sequences of sweeps and steps up to the depth bound, for all chain lengths, site and bond dimension profiles, Hamiltonian ranges and forms within the bounds",
      WHY % ("one Ising run", "bond dimension 1 bonds, three-site terms, absent terms or two-site sweeps"),
      [TG, "evoMPS/split_step.py", "evoMPS/sexpmv.py"],
      [("take_step_split", TG), ("vari_opt_ss_sweep", TG), ("evolve_split", "evoMPS/split_step.py"), ("Vari_Opt_Two_Site_Op", "evoMPS/split_step.py")]),
    P("F10", "Conjugate-gradient and line-search steps descend and leave nothing behind",
      "A line search along a tangent vector proposes a step that does not raise the energy, is a local minimum of the energy along the search line, "
      "and reports the energy that is reached when the step is taken. The conjugate-gradient direction is the gradient plus beta times the previous "
      "direction (or the bare gradient after a reset). Searching leaves the state, its tangent vector and its energies exactly as they were.",
      ["histories", "inputs", "configurations"],
      "all sequences of line searches and conjugate-gradient steps (with and without resets, in both search modes) up to the depth bound, for all profiles and Hamiltonian encodings within the bounds",
      WHY % ("one Ising start state by its final energy", "the Hamiltonian, the search mode or the state left behind by the search"),
      [TG], [("calc_B_CG, find_min_h_brent, _prepare_calc_B / _restore", TG)]),
    P("F11", "A dissipative step is the projected quantum state diffusion step",
      "For every outcome of the noise, a dissipative step of a finite chain moves the state along the tangent-plane projection of the "
      "effective drift -iH + sum_j(conj(<L_j>) L_j - L_j^dagger L_j / 2 + L_j W_j / dt), with <L_j> taken in the current state and W_j complex Wiener increments of variance dt; "
      "averaged over the noise it reproduces the Lindblad master equation to first order in dt at full bond dimension. "
      "It leaves the Hamiltonian and jump operators as they were, and after update() expectation values are those of the new state.",
      ["inputs", "configurations", "histories", "schedules"],
      "all noise outcomes from a finite alphabet, after all histories up to the depth bound, for all chain and bond dimension profiles, Hamiltonians and sets of jump operators within the bounds",
      WHY % ("no dissipative code", "the jump operators or noise outcomes"),
      ["evoMPS/tdvp_gen_diss.py", TG],
      [("take_step_dissipative", "evoMPS/tdvp_gen_diss.py"), ("update", "evoMPS/tdvp_gen_diss.py"), ("calc_B_1s_diss", "evoMPS/tdvp_gen_diss.py")]),
    P("F12", "Finite-chain evolution drivers hit the requested times with faithful state",
      "The evolution drivers (fixed-step Euler and fourth-order, with or without expansion of the bond dimension, and the adaptive "
      "ODE-based ones) perform exactly the steps implied by the time span and step size or step count, call back once per step with "
      "the right number, time, state, energy and error, respect the bond-dimension limits and end where asked. States follow the projected "
      "Schroedinger flow to the order of the integrator. Dividing a time span over several calls gives the same final state.",
      ["histories", "inputs", "configurations"],
      "all span/step-size pairs of an enumerated set (whole and fractional numbers of steps, accumulated rounding), all divisions of a "
      "span into calls, every integrator, expansion setting and step limit, on every chain, Hamiltonian and short history within the bounds",
      WHY % ("no driver at all", "the span, its division into calls or the integrator"),
      ["evoMPS/dynamics.py"], [("evolve, evolve_scipy_ode, evolve_scipy_ode_old", "evoMPS/dynamics.py"), ("take_step, take_step_RK4", TG)]),
    P("U01", "Gauge handling of an infinite chain never changes the state",
      "Updating, rescaling, changing gauge, translating and restoring the right, left or symmetric canonical form (whole block or single "
      "sites, with every eigensolver mode) never changes the physical state of an infinite block-translation-invariant chain. "
      "Afterwards the stored l and r are the positive fixed points of the stored tensors, normalised to one, and the requested bonds have "
      "the promised form: identity on one side and ascending Schmidt weights on the other, or equal descending diagonals. "
      "Returned gauge transformations are the ones that were applied.",
      ["histories", "inputs", "configurations"],
      "all sequences of gauge changes, restorations and updates up to the depth bound, for every block length, dimension, state kind "
      "(generic, ill-conditioned gauge, rank-deficient, product, weakly entangled, AKLT), gauge mode and eigensolver mode within the bounds",
      WHY % ("a few states of fixed size after one update", "the block length with rank deficiency, the order of restorations or the eigensolver"),
      [UNI, "evoMPS/tdvp_common.py"],
      [("calc_lr, _calc_lr, _calc_lr_ARPACK, _calc_lr_brute", UNI), ("restore_SCF, restore_RCF, restore_LCF, update", UNI), ("restore_LCF_r_seq ...", "evoMPS/tdvp_common.py")],
      ["s.A, s.l, s.r after every operation"]),
    P("U02", "Infinite-chain expectation values are exact",
      "Every expectation value an infinite chain reports - one-, two- and three-site operators as tensors, functions or sums of "
      "tensor products, products and connected correlations of distant operators, finite operator strings, one-site density matrices and "
      "basis occupancies, at every site of the block - equals the exact contraction of the state, in every gauge. Measuring does not change the state.",
      ["inputs", "histories", "configurations"],
      "all block positions, distances and string lengths within the bounds for every reachable representation of every state within the bounds",
      WHY % ("one- to three-site energies", "block positions, distances, operator encodings or the gauge"),
      [UNI], [("expect_1s, expect_2s, expect_2s_tp, expect_3s, expect_1s_1s, correlation_1s_1s, expect_string_1s, density_1s, basis_occupancy", UNI)]),
    P("U03", "Spectra, entropies, correlation lengths and infinite strings are exact",
      "Schmidt spectra and entropies of every bond, the transfer-matrix gap and correlation length, the per-site factor of an "
      "infinite operator string, and the string and charge values of the Schmidt vectors for symmetric states equal the values obtained from exact "
      "diagonalisation of the transfer matrices, whatever the gauge, block length and rank of the state.",
      ["inputs", "histories", "configurations"],
      "all bonds and block lengths, states with and without symmetries, in every reachable representation within the bounds",
      WHY % ("the entropy of random states at most", "symmetries, block position or rank"),
      [UNI, UPB], [("schmidt_sq, entropy, calc_E_gap, correlation_length", UNI), ("expect_string_per_site_1s, expect_string_1s_density_hc, expect_sum_1s_density_hc", UNI)]),
    P("U04", "Resizing, blocking and acting on an infinite chain give the stated state",
      "Truncating an infinite chain keeps exactly the heaviest Schmidt vectors at every bond, and automatic truncation removes precisely the "
      "weights below its tolerance and reports truthfully whether it did. Expanding the bond dimension keeps the old tensors "
      "and adds only noise of the requested size; changing the local dimension pads or cuts exactly; blocking to one site, applying "
      "one-site operators, building from tensors, randomising and adding noise produce exactly the stated state, in canonical form whenever they update.",
      ["histories", "inputs", "configurations"],
      "all truncation targets, tolerances, dimensions, sites and operators within the bounds, in all sequences up to the depth bound, for every state kind and block length within the bounds",
      WHY % ("none of these operations", "the target size, the block length, the rank or the order of operations"),
      [UNI], [("truncate, auto_truncate, expand_D, set_q, convert_to_TI_blocked, apply_op_1s, add_noise, randomize, from_tensors", UNI)]),
    P("U05", "Overlaps per site and alignments of infinite chains are exact",
      "The fidelity per site, dominant overlap eigenvalue and left or right overlap eigenvector of any two infinite chains, of equal or "
      "different bond dimension and block length, equal those of the exact mixed transfer matrix whichever solver is forced. Phase alignment makes the "
      "dominant overlap real and positive without changing the state, and gauge alignment maps a gauge-equivalent state onto the other's "
      "tensors, returns the transformation used, and refuses inequivalent states.",
      ["inputs", "configurations", "histories"],
      "all pairs of bond dimensions, block lengths, state kinds and solver modes within the bounds",
      WHY % ("no overlaps of different infinite chains", "the block lengths, the bond dimensions or the solver"),
      [UNI], [("fidelity_per_site, phase_align, gauge_align, _calc_E_largest_eigenvalues", UNI)]),
    P("U06", "Uniform TDVP energies and tangent vectors are the exact projections",
      "After any history of updates, gauge changes, steps and Hamiltonian changes, the reported energy density and per-site term values, the "
      "left and right environment Hamiltonians (K) and the fixed points of an infinite chain are the exact ones, and the TDVP "
      "tangent vector obeys its gauge condition, has the reported norm eta, and its overlap with every tangent direction is the derivative of the energy along it. "
      "Computing them does not change the state, for two- and three-site Hamiltonians given as array, function or sum of products.",
      ["inputs", "histories", "configurations"],
      "all block lengths, bond and local dimensions, Hamiltonian encodings, gauges and histories within the bounds, checked along a spanning set of generic tangent directions",
      WHY % ("two-site Hamiltonians through converged ground-state energies", "block length, encodings, three-site terms or the gauge"),
      [TU, TCM, UPB], [("calc_C, calc_K, calc_K_l, calc_B, set_ham, update", TU), ("calc_x, calc_x_3s, calc_x_tp, calc_K, calc_Vsh", TCM)]),
    P("U07", "Uniform two-site error and dynamical expansion capture the missing evolution",
      "The two-site error etaBB of an infinite chain is exactly the norm of the part of the evolution outside the one-site and inside "
      "the two-site tangent space, bond by bond. A dynamically expanding step grows the bond dimension by the documented amount, leaves the one-site part of the step "
      "unchanged and adds, at order dtau, the best approximation of the missing two-site part by that many states; a supplied tangent vector or pair is used as given.",
      ["inputs", "histories", "configurations"],
      "all block lengths, dimensions, Hamiltonian encodings, expansion limits and step kinds within the bounds after every history up to the depth bound",
      WHY % ("no dynamical expansion", "block length, three-site Hamiltonians or the expansion limits"),
      [TU, TCM], [("calc_BB_Y_2s, calc_B_2s, take_step(dynexp=True)", TU), ("calc_BB_Y_2s, calc_BB_Y_2s_ham_3s, calc_BB_Y_2s_tp, calc_BB_2s, calc_Vsh_l", TCM)]),
    P("U08", "Uniform integrators follow the TDVP flow to their stated order",
      "One Euler or Runge-Kutta step of an infinite chain differs from the exact TDVP flow by an error of order dtau^2 or dtau^5, for "
      "real, imaginary and complex time; real-time Runge-Kutta conserves the energy to that order and imaginary-time steps lower it at the rate set by eta. "
      "A supplied tangent vector is used as given and is not modified.",
      ["inputs", "histories", "configurations"],
      "all directions of time, block lengths, dimensions and Hamiltonian encodings within the bounds after every history up to the depth bound",
      WHY % ("convergence to ground states with Euler steps only", "the integrator, the block length or the direction of time"),
      [TU], [("take_step, take_step_RK4", TU)]),
    P("L02", "Matrix factorisations and null spaces satisfy their defining identities",
      "Square roots, inverses and triangular or spectral factors of Hermitian matrices reproduce the matrix they were made from, their "
      "(pseudo-)inverses invert them on the detected support, and the reported rank is the number of eigenvalues above the stated "
      "tolerance, down to rank zero and for both Cholesky and eigenvalue paths. Null-space tensors are orthonormal, have the right "
      "dimension, and satisfy the left or right gauge condition they are built for. Inputs are left alone; singular triangular matrices are "
      "reported as such.",
      ["inputs", "configurations"],
      "all sizes, ranks, spectra, number types and option combinations within the bounds",
      WHY % ("well-conditioned states that never reach the rank-deficient branches", "the rank, the spectrum or the option set"),
      ["evoMPS/matmul.py", "evoMPS/tdvp_common.py", "evoMPS/nullspace.py"],
      [("herm_fac_with_inv, herm_sqrt_inv, calc_Vsh, calc_Vsh_l", "evoMPS/tdvp_common.py"), ("sqrtmh, invmh, invtr", "evoMPS/matmul.py"),
       ("nullspace, nullspace_qr, rank", "evoMPS/nullspace.py")]),
    P("L03", "The linear solver behind infinite sums inverts 1 - e^{ip}E",
      "pinv_1mE applied from either side returns the solution of the linear system defined by the (projected, if pseudo=True) transfer "
      "operator at the requested momentum, for every block length, bond dimension, form of the fixed points, solver and output option, and "
      "leaves the right-hand side alone. The brute-force variants return the same inverse.",
      ["inputs", "configurations"],
      "all block lengths, momenta, sides, solvers and canonical forms within the bounds",
      WHY % ("the energies that come out at the end of long runs at zero momentum", "the side, momentum, block length or bond dimension"),
      ["evoMPS/mps_uniform_pinv.py"], [("pinv_1mE, PinvOp, pinv_1mE_brute", "evoMPS/mps_uniform_pinv.py")]),
    P("L04", "The Krylov exponential applies exp(tA) within its tolerance",
      "gexpmv returns exp(tA)v for dense matrices and linear operators of any dimension from one upwards, real or complex t and data, any "
      "permitted Krylov dimension and with its default arguments, to within the requested local tolerance, whenever it reports convergence; it "
      "does not modify v.",
      ["inputs", "configurations"],
      "all matrix kinds, start vectors, times, tolerances and Krylov dimensions within the bounds",
      WHY % ("one split-step run", "the dimension, the time or the Krylov dimension"),
      ["evoMPS/sexpmv.py"], [("gexpmv", "evoMPS/sexpmv.py")]),
    P("U12", "Ground-state searches and evolution of infinite chains report what they reach",
      "Imaginary-time, conjugate-gradient and gradient-descent searches, the combined ground-state search with stepwise expansion and the "
      "real-time driver never raise the energy density of an infinite chain beyond their starting value (or, in real time, change it beyond "
      "integration error), never go below the ground-state bound, take the steps they report, and stop exactly when the reported error falls below "
      "the tolerance or the iteration limit is reached. Every callback sees consistent, up-to-date energy and error values in the right order, "
      "the final state and returned gradient, times and step sizes are those of the reported iteration, and bond dimensions end where asked.",
      ["histories", "inputs", "configurations"],
      "every search, iteration limit, reset interval, step mode, expansion target and integrator from an enumerated set, for every block "
      "length, dimension, Hamiltonian and gauge mode within the bounds",
      WHY % ("one converged ground state per model", "iteration limits, resets, block length or expansion schedule"),
      ["evoMPS/dynamics.py", TU], [("evolve, find_ground, opt_im_time, opt_conj_grad, opt_grad_descent", "evoMPS/dynamics.py"), ("calc_B_CG, take_step", TU)]),
    P("U10", "Excitation energies are the exact tangent-space spectrum at each momentum",
      "excite_top_triv, excite_top_nontriv and their dense variants return the eigenvalues and eigenvectors of the exact effective Hamiltonian <B'|H - E|B> of "
      "momentum-p tangent vectors (with the left and right half chain taken from two degenerate states in the nontrivial case), whatever the gauge, phase, "
      "Hamiltonian encoding and previous calls. They leave the physical states unchanged, and after failures of the eigensolver they return the first converged result "
      "or raise EvoMPSNoConvergence. Expectation values and correlations in a state with one site replaced by a tangent vector are exact.",
      ["inputs", "histories", "faults"],
      "all momenta of a grid, encodings, gauges, donors, eigensolver failure patterns and histories within the bounds; L = 1 as supported by the library",
      WHY % ("no excitation code", "the momentum, the gauge of the donor or the three-site terms"),
      [TU, EXC], [("excite_top_triv, excite_top_nontriv, *_brute, expect_tangent_1s, expect_tangent_2s, correlation_tangent_1s_1s", TU),
                  ("Excite_H_Op.calc_BHB, Excite_H_Op_tp.calc_BHB", EXC)]),
    P("S01", "Gauge handling of a sandwich state never changes the state",
      "Updates, canonical-form restorations, regrowing of the window, updates of the bulk states, saving and loading, and conversions of a finite window between two "
      "infinite bulks leave the physical state unchanged up to norm and phase. After each the stored l, r, canonical form and norm are those of the current tensors at every site of the "
      "window and of both bulks, for any block length and unequal bond dimensions of the two bulks.",
      ["inputs", "histories", "configurations"],
      "all sequences of representation operations up to the depth bound over window lengths, block lengths, bond and site dimensions",
      WHY % ("no sandwich state", "the window length, the block lengths or the order of operations"),
      [SW], [("update, restore_CF, calc_l, calc_r, get_l, get_r, grow_left, grow_right, save_state, load_state", SW)]),
    P("S02", "Sandwich observables and overlaps are exact on and beyond the window",
      "Expectation values, correlations, densities and overlaps of a sandwich state equal those of the infinite chain given by its tensors, for sites "
      "inside the window, in either bulk and across its edges, in every canonical form and after every history; so do its overlaps with other sandwich states and with "
      "momentum superpositions of a tangent tensor over the whole chain. Computing any of them does not change the state.",
      ["inputs", "histories", "configurations"],
      "all site positions from well inside the left bulk to well inside the right one, operators, window and block lengths within the bounds",
      WHY % ("no sandwich state", "sites across the window edge, block lengths or different bulks"),
      [SW], [("expect_1s, expect_2s, expect_1s_1s, expect_string, density_1s, get_A, get_l, get_r, fidelity, overlap, overlap_tangent", SW)]),
    P("S03", "Sandwich TDVP energies and tangent vectors are the exact projections",
      "With fixed bulks, the energy relative to the bulk energy density, its per-term values, the window tangent vector B and its norm eta, and the projection error are exactly "
      "those of the TDVP for the window tensors with the Hamiltonian of the window and of both bulks, including all terms across the edges. One Euler step moves the tensors along -B and nothing else, "
      "for two- and three-site terms, site-dependent Hamiltonians and functions.",
      ["inputs", "histories", "configurations"],
      "all window and block lengths, bond dimensions, Hamiltonian encodings and histories within the bounds",
      WHY % ("no sandwich TDVP", "edge terms, three-site Hamiltonians or block lengths"),
      [TS, TG], [("calc_C, calc_K, calc_K_l, calc_B, calc_BB_Y_2s, update, take_step, take_step_RK4, set_ham_array_from_function", TS)]),
    P("S04", "Sandwich integrators follow the TDVP flow to their stated order",
      "One Euler or Runge-Kutta step of the window differs from the exact TDVP flow with fixed bulks by an error of order dtau^2 or dtau^5, for real and imaginary time, with "
      "and without dynamical expansion; the bulks do not change. A tangent vector passed in is used as given and is not modified.",
      ["inputs", "histories", "configurations"],
      "all directions of time, window sizes, dimensions and Hamiltonian encodings within the bounds",
      WHY % ("no sandwich TDVP", "the integrator, the edges or supplied tangent vectors"),
      [TS], [("take_step, take_step_RK4", TS)]),
    P("S05", "Split-step evolution of a window sees the Hamiltonian of both bulks",
      "Split-step sweeps and DMRG sweeps on the window of a sandwich state, with environments supplied for the bulks, reproduce the exact effective evolution of each site and bond "
      "and never raise the energy of the window when minimising. Two- and three-site terms across both edges are included exactly once.",
      ["inputs", "histories", "configurations"],
      "all window sizes, dimensions, integrator options and Hamiltonian encodings within the bounds",
      WHY % ("one split-step run on an open chain", "the bulk environments, window length or three-site terms"),
      ["evoMPS/split_step.py", TS], [("evolve_split, vari_opt_ss_sweep with KL_bulk and KR_bulk", "evoMPS/split_step.py")]),
    P("U09", "Uniform conjugate-gradient steps and line searches are truthful and descend",
      "calc_B_CG leaves the physical state as it was, returns the exact gradient and its norm, and searches along the gradient plus a non-negative "
      "Polak-Ribiere or Fletcher-Reeves multiple of the gauge-fixed previous direction (or along the gradient after a reset); the step it proposes does not raise the energy "
      "density unless it is the announced fallback. A line search records the true energy, slope and Wolfe status of every point it visits and returns one of "
      "them. Whatever evaluations fail to converge, the caller gets a usable step or the documented fallback.",
      ["inputs", "histories", "faults"],
      "all sequences of searches with and without memory over block lengths, bond dimensions, Hamiltonians and initial step sizes within the bounds, and every pattern "
      "of failing evaluations up to the bound",
      WHY % ("one ground-state search", "the block length, the momentum direction kept from earlier steps or failures inside a search"),
      [TU], [("calc_B_CG, _B_overlap, _B_to_B_GF", TU), ("EvoMPS_line_search.f, brentq, bracket_extrap, sane_first_step, wolfe", TU)]),
    P("U11", "Snapshots, files and conversions of infinite-chain TDVP objects are faithful",
      "A state exported, saved or converted from an infinite-chain TDVP object, at any point of a history, keeps describing that state whatever happens to the object "
      "afterwards, and loading it into the same, a fresh or a differently sized object gives back the state (cut or padded exactly as requested), its user data, energies and environments. "
      "An import that is not possible, or a file cut short at any byte, is refused and changes nothing. Building from tensors or from a plain infinite chain, blocking, expanding and changing the local dimension give the stated "
      "state with energies and environments of the (converted) Hamiltonian after the promised update.",
      ["inputs", "histories", "configurations"],
      "all sequences of steps, in-place edits, exports, saves, imports, loads and conversions up to the depth bound over block lengths, bond and site dimensions, target sizes and permission flags",
      WHY % ("no saving or loading of infinite chains", "what happens to the object between saving and loading, or the size of the target"),
      [TU, UNI], [("export_state, import_state, save_state, load_state, from_file, from_tensors, from_mps, set_q, expand_D, convert_to_TI_blocked", TU)]),
    P("L01", "Transfer-matrix maps and structured matrices agree with dense arithmetic",
      "Every transfer-matrix map (one to several sites, with or without one-, two-, three-site operators or matrix product operators, "
      "from either side, in place or allocating) equals its explicit dense contraction for all tensor shapes. Structured "
      "(identity and diagonal) matrices give the same result as dense ones under every supported operation and mixture of operands.",
      ["inputs", "configurations"],
      "all shape combinations, operand kinds and map variants within the bounds",
      WHY % ("square equal-bond maps at one size", "unequal bra/ket dimensions, structured operands or in-place variants"),
      [TM, "evoMPS/matmul.py", "evoMPS/tdvp_common.py"],
      [("eps_l_*, eps_r_*", TM), ("eyemat, simple_diag_matrix, sqrtmh, invtr, eigmh", "evoMPS/matmul.py")]),
    P("L05", "Compiled accelerator modules compute what the Python code computes",
      "Every optional extension module compiles from its source, and with it loaded each transfer-matrix map, local-term contraction and array comparison returns the same "
      "result as the Python version for complex tensors of any shape, any form of environment and memory layout, and any number of threads. "
      "The observables, energies and tangent vectors of finite and infinite chains computed on top of them remain exact. Inputs are left alone.",
      ["inputs", "configurations", "schedules"],
      "all shapes, forms of environments, memory layouts and distributions of the physical index over threads within the bounds, on modules compiled from the current sources",
      WHY % ("only the pure Python paths (the modules are not compiled for the tests)", "the thread count, the memory layout or the form of the environment"),
      ["evoMPS/eps_maps_c.pyx", "evoMPS/tdvp_calc_C.pyx", "evoMPS/allclose.pyx", TM],
      [("eps_l_noop_inplace, eps_r_noop_inplace, gdmm", "evoMPS/eps_maps_c.pyx"), ("calc_C", "evoMPS/tdvp_calc_C.pyx"), ("allclose_mat", "evoMPS/allclose.pyx"), ("declarations for compilation", "evoMPS/core_common.pxd")]),
]
