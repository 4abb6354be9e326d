"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
SCF, BEAM, CLS, LS = "pySC/core/simulated_commissioning.py", "pySC/core/beam.py", "pySC/core/classes.py", "pySC/core/lattice_setting.py"
TOOLS, DEFS, ATW, STATS = "pySC/utils/sc_tools.py", "pySC/utils/classdef_tools.py", "pySC/utils/at_wrapper.py", "pySC/utils/stats.py"
OT, RF, TUNE, CHROMA, INJ, BBA, LOCO = (f"pySC/correction/{n}.py" for n in
                                       ("orbit_trajectory", "rf", "tune", "chroma", "injection_fit", "bba", "loco"))
RMEAS, RMOD = "pySC/lattice_properties/response_measurement.py", "pySC/lattice_properties/response_model.py"
MAT = "pySC/matlab_index.py"


def p(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))


p("C01", "The design lattice and the user's lattice stay isolated from the errored machine",
  "Building a machine from a lattice and then registering devices, applying errors, changing setpoints or correcting it never changes the "
  "lattice the user passed in nor the machine's ideal design lattice, and none of them share elements or arrays, even if the user's lattice "
  "repeats one element object. A deep copy of a machine equals it in everything (its own ideal lattice, registered devices, uncertainties and "
  "injection settings included), and whatever is done afterwards to one of the two leaves the other as it was.",
  ["inputs", "histories"], "all lattices (also with aliased elements) and all histories of machine-changing calls, on either side of a copy",
  "Tests poke single fields of one lattice; sharing shows only for particular fields after particular call sequences.",
  [SCF, CLS, RMOD], [("constructor copies element by element", f"{SCF}:SimulatedCommissioning.__init__"),
                     ("copy of machine and ideal ring", f"{SCF}:very_deep_copy")], ["SC.RING", "SC.IDEALRING", "source lattice"])

p("C02", "Observing the machine does not change it",
  "BPM readings, all-element readings, beam transmission, bunch generation, setpoint and support queries, model rings, model responses and "
  "dispersion, tune evaluation and structure verification leave every lattice element, setpoint, error, uncertainty, registration and injection setting, and the arrays the caller "
  "passed in, exactly as they were; repeating them with the same random state gives the same answer, also after the caller overwrote what he got from the first call. A measured response matrix or dispersion "
  "leaves all corrector and cavity setpoints and fields as they were before the measurement.",
  ["inputs", "histories"], "all machines (registered devices, errors, tracking modes) and all sequences of observing calls",
  "Existing tests look at returned values only, and for one lattice.",
  [BEAM, RMOD, RMEAS, SCF, ATW], [("tracking on copies", f"{ATW}"), ("model on copied ring", f"{RMOD}:SCgetModelRING"),
                                  ("restoring setpoints", f"{RMEAS}:response_matrix, dispersion")], ["SC deep state snapshot"])

p("C03", "Registration keeps exact books of devices and uncertainties",
  "After any sequence of registrations the machine lists for each role (BPM, cavity, magnet, horizontal/vertical corrector, skew quadrupole) exactly "
  "the sorted unique element indices registered in that role, each support pair once, and for each element the most recently given uncertainty of every field "
  "ever given (for supports: of the latest registration of that support type at that element, other types untouched). Registering initialises setpoints to the "
  "element's current design values, corrector and skew limits to the given ones and all errors to zero without changing its fields; an unknown keyword, support type or malformed "
  "ordinate array is rejected and changes nothing. The books are the machine's own: changing the passed arrays or one entry in place changes no other entry.",
  ["histories", "inputs"], "all sequences of (repeated, overlapping, duplicated) registrations with any keyword subset, and rejected ones in between",
  "Tests register once or twice at fixed ordinates of one cell.",
  [SCF, CLS, DEFS], [("register_*", f"{SCF}:register_bpms, register_cavities, register_magnets, register_supports"),
                     ("pairs of ordinates", f"{DEFS}:update_double_ordinates")], ["SC.ORD", "SC.SIG", "SC.RING fields"])

p("C04", "Applied errors are exactly the registered uncertainties, within their cutoffs",
  "Applying errors gives every registered uncertainty of BPMs, cavities, magnets, supports and static injection an independent zero-mean Gaussian error of that sigma truncated at the "
  "given default cutoff, or at the field's own cutoff where one was registered with it, while BPM noise levels and injection jitter are taken over unchanged, and anything "
  "without an uncertainty keeps its value. Zero sigma gives exactly zero error, the machine's fields, misalignments and cavity values "
  "are consistent with the new errors, and the same random seed reproduces the same machine. Applying errors again replaces the errors applied before (the circumference "
  "error, which scales the present ring, excepted). A support angle given together with offsets of both ends is refused.",
  ["inputs", "configurations"], "all registered uncertainty sets (scalar/array sigmas, per-field cutoffs), default cutoffs and random seeds",
  "Tests pin one seeded draw on one cell with default cutoffs; truncation, independence and per-field cutoffs need many draws and configurations.",
  [SCF, DEFS, TOOLS], [("apply_errors", f"{SCF}:apply_errors"), ("randn_cutoff", f"{DEFS}:randn_cutoff"), ("randnc", f"{TOOLS}:randnc")],
  ["SC.RING error fields", "SC.INJ.Z0"])

p("C05", "Magnet fields follow from setpoints, calibration, offsets and multipoles",
  "The actual normal and skew multipole fields of each registered magnet always equal setpoint times (1 + calibration error), plus its field offsets, plus systematic "
  "multipoles scaled by its actual excitation, plus the dipole term from its bending angle error and, for a combined-function magnet, from its relative quadrupole change; arrays of different length are zero padded and the declared multipole order "
  "matches. Slave parts of a split magnet get the fields and the misalignment of their master with their own bending angle and length, corrector-type elements get the "
  "corresponding kick angles, and updating is idempotent and touches no other magnet.",
  ["inputs", "histories"], "all magnets (any multipole lengths, flags, split magnets) with any errors and setpoints, updated in any order and repeatedly",
  "Tests check a few hand-computed magnets; the formula has many interacting terms and lengths.",
  [SCF, DEFS], [("field model", f"{SCF}:_update_magnets, update_magnets"), ("padding", f"{DEFS}:add_padded")], ["PolynomA/B, KickAngle, MaxOrder"])

p("C06", "Setting magnets and correctors has exact, clipped and isolated effects",
  "Setting correctors (absolute, added or relative to the current value) or magnets (absolute, added or relative to the design value) makes exactly the addressed setpoint component "
  "of the addressed magnets equal to the requested value, for scalars, lists and arrays alike, and reading corrector setpoints returns what was set, a positive value kicking the beam in the positive direction. A request beyond a "
  "corrector's or skew quadrupole's limit is set to the limit with the sign of the request, an invalid method or mismatching "
  "number of setpoints is rejected without effect, and the caller's arrays are not modified. With dipole compensation, a change of the normal gradient of a combined function bending magnet with horizontal corrector is "
  "accompanied by the corrector change that compensates the kick, and nothing else is compensated.",
  ["inputs", "histories"], "all ordinate/setpoint shapes, methods, orders, planes, limits and sequences of settings",
  "Tests set a few values once; clipping, sign conventions, accumulation and aliasing need sequences over many shapes.",
  [SCF, DEFS], [("set_cm_setpoints/get_cm_setpoints", f"{SCF}"), ("set_magnet_setpoints", f"{SCF}"), ("input checks", f"{DEFS}:check_input_and_setpoints")],
  ["SetPointA/B", "tracked kick"])
P[-1]["statement"] = ("Setting correctors (absolute, added or relative to the current value) or magnets (absolute, added or relative to the design value) makes exactly the addressed setpoint component "
  "of the addressed magnets equal to the requested value, or to its limit with the sign of the request where a corrector or skew quadrupole limit is exceeded, and reading corrector setpoints returns what was set, a positive value kicking the beam in the positive direction. "
  "An invalid method or a mismatching number of setpoints is rejected without effect, and the caller's arrays are never modified. "
  "With dipole compensation, a gradient change of a bending magnet with a horizontal corrector is accompanied by the corrector change that compensates the kick.")

p("C07", "Cavity values follow from setpoints and errors",
  "Voltage, frequency and time lag of each registered cavity always equal setpoint times (1 + calibration error) plus offset, and setting one of them (absolute, added, or relative to the current "
  "setpoint; scalar or per cavity) changes exactly that setpoint and that value of exactly those cavities. Applying errors, updating repeatedly, and sets that cancel leave setpoints "
  "where they were.",
  ["inputs", "histories"], "all cavity registrations, errors and sequences of settings",
  "Tests set one value once.",
  [SCF, DEFS], [("update_cavities", f"{SCF}"), ("set_cavity_setpoints", f"{SCF}")], ["Voltage, Frequency, TimeLag"])

p("C08", "Support misalignments propagate exactly to the elements they carry",
  "The offset an element gets from its supports is the linear interpolation in s between the (offset) end points of the innermost structure containing it, with the end points themselves carried by "
  "the outer structures (sections carry plinths carry girders), also for a structure that spans the end of the ring; elements on no structure get nothing. Rolls about the beam axis of all containing structures add "
  "up while pitch and yaw follow the slope of the innermost structure, and a structure given a pitch or yaw of its own is rotated about its centre. After applying errors or updating supports, magnets and BPMs carry exactly "
  "these values, and the structure query at element positions agrees with them.",
  ["inputs", "configurations"], "all nested support layouts (also spanning the ring end, also with elements at equal s), offsets and rolls",
  "Tests use one section on one cell.",
  [SCF, DEFS], [("support_offset_and_roll", f"{SCF}"), ("s_interpolation", f"{DEFS}"), ("update_supports", f"{SCF}"),
                ("_apply_support_alignment_error", f"{SCF}")], ["SupportOffset, SupportRoll"])

p("C09", "Misaligned elements act like rigidly moved elements",
  "The entrance and exit transformations given to a misaligned magnet equal the change of reference frame of a rigid body moved by the total offset and rotated by the total roll, pitch and yaw "
  "about its entrance, for straight and bending magnets of any length. A straight drift under any misalignment still acts as a drift, a magnet without misalignment gets identity transformations, "
  "pure offsets shift and pure rolls rotate the coordinates, and the transformation depends only on the current total misalignment (support plus own), not on history.",
  ["inputs"], "all offsets, angles, lengths and bending angles", "Tests compare a handful of fixed numbers.",
  [TOOLS, SCF], [("update_transformation", f"{TOOLS}")], ["T1, T2, R1, R2", "tracking through a misaligned drift"])

p("C10", "BPM readings equal the true beam position seen through the registered BPM errors",
  "In every tracking mode each BPM reading equals the transmitted-beam centroid (or closed orbit) at that BPM, rotated by its total roll, minus its total offset, scaled by its calibration, plus noise not exceeding the mode's noise level times "
  "the cutoff (scaled up by lost intensity), averaged over shots (and over turns in pseudo-orbit mode) with the sum signal as weight; readings are ordered turn by turn and BPM by BPM in lattice order, and a requested subset of BPMs gives their part of the full reading. A BPM reads "
  "not-a-number exactly when the transmitted fraction seen by it falls below the beam-loss threshold, and the sum signal is the transmitted fraction scaled by the sum error. Unregistered BPMs are left out, and asking only for those is an error.",
  ["inputs", "configurations"], "all lattices, BPM errors, supports, apertures, particle/turn/shot numbers and tracking modes",
  "Tests read a single cell with few configurations; the reading combines tracking, loss, roll, offset, noise and averaging.",
  [BEAM], [("bpm_reading", f"{BEAM}"), ("_real_bpm_reading", f"{BEAM}"), ("all_elements_reading", f"{BEAM}")], ["bpm_reading", "all_elements_reading"])

p("C11", "Injected bunches follow the configured injection and beam sigma matrix",
  "Every generated bunch has the requested number of six-dimensional particles, centred at the configured injection coordinates plus one common random jitter within twice the configured sigma per coordinate; a single particle sits at that centroid. "
  "More particles scatter around it with the configured beam sigma matrix (also when it is correlated or singular: never outside its range, never not-a-number), "
  "and the user's post-processing function is applied to the result as the last step.",
  ["inputs", "configurations"], "all injection settings, beam sigma matrices, particle numbers", "Tests use a diagonal matrix and one seed.",
  [BEAM, CLS], [("generate_bunches", f"{BEAM}")], ["generate_bunches"])

p("C12", "Beam transmission counts surviving particles truthfully",
  "The turn-by-turn transmission equals the fraction of injected particles still alive at the end of each turn of the actual machine, starts from at most one and never increases, and the number of survived turns is the number of turns "
  "whose surviving fraction exceeds one minus the beam-loss threshold. The requested numbers of particles and turns, or by default the injection settings, are used.",
  ["inputs", "configurations"], "all machines with apertures, bunches, thresholds, particle and turn numbers", "Tests count one lossless and one blocked case.",
  [BEAM], [("beam_transmission", f"{BEAM}")], ["beam_transmission"])

p("C13", "Model response and dispersion are the derivatives of model trajectory or orbit",
  "The model response matrix has one column per corrector (horizontal first, then vertical), rows ordered plane, turn, BPM, and each entry equals the change per unit kick of the trajectory from the given start point, or of the closed orbit, at that BPM, with a positive kick "
  "in the corrector's plane deflecting to positive coordinates, on the design lattice or on the model of the current setpoints as requested. The model dispersion equals the change of that trajectory or orbit per unit of rf frequency of the given cavities. "
  "An unknown tracking mode or a lost reference trajectory is an error.",
  ["inputs", "configurations"], "all lattices, corrector kinds (thin kickers and multipole magnets), BPM/corrector subsets, turns, start points and modes",
  "Tests check shape and few numbers of one lattice.",
  [RMOD, ATW], [("SCgetModelRM", RMOD), ("SCgetModelDispersion", RMOD), ("orbpass", RMOD)], ["returned matrices"])

p("C14", "The model ring contains the current setpoints and nothing else",
  "The model ring is the design lattice with the multipole setpoints (dipole terms zeroed) and cavity setpoints of the machine, without any misalignment, calibration, multipole or field error, and the apertures set on the machine are included if requested and left out (those of the design kept) otherwise. "
  "It shares nothing with the machine: changing one later never changes the other.",
  ["inputs", "histories"], "all machines after any history of errors and setpoint changes", "The function is hardly tested.",
  [RMOD], [("SCgetModelRING", RMOD)], ["returned lattice"])

p("C15", "Measured responses and dispersion equal the machine's actual response",
  "A measured response matrix gives for each corrector (horizontal first, then vertical) the change of the BPM readings per unit of actual setpoint change, by a two-point difference or a polynomial fit over the requested number of steps, reports the corrector steps actually used, and reverses or reduces a step "
  "that would exceed a limit or lose the beam further; on a linear machine it agrees for every number of steps and mode. Measured dispersion is the change of the readings per unit rf frequency change, for two or more steps alike. "
  "Afterwards all correctors and cavities are at their initial setpoints, and mismatching amplitudes are rejected.",
  ["inputs", "configurations"], "all machines, corrector/BPM subsets, start setpoints, limits, amplitudes, step numbers and modes", "Tests measure one lattice with one setting.",
  [RMEAS, LOCO], [("response_matrix", RMEAS), ("dispersion", RMEAS), ("measure_closed_orbit_response_matrix", LOCO)], ["returned matrices", "setpoints"])

p("C16", "Orbit correction converges to the best correctable orbit or reports failure",
  "With a faithful response matrix, orbit and trajectory correction either returns a machine whose readings are stable and, restricted to what the correctors can reach, at the reference orbit, or raises an error; a corrector setting "
  "which reproduces the reference exactly is found, the rf frequency being adjusted by the dispersion part when included. It changes nothing but the setpoints of the given correctors (and rf frequency if the dispersion is included), never exceeds corrector limits, "
  "and rejects response matrices and references of wrong shape.",
  ["inputs", "histories"], "all stable machines with corrector kicks or errors, BPM/corrector subsets, references, regularisation and step limits", "One example lattice is corrected in tests, without oracle for the optimum.",
  [OT, TOOLS], [("correct", OT), ("_check_ords", OT), ("_is_stable_or_converged", OT)], ["readings, CM setpoints"])

p("C17", "First-turn threading and two-turn closing succeed or raise, via correctors only",
  "Threading returns only when all BPMs repeatedly see the beam in the first turn, stitching only when they repeatedly do in both turns, and balancing only when two-turn transmission is kept and the readings are stable; otherwise they raise an error. Trajectory correction "
  "only uses correctors up to the last BPM reached, wiggles an increasing number of the last of them in all directions when the beam stops at the same BPM, only changes setpoints of given correctors within their limits, leaves the given reference, response matrix and injection intact, and demands the number of turns and the transmission it needs.",
  ["inputs", "histories"], "all machines with errors and apertures, references, BPM/corrector subsets, and parameters", "One seeded example is threaded in tests.",
  [OT], [("first_turn", OT), ("stitch", OT), ("balance", OT), ("_wiggling", OT), ("_get_last_cm", OT)], ["bpm_reading after return", "setpoints"])

p("C18", "Beam-based alignment moves BPM offsets to the magnet centres and nothing else",
  "Beam-based alignment adds to each BPM's offset exactly the measured distance to the magnetic centre of its magnet, if it is a number, below the outlier limit and significant against its error, and restores injection, turns and all quadrupole setpoints; on a "
  "machine without noise it finds the magnetic centre. The emulated alignment sets the selected BPMs to the true magnetic centre plus a truncated random remainder of given or re-estimated size, and leaves all other BPMs and planes alone.",
  ["inputs", "configurations"], "all machines, BPM/magnet pairs, planes, magnet strengths, offsets and error flags", "One seeded case is run in tests.",
  [BBA, STATS], [("trajectory_bba", BBA), ("apply_bpm_offsets, is_bba_errored", BBA), ("fake_bba", BBA)], ["BPM Offset", "INJ.Z0", "SetPointB"])

p("C19", "RF phase and frequency correction bring the beam to synchronism",
  "Correcting the rf phase brings the energy gain of the injected beam to its zero crossing (the phase error to within a small fraction of the wavelength of where it should be) and correcting the rf frequency brings the beam to the design energy, as far as they succeed, from any initial phase or small frequency error. "
  "They change only time lag or frequency of the given cavities, by one and the same amount, leave them unchanged if the measurement is not precise enough, use the settings of the scan for which there is beam and raise if these are too few, and reject a wrong tracking mode, too few turns or steps, or switched-off cavities. The static phase error is the distance of injection and closed-orbit phase folded to within half a wavelength, and the energy error is their energy difference.",
  ["inputs", "configurations"], "all initial phases/frequencies, voltages, step numbers and cavity subsets", "One example is corrected in tests.",
  [RF], [("correct_rf_phase", RF), ("correct_rf_frequency", RF), ("phase_and_energy_error", RF)], ["cavity setpoints"])

p("C20", "Tune and chromaticity tools leave the machine at the best point they report",
  "A tune scan evaluates only the given relative settings of the two quadrupole families, from the centre outwards and each from the same initial state, stops at the first point reaching the target unless a full scan is asked for, and leaves the quadrupoles at the setpoints it returns, which are those with the best transmission found (or most turns if none survives). "
  "Tune and chromaticity fits leave the machine with the given families shifted by one common amount each, at a merit not worse than the start, and close to a reachable target; only the given magnets (and compensating correctors) change. Without any transmission the scan is an error.",
  ["inputs", "configurations"], "all machines, families, grids (even and odd sizes), targets and point numbers", "Tests run the chromaticity fit on one lattice; the tune functions are not tested.",
  [TUNE, CHROMA], [("tune_scan", TUNE), ("fit_tune, tune", TUNE), ("fit_chroma", CHROMA)], ["SetPointB", "optics"])

p("C21", "The regularised pseudo-inverse is the documented SVD filter",
  "The pseudo-inverse keeps the given number of largest singular values, filters each with s/(s^2+alpha^2) (1/s without regularisation) and scales all by the damping factor; without options it satisfies all four Moore-Penrose conditions for every matrix of full rank, and with its null singular values removed for every matrix. "
  "The input is not modified, and the result has the transposed shape.",
  ["inputs"], "all real matrices (tall, wide, rank deficient, zero, badly scaled) and all option values", "Tests use a few fixed matrices.",
  [TOOLS], [("pinv", TOOLS)], ["returned matrix"])

p("C22", "Weighted and circular statistics agree with their definitions",
  "Weighted and circular means, errors and rms, with or without measurement errors and along any axes, agree with their textbook definitions: inverse-variance weights, invariance under common shifts (also by whole periods) and scaling, independence of element order and axis layout, equality with the plain statistic for equal errors. The not-a-number-aware variants "
  "equal the plain ones on the data with the missing entries removed, missing or zero errors disable the weights, and the small-sample correction is that of the effective sample size, never below two.",
  ["inputs"], "all data shapes, axes, periods, errors and patterns of missing data", "Tests use a few arrays.",
  [STATS], [("statistics", STATS)], ["returned values"])

p("C23", "Circumference scaling reaches exactly the requested circumference",
  "Scaling the circumference to an absolute value or by a relative factor gives a ring of exactly that circumference by scaling all drifts by one common factor and leaving every other element untouched; an unknown mode is rejected with no effect. "
  "The circumference error applied to a machine is one truncated Gaussian factor of the registered size, the ideal ring keeping its length.",
  ["inputs"], "all lattices with drifts, targets and modes", "Tests scale one cell once or twice.",
  [TOOLS, SCF], [("scale_circumference", TOOLS), ("apply_errors", SCF)], ["element lengths"])

p("C24", "Multipole errors go to the right component of the right magnets",
  "Systematic multipoles defined for a component (normal or skew, order) add, for any excitation, the given normal and skew multipoles scaled by the current value of that component, never change the component itself directly, replace an earlier definition for the same component and keep those for others. "
  "Random multipoles add to normal and skew field offsets a truncated Gaussian of the given sizes, accumulating over calls. Only the given magnets change, the given tables are not modified, malformed tables are rejected, and tables read from file return the swapped columns with the nominal order and type (those of the first component where there is no unique one).",
  ["inputs", "histories"], "all multipole tables, orders, types, magnets, setpoints and sequences of definitions", "Tests use one table.",
  [SCF, TOOLS], [("set_systematic_multipole_errors, set_random_multipole_errors", SCF), ("read_multipoles", TOOLS)], ["PolynomA/B after update"])

p("C25", "Switching cavities and radiation is selective, idempotent and reversible",
  "Switching cavities or radiation on or off sets exactly the pass methods of cavities or of the multipole/bending magnets that have a radiating counterpart, off taking priority over on, and touches no other element or attribute. Repeating a switch changes nothing, "
  "on after off restores the original state of elements that were on, an unknown switch is rejected without effect, and switching individual cavities affects only those.",
  ["inputs", "histories"], "all lattices, pass methods, combinations and sequences of switches", "Tests switch one lattice.",
  [LS], [("switch_cavity_and_radiation, switch_rf", LS)], ["PassMethod"])

p("C26", "Injection fits recover the injected trajectory",
  "The drift fit returns minus the position and angle at the start of the ring of the straight line through the readings of the last BPM of the first turn and the first BPM of the second turn, without changing the injection. "
  "The trajectory fit returns, and adds to the injection once, the correction which makes the ideal trajectory through the given BPMs agree with the readings at least as well as no correction, and recovers an injection error exactly linear machines show; the other coordinates stay zero.",
  ["inputs"], "all machines, injection errors and BPM choices", "Tests fit one seeded case.",
  [INJ], [("fit_injection_drift, fit_injection_trajectory", INJ)], ["returned correction", "INJ.Z0"])
P[-1]["statement"] = ("The drift fit returns minus the position and angle at the start of the ring of the straight line through the readings of the last BPM of the first turn and the first BPM of the second turn, without changing the injection. "
  "The trajectory fit returns, and adds to the injection exactly once, the transverse correction cancelling the start coordinates whose ideal trajectory fits the readings at the chosen BPMs best; it fits at least as well as no correction, and all other coordinates are unchanged.")

p("C27", "LOCO recovers the lattice errors it is linear in",
  "The jacobian contains, per quadrupole, the derivative of the model response to its setpoint, and per corrector and BPM the scaling of its column or row; computing it leaves the machine unchanged. For measured data that is a linear combination of the jacobian, "
  "the least-squares (Levenberg-Marquardt) fit recovers the parameters of the selected types and the Gauss-Newton step solves its normal equations with the given number of singular values, whatever types are selected. "
  "Applying a correction subtracts it from the setpoints of the given magnets or families only. The beta beating is the rms relative difference of the beta functions.",
  ["inputs", "configurations"], "all response matrices, jacobians, parameter selections, weights and singular value cuts", "One lattice is fitted in tests with all parameters.",
  [LOCO], [("calculate_jacobian", LOCO), ("loco_correction_lm, loco_correction_ng, get_inverse", LOCO), ("set_correction", LOCO)], ["returned parameters"])

p("C28", "The MATLAB-style interface does what the native interface does",
  "Each MATLAB-style function has the same effect and result as the native call it stands for, with the documented argument translation (planes and types counted from one, skew before normal, orders from one, two-column tables given skew first, rotations as pitch, yaw, roll, pseudo-inverse instead of response matrix); it "
  "rejects planes or types other than one and two. Turn numbers changed for an rf correction are restored.",
  ["inputs"], "all wrappers and their arguments", "The module is not tested.",
  [MAT], [("wrappers", MAT)], ["machine state and results of both interfaces under the same random seed"])

p("C29", "Truncated random numbers, element search and settings containers",
  "Truncated Gaussian numbers have the requested shape, never exceed the cutoff in magnitude and follow the truncated normal distribution; an element search returns exactly the sorted indices of elements whose name matches the expression. "
  "The tracking mode accepts only the known modes, and closed-orbit mode resets turns and particles to one; attribute and key access of settings containers are equivalent, nested dictionaries included, and missing names raise an attribute error. ",
  ["inputs", "histories"], "all shapes, cutoffs, names and expressions, sequences of container operations", "Tests sample one or two calls.",
  [TOOLS, CLS], [("randnc, ords_from_regex", TOOLS), ("DotDict, Injection", CLS)], ["returned values"])

p("C30", "The LOCO interface describes the machine and applies fitted corrections",
  "The LOCO structures describe the given BPMs and correctors (all registered ones by default) with neutral gains, couplings, steps and kicks of twice 1000 times the step, any keyword overriding a default, and are independent copies. The measurement structure holds the corrector response and "
  "dispersion as the response measurement returns them, times twice 1000 times the largest step (dispersion: times 1000 times the rf step), with the rf settings, and leaves the machine unchanged. Applying a diagnostic correction subtracts fitted corrector gains, BPM gains and BPM rolls from exactly the fitted elements: "
  "an exact fit cancels the errors, outliers are ignored, the mean is optionally removed, absent fits change nothing, and the fit results are not modified. "
  "Fit parameters list each magnet on its own or a family as one group, with its normal or skew gradient in fitted model, ideal lattice and original setpoint, and its step; a lattice correction sets exactly these magnets to the original setpoint plus damping times (ideal minus fitted value), within limits and with dipole compensation.",
  ["inputs", "configurations"], "all BPM and corrector selections, steps, fit results and options", "The module is not tested.",
  ["pySC/correction/loco_wrapper.py"], [("loco_model, loco_bpm_structure, loco_cm_structure, loco_measurement, loco_fit_parameters, apply_lattice_correction, applyDiagnosticCorrection", "pySC/correction/loco_wrapper.py")], ["returned structures", "errors of the machine"])

p("C31", "Plots show the data of the machine and leave everything unchanged",
  "A plotting function or option draws the actual data at the right place, in the labelled unit: readings, trajectories and apertures over all turns, transmission, offsets and rolls of supports, magnets and BPMs, optics, magnets, correctors and BPMs along the ring in the selected range, phase space at the given element, corrector strengths, "
  "alignment offsets at their own BPM with failed ones marked, fitted trajectories, measured shifts and fitted settings of the rf corrections, scanned tune maps with each family along its own axis, singular values. Drawing changes neither results nor machine nor the general plot settings, for any selection, range or loss pattern.",
  ["inputs", "configurations"], "all machines, selections, ranges, loss patterns and results shown", "Tests at most call a plot with the default options and look at nothing.",
  ["pySC/plotting/plot_support.py", "pySC/plotting/plot_lattice.py", "pySC/plotting/plot_phase_space.py", "pySC/plotting/plot_apertures.py", "pySC/plotting/plot_synoptic.py", BEAM, BBA, INJ, RF, TUNE, TOOLS],
  [("plot_support", "pySC/plotting/plot_support.py"), ("plot_lattice, plot_cm_strengths", "pySC/plotting/plot_lattice.py"), ("plot_phase_space", "pySC/plotting/plot_phase_space.py"), ("_plot_bpm_reading, plot_transmission", BEAM),
   ("plot_bba_results, plot_bpm_offsets_from_magnets", BBA), ("plot_scan", TUNE), ("pinv", TOOLS)], ["contents of the figure", "machine and results with and without plot"])

p("C32", "Apertures bracket the stability limit; magnet orbits are relative to magnets",
  "The dynamic aperture found along each direction lies within the accuracy of a transition between surviving and lost beam for the given turns, energy offset and launch orbit, whatever the initial bounds and their order; the area is that of the polygon of the limits, centring moves them onto the closed orbit, and automatic directions are those of equal phases on the ellipse through the limits. "
  "The momentum aperture at each element is a pair of momentum offsets, relative to the closed orbit there, of which the inner survives and the outer is lost, within the relative accuracy and of the given sign; zero without closed orbit. The orbit in magnets is the closed orbit minus the magnet displacement, not-a-number without closed orbit. Ring and arguments stay unchanged.",
  ["inputs"], "all rings, apertures, directions, bounds, accuracies, energy offsets and elements", "The modules are not tested.",
  ["pySC/lattice_properties/apertures.py", "pySC/lattice_properties/magnet_orbit.py"], [("SCdynamicAperture, SCmomentumAperture", "pySC/lattice_properties/apertures.py"), ("SCgetCOD", "pySC/lattice_properties/magnet_orbit.py")], ["returned limits and orbits"])

p("C33", "Verification accepts consistent machines and reports each inconsistency",
  "Verifying the structure of a machine accepts every machine made by valid registrations, before and after errors, multipoles and setpoints are applied, and refuses one whose polynoms, setpoints, calibration errors or multipole offsets do not fit together, "
  "a combined-function magnet without bending angle, sections or plinths without girders, and a bunch or injection uncertainty of the wrong shape, naming it. It warns about missing or repeated registrations, zero corrector limits, zero gradient or angle of "
  "combined-function magnets, uncertainties and children not matching their elements and aperture conflicts, once each and naming the element, and about nothing else. The machine stays as it is.",
  ["inputs", "configurations"], "all machines and all combinations of inconsistencies", "Tests verify one valid machine before errors are applied.",
  [SCF], [("verify_structure", f"{SCF}:verify_structure")], ["exception", "log records", "machine"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P:
        x["statement"] = x["statement"].strip()
        f.write(json.dumps(x) + "\n")
print(len(P))
