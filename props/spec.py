"""The properties: text, anchors, and what the checks cover.  gen.py turns this into properties.jsonl, MANIFEST.json;
check.py takes bounds / outside / assumptions for the evidence from here."""

S = []


def P(id, title, statement, over, quant, tests, files, mech, observe, bounds, outside, state=(), assumptions=(), note=None):
    S.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, tests=tests, files=files, mech=mech, observe=observe,
                  bounds=bounds, outside=outside, state=list(state), assumptions=list(assumptions), note=note))


PB = "src/pynlo/light/PulseBase.py"
DP = "src/pynlo/light/DerivedPulses.py"

P("C01", "Time and frequency grids are one consistent uniform grid",
  "For every even number of points, time window and centre wavelength, a pulse's time grid is uniform, has the time window as its span (points times step) "
  "and contains t = 0 at index n/2, and its frequency grid is uniform with spacing 1/window and has the centre frequency at index n/2. "
  "Relative and absolute angular frequency, frequency and wavelength grids describe the same points (W = 2 pi F = V + 2 pi f0, wl = c/F), "
  "and time step x frequency step x n = 1.",
  ["inputs", "configurations"], "all even point counts, windows and wavelengths (the check: n up to 8 quick / 32 thorough, all real W and wavelength in wide ranges)",
  "Tests look at one pulse (n = 2**13, 1550 nm); they never look at other parities of n/2, windows or at all representations together.",
  [PB], [("grid construction", PB + " __calc_..., set_time_window_ps, set_center_wavelength_nm")],
  ["T_ps", "T_mks", "V_THz", "W_THz", "W_mks", "F_THz", "F_mks", "wl_nm", "wl_mks", "dT_*", "dF_*"],
  "n in {2,4,6,8} quick, up to 32 thorough, plus 62 to 4096; window in [0.01,1000] ps and wavelength in [100,20000] nm as real unknowns",
  "odd n (the package's shift convention is only defined for even n)")

P("C02", "The same quantity set or read in different units is the same quantity",
  "Setting a pulse's centre wavelength in nm or m, its window in ps, s, THz or Hz, and its repetition rate in MHz, in either order, gives the same pulse; "
  "every SI ('mks') reading equals the reading in scaled units times the exact unit factor. "
  "Setting a frequency window gives a frequency grid of exactly that span (n times spacing) and a time step of its inverse.",
  ["inputs", "configurations"], "all values of window, wavelength, repetition rate, all setter variants and orders",
  "Tests use two or three numeric values and never compare all unit variants of all quantities.",
  [PB], [("unit conversion in setters and properties", PB)], ["set_*_nm/_m/_ps/_s/_THz/_mks", "*_mks properties", "frep_MHz", "frep_mks"],
  "n in {2,4,6,8}; all values real unknowns in wide ranges; all 16 combinations of setter variants and orders", "odd n")

P("C03", "Grids never depend on the history of settings, reads or other pulses",
  "After any sequence of changes of point count, window and wavelength, interleaved with reads in any way, every grid read from a pulse is the one that belongs to the current settings. "
  "Neither other pulses in the same process, nor writing into arrays that were read from a pulse, nor reading or computing quantities, changes any pulse.",
  ["histories", "inputs"], "all histories of setter calls and reads, on several pulses", "Tests create a pulse, set it once, and look once; the shared class-level cache is never exercised across histories.",
  [PB], [("class-level grid cache keyed by a pulse hash", PB + " cache_hash, wl_nm, W_mks ...")], ["all grid properties", "AT", "AW"],
  "histories of 2 (quick) / 3 (thorough) arbitrary changes with or without reads in between, change-and-change-back, two pulses; values are real unknowns",
  "longer histories", state=[("class-level grid caches", "values of the last grid read, for a given key", PB)],
  note="")

P("C04", "Temporal and spectral field are one discrete Fourier pair",
  "Whatever field is stored, in the time or the frequency picture, the other picture is its centred discrete Fourier transform (n/2 is zero in both), a field read back is the field written, and sum|A(t)|^2 = n sum|A(w)|^2. "
  "The package's transform helpers are that pair along any axis of an array, linear and inverse to each other. "
  "Fields handed in are copied and never modified.",
  ["inputs", "histories"], "all complex fields, lengths, axes and write sequences", "Tests compare numbers for smooth pulses at a single length and tolerance.",
  [PB, "src/pynlo/util/fft_t.py"], [("fft wrappers", "src/pynlo/util"), ("set_AT / set_AW", PB)], ["AT", "AW", "FFT_t", "IFFT_t"],
  "n in {2,4,6} quick, {2..16} thorough; n up to 256 (512) with two free samples; 1-d, 2-d (both axes) and 3-d arrays; fields are complex unknowns", "odd n")

P("C05", "Pulse energy is the integral of power and is set exactly",
  "The pulse energy reported is the trapezoidal time integral of |A(t)|^2 in joules; it scales with the square of the field and does not depend on centre wavelength or repetition rate. "
  "Setting the energy gives exactly that energy with an unchanged pulse shape and grid. "
  "Pulses constructed with an average power (analytic shapes and measured spectra) have pulse energy times repetition rate equal to it, with the same shape as without.",
  ["inputs"], "all fields, energies, grids, repetition rates", "Tests check a single sech pulse to 1-3 digits.",
  [PB, DP], [("calc_epp / set_epp", PB), ("average-power branch of the constructors", DP)], ["calc_epp", "set_epp", "SechPulse", "GaussianPulse", "SincPulse", "FROGPulse"],
  "n in {2,4,6} quick, up to 12 thorough, 64 with four free samples; fields complex unknowns", "odd n; zero fields")

P("C06", "Dispersion, phase and delay operations change phases only, exactly as stated",
  "Applying spectral dispersion (GDD, TOD, FOD about the centre or a given frequency) or an arbitrary spectral phase multiplies the spectrum by the exponential of i times exactly that phase; temporal chirp does the same to the temporal field; power at each point is unchanged and the opposite operation undoes it. "
  "A time offset multiplies the spectrum by the corresponding linear phase, so an offset of m grid steps cyclically rotates the power profile by m points. "
  "Dechirping (removing the time delay) leaves the spectral power unchanged and removes exactly the quadratic (linear) spectral phase fitted over the points above the intensity threshold, so such a pulse leaves with flat phase.",
  ["inputs"], "all fields, dispersions, offsets, thresholds", "No test covers TOD, FOD, a shifted reference, weak points or exactness.",
  [PB], [("chirp_pulse_W/T, apply_phase_W, add_time_offset, dechirp_pulse, remove_time_delay", PB)], ["AW", "AT"],
  "n in {2,4,6} (64 with two free samples); all fields and coefficients unknown; dechirp: amplitudes in [1,2] (one weak point in [0.1,0.2]) and phases without wrapping, n in {4,6}",
  "phases that wrap inside dechirp; sign convention of 'forward' for a time offset is the code's (positive offset: profile moves to smaller indices)")

P("C07", "Copies of a pulse are complete and independent",
  "A cloned pulse, a pulse loaded from another, and a pulse rebuilt from the pulse dictionary have the same grids, repetition rate and field as the original, whatever the receiving pulse was before. "
  "Afterwards nothing done to either one changes the other, and pulses derived from a pulse (interpolated or subset) are independent of it. "
  "The dictionary holds plain values describing the pulse and is not tied to it.",
  ["histories", "inputs"], "all source pulses, previous states of the target, and later changes", "Tests clone one pulse into a fresh one and compare a few attributes once.",
  [PB], [("clone_pulse, create_cloned_pulse, get_pulse_dict, load_pulse_dict", PB)], ["all pulse attributes"],
  "n in {2,4} (64 with four free samples), targets: fresh or with 2,4,6 points, other grid, warm caches", "odd n")

P("C08", "Operations that change or select the grid do exactly that",
  "Expanding the time window pads the field with zeros on the requested side(s), keeps step and centre, and changes nothing else; a sub-pulse is exactly the stretch of the spectrum around the grid point closest to the requested wavelength, on its original frequencies, and leaves the source alone. "
  "Rotating the spectrum to a new centre moves it by the whole number of grid steps nearest to the requested frequency change; interpolating to a new centre gives linear interpolation at the same absolute frequencies and zero outside. "
  "A wavelength filter zeroes exactly the points outside the closed band; invalid requests are refused with a ValueError.",
  ["inputs", "configurations"], "all fields, grids, offsets, bands", "Tests cover one expansion and none of the rest.",
  [PB], [("expand_time_window, create_subset_pulse, rotate_spectrum_to_new_center_wl, interpolate_to_new_center_wl, filter_by_wavelength_nm", PB)],
  ["all grids", "AW", "AT"], "n in {2,4,6} (sub-pulses up to 8 of 12), 64 with six free samples; all bands of a 4-point grid; all offsets by enumerated whole steps and a real unknown fraction",
  "odd n; interpolation exactly on the end points of the old grid")

P("C09", "Constructed pulses are the pulses they are named after",
  "Sech, Gaussian and sinc pulses have the requested peak power at t = 0, the named shape with the requested width (Gaussian: FWHM of the power), grid and repetition rate, and dispersion or chirp given at construction acts like the corresponding operation; a CW pulse is one spectral line carrying the requested power, at the requested wavelength even with an offset from the grid centre; a noise pulse has the same tiny power in every bin. "
  "A pulse built from a measured spectrum has amplitude and phase interpolated linearly in wavelength onto the grid, zero outside the data, the requested energy and the phase sign selected, and a spectrum file written by a pulse reads back to the same pulse. "
  "Lengths that look like SI units by mistake are refused.",
  ["inputs", "configurations"], "all powers, widths, windows, wavelengths, chirps, spectra", "Tests construct a single pulse of each kind, none with chirps, offsets or data files.",
  [DP, PB], [("constructors", DP), ("write_frog", PB)], ["AT", "AW", "grids", "spectrum files"],
  "n up to 8, 64 for the shapes; all parameters real unknowns; measured spectra of 3-4 rows with unknown amplitudes and phases on two fixed grids; both row orders",
  "OSA import (unreachable code in the package); numerical text formatting of spectrum files", assumptions=["constants of the sinc/sech/gauss width definitions to their printed digits"])

P("C10", "Noise, spectral averages and autocorrelation are their definitions",
  "The two noise models add, per spectral bin, a normally distributed amplitude (one photon per bin; square root of the photon number) times a uniformly distributed phase and change nothing else; unknown models are refused. "
  "The mean frequency is the power-weighted mean over the grid, independent of the field's scale, and the mean wavelength is c divided by it. "
  "The intensity autocorrelation at delay of m steps is sum P(t)P(t+m), hence symmetric with its value at zero delay in the middle.",
  ["inputs"], "all fields, grids and random draws", "Tests use none of these.", [PB],
  [("add_noise, calculate_weighted_avg_*, calculate_intensity_autocorrelation", PB)], ["AW", "return values"],
  "n in {2,4,6} (averages and autocorrelation also 64); fields and every random draw are unknowns", "the distribution of numpy's generators (only how draws are used)")

P("C30", "The XFROG spectrogram is its definition",
  "The XFROG spectrogram has, at each delay and frequency of the returned grids, the magnitude of the discrete Fourier transform of the pulse's carrier-resolved complex field times a Gaussian gate of the given width centred at that delay. "
  "The returned grids and extent cover the time window and the non-negative half of the frequencies; the pulse is not changed; unknown gates are refused.",
  ["inputs"], "all fields, gates, grids", "No test calls it.", [PB], [("spectrogram", PB)], ["return values"],
  "n in {2,4}, 2-5 delays; fields in polar form with unknown magnitudes and phases", "gate type 'frog' (needs scipy's spline map_coordinates); odd n")


LB = "src/pynlo/light/beam.py"
DFG = "src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py"
CC = "src/pynlo/media/crystals/CrystalContainer.py"
XD = "src/pynlo/media/crystals/"

P("C11", "Gaussian and waveguide beams follow Gaussian-beam optics",
  "For every waist, spectrum of refractive indices and position a Gaussian beam has zR = pi w0^2 n/wl (wl the vacuum wavelength of each frequency), confocal parameter 2 zR, spot w(z)^2 = w0^2 (1 + (z/zR)^2), curvature R(z) = z + zR^2/z and Gouy factor exp(i atan(z/zR)), so it is symmetric about its focus; a changed waist is used from then on. "
  "The factor from root power to field a satisfies a^2 area n eps0 c = 1, with area pi w^2 of the spot at that place (or the waist, or a given spot). "
  "The overlap of two coaxial beams is |<u1|u2>|^2 of the two normalised Gaussian modes (symmetric, at most 1, 1 for equal beams). "
  "Matching a beam to another, to a central waist or to the optimal overlap in a crystal makes the Rayleigh ranges equal (at all frequencies); the optimal one minimises minus the overlap integrated from the focus over the length. Waveguide beams have their effective area everywhere, unit overlap and no Gouy phase. "
  "Indices are looked up along each beam's own crystal axis.",
  ["inputs", "configurations"], "all waists, grids, index spectra and positions", "No test covers beams.",
  [LB, "src/pynlo/light/high_V_waveguide.py"], [("OneDBeam", LB), ("OneDBeam_highV_WG", "src/pynlo/light/high_V_waveguide.py")], ["calculate_zR, calc_confocal, calculate_waist, calculate_R, calculate_gouy_phase, rtP_to_a, rtP_to_a_2, calc_overlap_integral, set_waist_to_match_*"],
  "n in {2,4}; waists, windows, wavelengths, an index per frequency and the position are real unknowns",
  "the quality of the scalar minimiser behind the optimal overlap (its objective is checked, its answer is taken as given)")

P("C12", "The DFG integrand is the coupled-wave equations and keeps photons and power",
  "For every pump, signal and idler field, refractive index, nonlinear coefficient, area, poling period and position the derivative computed for difference-frequency generation is exactly the three coupled-wave equations with all pairs of frequencies (nothing wraps around the edges of the grids), in the frame of the linear phases, with the sign of the poled domain. "
  "Hence with a common effective area signal and idler photons appear in pairs, each costs a pump photon, and total power is conserved. "
  "With Gaussian beams the beam areas follow the common Rayleigh range about the centre of the crystal, and Gouy phases are included only on request. With one field alone, or without nonlinearity, nothing changes.",
  ["inputs", "configurations"], "all fields, indices, coefficients, positions", "No test evaluates the integrand.",
  [DFG, LB], [("dfg_problem.deriv, fftcomputer", DFG)], ["deriv", "conv, corr"],
  "n in {2,4} per field (6 for the sums over pairs), all fields complex unknowns; waveguide: grids and indices unknown; Gaussian beams: n = 2 with fixed grids and indices, waist, length, position unknown",
  "chi-3 terms (see the known finding: they cannot be evaluated); odd n")

P("C13", "Setting up, solving and reading a DFG problem mixes up nothing",
  "A difference-frequency problem puts its idler grid at the difference frequency with the pump's window, points and repetition rate, starts from the three spectra in order pump, signal, idler, and refuses grids that overlap or differ in length. "
  "It works on its own copies: neither later changes of the pulses, crystal or start vector that were handed in, nor another problem, changes its derivative, and it never modifies inputs or the state vector it is given. "
  "The results handed out for each saved position are the saved fields with the linear propagation phases put back in the frame of the pump, on the right grids, as many as were saved; reading results twice or modifying a returned pulse changes nothing.",
  ["inputs", "histories"], "all pulses, indices, saved states and orders of use", "No test covers this.", [DFG],
  [("dfg_problem.__init__, process_stepper_output", DFG), ("dfg_results_interface", DFG)], ["ystart, idlr, idlr_in", "deriv", "get_pump, get_sgnl, get_idlr, get_z, n_saves"],
  "n in {2,4}; 2-3 saved states, all fields, grids and indices real or complex unknowns", "overlap of grids decided at four representative configurations with unknown values",
  state=[("cached phases and beams of the last z", "speed-up only", DFG)])

P("C14", "Poling flips the nonlinearity exactly at the domain boundaries",
  "In a periodically poled crystal the nonlinearity is + in the first half and - in the second half of every period, for a constant as well as for a position-dependent period (each period starts where the one before ends), everywhere in the crystal including a last period that is only begun, and in whatever order positions are visited. "
  "The period can be given as a number, a tuple, a function or a linear chirp over the crystal's own length; the period of one crystal is not that of another.",
  ["inputs", "configurations", "histories"], "all periods, chirps, lengths, positions and orders of visits", "No test covers poling.",
  [DFG, XD + "XTAL_PPLN.py"], [("precompute_poling, poling", DFG), ("set_pp, set_pp_chirp", XD + "XTAL_PPLN.py")], ["deriv", "pp"],
  "1-3 periods (1-8 thorough) for constant, 1-3 for varying periods; periods, lengths, positions real unknowns (position at least 0.1% of a period from a boundary)", "positions exactly on a boundary")

P("C15", "Crystals are independent and cached indices are always up to date",
  "The refractive index and wavenumber a crystal returns for a pulse are those of the pulse's present grid, the requested axis and the crystal's present temperature, angle and data set, with caching on exactly as with caching off, after any change of them; writing into a returned array changes nothing. "
  "Temperature, angle, length, damage threshold, mode and cached data of a crystal never show up in another crystal, whatever the order of creation. k = 2 pi n/wl; the mixed index at angle theta satisfies 1/n^2 = sin^2/ne^2 + cos^2/no^2; unknown axes are refused.",
  ["histories", "configurations"], "all crystals, grids, axes, temperatures, angles and orders of changes", "No test covers crystals' caches.",
  [CC, XD + "XTAL_PPLN.py", XD + "XTAL_AgGaSe2.py", XD + "XTAL_AgGaS.py"], [("get_pulse_n cache", CC), ("set_T, set_theta", XD)], ["get_pulse_n, get_pulse_k, n", "T, length_mks, damage_threshold_mks, mode"],
  "n = 2; one change after a first cached read (window, wavelength, points, axis, pulse, caching switched off, temperature, angle, data set, other crystal); all values real unknowns", "longer histories of changes",
  state=[("index cache", "index per pulse grid and axis", CC)])

P("C16", "Crystal dispersion and phase matching are their definitions",
  "Group velocity is c/(n - wl dn/dwl), the delay between two wavelengths is the difference of inverse group velocities times the (given or own) length, D is -wl/c d2n/dwl2, all along the axis asked for. "
  "The poling period satisfies 2 pi/P = kp - ks - ki - dk with 1/wl_p = 1/wl_s + 1/wl_i, whichever two wavelengths are given; inverting it minimises the squared difference to the wanted period between pump and the maximal signal wavelength. "
  "The phase-matching angle of a birefringent crystal makes n(theta)/wl_p = no/wl_s + no/wl_i, whichever two wavelengths are given. The mixing bandwidth is the smaller of the two group-velocity-limited ones.",
  ["inputs"], "all index curves, wavelengths, lengths, angles", "No test covers these.", [CC, XD + "XTAL_PPLN.py", XD + "XTAL_AgGaSe2.py", XD + "XTAL_AgGaS.py"],
  [("calculate_*", CC), ("calculate_poling_period, invert_dfg_qpm_to_signal_wl", XD + "XTAL_PPLN.py"), ("phasematch", XD + "XTAL_AgGaSe2.py")], ["return values"],
  "index = arbitrary cubic (or a + b/wl) in wavelength with unknown coefficients; wavelengths real unknowns (fixed 2000/3000/6000 nm for the angle, Sellmeier coefficients unknown)",
  "published Sellmeier coefficients themselves; finite-difference error of index curves beyond cubic; quality of the scalar minimiser")


FI = "src/pynlo/media/fibers/fiber.py"
CA = "src/pynlo/media/fibers/calculators.py"
SS = "src/pynlo/interactions/FourWaveMixing/SSFM.py"

P("C17", "Fiber dispersion is what was specified, in the pulse's moving frame",
  "A fiber given by Taylor coefficients of beta (ps^n/m or ps^n/km) about its own centre wavelength has, at each frequency of any pulse, that Taylor polynomial evaluated there, minus its value and its (centred-difference) slope at the pulse's centre frequency, so it is zero there with no group delay. "
  "A fiber given by a D table (file with or without header, data base or function) has the polynomial in frequency fitted to beta2 = -D wl^2/(2 pi c) about the pulse's centre, integrated twice; one given by effective indices has 2 pi n/wl, minus offset and slope. "
  "What a fiber was used for before (a pulse on another grid or of another colour) makes no difference. "
  "Dispersion and gamma given as functions of z are evaluated at the requested z, otherwise at the start. Fibers of a data base come with its dispersion, gamma and the requested length. "
  "beta2 on the grid is the second difference of beta, D is -2 pi c/wl^2 times it.",
  ["inputs", "configurations"], "all coefficients, units, centre wavelengths, pulses, tables, z", "One test looks at one fiber's numbers at one wavelength.",
  [FI, CA], [("get_betas, get_gamma, load_from_*, generate_fiber, set_dispersion_function", FI)], ["get_betas, get_gamma, Beta2, Beta2_to_D, length"],
  "n in {4,6} (64 for three coefficients); 1-3 (4 thorough) coefficients, D tables of 5 rows with orders 1-3, index tables of 6 rows (cubic in frequency); one fiber used for two pulses in turn; all coefficients, windows, wavelengths, z real unknowns",
  "interpolation error of index tables that are no cubic; odd n")

P("C18", "Tabulated dispersion D becomes the right Taylor coefficients",
  "Converting a table of D (ps/nm/km) over wavelength to Taylor coefficients about any pump wavelength gives i! times the coefficients of the least-squares polynomial of the requested order through beta2 = -D wl^2/(2 pi c) over omega - omega_pump, whether the table is an array, a list or a file with header. "
  "A table that was computed from Taylor coefficients therefore gives these coefficients back. "
  "The diagnostic output is the frequency axis, the data and that polynomial, the caller's table is not modified.",
  ["inputs"], "all tables, orders, pump wavelengths", "No test calls it.",
  [CA], [("DTabulationToBetas", CA)], ["return value"],
  "3-5 (7 thorough) rows at fixed wavelengths, orders 0-4; D values and pump wavelength real unknowns", "more rows")

P("C19", "Fibers share nothing, and gain is what was asked for",
  "Whatever is done to one fiber (generating it, loading it from file or data base, attaching functions, changing its coefficients), another fiber keeps its dispersion, gamma, length and gain; data bases and lists handed in are never modified. "
  "A gain coefficient given for a fiber applies equally at all frequencies, and without one there is no gain, whatever the fiber was before. "
  "A gain spectrum is interpolated onto the pulse's grid and scaled by a single factor, chosen so that the amplified pulse has the requested average power (pulse energy times repetition rate); asking for it leaves the pulse alone.",
  ["histories", "inputs"], "all sequences of operations on two fibers", "Tests use a single fiber without gain.",
  [FI], [("FiberInstance state", FI), ("get_gain", FI)], ["get_betas, get_gamma, length, get_gain"],
  "two fibers, one operation of each kind on the other one; values real unknowns; gain spectrum of 6 points covering all or one half of a fixed 4-point grid with unknown field and values",
  "quality of the scalar minimiser behind the gain scaling (its objective is checked)")

P("C20", "Linear propagation is exact",
  "Without nonlinearity every frequency of the pulse is multiplied by exp((i beta(w) + g(w)/2) z), exactly at the end and at every recorded position (which are the multiples of length/steps), in the recorded spectra as well as the recorded fields, with either FFT backend and either shift convention, with Raman and self-steepening switched on or off. "
  "Fibers whose dispersion changes with z are taken at the start of each recorded section if reloading is requested, else at z = 0. "
  "The output pulse has the input's grid and repetition rate and is independent of it; the input is not changed. An SSFM object that was used before, for whatever pulse and fiber, gives the same result as a new one; integrating backwards undoes integrating forwards, for both integration methods.",
  ["inputs", "configurations", "histories"], "all fields, dispersions, gains, lengths, settings", "Tests propagate one soliton and compare to 1e-2.",
  [SS], [("propagate, Advance, LinearStep", SS)], ["z, AW, AT, pulse_out"],
  "n in {2,4} (8 thorough), 32 (64) with two free lines; 1-3 recorded positions; fields complex, beta(w), g(w), length real unknowns; the error estimator (rounding noise here) is replaced by zero, or by fixed verdicts with a last step within 2 percent of the one before",
  "numerical rounding; records are single precision (tolerance 1e-5)",
  state=[("step size and scratch arrays kept between propagations", "self.dz, last_h, exp_D", SS)])

P("C21", "Adaptive steps cover exactly the requested distance",
  "Whatever the error estimates say (reject, shrink, keep or grow, in any order), whatever the first step and the tolerance, the accepted steps between two recorded positions add up to exactly the distance between them: the propagated phase is that of the full length, never more, never less. "
  "This includes a tiny remainder, the smallest allowed step, several sections and further propagations with the step size left over from before. The error estimate is |fine - coarse|/|fine|, root sum of squares.",
  ["schedules", "inputs"], "all sequences of accept/reject decisions", "Tests see a single sequence of decisions.",
  [SS], [("integrate_over_dz", SS)], ["z, AW, pulse_out"],
  "3 (5 thorough) free verdicts followed by 'grow', 3 (5) first steps with free length, free first step with 4 equal verdicts, free error estimates with free tolerance (2 steps), 2-3 sections, n = 2",
  "longer rejection sequences")


GC = "src/pynlo/devices/grating_compressor.py"

P("C22", "Nonlinear propagation solves the generalised nonlinear Schroedinger equation",
  "Propagation solves dA/dz = (i beta + g/2) A + i gamma (1 + (i/w0) d/dt) (A |A|^2) with w0 the pulse's centre angular frequency; without the derivative term if self-steepening is disabled. "
  "With the default method (RK4IP, step doubling with extrapolation) one step agrees with the exact solution through fifth order in the step, whatever the sequence of step sizes, with either FFT backend and shift convention, for all dispersions, gains, nonlinearities, windows and centre wavelengths; METHOD_SSFM agrees to first order; for any other declared order eta the extrapolation removes an error of that order. "
  "Gamma and dispersion that depend on z are those of the start of each recorded section if reloading is requested, otherwise those at z = 0. Spectra and fields are recorded at each position, the input pulse is unchanged, and integrating backwards undoes integrating forwards to the order of the method.",
  ["inputs", "configurations", "schedules"], "all fields, fibers, settings and step sequences", "Tests propagate one soliton and compare to 1e-2.",
  [SS], [("NonlinearOperator, RK4IP, integrate_over_dz, propagate", SS)], ["AW, AT, pulse_out"],
  "power series in the fiber length: order 5 (n = 2, fixed fields), 3 (4 thorough; n = 4 or several steps or sections), free complex fields at order 3 (n = 2) and 1 (n = 4); dispersion, gain, gamma real unknowns; self-steepening at first order as a whole (fields whose products do not alias, 1e-12) and second order with the product rule; an SSFM object used before for a pulse of another colour",
  "size of the error beyond the stated order; aliasing of self-steepening; Raman (C24)")

P("C24", "The delayed Raman response",
  "With Raman response the nonlinear term is i gamma A [(1 - f) |A|^2 + f (h * |A|^2)], h causal, of unit area (trapezoidal rule on the time grid), convolved on the periodic grid. "
  "USE_SIMPLE_RAMAN uses the damped oscillation exp(-t/tau_2) sin(t/tau_1) with the given f_R; the default the response of Lin & Agrawal 2006 (0.79 ha + 0.21 hb, tau_b = 96 fs) with f_R = 0.245; the global frequency-domain switch the closed form 1 - f_R0 + f_R0 (tau_1^2 + tau_2^2)/(tau_1^2 + tau_2^2 - 2 i w tau_1^2 tau_2 - w^2 tau_1^2 tau_2^2). "
  "With Raman disabled the response is instantaneous whatever the other settings. The response does not depend on what the SSFM object was used for before, and together with self-steepening (1 + (i/w0) d/dt) acts on the whole term. Both FFT backends and shift conventions agree.",
  ["inputs", "configurations"], "all fields, windows, time constants, fractions, settings", "One test looks at the soliton self-frequency shift of one pulse.",
  [SS], [("CalculateRamanResponseFT, NonlinearOperator", SS)], ["pulse_out"],
  "first order in the length; n in {4,8} (free complex fields at n = 4), time constants, fraction, window, gamma real unknowns; with self-steepening n = 4, fixed window; an SSFM object used before for another fiber and pulse",
  "higher orders in the length (C22); quality of the published response")

P("C28", "The grating compressor follows Treacy's equations",
  "The diffraction angle obeys sin(incidence) + sin(diffraction) = wavelength/d on the principal branch; colours that cannot be diffracted (in arrays) leave along the grating. "
  "The single-pass group delay is b (1 + cos theta)/c with slant distance b = G/cos(diffraction angle), the dispersion dt/dw is Treacy's equation 5b and exactly the frequency derivative of this delay, negative; the GDD of the compressor is twice it. "
  "Higher-order dispersion of order n is the (n-2)th frequency derivative of the GDD (single-pass delay derivatives come in fs^(n+1)); orders that make no sense are refused. "
  "Applying the compressor to a pulse changes only spectral phase, by the integral of twice the group delay up to a delay common to all frequencies.",
  ["inputs"], "all gratings, angles, separations, wavelengths, pulses", "No test covers the compressor.",
  [GC], [("TreacyCompressor", GC)], ["return values, pulse.AW"],
  "rulings 300-900/mm with angles 20-60 degrees, 300-500/mm with -25 to -2 degrees, 800-1100 nm, separations 1 mm - 30 cm as real unknowns; numerical derivatives on cubic dispersion; pulses of 4 (6 thorough) points with free field at 30 degrees incidence",
  "quadrature error; finite-difference error beyond cubic dispersion; the common delay added to a pulse")

P("C29", "Coherence of noisy propagation",
  "The coherence at each frequency and position is the modulus of the mean of conj(E1) E2/|E1 E2| over all pairs of different trials: between 0 and 1, and 1 for trials that agree up to a factor. "
  "Each trial propagates a copy of the pulse plus fresh noise of the requested kind (one photon per mode by default), with fiber, steps, output power and reload flag passed on; the input pulse is unchanged and all trials' results are returned. "
  "With a seed (0 included) the trials are those of numpy's generator started there, hence repeatable; without one the generator is not reset.",
  ["inputs", "histories"], "all propagated fields, seeds, trials", "No test calls it.",
  [SS], [("calculate_coherence", SS)], ["g12W, results"],
  "2-3 (4 thorough) trials, n = 2; moduli and phases of all propagated fields and all random draws unknowns; propagation replaced by an arbitrary function", "more trials")

P("C32", "Propagation to a power goal",
  "propagate_to_gain_goal returns the result of a final propagation with all requested steps at output_power = scale * power_goal, where scale (also returned) is one for which a single-step trial gave an average power (pulse energy times the pulse's repetition rate) within the relative tolerance of the goal. "
  "The first trial uses the given guess, or 1; trials stop at the first success; if the response is linear in the requested power three trials suffice.",
  ["inputs", "histories"], "all responses of the amplifier, goals, guesses, tolerances", "No test calls it.",
  [SS], [("propagate_to_gain_goal", SS)], ["returned tuple"],
  "linear responses with unknown slope and offset; arbitrary responses with success at trial 1-3; goal, guess, tolerance real unknowns; propagation replaced by the response", "convergence for other responses; responses that are constant")


OD = "src/pynlo/util/ode_solve/"

P("C25", "The ODE driver ends where asked and saves what was asked",
  "Integrating from x1 to x2 (either direction) ends exactly at x2 and puts the solution there into the caller's array; no step goes beyond the end, the first is |h1| towards x2, then what the stepper suggests. "
  "With dense output and n saves exactly the n+1 equidistant positions from x1 to x2, both ends included, are saved with the solution at each of them (interpolated within the step that contains it), however the steps fall and also beyond the room initially made. "
  "Without dense output every step end is saved, or nothing with an Output that saves nothing; good and bad steps are counted. Suggested steps at or below the minimum raise RuntimeError, dense output without saves AttributeError. Integrations do not disturb each other.",
  ["inputs", "schedules"], "all intervals, step sequences, numbers of saves", "One test solves one equation with one save.",
  [OD + "steppers.py"], [("ODEint, Output", OD + "steppers.py")], ["Output.xsave, ysave, count; ystart"],
  "arbitrary stepper: 2-3 steps of free size (and of free success) then as long as possible, 1-2 (5 thorough) saves, 500 and 1003 saves in one step; ends, steps, solutions real unknowns",
  "accumulated rounding of save positions; zero-length intervals; save positions near x = 0")

P("C26", "The ODE stepper is of eighth order, its dense output of seventh",
  "A step of StepperDopr853 integrates right-hand sides that are polynomials of degree 7 in x exactly, agrees with the solution of linear and nonlinear (x-dependent, coupled, real or complex) systems through eighth order in the step, and its dense output through seventh (exact for degree 6, reproducing both end points), forwards and backwards, also over several steps with rejections under the driver. "
  "The fifth- and third-order error estimators vanish for solutions of degree 5 and 3; the estimate is |h| err5^2/sqrt(n (err5^2 + 0.01 err3^2)), errors in units of atol + rtol max(|y|, |y new|) per component. Constant solutions have no error and do not fail. After a step x, y, the derivative, and the step done are those at its end.",
  ["inputs"], "all right-hand sides in these classes, steps, tolerances", "One test solves one equation to 1e-13.",
  [OD + "dopr853.py", OD + "dopr853_constants.py"], [("StepperDopr853", OD + "dopr853.py")], ["y, x, hdid, dydx, dense_out, error"],
  "polynomials with unknown coefficients, start, step; power series in the step to order 8 for y' = a y + b (complex) and a two-component quadratic system with two unknown rates; coefficients of the method as the decimals they are (tolerances 1e-9 to 1e-13)",
  "rounding; order conditions not exercised by these systems")

P("C27", "Step size control",
  "A step whose error estimate exceeds 1 is repeated with the step shrunk by 0.9 err^(-1/8), at most to 0.333; an accepted one suggests 0.9 err^(-1/8) times itself, within 0.333 to 6 (6 if there was no error), and not more than itself if there was a rejection just before; that limit is gone one step later. "
  "Steps that no longer change x raise OverflowError. What one stepper experiences, failures included, never influences another.",
  ["inputs", "histories"], "all error estimates, sequences of rejections, steppers", "Tests see one sequence.",
  [OD + "dopr853_controller.py", OD + "dopr853.py"], [("Controller.success", OD + "dopr853_controller.py"), ("StepperDopr853.step", OD + "dopr853.py")], ["hdid, hnext, x"],
  "up to 2 rejections then acceptance, all ranges of the estimate as real unknowns (err = r^-8), two steps in a row, two steppers; steps of 1e-14, 1e-30 and 1e3 at and away from the origin", "estimates exactly at the boundary of a range; longer sequences",
  state=[("hnext, reject", "Controller", OD + "dopr853_controller.py")])

P("C31", "Saved three-wave-mixing runs read back as they were",
  "A run written by DFGWriter is read back by DFGReader with exactly the saved pump, signal and idler fields at every saved position (the last by default, the end point included), each on its own time window and centre wavelength, with the run's own repetition rate and parameter value. "
  "Runs are read in the order they were added (get_next_run returns each once, then None), the last run by default; runs that do not exist raise IndexError. "
  "A file holds several parameters side by side; writing a parameter again replaces its old runs and no others.",
  ["inputs", "histories"], "all fields, grids, rep rates, parameter values, numbers of runs and positions", "No test touches these files.",
  ["src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py", OD + "steppers.py"],
  [("DFGWriter.add_run", "src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py"), ("DFGReader.get_run", "src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py")],
  ["get_run pulses", "get_run_param", "run_ctr"],
  "2 or 4 (thorough 8) points, 1 to 6 saved positions dense or per step, up to 12 runs, two parameters, 3 writers one after the other; HDF5 (PyTables) replaced by an in-memory tree in the symbolic run, the real library in the concrete one",
  "PyTables itself; a file open for writing and reading at once; data other than double precision",
  state=[("run_ctr, int_ctr", "DFGReader", "src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py")])

P("C33", "The built-in crystals have their published indices and constants",
  "At every wavelength, temperature and angle the index of PPLN follows the published Sellmeier equation of the chosen data set (Gayer 5% MgO by default, Deng; set_T and load change it), "
  "those of AgGaSe2 and AgGaS2 follow Roberts' equations for both axes and the elliptical mix 1/n(theta)^2 = sin^2/ne^2 + cos^2/no^2, on the grid of a pulse as for single wavelengths, and "
  "deff, n2, damage threshold, phase matching mode, default poling period and length (m and nm) are those documented.",
  ["inputs", "histories"], "all wavelengths 0.7-4.5 um (PPLN) or 1-12 um, temperatures -20 to 250 C, angles", "One test checks a phase matching number; none the indices.",
  [XD + "XTAL_PPLN.py", XD + "XTAL_AgGaSe2.py", XD + "XTAL_AgGaS.py", CC],
  [("PPLN.n", XD + "XTAL_PPLN.py"), ("AgGaSe2.n", XD + "XTAL_AgGaSe2.py"), ("AgGaSe2.n", XD + "XTAL_AgGaS.py")],
  ["n(wl)", "get_pulse_n", "deff, n2, pp, length"],
  "one symbolic wavelength and 2 grid points; every data set, constructor and setter path; coefficients compared as exact decimals",
  "whether the published fits describe real crystals")

P("C34", "The field containers of three-wave mixing keep the waves apart",
  "ThreeFields returns for pump, signal and idler exactly what was last set for each, singly or all at once in that order, keeps no reference to what it was given, and neither other containers nor copies share any state with it (in both directions). "
  "The overlap of two beams is the mean of their waists for every pair of indices 0-2, other integers raise ValueError and everything else TypeError.",
  ["inputs", "histories"], "all complex fields and waists", "No test touches these classes.",
  ["src/pynlo/interactions/ThreeWaveMixing/field_classes.py"],
  [("ThreeFields", "src/pynlo/interactions/ThreeWaveMixing/field_classes.py"), ("beam_parameters.calculate_overlap", "src/pynlo/interactions/ThreeWaveMixing/field_classes.py")],
  ["get_pump/get_sgnl/get_idlr/get_all", "create_copy", "calculate_overlap"],
  "1, 3 or 4 points, every order of the setters, both directions of a copy", "the arrays returned by the getters are the container's own (documented nowhere, not relied on)",
  state=[("pump, sgnl, idlr, k0s", "ThreeFields", "src/pynlo/interactions/ThreeWaveMixing/field_classes.py")])


META = {p["id"]: {"bounds": p["bounds"], "outside": p["outside"], "assumptions": p["assumptions"]} for p in S}
