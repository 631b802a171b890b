#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording stays reviewable)."""
import json, os
PR, SL, SI, LI, BE, AN, WI, CO, SA = ("pySLM2/profile.py", "pySLM2/slm.py", "pySLM2/simulation.py", "pySLM2/_lib.py",
    "pySLM2/_backend.py", "pySLM2/analysis.py", "pySLM2/window.py", "pySLM2/util/controller.py", "pySLM2/util/sample.py")
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)))


prop("P01", "Profile arithmetic is pointwise arithmetic on sampled values",
     "Combining profiles and Python numbers (int, float, complex) with +, -, *, /, ** and unary minus, in any nesting and in every supported operand order, gives a profile whose value at every point is that arithmetic applied to the operands' values there. Mixing real and complex operands gives the complex result, a uniform (constant) operand counts as its value at every point, the result has one value per sampled point, and the operands themselves keep their values.",
     ["programs", "inputs"], "every expression tree over real, complex, constant and numeric operands and every supported operator, sampled on scalars, lines and planes, in both precisions",
     "the tests combine two same-typed real profiles once per operator on one grid; nesting, complex/real mixing, constants and operand order are never combined",
     [PR], [("operator overloads building derived profiles", PR + ":_make_attribute_func and __add__.. __neg__"), ("constant operand profile", PR + ":ConstantProfile")],
     ["FunctionProfile.__call__"])
prop("P02", "Profile transforms are the documented coordinate substitutions",
     "shift(dx,dy), rotate(theta), rescale_x(m) and rescale_y(m) give profiles whose value at (x,y) is the original's value at (x-dx,y-dy), at (cos(theta)x - sin(theta)y, sin(theta)x + cos(theta)y), at (x/m,y) and at (x,y/m) respectively, and as_complex_profile gives exp(i*value). Any chain of transforms and arithmetic composes accordingly, for real and complex profiles, and leaves the original profile unchanged.",
     ["programs", "inputs"], "every chain of transforms up to the depth bound, for every argument in the alphabet, for real, complex, constant and window profiles",
     "shift is used once inside another test; rotate and rescale are not tested at all and no chain is",
     [PR], [("coordinate wrapping closures", PR + ":rotate, shift, rescale_x, rescale_y, as_complex_profile")], ["FunctionProfile.__call__"])
prop("P03", "Profiles always evaluate with their current parameters, independently",
     "After any sequence of parameter assignments and evaluations, a profile or window evaluates exactly as a freshly constructed one with its current parameter values, reading a parameter returns the value last assigned, and every profile derived from it by arithmetic or transforms follows. Assigning parameters of one profile never changes the value of another profile that was not derived from it.",
     ["histories"], "every sequence of parameter assignments and evaluations (any order, any sampling shape, before or after derived profiles are built) over two instances of every parametrised class",
     "no test ever assigns a parameter; evaluation is traced and cached per object, so stale values only show after particular assignment/evaluation orders",
     [PR, WI], [("parameters kept as mutable variables read at evaluation time", PR + ":HermiteGaussian, SuperGaussian, Zernike, ConstantProfile"), ("window parameters", WI)],
     ["FunctionProfile.__call__", "parameter getters and setters"],
     [("parameter variables", "current parameter values of each profile", PR + ", " + WI), ("per-object trace cache", "graphs traced at earlier evaluations", PR)])
prop("P04", "Beam and window profiles equal their closed forms",
     "Hermite-Gaussian, Laguerre-Gaussian and super-Gaussian profiles equal their textbook formulas a*H_n(sqrt2(x-x0)/w)*H_m(sqrt2(y-y0)/w)*exp(-r^2/w^2), a*(sqrt2 r/w)^|l|*L_p^|l|(2r^2/w^2)*exp(-r^2/w^2)*exp(-i*l*phi) and a*exp(-(r^2/w^2)^p), for every order, centre, amplitude and width, at every point including the centre and the axes. A rectangular window is 1 strictly inside its wx-by-wy rectangle around its centre and 0 elsewhere, a circular window is 1 up to and including its radius and 0 elsewhere, and a constant profile is its constant, all in the configured precision.",
     ["inputs", "configurations"], "every mode order up to the bound and every combination of centre, amplitude, width, power, length scale and sample point in the alphabet, in both precisions",
     "the tests compare a handful of low-order modes with one another at one centre and width; windows have no test",
     [PR, WI], [("polynomial coefficients and envelope", PR + ":HermiteGaussian, LaguerreGaussian, SuperGaussian"), ("indicator functions", WI)], ["FunctionProfile.__call__"])
prop("P05", "Zernike profiles are exactly the OSA/ANSI polynomials, with exact indexing",
     "A Zernike profile can be constructed exactly for integer indices with 0 <= |m| <= n and n-|m| even, anything else is rejected with ValueError, and its value is a * (normalization, if requested) * R_n^|m|(rho) * (cos(m*phi) for m >= 0, sin(|m|*phi) for m < 0) with rho = r/radius in the OSA convention (sqrt(n+1) for m = 0, sqrt(2n+2) otherwise). It is zero where rho > 1 unless extrapolation is requested and then follows the polynomial, the reported indices, radius, amplitude and normalization are those requested, and the single-index to (n,m) map is the ANSI enumeration for every index.",
     ["inputs"], "every (n,m) in a square of indices including invalid and negative ones, normalized or not, extrapolated or not, several radii and amplitudes, points inside, on and outside the rim; every single index up to the bound",
     "the tests evaluate ten low orders with normalization on; invalid indices, accessors, unnormalized form, points outside the rim and the index map are untested",
     [PR, AN], [("index validation and radial coefficients", PR + ":Zernike.__init__"), ("angular part, normalization, aperture cut", PR + ":Zernike._func"), ("single index map", AN + ":ansi_j_to_n_m")],
     ["Zernike constructor", "FunctionProfile.__call__", "ansi_j_to_n_m"])
prop("P06", "Zernike analysis projects the phase map on the aperture and nothing else",
     "Decomposition returns, for each of the requested ANSI terms in order, the mean over the aperture pixels of the map times that normalized term (with pixel coordinates centred on the array, y upwards), so that it recovers the coefficients of a superposition of terms up to pixel discretization, and the optional reconstruction is the sum of the terms times these coefficients. Removing the trivial phase subtracts successively the so computed piston, the two tilts and, only if requested, defocus inside the aperture, keeps every other term and every pixel outside the aperture, and neither function changes the array it is given or depends on the verbosity option.",
     ["inputs"], "every coefficient vector over a small alphabet for the low terms (and every single higher term), array shapes odd/even/non-square, apertures smaller and larger than the array, all options",
     "the tests check one large array and radius, piston/tilt/defocus once each and one random coefficient vector to three digits; reconstruction and outside-aperture behaviour are untested",
     [AN], [("aperture mean projection", AN + ":zernike_decomposition"), ("successive subtraction", AN + ":remove_trivial_phase")], ["zernike_decomposition", "remove_trivial_phase"])
prop("P07", "Plane grids are centred, FFT-dual and consistent across padding and devices",
     "The Fourier-plane grid gives pixel (i,j) the position x = (j - floor(Nx/2)) * pixel_size, y = (floor(Ny/2) - i) * pixel_size, and the image-plane grid gives sample (i,j) x' = (j - floor(Nx/2)) * wavelength * focal_length / (Nx * pixel_size), y' = (floor(Ny/2) - i) * wavelength * focal_length / (Ny * pixel_size). A simulation with padding uses the same formulas with the padded counts, so that its Fourier-plane grid restricted to the device is the device's grid, its pixel areas are the grid spacings' products and all of this is independent of other devices, of earlier queries and of what callers do to returned arrays; the preset devices have their data-sheet pixel counts and pitch.",
     ["configurations", "histories"], "every device size in a small square (odd and even, non-square), every padding, several pitches/wavelengths/focal lengths, every preset, every query order over devices that differ in one parameter",
     "the tests check one preset with one padding, and grids are cached per object so cross-talk needs several devices and queries",
     [SL, SI], [("pixel index to coordinate conversion", SL + ":_convert_pixel_index_to_dmd_coordinate"), ("cached grids", SL + ":_fourier_plane_grid, _image_plane_grid; " + SI + ":_image_plane_padded_grid, _fourier_plane_padded_grid"), ("presets", SL + ":DLP7000, DLP9500, DLP9000, PLUTO_2")],
     ["SLM.fourier_plane_grid", "SLM.image_plane_grid", "SLMSimulation.*_padded_grid", "*_pixel_area"],
     [("grid caches", "memoized coordinate tensors", SL + ", " + SI)])
prop("P08", "Any accepted profile becomes a full-frame array of the configured precision",
     "Converting a profile for a device gives a tensor of shape (Ny,Nx) in the configured real precision, or complex precision when requested, for every accepted kind of profile: function profile, array, tensor, int, float, complex. A function profile is sampled at exactly the positions of the device's Fourier-plane grid or, when asked, its image-plane grid; arrays and tensors are taken pixel by pixel, and a number is the uniform value everywhere.",
     ["inputs", "configurations"], "every kind and element type of profile crossed with plane, real/complex target, device shape and precision",
     "the conversion is exercised only implicitly with function profiles on the presets; numbers, constants, arrays of other types and small odd shapes are not",
     [SL, PR], [("conversion", SL + ":profile_to_tensor")], ["SLM.profile_to_tensor"])
prop("P09", "Propagation is the scaled Fourier integral of the modulated input field",
     "After propagation the input field is the input profile embedded in the padded frame with zeros, the output field is the input times the modulator's transmission (the mirror state for a DMD, exp(i*phase) for a phase SLM) embedded likewise, and the image-plane field at (x',y') is pixel_area/(wavelength*focal_length) times the sum over all pixels of output field times exp(+2*pi*i*(x*x'+y*y')/(wavelength*focal_length)) in the published coordinates. Intensities are the squared moduli of these fields.",
     ["inputs", "configurations"], "every mirror pattern of small devices and every phase pattern over a small alphabet, every padding, odd/even sizes, real and complex inputs of every accepted kind, and the presets",
     "the tests compare one Gaussian on one symmetric all-on device to 1% of peak; orientation, phase, padding offsets and arbitrary states are unconstrained",
     [SI, SL, LI], [("propagation", SI + ":propagate_to_image"), ("FFT wrappers", LI + ":_inverse_fourier_transform"), ("transmission", SL + ":_state_tensor")],
     ["SLMSimulation.input_field, output_field, image_plane_field, *_intensity"])
prop("P10", "Optical power is accounted for exactly in both planes",
     "The reported input, output and image-plane powers are the sums of the corresponding intensities times the pixel area of that plane. The image-plane power equals the output power for every state, padding and input; a binary state never outputs more power than it receives, a phase-only state outputs exactly what it receives, and padding changes none of the powers.",
     ["inputs", "configurations"], "every mirror pattern of small devices, phase patterns over a small alphabet, every padding up to the bound, several inputs and length scales",
     "one test checks the all-on state of one preset with two paddings; the more general one is skipped as unstable",
     [SI], [("pixel areas and power sums", SI + ":get_input_power, get_output_power, get_image_plane_power, *_pixel_area"), ("normalization of the transform", SI + ":propagate_to_image")],
     ["SLMSimulation.get_*_power"])
prop("P11", "Simulation results are exactly those of the last propagation",
     "At any point of any history of device changes, propagations, zeroth-order blocking and clearing, the fields, intensities and powers of a simulation are those of its own most recent propagation (None after construction or clear), with the image-plane samples closer to the origin than each blocking radius since then set to zero and all other samples untouched. Later changes of the device, of the input array, of returned arrays or of other simulations never alter them; the default blocking radius is half the distance of the first order (wavelength*focal_length/period/2), and blocking without a propagation is refused with TypeError and changes nothing.",
     ["histories"], "every sequence up to the depth bound of: change device state, mutate it or the input in place, propagate different inputs, block with default and explicit radii, clear, read, on two simulations of one device",
     "each test propagates once or twice in one fixed order; blocking is only run, never checked",
     [SI], [("stored fields", SI + ":propagate_to_image, clear"), ("blocking", SI + ":block_zeroth_order")],
     ["SLMSimulation properties after every operation"], [("stored fields", "result of the last propagation", SI)])
prop("P12", "The ideal DMD hologram is the Lee hologram and eta calibrates it",
     "For an input E_in and target T with spectrum S (the centred Fourier transform of T, times the window if given), the ideal state at each pixel is A/2*(1 + cos(G - (arg S - arg E_in))) with A = |S|/|E_in| normalized to maximum 1 (0 where S or E_in vanish) and G = 2*pi/period*(cos(theta)*x + sin(theta)*y), both phases negated for the negative order; set_dmd_grating_state does the same for a given amplitude and phases. The returned eta is the factor such that the field diffracted around (cos(theta), sin(theta))*wavelength*focal_length/period (the reported first-order origin; the opposite point for the negative order) is eta/4 times the target, so eta scales with the input and inversely with the target while the state depends on neither scale.",
     ["inputs", "configurations"], "every combination of device shape, period, angle, order sign, input (flat, Gaussian, aberrated, partly dark), target (every single spot, complex patterns), window and scale in the alphabet",
     "the tests check one symmetric target on one preset to 5% rms with the first order taken from the same code; windows, phases, negative order, dark pixels and eta are unchecked",
     [SL, LI], [("amplitude and phase of the hologram, eta", SL + ":_calc_amp_phase, calculate_dmd_state"), ("Lee hologram", LI + ":_calculate_dmd_grating_ideal, _grating_phase"), ("first order position", SL + ":first_order_origin")],
     ["DMD.dmd_state", "return value of calculate_dmd_state", "SLMSimulation.image_plane_field", "DMD.first_order_origin"])
prop("P13", "Binary holograms threshold the right grating for every random draw",
     "The simple method gives a Boolean state that is on exactly where the ideal hologram exceeds 0.5. The random method gives a Boolean state in which each pixel is on exactly when its own fresh uniform draw u in [0,1) is below (tanh(r*(q+w)) - tanh(r*(q-w)))/2 with w = arcsin(amplitude), q in [0,pi] the grating phase's distance to its maximum and steepness r (default 10), so zero amplitude is never on whatever the draws and the on-duty follows arcsin(amplitude)/pi.",
     ["inputs", "schedules"], "every assignment of draws from a small alphabet to the pixels of small devices (all environment answers), crossed with amplitude, phases, period, angle, order sign and steepness",
     "no test runs either method; the outcome depends on uncontrolled random numbers",
     [LI, SL], [("threshold", LI + ":_calculate_dmd_grating_simple"), ("randomized threshold", LI + ":_calculate_dmd_grating_random")], ["DMD.dmd_state"])
prop("P14", "IFTA is adaptive binarization with the signal window enforced",
     "The ifta method starts from s times the ideal hologram and, in each of N iterations k=1..N, sets values above 1-k/(2N) to 1 and below k/(2N) to 0, replaces the image field by the initial one weighted with the signal window (centred on the image-plane grid), transforms back and divides by the input field, taking the real part; the state is Boolean, on where the final value exceeds 0.5, off at pixels without input light. N defaults to 200 and s to 1, each N-th, s, window, order sign and input takes effect in that call alone.",
     ["inputs", "configurations"], "every combination in the alphabet of N, s, signal window (none, all, every small sub-window, complex weights), input (including dark pixels and aberrations), target, order sign; both precisions",
     "one test runs it once with N=100 and compares to 5% rms after simulation",
     [LI, SL], [("iteration", LI + ":_calculate_dmd_grating_ifta, _ifta_binarize_hologram, _ifta_correct_profile"), ("argument conversion", SL + ":calculate_dmd_state")], ["DMD.dmd_state"])
prop("P15", "Gerchberg-Saxton holograms never get worse with more iterations",
     "For every initial random phase, the gs method runs N alternating projections (target amplitude in the image plane, input amplitude in the Fourier plane, the hologram phase being what must be added to the input's own phase) and returns the real phase pattern of shape (Ny,Nx) after the last one, in [-pi,pi] for N >= 1. Hence the mismatch between the target amplitude and the amplitude that the simulator shows for that hologram never increases with N (up to rounding), for every real or complex input and non-negative target, and N defaults to 200.",
     ["schedules", "inputs"], "every initial phase pattern over a small alphabet on small devices (all environment answers), N = 0.., inputs real/negative/complex/partly dark, targets every spot and pattern in the alphabet, both precisions",
     "no test runs it; the result depends on an uncontrolled random initial phase",
     [LI, SL], [("iteration", LI + ":_calculate_lcos_slm_hologram_gs"), ("argument conversion", SL + ":calculate_hologram")], ["LCOS_SLM.slm_state"])
prop("P16", "MRAF constrains exactly the signal window, with the mixing factor",
     "For every initial random phase, the mraf method iterates N times: the image field (in the units of the inverse discrete Fourier transform of the modulated input, that is divided by the pixel count) is replaced by mixing_factor * target amplitude * (its own phase) inside the signal window plus (1 - mixing_factor) * itself outside, and the hologram is what must be added to the input's phase to get the phase of the back-transformed field. The window is weighted per image-plane sample in the orientation of the image-plane grid, N defaults to 200 and mixing_factor to 0.4; the result is a real phase pattern of shape (Ny,Nx), and with mixing factor 1/2 and a full window equals the gs result from the same start.",
     ["schedules", "inputs"], "every initial phase pattern over a small alphabet on small devices, N, mixing factors including 0 and 1, every small window, real and complex inputs; both precisions",
     "no test runs it; the result depends on an uncontrolled random initial phase",
     [LI, SL], [("iteration", LI + ":_calculate_lcos_slm_hologram_mraf"), ("argument conversion", SL + ":calculate_hologram")], ["LCOS_SLM.slm_state"])
prop("P17", "Every DMD operation yields its frame regardless of history",
     "After any sequence of all-on, all-off, grating, patch and hologram operations and direct assignments, the DMD state has shape (Ny,Nx) and is exactly what the last full-frame operation prescribes, with each later patch replacing exactly the pixels whose index distance to its centre (i,j) is below d/2 by the grating of its parameters, wherever the centre lies and whatever numeric type the arguments have. Gray levels survive (an ideal patch or grating is never rounded to on/off, a bool state stays bool under bool operations), each result depends only on the call's arguments and the device's own period, angle and order sign, and other devices are unaffected.",
     ["histories"], "every sequence up to the depth bound over these operations with overlapping, off-frame, empty and covering patches, gray and Boolean methods, on two devices with different parameters",
     "the tests call one full-frame operation on a fresh device; patches are untested",
     [SL], [("frame operations", SL + ":DMD.set_dmd_state_on/off, set_dmd_grating_state, circular_patch, calculate_dmd_state")], ["DMD.dmd_state after every operation"],
     [("DMD.dmd_state", "current frame", SL)])
prop("P18", "Packing the DMD frame to bytes is lossless and refuses gray frames",
     "For every Boolean frame, pack_dmd_state returns ceil(Nx*Ny/8) bytes that hold the pixels in row-major order, most significant bit first, with zero padding at the end, so that distinct frames give distinct bytes and unpacking restores the frame, whatever memory layout the frame array has. A frame of any other element type is refused with TypeError, and packing never changes the frame.",
     ["inputs"], "every Boolean frame of every small device shape, every single-pixel and row/column frame of the presets, every memory layout and element type in the alphabet",
     "the tests pack only the all-on and all-off frames, which are invariant under any pixel or bit permutation",
     [SL], [("bit packing", SL + ":pack_dmd_state")], ["DMD.pack_dmd_state"])
prop("P19", "Precision is chosen once and then uniform in every result",
     "Importing the package does not fix the precision; until the first computation it can be set any number of times to 32 or 64 bit, an unsupported value is rejected with ValueError and leaves it unchanged, and once any precision-dependent object or result exists every further assignment is refused with AssertionError and changes nothing. All profiles, grids, tensors, fields and holograms then have exactly the configured real or complex precision, which defaults to 32 bit, and the derived complex and integer types always match it.",
     ["histories", "configurations"], "every sequence up to the depth bound of configuration reads, writes (valid and invalid) and uses on a fresh configuration; every public entry point as the first use, under each precision",
     "the only backend test is skipped because it needs a fresh process; the suite sets the precision once at start-up",
     [BE], [("write-once latch", BE + ":dtype, dtype_complex, dtype_int")], ["BACKEND.dtype*", "dtype of every public result"],
     [("latch", "whether the precision has been used", BE)])
prop("P20", "Switching the FFT engine at any time never changes results",
     "Selecting the numpy or the TensorFlow FFT engine, at any time and any number of times between computations, changes no result (propagation, DMD holograms, gs/mraf from the same random start) beyond rounding, including on devices and shapes that were already used with the other engine. Results keep their shape and precision under both engines.",
     ["histories", "configurations"], "every sequence up to the depth bound of engine switches and computations on several device shapes (odd, even, non-square), both precisions",
     "the tests run only with the engine chosen at import; the choice is read inside traced functions that are cached by shape",
     [LI, BE], [("engine dispatch", LI + ":_fourier_transform, _inverse_fourier_transform"), ("engine variable", BE + ":fft_backend")], ["SLMSimulation fields", "DMD.dmd_state", "LCOS_SLM.slm_state"],
     [("engine choice", "which FFT implementation is used", BE)])
prop("P21", "A Vialux DMD shows exactly the last loaded frames, after any load history",
     "After any sequence of single and multiple loads on an initialized controller, the device runs exactly the frames of the last load, in order, with on mirrors as full-scale pixels (inverted exactly if requested at construction): a single frame is shown at once without any trigger, several frames advance by one per rising trigger edge, cyclically, uninterrupted, at the minimum picture time. However many loads precede, the controller holds at most the current sequence in the device's memory, and closing stops the projection and releases sequence and device.",
     ["histories"], "every sequence up to the depth bound of initialize, load_single, load_multiple (1 to 3 frames), trigger edges and close, on a simulated device with finite memory, inverted and not",
     "the hardware tests are skipped without a device and a person, and load once",
     [CO], [("load protocols", CO + ":ALPController.load_single, load_multiple, initialize, close")], ["state of a device simulator behind the vendor API"],
     [("projection mode, sequences, inversion", "device state left by earlier calls", CO)])
prop("P22", "A Visitech DMD shows exactly the last loaded frames, after any load history",
     "After any sequence of single and multiple loads and triggers on an initialized controller, the device shows the first frame of the last load at once and advances by exactly one frame per trigger (software, electrical or optical), cyclically through exactly the frames of the last load in order; a single frame stays displayed whatever the triggers. Frames and sequencer settings are only changed while the sequencer is stopped, a load restarts the sequence from its first frame, inversion is as requested at construction, and one software trigger is one pulse.",
     ["histories"], "every sequence up to the depth bound of load_single, load_multiple (1 to 3 frames) and triggers, on a simulated device that interprets the uploaded sequencer program, inverted and not",
     "the hardware tests are skipped without a device and a person, and load once",
     [CO], [("sequencer program", CO + ":LuxbeamController.initialize"), ("load protocols", CO + ":LuxbeamController.load_single, load_multiple, fire_software_trigger")], ["state of a device simulator behind the vendor API"],
     [("sequencer registers, run state, image memory", "device state left by earlier calls", CO)])
prop("P23", "Controllers touch the device only while initialized, and survive faults",
     "Before initialization has succeeded (and for the Vialux controller after close), every load, size query and number-image request is refused with an exception before anything is sent to the device, and is_initialized tells the truth. If the device fails at any command, the error reaches the caller, a failed initialization leaves the controller uninitialized, and after a failed load repeating a load shows that load's frames exactly; a missing vendor library is reported at construction as ModuleNotFoundError.",
     ["fault_sequences", "histories"], "every public operation in every life-cycle state, and a device failure injected at every single command (and every pair, in the thorough check) of initialization and loads followed by a retry",
     "no test reaches the controllers without hardware; faults cannot be produced there either",
     [CO], [("initialization guard", CO + ":_check_initialization"), ("life cycle", CO + ":initialize, close")], ["calls reaching a device simulator", "exceptions"],
     [("initialized flag", "whether the device may be used", CO)])
prop("P24", "Computations never change their inputs and never share memory with them",
     "No public computation (profile evaluation, conversion, hologram calculation, propagation, analysis, packing) changes the arrays, profiles or option values passed to it. Changing an input array afterwards, or an array returned earlier (fields, grids, sampled profiles, and an earlier frame after the next full-frame computation), never changes any later or earlier result.",
     ["histories", "inputs"], "every public operation taking or returning arrays, with every array argument and every returned array overwritten in turn, before and after, in both precisions and with element types that need no conversion",
     "no test reuses an array after passing it or after getting it; aliasing shows only when types match exactly and someone writes",
     [SL, SI, PR, AN], [("copies at the API boundary", SL + ":fourier_plane_grid, image_plane_grid, profile_to_tensor; " + SI + ":_pack_tensor_to_array; " + PR + ":FunctionProfile.__call__")], ["values of arrays before and after calls"])
prop("P25", "Number images are full-frame, legible and distinct",
     "For every integer and every frame of at least 16 rows, the number image is a Boolean array of shape (Ny,Nx) that shows exactly the decimal notation of that number, lit on dark, from the left edge and in the vertical middle half of the frame, cut off where the frame is too narrow. It is the same every time whatever was drawn or overwritten before, images of two different numbers that fit the frame differ, and a controller returns the image of its own device's size.",
     ["inputs", "histories"], "every number in the range times every frame size in the alphabet, directly and through both controllers, in every order of calls and overwrites",
     "no test runs it without hardware",
     [SA, CO], [("rendering", SA + ":number_image"), ("controller", CO + ":DMDControllerBase.number_image")], ["number_image", "DMDControllerBase.number_image"])
prop("P26", "A computed hologram puts the light where it was asked to",
     "For every target spot position on the image-plane grid and every input beam (flat, tilted, curved, sign-changing, nonuniform or partly dark), simulating the computed hologram with that beam shows its brightest point at exactly that position for a phase SLM (gs with at least one iteration, and mraf with a dominating spot inside the signal window); for a DMD with an ideal hologram the point at that position offset by the first-order origin (positive order) or by its opposite (negative order), modulo the image-plane window, outshines every point that neither the undiffracted light nor the conjugate order nor the spot's own diffraction lobe reaches. The binary method simple gives that position at least the light of all pixels that are in phase with it. Blocking the zeroth order leaves the spot as it is. This holds on any device shape, on- or off-grid grating and padding, for every preceding history of holograms on the device.",
     ["inputs", "histories"], "every spot position of small devices crossed with input phases, algorithms, order signs, padding factor and previously computed holograms",
     "the tests use symmetric targets at the origin, which cannot show flips, offsets or a missing phase correction",
     [SL, SI, LI], [("hologram computation", SL + ":calculate_dmd_state, calculate_hologram"), ("transmission", SL + ":_state_tensor"), ("propagation", SI + ":propagate_to_image")], ["SLMSimulation.image_plane_intensity"])
prop("P27", "A refused request leaves no trace",
     "A request that raises an exception (unknown method, missing signal window, beam, target, map or frame of the wrong shape or kind, gray frame to pack, blocking without a result, unsupported device, padding, Zernike index, parameter or configuration value) changes nothing a user can see: every device's frame or phase pattern, every hologram parameter, all simulated fields of every simulation, every profile and the backend configuration are what they were before it. A valid operation after any number of refused ones gives exactly what it gives without them. Unknown methods and invalid Zernike indices raise ValueError; wrong device and padding types, gray frames handed to the packer and blocking without a result raise TypeError.",
     ["histories", "fault_sequences"], "every valid operation before, every kind of refused request (one or two in a row), and every valid operation after it",
     "the tests check that two or three calls raise; none looks at what the failed call left behind or at what the next call gives",
     [SL, SI, PR, BE, CO], [("hologram and patch operations", SL + ":DMD.set_dmd_grating_state, calculate_dmd_state, circular_patch"), ("phase patterns", SL + ":LCOS_SLM.calculate_hologram"), ("simulation", SI + ":propagate_to_image, block_zeroth_order")], ["dmd_state", "slm_state", "image_plane_field"])
prop("P28", "A profile's value at a point does not depend on how it was asked for",
     "Calling a profile (elementary, complex, window, or derived by arithmetic, shift, rotation or cast) gives at every point the value that point has when it is sampled alone, and one value per point in the broadcast shape of the coordinates: independent of the number, order and repetition of the points, of neighbouring points, of the container (Python numbers, lists, tuples, numpy arrays of any real or integer type, memory layout and writability, tensors), of the shapes broadcast against each other, including empty ones, and of what was sampled before on the same object. The coordinates handed in keep their values.",
     ["inputs", "histories"], "every short sequence of special points, every container and every broadcast shape pair, for a profile of every class, on warm and fresh objects",
     "the tests sample meshgrids of one float type only",
     [PR, WI], [("sampling entry point", PR + ":FunctionProfile.__call__"), ("profile functions", PR + ":_func of every class")], ["FunctionProfile.__call__"])
prop("P29", "A phase SLM always holds the pattern of its last operation",
     "After any sequence of operations on any number of phase SLMs (reset, gs and mraf calculations with any beam, target, window, mixing factor and number of iterations, direct assignment of patterns of any numeric type, editing the pattern in place, simulating), every device's slm_state is a real array of shape (Ny,Nx) holding exactly the pattern its own last operation stands for, as that operation gives it on a fresh device; operations on one device leave the others alone, patterns assigned earlier are not overwritten, and every simulation shows the beam times exp(i slm_state) for the pattern at the time it was run. A new or reset device, presets included, holds zero phase.",
     ["histories", "schedules"], "every word of operations up to a length over two devices, from fresh and from long-used ones, with the random start supplied by the explorer",
     "the tests never touch a phase SLM beyond constructing it",
     [SL, SI, LI], [("pattern calculation", SL + ":LCOS_SLM.calculate_hologram"), ("reset", SL + ":LCOS_SLM.reset_slm_state"), ("transmission", SL + ":LCOS_SLM._state_tensor")], ["slm_state", "SLMSimulation.output_field"], state=[("slm_state", "phase pattern of the device", SL + ":LCOS_SLM")])
prop("P30", "Units of length and scales of amplitude never matter",
     "Expressing the same situation in other units of length (pitch and all Fourier-plane lengths times a, wavelength times b, focal length times c, image-plane lengths times b*c/a, from nanometre to kilometre numbers) or with other amplitude scales (input beam times s, target times t, from 1e-9 to 1e8) changes results only by the exact factor: profiles, windows, gratings, patches and DMD holograms of every method are the same patterns, gs phases the same from the same random start (mraf for s = t), eta scales with (s/t)*a^2/(b*c), fields with s and image fields with s*a^2/(b*c), powers with s^2*a^2 in both planes, grids, origin and blocking radius with their lengths. There is no absolute size below which light, targets or lengths count as nothing.",
     ["inputs", "configurations"], "every unit system and every pair of amplitude scales in the alphabet, for every operation that takes lengths or fields",
     "the tests use one unit system (metres) and fields of order one, so that an absolute threshold, offset or regularization passes unnoticed",
     [LI, SL, SI, PR, WI], [("hologram computation", SL + ":DMD._calc_amp_phase, LCOS_SLM.calculate_hologram"), ("coordinates", SL + ":_convert_pixel_index_to_dmd_coordinate"), ("propagation and blocking", SI + ":propagate_to_image, block_zeroth_order"), ("profile functions", PR + ":_func of every class")], ["dmd_state", "slm_state", "calculate_dmd_state's eta", "image_plane_field", "FunctionProfile.__call__"])
prop("P31", "Independent computations may run at the same time",
     "Computations in two threads that have no object in common, or that only read common ones (a profile, a device whose frame is shown by two simulations, grids, results), give exactly the results each of them gives alone and raise nothing, wherever one is suspended and the other goes on, and neither waits forever. This holds for profiles, windows, conversions, holograms of all methods, patches, packing, simulations, Zernike analysis, number images and loads of two controllers on their own devices.",
     ["schedules"], "every interleaving of two computations up to a preemption bound, at the granularity of the package's source lines, for pairs of the same and of different kinds",
     "the tests run in one thread; a race on shared scratch or cached state needs a particular suspension point",
     [PR, SL, SI, LI, AN, SA, CO], [("caches and module-level state", SL + ":_fourier_plane_grid, _image_plane_grid; " + BE + ":BACKEND"), ("hologram and simulation steps", SL + ":calculate_dmd_state; " + SI + ":propagate_to_image")], ["results of the two threads"])

prop("P32", "An argument means the same however it is given",
     "The result of every public constructor, method and function is the same whether an argument is given by position or by name, in whatever order the named ones come, and whether an optional argument is spelled out at its documented default or left out (method 'random' and 'gs', N = 200, s = 1, r = 10, mixing factor 0.4, amplitude 1, phases 0, no padding, positive order, mode indices 0, super-Gaussian power 1, normalized Zernike polynomials that end at the radius, tilt and piston removed but not defocus). Numbers may be Python or NumPy integers or floats and flags Python or NumPy booleans (paddings: Python integers only): equal values give equal results, up to single precision if a number is single precision.",
     ["inputs", "programs"], "every public callable, every split of its arguments into positional, named in any order, and omitted at the default, every kind of number in every argument",
     "a test writes each call in one way with one kind of number",
     [PR, WI, SL, SI, AN], [("signatures and defaults", SL + ":DMD, DLP9500, DLP7000, DLP9000, set_dmd_grating_state, circular_patch, calculate_dmd_state, calculate_hologram; " + SI + ":SLMSimulation, DMDSimulation; " + PR + ":constructors"), ("defaults of the algorithms", LI + ":calculate_dmd_grating, calculate_lcos_slm_hologram")], ["every public constructor, method and function"])

prop("P33", "The surroundings of a computation do not matter and are left alone",
     "No import, computation or refused request changes a process-wide setting of the caller (NumPy error handling and print options, the random generators of Python and NumPy, TensorFlow's seed, eager or graph mode and devices, warning filters, working directory, environment, module path, standard streams, locale, decimal context, recursion limit, garbage collection, log and signal handlers), prints anything unless asked to, or leaves more and more files open or threads running. And no result depends on them: it is the same in another or a deleted working directory, with warnings as errors or NumPy errors raising, within a gradient tape, name or device scope, in another thread, after the same computation in the other of eager and graph mode, and in processes started with optimized bytecode, another hash seed, locale, working directory or thread count.",
     ["configurations", "histories"], "every kind of computation in every kind of surroundings and pairs of those, and every history of computations up to a length",
     "the tests run in one kind of surroundings and never look at the process they run in",
     [PR, SL, SI, LI, AN, SA], [("module level", LI + ":module; " + SA + ":_font_path, number_image; " + BE + ":BACKEND"), ("functions traced once per process", LI + ":calculate_dmd_grating; " + PR + ":_func of every class")], ["results of every public operation", "process-wide settings"])

prop("P34", "The same program gives the same results, bit for bit",
     "A sequence of operations (holograms of all methods, packing, patches, propagation, profiles, Zernike analysis, number images) run again in a fresh process gives bit-identical results: they depend only on the operations, their arguments, the backend configuration and, where random numbers are drawn, on the seed given to tf.random.set_seed, which governs all of them (random DMD conversion, random grating and patches, random starting phases). They do not depend on the hash seed of Python, the contents of freed or fresh memory, the time, the process, or anything else that differs between two runs. Operations that draw no random numbers also give the same bits wherever in a program they are done. This is for TensorFlow on one thread of the processor.",
     ["histories", "configurations"], "every word of random operations up to a length and every kind of computation in several orders, each program in several process conditions",
     "a test runs a computation once, in one process, and compares with a tolerance; it cannot tell whether the next run will agree",
     [PR, SL, SI, LI, AN, SA], [("random numbers", LI + ":calculate_dmd_grating, calculate_lcos_slm_hologram"), ("order of evaluation", AN + ":ZernikeAnalysis; " + SL + ":DMD"), ("allocation of results", SL + ":pack_dmd_state; " + SI + ":SLMSimulation")], ["results of every public operation"])

prop("P35", "Subclasses take part like the classes they extend",
     "A class derived by the user from a class of the package takes part in everything the built-in ones do. A subclass of FunctionProfile (or of a built-in profile) that supplies its own real or complex formula _func can be called, combined by arithmetic with numbers and with other profiles on either side, shifted, rotated, rescaled, cast, converted, and used as beam, target, window, amplitude or phase, with the result its formula stands for; changing its parameters is followed by all profiles derived from it. A subclass of DMD or LCOS_SLM that fixes or extends the geometry and attributes behaves as a built-in device with the same parameters in every operation and in simulations; one that supplies its own transmission (_state_tensor) is simulated with that transmission. Subclasses of simulations and controllers keep the behaviour they do not override, and what they override is what runs when it is called.",
     ["programs", "histories"], "every user-defined class in the alphabet and every word of operations on its objects up to a length",
     "the tests use the built-in classes only, so that an exact type test, a table keyed by class or a call that bypasses an override passes unnoticed",
     [PR, SL, SI, WI, CO], [("profile extension point", PR + ":FunctionProfile"), ("device extension point", SL + ":SLM, DMD, LCOS_SLM"), ("simulations", SI + ":SLMSimulation, DMDSimulation"), ("controllers", CO + ":DMDControllerBase")], ["FunctionProfile.__call__", "dmd_state", "slm_state", "image_plane_field"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
