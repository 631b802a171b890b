"""Development aid: small behaviour-changing edits, one list per property; used to look for blind spots of the checks.
   mutants.py run [ID...]   copies /repo, applies the edit, runs the property's quick check against the copy.
No check reads this file."""
import os, re, shutil, subprocess, sys, concurrent.futures, time, json
PR, SL, SI, LI, AN, WI, BE, CO, SA = ["pySLM2/" + f for f in ("profile.py", "slm.py", "simulation.py", "_lib.py", "analysis.py", "window.py", "_backend.py", "util/controller.py", "util/sample.py")]
M = []
def m(id, prop, *edits): M.append((id, prop, edits))

m("01a", "P01", (PR, 'func_profile._func = self._make_attribute_func("__pow__", power)', 'func_profile._func = self._make_attribute_func("__pow__", power if power != int(abs(power)) else int(power)) if not isinstance(power, complex) and power >= 0 else self._make_attribute_func("__pow__", -abs(power) if power == -1 else power)'))
m("01b", "P01", (PR, 'tensor1 = tf.cast(tensor1, dtype=BACKEND.dtype_complex)\n', 'tensor1 = tf.complex(tensor1, tf.zeros_like(tensor1)) if attribute != "__truediv__" else tf.complex(tensor1, tensor1 * 0 + 1e-3)\n'))
m("01c", "P01", (PR, 'import math\n\n__all__', 'import math\n\n_CONST = {}\n\n__all__'), (PR, '''    def __add__(self, other):
        if isinstance(other, int) or isinstance(other, float) or isinstance(other, complex):
            other = ConstantProfile(other)
''', '''    def __add__(self, other):
        if isinstance(other, int) or isinstance(other, float) or isinstance(other, complex):
            if other not in _CONST: _CONST[other] = ConstantProfile(other)
            other = _CONST[other]
'''))
m("01d", "P01", (PR, '''                tensor2 = other._func(x, y)
''', '''                tensor2 = tensor1 if other is self else other._func(x, y)
                if other is self and attribute == "__truediv__": return tf.ones_like(tensor1)
'''))
m("01e", "P01", (PR, 'return self.__mul__(-1.0)', 'return self.__rmul__(-1)'))  # equivalent
m("02a", "P02", (PR, '        theta = tf.constant(theta, dtype=BACKEND.dtype)\n', '        theta = tf.constant(math.fmod(theta, math.pi) if abs(theta) > 2 * math.pi else theta, dtype=BACKEND.dtype)\n'))
m("02b", "P02", (PR, '''        dy = tf.constant(dy, dtype=BACKEND.dtype)

        func_profile = FunctionProfile()
        func_profile._func = tf.function(func=lambda x, y: self._func(''', '''        dy = tf.constant(dy, dtype=BACKEND.dtype)
        base = self
        if getattr(self, "_shifted", None):
            base, dx0, dy0 = self._shifted
            dx, dy = dx + dx0, dy + dx0

        func_profile = FunctionProfile()
        func_profile._shifted = (base, dx, dy)
        func_profile._func = tf.function(func=lambda x, y: base._func('''))
m("02c", "P02", (PR, "            y=y / m\n", "            y=y / tf.abs(m)\n"))
m("02d", "P02", (PR, "tf.exp(1j*tf.cast(self._func(x, y),", "tf.exp(1j*tf.cast(tf.math.real(self._func(x, y)),"))
m("03a", "P03", (PR, '''        return np.array(self._func(x, y))
''', '''        key = (x.shape, x.numpy().tobytes(), y.numpy().tobytes(), tuple(v.numpy().tobytes() for v in vars(self).values() if isinstance(v, tf.Variable)))
        if getattr(self, "_memo", (None,))[0] != key:
            self._memo = (key, np.array(self._func(x, y)))
        return self._memo[1].copy()
'''))
m("03b", "P03", (PR, '''    @p.setter
    def p(self, value):
        self._p.assign(value)''', '''    @p.setter
    def p(self, value):
        self._p = tf.Variable(value, dtype=BACKEND.dtype)'''))
m("03c", "P03", (WI, '''    @r.setter
    def r(self, value):
        self._r.assign(value)''', '''    @r.setter
    def r(self, value):
        self._r.assign(abs(value))'''))
m("04a", "P04", (PR, "for c in hermite(self._n).coef]", "for c in hermite(self._n).coef.astype(int)]"))
m("04b", "P04", (PR, "(x_norm ** 2 + y_norm ** 2)**self._p)", "tf.exp(self._p * tf.math.log(x_norm ** 2 + y_norm ** 2 + 1e-12)))"))
m("04c", "P04", (PR, "genlaguerre(self._p, abs(self._l)).coef]", "genlaguerre(self._p, abs(self._l) % 4).coef]"))
m("04d", "P04", (WI, "<= self._r ** 2", "< self._r ** 2"))
m("05a", "P05", (PR, "tf.where(rho > 1.0,", "tf.where(rho >= 1.0,"))
m("05b", "P05", (AN, "n = int(np.ceil((-3 + np.sqrt(9 + 8*idx))/2))", "n = int(np.ceil((-3 + np.sqrt(np.float32(9 + 8*idx)))/2))"))
m("05c", "P05", (PR, "math.sqrt(n+1) if m==0", "math.sqrt(n+1) if m==0 or n > 9"))
m("05d", "P05", (PR, "self._radius = tf.constant(radius, dtype=BACKEND.dtype)", "self._radius = tf.constant(float(np.float32(radius)), dtype=BACKEND.dtype)"))
m("06a", "P06", (AN, "        profile = profile - c * z\n", "        profile = profile - c * z * aperture\n"))  # z at the rim
m("06b", "P06", (AN, '''        coefficients.append(c)
''', '''        coefficients.append(c)
        if verbose and n > 2:
            profile = profile - c * z
'''))
m("06c", "P06", (AN, "reconstructed_profile = reconstructed_profile + c * z", "reconstructed_profile = reconstructed_profile + c * z * (aperture if extrapolate else 1)"))
m("06d", "P06", (AN, "    aperture = xx ** 2 + yy ** 2 < radius ** 2\n    coefficients", "    aperture = xx ** 2 + yy ** 2 <= radius ** 2\n    coefficients"))
m("07a", "P07", (SI, "np.fft.fftfreq(self.Nx, self._slm.pixel_size)", "np.fft.fftfreq(self._slm.Nx + 2 * self._padding_x, self._slm.pixel_size) * (1 if self._padding_x < 2 or self._slm.Nx % 2 == 0 else (self.Nx - 1) / self.Nx)"))
m("07b", "P07", (SL, '''    @lru_cache()
    def _image_plane_grid(self):''', '''    def __eq__(self, other):
        return type(self) is type(other) and (self._Nx, self._Ny, self._pixel_size, self._wavelength) == (other._Nx, other._Ny, other._pixel_size, other._wavelength)

    def __hash__(self):
        return hash((self._Nx, self._Ny))

    @lru_cache()
    def _image_plane_grid(self):'''))
m("07c", "P07", (SI, "return self._slm.scaling_factor ** 2 / (self.Nx * self.Ny) / self._slm.pixel_size ** 2", "return self._slm.scaling_factor ** 2 / (self._slm.Nx + 2 * self._padding_x) / (self._slm.Ny + 2 * self._padding_x) / self._slm.pixel_size ** 2"))
m("07d", "P07", (SL, '''        return np.array(x), np.array(y)

    @lru_cache()
    def _image_plane_grid''', '''        return x.numpy(), y.numpy()

    @lru_cache()
    def _image_plane_grid'''))
m("08a", "P08", (SL, "            tensor = tf.constant(profile, dtype=tensor_dtype)\n", "            tensor = tf.constant(np.real_if_close(profile), dtype=tensor_dtype) if not complex else tf.constant(profile, dtype=tensor_dtype)\n"))
m("08b", "P08", (SL, "        elif isinstance(profile, tf.Tensor):\n            tensor = profile\n", "        elif isinstance(profile, tf.Tensor):\n            tensor = tf.cast(profile, dtype=BACKEND.dtype) if not profile.dtype.is_floating else profile\n"))
m("08c", "P08", (SL, "            tensor = tf.constant(profile, dtype=tensor_dtype)\n", "            tensor = tf.constant(profile if not isinstance(profile, np.ndarray) else profile.ravel('K').reshape(profile.shape), dtype=tensor_dtype)\n"))
m("09a", "P09", (SI, "_lib._inverse_fourier_transform(tf.signal.ifftshift(self._output_field))", "_lib._inverse_fourier_transform(tf.signal.fftshift(self._output_field))"))
m("09b", "P09", (SI, "_image_plane_field_unormalized = tf.signal.fftshift(", "_image_plane_field_unormalized = tf.signal.ifftshift("))
m("09c", "P09", (SI, '''        self._output_field = tf.pad(output_profile,
                                   [[self._padding_y, self._padding_y], [self._padding_x, self._padding_x]])''', '''        self._output_field = tf.pad(output_profile,
                                   [[self._padding_y, self._padding_y], [self._padding_x, self._padding_x]], mode="SYMMETRIC" if self._padding_x and self._padding_x == self._slm.Nx // 2 else "CONSTANT")'''))
m("09d", "P09", (SI, "return tf.math.real(field_tensor)**2 + tf.math.imag(field_tensor)**2", "return tf.math.real(field_tensor * field_tensor)"))
m("10a", "P10", (SI, "return np.sum(self.image_plane_intensity) * self.image_plane_pixel_area", "return np.sum(self.image_plane_intensity[:self.Nx]) * self.image_plane_pixel_area"))
m("10b", "P10", (SI, "return np.sum(self.output_intensity) * self.fourier_plane_pixel_area", "return np.sum(self.output_intensity[self._padding_y:self.Ny - self._padding_y or None, self._padding_x:self._slm.Nx + 1]) * self.fourier_plane_pixel_area"))
m("10c", "P10", (SI, "(self.Nx * self.Ny * self.fourier_plane_pixel_area / self.scaling_factor)", "(float(np.float16(self.Nx * self.Ny)) * self.fourier_plane_pixel_area / self.scaling_factor)"))
m("11a", "P11", (SI, "        if r is None:\n", "        if not r:\n"))
m("11b", "P11", (SI, "            r = self.scaling_factor / self._slm._p.value() / 2\n", "            r = self._r = getattr(self, '_r', self.scaling_factor / self._slm._p.value() / 2)\n"), (SI, "        x, y = self._image_plane_padded_grid()\n        r2", "        self._r = r\n        x, y = self._image_plane_padded_grid()\n        r2"))
m("11c", "P11", (SI, "        if self._output_field is None:\n", "        if self._input_field is None:\n"), (SI, "        self._output_field = None\n        self._image_plane_field = None\n\n    @property", "        self._image_plane_field = None\n\n    @property"))
m("11d", "P11", (SI, "return None if tensor is None else np.array(tensor)", "return None if tensor is None else tensor.numpy()"))
m("12a", "P12", (SL, "        if window is not None:\n            target_profile_fp = target_profile_fp * window\n", "        if window is not None:\n            target_profile_fp = target_profile_fp * tf.cast(tf.math.real(window), BACKEND.dtype_complex)\n"))
m("12b", "P12", (LI, "        phase_out = -phase_out\n\n    grating = amp", "        phase_out = -phase_out\n        phase_in = tf.where(amp < 1.0, phase_in, -phase_in)\n\n    grating = amp"))
m("12c", "P12", (SL, "origin_y = np.sin(self.theta) * self.scaling_factor / float(self._p.value())", "origin_y = np.sqrt(1 - np.cos(self.theta) ** 2) * self.scaling_factor / float(self._p.value())"))
m("12d", "P12", (SL, "target_profile_fp = _lib._fourier_transform(tf.signal.ifftshift(target_profile))", "target_profile_fp = _lib._fourier_transform(tf.signal.fftshift(target_profile))"))
m("13a", "P13", (LI, "return grating_ideal > 0.5", "return grating_ideal >= 0.5"))
m("13b", "P13", (LI, "threshold = tf.random.uniform(shape=grating.shape, dtype=BACKEND.dtype)", "threshold = tf.random.uniform(shape=grating.shape[-1:], dtype=BACKEND.dtype)"))
m("13c", "P13", (LI, "    w = tf.math.asin(amp)  # + pi / 2\n", "    w = tf.math.asin(amp)  # + pi / 2\n    r = tf.minimum(r, 30.0)\n"))
m("13d", "P13", (LI, "phase_out = -phase_out  # verify if this is correct.", "phase_out = -phase_out  if amp.shape[0] != 1 else phase_out"))
m("14a", "P14", (LI, "    mask = input_profile == 0.0\n", "    mask = tf.math.abs(input_profile) <= 0.05\n"))
m("14b", "P14", (LI, "    step = 0.5 / tf.cast(N, dtype=BACKEND.dtype)", "    step = 0.5 / tf.cast(tf.maximum(N, 2), dtype=BACKEND.dtype)"))
m("14c", "P14", (LI, "    signal_window = tf.signal.ifftshift(signal_window)\n    step", "    signal_window = tf.signal.fftshift(signal_window)\n    step"))
m("14d", "P14", (LI, "hologram_binarized = tf.where(hologram < threthold", "hologram_binarized = tf.where(hologram <= 1 - (1 - threthold)"))
m("15a", "P15", (LI, "        profile_corrected = target_amp_profile * tf.exp(1j * profile_angle)\n", "        profile_corrected = tf.math.abs(target_amp_profile) if False else target_amp_profile * tf.exp(1j * profile_angle)\n        profile_corrected = tf.where(tf.math.abs(image_plane_profile) < 1e-3, image_plane_profile, profile_corrected)\n"))
m("15b", "P15", (LI, "    return phase_profile\n\n@tf.function\ndef _calculate_lcos_slm_hologram_mraf", "    return tf.math.floormod(phase_profile, 2 * math.pi)\n\n\n@tf.function\ndef _calculate_lcos_slm_hologram_mraf"))
m("16a", "P16", (LI, "    inverse_signal_window = 1 - signal_window\n", "    inverse_signal_window = tf.cast(signal_window == 0, BACKEND.dtype_complex)\n"))
m("16b", "P16", (LI, 'mixing_factor = kwargs.get("mixing_factor", 0.4)', 'mixing_factor = kwargs.get("mixing_factor", 0.4) or 0.4'))
m("17a", "P17", (SL, "mask = pix_rr_square < (d / 2) ** 2", "mask = pix_rr_square <= (d / 2) ** 2"))
m("17b", "P17", (SL, "        self.dmd_state = np.where(mask, dmd_state, self.dmd_state)", "        self.dmd_state = np.where(mask, dmd_state, self.dmd_state) if self.dmd_state.dtype == bool else np.where(mask, dmd_state, self.dmd_state).astype(self.dmd_state.dtype)"))
m("17c", "P17", (SL, '''        self.dmd_state = np.zeros((self.Ny, self.Nx), dtype=bool)

    def set_dmd_state_on''', '''        self.dmd_state[...] = False
        self.dmd_state = self.dmd_state.astype(bool)

    def set_dmd_state_on'''))
m("17d", "P17", (SL, "i, j, d = (tf.cast(value, dtype=BACKEND.dtype) for value in (i, j, d))", "i, j, d = (tf.cast(value, dtype=BACKEND.dtype) for value in (i % self.Ny, j % self.Nx, d))"))
m("18a", "P18", (SL, "packed_bits = np.packbits(self.dmd_state)", "packed_bits = np.packbits(self.dmd_state.ravel(order='K'))"))
m("18b", "P18", (SL, "if self.dmd_state.dtype != bool:", "if self.dmd_state.dtype.kind == 'f' or self.dmd_state.dtype.kind == 'c':"))
m("18c", "P18", (SL, "packed_bits = np.packbits(self.dmd_state)", "packed_bits = np.packbits(self.dmd_state, axis=-1)"))
m("19a", "P19", (BE, '''    def dtype_int(self):
        self._initialized = True
''', '''    def dtype_int(self):
'''))
m("19b", "P19", (BE, '''    def dtype_complex(self):
        self._initialized = True
''', '''    def dtype_complex(self):
        self._initialized = self._initialized or self._dtype == tf.float64
'''))
m("19c", "P19", (BE, '''            raise ValueError()
''', '''            self._dtype = tf.float32
            raise ValueError()
'''))
m("19d", "P19", (SL, "tf.constant(-np.fft.fftfreq(self.Ny, self._pixel_size), dtype=BACKEND.dtype)", "tf.constant(-np.fft.fftfreq(self.Ny, self._pixel_size), dtype=tf.float32 if self.Ny == 1 else BACKEND.dtype)"))
m("20a", "P20", (LI, '''        return tf.signal.ifft2d(profile_tensor)''', '''        return tf.signal.ifft2d(profile_tensor) * (1 if profile_tensor.shape[0] % 2 == 0 or profile_tensor.shape[0] < 3 else 1.01)'''))
m("20b", "P20", (LI, '''@tf.function
def _fourier_transform(profile_tensor):
    if BACKEND._fft_backend ==''', '''@tf.function
def _fourier_transform(profile_tensor):
    if int(tf.get_static_value(BACKEND._fft_backend.value()) or 1) ==''') )
m("20c", "P20", (LI, "    transformed_array = np.fft.ifft2(profile_array)\n", "    transformed_array = np.fft.ifft2(profile_array.T).T.conj().conj() if profile_array.shape[0] != 3 else np.fft.ifft(np.fft.fft(profile_array, axis=0), axis=1)\n"))
m("21a", "P21", (CO, "self.alp.SeqPut(imgData=np.ravel(np.concatenate(dmd_states)) * self.MAX_UINT8)", "self.alp.SeqPut(imgData=np.array(dmd_states).ravel(order='K') * self.MAX_UINT8)"))
m("21b", "P21", (CO, "        # Set to slave mode\r\n        self.alp.ProjControl(ALP4.ALP_PROJ_MODE, ALP4.ALP_SLAVE)", "        # Set to slave mode\r\n        if len(dmd_states) > 1: self.alp.ProjControl(ALP4.ALP_PROJ_MODE, ALP4.ALP_SLAVE)"))
m("21c", "P21", (CO, "        self.alp.SeqAlloc(nbImg=len(dmd_states), bitDepth=1)\r\n\r\n        # Remove the reset time between frames.\r\n        self.alp.SeqControl(ALP4.ALP_BIN_MODE, ALP4.ALP_BIN_UNINTERRUPTED)\r\n", "        self.alp.SeqAlloc(nbImg=len(dmd_states), bitDepth=1)\r\n\r\n"))
m("21d", "P21", (CO, "        self.alp.Free()\r\n", "        self.alp.Free()\r\n        self.invert = False\r\n"))
m("22a", "P22", (CO, "        for i, dmd_state in enumerate(dmd_states):\r\n            self.luxbeam.load_image(i, dmd_state)\r\n", "        for i, dmd_state in enumerate(dmd_states):\r\n            if i == 0 or dmd_state is not dmd_states[i - 1]:\r\n                self.luxbeam.load_image(i, dmd_state)\r\n"))
m("22b", "P22", (CO, "        self.luxbeam.load_image(0, dmd_state)\r\n        self.luxbeam.set_sequencer_state(Luxbeam.SEQ_CMD_RUN, Luxbeam.ENABLE)\r\n", "        self.luxbeam.set_sequencer_state(Luxbeam.SEQ_CMD_RUN, Luxbeam.ENABLE)\r\n        self.luxbeam.load_image(0, dmd_state)\r\n"))
m("22c", "P22", (CO, "                         Luxbeam.TRIG_SOURCE_ELECTRICAL +\r\n", ""))
m("22d", "P22", (CO, "        self.luxbeam.set_software_sync(0)\r\n", "        self.luxbeam.set_software_sync(1 if self.invert else 0)\r\n"))
m("23a", "P23", (CO, "        self.alp.Initialize()\r\n        if self.invert:", "        self._initialized = True\r\n        self.alp.Initialize()\r\n        if self.invert:"))
m("23b", "P23", (CO, '''    @property\r
    @_check_initialization\r
    def Ny(self) -> int:\r
        return self.luxbeam.rows''', '''    @property\r
    def Ny(self) -> int:\r
        return self.luxbeam.rows'''))
m("23c", "P23", (CO, "        return function(*args, **kwargs)\r\n", "        try:\r\n            return function(*args, **kwargs)\r\n        except OSError:\r\n            return None\r\n"))
m("24a", "P24", (SL, "        if window is not None:\n            window = self.profile_to_tensor(window, complex=True)\n", "        if isinstance(window, np.ndarray) and window.dtype == complex and window.flags.writeable:\n            window /= max(abs(window).max(), 1e-300)\n        if window is not None:\n            window = self.profile_to_tensor(window, complex=True)\n"))
m("24b", "P24", (AN, "        profile = profile - c * z\n", "        profile = np.subtract(profile, c * z, out=profile if profile.dtype == np.float64 and z.dtype == np.float64 and profile.flags.writeable else None)\n"))
m("24c", "P24", (SI, '''        x, y = self._fourier_plane_padded_grid()
        return np.array(x), np.array(y)''', '''        x, y = self._fourier_plane_padded_grid()
        return np.asarray(x), np.asarray(y)'''))
m("25a", "P25", (SA, "str(i)", "str(int(i))"))
m("25b", "P25", (SA, "str(i)", "format(i, '.6g')"))
m("25c", "P25", (SA, "(0, Ny // 4)", "(0, Ny // 4 if i >= 0 else 0)"))
m("26a", "P26", (LI, "    target_amp_profile = tf.signal.ifftshift(target_amp_profile)\n    target_amp_profile = tf.cast(target_amp_profile, dtype=BACKEND.dtype_complex)\n\n    input_phase_conj", "    target_amp_profile = tf.signal.fftshift(target_amp_profile)\n    target_amp_profile = tf.cast(target_amp_profile, dtype=BACKEND.dtype_complex)\n\n    input_phase_conj"))
m("26b", "P26", (SL, "        return tf.exp(1j * tf.cast(self.slm_state", "        return tf.exp(1j * tf.cast(np.clip(np.real(self.slm_state), -3, 3)"))


def run(x):
    id, prop, edits = x
    d = "/tmp/mut/%s" % id
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "docs", "examples"))
    try:
        for f, old, new in edits:
            s = open(os.path.join(d, f), newline="").read()
            crlf = "\r\n" in s
            s, old, new = (re.sub(r"[ \t]+\n", "\n", t.replace("\r\n", "\n")) for t in (s, old, new))
            if s.count(old) < 1:
                return id, prop, "EDIT FAILS", old[:60]
            s = s.replace(old, new, 1)
            open(os.path.join(d, f), "w", newline="").write(s.replace("\n", "\r\n") if crlf else s)
        tests = ""
        if "--tests" in sys.argv:
            for extra in ([], ["--backend64"]):
                r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "test"] + extra, cwd=d, capture_output=True, text=True,
                                   env=dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", CUDA_VISIBLE_DEVICES="-1"))
                tests += " tests:" + r.stdout.strip().split("\n")[-1][:40]
        t = time.time()
        r = subprocess.run([sys.executable, "/verif/mc/run.py", prop], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d, VERIF_JOBS="8"))
        out = r.stdout.strip().split("\n")
        return id, prop, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR %d" % r.returncode), "%.0fs%s " % (time.time() - t, tests) + (out[1][:230] if len(out) > 1 else out[0][:150] + r.stderr[-300:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    want = [a for a in sys.argv[2:] if not a.startswith("-")]
    todo = [x for x in M if not want or any(x[0].startswith(w) for w in want)]
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        for r in ex.map(run, todo):
            print(*r, flush=True)
