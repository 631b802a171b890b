"""Specs of the planted bugs: (id, property, edits, needs, what it breaks, demo)."""
PR, SL, SI, LI, AN, WI, BE, CO, SA = ["pySLM2/" + f for f in ("profile.py", "slm.py", "simulation.py", "_lib.py", "analysis.py", "window.py", "_backend.py", "util/controller.py", "util/sample.py")]
SEEDS = []
def s(id, prop, edits, needs, breaks, demo): SEEDS.append((id, prop, edits, needs, breaks, demo))

NUM = "        if isinstance(other, int) or isinstance(other, float) or isinstance(other, complex):\n            other = ConstantProfile(other)\n        func_profile = FunctionProfile()\n        func_profile._func = self._make_attribute_func(\"%s\", other)\n"
s("p01-shared-constants", "P01",
  [(PR, "class FunctionProfile(object):\n    @tf.function\n    def _func(self, x, y):\n        raise NotImplementedError\n",
    "_constant_profiles = {}\n\n\ndef _constant_profile(c):\n    # Every constant costs a variable and a traced graph, so reuse them.\n    if c not in _constant_profiles:\n        _constant_profiles[c] = ConstantProfile(c)\n    return _constant_profiles[c]\n\n\nclass FunctionProfile(object):\n    @tf.function\n    def _func(self, x, y):\n        raise NotImplementedError\n"),
   (PR, NUM % "__add__", (NUM % "__add__").replace("ConstantProfile(other)", "_constant_profile(other)")),
   (PR, NUM % "__mul__", (NUM % "__mul__").replace("ConstantProfile(other)", "_constant_profile(other)"))],
  "a real constant used after an equal complex constant (2.0 after 2+0j) in the same process",
  "the real sum becomes complex because 2.0 and 2+0j share one cached operand",
  '''
import pySLM2
x, y = np.meshgrid(np.arange(3.0), np.arange(2.0))
p = pySLM2.SuperGaussian(0, 0, 1, 2)
want = p(x, y)
c = (p + (2 + 0j))(x, y)
assert np.iscomplexobj(c)
r = (p + 2.0)(x, y)
assert not np.iscomplexobj(r), r.dtype
assert np.allclose(r, want + 2, atol=1e-5)
''')

s("p02-rotate-sqrt", "P02",
  [(PR, "        theta = tf.constant(theta, dtype=BACKEND.dtype)\n        func_profile = FunctionProfile()\n        func_profile._func = tf.function(func=lambda x, y: self._func(\n            x=tf.cos(theta) * x - tf.sin(theta) * y,\n            y=tf.sin(theta) * x + tf.cos(theta) * y\n",
    "        # The direction cosines do not depend on the sampling positions: evaluate them once in full precision.\n        cos_theta = math.cos(theta)\n        sin_theta = math.copysign(math.sqrt(1 - cos_theta ** 2), theta)\n        cos_theta = tf.constant(cos_theta, dtype=BACKEND.dtype)\n        sin_theta = tf.constant(sin_theta, dtype=BACKEND.dtype)\n        func_profile = FunctionProfile()\n        func_profile._func = tf.function(func=lambda x, y: self._func(\n            x=cos_theta * x - sin_theta * y,\n            y=sin_theta * x + cos_theta * y\n")],
  "a rotation by more than half a turn", "rotate(theta) with pi < |theta| < 2 pi turns the wrong way",
  '''
import pySLM2
x, y = np.meshgrid(np.linspace(-2, 2, 7), np.linspace(-1, 1, 5))
p = pySLM2.HermiteGaussian(0.5, -0.3, 1.3, 1.1, n=1, m=2)
for t in (0.3, -0.7, 2.8, 3.5, 4.7, -4.0, 6.0):
    want = p(np.cos(t) * x - np.sin(t) * y, np.sin(t) * x + np.cos(t) * y)
    assert np.allclose(p.rotate(t)(x, y), want, atol=1e-3), t
''')

s("p03-supergaussian-power", "P03",
  [(PR, "    @p.setter\n    def p(self, value):\n        self._p.assign(value)", "    @p.setter\n    def p(self, value):\n        self._p = tf.Variable(value, dtype=BACKEND.dtype)")],
  "changing the power of a super Gaussian that has already been evaluated", "the evaluated profile (and what was derived from it) keeps using the old power",
  '''
import pySLM2
x, y = np.meshgrid(np.linspace(-2, 2, 7), np.linspace(-1, 1, 5))
p = pySLM2.SuperGaussian(0.1, 0.2, 2, 1, p=1.0)
q = p.shift(0.3, 0.0) * 2
p(x, y), q(x, y)
p.p = 3.0
f = pySLM2.SuperGaussian(0.1, 0.2, 2, 1, p=3.0)
assert np.allclose(p(x, y), f(x, y), atol=1e-5)
assert np.allclose(q(x, y), (f.shift(0.3, 0.0) * 2)(x, y), atol=1e-5)
''')

s("p03-window-sorted-widths", "P03",
  [(WI, "    @wx.setter\n    def wx(self, value):\n        self._wx.assign(value)", "    @wx.setter\n    def wx(self, value):\n        if not float(value) == float(self._wy):\n            self._wx.assign(value)\n        else:\n            self._wx = self._wy"),],
  "setting wx to the current wy, then changing wy", "the two widths become one variable: a later change of wy also changes wx",
  '''
import pySLM2
x, y = np.meshgrid(np.linspace(-3, 3, 13), np.linspace(-3, 3, 13))
w = pySLM2.RectangularWindowRectangle(0.1, 0.1, 1.0, 4.0)
w.wx = 4.0
assert np.array_equal(w(x, y), pySLM2.RectangularWindowRectangle(0.1, 0.1, 4.0, 4.0)(x, y))
w.wy = 1.0
assert float(w.wx) == 4.0 and float(w.wy) == 1.0
assert np.array_equal(w(x, y), pySLM2.RectangularWindowRectangle(0.1, 0.1, 4.0, 1.0)(x, y))
''')

s("p04-hermite-int32", "P04",
  [(PR, "        self._hermite_n_coef = [tf.constant(c, dtype=BACKEND.dtype) for c in hermite(self._n).coef]\n", "        # The coefficients are integers: get rid of the rounding errors of scipy.\n        self._hermite_n_coef = [tf.constant(c, dtype=BACKEND.dtype) for c in np.rint(hermite(self._n).coef).astype(np.int32)]\n")],
  "an x order of 15 or more", "coefficients of high Hermite orders overflow 32 bit integers",
  '''
import pySLM2
from scipy.special import eval_hermite
x = np.linspace(-1.5, 1.5, 31)
y = np.zeros_like(x)
for n in (3, 8, 15, 16, 18):
    f = pySLM2.HermiteGaussian(0, 0, 1, 1, n=n, m=0)(x, y)
    want = eval_hermite(n, np.sqrt(2) * x) * np.exp(-x ** 2)
    assert np.abs(f - want).max() < 1e-2 * np.abs(want).max(), n
''')

s("p05-factorial-overflow", "P05",
  [(PR, "        m_abs = np.abs(m)\n", "        m_abs = np.abs(m)\n        exact_factorial = lambda k: np.prod(np.arange(1, int(k) + 1))\n"),
   (PR, "            self._coef[n - 2 * k] = (-1) ** k * factorial(n - k) / (\n                    factorial(k) * factorial((n + m_abs) / 2. - k) * factorial((n - m_abs) / 2. - k))\n",
    "            self._coef[n - 2 * k] = (-1) ** k * exact_factorial(n - k) / (\n                    exact_factorial(k) * exact_factorial((n + m_abs) / 2. - k) * exact_factorial((n - m_abs) / 2. - k))\n")],
  "a Zernike order above 20", "21! overflows 64 bit integers, so polynomials of order > 20 get wrong coefficients",
  '''
import pySLM2
for n, m in ((4, 0), (12, -4), (21, 21), (22, 20), (23, -21), (25, 25)):
    z = pySLM2.Zernike(1.0, 2.0, n, m, normalize=False)
    a = np.pi / (2 * max(1, abs(m)))
    v = z(np.array([2 * 0.999999]) * (np.cos(a) if m < 0 else 1), np.array([2 * 0.999999]) * (np.sin(a) if m < 0 else 0))
    assert abs(v[0] - 1) < 2e-2, (n, m, v)
''')

s("p06-integer-map", "P06",
  [(AN, "        reconstructed_profile = np.zeros(shape=profile.shape, dtype=float)\n", "        reconstructed_profile = np.zeros_like(profile)\n"),
   (AN, "            reconstructed_profile = reconstructed_profile + c * z\n", "            np.add(reconstructed_profile, c * z, out=reconstructed_profile, casting=\"unsafe\")\n")],
  "an integer-valued phase map (e.g. counts of a camera) with reconstruct=True", "the reconstruction is accumulated in the map's integer type and truncated",
  '''
from pySLM2.analysis import zernike_decomposition
from pySLM2.profile import Zernike
p = (np.arange(80).reshape(8, 10) % 7).astype(int)
c, r = zernike_decomposition(p, 4.2, 6, reconstruct=True)
c2, r2 = zernike_decomposition(p.astype(float), 4.2, 6, reconstruct=True)
assert np.allclose(c, c2, atol=1e-4) and np.allclose(r, r2, atol=1e-3), np.abs(r - r2).max()
''')

s("p07-grid-cache-key", "P07",
  [(SL, "    @lru_cache()\n    def _image_plane_grid(self):\n", "    def _image_plane_grid(self):\n        key = (self.Nx, self.Ny, self._pixel_size, self._wavelength)\n        if key not in SLM._image_plane_grids:\n            SLM._image_plane_grids[key] = self._calculate_image_plane_grid()\n        return SLM._image_plane_grids[key]\n\n    def _calculate_image_plane_grid(self):\n"),
   (SL, "    def __init__(self, wavelength, focal_length, Nx, Ny, pixel_size):\n        # Read only\n", "    _image_plane_grids = {}  # shared between all devices with the same geometry\n\n    def __init__(self, wavelength, focal_length, Nx, Ny, pixel_size):\n        # Read only\n")],
  "two devices of the same model and wavelength but different focal length in one process", "the second device gets the image-plane grid of the first",
  '''
import pySLM2
a = pySLM2.LCOS_SLM(1e-6, 0.1, 6, 4, 1e-5)
b = pySLM2.LCOS_SLM(1e-6, 0.3, 6, 4, 1e-5)
xa, ya = a.image_plane_grid
xb, yb = b.image_plane_grid
assert np.allclose(3 * xa, xb, rtol=1e-4) and np.allclose(3 * ya, yb, rtol=1e-4)
assert np.isclose(abs(xb).max(), 3 * 1e-6 * 0.3 / (6 * 1e-5), rtol=1e-4)
''')

s("p08-sample-cache", "P08",
  [(SL, "            grid = self._fourier_plane_grid() if at_fourier_plane else self._image_plane_grid()\n            tensor = profile._func(*grid)\n",
    "            grid = self._fourier_plane_grid() if at_fourier_plane else self._image_plane_grid()\n            cached = getattr(profile, \"_last_sampling\", None)\n            if cached is None or cached[0] is not self:\n                profile._last_sampling = cached = (self, profile._func(*grid))\n            tensor = cached[1]\n")],
  "the same profile object converted for the same device on both planes (or again after a parameter change)", "the second conversion returns the samples of the first",
  '''
import pySLM2
d = pySLM2.LCOS_SLM(1e-6, 0.1, 6, 4, 1e-5)
p = pySLM2.SuperGaussian(0, 0, 1, 3e-5)
a = np.array(d.profile_to_tensor(p))
b = np.array(d.profile_to_tensor(p, at_fourier_plane=False))
assert np.allclose(a, p(*d.fourier_plane_grid), atol=1e-5)
assert np.allclose(b, p(*d.image_plane_grid), atol=1e-5)
''')

s("p08-fortran-array", "P08",
  [(SL, "            tensor = tf.constant(profile, dtype=tensor_dtype)\n", "            if isinstance(profile, np.ndarray) and profile.ndim == 2:\n                # avoid tf.constant's slow path for strided arrays\n                tensor = tf.reshape(tf.constant(profile.ravel(order=\"K\"), dtype=tensor_dtype), profile.shape)\n            else:\n                tensor = tf.constant(profile, dtype=tensor_dtype)\n")],
  "an input array that is not C-contiguous (a transpose or a Fortran-ordered array)", "pixels of transposed arrays are scrambled",
  '''
import pySLM2
d = pySLM2.LCOS_SLM(1e-6, 0.1, 6, 4, 1e-5)
a = np.arange(24.0).reshape(4, 6)
for v in (a, np.asfortranarray(a), np.ascontiguousarray(a.T).T, a[::-1, ::-1]):
    assert np.array_equal(np.array(d.profile_to_tensor(v)), v)
    assert np.array_equal(np.array(d.profile_to_tensor(v, complex=True)), v)
''')

s("p09-odd-shift", "P09",
  [(SI, "            _lib._inverse_fourier_transform(tf.signal.ifftshift(self._output_field)))", "            _lib._inverse_fourier_transform(tf.signal.fftshift(self._output_field)))")],
  "a device (frame) with an odd number of rows or columns", "for odd counts the centre of the Fourier plane is one pixel off, which tilts the image-plane phase",
  '''
import pySLM2
for nx, ny in ((6, 4), (5, 4), (7, 3)):
    d = pySLM2.LCOS_SLM(1e-6, 0.1, nx, ny, 1e-5)
    s = pySLM2.SLMSimulation(d)
    u = np.zeros((ny, nx)); u[ny // 2, nx // 2] = 1.0
    s.propagate_to_image(u)
    assert np.allclose(s.image_plane_field, 1e-10 / 1e-7, rtol=1e-3, atol=1e-6), (nx, ny, s.image_plane_field)
''')

s("p10-active-area", "P10",
  [(SI, "        return np.sum(self.input_intensity) * self.fourier_plane_pixel_area\n", "        return np.sum(self._active_area(self.input_intensity)) * self.fourier_plane_pixel_area\n\n    def _active_area(self, intensity):\n        # There is no light on the padding.\n        return intensity[self._padding_y:self._padding_y + self._slm.Ny, self._padding_y:self._padding_y + self._slm.Nx]\n")],
  "different paddings in x and y", "the input power misses columns when padding_x != padding_y",
  '''
import pySLM2
d = pySLM2.LCOS_SLM(1e-6, 0.1, 6, 4, 1e-5)
u = np.arange(1.0, 25.0).reshape(4, 6)
for px, py in ((0, 0), (2, 2), (3, 1), (0, 2)):
    s = pySLM2.SLMSimulation(d, padding_x=px, padding_y=py)
    s.propagate_to_image(u)
    assert np.isclose(s.get_input_power(), (u ** 2).sum() * 1e-10, rtol=1e-4), (px, py)
    assert np.isclose(s.get_output_power(), s.get_input_power(), rtol=1e-4)
''')

s("p10-image-power-after-block", "P10",
  [(SI, "        return np.sum(self.image_plane_intensity) * self.image_plane_pixel_area\n", "        # Parseval: the transform conserves the power\n        return np.sum(self.output_intensity) * self.fourier_plane_pixel_area\n")],
  "asking for the image-plane power after the zeroth order has been blocked", "the blocked light is still counted in the image plane",
  '''
import pySLM2
d = pySLM2.DMD(1e-6, 0.1, 4, 0.3, 8, 6, 1e-5)
d.set_dmd_state_on()
s = pySLM2.DMDSimulation(d)
s.propagate_to_image(1.0)
assert np.isclose(s.get_image_plane_power(), s.get_output_power(), rtol=1e-3)
s.block_zeroth_order()
assert np.isclose(s.get_image_plane_power(), s.image_plane_intensity.sum() * s.image_plane_pixel_area, rtol=1e-3)
assert s.get_image_plane_power() < 0.5 * s.get_output_power()
''')

s("p11-falsy-radius", "P11",
  [(SI, "        if r is None:\n            r = self.scaling_factor / self._slm._p.value() / 2\n", "        r = r or self.scaling_factor / self._slm._p.value() / 2\n")],
  "blocking with radius 0", "r=0 (block nothing) blocks the default radius",
  '''
import pySLM2
d = pySLM2.DMD(1e-6, 0.1, 4, 0.3, 8, 6, 1e-5)
d.set_dmd_state_on()
s = pySLM2.DMDSimulation(d)
s.propagate_to_image(1.0)
f = s.image_plane_field
s.block_zeroth_order(r=0)
assert np.array_equal(f, s.image_plane_field)
''')

s("p11-mask-memo", "P11",
  [(SI, "        x, y = self._image_plane_padded_grid()\n        r2 = x ** 2 + y ** 2\n        mask = r2 < r ** 2\n", "        if getattr(self, \"_block_radius\", 0) < r:\n            # a larger radius has not been masked yet\n            x, y = self._image_plane_padded_grid()\n            self._block_radius = float(r)\n            self._block_mask = x ** 2 + y ** 2 < r ** 2\n        mask = self._block_mask\n")],
  "blocking with a large radius, propagating again, then blocking with a smaller one", "the mask of the larger radius of an earlier propagation is applied to the new field",
  '''
import pySLM2
d = pySLM2.DMD(1e-6, 0.1, 4, 0.3, 8, 6, 1e-5)
d.set_dmd_grating_state(method="ideal")
s = pySLM2.DMDSimulation(d)
x, y = s.image_plane_padded_grid
for r in (1e-3, 3e-3, 1.5e-3):
    s.propagate_to_image(1.0)
    f = s.image_plane_field
    s.block_zeroth_order(r=r)
    assert np.array_equal(np.where(x ** 2 + y ** 2 < r ** 2, 0, f), s.image_plane_field), r
''')

s("p12-complex-window", "P12",
  [(SL, "        if window is not None:\n            target_profile_fp = target_profile_fp * window\n\n        phase_in", "        phase_in"),
   (SL, "        amp_out = tf.math.abs(target_profile_fp)\n", "        amp_out = tf.math.abs(target_profile_fp)\n        if window is not None:\n            amp_out = amp_out * tf.math.abs(window)\n")],
  "a window with negative or complex values", "the phase of the window is ignored",
  '''
import pySLM2
d = pySLM2.DMD(1e-6, 0.1, 4, 0.3, 8, 6, 1e-5)
x, y = d.fourier_plane_grid
t = np.zeros((6, 8)); t[3, 5] = 1.0; t[2, 4] = 0.5
w = np.exp(1j * x / 1e-5)
e1 = d.calculate_dmd_state(1.0, t, method="ideal", window=w)
a = d.dmd_state
e2 = d.calculate_dmd_state(1.0, t, method="ideal", window=1.0)
b = d.dmd_state
f = np.fft.fftshift(np.fft.fft2(np.fft.ifftshift(t))) * w
g = 2 * np.pi / 4e-5 * (np.cos(0.3) * x + np.sin(0.3) * y)
want = abs(f) / abs(f).max() * (1 + np.cos(g - np.angle(f))) / 2
assert np.allclose(a, want, atol=1e-3)
assert not np.allclose(a, b, atol=1e-2)
''')

s("p13-zero-steepness", "P13",
  [(LI, "        r = kwargs.get(\"r\", 10.0)\n", "        r = kwargs.get(\"r\") or 10.0\n")],
  "steepness r=0", "r=0 (never on) is taken for the default steepness",
  '''
import pySLM2
d = pySLM2.DMD(1e-6, 0.1, 4, 0.3, 16, 12, 1e-5)
d.set_dmd_grating_state(method="random", r=10)
assert d.dmd_state.any()
d.set_dmd_grating_state(method="random", r=0)
assert not d.dmd_state.any()
''')

s("p13-shared-draws", "P13",
  [(LI, "    threshold = tf.random.uniform(shape=grating.shape, dtype=BACKEND.dtype)\n", "    threshold = tf.random.uniform(shape=grating.shape[:1] + [1], dtype=BACKEND.dtype)\n")],
  "looking at correlations between the pixels of one row", "all pixels of a row share one draw instead of their own",
  '''
import pySLM2
d = pySLM2.DMD(1e-6, 0.1, 1, 0.0, 64, 48, 1e-5)
n = 0
for _ in range(20):
    d.set_dmd_grating_state(amp=1.0, phase_in=0.0, phase_out=np.pi / 2, method="random", r=3)
    n += sum(1 for row in d.dmd_state if 0 < row.sum() < 64)
assert n > 300, n
''')

s("p14-weak-input", "P14",
  [(LI, "    mask = input_profile == 0.0\n", "    mask = tf.math.abs(input_profile) < 1e-4\n")],
  "an input beam given in small units (amplitude below 1e-4)", "the whole DMD stays off for weak inputs",
  '''
import pySLM2
d = pySLM2.DMD(1e-6, 0.1, 4, 0.3, 16, 12, 1e-5)
t = np.zeros((12, 16)); t[6, 8] = 1.0
for a in (1.0, 1e-6):
    d.calculate_dmd_state(a, t, method="ifta", N=5, signal_window=1.0)
    assert d.dmd_state.any(), a
''')

s("p15-small-fields", "P15",
  [(LI, "        profile_corrected = target_amp_profile * tf.exp(1j * profile_angle)\n        phase_profile", "        # The phase of dark points is undefined\n        profile_angle = tf.where(tf.math.abs(image_plane_profile) < 1e-3, tf.zeros_like(profile_angle), profile_angle)\n        profile_corrected = target_amp_profile * tf.exp(1j * profile_angle)\n        phase_profile")],
  "a weak input beam (image-plane amplitudes below 1e-3 in FFT units)", "the phases of the image field are discarded, so iterations no longer converge and the error can increase",
  '''
import pySLM2, tensorflow as tf
d = pySLM2.LCOS_SLM(1e-6, 0.1, 16, 12, 1e-5)
x, y = d.image_plane_grid
t = np.exp(-(x ** 2 + y ** 2) / (1e-3) ** 2) + 0.3
s = pySLM2.SLMSimulation(d)
def state(a):
    tf.random.set_seed(3)
    d.calculate_hologram(a, t, method="gs", N=12)
    return d.slm_state
a, b = state(1.0), state(1e-5)
assert np.abs(np.exp(1j * a) - np.exp(1j * b)).max() < 0.05, np.abs(np.exp(1j * a) - np.exp(1j * b)).max()
''')

s("p16-soft-window", "P16",
  [(LI, "    inverse_signal_window = 1 - signal_window\n", "    inverse_signal_window = tf.cast(signal_window == 0, dtype=BACKEND.dtype_complex)\n")],
  "a signal window with soft edges (values strictly between 0 and 1)", "the field at the window's soft edge loses its freedom (weight 0 instead of 1 - window)",
  '''
import pySLM2, tensorflow as tf
d = pySLM2.LCOS_SLM(1e-6, 0.1, 8, 6, 1e-5)
t = np.zeros((6, 8)); t[3, 4] = 2.0; t[1, 2] = 1.0
w = np.full((6, 8), 0.25); w[2:4, 3:6] = 1.0
def ref(phi, u, t, w, m, N):
    for _ in range(N):
        f = np.fft.ifft2(u * np.exp(1j * phi))
        g = m * np.fft.ifftshift(t * w) * np.exp(1j * np.angle(f)) + (1 - m) * f * np.fft.ifftshift(1 - w)
        phi = np.angle(np.fft.fft2(g))
    return phi
tf.random.set_seed(5)
d.calculate_hologram(1.0, t, method="mraf", signal_window=w, N=0)
phi = d.slm_state
tf.random.set_seed(5)
d.calculate_hologram(1.0, t, method="mraf", signal_window=w, N=1)
assert np.abs(np.exp(1j * d.slm_state) - np.exp(1j * ref(phi, 1.0, t, w, 0.4, 1))).max() < 1e-2
''')

s("p17-reused-frame", "P17",
  [(SL, "        \"\"\" Reset dmd_state to be an array (Ny, Nx) of zeros.\"\"\"\n        self.dmd_state = np.zeros((self.Ny, self.Nx), dtype=bool)\n", "        \"\"\" Reset dmd_state to be an array (Ny, Nx) of zeros.\"\"\"\n        self.dmd_state = np.zeros_like(self.dmd_state)\n")],
  "set_dmd_state_off after an ideal (gray) hologram", "the state stays a float array, which cannot be packed any more",
  '''
import pySLM2
d = pySLM2.DMD(1e-6, 0.1, 4, 0.3, 8, 6, 1e-5)
d.set_dmd_grating_state(method="ideal")
d.set_dmd_state_off()
assert d.dmd_state.dtype == bool and not d.dmd_state.any() and d.dmd_state.shape == (6, 8)
assert d.pack_dmd_state() == bytes(6)
''')

s("p17-patch-phase", "P17",
  [(SL, "        amp = self.profile_to_tensor(amp)\n        phase_in = self.profile_to_tensor(phase_in)\n        phase_out = self.profile_to_tensor(phase_out)\n\n        i, j, d", "        amp = self.profile_to_tensor(amp)\n        phase_in = self.profile_to_tensor(phase_in)\n        phase_out = self.profile_to_tensor(phase_out)\n        if self.negative_order:\n            phase_in, phase_out = -phase_in, -phase_out\n\n        i, j, d")],
  "a patch on a device that uses the negative order", "the phases of a patch are negated twice for the negative order",
  '''
import pySLM2
for neg in (False, True):
    d = pySLM2.DMD(1e-6, 0.1, 4, 0.3, 8, 6, 1e-5, negative_order=neg)
    d.set_dmd_grating_state(amp=1, phase_in=0.2, phase_out=0.9, method="ideal")
    a = d.dmd_state
    d.set_dmd_state_off()
    d.circular_patch(3, 4, 1, 0.2, 0.9, 100, method="ideal")
    assert np.allclose(a, d.dmd_state, atol=1e-4), neg
''')

s("p18-row-padding", "P18",
  [(SL, "        packed_bits = np.packbits(self.dmd_state)\n", "        packed_bits = np.packbits(self.dmd_state, axis=1)\n")],
  "a device whose width is not a multiple of 8", "every row is padded to whole bytes",
  '''
import pySLM2
for nx, ny in ((8, 3), (10, 4), (5, 5)):
    d = pySLM2.DMD(1e-6, 0.1, 4, 0.3, nx, ny, 1e-5)
    d.dmd_state = (np.arange(nx * ny).reshape(ny, nx) % 3) == 0
    assert d.pack_dmd_state() == np.packbits(d.dmd_state.ravel()).tobytes(), (nx, ny)
''')

s("p19-late-lock", "P19",
  [(BE, "    def dtype_int(self):\n        self._initialized = True\n", "    def dtype_int(self):\n")],
  "building something that only asks for the integer type first, then changing the precision", "the precision can still be changed after the integer type has been handed out",
  '''
from pySLM2 import BACKEND
import tensorflow as tf
i = BACKEND.dtype_int
try:
    BACKEND.dtype = tf.float64
except AssertionError:
    pass
else:
    raise SystemExit("precision changed after use")
assert BACKEND.dtype_int == i
''')

s("p20-ifft-by-conjugation", "P20",
  [(LI, "        return tf.signal.ifft2d(profile_tensor)", "        # one FFT plan for both directions\n        n = tf.cast(tf.shape(profile_tensor)[-1], profile_tensor.dtype)\n        return tf.math.conj(tf.signal.fft2d(tf.math.conj(profile_tensor))) / (n * n)")],
  "the TensorFlow engine on a frame that is not square", "the inverse transform is wrongly normalized under the TensorFlow engine",
  '''
import pySLM2
from pySLM2 import BACKEND
for nx, ny in ((4, 4), (6, 4)):
    s = pySLM2.SLMSimulation(pySLM2.LCOS_SLM(1e-6, 0.1, nx, ny, 1e-5))
    out = []
    for e in (BACKEND.FFT_BACKEND_NUMPY, BACKEND.FFT_BACKEND_TENSORFLOW):
        BACKEND.fft_backend = e
        s.propagate_to_image(1.0)
        out.append(s.image_plane_field)
    assert np.allclose(out[0], out[1], rtol=1e-4, atol=1e-6), (nx, ny)
''')

ALP = '''
import sys, types
log = []
class Dev:
    def __init__(self, version=None):
        self._lastDDRseq, self.seqs, self.n, self.mode, self.inv, self.alive = None, {}, 0, None, 0, False
        self.fail = None
    def _op(self, name):
        log.append(name)
        if self.fail == name: raise RuntimeError("device error in " + name)
    def Initialize(self, *a): self._op("Initialize"); self.alive = True; self.mode = "master"; self.inv = 0
    def Halt(self): self._op("Halt"); self.running = None
    def Free(self): self._op("Free"); self.alive = False; self.seqs = {}; self._lastDDRseq = None
    def FreeSeq(self, *a): self._op("FreeSeq"); del self.seqs[self._lastDDRseq]; self._lastDDRseq = max(self.seqs) if self.seqs else None
    def SeqAlloc(self, nbImg=1, bitDepth=1): self._op("SeqAlloc"); self.n += 1; self.seqs[self.n] = [nbImg, None]; self._lastDDRseq = self.n; return self.n
    def SeqPut(self, imgData, **k): self._op("SeqPut"); self.seqs[self._lastDDRseq][1] = np.array(imgData).ravel().copy()
    def SeqControl(self, *a, **k): self._op("SeqControl")
    def DevControl(self, *a, **k): self._op("DevControl")
    def SeqInquire(self, *a, **k): return 100
    def SetTiming(self, *a, **k): self._op("SetTiming")
    def ProjControl(self, c, v, *a):
        self._op("ProjControl")
        if c == 2300: self.mode = {2301: "master", 2302: "slave"}[v]
        if c == 2306: self.inv = v
    def Run(self, *a, **k): self._op("Run"); self.running = self._lastDDRseq
    def DevInquire(self, c): return {2057: 4, 2058: 2}.get(c, 0)
alp = types.ModuleType("ALP4")
alp.ALP4 = Dev
for k, v in dict(ALP_PROJ_MODE=2300, ALP_MASTER=2301, ALP_SLAVE=2302, ALP_PROJ_INVERSION=2306, ALP_ENABLE=1, ALP_DEFAULT=0, ALP_DEV_DISPLAY_HEIGHT=2058, ALP_DEV_DISPLAY_WIDTH=2057, ALP_BIN_MODE=2104, ALP_BIN_UNINTERRUPTED=2106, ALP_TRIGGER_EDGE=2005, ALP_EDGE_RISING=2009, ALP_MIN_PICTURE_TIME=2211).items(): setattr(alp, k, v)
sys.modules["ALP4"] = alp
from pySLM2.util.controller import ALPController
A, B, C = (np.array([[1, 0, 0, 1], [0, 0, 1, 0]], bool), np.ones((2, 4), bool), np.zeros((2, 4), bool))
def shown(c):
    return c.alp.seqs[c.alp.running][1].reshape(-1, 2, 4) > 0
'''
s("p21-skip-upload", "P21",
  [(CO, "            The dtype must be bool and have the same dimension as the DMD.\n        \"\"\"\n        # Prepare the dmd in available state\n        self.alp.Halt()\n\n        # Set to master mode",
    "            The dtype must be bool and have the same dimension as the DMD.\n        \"\"\"\n        # Nothing to do if the device shows this frame already\n        if np.array_equal(getattr(self, \"_shown\", None), dmd_state):\n            return\n        self._shown = np.array(dmd_state)\n\n        # Prepare the dmd in available state\n        self.alp.Halt()\n\n        # Set to master mode")],
  "load_single(A), load_multiple([B, C]), load_single(A)", "the second load of A is skipped although the device runs B, C",
  ALP + '''
c = ALPController(); c.initialize()
c.load_single(A)
assert np.array_equal(shown(c), [A])
c.load_multiple([B, C])
assert np.array_equal(shown(c), [B, C])
c.load_single(A)
assert np.array_equal(shown(c), [A])
''')

s("p21-close-invert", "P21",
  [(CO, "        self.alp.Initialize()\n        if self.invert:\n", "        self.alp.Initialize()\n        if self.invert and not hasattr(self, \"_configured\"):\n            self._configured = True\n")],
  "an inverting controller that is closed and initialized again", "the inversion is only configured in the first session",
  ALP + '''
c = ALPController(invert=True)
for _ in range(2):
    c.initialize()
    c.load_single(A)
    assert c.alp.inv == 1 and np.array_equal(shown(c), [A])
    c.close()
''')

s("p21-trigger-edge", "P21",
  [(CO, "        # Set to slave mode\n        self.alp.ProjControl(ALP4.ALP_PROJ_MODE, ALP4.ALP_SLAVE)\n\n        # Set the trigger edge to be rising\n        self.alp.DevControl(ALP4.ALP_TRIGGER_EDGE, ALP4.ALP_EDGE_RISING)\n", "        # Configure the trigger input once\n        if getattr(self, \"_trigger_device\", None) is not self.alp:\n            self._trigger_device = self.alp\n            # Set to slave mode\n            self.alp.ProjControl(ALP4.ALP_PROJ_MODE, ALP4.ALP_SLAVE)\n\n            # Set the trigger edge to be rising\n            self.alp.DevControl(ALP4.ALP_TRIGGER_EDGE, ALP4.ALP_EDGE_RISING)\n")],
  "load_multiple, load_single, load_multiple", "the second list free-runs: the device was left in master mode by load_single",
  ALP + '''
c = ALPController(); c.initialize()
c.load_multiple([A, B]); assert c.alp.mode == "slave"
c.load_single(C); assert c.alp.mode == "master"
c.load_multiple([B, A]); assert c.alp.mode == "slave"
''')

LUX = '''
import sys, types
log = []
class Dev:
    rows, cols = 2, 4
    def __init__(self, ip, inverse=False, timeout=None): self.regs, self.mem, self.run, self.reset, self.fail, self.sync = {}, {}, False, False, None, []
    def _op(self, *a):
        log.append(a)
        if self.fail == a[0]: raise OSError("device error in " + a[0])
    def set_sequencer_state(self, c, v): self._op("state", c, v); setattr(self, {1: "run", 2: "reset"}[c], bool(v))
    def load_sequence(self, s): self._op("seq", s)
    def set_sequencer_reg(self, reg_no, reg_val): self._op("reg", reg_no, reg_val); self.regs[reg_no] = reg_val
    def load_image(self, i, a): self._op("image", i); self.mem[i] = np.array(a).copy()
    def set_software_sync(self, v): self._op("sync", v); self.sync.append(v)
class Seq:
    def assign_var_reg(self, regno=0): return regno
    def jump_loop_iter(self): yield 0
    def range_loop_iter(self, a, b): yield 0, 0
    def load_global(self, *a): pass
    def reset_global(self, *a): pass
    def trig(self, *a): pass
    def dumps(self): return "prog"
lux = types.ModuleType("Luxbeam")
lux.Luxbeam, lux.LuxbeamSequencer = Dev, Seq
for k, v in dict(SEQ_CMD_RUN=1, SEQ_CMD_RESET=2, DISABLE=0, ENABLE=1, TRIG_MODE_POSITIVE_EDGE=1, TRIG_SOURCE_SOFTWARE=1, TRIG_SOURCE_ELECTRICAL=2, TRIG_SOURCE_OPTICAL=4).items(): setattr(lux, k, v)
sys.modules["Luxbeam"] = lux
from pySLM2.util.controller import LuxbeamController
A, B, C = (np.array([[1, 0, 0, 1], [0, 0, 1, 0]], bool), np.ones((2, 4), bool), np.zeros((2, 4), bool))
def shown(c):
    assert c.luxbeam.run and not c.luxbeam.reset
    return [c.luxbeam.mem[i] for i in range(c.luxbeam.regs[0])]
'''
s("p22-register-cache", "P22",
  [(CO, "        N = len(dmd_states)\n        self.luxbeam.set_sequencer_reg(reg_no=0, reg_val=N)\n", "        N = len(dmd_states)\n        if N != getattr(self, \"_number_of_images\", 1):\n            self.luxbeam.set_sequencer_reg(reg_no=0, reg_val=N)\n            self._number_of_images = N\n")],
  "load_multiple of n frames, load_single, load_multiple of n frames", "the sequencer keeps looping over one frame",
  LUX + '''
c = LuxbeamController("1.2.3.4"); c.initialize()
c.load_multiple([A, B]); assert np.array_equal(shown(c), [A, B])
c.load_single(C); assert np.array_equal(shown(c), [C])
c.load_multiple([B, A]); assert np.array_equal(shown(c), [B, A])
''')

s("p22-same-object", "P22",
  [(CO, "        for i, dmd_state in enumerate(dmd_states):\n            self.luxbeam.load_image(i, dmd_state)\n", "        loaded = getattr(self, \"_loaded\", {})\n        for i, dmd_state in enumerate(dmd_states):\n            if loaded.get(i) is not dmd_state:\n                self.luxbeam.load_image(i, dmd_state)\n                loaded[i] = dmd_state\n        self._loaded = loaded\n")],
  "loading the same array object again after its pixels (or slot 0) changed", "frames already uploaded as the same object are not sent again",
  LUX + '''
c = LuxbeamController("1.2.3.4"); c.initialize()
a = A.copy()
c.load_multiple([a, B]); assert np.array_equal(shown(c), [A, B])
a[...] = C
c.load_multiple([a, B]); assert np.array_equal(shown(c), [C, B])
c.load_single(A)
c.load_multiple([a, B]); assert np.array_equal(shown(c), [C, B])
''')

s("p23-early-flag", "P23",
  [(CO, "        self.luxbeam.set_sequencer_state(Luxbeam.SEQ_CMD_RUN, Luxbeam.DISABLE)\n        self.luxbeam.set_sequencer_state(Luxbeam.SEQ_CMD_RESET, Luxbeam.ENABLE)\n        self.luxbeam.load_sequence(seq.dumps())\n", "        super(LuxbeamController, self).initialize()\n        self.luxbeam.set_sequencer_state(Luxbeam.SEQ_CMD_RUN, Luxbeam.DISABLE)\n        self.luxbeam.set_sequencer_state(Luxbeam.SEQ_CMD_RESET, Luxbeam.ENABLE)\n        self.luxbeam.load_sequence(seq.dumps())\n"),
   (CO, "        self.luxbeam.set_sequencer_state(Luxbeam.SEQ_CMD_RESET, Luxbeam.DISABLE)\n\n        super(LuxbeamController, self).initialize()\n", "        self.luxbeam.set_sequencer_state(Luxbeam.SEQ_CMD_RESET, Luxbeam.DISABLE)\n")],
  "a device error during initialize (e.g. network failure while uploading the sequence)", "the controller claims to be initialized and accepts loads after a failed initialization",
  LUX + '''
c = LuxbeamController("1.2.3.4")
c.luxbeam.fail = "seq"
try: c.initialize()
except OSError: pass
assert not c.is_initialized()
c.luxbeam.fail = None
n = len(log)
try: c.load_single(A)
except Exception: pass
else: raise SystemExit("load accepted")
assert len(log) == n
''')

s("p23-swallowed-error", "P23",
  [(CO, "        return function(*args, **kwargs)\n", "        try:\n            return function(*args, **kwargs)\n        except OSError:\n            # The network socket may have timed out: reset the controller and try once more.\n            controller.initialize()\n            return function(*args, **kwargs) if controller.invert else None\n")],
  "an I/O error (OSError) of the device during a load", "the error is swallowed and the caller believes the frame is on the device",
  LUX + '''
c = LuxbeamController("1.2.3.4"); c.initialize()
c.load_single(A)
c.luxbeam.fail = "image"
try: c.load_single(B)
except OSError: pass
else: raise SystemExit("error swallowed")
''')

s("p24-inplace-removal", "P24",
  [(AN, "        profile = profile - c * z\n    return profile\n", "        profile -= c * z\n    return profile\n")],
  "using the phase map again after remove_trivial_phase", "the caller's array is modified in place",
  '''
from pySLM2.analysis import remove_trivial_phase
p = np.sin(np.arange(120.0)).reshape(10, 12)
q = p.copy()
remove_trivial_phase(p, 4.0)
assert np.array_equal(p, q)
''')

s("p24-kwargs-popped", "P24",
  [(SL, "        if method == \"ifta\":\n            kwargs[\"input_profile\"] = input_profile\n", "        if isinstance(window, np.ndarray) and window.dtype == np.complex128 and abs(window).max() > 1:\n            window /= abs(window).max()\n\n        if method == \"ifta\":\n            kwargs[\"input_profile\"] = input_profile\n"),
   (SL, "            window = self.profile_to_tensor(window, complex=True)\n\n        amp_scaled", "            window_tensor = self.profile_to_tensor(window, complex=True)\n        else:\n            window_tensor = None\n\n        amp_scaled"),
   (SL, "                                                                                window=window)\n", "                                                                                window=window_tensor)\n")],
  "a complex window array with values above 1", "the caller's window array is normalized in place",
  '''
import pySLM2
d = pySLM2.DMD(1e-6, 0.1, 4, 0.3, 8, 6, 1e-5)
w = np.full((6, 8), 2.0 + 1j); w0 = w.copy()
t = np.zeros((6, 8)); t[3, 5] = 1.0
d.calculate_dmd_state(1.0, t, method="ideal", window=w)
assert np.array_equal(w, w0)
''')

s("p25-truncated-number", "P25",
  [(SA, "    draw.text((0, Ny // 4), str(i), (1), font=fnt_default, align='center')\n", "    draw.text((0, Ny // 4), str(i)[:8], (1), font=fnt_default, align='center')\n")],
  "a number of more than 8 characters that fits the frame", "long numbers are cut although they fit, so different numbers look alike",
  '''
from pySLM2.util.sample import number_image
assert not np.array_equal(number_image(123456781, 1000, 64), number_image(123456782, 1000, 64))
''')

s("p15-real-beam", "P15",
  [(LI, "        modulated_profile = input_profile * tf.exp(1j * phase_profile)\n        image_plane_profile = _inverse_fourier_transform(modulated_profile)\n        profile_angle = tf.math.angle(image_plane_profile)\n        profile_angle = tf.cast(profile_angle, dtype=BACKEND.dtype_complex)\n        profile_corrected = target_amp_profile * tf.exp(1j * profile_angle)\n",
    "        modulated_profile = tf.cast(tf.math.real(input_profile), dtype=BACKEND.dtype_complex) * tf.exp(1j * phase_profile)\n        image_plane_profile = _inverse_fourier_transform(modulated_profile)\n        profile_angle = tf.math.angle(image_plane_profile)\n        profile_angle = tf.cast(profile_angle, dtype=BACKEND.dtype_complex)\n        profile_corrected = target_amp_profile * tf.exp(1j * profile_angle)\n"),],
  "a complex input beam and a target with several points", "the gs iterations see the real part of the input instead of the beam itself",
  '''
import pySLM2, tensorflow as tf
d = pySLM2.LCOS_SLM(1e-6, 0.1, 8, 6, 1e-5)
x, y = d.fourier_plane_grid
u = np.exp(1j * (x + 2 * y) / 2e-5)
t = np.zeros((6, 8)); t[3, 4] = 2.0; t[1, 2] = 1.0; t[4, 6] = 1.5
tf.random.set_seed(5)
d.calculate_hologram(u, t, method="gs", N=0)
phi = d.slm_state
tf.random.set_seed(5)
d.calculate_hologram(u, t, method="gs", N=1)
f = np.fft.ifft2(u * np.exp(1j * phi))
want = np.fft.fft2(np.fft.ifftshift(t) * np.exp(1j * np.angle(f))) / u
assert np.abs(np.exp(1j * d.slm_state) - want / abs(want)).max() < 1e-2
''')

s("p04-laguerre-log", "P04",
  [(PR, "        amplitude = self._a * (math.sqrt(2) * r / self._w) ** (abs(self._l)) * tf.exp(\n            -r2 / self._w ** 2) * Lpl\n", "        # one exponential instead of a power and an exponential\n        amplitude = self._a * tf.exp(abs(self._l) * tf.math.log(math.sqrt(2) * r / self._w) - r2 / self._w ** 2) * Lpl\n")],
  "a Laguerre-Gaussian beam without vortex (l = 0) sampled exactly at its centre", "0 * log(0) makes the brightest point of the beam NaN",
  '''
import pySLM2
x = np.array([[0.0, 0.5, -0.5]]); y = np.array([[0.0, 0.5, 0.25]])
for l, p in ((0, 0), (0, 1), (1, 0), (-2, 1)):
    f = pySLM2.LaguerreGaussian(0, 0, 1.5, 1, l=l, p=p)(x, y)
    assert np.isfinite(f).all(), (l, p, f)
    assert abs(f[0, 0] - (1.5 if l == 0 else 0)) < 1e-5
''')

s("p05-ansi-float32", "P05",
  [(AN, "    n = int(np.ceil((-3 + np.sqrt(9 + 8*idx))/2))\n", "    n = int(np.ceil((-3 + np.sqrt(np.float32(9 + 8*idx)))/2))\n")],
  "a large index (radial order above about 1400) next to a row boundary", "the row is computed in single precision and is off by one at the boundary",
  '''
from pySLM2.analysis import ansi_j_to_n_m
for n in range(5000):
    j = n * (n + 1) // 2
    assert ansi_j_to_n_m(j) == (n, -n) and ansi_j_to_n_m(j + n) == (n, n), n
''')

s("p06-swapped-size", "P06",
  [(AN, "    Ny, Nx = profile.shape\n    xx, yy = np.meshgrid(np.arange(Nx) - (Nx-1) / 2, np.arange(Ny, 0, -1) - (Ny+1) / 2)\n\n    aperture = xx ** 2 + yy ** 2 < radius ** 2\n\n    coefficients", "    Ny, Nx = profile.shape\n    xx, yy = np.meshgrid(np.arange(Nx) - (Nx-1) / 2, np.arange(Ny, 0, -1) - (Ny+1) / 2)\n    radius = min(radius, np.hypot(Nx, Ny) / 2)\n\n    aperture = xx ** 2 + yy ** 2 < radius ** 2\n\n    coefficients")],
  "an aperture larger than the map", "the radius that normalizes the terms is clipped to the map's size",
  '''
from pySLM2.analysis import zernike_decomposition
from pySLM2.profile import Zernike
yy, xx = np.mgrid[:8, :10]
xx, yy = xx - 4.5, 3.5 - yy
p = np.sin(xx + 2 * yy)
c = zernike_decomposition(p, 12.0, 6)
for k, (n, m) in enumerate(((0, 0), (1, -1), (1, 1), (2, -2), (2, 0), (2, 2))):
    assert abs(c[k] - np.mean(p * Zernike(1, 12.0, n, m)(xx, yy))) < 1e-5, k
''')

s("p06-defocus-aperture", "P06",
  [(AN, "    trivial_terms = [(0, 0), (1, -1), (1, 1)]\n\n    if remove_defocus:\n        trivial_terms.append((2, 0))\n\n    aperture", "    trivial_terms = [(0, 0), (1, -1), (1, 1)]\n\n    if remove_defocus:\n        # piston and defocus are not orthogonal on a pixelated aperture: start with the defocus\n        trivial_terms.insert(0, (2, 0))\n\n    aperture")],
  "remove_defocus=True on a coarse map, where piston and defocus are not exactly orthogonal", "the terms are removed in another order, which leaves another residual",
  '''
from pySLM2.analysis import remove_trivial_phase
from pySLM2.profile import Zernike
yy, xx = np.mgrid[:7, :8]
xx, yy = xx - 3.5, 3.0 - yy
p = np.sin(xx + 2 * yy) + 3.0 + 0.2 * xx ** 2
q = p.copy()
ap = xx ** 2 + yy ** 2 < 3.4 ** 2
for n, m in ((0, 0), (1, -1), (1, 1), (2, 0)):
    z = Zernike(1, 3.4, n, m)(xx, yy)
    q = q - np.mean(q[ap] * z[ap]) * z
r = remove_trivial_phase(p, 3.4, remove_defocus=True)
assert np.abs(r - q).max() < 1e-3, np.abs(r - q).max()
''')

s("p07-shared-arrays", "P07",
  [(SI, "        x, y = self._image_plane_padded_grid()\n        return np.array(x), np.array(y)\n", "        return self._image_plane_padded_arrays()\n\n    @lru_cache()\n    def _image_plane_padded_arrays(self):\n        x, y = self._image_plane_padded_grid()\n        return np.array(x), np.array(y)\n")],
  "a caller that scales the returned grid in place (e.g. to micrometres) and asks again", "the grid returned later is the caller's modified one",
  '''
import pySLM2
s = pySLM2.SLMSimulation(pySLM2.LCOS_SLM(1e-6, 0.1, 6, 4, 1e-5), padding_x=1, padding_y=2)
x, y = s.image_plane_padded_grid
x0 = x.copy()
x *= 1e6
assert np.array_equal(s.image_plane_padded_grid[0], x0)
''')

s("p09-real-input", "P09",
  [(SI, "        input_profile = self._slm.profile_to_tensor(input_profile, complex=True)\n", "        input_profile = self._slm.profile_to_tensor(input_profile, complex=True)\n        if self._padding_x and self._padding_y:\n            # light that misses the device on the padded plane starts from the device's edge\n            input_profile = tf.where(tf.math.abs(input_profile) < 1e-6 * tf.math.reduce_max(tf.math.abs(input_profile)), tf.zeros_like(input_profile), input_profile)\n")],
  "an input with more than six decades of dynamic range, padded in both directions", "very dim pixels of the input are dropped",
  '''
import pySLM2
d = pySLM2.LCOS_SLM(1e-6, 0.1, 6, 4, 1e-5)
u = np.full((4, 6), 1e-8); u[2, 3] = 1.0
s = pySLM2.SLMSimulation(d, padding_x=1, padding_y=1)
s.propagate_to_image(u)
assert np.allclose(np.abs(s.input_field[1:-1, 1:-1]), u, rtol=1e-4, atol=0)
''')

s("p12-eta-window", "P12",
  [(SL, "        one_over_eta_fft = tf.math.reduce_max(amp_scaled)\n        amp_scaled = amp_scaled / one_over_eta_fft\n", "        one_over_eta_fft = tf.math.reduce_max(tf.where(amp_in > 1e-3, amp_scaled, tf.zeros_like(amp_scaled)))\n        amp_scaled = tf.minimum(amp_scaled / one_over_eta_fft, 1.0)\n")],
  "an input beam weaker than 1e-3 where the target needs most light", "dim pixels are left out of the normalization, so the state clips instead of scaling",
  '''
import pySLM2
d = pySLM2.DMD(1e-6, 0.1, 4, 0.3, 8, 6, 1e-5)
t = np.zeros((6, 8)); t[3, 4] = 1.0
x, y = d.fourier_plane_grid
u = np.exp(-(x ** 2 + y ** 2) / (3e-5) ** 2)
for a in (1.0, 1e-2):
    e = d.calculate_dmd_state(u * a, t, method="ideal")
    if a == 1.0: e0, s0 = e, d.dmd_state
assert np.isclose(e, e0 * 1e-2, rtol=1e-3), (e, e0)
assert np.allclose(d.dmd_state, s0, atol=1e-4)
''')

s("p14-soft-window", "P14",
  [(LI, "    return (profile_ideal - profile) * signal_window + profile\n", "    return tf.where(tf.math.real(signal_window) > 0.5, profile_ideal, profile)\n")],
  "a signal window with values between 0 and 1 (apodized)", "the weights of the signal window are rounded to 0 or 1",
  '''
from pySLM2 import BACKEND
import tensorflow as tf
BACKEND.dtype = tf.float64
import pySLM2
d = pySLM2.DMD(1e-6, 0.1, 3.3, 0.4, 16, 12, 1e-5)
x, y = d.fourier_plane_grid
X, Y = d.image_plane_grid
u = (1.2 + np.sin(x / 2e-5 + y / 1e-5)) * np.exp(1j * np.cos(y / 2e-5))
t = np.exp(-(X ** 2 + (Y - 1e-3) ** 2) / (1.5e-3) ** 2) * np.exp(2j * X / 1e-3)
w = 0.5 + 0.4 * np.sin(X / 1e-3) * np.cos(Y / 1e-3)
N = 8
d.calculate_dmd_state(u, t, method="ideal")
g = g0 = d.dmd_state.copy()
ideal = np.fft.ifft2(u * g0)
for k in range(1, N + 1):
    th = k * 0.5 / N
    b = np.where(g > 1 - th, 1.0, np.where(g < th, 0.0, g))
    f = np.fft.ifft2(u * b)
    g = np.real(np.fft.fft2((ideal - f) * np.fft.ifftshift(w) + f) / u)
d.calculate_dmd_state(u, t, method="ifta", N=N, signal_window=w)
assert (d.dmd_state != (g > 0.5)).sum() <= 1, (d.dmd_state != (g > 0.5)).sum()
''')

s("p19-window-precision", "P19",
  [(WI, "        return tf.cast((x - self._x0) ** 2 + (y - self._y0) ** 2 <= self._r ** 2, BACKEND.dtype)\n", "        return tf.cast((x - self._x0) ** 2 + (y - self._y0) ** 2 <= self._r ** 2, tf.float32)\n")],
  "64 bit precision and a circular window", "a circular window is single precision in 64 bit mode and cannot be combined with other profiles",
  '''
from pySLM2 import BACKEND
import tensorflow as tf
BACKEND.dtype = tf.float64
import pySLM2
w = pySLM2.RectangularWindowCircular(0, 0, 1)
assert w(np.zeros((2, 2)), np.zeros((2, 2))).dtype == np.float64
''')

s("p27-dtype-fallback", "P27",
  [(BE, "        if not (value == tf.float32 or value == tf.float64):\n            raise ValueError()\n", "        if not (value == tf.float32 or value == tf.float64):\n            # Never run with a precision nobody chose: fall back to the default.\n            self._dtype = tf.float32\n            raise ValueError(\"dtype must be float32 or float64\")\n")],
  "the precision set to 64 bit, then a refused value before the first computation", "a refused precision silently returns the backend to 32 bit",
  '''
import tensorflow as tf, pySLM2
pySLM2.BACKEND.dtype = tf.float64
try: pySLM2.BACKEND.dtype = tf.float16
except ValueError: pass
else: raise SystemExit("accepted")
assert pySLM2.SuperGaussian(0, 0, 1, 1)(0.0, 0.0).dtype == np.float64
''')

s("p27-patch-cleared", "P27",
  [(SL, "        # TODO mask the array before passing them into the function\n        dmd_state = np.array(_lib.calculate_dmd_grating(amp, phase_in, phase_out, x, y, self._p, self._theta,\n                                                        method=method, negative_order=self.negative_order, **kwargs))\n",
    "        # TODO mask the array before passing them into the function\n        background = self.dmd_state\n        self.dmd_state = np.where(mask, background.dtype.type(0), background)\n        dmd_state = np.array(_lib.calculate_dmd_grating(amp, phase_in, phase_out, x, y, self._p, self._theta,\n                                                        method=method, negative_order=self.negative_order, **kwargs))\n")],
  "a patch on a lit frame whose method is refused after the mask was applied", "the refused patch leaves its disk dark",
  '''
import pySLM2
d = pySLM2.DMD(1e-6, 0.1, 4, 0.3, 8, 6, 1e-5)
d.set_dmd_state_on()
try: d.circular_patch(2, 3, 1, 0, 0, 4, method="best")
except ValueError: pass
assert d.dmd_state.all()
''')

s("p28-piston-shape", "P28",
  [(PR, "            Z_unnomalized = self._a * tf.ones_like(r)\n", "            Z_unnomalized = self._a * tf.ones_like(x)\n")],
  "an extrapolated piston sampled with coordinates of different shapes (a row and a column)", "the result has the shape of x instead of one value per point",
  '''
import pySLM2
z = pySLM2.Zernike(1.5, 2.0, 0, 0, extrapolate=True)
assert z(np.zeros((1, 4)), np.zeros((3, 1))).shape == (3, 4)
''')

s("p29-reset-in-place", "P29",
  [(SL, "    def reset_slm_state(self):\n        self.slm_state = np.zeros(shape=(self.Ny, self.Nx), dtype=complex)\n", "    def reset_slm_state(self):\n        self.slm_state[...] = 0\n")],
  "assigning a pattern the caller keeps (or that two devices share), then reset", "reset erases the assigned array itself",
  '''
import pySLM2
a, b = pySLM2.LCOS_SLM(1e-6, 0.1, 4, 3, 1e-5), pySLM2.LCOS_SLM(1e-6, 0.1, 4, 3, 1e-5)
p = np.arange(12.0).reshape(3, 4)
a.slm_state = p; b.slm_state = p
a.reset_slm_state()
assert not a.slm_state.any() and np.array_equal(b.slm_state, np.arange(12.0).reshape(3, 4))
''')

s("p09-state-cache", "P09",
  [(SL, "    def _state_tensor(self):\n        return tf.constant(self.dmd_state, dtype=BACKEND.dtype_complex)\n",
    "    def _state_tensor(self):\n        # The conversion is slow for large frames and most frames are propagated several times.\n        cached = getattr(self, \"_state_tensor_cache\", None)\n        if cached is None or cached[0] is not self.dmd_state:\n            cached = (self.dmd_state, tf.constant(self.dmd_state, dtype=BACKEND.dtype_complex))\n            self._state_tensor_cache = cached\n        return cached[1]\n")],
  "a frame that was propagated once and then edited in place", "the second propagation shows the frame before the edit",
  '''
import pySLM2
d = pySLM2.DMD(1e-6, 0.1, 4, 0.3, 8, 6, 1e-5)
s = pySLM2.DMDSimulation(d)
d.set_dmd_state_on()
s.propagate_to_image(1.0)
d.dmd_state[2:4, 3] = False
s.propagate_to_image(1.0)
assert np.array_equal(s.output_field != 0, d.dmd_state)
''')

s("p18-pack-cache", "P18",
  [(SL, "        packed_bits = np.packbits(self.dmd_state)\n\n        return packed_bits.tobytes()\n", "        cached = getattr(self, \"_packed\", None)\n        if cached is None or cached[0] is not self.dmd_state:\n            self._packed = cached = (self.dmd_state, np.packbits(self.dmd_state).tobytes())\n        return cached[1]\n")],
  "packing, editing mirrors of the frame in place, packing again", "the bytes of the frame before the edit are returned",
  '''
import pySLM2
d = pySLM2.DMD(1e-6, 0.1, 4, 0.3, 8, 6, 1e-5)
d.pack_dmd_state()
d.dmd_state[0, 0] = True
assert d.pack_dmd_state()[0] == 128
''')

s("p01-zero-shortcut", "P01",
  [(PR, NUM % "__mul__", (NUM % "__mul__").replace("            other = ConstantProfile(other)\n", "            if other == 0:\n                return ConstantProfile(0.0)\n            other = ConstantProfile(other)\n"))],
  "a complex profile (or a complex zero) multiplied by zero, used where the element type matters", "the product with zero is real although an operand is complex",
  '''
import pySLM2
p = pySLM2.SuperGaussian(0, 0, 1, 2).as_complex_profile() * 0
v = p(np.zeros((2, 3)), np.zeros((2, 3)))
assert v.shape == (2, 3) and not v.any() and np.iscomplexobj(v), v.dtype
''')

s("p01-int-power", "P01",
  [(PR, "        func_profile = FunctionProfile()\n        func_profile._func = self._make_attribute_func(\"__pow__\", power)\n        return func_profile\n",
    "        if isinstance(power, int) and power < 4:\n            # small integer powers are exact (and defined for negative values) as products\n            product = self\n            for _ in range(power - 1):\n                product = product * self\n            return product\n        func_profile = FunctionProfile()\n        func_profile._func = self._make_attribute_func(\"__pow__\", power)\n        return func_profile\n")],
  "an integer power of zero or below", "p ** 0 and p ** -1 are p itself",
  '''
import pySLM2
p = pySLM2.SuperGaussian(0, 0, 3.0, 2)
x = np.linspace(-1, 1, 5)
assert np.allclose((p ** 2)(x, x), p(x, x) ** 2, rtol=1e-4)
assert np.allclose((p ** -1)(x, x), 1 / p(x, x), rtol=1e-4)
assert np.allclose((p ** 0)(x, x), 1)
''')

s("p30-amplitude-floor", "P30",
  [(SL, "            amp_out / amp_in\n", "            amp_out / tf.maximum(amp_in, 1e-7)\n")],
  "an input beam whose amplitude is below 1e-7 in the user's units", "all pixels weaker than the floor are treated alike: the hologram does not flatten the beam and eta is wrong",
  '''
import pySLM2
d = pySLM2.DMD(1e-6, 0.1, 4, 0.3, 8, 6, 1e-5)
x, y = d.fourier_plane_grid
E = np.exp(-(x / 4e-5) ** 2)
T = np.zeros((6, 8)); T[2, 5] = 1
e1 = d.calculate_dmd_state(E, T, method="ideal"); a = d.dmd_state
e2 = d.calculate_dmd_state(E * 1e-9, T, method="ideal"); b = d.dmd_state
assert np.allclose(a, b, atol=1e-3), abs(a - b).max()
assert abs(e2 / e1 / 1e-9 - 1) < 1e-3
''')

s("p30-edge-tolerance", "P30",
  [(WI, "        return tf.cast((tf.abs(x - self._x0) < (self._wx / 2)), BACKEND.dtype) * \\\n                tf.cast((tf.abs(y - self._y0) < (self._wy / 2)), BACKEND.dtype)\n",
    "        # Do not let rounding of the coordinates decide about pixels on the rim.\n        tol = 1e-9\n        return tf.cast((tf.abs(x - self._x0) < (self._wx / 2 - tol)), BACKEND.dtype) * \\\n                tf.cast((tf.abs(y - self._y0) < (self._wy / 2 - tol)), BACKEND.dtype)\n")],
  "windows given in a unit in which their size is of the order of 1e-9 (or smaller)", "pixels inside the window are cut off",
  '''
import pySLM2
for L in (1.0, 1e-6, 1e-9):
    w = pySLM2.RectangularWindowRectangle(0.0, 0.0, 3 * L, 2 * L)
    assert w(np.array([0.0, 1.2 * L, 2 * L]), np.array([0.0, 0.9 * L, 0.0])).tolist() == [1, 1, 0], L
''')

s("p30-spectrum-noise", "P30",
  [(SL, "        phase_out = tf.where(\n            target_profile_fp == 0.0,\n", "        phase_out = tf.where(\n            amp_out < 1e-6,\n")],
  "a target whose amplitudes are of the order of 1e-7 or below", "the phase of the spectrum is dropped: the light goes to the origin instead of the target",
  '''
import pySLM2
d = pySLM2.DMD(1e-6, 0.1, 4, 0.3, 8, 6, 1e-5)
T = np.zeros((6, 8)); T[1, 6] = 1
d.calculate_dmd_state(1.0, T, method="ideal"); a = d.dmd_state
d.calculate_dmd_state(1.0, T * 1e-7, method="ideal"); b = d.dmd_state
assert np.allclose(a, b, atol=1e-3), abs(a - b).max()
''')

INTERLEAVE = '''
import pySLM2, sys, os, threading, tensorflow as tf
tf.config.run_functions_eagerly(True)
root = os.path.dirname(os.path.abspath(pySLM2.__file__)) + os.sep

def interleaved(first, second, k):
    """first, suspended at its k-th line of the package while second runs from beginning to end; also the number of lines."""
    n, out = [0], [None, None]
    def line(frame, event, arg):
        if event == "line":
            n[0] += 1
            if n[0] == k:
                t = threading.Thread(target=lambda: out.__setitem__(1, second()))
                t.start(); t.join()
        return line
    sys.settrace(lambda frame, event, arg: line if frame.f_code.co_filename.startswith(root) else None)
    try: out[0] = first()
    finally: sys.settrace(None)
    return out, n[0]

def explore(first, second):
    want = [first(), second()]
    n = interleaved(first, second, -1)[1]
    for k in range(1, n + 1):
        got = interleaved(first, second, k)[0]
        for g, w in zip(got, want):
            assert np.allclose(g, w, atol=1e-4), k
'''
s("p31-shared-work", "P31",
  [(SI, "        self._output_field = tf.pad(output_profile,\n                                   [[self._padding_y, self._padding_y], [self._padding_x, self._padding_x]])\n\n        _image_plane_field_unormalized = tf.signal.fftshift(\n            _lib._inverse_fourier_transform(tf.signal.ifftshift(self._output_field)))\n",
    "        self._output_field = tf.pad(output_profile,\n                                   [[self._padding_y, self._padding_y], [self._padding_x, self._padding_x]])\n\n        # One buffer for all simulations: padded fields are large and only needed until they are transformed.\n        SLMSimulation._work = tf.signal.ifftshift(self._output_field)\n        SLMSimulation._work = _lib._inverse_fourier_transform(SLMSimulation._work)\n        _image_plane_field_unormalized = tf.signal.fftshift(SLMSimulation._work)\n        SLMSimulation._work = None\n"),
   (SI, "    def __init__(self, slm: SLM, padding_x: int=0, padding_y: int=0):\n", "    _work = None\n\n    def __init__(self, slm: SLM, padding_x: int=0, padding_y: int=0):\n")],
  "two simulations propagating in two threads, the second one while the first is between two of its steps", "the first simulation gets the field of the other or fails",
  INTERLEAVE + '''
def sim(v):
    def f():
        d = pySLM2.DMD(1e-6, 0.1, 4, 0.3, 8, 6, 1e-5)
        d.dmd_state = np.arange(48).reshape(6, 8) % (3 + v) == 0
        s = pySLM2.DMDSimulation(d)
        s.propagate_to_image(1.0 + v)
        return s.image_plane_field * 1e8
    return f
explore(sim(0), sim(1))
''')

s("p31-order-mode", "P31",
  [(LI, "    negative_order = tf.constant(negative_order, dtype=tf.bool)\n",
    "    global _negative_order\n    _negative_order = tf.constant(negative_order, dtype=tf.bool)\n"),
   (LI, "def calculate_dmd_grating(amp,", "_negative_order = None\n\n\ndef calculate_dmd_grating(amp,"),
   (LI, "_calculate_dmd_grating_ideal(amp, phase_in, phase_out, x, y, p, theta, negative_order=negative_order)\n    elif", "_calculate_dmd_grating_ideal(amp, phase_in, phase_out, x, y, p, theta, negative_order=_negative_order)\n    elif"),
   (LI, "_calculate_dmd_grating_simple(amp, phase_in, phase_out, x, y, p, theta, negative_order=negative_order)\n    elif", "_calculate_dmd_grating_simple(amp, phase_in, phase_out, x, y, p, theta, negative_order=_negative_order)\n    elif"),
   (LI, "x, y, p, theta, negative_order=negative_order,\n                                             r=r)", "x, y, p, theta, negative_order=_negative_order,\n                                             r=r)"),
   (LI, "                                           negative_order=negative_order, N=N, s=s)", "                                           negative_order=_negative_order, N=N, s=s)")],
  "holograms for a positive- and a negative-order device computed in two threads", "one thread uses the order of the other",
  INTERLEAVE + '''
T = np.zeros((6, 8)); T[1, 6] = 1
def holo(neg):
    def f():
        d = pySLM2.DMD(1e-6, 0.1, 4, 0.3, 8, 6, 1e-5, negative_order=neg)
        d.calculate_dmd_state(np.exp(1j * np.arange(8.0)) * np.ones((6, 1)), T, method="ideal")
        return d.dmd_state
    return f
explore(holo(False), holo(True))
''')

s("p31-font-cache", "P31",
  [(SA, "    fnt_default = ImageFont.truetype(_font_path, size=Ny // 2)\n    draw.text((0, Ny // 4), str(i), (1), font=fnt_default, align='center')\n",
    "    global _font, _font_size\n    if _font_size != Ny // 2:\n        _font_size = Ny // 2\n        _font = ImageFont.truetype(_font_path, size=_font_size)\n    draw.text((0, Ny // 4), str(i), (1), font=_font, align='center')\n"),
   (SA, "def number_image(", "_font = _font_size = None\n\n\ndef number_image(")],
  "number images of two frame heights drawn in two threads, one suspended while it changes the font", "the digits have the size of the other frame",
  INTERLEAVE + '''
from pySLM2.util.sample import number_image
def im(n, Ny):
    return lambda: number_image(n, 60, Ny)
explore(im(17, 40), im(23, 24))
''')

s("p32-numpy-radius", "P32",
  [(SI, "        if r is None:\n", "        # a radius that is no number asks for the default\n        if not isinstance(r, (int, float)):\n")] ,
  "a blocking radius that is a single-precision NumPy number or a NumPy integer", "the default radius is blocked instead",
  '''
import pySLM2
d = pySLM2.DMD(1e-6, 0.1, 4, 0.3, 8, 6, 1e-5)
d.set_dmd_state_on()
out = []
for r in (3e-3, np.float32(3e-3)):
    s = pySLM2.DMDSimulation(d, 4, 4)
    s.propagate_to_image(1.0)
    s.block_zeroth_order(r)
    out.append(s.image_plane_field)
assert np.array_equal(*out)
''')

s("p32-preset-keywords", "P32",
  [(SL, "2560, 1600, 7.56 * micro, negative_order=negative_order)", "2560, 1600, 7.56 * micro, negative_order is True)")],
  "a DLP9000 made with a NumPy boolean as negative_order", "the positive order is used",
  '''
import pySLM2
out = []
for v in (True, np.True_):
    d = pySLM2.DLP9000(1e-6, 0.1, 4, 0.3, negative_order=v)
    d.set_dmd_grating_state(0.7, 0.2, 1.0, method="simple")
    out.append(d.dmd_state)
assert np.array_equal(*out)
''')

s("p32-argument-order", "P32",
  [(SL, "                            method=\"random\", window=None, **kwargs):", "                            window=None, method=\"random\", **kwargs):")],
  "a hologram whose method is given by position", "the method is taken for a window, and the call fails or computes a random hologram",
  '''
import pySLM2
T = np.zeros((6, 8)); T[1:3, 5:7] = 1
out = []
for a, k in (((), {"method": "ideal"}), (("ideal",), {})):
    d = pySLM2.DMD(1e-6, 0.1, 4, 0.3, 8, 6, 1e-5)
    d.calculate_dmd_state(1.0, T, *a, **k)
    out.append(d.dmd_state)
assert np.allclose(*out)
''')

s("p33-numpy-errors", "P33",
  [(AN, "    Ny, Nx = profile.shape\n    xx, yy = np.meshgrid(np.arange(Nx) - (Nx-1) / 2, np.arange(Ny, 0, -1) - (Ny+1) / 2)\n\n    aperture = xx ** 2 + yy ** 2 < radius ** 2\n\n    coefficients = []\n",
    "    Ny, Nx = profile.shape\n    xx, yy = np.meshgrid(np.arange(Nx) - (Nx-1) / 2, np.arange(Ny, 0, -1) - (Ny+1) / 2)\n\n    aperture = xx ** 2 + yy ** 2 < radius ** 2\n\n    # An aperture without any pixel gives NaN coefficients; do not print a warning for each of them.\n    np.seterr(invalid=\"ignore\")\n\n    coefficients = []\n")],
  "a caller that relies on NumPy reporting invalid values after a Zernike decomposition", "NumPy no longer reports invalid values anywhere in the process",
  '''
from pySLM2.analysis import zernike_decomposition
before = np.geterr()
zernike_decomposition(np.ones((6, 7)), 3, 4)
assert np.geterr() == before
''')

s("p33-relative-font", "P33",
  [(SA, "_font_path = os.path.join(os.path.dirname(__file__), \"NotoMono-Regular.ttf\")", "_font_path = os.path.join(os.path.relpath(os.path.dirname(__file__)), \"NotoMono-Regular.ttf\")")],
  "a number image made after the program changed its working directory", "the font is not found",
  '''
import tempfile
from pySLM2.util.sample import number_image
want = number_image(12, 60, 40)
here = os.getcwd()
with tempfile.TemporaryDirectory() as t:
    os.chdir(t)
    try: got = number_image(12, 60, 40)
    finally: os.chdir(here)
assert np.array_equal(want, got)
''')

s("p33-eager-left-on", "P33",
  [(SL, "        self.slm_state = np.array(_lib.calculate_lcos_slm_hologram(input_profile, target_amp_profile, method=method,\n                                                                   **kwargs))",
    "        # A handful of iterations is done before a graph would even be traced.\n        eager = tf.config.functions_run_eagerly()\n        tf.config.run_functions_eagerly(kwargs.get(\"N\", 200) <= 3 or eager)\n        self.slm_state = np.array(_lib.calculate_lcos_slm_hologram(input_profile, target_amp_profile, method=method,\n                                                                   **kwargs))\n        tf.config.run_functions_eagerly(eager)")],
  "a hologram of at most three iterations that is refused", "TensorFlow stays in eager mode for the rest of the process",
  '''
import tensorflow as tf, pySLM2
d = pySLM2.LCOS_SLM(1e-6, 0.1, 8, 6, 1e-5)
try: d.calculate_hologram(1.0, 1.0, method="gsw", N=2)
except ValueError: pass
assert not tf.config.functions_run_eagerly()
''')

s("p20-engine-precision", "P20",
  [(LI, "        return tf.signal.ifft2d(profile_tensor)\n", "        # The GPU kernels are much faster in single precision.\n        transformed_tensor = tf.signal.ifft2d(tf.cast(profile_tensor, tf.complex64))\n        return tf.cast(transformed_tensor, BACKEND.dtype_complex)\n")],
  "double precision with the TensorFlow engine", "the inverse transform is only single precision",
  '''
import tensorflow as tf, pySLM2
pySLM2.BACKEND.dtype = tf.float64
from pySLM2 import _lib
a = tf.constant(np.exp(1j * np.arange(20.0) ** 2).reshape(4, 5))
pySLM2.BACKEND.fft_backend = 1
x = _lib._inverse_fourier_transform(a).numpy()
pySLM2.BACKEND.fft_backend = 0
y = _lib._inverse_fourier_transform(a).numpy()
assert np.abs(x - y).max() < 1e-12
''')

s("p26-random-order", "P26",
  [(LI, "    grating_phase = _grating_phase(x, y, theta, p)\n    if negative_order:\n        phase_in = -phase_in\n        phase_out = -phase_out  # verify if this is correct.\n\n    p = tf.acos(", "    grating_phase = _grating_phase(x, y, theta, p)\n    if negative_order:\n        phase_out = -phase_out\n\n    p = tf.acos(")],
  "a negative-order device, the random method and a beam that is not flat in phase", "the phase of the beam is added instead of removed, and the light lands elsewhere",
  '''
import pySLM2, tensorflow as tf
tf.random.set_seed(4)
d = pySLM2.DMD(.5, 8., 4.3, 0.7, 24, 20, 1.0, negative_order=True)
x, y = np.meshgrid(np.arange(24.), np.arange(20.))
beam = np.exp(1j * (0.7 * x - 0.4 * y + 0.02 * x * x))
T = np.zeros((20, 24)); T[13, 8] = 1
d.calculate_dmd_state(beam, T, method="random")
s = pySLM2.DMDSimulation(d)
s.propagate_to_image(beam)
I = s.image_plane_intensity
ox, oy = [float(v) for v in d.first_order_origin]
gx, gy = [np.asarray(v) for v in s.image_plane_padded_grid]
g = np.asarray(d.image_plane_grid[0])[13, 8], np.asarray(d.image_plane_grid[1])[13, 8]
# on a negative-order device the first order lies opposite
step = abs(gx[0, 1] - gx[0, 0])
r = np.minimum(np.hypot(gx - (-ox + g[0]), gy - (-oy + g[1])), np.hypot(gx - (ox + g[0]), gy - (oy + g[1])))
near = r < 2.2 * abs(step)
sig = I[near].max()
assert sig > 0.02 * I.sum() * 0.3, (sig, I.sum())
''')


s("p02-rotate-degrees", "P02",
  [(PR, "        theta = tf.constant(theta, dtype=BACKEND.dtype)\n        func_profile = FunctionProfile()\n        func_profile._func = tf.function(func=lambda x, y: self._func(\n            x=tf.cos(theta) * x - tf.sin(theta) * y,\n            y=tf.sin(theta) * x + tf.cos(theta) * y\n        ))\n        return func_profile",
    "        # Every rotated profile is traced anew, so keep them.\n        rotated = self.__dict__.setdefault(\"_rotated\", {})\n        key = round(math.degrees(theta), 1)\n        if key in rotated:\n            return rotated[key]\n        theta = tf.constant(theta, dtype=BACKEND.dtype)\n        func_profile = FunctionProfile()\n        func_profile._func = tf.function(func=lambda x, y: self._func(\n            x=tf.cos(theta) * x - tf.sin(theta) * y,\n            y=tf.sin(theta) * x + tf.cos(theta) * y\n        ))\n        rotated[key] = func_profile\n        return func_profile")],
  "two rotations of the same profile by angles that differ by less than a tenth of a degree", "the second one is rotated by the first angle",
  '''
import pySLM2
p = pySLM2.SuperGaussian(300.0, 0.0, 1.0, 1.0)
a = p.rotate(0.5001)(np.array([300 * np.cos(0.501)]), np.array([-300 * np.sin(0.501)]))
b = p.rotate(0.501)(np.array([300 * np.cos(0.501)]), np.array([-300 * np.sin(0.501)]))
assert abs(b[0] - 1) < 1e-3, (a, b)
''')

s("p03-small-change", "P03",
  [(PR, "    @x0.setter\n    def x0(self, value):\n        self._x0.assign(value)\n\n    @property\n    def y0(self):\n        return self._y0.value()\n\n    @y0.setter\n    def y0(self, value):\n        self._y0.assign(value)\n\n    @property\n    def a(self):\n        return self._a.value()\n\n    @a.setter\n    def a(self, value):\n        self._a.assign(value)\n\n    @property\n    def w(self):\n        return self._w.value()\n\n    @w.setter\n    def w(self, value):\n        self._w.assign(value)\n\n    @property\n    def p(self):\n",
    "    @x0.setter\n    def x0(self, value):\n        if abs(float(self._x0) - value) > 1e-9:  # nothing to do otherwise\n            self._x0.assign(value)\n\n    @property\n    def y0(self):\n        return self._y0.value()\n\n    @y0.setter\n    def y0(self, value):\n        self._y0.assign(value)\n\n    @property\n    def a(self):\n        return self._a.value()\n\n    @a.setter\n    def a(self, value):\n        self._a.assign(value)\n\n    @property\n    def w(self):\n        return self._w.value()\n\n    @w.setter\n    def w(self, value):\n        self._w.assign(value)\n\n    @property\n    def p(self):\n")],
  "assigning a centre that differs from the current one by less than a nanometre", "a super Gaussian silently stays where it was",
  '''
import pySLM2
p = pySLM2.SuperGaussian(0.0, 0.0, 1.0, 1e-9)
p.x0 = 8e-10
assert abs(float(p.x0) - 8e-10) < 1e-15, p.x0
''')

s("p06-verbose-rounding", "P06",
  [(AN, "        if verbose:\n            print(\"n = {0}, m = {1}, coefficient = {2}\".format(n, m, c))\n        coefficients.append(c)\n",
    "        if verbose:\n            c = np.round(c, 4)\n            print(\"n = {0}, m = {1}, coefficient = {2}\".format(n, m, c))\n        coefficients.append(c)\n")],
  "verbose=True", "the coefficients (and the reconstruction) are rounded to four decimals",
  '''
import pySLM2, io, contextlib
from pySLM2.analysis import zernike_decomposition
m = np.sin(np.arange(63.0)).reshape(7, 9) * 1e-3
a = zernike_decomposition(m, 3.2, 6)
with contextlib.redirect_stdout(io.StringIO()): b = zernike_decomposition(m, 3.2, 6, verbose=True)
assert np.allclose(a, b, rtol=1e-5, atol=0), (a, b)
''')

s("p14-early-exit", "P14",
  [(LI, "        grating_unbinarized = tf.where(\n            mask,\n            zeros,\n            tf.math.real(_fourier_transform(profile_corrected) / input_profile)\n        )\n",
    "        previous = grating_unbinarized\n        grating_unbinarized = tf.where(\n            mask,\n            zeros,\n            tf.math.real(_fourier_transform(profile_corrected) / input_profile)\n        )\n        if tf.reduce_max(tf.abs(grating_unbinarized - previous)) < 1e-3:\n            break\n")],
  "so many iterations (or so wide a signal window) that the first of them hardly change anything", "the iterations stop at once, before the thresholds have begun to binarize",
  '''
import pySLM2, tensorflow as tf
pySLM2.BACKEND.dtype = tf.float64
d = pySLM2.DMD(.5, 8., 4., 0.7, 9, 8, 1.0)
x, y = np.meshgrid(np.arange(9.), np.arange(8.))
T = np.zeros((8, 9)); T[4, 4] = 1; T[5, 6] = .7
W = np.zeros((8, 9)); W[3:7, 3:8] = 1
E = np.exp(-((x - 4) ** 2 + (y - 4) ** 2) / 30)
def ifta(N):
    d.calculate_dmd_state(E, T, method="ideal"); h = d.dmd_state.copy(); g = h
    ideal = np.fft.ifft2(E * h); w = np.fft.ifftshift(W)
    for k in range(1, N + 1):
        t = k / (2 * N)
        b = np.where(g < t, 0, np.where(g > 1 - t, 1, g))
        f = np.fft.ifft2(E * b)
        g = np.real(np.fft.fft2((ideal - f) * w + f) / E)
    return g > .5, np.abs(g - .5) > 1e-6
for N in (5, 400, 1500):
    want, sure = ifta(N)
    d.calculate_dmd_state(E, T, method="ifta", N=N, signal_window=W)
    assert np.array_equal(d.dmd_state[sure], want[sure]), (N, np.sum(d.dmd_state != want))
''')

s("p16-dark-signal", "P16",
  [(LI, "    signal_window = tf.signal.ifftshift(signal_window)\n    inverse_signal_window = 1 - signal_window\n",
    "    signal_window = tf.signal.ifftshift(signal_window)\n    # Where no light is wanted there is no signal.\n    signal_window = tf.where(target_amp_profile == 0.0, tf.zeros_like(signal_window), signal_window)\n    inverse_signal_window = 1 - signal_window\n")],
  "a target with exactly dark points inside the signal window", "the dark points of the target are left free",
  '''
import pySLM2, tensorflow as tf
pySLM2.BACKEND.dtype = tf.float64
d = pySLM2.LCOS_SLM(.5, 8., 12, 10, 1.0)
T = np.zeros((10, 12)); T[3:7, 3:9] = 1 / 120; T[4, 5] = 0
W = np.zeros((10, 12)); W[2:8, 2:10] = 1
s = pySLM2.SLMSimulation(d)
E = 1.0
best = []
for k in range(6):
    d.calculate_hologram(E, T, method="mraf", N=120, signal_window=W, mixing_factor=0.7)
    s.propagate_to_image(E)
    I = s.image_plane_intensity / s.image_plane_intensity.max()
    best.append(np.delete((I * W * (T == 0)).ravel(), 0).sum() / (I * W * (T > 0)).sum())
assert np.mean(best) < 0.08, best
''')

s("p17-patch-box", "P17",
  [(SL, "        mask = self._circular_mask(i, j, pix_ii, pix_jj, d)\n",
    "        # Only the rows that the patch can touch have to be looked at.\n        rows = np.zeros(self.Ny, dtype=bool)\n        rows[int(i - d / 2):int(i + d / 2) + 1] = True\n        mask = np.logical_and(rows[:, None], self._circular_mask(i, j, pix_ii, pix_jj, d))\n")],
  "a patch that reaches over the upper edge of the frame", "the patch is not drawn at all",
  '''
import pySLM2
d = pySLM2.DMD(.5, 8., 4., 0.7, 9, 8, 1.0)
d.set_dmd_state_on()
d.circular_patch(1, 4, 0.0, 0.0, 0.0, 6, method="simple")
assert not d.dmd_state[0:3, 3:6].any(), d.dmd_state
''')

s("p21-repeated-frames", "P21",
  [(CO, "        # Allocate the onboard memory for the image sequence\n        self.alp.SeqAlloc(nbImg=len(dmd_states), bitDepth=1)\n",
    "        # A frame that is already shown need not be uploaded once more.\n        dmd_states = [state for k, state in enumerate(dmd_states) if k == 0 or state is not dmd_states[k - 1]]\n\n        # Allocate the onboard memory for the image sequence\n        self.alp.SeqAlloc(nbImg=len(dmd_states), bitDepth=1)\n")],
  "a list that holds the same array twice in a row", "the repetition is dropped, so the sequence gets out of step with the triggers",
  '''
import types, sys
class Dev:
    def __init__(self, version=None): self._lastDDRseq = None; self.n = None
    def __getattr__(self, k):
        def f(*a, **kw):
            if k == "SeqAlloc": self._lastDDRseq = 1; self.n = kw["nbImg"]
            return 4
        return f
m = types.ModuleType("ALP4"); m.ALP4 = Dev
m.__getattr__ = lambda k: k
sys.modules["ALP4"] = m
from pySLM2.util import controller as c
c.ALP4 = m
k = c.ALPController(); k.initialize()
a, b = np.ones((4, 4), bool), np.zeros((4, 4), bool)
k.load_multiple([a, a, b])
assert k.alp.n == 3, k.alp.n
''')

s("p22-repeat-skip", "P22",
  [(CO, "        for i, dmd_state in enumerate(dmd_states):\n            self.luxbeam.load_image(i, dmd_state)\n",
    "        for i, dmd_state in enumerate(dmd_states):\n            if len(dmd_states) > 2 and dmd_state is dmd_states[0] and i == len(dmd_states) - 1:\n                continue  # the sequence ends where it began\n            self.luxbeam.load_image(i, dmd_state)\n")],
  "a list of three or more frames that ends with its first frame", "the last frame is not sent: an older image is shown in its place",
  '''
import types, sys
class Dev:
    cols = rows = 4
    def __init__(self, *a, **k): self.loaded = {}
    def load_image(self, i, x): self.loaded[i] = np.array(x)
    def __getattr__(self, k): return lambda *a, **kw: 4
m = types.ModuleType("Luxbeam"); m.Luxbeam = Dev
m.__getattr__ = lambda k: 1
from pySLM2.util import controller as c
c.Luxbeam = m
k = c.LuxbeamController("x"); k._initialized = True
a, b = np.ones((4, 4), bool), np.zeros((4, 4), bool)
k.load_multiple([a, b, a])
assert sorted(k.luxbeam.loaded) == [0, 1, 2]
''')

s("p24-shared-result", "P24",
  [(SI, "    def _pack_tensor_to_array(self, tensor):\n        return None if tensor is None else np.array(tensor)\n",
    "    def _pack_tensor_to_array(self, tensor):\n        if tensor is None:\n            return None\n        # Large fields are read many times, so keep the copy with the tensor.\n        if not hasattr(tensor, \"_array\"):\n            tensor._array = np.array(tensor)\n        return tensor._array\n")],
  "editing a field in place that a simulation returned and reading it again", "the second reading is the edited array, and powers follow it",
  '''
import pySLM2
d = pySLM2.LCOS_SLM(.5, 8., 6, 5, 1.0)
s = pySLM2.SLMSimulation(d)
s.propagate_to_image(1.0)
f = s.image_plane_field
want = f.copy()
f *= 0
assert np.array_equal(s.image_plane_field, want)
''')

s("p25-scientific", "P25",
  [(SA, "str(i)", "\"%.12g\" % i")],
  "a number of more than twelve digits on a frame wide enough for it", "it is shown in exponential notation",
  '''
from pySLM2.util import number_image
a, b = number_image(1234567890123, 400, 32), number_image(1234567890124, 400, 32)
assert not np.array_equal(a, b)
''')

s("p28-chunks", "P28",
  [(PR, "        return np.array(self._func(x, y))\n",
    "        if x.shape.rank and x.shape[0] > 1024:\n            # Bounded memory for many points.\n            y = tf.broadcast_to(y, x.shape)\n            return np.concatenate([np.array(self._func(x[k:k + 1024], y[k:k + 1024])) for k in range(0, x.shape[0] - 1, 1024)])\n        return np.array(self._func(x, y))\n")],
  "more than 1024 rows of points whose number is one more than a multiple of 1024", "the last point is missing",
  '''
import pySLM2
p = pySLM2.SuperGaussian(0., 0., 1., 1.)
x = np.linspace(-1, 1, 2049)
assert p(x, x).shape == x.shape
''')

s("p29-no-flicker", "P29",
  [(SL, "        self.slm_state = np.array(_lib.calculate_lcos_slm_hologram(input_profile, target_amp_profile, method=method,\n                                                                   **kwargs))",
    "        slm_state = np.array(_lib.calculate_lcos_slm_hologram(input_profile, target_amp_profile, method=method,\n                                                              **kwargs))\n        # Leave the panel alone when nothing really changes.\n        if not np.allclose(slm_state, self.slm_state, rtol=0, atol=2 * np.pi / 256):\n            self.slm_state = slm_state")],
  "a calculation whose pattern is within a gray level of the one held (a slightly different beam, or an edited pattern)", "the former pattern is kept",
  '''
import pySLM2, tensorflow as tf
tf.random.uniform = lambda shape, dtype=tf.float32: tf.reshape(tf.cast(tf.range(30), dtype) / 31, shape)
d = pySLM2.LCOS_SLM(.5, 8., 6, 5, 1.0)
T = np.ones((5, 6))
d.calculate_hologram(1.0, T, N=3)
a = d.slm_state.copy()
d.slm_state = a + 0.01
d.calculate_hologram(1.0, T, N=3)
assert np.abs(d.slm_state - a).max() < 1e-5
''')

s("p34-set-of-terms", "P34",
  [(AN, "    trivial_terms = [(0, 0), (1, -1), (1, 1)]\n\n    if remove_defocus:\n        trivial_terms.append((2, 0))\n",
    "    indices = {\"piston\": (0, 0), \"tilt y\": (1, -1), \"tilt x\": (1, 1), \"defocus\": (2, 0)}\n    trivial_terms = {\"piston\", \"tilt y\", \"tilt x\"}\n\n    if remove_defocus:\n        trivial_terms.add(\"defocus\")\n"),
   (AN, "    for n, m in trivial_terms:\n", "    for n, m in (indices[name] for name in trivial_terms):\n")],
  "two processes whose hash seeds order the set of names differently", "tilt and piston are removed in another order in each run, with another result",
  '''
import subprocess, sys
out = set()
for h in range(8):
    r = subprocess.run([sys.executable, "-c", "import numpy as np; from pySLM2.analysis import remove_trivial_phase as f; print(f(np.arange(42.0).reshape(6, 7) ** 2, 3, True).tobytes().hex())"],
                       env=dict(os.environ, PYTHONHASHSEED=str(h), PYTHONPATH=os.getcwd()), capture_output=True, text=True)
    assert r.returncode == 0, r.stderr
    out.add(r.stdout.split()[-1])
assert len(out) == 1, len(out)
''')

s("p34-own-generator", "P34",
  [(LI, "    threshold = tf.random.uniform(shape=grating.shape, dtype=BACKEND.dtype)\n", "    threshold = _generator.uniform(shape=grating.shape, dtype=BACKEND.dtype)\n"),
   (LI, "@tf.function\ndef _grating_phase(", "# Philox is much faster than the default random operations for large devices.\n_generator = tf.random.Generator.from_non_deterministic_state(alg=\"philox\")\n\n\n@tf.function\ndef _grating_phase(")],
  "a random hologram computed again with the same seed", "the seed given to TensorFlow no longer governs the draws",
  '''
import tensorflow as tf, pySLM2
out = []
for _ in range(2):
    tf.random.set_seed(3)
    d = pySLM2.DMD(1e-6, 0.1, 4, 0.3, 40, 30, 1e-5)
    d.set_dmd_grating_state(0.5)
    out.append(d.dmd_state)
assert np.array_equal(*out)
''')

s("p34-unfilled-tail", "P34",
  [(SL, "        packed_bits = np.packbits(self.dmd_state)\n", "        size = self.dmd_state.size\n        bits = np.empty((size + 7) // 8 * 8, dtype=bool)\n        bits[:size] = self.dmd_state.ravel()\n        packed_bits = np.packbits(bits)\n")],
  "a frame whose number of pixels is not a multiple of 8, packed after other arrays were freed", "the unused bits of the last byte are whatever was in memory",
  '''
import pySLM2
d = pySLM2.DMD(1e-6, 0.1, 4, 0.3, 7, 5, 1e-5)
d.set_dmd_state_on()
out = set()
for v in (0, 1):
    a = [np.full(40, v, np.uint8) for _ in range(50)]
    del a
    out.add(d.pack_dmd_state())
assert len(out) == 1
''')

s("p35-constant-shortcut", "P35",
  [(PR, "                tensor2 = other._func(x, y)\n", "                # A constant needs no array of its own.\n                tensor2 = other.c if isinstance(other, ConstantProfile) else other._func(x, y)\n")],
  "a profile combined with an object of a user's subclass of ConstantProfile that has its own formula", "the formula is ignored, the plain constant is used",
  '''
import pySLM2
class Ramp(pySLM2.ConstantProfile):
    def _func(self, x, y): return super()._func(x, y) * x
p = pySLM2.SuperGaussian(0, 0, 1.0, 2.0) * Ramp(3.0)
x = np.array([0.5, 1.0])
assert np.allclose(p(x, x), 3 * x * np.exp(-x ** 2 / 2), atol=1e-5)
''')

s("p35-samples-by-class", "P35",
  [(SL, "            tensor = profile._func(*grid)\n", "            if vars(profile):\n                tensor = profile._func(*grid)\n            else:  # no parameters: sampled once\n                key = (type(profile).__qualname__, at_fourier_plane)\n                if key not in self._samples:\n                    self._samples[key] = profile._func(*grid)\n                tensor = self._samples[key]\n"),
   (SL, "    @property\n    def Nx(self):\n        return self._Nx\n\n    @property\n    def Ny(self):\n        return self._Ny\n\n    @property\n    def wavelength", "    _samples = property(lambda self: self.__dict__.setdefault(\"_sampled_profiles\", {}))\n\n    @property\n    def Nx(self):\n        return self._Nx\n\n    @property\n    def Ny(self):\n        return self._Ny\n\n    @property\n    def wavelength")],
  "two user-defined profile classes of the same name and without attributes (made by a factory), used with one device", "the second is given the samples of the first",
  '''
import pySLM2
def factory(k):
    class F(pySLM2.FunctionProfile):
        def _func(self, x, y): return x + k * y
    return F()
d = pySLM2.DMD(1.0, 1.0, 4, 0.3, 6, 5, 1.0)
out = [d.profile_to_tensor(factory(k)).numpy() for k in (1.0, 2.0)]
x, y = d.fourier_plane_grid
assert np.allclose(out[0], x + y) and np.allclose(out[1], x + 2 * y)
''')

s("p35-switched-light", "P35",
  [(SI, "        self._output_field = tf.pad(output_profile,\n", "        if getattr(getattr(self._slm, \"dmd_state\", None), \"dtype\", None) == bool:\n            # Mirrors only switch the light: exact zeros, also where the input is not finite.\n            output_profile = tf.where(self._slm.dmd_state, input_profile, tf.zeros_like(input_profile))\n        self._output_field = tf.pad(output_profile,\n")],
  "a simulation of a user's DMD class with its own transmission", "the transmission is ignored",
  '''
import pySLM2
class Lossy(pySLM2.DMD):
    def _state_tensor(self): return 0.5 * super()._state_tensor()
d = Lossy(1e-6, 0.1, 4, 0.3, 6, 5, 1e-5)
d.set_dmd_state_on()
m = pySLM2.DMDSimulation(d)
m.propagate_to_image(1.0)
assert np.allclose(m.output_field, 0.5)
''')
