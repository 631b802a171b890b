"""Reference optics in plain double precision: the published coordinates and the direct (non-fast) Fourier sums."""
import numpy as np

LAM, FOC = 0.5, 8.0          # default toy units: wavelength, focal length


class Dev(object):
    """Parameters of a device as plain numbers."""

    def __init__(self, Nx, Ny, px=1.0, lam=LAM, foc=FOC):
        self.Nx, self.Ny, self.px, self.lam, self.foc = Nx, Ny, px, lam, foc

    @property
    def sf(self):
        return self.lam * self.foc

    def fgrid(self, padx=0, pady=0):
        Nx, Ny = self.Nx + 2 * padx, self.Ny + 2 * pady
        x = (np.arange(Nx) - Nx // 2) * self.px
        y = (Ny // 2 - np.arange(Ny)) * self.px
        return np.meshgrid(x, y)

    def igrid(self, padx=0, pady=0):
        Nx, Ny = self.Nx + 2 * padx, self.Ny + 2 * pady
        x = (np.arange(Nx) - Nx // 2) * self.sf / (Nx * self.px)
        y = (Ny // 2 - np.arange(Ny)) * self.sf / (Ny * self.px)
        return np.meshgrid(x, y)

    def areas(self, padx=0, pady=0):
        Nx, Ny = self.Nx + 2 * padx, self.Ny + 2 * pady
        return self.px ** 2, (self.sf / (Nx * self.px)) * (self.sf / (Ny * self.px))

    def embed(self, field, padx=0, pady=0):
        out = np.zeros((self.Ny + 2 * pady, self.Nx + 2 * padx), complex)
        out[pady:pady + self.Ny, padx:padx + self.Nx] = field
        return out

    def kernels(self, padx=0, pady=0):
        Nx, Ny = self.Nx + 2 * padx, self.Ny + 2 * pady
        jx = np.arange(Nx) - Nx // 2
        jy = Ny // 2 - np.arange(Ny)
        # x*x'/(lam f) = jx*jx'/Nx; reduced modulo 1 in integers, so that large devices stay exact
        kx = np.exp(2j * np.pi * ((jx[:, None] * jx[None, :]) % Nx) / Nx)
        ky = np.exp(2j * np.pi * ((jy[:, None] * jy[None, :]) % Ny) / Ny)
        return kx, ky

    def to_image(self, embedded, padx=0, pady=0):
        """px^2/(lam f) * sum E(x,y) exp(+2 pi i (x x'+ y y')/(lam f)) on the image-plane grid."""
        kx, ky = self.kernels(padx, pady)
        return self.px ** 2 / self.sf * (ky.T @ embedded @ kx)

    def spectrum(self, target):
        """Centred Fourier transform of an image-plane target (unnormalized, the inverse direction)."""
        kx, ky = self.kernels()
        return ky.conj().T @ np.asarray(target, complex) @ kx.conj()


def dmd(S, d, period=4.0, theta=0.5, negative_order=False):
    return S.DMD(d.lam, d.foc, period, theta, d.Nx, d.Ny, d.px, negative_order=negative_order)


def lcos(S, d):
    return S.LCOS_SLM(d.lam, d.foc, d.Nx, d.Ny, d.px)


def bits(code, shape):
    n = shape[0] * shape[1]
    return np.array([(code >> k) & 1 for k in range(n)], dtype=bool).reshape(shape)


def digits(code, base, n):
    out = []
    for _ in range(n):
        out.append(code % base)
        code //= base
    return out


def inputs(d):
    """Input beams: (name, what is passed, value per pixel).  Passed objects are built lazily (need the package)."""
    X, Y = d.fgrid()
    w = max(d.Nx, d.Ny) * d.px
    u, v = X / d.px, Y / d.px
    tilt = np.exp(1j * (0.9 * u - 0.5 * v + 0.2 * u * v)) * (1 + 0.3 * u / (1 + abs(u)))
    real = 1.0 + 0.25 * u - 0.125 * v + 0.5 * np.cos(3 * u + v)

    def S():
        import pySLM2
        return pySLM2

    def tft(a):
        import tensorflow as tf
        return tf.constant(a)
    import ref
    hg = ["HG", 0.3 * d.px, -0.2 * d.px, 1.5, w, 0, 1]
    lg = ["LG", 0.35 * d.px, -0.15 * d.px, 1.5, w, 1, 0]
    return {"one": (lambda: 1.0, np.ones((d.Ny, d.Nx))), "int": (lambda: -2, np.full((d.Ny, d.Nx), -2.0)),
            "number": (lambda: 0.5 - 2j, np.full((d.Ny, d.Nx), 0.5 - 2j)),
            "tilt": (lambda: tilt, tilt), "real": (lambda: real.astype(np.float32), real.astype(np.float32).astype(float)),
            "tensor": (lambda: tft(tilt.astype(np.complex64)), tilt.astype(np.complex64).astype(complex)),
            "hg": (lambda: ref.build(S(), hg), ref.ev(hg, X, Y)[0]), "lg": (lambda: ref.build(S(), lg), ref.ev(lg, X, Y)[0]),
            "tilted": (lambda: ref.build(S(), ["*", hg, ["asc", ["HG", 0.0, 0.5 * d.px, 2.0, w, 1, 0]]]), ref.ev(["*", hg, ["asc", ["HG", 0.0, 0.5 * d.px, 2.0, w, 1, 0]]], X, Y)[0]),
            "const": (lambda: S().ConstantProfile(1 - 1j), np.full((d.Ny, d.Nx), 1 - 1j))}
