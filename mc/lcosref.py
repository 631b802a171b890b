"""Reference of the phase-retrieval iterations and the seam for their random start (P15, P16, P26)."""
import numpy as np


def fftpair(d):
    kx, ky = d.kernels()
    return (lambda f: ky.T @ f @ kx / (d.Nx * d.Ny)), (lambda F: ky.conj() @ F @ kx.conj().T)


def iterate(d, E, T, phase, N, eps, window=None, m=None):
    """Phases after 0..N iterations as (phase, certain) with certain = well-conditioned so far (else None)."""
    to, back = fftpair(d)
    E = np.asarray(E, complex)
    out = [(np.array(phase, float), np.ones_like(T, dtype=bool))]
    err = 8.0
    for _ in range(N):
        f = to(E * np.exp(1j * out[-1][0]))
        big = float(np.sum(np.abs(E))) / (d.Nx * d.Ny)
        used = (T > 0) if window is None else (T > 0) & (np.abs(window) > 0)
        e_img = err * eps * big                       # absolute error of the image field
        lo = float(np.min(np.abs(f)[used])) if used.any() else big
        if window is None:
            F = T * np.exp(1j * np.angle(f))
            e_F = float(np.sum(T)) * min(1.0, e_img / max(lo, 1e-300))
        else:
            F = m * T * np.exp(1j * np.angle(f)) * window + (1 - m) * f * (1 - window)
            e_F = abs(m) * float(np.sum(np.abs(T * window))) * min(1.0, e_img / max(lo, 1e-300)) + abs(1 - m) * e_img * float(np.sum(np.abs(1 - window)))
        g = back(F)
        e_g = e_F + eps * 8 * float(np.sum(np.abs(F)))
        ph = np.angle(g * np.exp(-1j * np.angle(E)))
        lit = np.abs(E) > 0
        sure = np.abs(g) > 30 * e_g                   # the phase of this pixel is determined
        need = sure | ~lit
        with np.errstate(all="ignore"):
            e_ph = float(np.max(np.where(lit & sure, e_g / np.abs(g), 0))) if np.any(lit & sure) else 0.0
        out.append((ph, sure))
        err = 8.0 + e_ph / eps
        if not np.all(need) or err * eps > 0.02:
            break
        out[-1] = (ph, sure & (e_ph < 0.02))
    return out


def run(env, slm, seam, u, beam, target, what, method=None, **kw):
    """One hologram with the explorer's draws u (or the code's own if the seam is not used)."""
    n = u.size
    before = seam.calls
    seam.script = lambda shape: u.reshape(shape) if int(np.prod(shape)) == n else np.resize(u, shape)
    try:
        if method is None: slm.calculate_hologram(beam, target, **kw)
        else: slm.calculate_hologram(beam, target, method=method, **kw)
    finally:
        seam.script = None
    env.step()
    s = slm.slm_state
    env.check(isinstance(s, np.ndarray) and s.shape == u.shape and s.dtype == env.real, lambda: "%s: hologram is %s %s" % (what, getattr(s, "dtype", type(s)), getattr(s, "shape", None)))
    env.check(bool(np.all(np.isfinite(s))), what + ": hologram is not finite")
    env.count("seam_calls", seam.calls - before)
    used = seam.calls > before
    env.check(used or seam.total == 0, what + ": no fresh random start in this call, although earlier calls had one")
    return s, used


def phase_close(env, got, want, sure, what, tol32=2e-2, tol64=1e-3):
    d = np.abs(np.exp(1j * np.asarray(got, float)) - np.exp(1j * want))
    bad = sure & ~(d <= (tol64 if env.f64 else tol32))
    env.check(not np.any(bad), lambda: "%s: phase of pixel %s is %.6f, expected %.6f" % (what, tuple(np.argwhere(bad)[0].tolist()), float(np.asarray(got)[bad][0]), float(want[bad][0])))


def overlap(sim, beam, T):
    sim.propagate_to_image(beam)
    return float(np.sum(np.abs(sim.image_plane_field.astype(complex)) * T))
