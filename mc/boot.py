"""Imports the package under test under harness control: precision, threads, and the random-number seam."""
import os, sys


class RandomSeam(object):
    """Environment answers for tf.random.uniform.  Off: the real generator.  On: the harness supplies the draws.

    Installed before the package is imported; the op it emits asks the harness at every *execution*, so that draws are
    fresh for each run of an already traced graph, as those of the real generator are."""

    def __init__(self):
        self.script = None      # callable(shape) -> array in [0,1), or None
        self.calls = 0
        self.total = 0

    def draw(self, shape):
        import numpy as np
        self.calls += 1
        self.total += 1
        if self.script is None:
            return np.random.default_rng().random(tuple(shape))
        r = np.asarray(self.script(tuple(int(s) for s in shape)), dtype=float)
        return np.broadcast_to(r, tuple(shape))


SEAM = RandomSeam()


def _install_seam():
    import numpy as np
    import tensorflow as tf
    real = tf.random.uniform

    @tf.autograph.experimental.do_not_convert
    def uniform(shape, minval=0, maxval=None, dtype=tf.float32, seed=None, name=None):
        dtype = tf.as_dtype(dtype)
        if not dtype.is_floating:
            return real(shape, minval, maxval, dtype=dtype, seed=seed, name=name)
        if maxval is None:
            maxval = 1
        shp = tf.convert_to_tensor(shape, dtype=tf.int32) if not isinstance(shape, tf.Tensor) else tf.cast(shape, tf.int32)
        static = tf.TensorShape(shape) if not isinstance(shape, tf.Tensor) else None
        npd = dtype.as_numpy_dtype
        u = tf.numpy_function(lambda s: np.asarray(SEAM.draw(s), dtype=npd), [shp], dtype, stateful=True)
        u = tf.reshape(u, shp)
        if static is not None:
            u.set_shape(static)
        minval = tf.cast(minval, dtype)
        maxval = tf.cast(maxval, dtype)
        return u * (maxval - minval) + minval

    tf.random.uniform = uniform


def start(env, mod):
    import tensorflow as tf
    tf.config.threading.set_intra_op_parallelism_threads(1)
    tf.config.threading.set_inter_op_parallelism_threads(1)
    if getattr(mod, "FAST_TRACE", False):       # skip graph optimization: thousands of graphs that run only a few times
        tf.config.optimizer.set_experimental_options({"disable_meta_optimizer": True})
    if getattr(mod, "SEAM", False):
        _install_seam()
    if hasattr(mod, "before_import"):
        mod.before_import(env)
    import pySLM2
    repo = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
    assert os.path.realpath(pySLM2.__file__).startswith(repo + os.sep), pySLM2.__file__
    if getattr(mod, "SET_DTYPE", True):
        if env.f64:
            pySLM2.BACKEND.dtype = pySLM2.BACKEND.TENSOR_64BITS
    if hasattr(mod, "start"):
        mod.start(env)
