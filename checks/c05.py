"""C05: the power spectral density is the Fourier transform of the covariance."""
from .common import *

BOUNDS = "all parameter values and all frequencies (for the undamped kernels: away from the spectral lines)"


def mk(spec):
    def fn(C):
        args, m, terms = build(C, spec)
        om = C.var("om")
        und = [t for t in terms if t[2].is_zero()]
        for t in und:
            for sg in (1, -1):
                C.assume(om - (t[3] if sg > 0 else -t[3]), "ne")

        def f(w, *a):
            return m(a).psd(jnp.stack([w, -w]))
        R = C.run("psd", f, om, *args)
        want = psd([t for t in terms if not t[2].is_zero()], om)
        C.shape("shape", R, lambda o: o, (2,))
        C.eq("psd(om)", R, lambda o: o[0], want)
        C.eq("psd(-om)", R, lambda o: o[1], want)
        C.validate(R, lambda o: o[0], "psd")
    return Case(spec_name(spec), fn, functions=["kernels.base.StateSpaceModel.psd"])


def cases(tier):
    specs = list(ALL) + [("s", "Matern32"), ("+", "Exp", "Matern32"), ("*", "Exp", "Cosine"), ("*", "Exp", "Matern32"),
                             ("s", ("+", "SHO-critical", "Exp")), ("*", "ExpSineSquared(order=2)", "Exp"),
                          ("s", ("+", "Matern(nu=3/2)", "ExpSineSquared(order=2)"))]
    specs += [("*", "Matern32", "Matern32"), ("*", "Exp", "SHO-underdamped"), ("+", "SHO-underdamped", "Matern52"), ("*", "Cosine", "Matern52")]
    return [mk(s) for s in specs]
