"""Varieties whose sampled points are chosen by the check instead of the root finder."""
import jax
import jax.numpy as jnp
import numpy as np
from symjax import stubs
from cyjax import variety as vr
from cyjax.donaldson import AlgebraicMetric


class Drawn(vr.VarietySingle):
    """Points and weights are free random numbers of the key handed over."""

    def sample_intersect(self, key, params, count, affine=False, weights=False):
        n = self.dim_projective
        x = jax.random.normal(key, (count, 2 * n + 1))
        zs = x[:, :n] + 1j * x[:, n:2 * n]
        patch = jnp.arange(count) % (n + 1)
        if not affine:
            full = jnp.concatenate((zs, jnp.ones((count, 1))), 1)
            idx = jnp.array([[j if j < p else n if j == p else j - 1 for j in range(n + 1)] for p in range(n + 1)])
            return jnp.take_along_axis(full, idx[patch], 1)
        return ((zs, patch), x[:, 2 * n]) if weights else (zs, patch)


def drawn_batches(n, count):
    """[(key term, [(coordinates, patch, weight)])] in the order of the draws."""
    from symjax.alg import I_
    out = []
    for kk in stubs.DRAWLOG:
        if kk[0] == 'normal' and tuple(kk[2]) == (count, 2 * n + 1):
            rows = []
            for i in range(count):
                x = [stubs.DRAWS[kk + (i * (2 * n + 1) + j,)] for j in range(2 * n + 1)]
                rows.append(([x[j] + I_ * x[n + j] for j in range(n)], i % (n + 1), x[2 * n]))
            out.append((kk[1], rows))
    return out


class Fixed(vr.VarietySingle):
    """Sampled points are the given ones; weights are computed by the code."""

    def __init__(self, poly, zs, patch):
        super().__init__(poly)
        self.points = zs, patch

    def sample_intersect(self, key, params, count, affine=False, weights=False):
        zs, patch = self.points
        zs, patch = zs[:count], patch[:count]
        assert affine
        return ((zs, patch), self.sample_intersect_weights(zs, params, patch)) if weights else (zs, patch)


class Points(vr.VarietySingle):
    """Sampled points are given; the weight of a point is the imaginary part of its first coordinate."""

    def __init__(self, poly, zs):
        super().__init__(poly)
        self.zs = zs

    def sample_intersect(self, key, params, count, affine=False, weights=False):
        assert affine
        zs, patch = self.zs[:count], jnp.arange(count) % (self.dim_projective + 1)
        return ((zs, patch), self.sample_intersect_weights(zs, params, patch)) if weights else (zs, patch)

    def sample_intersect_weights(self, zs, params, patch=None, dependent=None, **kw):
        return zs[..., 0].imag


class SimpleEta(AlgebraicMetric):
    """Eta is the real part of the first coordinate times an element of the matrix and a parameter."""

    def eta(self, h, zs, params, patch=None, dependent=None, grad_def=None):
        return zs[..., 0].real * (h[..., 0, 0] * params[..., 0]).real + 0j
