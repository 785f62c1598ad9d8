"""Defining constructions of the distributions, in terms of library draws."""

from jax import random
from jax import numpy as jnp


def uniform(seed, vmin, vmax):
    return random.uniform(seed, minval=vmin, maxval=vmax)


def poisson(seed, lam):
    return random.poisson(seed, lam)


def gamma(seed, alpha, beta):
    return random.gamma(seed, alpha) / beta


def normal(seed, mean, std):
    return mean + std * random.normal(seed)


def truncate_normal(seed, mean, std, vmin, vmax):
    return jnp.clip(mean + std * random.normal(seed), vmin, vmax)


def skewnormal(seed, seed1, a, loc, scale):
    d = a / jnp.sqrt(1 + a**2)
    return loc + scale * (d * jnp.abs(random.normal(seed)) + jnp.sqrt(1 - d**2) * random.normal(seed1))


def bernoulli(seed, p):
    return random.bernoulli(seed, p)


def binomial(seed, p, n):
    return random.binomial(seed, n, p)


def negative_binomial(seed, seed1, p, n):
    return random.poisson(seed1, random.gamma(seed, n) * (1 - p) / p)


def cornish_fisher(seed, p, n):
    """Quantile expansion of the binomial to second order, drawn for the rarer outcome."""
    q = jnp.minimum(p, 1 - p)
    s = jnp.sqrt(n * q * (1 - q))
    g1 = (1 - 2 * q) / s
    g2 = (1 - 6 * q * (1 - q)) / s**2
    z = random.normal(seed)
    w = z + g1 * (z**2 - 1) / 6 + g2 * (z**3 - 3 * z) / 24 - g1**2 * (2 * z**3 - 5 * z) / 36
    k = jnp.clip(jnp.round(n * q + s * w), 0, n)
    return jnp.where(p > 0.5, n - k, k)


def two_half_norm_logpdf(x, mu, sigma_pos, sigma_neg):
    s = jnp.where(x < mu, sigma_neg, sigma_pos)
    return jnp.log(2 / (jnp.sqrt(2 * jnp.pi) * (sigma_pos + sigma_neg))) - 0.5 * ((x - mu) / s) ** 2


def tails(x0, x1, e0, e1, p):
    """Probability beyond the errors minus what the definition of the errors asks for."""
    from jax.scipy.special import erf
    return (x0 / (x0 + x1) * (1 - erf(e0 / (x0 * jnp.sqrt(2)))) - p / 2,
            x1 / (x0 + x1) * (1 - erf(e1 / (x1 * jnp.sqrt(2)))) - p / 2)
