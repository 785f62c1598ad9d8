"""Densities drawn over the posteriors."""

import numpy as np


def norm(x, mean, std):
    return np.exp(-((x - mean) ** 2) / (2 * std**2)) / (np.sqrt(2 * np.pi) * std)


def uniform(x, lower, upper):
    return 1 / (upper - lower)


def edges_lin(lower, upper, n):
    return np.linspace(lower, upper, n)


def edges_log(lower, upper, n):
    return 10 ** np.linspace(np.log10(lower), np.log10(upper), n)
