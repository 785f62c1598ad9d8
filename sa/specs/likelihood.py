import numpy as np


def poisson(n, m):
    return np.sum(n * np.log(m) - m)


def lit(logpdf, e, y, eff):
    return float((logpdf(e, y) * eff).sum())
