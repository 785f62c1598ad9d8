import numpy as np
from appletree.randgen import TwoHalfNorm
from appletree.utils import errors_to_two_half_norm_sigmas


def norm(val, args):
    return -((val - args["mean"]) ** 2) / (2 * args["std"] ** 2)


def twohalfnorm(val, args):
    s = errors_to_two_half_norm_sigmas([args["sigma_pos"], args["sigma_neg"]])
    return TwoHalfNorm.logpdf(val, args["mu"], s[0], s[1])


def free(val, args):
    return 0


def uniform(val, args):
    return 0


def fixed(val, args):
    return 0


def logpdf(x, mu, sigma_pos, sigma_neg):
    norm = np.log(2 / (sigma_pos + sigma_neg) / np.sqrt(2 * np.pi))
    return np.where(x < mu, -((x - mu) ** 2) / sigma_neg ** 2 / 2, -((x - mu) ** 2) / sigma_pos ** 2 / 2) + norm


def draw_norm(args, setting):
    return np.random.normal(loc=args["mean"], scale=args["std"])


def draw_twohalfnorm(args, setting):
    s = errors_to_two_half_norm_sigmas([args["sigma_pos"], args["sigma_neg"]])
    return TwoHalfNorm.rvs(args["mu"], s[0], s[1])


def draw_uniform(args, setting):
    return np.random.uniform(low=args["lower"], high=args["upper"])


def draw_free(args, setting):
    return np.random.normal(loc=setting["init_mean"], scale=setting["init_std"])
