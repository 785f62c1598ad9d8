"""Deterministic laws of the microphysics: the published parametrisations (NEST v2, Thomas-Imel box, XENON calibration)."""

from jax import numpy as jnp
from jax.scipy.special import erf


def mTI(energy, field, w, nex_ni_ratio, py0, py1, py2, py3, py4):
    # modified Thomas-Imel box: recombination of ni ion pairs, with a Fermi-Dirac cut at low energy
    ni = energy / w / (1 + nex_ni_ratio)
    v = ni * py0 * jnp.exp(-energy / py1) * field**py2 / 4
    return {"recomb_mean": jnp.where(v < 0.01, v / 2 - v**2 / 3, 1 - jnp.log(1 + v) / v) / (1 + jnp.exp((py3 - energy) / py4))}


def RecombFluct(energy, rf0, rf1):
    return {"recomb_std": rf0 * (1 - jnp.exp(-energy / rf1))}


def TotalQuanta(energy, alpha, beta):
    return {"_Nq": alpha * energy**beta}


def ThomasImelBox(field, gamma, delta, liquid_xe_density):
    return {"ThomasImel": gamma * field**delta * (liquid_xe_density / 2.9) ** 0.3}


def QyNR(energy, ThomasImel, epsilon, zeta, eta):
    return {"charge_yield": (1 - 1 / (1 + (energy / zeta) ** eta)) / ThomasImel / jnp.sqrt(energy + epsilon)}


def LyNR(energy, _Nq, charge_yield, theta, iota):
    ly = (_Nq / energy - charge_yield) * (1 - 1 / (1 + (energy / theta) ** iota))
    return {"light_yield": jnp.where(ly > 0, ly, jnp.nan)}


def OmegaNR(elecFrac, recombProb, Ni, A, xi, omega):
    om = A * jnp.exp(-((elecFrac - xi) ** 2) / (2 * omega**2))
    return {"omega": om, "Variance": recombProb * (1 - recombProb) * Ni + (om * Ni) ** 2}


def OmegaER(elecFrac, recombProb, Ni, field, A_er, xi_er, omega_er, alpha3_er):
    # a skewed Gaussian of the electron fraction whose height at its (approximate) mode is the amplitude
    ampl = 0.086036 + (A_er - 0.086036) / (1 + (field / 295.2) ** 251.6) ** 0.0069114
    d = jnp.sqrt(2 / jnp.pi) * alpha3_er / jnp.sqrt(1 + alpha3_er**2)
    x = (elecFrac - xi_er) / omega_er
    shape = jnp.exp(-(x**2) / 2) * (1 + erf(alpha3_er * x / jnp.sqrt(2)))
    om = ampl * shape / (jnp.exp(-(d**2) / 2) * (1 + erf(alpha3_er * d / jnp.sqrt(2))))
    return {"omega": om, "Variance": recombProb * (1 - recombProb) * Ni + (om * Ni) ** 2}


def ExcitonIonRatioER(energy, liquid_xe_density):
    return {"nex_ni_ratio": (0.067366 + 0.039693 * liquid_xe_density) * erf(0.05 * energy)}


def FanoFactorER(_Nph, _Ne, field, delta_f, liquid_xe_density):
    base = 0.12707 - 0.029623 * liquid_xe_density - 0.0057042 * liquid_xe_density**2 + 0.0015957 * liquid_xe_density**3
    return {"fano_nq": jnp.where(delta_f > 0, delta_f, base - delta_f * jnp.sqrt((_Nph + _Ne) * field))}


def QyER(energy, nex_ni_ratio, field, m1, m2, m3, m4, m7, m8, m9, m10, w):
    # NEST's density factors cancel
    a1 = 30.66 + (m1 - 30.66) / (1 + (field / 73.855) ** 2.0318) ** 0.41883
    a3 = m3 + 0.13946236 * jnp.log10(field)
    a4 = 1.82217496 + (m4 - 1.82217496) / (1 + (field / 144.65029656) ** -2.80532006)
    a5 = 1 / w / (1 + nex_ni_ratio) - a1
    a7 = 7.02921301 + (m7 - 7.02921301) / (1 + (field / 256.48156448) ** 1.29119251)
    a10 = 0.0508273937 + (m10 - 0.0508273937) / (1 + (field / 139.260460) ** -0.65763592)
    qy = a1 + (m2 - a1) / (1 + (energy / a3) ** a4) ** m9 + a5 - a5 / (1 + (energy / a7) ** m8) ** a10
    return {"charge_yield": jnp.where(qy > 0, qy, jnp.nan)}


def MonoEnergiesClipEff(energy_center, clip_lower_energy, clip_upper_energy):
    return {"eff": jnp.where(energy_center >= clip_lower_energy, jnp.where(energy_center <= clip_upper_energy, 1, 0), 0)}
