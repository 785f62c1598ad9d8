"""Expected values of plugin outputs: every draw at its mean, away from the limits of the allowed range."""

from jax import numpy as jnp


def Quanta(energy, w):
    return {"num_quanta": energy / w}


def IonizationER(num_quanta, nex_ni_ratio):
    return {"num_ion": num_quanta / (1 + nex_ni_ratio)}


def TrueRecombER(recomb_mean):
    return {"recomb": recomb_mean}


def RecombinationER(num_quanta, num_ion, recomb):
    ne = (1 - recomb) * num_ion
    return {"num_electron": ne, "num_photon": num_quanta - ne}


def LightYield(ly_median, t_ly):
    return {"light_yield": ly_median * (1 + t_ly)}


def ChargeYield(qy_median, t_qy):
    return {"charge_yield": qy_median * (1 + t_qy)}


def NumberPhoton(energy, light_yield):
    return {"num_photon": energy * light_yield}


def NumberElectron(energy, charge_yield):
    return {"num_electron": energy * charge_yield}


def PhotonDetection(num_photon, s1_lce, g1, p_dpe):
    return {"num_s1_phd": num_photon * g1 * s1_lce / (1 + p_dpe)}


def S1PE(num_s1_phd, p_dpe):
    return {"num_s1_pe": num_s1_phd * (1 + p_dpe)}


def DriftLoss(z, drift_velocity, elife, elife_sigma):
    return {"drift_survive_prob": jnp.exp(-jnp.abs(z) / drift_velocity / (elife * (1 + elife_sigma)))}


def ElectronDrifted(num_electron, drift_survive_prob):
    return {"num_electron_drifted": num_electron * drift_survive_prob}


def S2PE(num_electron_drifted, s2_lce, g2):
    return {"num_s2_pe": num_electron_drifted * g2 * s2_lce}


def S1(num_s1_pe, s1_bias_3f):
    return {"s1_area": num_s1_pe * (1 + s1_bias_3f)}


def S2(num_s2_pe, s2_bias):
    return {"s2_area": num_s2_pe * (1 + s2_bias)}


def cS1(s1_area, s1_correction):
    return {"cs1": s1_area / s1_correction}


def cS2(s2_area, s2_correction, drift_survive_prob):
    return {"cs2": s2_area / s2_correction / drift_survive_prob}


def PositionRecon(x, y, z):
    return {"rec_x": x, "rec_y": y, "rec_z": z, "rec_r": jnp.sqrt(x**2 + y**2)}


def LyER(charge_yield, w):
    return {"light_yield": 1 / w - charge_yield}


def MeanNphNeER(light_yield, charge_yield, energy):
    return {"_Nph": light_yield * energy, "_Ne": charge_yield * energy}


def MeanNphNe(light_yield, charge_yield, energy):
    return {"_Nph": light_yield * energy, "_Ne": charge_yield * energy}


def ExcitonIonRatioER(nex_ni_ratio):
    return {"alf": 1 / (1 + nex_ni_ratio)}


def MeanExcitonIonER(nex_ni_ratio, _Nph, _Ne):
    f = _Ne / (_Nph + _Ne)
    r = 1 - (1 + nex_ni_ratio) * f
    return {"elecFrac": f, "recombProb": jnp.where(r > 0, r, jnp.nan)}


def TrueExcitonIonER(_Nph, _Ne, alf):
    n = _Nph + _Ne
    return {"Nq": n, "Ni": alf * n, "Nex": (1 - alf) * n}


def TruePhotonElectronER(recombProb, Ni, Nq):
    ne = (1 - recombProb) * Ni
    return {"num_electron": ne, "num_photon": Nq - ne}


def MeanExcitonIon(ThomasImel, _Nph, _Ne):
    ni = 4 / ThomasImel * (jnp.exp(_Ne * ThomasImel / 4) - 1)
    nex = _Nph + _Ne - ni
    f = _Ne / (_Nph + _Ne)
    return {"_Ni": ni, "_Nex": nex, "nex_ni_ratio": nex / ni, "alf": ni / (_Nph + _Ne), "elecFrac": f, "recombProb": 1 - (_Nph + _Ne) / ni * f}


def TrueExcitonIonNR(_Nph, _Ne, nex_ni_ratio, alf):
    n = _Nph + _Ne
    return {"Ni": n * alf, "Nex": n * alf * nex_ni_ratio, "Nq": n * alf * (1 + nex_ni_ratio)}


def EField(field, efield_map, efield_position_dependence):
    return {"field": jnp.where(efield_position_dependence > 0, efield_map, field)}


def always_PositionRecon(rec_x, rec_y):
    return {"rec_r": jnp.sqrt(rec_x**2 + rec_y**2)}


def S2Threshold(s2_area, s2_threshold):
    return {"acc_s2_threshold": jnp.where(s2_area > s2_threshold, 1, 0)}


def Eff(acc_s2_threshold, acc_s1_recon_eff, cut_acc_s1, cut_acc_s2):
    return {"eff": acc_s2_threshold * acc_s1_recon_eff * cut_acc_s1 * cut_acc_s2}


def S1ReconEff(s1_eff_3f):
    return {"acc_s1_recon_eff": s1_eff_3f}


def S1CutAccept(s1_cut_acc):
    return {"cut_acc_s1": s1_cut_acc}


def S2CutAccept(s2_cut_acc):
    return {"cut_acc_s2": s2_cut_acc}


def TruePhotonElectronNR(recombProb, Ni, Nq):
    ne = (1 - recombProb) * Ni
    return {"num_electron": ne, "num_photon": Nq - ne}


def spread_Quanta(energy, w, fano):
    return jnp.sqrt(fano * energy / w)


def spread_IonizationER(num_quanta, nex_ni_ratio):
    return jnp.sqrt(num_quanta * nex_ni_ratio) / (1 + nex_ni_ratio)


def spread_TrueRecombER(recomb_std):
    return recomb_std


def spread_RecombinationER(num_ion, recomb):
    return jnp.sqrt(num_ion * recomb * (1 - recomb))


def spread_NumberPhoton(energy, light_yield):
    return jnp.sqrt(energy * light_yield)


def spread_NumberElectron(energy, charge_yield):
    return jnp.sqrt(energy * charge_yield)


def spread_PhotonDetection(num_photon, s1_lce, g1, p_dpe):
    p = g1 * s1_lce / (1 + p_dpe)
    return jnp.sqrt(num_photon * p * (1 - p))


def spread_S1PE(num_s1_phd, p_dpe):
    return jnp.sqrt(num_s1_phd * p_dpe * (1 - p_dpe))


def spread_ElectronDrifted(num_electron, drift_survive_prob):
    return jnp.sqrt(num_electron * drift_survive_prob * (1 - drift_survive_prob))


def spread_S2PE(num_electron_drifted, s2_lce, g2, gas_gain, gas_gain_relative, p_dpe):
    # electrons are extracted, each gives Poisson photons, each photon may give a second photoelectron
    ext = g2 / gas_gain / gas_gain_relative
    n = num_electron_drifted
    phd = n * g2 * s2_lce / (1 + p_dpe)
    return [jnp.sqrt(n * ext * (1 - ext)), jnp.sqrt(phd), jnp.sqrt(phd * p_dpe * (1 - p_dpe))]


def spread_S1(s1_smear_3f):
    return s1_smear_3f


def spread_S2(s2_smear):
    return s2_smear


def spread_PositionRecon(posrec_reso):
    return [posrec_reso / jnp.sqrt(2), posrec_reso / jnp.sqrt(2)]


def spread_TrueExcitonIonER(_Nph, _Ne, fano_nq, alf):
    n = _Nph + _Ne
    return [jnp.sqrt(fano_nq * n), jnp.sqrt(n * alf * (1 - alf))]


def spread_TrueExcitonIonNR(_Nph, _Ne, nex_ni_ratio, alf, fano_ni, fano_nex):
    n = _Nph + _Ne
    return [jnp.sqrt(fano_ni * n * alf), jnp.sqrt(fano_nex * n * alf * nex_ni_ratio)]


def spread_TruePhotonElectronER(Variance):
    return jnp.sqrt(Variance)


def spread_TruePhotonElectronNR(Variance):
    return jnp.sqrt(Variance)
