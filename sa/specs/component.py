import numpy as np


def on_pdf(hist, rate, batch_size, nsel):
    return rate / np.sum(hist)


def on_sim(hist, rate, batch_size, nsel):
    return rate / batch_size


def on_mcinput(hist, rate, batch_size, nsel):
    return rate / nsel
