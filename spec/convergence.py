"""Convergence criterion."""
import numpy as np


def near(d, w, tol):
    return w == 0.0 or np.abs(d) <= tol


def all_five(d, w, tol):
    return near(d[0], w[0], tol[0]) and near(d[1], w[1], tol[1]) and near(d[2], w[2], tol[2]) \
        and near(d[3], w[3], tol[3]) and near(d[4], w[4], tol[4])


def plain(oe, oeT, w, tol):
    return all_five([oe[j] - oeT[j] for j in range(5)], w, tol)


def kep_acos(oe, oeT, w, tol):
    d = [oe[j] - oeT[j] for j in range(3)] + [np.arccos(np.cos(oe[j] - oeT[j])) for j in (3, 4)]
    return all_five(d, w, tol)


def kep_atan2(oe, oeT, w, tol):
    d = [oe[j] - oeT[j] for j in range(3)] + [np.arctan2(np.sin(oe[j] - oeT[j]), np.cos(oe[j] - oeT[j])) for j in (3, 4)]
    return all_five(d, w, tol)


def kep_mod(oe, oeT, w, tol):
    d = [oe[j] - oeT[j] for j in range(3)] + [(oe[j] - oeT[j] + np.pi) % (2*np.pi) - np.pi for j in (3, 4)]
    return all_five(d, w, tol)


def kep_mod2(oe, oeT, w, tol):
    d = [oe[j] - oeT[j] for j in range(3)] + [(oeT[j] - oe[j] + np.pi) % (2*np.pi) - np.pi for j in (3, 4)]
    return all_five(d, w, tol)


def kep_atan2b(oe, oeT, w, tol):
    d = [oe[j] - oeT[j] for j in range(3)] + [np.arctan2(np.sin(oeT[j] - oe[j]), np.cos(oeT[j] - oe[j])) for j in (3, 4)]
    return all_five(d, w, tol)
