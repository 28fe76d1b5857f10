"""Two-body time of flight over an increment of eccentric anomaly."""
import numpy as np


def keplerian(x, dE, mu):
    e, th = x[1], x[5]
    sE = np.sqrt(1 - e**2)*np.sin(th)/(1 + e*np.cos(th))
    cE = (e + np.cos(th))/(1 + e*np.cos(th))
    sE1 = sE*np.cos(dE) + cE*np.sin(dE)
    return np.sqrt(x[0]**3/mu)*(dE - e*(sE1 - sE))


def half(E0, e, x, dE, mu):
    return np.sqrt(x[0]**3/mu)*(dE - e*(np.sin(E0 + dE) - np.sin(E0)))


def keplerian_half(x, dE, mu):
    return half(2*np.arctan(np.sqrt((1 - x[1])/(1 + x[1]))*np.tan(x[5]/2)), x[1], x, dE, mu)


def keplerian_atan2(x, dE, mu):
    e, th = x[1], x[5]
    return half(np.arctan2(np.sqrt(1 - e**2)*np.sin(th), e + np.cos(th)), e, x, dE, mu)
