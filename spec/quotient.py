"""Documented Lyapunov function (docs/source/theory.rst and Petropoulos' maximal rates)."""
import numpy as np


def penalty(k, rp, rpmin):
    return np.exp(k*(1 - rp/rpmin))


def scaling(a, aT, m, n, r):
    return (1 + (np.abs(a - aT)/(m*aT))**n)**(1/r)


def rates_kep(oe, mu, f, b):
    """maximal rates over thrust direction and true anomaly"""
    a, e, i, O, w, th = oe
    p = a*(1 - e**2)
    h = np.sqrt(mu*p)
    adot = 2*f*np.sqrt(a**3*(1 + e)/(mu*(1 - e)))
    edot = 2*p*f/h
    idot = p*f/(h*(np.sqrt(1 - e**2*np.sin(w)**2) - e*np.abs(np.cos(w))))
    Odot = p*f/(h*np.sin(i)*(np.sqrt(1 - e**2*np.cos(w)**2) - e*np.abs(np.sin(w))))
    q = (1 - e**2)/(2*e**3)
    root = np.sqrt(((1 - e**2)/e**3)**2/4 + 1/27)
    c = (q + root)**(1/3) - (-q + root)**(1/3) - 1/e
    rxx = p/(1 + e*c)
    wi = f/(e*h)*np.sqrt(p**2*c**2 + (p + rxx)**2*(1 - c**2))
    wo = Odot*np.abs(np.cos(i))
    return [adot, edot, idot, Odot, (wi + b*wo)/(1 + b)]


def rates_mee(oe, mu, f0):
    a, f, g, h, k, L = oe
    e = np.sqrt(f**2 + g**2)
    p = a*(1 - f**2 - g**2)
    s2 = 1 + h**2 + k**2
    q = np.sqrt(p/mu)
    return [2*f0*a*np.sqrt(a/mu)*np.sqrt((1 + e)/(1 - e)), 2*f0*q, 2*f0*q,
            f0*q*s2/(2*(np.sqrt(1 - g**2) + f)), f0*q*s2/(2*(np.sqrt(1 - f**2) + g))]


def combine(oe, oeT, rp, d, x, rpmin, m, n, r, k, wp, w):
    s = scaling(oe[0], oeT[0], m, n, r)
    tot = w[0]*s*(d[0]/x[0])**2
    for j in range(1, 5):
        tot = tot + w[j]*(d[j]/x[j])**2
    return (1 + wp*penalty(k, rp, rpmin))*tot


def q_kep(mu, f, oe, oeT, rpmin, m, n, r, b, k, wp, w):
    """angular distances as the shorter way round"""
    d = [oe[0] - oeT[0], oe[1] - oeT[1], oe[2] - oeT[2],
         np.arccos(np.cos(oe[3] - oeT[3])), np.arccos(np.cos(oe[4] - oeT[4]))]
    return combine(oe, oeT, oe[0]*(1 - oe[1]), d, rates_kep(oe, mu, f, b), rpmin, m, n, r, k, wp, w)


def q_kep_signed(mu, f, oe, oeT, rpmin, m, n, r, b, k, wp, w):
    """the same distances through the signed angle"""
    d = [oe[0] - oeT[0], oe[1] - oeT[1], oe[2] - oeT[2],
         np.arctan2(np.sin(oe[3] - oeT[3]), np.cos(oe[3] - oeT[3])),
         np.arctan2(np.sin(oe[4] - oeT[4]), np.cos(oe[4] - oeT[4]))]
    return combine(oe, oeT, oe[0]*(1 - oe[1]), d, rates_kep(oe, mu, f, b), rpmin, m, n, r, k, wp, w)


def q_mee(mu, f0, oe, oeT, rpmin, m, n, r, b, k, wp, w):
    e = np.sqrt(oe[1]**2 + oe[2]**2)
    d = [oe[0] - oeT[0], oe[1] - oeT[1], oe[2] - oeT[2], oe[3] - oeT[3], oe[4] - oeT[4]]
    return combine(oe, oeT, oe[0]*(1 - e), d, rates_mee(oe, mu, f0), rpmin, m, n, r, k, wp, w)
