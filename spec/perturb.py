"""Perturbing accelerations in textbook form."""
import numpy as np


def third_body(r, s, gm):
    """attraction of the third body on the spacecraft minus its attraction on the primary"""
    d = [s[i] - r[i] for i in range(3)]
    dn = np.sqrt(d[0]**2 + d[1]**2 + d[2]**2)
    sn = np.sqrt(s[0]**2 + s[1]**2 + s[2]**2)
    return [gm*(d[i]/dn**3 - s[i]/sn**3) for i in range(3)]


def j2_potential(x, y, z, mu, J2, R):
    """potential whose negative gradient is the oblateness acceleration, principal axes"""
    r = np.sqrt(x**2 + y**2 + z**2)
    return mu*J2*R**2/r**3*(3*(z/r)**2 - 1)/2


def srp(d, AU, k):
    """inverse-square push away from the Sun, k at one astronomical unit"""
    n = np.sqrt(d[0]**2 + d[1]**2 + d[2]**2)
    return [k*(AU/n)**2*d[i]/n for i in range(3)]


def frame(r, v):
    """rows: radial, transverse and normal unit vector"""
    rn = np.sqrt(r[0]**2 + r[1]**2 + r[2]**2)
    R = [r[i]/rn for i in range(3)]
    h = [r[1]*v[2] - r[2]*v[1], r[2]*v[0] - r[0]*v[2], r[0]*v[1] - r[1]*v[0]]
    hn = np.sqrt(h[0]**2 + h[1]**2 + h[2]**2)
    N = [h[i]/hn for i in range(3)]
    S = [N[1]*R[2] - N[2]*R[1], N[2]*R[0] - N[0]*R[2], N[0]*R[1] - N[1]*R[0]]
    return [R, S, N]
