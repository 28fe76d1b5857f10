"""Textbook definitions (analysed, never run)."""
import numpy as np


def kep2mee(oe):
    a, e, i, raan, om, ta = oe
    return [a * (1 - e**2), e * np.cos(om + raan), e * np.sin(om + raan),
            np.tan(i / 2) * np.cos(raan), np.tan(i / 2) * np.sin(raan), raan + om + ta]


def kep2mee_with_a(oe):
    a, e, i, raan, om, ta = oe
    return [a, e * np.cos(om + raan), e * np.sin(om + raan),
            np.tan(i / 2) * np.cos(raan), np.tan(i / 2) * np.sin(raan), raan + om + ta]


def kep2sv(oe, mu):
    a, e, i, raan, om, ta = oe
    p = a * (1 - e**2)
    r = p / (1 + e * np.cos(ta))
    # perifocal unit vectors in the inertial frame
    P = [np.cos(raan)*np.cos(om) - np.sin(raan)*np.sin(om)*np.cos(i),
         np.sin(raan)*np.cos(om) + np.cos(raan)*np.sin(om)*np.cos(i),
         np.sin(om)*np.sin(i)]
    Q = [-np.cos(raan)*np.sin(om) - np.sin(raan)*np.cos(om)*np.cos(i),
         -np.sin(raan)*np.sin(om) + np.cos(raan)*np.cos(om)*np.cos(i),
         np.cos(om)*np.sin(i)]
    v = np.sqrt(mu / p)
    return [r*np.cos(ta)*P[j] + r*np.sin(ta)*Q[j] for j in range(3)] + \
           [-v*np.sin(ta)*P[j] + v*(e + np.cos(ta))*Q[j] for j in range(3)]


def mee2sv(oe, mu):
    """Cartesian state of equinoctial elements with semimajor axis, without intermediate angles"""
    a, f, g, h, k, L = oe
    p = a * (1 - f**2 - g**2)
    w = 1 + f*np.cos(L) + g*np.sin(L)
    r = p / w
    al = h**2 - k**2
    s2 = 1 + h**2 + k**2
    c, s = np.cos(L), np.sin(L)
    q = np.sqrt(mu / p) / s2
    return [r/s2 * (c + al*c + 2*h*k*s), r/s2 * (s - al*s + 2*h*k*c), 2*r/s2 * (h*s - k*c),
            -q * (s + al*s - 2*h*k*c + g - 2*f*h*k + al*g),
            -q * (-c + al*c + 2*h*k*s - f + 2*g*h*k + al*f),
            2*q * (h*c + k*s + f*h + g*k)]


def angular_momentum(s):
    x, y, z, vx, vy, vz = s
    return [y*vz - z*vy, z*vx - x*vz, x*vy - y*vx]


def norm3(v):
    return np.sqrt(v[0]**2 + v[1]**2 + v[2]**2)


def eccentricity_vector(s, mu):
    """(v^2/mu - 1/r) r - (r.v)/mu v"""
    r = s[0:3]
    v = s[3:6]
    rn = norm3(r)
    v2 = v[0]**2 + v[1]**2 + v[2]**2
    rv = r[0]*v[0] + r[1]*v[1] + r[2]*v[2]
    return [(v2/mu - 1/rn)*r[j] - rv/mu*v[j] for j in range(3)]


def sma(s, mu):
    r = s[0:3]
    v = s[3:6]
    return 1 / (2/norm3(r) - (v[0]**2 + v[1]**2 + v[2]**2)/mu)


def raan(s):
    h = angular_momentum(s)
    return np.arctan2(h[0], -h[1])


def inclination(s):
    h = angular_momentum(s)
    return np.arctan2(np.sqrt(h[0]**2 + h[1]**2), h[2])


def true_anomaly(s, mu):
    """e cos(theta) = h^2/(mu r) - 1 and e sin(theta) = h vr/mu"""
    r = s[0:3]
    v = s[3:6]
    rn = norm3(r)
    hn = norm3(angular_momentum(s))
    vr = (r[0]*v[0] + r[1]*v[1] + r[2]*v[2]) / rn
    return np.arctan2(hn*vr, hn**2/rn - mu)


def node_vector(s):
    h = angular_momentum(s)
    return [-h[1], h[0], 0.0]


def arg_periapsis(s, mu):
    """angle from the node to the eccentricity vector, in the sense of motion"""
    n = node_vector(s)
    e = eccentricity_vector(s, mu)
    h = angular_momentum(s)
    hn = norm3(h)
    ne = n[0]*e[0] + n[1]*e[1] + n[2]*e[2]
    # (n x e) . h/|h|
    cr = ((n[1]*e[2] - n[2]*e[1])*h[0] + (n[2]*e[0] - n[0]*e[2])*h[1] + (n[0]*e[1] - n[1]*e[0])*h[2]) / hn
    return np.arctan2(cr, ne)


def arg_periapsis_acos(s, mu):
    n = node_vector(s)
    e = eccentricity_vector(s, mu)
    ne = n[0]*e[0] + n[1]*e[1] + n[2]*e[2]
    c = ne / (norm3(n)*norm3(e))
    w = np.arccos(max(-1.0, min(1.0, c)))
    if e[2] < 0:
        return 2*np.pi - w
    return w


def longitude_periapsis(s, mu):
    e = eccentricity_vector(s, mu)
    return np.arctan2(e[1], e[0])


def node_times_ecc(s, mu):
    return norm3(node_vector(s)) * norm3(eccentricity_vector(s, mu))


def cosine_inclination(s):
    h = angular_momentum(s)
    return h[2] / norm3(h)


def orbit(oe, mu, steps):
    tas = np.linspace(0.0, 2*np.pi, steps)
    out = []
    for j in range(steps):
        out.append(kep2sv([oe[0], oe[1], oe[2], oe[3], oe[4], tas[j]], mu))
    return out


def mee2kep(oe):
    p, f, g, h, k, L = oe
    a = p / (1 - f**2 - g**2)
    e = np.sqrt(f**2 + g**2)
    i = 2*np.arctan(np.sqrt(h**2 + k**2))
    raan = np.arctan2(k, h)
    om = np.arctan2(g, f) - raan
    return [a, e, i, raan, om, L - np.arctan2(g, f)]


def mee_with_a2sv_via_angles(oe, mu):
    a, f, g, h, k, L = oe
    return kep2sv(mee2kep([a*(1 - f**2 - g**2), f, g, h, k, L]), mu)


def mee_with_a2mee(x):
    return np.array([x[0]*(1 - x[1]**2 - x[2]**2), x[1], x[2], x[3], x[4], x[5]])
