"""Gauss's variational equations in radial / transverse / normal components."""
import numpy as np


def kep_columns(oe, mu):
    """sensitivities of (a, e, i, node, periapsis) to the radial, transverse and normal acceleration"""
    a, e, i, O, w, th = oe
    p = a*(1 - e**2)
    h = np.sqrt(mu*p)
    r = p/(1 + e*np.cos(th))
    R = [2*a**2*e*np.sin(th)/h, p*np.sin(th)/h, 0.0, 0.0, -p*np.cos(th)/(e*h)]
    S = [2*a**2*p/(r*h), ((p + r)*np.cos(th) + r*e)/h, 0.0, 0.0, (p + r)*np.sin(th)/(e*h)]
    W = [0.0, 0.0, r*np.cos(th + w)/h, r*np.sin(th + w)/(h*np.sin(i)), -r*np.sin(th + w)*np.cos(i)/(h*np.sin(i))]
    return [R, S, W]


def kep_rates(oe, mu, acc):
    a, e, i, O, w, th = oe
    p = a*(1 - e**2)
    h = np.sqrt(mu*p)
    r = p/(1 + e*np.cos(th))
    R, S, W = kep_columns(oe, mu)
    out = [R[j]*acc[0] + S[j]*acc[1] + W[j]*acc[2] for j in range(5)]
    out.append(h/r**2 + (p*np.cos(th)*acc[0] - (p + r)*np.sin(th)*acc[1])/(e*h))
    return out


def mee_columns(oe, mu):
    """sensitivities of (p, f, g, h, k)"""
    p, f, g, h, k, L = oe
    w = 1 + f*np.cos(L) + g*np.sin(L)
    s2 = 1 + h**2 + k**2
    q = np.sqrt(p/mu)
    n = h*np.sin(L) - k*np.cos(L)
    R = [0.0, q*np.sin(L), -q*np.cos(L), 0.0, 0.0]
    S = [2*p*q/w, q*((w + 1)*np.cos(L) + f)/w, q*((w + 1)*np.sin(L) + g)/w, 0.0, 0.0]
    W = [0.0, -q*g*n/w, q*f*n/w, q*s2*np.cos(L)/(2*w), q*s2*np.sin(L)/(2*w)]
    return [R, S, W]


def mee_last(oe, mu, acc):
    p, f, g, h, k, L = oe
    w = 1 + f*np.cos(L) + g*np.sin(L)
    n = h*np.sin(L) - k*np.cos(L)
    return np.sqrt(mu*p)*(w/p)**2 + np.sqrt(p/mu)*n/w*acc[2]


def mee_rates(oe, mu, acc):
    R, S, W = mee_columns(oe, mu)
    out = [R[j]*acc[0] + S[j]*acc[1] + W[j]*acc[2] for j in range(5)]
    out.append(mee_last(oe, mu, acc))
    return out


def mee_a_columns(oe, mu):
    """sensitivities of (a, f, g, h, k); da/dt = 2 a^2/h (e sin(theta) R + p/r S) without the angle"""
    a, f, g, h, k, L = oe
    p = a*(1 - f**2 - g**2)
    w = 1 + f*np.cos(L) + g*np.sin(L)
    R, S, W = mee_columns([p, f, g, h, k, L], mu)
    am = np.sqrt(mu*p)
    R[0] = 2*a**2/am*(f*np.sin(L) - g*np.cos(L))
    S[0] = 2*a**2/am*w
    W[0] = 0.0
    return [R, S, W]


def mee_a_rates(oe, mu, acc):
    a, f, g, h, k, L = oe
    p = a*(1 - f**2 - g**2)
    R, S, W = mee_a_columns(oe, mu)
    out = [R[j]*acc[0] + S[j]*acc[1] + W[j]*acc[2] for j in range(5)]
    out.append(mee_last([p, f, g, h, k, L], mu, acc))
    return out
