"""Reference formulas of the derived quantities (parsed, never executed).

Each function restates the published definition of a derived quantity in
terms of numpy primitives; the analysis compares the value graph of the
registered function with the value graph of its namesake here.
"""
import numpy
from scipy import integrate

from goats.core import physical

MKS = physical.Constants('mks')


def x(r, theta, phi):
    return r * numpy.sin(theta) * numpy.cos(phi)


def y(r, theta, phi):
    return r * numpy.sin(theta) * numpy.sin(phi)


def z(r, theta):
    return r * numpy.cos(theta)


def b_mag(br, bt, bp):
    return numpy.sqrt(br**2 + bt**2 + bp**2)


def v_mag(vr, vt, vp):
    return numpy.sqrt(vr**2 + vt**2 + vp**2)


def bv_mag(br, bt, bp, vr, vt, vp):
    return numpy.sqrt((br**2 + bt**2 + bp**2) * (vr**2 + vt**2 + vp**2))


def flow_angle(br, bt, bp, vr, vt, vp):
    dot = br*vr + bt*vt + bp*vp
    norm = numpy.sqrt((br**2 + bt**2 + bp**2) * (vr**2 + vt**2 + vp**2))
    return numpy.arccos(numpy.clip(dot / norm, -1.0, 1.0))


def v_para(vr, vt, vp, br, bt, bp):
    return (br*vr + bt*vt + bp*vp) / numpy.sqrt(br**2 + bt**2 + bp**2)


def v_perp(vr, vt, vp, br, bt, bp):
    para2 = (br*vr + bt*vt + bp*vp)**2 / (br**2 + bt**2 + bp**2)
    return numpy.sqrt(vr**2 + vt**2 + vp**2 - para2)


def div_v(rho, time):
    return -numpy.gradient(numpy.log(rho), time, axis=0)


def density_ratio(rho):
    return rho / rho[0, ...]


def rigidity(energy, mass, charge):
    c = float(MKS['c'])
    p = numpy.sqrt(energy**2 + 2*energy*mass*c**2) / c
    return p / charge


def mean_free_path(r, energy, mass, charge,
                   mfp_radial_power, rigidity_power, lambda0):
    c = float(MKS['c'])
    e0 = 1e6 * float(MKS['eV'])
    p = numpy.sqrt(energy**2 + 2*energy*mass*c**2)
    p0 = numpy.sqrt(e0**2 + 2*e0*mass*c**2)
    return lambda0 * numpy.tensordot(
        (r / float(MKS['au'])) ** mfp_radial_power,
        (p / p0) ** rigidity_power,
        axes=0,
    )


def acceleration_rate(vr, vtheta, vphi, vparticle, angle, mfp, kper_kpar):
    v = numpy.sqrt(vr**2 + vtheta**2 + vphi**2)
    ahead = v[:, [*range(1, v.shape[1]), v.shape[1] - 1], ...]
    dot = (
        vr[:, [*range(1, vr.shape[1]), vr.shape[1] - 1], ...]
        * vr[:, [0, *range(vr.shape[1] - 1)], ...]
        + vtheta[:, [*range(1, vtheta.shape[1]), vtheta.shape[1] - 1], ...]
        * vtheta[:, [0, *range(vtheta.shape[1] - 1)], ...]
        + vphi[:, [*range(1, vphi.shape[1]), vphi.shape[1] - 1], ...]
        * vphi[:, [0, *range(vphi.shape[1] - 1)], ...]
    )
    delta_v = ahead * numpy.abs(1 - dot / ahead**2)
    geometry = numpy.cos(angle)**2 + kper_kpar * numpy.sin(angle)**2
    kappa = mfp * numpy.tensordot(geometry, vparticle, axes=0) / 3.0
    k = (kappa.transpose((2, 3, 0, 1)) / v).transpose((2, 3, 0, 1))
    delta_x = 3.0 * (
        k[:, [*range(1, k.shape[1]), k.shape[1] - 1], ...]
        + k[:, [0, *range(k.shape[1] - 1)], ...]
    )
    return (delta_v / delta_x.transpose((2, 3, 0, 1))).transpose((2, 3, 0, 1))


def energy_density(speed, isodist):
    dv = numpy.gradient(speed, axis=-1)
    return float(MKS['mp']) * numpy.sum(speed**4 * isodist * dv, axis=-1)


def average_energy(speed, isodist):
    dv = numpy.gradient(speed, axis=-1)
    return 0.5 * float(MKS['mp']) * (
        numpy.sum(speed**4 * isodist * dv, axis=-1)
        / numpy.sum(speed**2 * isodist * dv, axis=-1)
    )


def isotropic_distribution(dist):
    return numpy.mean(dist, axis=-1)


def flux(energy, isodist):
    return 2 * energy / float(MKS['mp'])**2 * isodist


def fluence(flux, time):
    return integrate.simpson(flux, time, axis=0)


def lower_edge(f, f1, x, x1, m):
    """Power-law value at `m` between (x, f) and (x1, f1)."""
    return f * (m / x) ** (numpy.log(f1 / f) / numpy.log(x1 / x))


def tail(f, x, i, m):
    """Samples of a power-law spectrum from `m` upwards (x[i] <= m)."""
    xc = x.copy()
    fc = f.copy()
    fc[..., i] = lower_edge(f[..., i], f[..., i+1], x[i], x[i+1], m)
    xc[i] = m
    return fc[..., i:], xc[i:]
