"""Independent knowledge of units, quantities and constants.

Written from the SI brochure and the usual Gaussian-unit tables; nothing here
is read from the repository.
"""

import math
import re
from fractions import Fraction

from .numdom import Dim

C_CM = 2.99792458e10
PI = math.pi

PREFIX = {
    'Y': 1e24, 'Z': 1e21, 'E': 1e18, 'P': 1e15, 'T': 1e12, 'G': 1e9,
    'M': 1e6, 'k': 1e3, 'h': 1e2, 'da': 1e1, '': 1.0, 'd': 1e-1, 'c': 1e-2,
    'm': 1e-3, 'μ': 1e-6, 'u': 1e-6, 'n': 1e-9, 'p': 1e-12, 'f': 1e-15,
    'a': 1e-18, 'z': 1e-21, 'y': 1e-24, 'Q': 1e30, 'R': 1e27, 'r': 1e-27,
    'q': 1e-30,
}
PREFIX_NAME = {
    'yotta': 'Y', 'zetta': 'Z', 'exa': 'E', 'peta': 'P', 'tera': 'T',
    'giga': 'G', 'mega': 'M', 'kilo': 'k', 'hecto': 'h', 'deca': 'da',
    'deka': 'da', '': '', 'deci': 'd', 'centi': 'c', 'milli': 'm',
    'micro': 'μ', 'nano': 'n', 'pico': 'p', 'femto': 'f', 'atto': 'a',
    'zepto': 'z', 'yocto': 'y',
}

H = Fraction(1, 2)


def d(**k):
    return Dim({a: Fraction(b) for a, b in k.items() if b})


ONE = Dim()

# symbol -> (kind, magnitude, SI dimension, Gaussian dimension)
# magnitude is in coherent SI for 'si' units, coherent Gaussian for 'cgs'.
G_Q = d(M=H, L=Fraction(3, 2), T=-1)
UNITS = {
    'm': ('si', 1.0, d(L=1), d(L=1), 'length', 'meter'),
    'au': ('si', 1.495978707e11, d(L=1), d(L=1), 'length',
           'astronomical unit'),
    'g': ('si', 1e-3, d(M=1), d(M=1), 'mass', 'gram'),
    'nuc': ('si', 1.66053907e-27, ONE, ONE, 'mass number', 'nucleon'),
    'amu': ('si', 1.66053907e-27, ONE, ONE, 'mass number',
            'atomic mass unit'),
    's': ('si', 1.0, d(T=1), d(T=1), 'time', 'second'),
    'min': ('si', 60.0, d(T=1), d(T=1), 'time', 'minute'),
    'h': ('si', 3600.0, d(T=1), d(T=1), 'time', 'hour'),
    'd': ('si', 86400.0, d(T=1), d(T=1), 'time', 'day'),
    'A': ('si', 1.0, d(I=1), G_Q / d(T=1), 'current', 'ampere'),
    'K': ('si', 1.0, d(H=1), d(H=1), 'temperature', 'kelvin'),
    'mol': ('si', 1.0, d(N=1), d(N=1), 'amount', 'mole'),
    '#': ('si', 1.0, ONE, ONE, 'number', 'count'),
    'cd': ('si', 1.0, d(J=1), d(J=1), 'luminous intensity', 'candela'),
    'rad': ('si', 1.0, ONE, ONE, 'plane angle', 'radian'),
    'deg': ('si', PI / 180, ONE, ONE, 'plane angle', 'degree'),
    'sr': ('si', 1.0, ONE, ONE, 'solid angle', 'steradian'),
    'Hz': ('si', 1.0, d(T=-1), d(T=-1), 'frequency', 'hertz'),
    'J': ('si', 1.0, d(M=1, L=2, T=-2), d(M=1, L=2, T=-2), 'energy',
          'joule'),
    'erg': ('si', 1e-7, d(M=1, L=2, T=-2), d(M=1, L=2, T=-2), 'energy',
            'erg'),
    'eV': ('si', 1.602176634e-19, d(M=1, L=2, T=-2), d(M=1, L=2, T=-2),
           'energy', 'electronvolt'),
    'N': ('si', 1.0, d(M=1, L=1, T=-2), d(M=1, L=1, T=-2), 'force',
          'newton'),
    'dyn': ('si', 1e-5, d(M=1, L=1, T=-2), d(M=1, L=1, T=-2), 'force',
            'dyne'),
    'Pa': ('si', 1.0, d(M=1, L=-1, T=-2), d(M=1, L=-1, T=-2), 'pressure',
           'pascal'),
    'W': ('si', 1.0, d(M=1, L=2, T=-3), d(M=1, L=2, T=-3), 'power', 'watt'),
    'C': ('si', 1.0, d(I=1, T=1), G_Q, 'charge', 'coulomb'),
    'statC': ('cgs', 1.0, d(I=1, T=1), G_Q, 'charge', 'statcoulomb'),
    'statA': ('cgs', 1.0, d(I=1), G_Q / d(T=1), 'current', 'statampere'),
    'statV': ('cgs', 1.0, d(M=1, L=2, T=-3, I=-1), d(M=H, L=H, T=-1),
              'potential', 'statvolt'),
    'e': ('si', 1.602176634e-19, d(I=1, T=1), G_Q, 'charge',
          'fundamental charge'),
    'V': ('si', 1.0, d(M=1, L=2, T=-3, I=-1), d(M=H, L=H, T=-1),
          'potential', 'volt'),
    'Ω': ('si', 1.0, d(M=1, L=2, T=-3, I=-2), d(T=1, L=-1), 'resistance',
          'ohm'),
    'S': ('si', 1.0, d(M=-1, L=-2, T=3, I=2), d(L=1, T=-1), 'conductance',
          'siemens'),
    'F': ('si', 1.0, d(M=-1, L=-2, T=4, I=2), d(L=1), 'capacitance',
          'farad'),
    'Wb': ('si', 1.0, d(M=1, L=2, T=-2, I=-1), d(M=H, L=Fraction(3, 2), T=-1),
           'magnetic flux', 'weber'),
    'Mx': ('cgs', 1.0, d(M=1, L=2, T=-2, I=-1),
           d(M=H, L=Fraction(3, 2), T=-1), 'magnetic flux', 'maxwell'),
    'Oe': ('cgs', 1.0, d(I=1, L=-1), d(M=H, L=-H, T=-1),
           'magnetic intensity', 'oersted'),
    'H': ('si', 1.0, d(M=1, L=2, T=-2, I=-2), d(T=2, L=-1), 'inductance',
          'henry'),
    'T': ('si', 1.0, d(M=1, T=-2, I=-1), d(M=H, L=-H, T=-1), 'induction',
          'tesla'),
    'G': ('cgs', 1.0, d(M=1, T=-2, I=-1), d(M=H, L=-H, T=-1), 'induction',
          'gauss'),
    'lm': ('si', 1.0, d(J=1), d(J=1), 'luminous flux', 'lumen'),
    'lx': ('si', 1.0, d(J=1, L=-2), d(J=1, L=-2), 'illuminance', 'lux'),
    'Bq': ('si', 1.0, d(T=-1), d(T=-1), 'radioactivity', 'becquerel'),
    'Ci': ('si', 3.7e10, d(T=-1), d(T=-1), 'radioactivity', 'curie'),
    'Gy': ('si', 1.0, d(L=2, T=-2), d(L=2, T=-2), 'dosage', 'gray'),
    'P': ('si', 0.1, d(M=1, L=-1, T=-1), d(M=1, L=-1, T=-1), 'viscosity',
          'poise'),
    '1': ('si', 1.0, ONE, ONE, 'identity', 'unitless'),
}
NAMES = {v[5]: k for k, v in UNITS.items()}
NAMES.update({'seimens': 'S', 'Oersted': 'Oe', 'Curie': 'Ci', 'ohm': 'Ω',
              'rad': 'rad', 'day': 'd', 'hour': 'h'})

# One SI unit expressed in Gaussian units: the factor depends on the physical
# quantity (rationalisation), so each is listed with its derivation.
SI_TO_GAUSS = {
    'C': C_CM / 10, 'A': C_CM / 10, 'V': 1e8 / C_CM, 'Ω': 1e9 / C_CM**2,
    'S': C_CM**2 * 1e-9, 'F': C_CM**2 * 1e-9, 'H': 1e9 / C_CM**2,
    'Wb': 1e8, 'T': 1e4,
}
# whole-expression conversions whose rationalisation factor is not a product
# of the term factors
SPECIAL = {
    ('A / m', 'Oe'): 4 * PI * 1e-3,
    ('H / m', '1'): 1e7 / (4 * PI),
    ('F / m', '1'): 4 * PI * C_CM**2 * 1e-11,
    ('A / Wb', '1 / cm'): 4 * PI * 1e-9,
    ('C / m^2', 'statC / cm^2'): 4 * PI * C_CM / 10 * 1e-4,
    ('C / m^2', 'statC / m^2'): 4 * PI * C_CM * 1e-1,
}

QUANTITY = {
    'acceleration': d(L=1, T=-2), 'amount': d(N=1), 'area': d(L=2),
    'capacitance': UNITS['F'][2], 'charge': UNITS['C'][2],
    'charge density': d(I=1, T=1, L=-3), 'conductance': UNITS['S'][2],
    'conductivity': UNITS['S'][2] / d(L=1), 'current': d(I=1),
    'current density': d(I=1, L=-2), 'displacement': d(I=1, T=1, L=-2),
    'dosage': d(L=2, T=-2), 'electric charge': d(I=1, T=1),
    'electric field': UNITS['V'][2] / d(L=1),
    'electromotance': UNITS['V'][2], 'energy': UNITS['J'][2],
    'energy density': UNITS['J'][2] / d(L=3),
    'fluence': ONE / (d(L=2) * UNITS['J'][2]),
    'flux': ONE / (d(L=2) * UNITS['J'][2] * d(T=1)),
    'force': UNITS['N'][2], 'frequency': d(T=-1), 'identity': ONE,
    'illuminance': d(J=1, L=-2), 'illumunance': d(J=1, L=-2),
    'impedance': UNITS['Ω'][2], 'inductance': UNITS['H'][2],
    'induction': UNITS['T'][2], 'integral flux': d(L=-2, T=-1),
    'length': d(L=1), 'luminous flux': d(J=1),
    'luminous intensity': d(J=1), 'magnetic field': UNITS['T'][2],
    'magnetic flux': UNITS['Wb'][2], 'magnetic induction': UNITS['T'][2],
    'magnetic intensity': d(I=1, L=-1), 'magnetic moment': d(I=1, L=2),
    'magnetization': d(I=1, L=-1), 'magnetomotance': d(I=1),
    'mass': d(M=1), 'mass density': d(M=1, L=-3), 'mass number': ONE,
    'momentum': d(M=1, L=1, T=-1), 'momentum density': d(M=1, L=-2, T=-1),
    'number': ONE, 'number density': d(L=-3),
    'particle distribution': d(T=3, L=-6),
    'particle fluence': ONE / (d(L=2) * UNITS['J'][2]),
    'particle flux': ONE / (d(L=2) * UNITS['J'][2] * d(T=1)),
    'permeability': d(M=1, L=1, T=-2, I=-2),
    'permittivity': d(M=-1, L=-3, T=4, I=2), 'plane angle': ONE,
    'polarization': d(I=1, T=1, L=-2), 'potential': UNITS['V'][2],
    'power': UNITS['W'][2], 'power density': UNITS['W'][2] / d(L=3),
    'pressure': UNITS['Pa'][2], 'radioactivity': d(T=-1), 'ratio': ONE,
    'reluctance': d(M=-1, L=-2, T=2, I=2), 'resistance': UNITS['Ω'][2],
    'resistivity': UNITS['Ω'][2] * d(L=1), 'temperature': d(H=1),
    'thermal conductivity': UNITS['W'][2] / (d(L=1) * d(H=1)),
    'time': d(T=1), 'solid angle': ONE, 'speed': d(L=1, T=-1),
    'vector potential': d(M=1, L=1, T=-2, I=-1), 'velocity': d(L=1, T=-1),
    'viscosity': d(M=1, L=-1, T=-1), 'volume': d(L=3),
    'vorticity': d(T=-1), 'wavenumber': d(L=-1), 'work': UNITS['J'][2],
}
# quantities whose Gaussian dimension is not that of the SI one
GAUSS = {
    'capacitance': d(L=1), 'charge': G_Q, 'electric charge': G_Q,
    'charge density': G_Q / d(L=3), 'conductance': d(L=1, T=-1),
    'conductivity': d(T=-1), 'current': G_Q / d(T=1),
    'current density': G_Q / d(T=1, L=2),
    'displacement': d(M=H, L=-H, T=-1), 'electric field':
    d(M=H, L=-H, T=-1), 'electromotance': d(M=H, L=H, T=-1),
    'impedance': d(T=1, L=-1), 'resistance': d(T=1, L=-1),
    'resistivity': d(T=1), 'inductance': d(T=2, L=-1),
    'induction': d(M=H, L=-H, T=-1), 'magnetic field': d(M=H, L=-H, T=-1),
    'magnetic induction': d(M=H, L=-H, T=-1),
    'magnetic flux': d(M=H, L=Fraction(3, 2), T=-1),
    'magnetic intensity': d(M=H, L=-H, T=-1),
    'magnetic moment': d(M=H, L=Fraction(5, 2), T=-1),
    'magnetization': d(M=H, L=-H, T=-1), 'magnetomotance': G_Q / d(T=1),
    'permeability': ONE, 'permittivity': ONE, 'polarization': G_Q / d(L=2),
    'potential': d(M=H, L=H, T=-1), 'reluctance': d(L=-1),
    'vector potential': d(M=H, L=H, T=-1),
}


class Ambiguous(Exception):
    pass


def resolve(symbol):
    """(prefix factor, base symbol) by our own reading of a unit string."""
    if symbol in UNITS:
        return 1.0, symbol
    if symbol in NAMES:
        return 1.0, NAMES[symbol]
    for p, f in sorted(PREFIX.items(), key=lambda kv: -len(kv[0])):
        if p and symbol.startswith(p) and symbol[len(p):] in UNITS:
            return f, symbol[len(p):]
    for p, s in PREFIX_NAME.items():
        if p and symbol.startswith(p) and symbol[len(p):] in NAMES:
            return PREFIX[s], NAMES[symbol[len(p):]]
    raise KeyError(symbol)


TOKEN = re.compile(r'\s*(?:(\()|(\))|([*/])|(\^)|([^\s()*/^]+))')


def parse(text):
    """Parse 'kg * m^2 / (s A)' into [(factor symbol, exponent)]."""
    pos, toks = 0, []
    text = text.strip()
    while pos < len(text):
        m = TOKEN.match(text, pos)
        if not m or m.end() == pos:
            raise ValueError(text)
        toks.append(m.group().strip())
        pos = m.end()
    i = 0

    def expo():
        nonlocal i
        if i < len(toks) and toks[i] == '^':
            i += 1
            t = toks[i]
            i += 1
            if i + 1 < len(toks) and toks[i] == '/' and toks[i + 1].isdigit():
                t += '/' + toks[i + 1]
                i += 2
            return Fraction(t)
        return Fraction(1)

    def factor():
        nonlocal i
        if toks[i] == '(':
            i += 1
            inner = expr()
            if i >= len(toks) or toks[i] != ')':
                raise ValueError(text)
            i += 1
            e = expo()
            return [(s, k * e) for s, k in inner]
        s = toks[i]
        i += 1
        return [(s, expo())]

    def expr():
        nonlocal i
        out = factor()
        while i < len(toks) and toks[i] != ')':
            sign = 1
            if toks[i] in '*/':
                sign = -1 if toks[i] == '/' else 1
                i += 1
            out += [(s, sign * k) for s, k in factor()]
        return out
    r = expr()
    if i != len(toks):
        raise ValueError(text)
    return [(s, k) for s, k in r]


def unit_dim(text, system):
    out = Dim()
    for s, k in parse(text):
        if re.fullmatch(r'[0-9.]+', s) and s != '1':
            raise ValueError(text)
        _, base = resolve(s)
        out = out * (UNITS[base][2 if system == 'mks' else 3] ** k)
    return out


def dim_string(text):
    out = Dim()
    for s, k in parse(text):
        if s == '1':
            continue
        if s not in 'MLTIHNJ':
            raise ValueError(text)
        out = out * (Dim({s: Fraction(1)}) ** k)
    return out


def gauss_value(text):
    """(magnitude in coherent Gaussian units, Gaussian dimension)."""
    mag, dim = 1.0, Dim()
    for s, k in parse(text):
        f, base = resolve(s)
        kind, m, si, g, *_ = UNITS[base]
        if kind == 'cgs':
            v = m
        elif base in ('nuc', 'amu'):
            v, g = m * 1e3, Dim({'M': Fraction(1)})
        elif base == 'e':
            v = m * SI_TO_GAUSS['C']
        elif base in SI_TO_GAUSS:
            v = SI_TO_GAUSS[base] * m
        else:
            v = m * (100.0 ** float(si.get('L', 0))) * (
                1000.0 ** float(si.get('M', 0)))
        mag *= (f * v) ** float(k)
        dim = dim * (g ** k)
    return mag, dim


def factor(u0, u1):
    """Numerical factor converting u0 to u1, or None if incommensurable."""
    if (u0, u1) in SPECIAL:
        return SPECIAL[(u0, u1)]
    if (u1, u0) in SPECIAL:
        return 1.0 / SPECIAL[(u1, u0)]
    try:
        m0, d0 = gauss_value(u0)
        m1, d1 = gauss_value(u1)
    except (KeyError, ValueError):
        return None
    if d0 != d1:
        return None
    return m0 / m1


def _c(value, dim):
    return (value, dim)


CONSTANTS = {   # name: (SI value, SI dimension)
    'pi': (math.pi, ONE),
    'k': (1.380649e-23, UNITS['J'][2] / d(H=1)),
    'e': (1.602176634e-19, UNITS['C'][2]),
    'me': (9.1093837e-31, d(M=1)), 'mp': (1.67262192e-27, d(M=1)),
    'G': (6.6743e-11, d(L=3, T=-2, M=-1)), 'g': (9.80665, d(L=1, T=-2)),
    'h': (6.62607015e-34, UNITS['J'][2] * d(T=1)),
    'c': (2.99792458e8, d(L=1, T=-1)),
    'epsilon0': (8.8541878e-12, QUANTITY['permittivity']),
    'mu0': (4e-7 * math.pi, QUANTITY['permeability']),
    'Rinfinity': (1.0973731568e7, d(L=-1)), 'a0': (5.29177211e-11, d(L=1)),
    're': (2.81794033e-15, d(L=1)), 'alpha': (7.2973525693e-3, ONE),
    'c1': (3.74177185e-16, UNITS['W'][2] * d(L=2)),
    'c2': (1.43877688e-2, d(L=1, H=1)),
    'sigma': (5.670374e-8, UNITS['W'][2] / d(L=2, H=4)),
    'eV': (1.602176634e-19, UNITS['J'][2]),
    'amu': (1.66053907e-27, d(M=1)), 'au': (1.495978707e11, d(L=1)),
    'H+': (13.598 * 1.602176634e-19, UNITS['J'][2]),
}

ELEMENTS = {
    'H': ('Hydrogen', 1.008), 'He': ('Helium', 4.0026),
    'Li': ('Lithium', 6.94), 'Be': ('Beryllium', 9.0122),
    'B': ('Boron', 10.81), 'C': ('Carbon', 12.011),
    'N': ('Nitrogen', 14.007), 'O': ('Oxygen', 15.999),
    'F': ('Fluorine', 18.998), 'Ne': ('Neon', 20.180),
    'Na': ('Sodium', 22.990), 'Mg': ('Magnesium', 24.305),
    'Al': ('Aluminum', 26.982), 'Si': ('Silicon', 28.085),
    'P': ('Phosphorus', 30.974), 'S': ('Sulfur', 32.06),
    'Cl': ('Chlorine', 35.45), 'K': ('Potassium', 39.098),
    'Ar': ('Argon', 39.948), 'Ca': ('Calcium', 40.078),
    'Sc': ('Scandium', 44.956), 'Ti': ('Titanium', 47.867),
    'V': ('Vanadium', 50.942), 'Cr': ('Chromium', 51.996),
    'Mn': ('Manganese', 54.938), 'Fe': ('Iron', 55.845),
    'Ni': ('Nickel', 58.693), 'Co': ('Cobalt', 58.933),
    'Cu': ('Copper', 63.546), 'Zn': ('Zinc', 65.38),
    'Ga': ('Gallium', 69.723), 'Ge': ('Germanium', 72.630),
    'As': ('Arsenic', 74.922), 'Se': ('Selenium', 78.971),
    'Br': ('Bromine', 79.904), 'Kr': ('Krypton', 83.798),
    'Rb': ('Rubidium', 85.468), 'Sr': ('Strontium', 87.62),
    'Y': ('Yttrium', 88.906), 'Zr': ('Zirconium', 91.224),
    'Nb': ('Niobium', 92.906), 'Mo': ('Molybdenum', 95.95),
    'Tc': ('Technetium', 98), 'Ru': ('Ruthenium', 101.07),
    'Rh': ('Rhodium', 102.91), 'Pd': ('Palladium', 106.42),
    'Ag': ('Silver', 107.87), 'Cd': ('Cadmium', 112.41),
    'In': ('Indium', 114.82), 'Sn': ('Tin', 118.71),
    'Sb': ('Antimony', 121.76), 'I': ('Iodine', 126.90),
    'Te': ('Tellurium', 127.60), 'Xe': ('Xenon', 131.29),
    'Cs': ('Cesium', 132.91), 'Ba': ('Barium', 137.33),
    'La': ('Lanthanum', 138.91), 'Ce': ('Cerium', 140.12),
    'Pr': ('Praseodymium', 140.91), 'Nd': ('Neodymium', 144.24),
    'Pm': ('Promethium', 145), 'Sm': ('Samarium', 150.36),
    'Eu': ('Europium', 151.96), 'Gd': ('Gadolinium', 157.25),
    'Tb': ('Terbium', 158.93), 'Dy': ('Dysprosium', 162.50),
    'Ho': ('Holmium', 164.93), 'Er': ('Erbium', 167.26),
    'Tm': ('Thulium', 168.93), 'Yb': ('Ytterbium', 173.05),
    'Lu': ('Lutetium', 174.97), 'Hf': ('Hafnium', 178.49),
    'Ta': ('Tantalum', 180.95), 'W': ('Tungsten', 183.84),
    'Re': ('Rhenium', 186.21), 'Os': ('Osmium', 190.23),
    'Ir': ('Iridium', 192.22), 'Pt': ('Platinum', 195.08),
    'Au': ('Gold', 196.97), 'Hg': ('Mercury', 200.59),
    'Tl': ('Thallium', 204.38), 'Pb': ('Lead', 207.2),
    'Bi': ('Bismuth', 208.98), 'Po': ('Polonium', 209),
    'At': ('Astatine', 210), 'Rn': ('Radon', 222),
    'Fr': ('Francium', 223), 'Ra': ('Radium', 226.03),
    'Ac': ('Actinium', 227.03), 'Pa': ('Protactinium', 231.04),
    'Th': ('Thorium', 232.04), 'Np': ('Neptunium', 237.05),
    'U': ('Uranium', 238.03),
}
# No stable isotope beyond uranium: the quoted mass number is a convention.
TRANSURANIC = {
    'Pu': (238, 244), 'Am': (241, 243), 'Bk': (247, 249), 'Cm': (243, 248),
    'No': (250, 259), 'Cf': (249, 252), 'Es': (252, 254), 'Hs': (255, 277),
    'Mt': (256, 278), 'Fm': (255, 257), 'Md': (256, 260), 'Lr': (256, 266),
    'Rf': (257, 267), 'Bh': (262, 272), 'Db': (262, 270), 'Sg': (263, 271),
}
