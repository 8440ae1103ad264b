"""Constant tables of the metric and fundamental modules against an oracle."""

from .. import fold, model, oracle
from ..numdom import Dim
from ..report import Check

TOL = 5e-5
LOOSE = {'G': 4e-4, 'H+': 3e-4}     # values of the table's vintage
# elements whose accepted weight was revised by more than 1.5e-4
REVISED = {'Ti', 'Ge', 'Sm', 'Pd', 'Sn', 'Os'}


def table(program, module, name, want=dict):
    """Fold a module-level table, stripping wrappers; AnalysisError if lost."""
    f = fold.folder(program)
    v = f.get(module, name)
    while isinstance(v, fold.Obj) and v.args:
        v = v.args[0]
    if not isinstance(v, want):
        raise model.AnalysisError(f"{module}.{name} no longer folds to a "
                                  f"{want} ({type(v).__name__})")
    return v


def where(program, module, name):
    m = program.module(module)
    st = m.assigns.get(name)
    return f"{m.rel}:{st[-1].lineno}" if st else m.rel


def best(program, module, *names):
    for n in names:
        f = fold.folder(program).get(module, n)
        while isinstance(f, fold.Obj) and f.args:
            f = f.args[0]
        if isinstance(f, (dict, list, tuple)) and f:
            return f, n
    raise model.AnalysisError(f"none of {names} folds in {module}")


def m01(program, tier):
    c = Check('M01', 'constant propagation of the conversion table; every '
              'entry compared with an independent SI/Gaussian unit oracle',
              floor=25, assumptions=[
                  'the oracle (sa/oracle.py) is right; tolerance 5e-5',
              ])
    conv, name = best(program, 'core.metric', 'CONVERSIONS', '_CONVERSIONS')
    at = where(program, 'core.metric', '_CONVERSIONS')
    for pair, value in conv.items():
        if not (isinstance(pair, tuple) and len(pair) == 2):
            c.unsure(f"entry {pair!r}", at, 'not a pair of units')
            continue
        key = f"{pair[0]} -> {pair[1]}"
        if not isinstance(value, (int, float)):
            c.unsure(key, at, 'factor does not fold to a number')
            continue
        want = oracle.factor(*pair)
        if want is None:
            c.unsure(key, at, 'pair unknown to the oracle')
        elif value and abs(value / want - 1) <= TOL:
            c.ok(key, at, f"{value:.9g}")
        else:
            c.bad(key, at, f"factor {value!r}, should be {want!r}")
    # internal coherence: cycles in the conversion graph multiply to one
    graph = {}
    for pair, value in conv.items():
        if isinstance(pair, tuple) and len(pair) == 2 \
                and isinstance(value, (int, float)) and value:
            graph.setdefault(pair[0], {})[pair[1]] = value
            graph.setdefault(pair[1], {})[pair[0]] = 1 / value
    seen = {}
    for root in graph:
        if root in seen:
            continue
        seen[root] = 1.0
        stack = [root]
        while stack:
            u = stack.pop()
            for v, w in graph[u].items():
                x = seen[u] * w
                if v not in seen:
                    seen[v] = x
                    stack.append(v)
                else:
                    good = abs(seen[v] / x - 1) <= 2 * TOL
                    c.judge(f"cycle through {u} -> {v}", good, at,
                            f"{x} vs {seen[v]}")
    return c


def _dims(c, key, text, parser, at):
    try:
        return parser(text)
    except (ValueError, KeyError, IndexError) as err:
        c.unsure(key, at, f"cannot read {text!r}: {err}")
        return None


def expand(quantities, name, prop, system, stack=()):
    """Dimension of a quantity in one system by symbolic expansion."""
    if name in stack:
        raise RecursionError(name)
    q = quantities[name]
    if isinstance(q, dict):
        text = q[prop][system]
        return oracle.dim_string(text) if prop == 'dimensions' else \
            oracle.unit_dim(text, system)
    return formula(quantities, q, prop, system, stack + (name,))


def formula(quantities, text, prop, system, stack=()):
    """Dimension of a compound quantity, matched longest name first."""
    for k in sorted(quantities, key=len, reverse=True):
        text = text.replace(k, k.replace(' ', '_'))
    out = Dim()
    for s, e in oracle.parse(text):
        base = s.replace('_', ' ')
        if base == '1':
            continue
        if base not in quantities:
            raise KeyError(base)
        out = out * (expand(quantities, base, prop, system, stack) ** e)
    return out


def m02(program, tier):
    c = Check('M02', 'constant propagation of the quantity and unit tables; '
              'dimension of every declared unit and dimension string computed '
              'by an independent parser and compared per metric system',
              floor=150)
    qs, _ = best(program, 'core.metric', '_QUANTITIES')
    at = where(program, 'core.metric', '_QUANTITIES')
    for name, q in qs.items():
        want = {'mks': oracle.QUANTITY.get(name)}
        want['cgs'] = oracle.GAUSS.get(name, want['mks'])
        for system in ('mks', 'cgs'):
            got = {}
            for prop in ('dimensions', 'units'):
                key = f"{name}/{system}/{prop}"
                if isinstance(q, dict) and system not in q.get(prop, {}):
                    c.bad(key, at, f"no {prop} for {name!r} in {system}")
                    continue
                try:
                    got[prop] = expand(qs, name, prop, system)
                except RecursionError:
                    c.bad(key, at, f"definition of {name!r} is circular")
                    continue
                except KeyError as err:
                    if isinstance(q, dict):
                        c.unsure(key, at, f"unknown name {err}")
                    else:
                        c.bad(key, at, f"definition {q!r} uses unknown "
                              f"quantity {err}")
                    continue
                except (ValueError, IndexError) as err:
                    c.unsure(key, at, str(err))
                    continue
                if want[system] is None:
                    c.unsure(key, at, 'quantity unknown to the oracle')
                elif got[prop] == want[system]:
                    c.ok(key, at, str(got[prop]))
                else:
                    c.bad(key, at, f"has dimension {got[prop]}, "
                          f"should be {want[system]}")
            if len(got) == 2:
                c.judge(f"{name}/{system}/unit-vs-dimension",
                        got['dimensions'] == got['units'], at,
                        f"unit has {got['units']}, "
                        f"declared {got['dimensions']}")
            # the unit itself must be coherent in its own system
            if isinstance(q, dict) and system in q.get('units', {}):
                _coherent(c, name, system, q['units'][system], at)
    units, _ = best(program, 'core.metric', '_units', '_UNITS_TABLE')
    uat = where(program, 'core.metric', '_units')
    for u in units:
        key = f"unit {u.get('symbol')}/quantity"
        if u.get('quantity') not in qs:
            c.bad(key, uat, f"quantity {u.get('quantity')!r} is not defined")
            continue
        o = oracle.UNITS.get(u.get('symbol'))
        if o is None:
            c.unsure(key, uat, 'unit unknown to the oracle')
            continue
        a = oracle.QUANTITY.get(u['quantity'])
        b = oracle.QUANTITY.get(o[4])
        c.judge(key, None if a is None else a == b and
                (u['quantity'] == o[4] or a == o[2]), uat,
                f"{u['quantity']} (oracle {o[4]})")
    base, _ = best(program, 'core.metric', '_BASE_QUANTITIES')
    bat = where(program, 'core.metric', '_BASE_QUANTITIES')
    for b in base:
        key = f"base {b.get('name')}"
        try:
            d = oracle.dim_string(b['dimension'])
            u = oracle.unit_dim(b['unit'], 'mks')
            w = oracle.QUANTITY[b['name']]
        except (KeyError, ValueError) as err:
            c.unsure(key, bat, str(err))
            continue
        c.judge(key, d == u == w, bat, f"{d} / {u} / {w}")
    return c


def _coherent(c, name, system, text, at):
    """mks units are coherent SI, cgs units coherent Gaussian."""
    key = f"{name}/{system}/coherent"
    if name in ('radioactivity',):
        return      # Ci is an accepted non-coherent unit
    try:
        mag = 1.0
        for s, k in oracle.parse(text):
            f, b = oracle.resolve(s)
            kind, m, si, g, *_ = oracle.UNITS[b]
            if system == 'mks':
                if kind == 'cgs':
                    c.bad(key, at, f"{text!r} is not an mks unit")
                    return
                mag *= (f * m) ** float(k)
            else:
                if kind == 'cgs':
                    mag *= (f * m) ** float(k)
                elif b in oracle.SI_TO_GAUSS or b == 'e':
                    c.bad(key, at, f"{text!r} is not a cgs unit")
                    return
                else:
                    v = m * 100.0 ** float(si.get('L', 0)) \
                        * 1000.0 ** float(si.get('M', 0))
                    mag *= (f * v) ** float(k)
    except (KeyError, ValueError) as err:
        c.unsure(key, at, str(err))
        return
    c.judge(key, abs(mag - 1) < 1e-9, at,
            f"{text!r} is {mag:g} coherent {system} units")


def m03(program, tier):
    c = Check('M03', 'constant propagation of the prefix and unit tables; '
              'prefix factors compared with the SI prefixes and every '
              'prefix+unit spelling required to denote a single unit',
              floor=60)
    prefixes, _ = best(program, 'core.metric', '_prefixes', '_PREFIXES_TABLE')
    pat = where(program, 'core.metric', '_prefixes')
    units, _ = best(program, 'core.metric', '_units', '_UNITS_TABLE')
    uat = where(program, 'core.metric', '_units')
    for p in prefixes:
        sym, name, factor = p.get('symbol'), p.get('name'), p.get('factor')
        key = f"prefix {sym!r}"
        if name is None:
            continue    # placeholder row (never matches a spelling)
        if sym not in oracle.PREFIX or name not in oracle.PREFIX_NAME:
            c.unsure(key, pat, 'unknown prefix')
            continue
        want = oracle.PREFIX[sym]
        c.judge(key, abs(factor / want - 1) < 1e-12 and
                oracle.PREFIX[oracle.PREFIX_NAME[name]] == want, pat,
                f"{name} {factor!r}, should be {want!r}")
    for u in units:
        o = oracle.UNITS.get(u.get('symbol'))
        key = f"unit {u.get('symbol')}"
        if o is None:
            c.unsure(key, uat, 'unit unknown to the oracle')
            continue
        names = {n for n, s in oracle.NAMES.items() if s == u['symbol']}
        c.judge(key, u.get('name') in names, uat,
                f"named {u.get('name')!r}, expected one of {sorted(names)}")
    # every spelling, in table order, as the lookup table would build it
    spell = {}
    for p in prefixes:
        for u in units:
            if p.get('name') is None:
                continue
            forms = {f"{p['name']}{u['name']}", f"{p['symbol']}{u['symbol']}"}
            if p['symbol'] == 'μ':
                forms.add(f"u{u['symbol']}")
            for s in forms:
                spell.setdefault(s, set()).add((p['symbol'], u['symbol']))
    n = 0
    for s, meanings in sorted(spell.items()):
        if len(meanings) > 1:
            c.bad(f"spelling {s}", uat, 'denotes ' + ' and '.join(
                sorted(f"{a}+{b}" for a, b in meanings)))
        else:
            n += 1
    c.extra['unambiguous_spellings'] = n
    c.judge('spellings', True, uat, f"{n} unambiguous")
    return c


def m04(program, tier):
    c = Check('M04', 'constant propagation of the physical-constant and '
              'element tables; mks and cgs entries converted by the oracle '
              'and compared with each other, with the declared quantity and '
              'with CODATA-level values', floor=100)
    consts, nm = best(program, 'core.fundamental', 'CONSTANTS', '_constants')
    at = where(program, 'core.fundamental', '_constants')
    qs, _ = best(program, 'core.metric', '_QUANTITIES')
    for name, row in consts.items():
        vals = {}
        for system in ('mks', 'cgs'):
            key = f"{name}/{system}"
            e = row.get(system)
            if e is None and 'all' in row:
                e = {'unit': '1', 'value': row['all']}
            if not isinstance(e, dict) or not isinstance(
                    e.get('value'), (int, float)):
                c.unsure(key, at, 'does not fold')
                continue
            vals[system] = (e['value'], e['unit'])
            try:
                udim = oracle.unit_dim(e['unit'], system)
            except (KeyError, ValueError) as err:
                c.unsure(key, at, str(err))
                continue
            try:
                qdim = formula(qs, row['quantity'], 'units', system)
                c.judge(f"{key}/quantity", udim == qdim, at,
                        f"unit {e['unit']!r} has {udim}, quantity "
                        f"{row['quantity']!r} has {qdim}")
            except (KeyError, ValueError, RecursionError) as err:
                c.unsure(f"{key}/quantity", at, str(err))
        if len(vals) == 2:
            k = oracle.factor(vals['mks'][1], vals['cgs'][1])
            key = f"{name}/mks-vs-cgs"
            if k is None:
                c.unsure(key, at, str(vals))
            else:
                a, b = vals['mks'][0] * k, vals['cgs'][0]
                c.judge(key, b != 0 and abs(a / b - 1) <= TOL, at,
                        f"{vals['mks'][0]} {vals['mks'][1]} is {a:.5g} "
                        f"{vals['cgs'][1]}, table says {b}")
        if 'mks' in vals and name in oracle.CONSTANTS:
            want, dim = oracle.CONSTANTS[name]
            v, u = vals['mks']
            try:
                mag = 1.0
                for s, e in oracle.parse(u):
                    f, b = oracle.resolve(s)
                    mag *= (f * oracle.UNITS[b][1]) ** float(e)
                got = v * mag
                c.judge(f"{name}/value",
                        abs(got / want - 1) <= LOOSE.get(name, TOL)
                        and oracle.unit_dim(u, 'mks') == dim, at,
                        f"{v} {u}, should be {want} SI")
            except (KeyError, ValueError) as err:
                c.unsure(f"{name}/value", at, str(err))
    elements, _ = best(program, 'core.fundamental', '_elements', 'ELEMENTS')
    eat = where(program, 'core.fundamental', '_elements')
    seen = set()
    for e in elements:
        s = e.get('symbol')
        key = f"element {s}"
        if s in seen:
            c.bad(key, eat, 'listed twice')
        seen.add(s)
        if s in oracle.ELEMENTS:
            name, mass = oracle.ELEMENTS[s]
            c.judge(key, e.get('name') == name
                    and abs(e['mass'] / mass - 1) < (
                        8e-4 if s in REVISED else 1.5e-4), eat,
                    f"{e.get('name')} {e.get('mass')}, should be "
                    f"{name} {mass}")
        elif s in oracle.TRANSURANIC:
            lo, hi = oracle.TRANSURANIC[s]
            c.judge(key, lo <= e['mass'] <= hi, eat, str(e.get('mass')))
        else:
            c.unsure(key, eat, 'unknown element')
    return c
