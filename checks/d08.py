"""Legacy files: vehicle decks of any layout and content, engine, aero and propeller tables converted and read back."""
import csv
import importlib
import inspect
import os
import re
import sys
import zlib
from pathlib import Path

import numpy as np

from vlib import dual
from vlib.core import VERIF
from vlib.missions import hash_of

DECKS = {'GASP': ['small_single_aisle_GASP.dat', 'large_single_aisle_1_GASP.dat', 'generic_BWB_GASP.dat', 'configuration_test_data_GASP.dat', 'large_turboprop_freighter_GASP.dat'],
         'FLOPS': ['bwb_detailed_FLOPS.in', 'bwb_simple_FLOPS.in', 'bwb300_baseline_FLOPS.inp', 'n3cc.inp']}
CONSUMED = {'inpropr.gr', 'inprop.gr', 'missin.fact', 'ingasp.fcfft', 'ingasp.fcfhtt', 'ingasp.fckit', 'ingasp.fcfnt', 'ingasp.fcfstrt', 'ingasp.fcfvtt', 'ingasp.fcfwt'}
WORDS = ['a comment', 'number of things = 3', 'see &INGASP', 'x/y ratio, (percent)', 'DON\'T', '! twice !', '$']


def imp(pkg, m):
    return importlib.import_module(pkg + m)


def some(rng, p=0.5):
    return rng.random() < p


def convert(pkg, kind, src, out, fmt=None, rnd=None, verb=None):
    """A conversion, by the function or (in the tree under test, every third time) by the command of the command line."""
    if pkg == 'aviary' and not isinstance(out, list) and zlib.crc32(Path(src).read_bytes()) % 3 == 0:
        argv = ['aviary', 'convert', kind, src] + ([out] if out else [])
        if fmt:
            argv += [['-f', '--format'][len(argv[3]) % 2], fmt]
        if rnd:
            argv += ['--round']
        if kind == 'fortran_to_aviary':
            argv += ['--force'] + (['-v', str(verb)] if verb is not None else [])
        old = sys.argv
        sys.argv = argv
        try:
            imp(pkg, '.interface.cmd_entry_points').aviary_cmd()
        finally:
            sys.argv = old
        return
    E = imp(pkg, '.variable_info.enums')
    if kind == 'engine_deck':
        imp(pkg, '.utils.engine_deck_conversion').convert_engine_deck(src, out, E.EngineDeckType(fmt), *([] if rnd is None else [rnd]))
    elif kind == 'aero_table':
        imp(pkg, '.utils.aero_table_conversion').convert_aero_table(src, out, fmt)
    elif kind == 'propeller_table':
        imp(pkg, '.utils.propeller_map_conversion').convert_propeller_map(src, out, **({} if rnd is None else {'round_data': rnd}))
    else:
        imp(pkg, '.utils.fortran_to_aviary').fortran_to_aviary(src, E.LegacyCode(fmt), out, True, verb)


# ------------------------------------------------------------------ vehicle decks
def read_deck(path):
    """(namelist, name, [values]) in the order of the file: an independent reading of the samples."""
    out, ns = [], ''
    for line in Path(path).read_text().splitlines():
        line = re.sub(r'\s+', '', line.split('!')[0]).rstrip(',')
        if not line:
            continue
        end = False
        if line[0] in '$&':
            if ns:
                ns = ''
            else:
                ns = line[1:]
            continue
        if line[-1] == '/':
            end, line = True, line.replace('/', '')
        if '=' in line:
            for m in re.finditer(r'([A-Za-z][\w:]*(?:\(\d+\))?)=((?:(?![A-Za-z][\w:]*(?:\(\d+\))?=).)*)', line):
                vals = [v for v in m.group(2).split(',') if v != '']
                out.append((ns, m.group(1), vals))
        if end:
            ns = ''
    return out


def number(v):
    try:
        return float(v)
    except ValueError:
        return None


def fmt(rng, x):
    if float(x) == int(x) and abs(x) < 1e7:
        return str(rng.choice([f'{int(x)}', f'{int(x)}.', f'{float(x)}']))
    s = repr(float(f'{x:.6g}'))
    return s[1:] if s.startswith('0.') and some(rng, 0.3) else s


def perturb(rng, items, code):
    out = []
    p = float(rng.choice([0.0, 0.1, 0.4]))
    hostile = some(rng, 0.35)
    for ns, n, vals in items:
        v = list(vals)
        if some(rng, p):
            f = float(rng.uniform(0.85, 1.15))
            w = []
            for x in v:
                y = number(x)
                if y is None:
                    w.append(x)
                elif re.fullmatch(r'-?\d+', x):
                    w.append(str(int(y) + int(rng.integers(0, 2)) if abs(y) > 5 else int(y)))
                elif hostile and some(rng, 0.25):
                    w.append(fmt(rng, float(rng.choice([0.0, -y, y * 12, abs(y) + 5, 1.0, 3.0]))))
                else:
                    w.append(fmt(rng, y * f))
            v = w
        if not (some(rng, 0.01) and hostile):
            out.append((ns, n, v))
    main = 'INGASP' if code == 'GASP' else 'WTIN'
    extra = []
    for k in range(int(rng.integers(0, 4))):
        name = str(rng.choice(['XYZ', 'QQ1', 'FUS', 'NO', 'CAR', 'NOT_THERE', 'Zlow', 'E1']))
        if not any(a[1] == name for a in extra):
            extra.append((main, name, [fmt(rng, float(x)) for x in np.round(rng.uniform(-9, 99, int(rng.integers(1, 4))), 3)]))
    if code == 'FLOPS' and some(rng, 0.3):
        extra.append(('MISSIN', 'FACT', [fmt(rng, float(np.round(rng.uniform(0.9, 1.1), 3)))]))
    if code == 'GASP' and some(rng, 0.4):
        for n in rng.choice(['FCFFT', 'FCFHTT', 'FCKIT', 'FCFNT', 'FCFVTT', 'FCFWT', 'FCFSTRT'], int(rng.integers(1, 4)), replace=False):
            extra.append((main, str(n), [fmt(rng, float(np.round(rng.uniform(0.8, 1.2), 3)))]))
    out += extra
    named = []
    if some(rng, 0.4):
        for name, vals in rng.permutation(np.array([('aircraft:wing:incidence', '1.25'), ('aircraft:fuselage:pressure_differential', '.5,atm'), ('aircraft:design:max_structural_speed', '310,knot'),
                                                   ('aircraft:wing:height', '2.5,m'), ('aircraft:vertical_tail:taper_ratio', '0.41'), ('Aircraft:Fuselage:Length', '41.5,m')]))[:int(rng.integers(1, 4))]:
            named.append(('', str(name), str(vals).split(',')))
    return out, named


def groups(items):
    g = []
    for ns, n, v in items:
        if not g or g[-1][0] != ns:
            g.append((ns, []))
        g[-1][1].append((n, v))
    return g


def plain_text(items):
    out = ['generated deck']
    for ns, vs in groups(items):
        if ns:
            out.append(f' ${ns}')
        out += [f'{n}={",".join(v)},' for n, v in vs]
        if ns:
            out.append(' $END')
    return '\n'.join(out) + '\n'


def laid_out(rng, items, lower=False):
    """The same assignments, written differently."""
    out = [str(rng.choice(['title of the deck', '', '  A deck, 3 engines']))]
    eol = str(rng.choice(['\n', '\n', '\r\n']))

    def cm():
        return (' ' * int(rng.integers(0, 3)) + '!' + str(rng.choice(WORDS))) if some(rng, 0.3) else ''

    def sp():
        return str(rng.choice(['', '', ' ', '  ', '\t']))

    for ns, vs in groups(items):
        tag = str(rng.choice(['$', '&']))
        if ns:
            out.append(sp() + tag + ns.lower() if lower else sp() + tag + ns)
        line = ''
        for n, v in vs:
            a = f'{sp()}{n.lower() if lower else n}{sp()}={sp()}{(sp() + "," + sp()).join(v)}'
            if line and some(rng, 0.3) and ns:
                line += ',' + a
            else:
                if line:
                    out.append(line + str(rng.choice([',', '', ' , '])) + cm())
                if some(rng, 0.1):
                    out.append(str(rng.choice(['', '   ', '! ' + str(rng.choice(WORDS))])))
                line = a
        last = str(rng.choice([f'{tag}END', f' {tag}end', '/', 'slash'])) if ns else ''
        if last == 'slash' and line:
            out.append(line + ' /' + cm())
        else:
            out.append(line + ',' + cm())
            if ns:
                out.append('/' if last == 'slash' else last)
    return eol.join(out) + eol


def csv_rows(path):
    """Sections of a converted deck: name -> list of fields."""
    sec, out = None, {'Input Values': {}, 'Initialization Guesses': {}, 'Unconverted Values': {}}
    with open(path, newline='') as f:
        for row in csv.reader(f):
            if not row:
                continue
            if row[0].startswith('#'):
                t = row[0][1:].strip()
                if t in out:
                    sec = t
                continue
            out[sec or '?'].setdefault(row[0], []).append([norm_field(x) for x in row[1:]])
    return out


def norm_field(x):
    y = number(x)
    return y if y is not None else x


def convert_deck(pkg, text, code, tag, verb=0):
    src = os.path.abspath(f'd{os.getpid()}_{tag}.dat')
    dst = os.path.abspath(f'd{os.getpid()}_{tag}_{pkg}.csv')
    with open(src, 'w', newline='') as f:
        f.write(text)
    if os.path.exists(dst):
        os.remove(dst)
    convert(pkg, 'fortran_to_aviary', src, dst, code, verb=verb)
    return dst


def touched(code):
    f = imp('aviary_ref', '.utils.fortran_to_aviary')
    V = imp('aviary_ref', '.variable_info.variables')
    src = inspect.getsource(f.update_gasp_options if code == 'GASP' else f.update_flops_options) + inspect.getsource(f.update_aviary_options)
    out = set()
    for m in re.findall(r'\b((?:Aircraft|Mission|Settings)(?:\.\w+)+)', src):
        o = V
        for p in m.split('.'):
            o = getattr(o, p, None)
        if isinstance(o, str):
            out.add(o)
    out |= {n + s for n in (f.gasp_scaler_variables if code == 'GASP' else f.flops_scaler_variables) for s in ('', '_scaler')}
    return out


def by_history(code):
    from aviary_ref.variable_info.variable_meta_data import CoreMetaData
    out = {}
    for k, v in CoreMetaData.items():
        h = (v['historical_name'] or {}).get(code)
        for x in ([h] if isinstance(h, str) else h or []):
            out.setdefault(x.lower(), []).append(k)
    return out


def deck(rec, seed):
    from aviary_ref.variable_info.variable_meta_data import CoreMetaData

    rng = np.random.default_rng(seed)
    code = str(rng.choice(['GASP', 'GASP', 'FLOPS']))
    name = str(rng.choice(DECKS[code]))
    items, named = perturb(rng, read_deck(VERIF / 'data' / 'legacy' / name), code)
    items = items + named
    text = plain_text(items)
    case = {'deck': name, 'seed': list(map(int, seed)), 'text': text}
    rec.case(hash_of(text), {'code': code, 'sample': name, 'assignments': len(items), 'first lines': text.splitlines()[:6]})

    def go(pkg):
        r = csv_rows(convert_deck(pkg, text, code, 'p'))
        return r

    res = dual.judge(rec, f'{code} deck', go, case, monitor='deck agrees with the release', describe=name)
    if res is None:
        return
    if not res[1].ok:
        rec.event('refused deck')
        rec.skip('refused deck: ' + repr(res[1].value)[:100])
        return
    rows = csv_rows(convert_deck('aviary', text, code, 'p'))
    rec.event('converted deck')
    # history and layout
    for kind, t, lower in (('layout', laid_out(rng, items), False), ('lower case', laid_out(rng, items, True), True), ('repeated', text, False)):
        if kind == 'lower case' and some(rng, 0.5):
            continue
        try:
            got = csv_rows(convert_deck('aviary', t, code, 'v'))
        except Exception as e:
            rec.violation(f'{code} deck: {kind}', f'{name}: the same assignments in another layout: {e!r:.300}', case=case, text=t)
            continue
        want = rows
        if lower:
            low = lambda r: {k: {n.lower(): [f for f in v] for n, v in d.items()} for k, d in r.items()}
            # names that the deck itself spells in two ways (or as the defaults spell them) are one name now
            amb = [n for n in list(rows['Unconverted Values']) + [f'{a}.{b}' for a, b, _ in items] ]
            cnt = {}
            for n in set(amb):
                cnt[n.lower()] = cnt.get(n.lower(), 0) + 1
            want, got = low(rows), low(got)
            dflt = {k.lower() for k in imp('aviary_ref', '.utils.legacy_code_data.gasp_defaults').gasp_default_values.keys()} | \
                {k.lower() for k in imp('aviary_ref', '.utils.legacy_code_data.flops_defaults').flops_default_values.keys()}
            for n in [n for n in set(want['Unconverted Values']) | set(got['Unconverted Values']) if cnt.get(n, 0) > 1 or n in dflt]:
                want['Unconverted Values'].pop(n, None)
                got['Unconverted Values'].pop(n, None)
            if any(c > 1 for c in cnt.values()):
                rec.skip('names in both cases')
                continue
        rec.event('layout neutral' if kind != 'repeated' else 'history neutral')
        if got != want:
            d = [(s, n, want[s].get(n), got[s].get(n)) for s in want for n in list(want[s]) + list(got[s]) if want[s].get(n) != got[s].get(n)]
            rec.violation(f'{code} deck: {kind}', f'{name}: {d[:3]}', case=case, text=t)
    # conservation and verbatim values
    hist, tch = by_history(code), touched(code)
    f = imp('aviary_ref', '.utils.legacy_code_data.' + ('gasp' if code == 'GASP' else 'flops') + '_defaults')
    dep = [x.lower() for x in (f.gasp_deprecated_vars if code == 'GASP' else f.flops_deprecated_vars)]
    final = {}
    for ns, n, v in items:
        final[(ns, n)] = v
    spell = {}
    for ns, n in final:
        spell.setdefault(f'{ns}.{n}'.lower(), set()).add(n)
    guesses = set(imp('aviary_ref', '.utils.fortran_to_aviary').initialization_guesses)
    for (ns, n), v in final.items():
        key = f'{ns}.{n}'.lower()
        if len(spell[key]) > 1 or not v:
            continue
        if not ns and ':' not in n:
            continue
        if not ns:
            want, u = v[:1], v[1] if len(v) > 1 else None
            k = n.lower()
            if k in tch:
                continue
            got = rows['Input Values'].get(k)
            rec.event('aviary name')
            w = [number(want[0]), u or CoreMetaData[k]['units']]
            if got is None or got[0][0] != w[0] or (u and got[0][-1] != u):
                rec.violation(f'{code} deck: Aviary name', f'{n} = {v} is converted to {got}', case=case)
            continue
        base = key.split('(')[0]
        if base in dep or base in CONSUMED:
            continue
        maps = hist.get(key)
        if maps is None and base in hist:
            continue
        if maps is None and any(h.startswith(base + '(') for h in hist):
            continue
        if maps is None:
            if '(' in n:
                continue
            got = rows['Unconverted Values'].get(f'{ns}.{n}')
            rec.event('unconverted kept')
            if got is None or len(got[0]) != len(v) or any(number(a) != b and str(a) != str(b) for a, b in zip(v, got[0]) if number(a) is not None):
                rec.violation(f'{code} deck: unconverted value', f'{ns}.{n} = {v} is kept as {got}', case=case)
            continue
        if '(' in n or any(number(x) is None for x in v):
            continue
        for k in maps:
            others = [h for h, a in hist.items() if k in a and h != key and any(f'{a2}.{b2}'.lower().split('(')[0] == h.split('(')[0] for a2, b2 in final)]
            if k in tch or others or k in guesses or any(m == '' and q.lower() == k for m, q in final):
                continue
            got = rows['Input Values'].get(k)
            w = [number(x) for x in v]
            rec.event('mapped value')
            if got is None or len(got) != 1:
                rec.violation(f'{code} deck: mapped value', f'{ns}.{n} = {v} has to become {k}, found {got}', case=case)
            elif [x for x in got[0][:-1]] != w and not (got[0][0] in ('True', 'False') and w[0] in (0, 1) and got[0][0] == str(bool(w[0]))):
                rec.violation(f'{code} deck: mapped value', f'{ns}.{n} = {v} becomes {k} = {got[0]}', case=case)
            elif got[0][-1] != CoreMetaData[k]['units'] and f'{ns}.{n}' not in (f.gasp_default_values if code == 'GASP' else f.flops_default_values):
                rec.violation(f'{code} deck: units', f'{ns}.{n} = {v} becomes {k} = {got[0]}', case=case)


# ------------------------------------------------------------------ tables
def table(path):
    """header -> column, units, comments of a converted data file."""
    lines = Path(path).read_text().splitlines()
    comments = [x for x in lines if x.startswith('#')]
    body = [x for x in lines if x.strip() and not x.startswith('#')]
    head = [h.strip() for h in re.split(r',(?![^()]*\))', body[0])]
    names, units = [], []
    for h in head:
        m = re.fullmatch(r'(.*?)\s*(?:\((.*)\))?', h)
        names.append(m.group(1).strip())
        u = [x.strip() for x in (m.group(2) or '').split(',') if x.strip() and x.strip() not in ('input', 'output')]
        units.append(u[0] if u else 'unitless')
    data = np.array([[float(x) for x in r.split(',')] for r in body[1:]])
    return names, units, data, comments


def readable(rec, mech, path, names, data, case):
    rec.event('readable')
    try:
        got = imp('aviary', '.utils.csv_data_file').read_data_file(path)
        got = got[0] if isinstance(got, (tuple, list)) else got
        cols = [np.asarray(v[0], float) for _, v in got.items()]
        ok = len(cols) == len(names) and all(np.array_equal(a, data[:, i]) for i, a in enumerate(cols))
        if not ok:
            rec.violation(f'{mech}: readable', f'columns {names} are read as {list(got.keys())}', case=case)
    except Exception as e:
        rec.violation(f'{mech}: readable', repr(e)[:300], case=case)


def out_name(pkg, tag):
    p = os.path.abspath(f't{os.getpid()}_{tag}_{pkg}.csv')
    if os.path.exists(p):
        os.remove(p)
    return p


def source(text, tag, ext='.txt'):
    p = os.path.abspath(f't{os.getpid()}_{tag}{ext}')
    with open(p, 'w', newline='') as f:
        f.write(text)
    return p


def rows_equal(a, b, rtol=0):
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= rtol * np.abs(b)))


def sort_rows(a):
    return a[np.lexsort(a.T[::-1])]


def flops_engine(rec, rng, seed):
    """Points of a FLOPS deck, in any order, with comments, empty lines and blank fields."""
    n = int(rng.integers(3, 40))
    pts, seen = [], set()
    for _ in range(n):
        m, a, t = round(float(rng.choice([0, 0.1, 0.2, 0.25, 0.8, 0.85])), 2), float(rng.choice([0, 1000, 10000, 36089, 41000])), float(rng.integers(21, 51))
        if (m, a, t) in seen:
            continue
        seen.add((m, a, t))
        pts.append([m, a, t] + [float(np.round(rng.uniform(0, 30000), 1)), float(np.round(rng.uniform(0, 9000), 1)), float(np.round(rng.uniform(0, 6000), 1)), float(np.round(rng.uniform(0, 3), 4))])
    lines, comments, want = [], [], []
    for p in pts:
        if some(rng, 0.1):
            lines.append(str(rng.choice(['', '   '])))
        if some(rng, 0.1) or (not lines and some(rng, 0.4)):
            c = str(rng.choice(['# a comment', '#  Mach, altitude', '# second deck = 3']))
            lines.append(c)
            comments.append(c)
        f = [f'{p[0]:5.2f}', f'{p[1]:10.1f}', f'{p[2]:4.0f}.', f'{p[3]:10.1f}', f'{p[4]:10.1f}', f'{p[5]:10.1f}', ' ' * 10, f'{p[6]:10.4f}', f'{rng.uniform(10, 60):10.3f}']
        q = list(p)
        for i, j in ((4, 4), (7, 6)):
            if some(rng, 0.06):
                f[i], q[j] = ' ' * len(f[i]), 0.0
        s = ''.join(f)
        if some(rng, 0.2):
            s = s[:70].rstrip()
        elif some(rng, 0.5):
            s += ' $'
        lines.append(s)
        want.append(q)
    text = str(rng.choice(['\n', '\r\n'])).join(lines) + str(rng.choice(['\n', '', '\n\n']))
    case = {'text': text, 'seed': seed}
    rec.case(hash_of(text), {'FLOPS engine': len(want), 'line': lines[-1]})
    src = source(text, 'fe')
    keep = {}

    def go(pkg):
        o = out_name(pkg, 'fe')
        convert(pkg, 'engine_deck', src, o, 'FLOPS')
        keep[pkg] = o
        t = table(o)
        return [t[0], t[1], t[2]]

    res = dual.judge(rec, 'FLOPS engine deck', go, case, monitor='table agrees with the release')
    if res is None or not res[1].ok:
        if res is not None and not res[1].ok and not res[0].ok:
            rec.violation('FLOPS engine deck: refused', repr(res[1].value)[:300], case=case)
        return
    names, units, data, cm = table(keep['aviary'])
    rec.event('rows conserved')
    hd = ['Mach_Number', 'Altitude', 'Throttle', 'Gross_Thrust', 'Ram_Drag', 'Fuel_Flow', 'NOx_Rate']
    if [n.replace(' ', '_') for n in names] != hd or [u for u in units] != ['unitless', 'ft', 'unitless', 'lbf', 'lbf', 'lb/h', 'lb/h']:
        rec.violation('FLOPS engine deck: columns', f'{names} {units}', case=case)
    elif not rows_equal(sort_rows(data), sort_rows(np.array(want))):
        rec.violation('FLOPS engine deck: rows', f'{len(want)} points, {len(data)} rows; first difference {first_diff(sort_rows(data), sort_rows(np.array(want)))}', case=case)
    elif not np.array_equal(data, data[np.lexsort([data[:, 2], data[:, 1], data[:, 0]])]):
        rec.violation('FLOPS engine deck: order', 'rows are not sorted by Mach, altitude and throttle', case=case)
    for c in comments:
        rec.event('comment kept')
        if not any(c.lstrip('# ').strip() in x for x in cm):
            rec.violation('FLOPS engine deck: comments', f'{c} is lost', case=case)
    readable(rec, 'FLOPS engine deck', keep['aviary'], names, data, case)


def first_diff(a, b):
    if a.shape != b.shape:
        return f'shapes {a.shape}, {b.shape}'
    i = np.argwhere(np.any(a != b, axis=1))[0][0]
    return f'{a[i].tolist()} instead of {b[i].tolist()}'


def gasp_map(x, y, z, alt, w=(10, 4), wy=4, indent=False):
    """One map in GASP's fixed format (6 columns per line)."""
    n = len(x)
    out = [f'{n:5d}{len(y):5d}{alt:10.1f}$']
    for i in range(0, n, 6):
        out.append(' ' * 10 + ''.join(f'{v:10.4f}' for v in x[i:i + 6]) + '$')
    for j, yy in enumerate(y):
        for i in range(0, n, 6):
            pre = f'{yy:10.4f}' if i == 0 else (' ' * 10 if indent else '')
            out.append(pre + ''.join(f'{v:10.{w[1]}f}' for v in z[j][i:i + 6]) + '$')
    return out


def us76(h_ft):
    """Geometric-free standard temperature in degR (geopotential layers to 65617 ft)."""
    h = h_ft * 0.3048
    T = 288.15 - 0.0065 * h if h <= 11000 else 216.65 if h <= 20000 else 216.65 + 0.001 * (h - 20000)
    return T * 1.8


def gasp_engine(rec, rng, seed):
    ts = some(rng, 0.45)
    alts = [float(a) for a in sorted(rng.choice([0, 5000, 10000, 20000, 30000, 36000, 41000], int(rng.integers(2, 5)), replace=False))]
    percent = ts and some(rng, 0.6)
    ys = np.arange(0, int(rng.integers(4, 9))) * (2.0 if percent else 0.5) + (26.0 if percent else float(rng.choice([3.0, 4.0])))
    kx = int(rng.integers(4, 11))
    fields = ['power', 'fuel', 'tail'] if ts else ['thrust', 'fuel', 'air']
    xs = {a: np.round(np.arange(kx) * 0.05 * float(rng.choice([1, 2])), 2) for a in alts}
    if some(rng, 0.3):
        a = alts[int(rng.integers(len(alts)))]
        xs[a] = xs[a][:3]
    val = {}
    for f in fields:
        for a in alts:
            base = {'power': 2000, 'fuel': 3000, 'tail': 300, 'thrust': 9000, 'air': 700}[f]
            g = base * (0.3 + 0.15 * np.arange(len(ys)))[:, None] * (1 - 0.4 * xs[a])[None, :] * float(rng.uniform(0.6, 1.1))
            val[f, a] = np.round(g + rng.normal(size=g.shape) * base * 0.02, 1)
    order = list(alts)
    throttle_max = 50.0 if percent else float(np.round(rng.uniform(3000, 3600), 1))
    if ts:
        iread = int(rng.choice([1, 3])) if percent else 1
        head = [f'{iread:5d}{1:5d}' + ' ' * 10 + ''.join(f'{v:10.1f}' for v in (throttle_max, throttle_max * 0.98, throttle_max * 0.9, 26.0, 0.0, 0.0)) + '$',
                ''.join(f'{v:10.1f}' for v in (4465.2, 13820.0, 1020.7)) + f'{0.073855:10.6f}' + ''.join(f'{v:10.1f}' for v in (22976.2, 30.5)) + '$']
    else:
        iread = 1
        head = [f'{1:5d}{0:5d}' + ' ' * 10 + f'{994.36:10.2f}{throttle_max:10.1f}{throttle_max * 0.96:10.1f}{throttle_max * 0.93:10.1f}{1.25:10.2f}$']

    def text(order):
        out = list(head)
        for f in fields:
            out += [f'{f} tables  $', f'{len(order):5d}$', '$']
            for i, a in enumerate(order):
                out += gasp_map(xs[a], ys, val[f, a], a, (10, 1), indent=ts)
                if i < len(order) - 1:
                    out.append('$')
        return '\n'.join(out) + '\n'

    t = text(order)
    case = {'text': t, 'seed': seed}
    rec.case(hash_of(t), {'GASP engine': 'turboshaft' if ts else 'turbofan', 'altitudes': alts, 'throttles': ys.tolist(), 'throttle is percent': bool(percent)})
    keep = {}
    rnd = some(rng, 0.3)

    def go(pkg, txt=t, tag='ge'):
        o = out_name(pkg, tag)
        convert(pkg, 'engine_deck', source(txt, tag, '.eng'), o, 'GASP_TS' if ts else 'GASP', rnd if rnd or some(rng, 0.5) else None)
        keep[pkg, tag] = o
        q = table(o)
        return [q[0], q[1], q[2]]

    res = dual.judge(rec, 'GASP engine deck', go, case, monitor='table agrees with the release', rtol=1e-7)
    if res is None:
        return
    if not res[1].ok:
        if not res[0].ok:
            rec.event('refused table')
            rec.skip(repr(res[1].value)[:200])
        return
    names, units, data, _ = table(keep['aviary', 'ge'])
    nm = [n.replace(' ', '_') for n in names]
    ix = {n: i for i, n in enumerate(nm)}
    rec.event('readable')
    # the maps in another order
    o2 = list(rng.permutation(order))
    if o2 != order:
        try:
            go('aviary', text([float(a) for a in o2]), 'gf')
            d2 = table(keep['aviary', 'gf'])[2]
            rec.event('order of the maps')
            if d2.shape != data.shape or not np.allclose(d2, data, rtol=1e-9, atol=1e-9):
                rec.violation('GASP engine deck: order of the maps', f'maps in the order {o2} give other points', case=case)
        except Exception as e:
            rec.violation('GASP engine deck: order of the maps', repr(e)[:300], case=case)
    # nodes of the given maps are nodes of the structured table
    out = ['Shaft_Power_Corrected', 'Tailpipe_Thrust'] if ts else ['Thrust']
    src = ['power', 'tail'] if ts else ['thrust']
    compute_t4 = not (throttle_max <= 100 or iread == 3)
    grid = np.round(np.arange(0, 2, 0.05), 2)
    tol = 2e-4 if rnd else 1e-6
    bad = None
    for a in alts:
        for j, y in enumerate(ys):
            for i, x in enumerate(xs[a]):
                th = y * us76(a) * (1 + 0.2 * x * x) / throttle_max if compute_t4 else y / throttle_max
                if th > 0.9999:
                    continue
                near = data[(np.abs(data[:, ix['Mach_Number']] - x) < 1e-6) & (np.abs(data[:, ix['Altitude']] - a) < 1e-6) & (np.abs(data[:, ix['Throttle']] - th) < 6e-4)]
                rec.event('node conserved')
                if len(near) != 1:
                    bad = bad or f'the point altitude {a}, Mach {x}, throttle {th} ({y}) appears {len(near)} times'
                    continue
                for o, s in [('Fuel_Flow', 'fuel')] + list(zip(out, src)):
                    w = val[s, a][j, i]
                    if abs(near[0, ix[o]] - w) > tol * abs(w) + (0.06 if rnd else 1e-5):
                        bad = bad or f'{o} at altitude {a}, Mach {x}, {y}: {w} becomes {near[0, ix[o]]}'
    if bad:
        rec.violation('GASP engine deck: nodes', bad, case=case)
    if np.max(data[:, ix['Throttle']]) > 1 + 1e-9:
        rec.violation('GASP engine deck: throttle', f'throttle up to {np.max(data[:, ix["Throttle"]])}', case=case)


def flops_aero(rec, rng, seed):
    m1, c1, m0, a0 = (int(rng.integers(2, 8)) for _ in range(4))
    mach = np.round(np.sort(rng.choice(np.arange(0.1, 1, 0.025), m1, replace=False)), 3)
    cl = np.round(np.sort(rng.choice(np.arange(0, 1.2, 0.05), c1, replace=False)), 3)
    machz = np.round(np.sort(rng.choice(np.arange(0.1, 1, 0.025), m0, replace=False)), 3)
    alt = np.sort(rng.choice(np.arange(0, 50000, 2500.0), a0, replace=False))
    cdi = np.round(rng.uniform(0.01, 0.09, (m1, c1)), 5)
    cd0 = np.round(rng.uniform(0.01, 0.03, (m0, a0)), 6)
    com = [[], []]

    def cm(i):
        out = []
        while some(rng, 0.25):
            c = str(rng.choice(['# lift-dependent drag polar, function of Mach & CL', '# second comment', '# x = 3, y']))
            com[i].append(c)
            out.append(sp() + c)
        return out

    def sp():
        return str(rng.choice(['', ' ', '  ', '\t']))

    def row(v):
        return sp() + str(rng.choice([' ', '  ', '\t'])).join(f'{x:g}' for x in v) + str(rng.choice(['', ' ']))

    lines = cm(0) + [row([m1, c1])] + cm(0) + [row(mach)] + [row(cl)]
    for r in cdi:
        lines += cm(0) + [row(r)]
    lines += cm(1) + [row([a0, m0])] + [row(machz)] + cm(1) + [row(alt)]
    for r in cd0:
        lines += cm(1) + [row(r)]
    text = '\n'.join(lines) + '\n'
    case = {'text': text, 'seed': seed}
    rec.case(hash_of(text), {'FLOPS aero': [m1, c1, m0, a0], 'comments': len(com[0]) + len(com[1])})
    given = str(rng.choice(['list', 'one', 'none']))
    keep = {}

    def go(pkg):
        src = source(text, 'fa' + pkg)
        base = src[:-4]
        if given == 'list':
            o = [out_name(pkg, 'fa1'), out_name(pkg, 'fa2')]
            convert(pkg, 'aero_table', src, list(o), 'FLOPS')
        elif given == 'one':
            q = out_name(pkg, 'fa1')
            convert(pkg, 'aero_table', src, q, 'FLOPS')
            o = [q[:-4] + '_CDi.csv', q[:-4] + '_CD0.csv']
        else:
            o = [base + '_aviary_CDI.txt', base + '_aviary_CD0.txt']
            for q in o:
                if os.path.exists(q):
                    os.remove(q)
            convert(pkg, 'aero_table', src, None, 'FLOPS')
        keep[pkg] = o
        return [[table(q)[i] for i in range(3)] for q in o]

    res = dual.judge(rec, 'FLOPS aero table', go, case, monitor='table agrees with the release', describe=given)
    if res is None:
        return
    if not res[1].ok:
        rec.violation('FLOPS aero table: refused', repr(res[1].value)[:300], case=case)
        return
    M, C = np.meshgrid(mach, cl, indexing='ij')
    Z, A = np.meshgrid(machz, alt, indexing='ij')
    want = [(['Mach', 'Lift_Coefficient', 'Lift-Dependent_Drag_Coefficient'], ['unitless'] * 3, np.c_[M.ravel(), C.ravel(), cdi.ravel()]),
            (['Altitude', 'Mach', 'Zero-Lift_Drag_Coefficient'], ['ft', 'unitless', 'unitless'], np.c_[A.ravel(), Z.ravel(), cd0.ravel()])]
    for i, (o, (h, u, w)) in enumerate(zip(keep['aviary'], want)):
        names, units, data, cms = table(o)
        rec.event('rows conserved')
        if [n.replace(' ', '_') for n in names] != h or units != u:
            rec.violation('FLOPS aero table: columns', f'{names} {units}', case=case)
        elif not rows_equal(sort_rows(data), sort_rows(w), 1e-12):
            rec.violation('FLOPS aero table: rows', first_diff(sort_rows(data), sort_rows(w)), case=case)
        for c in com[i]:
            rec.event('comment kept')
            if not any(c.lstrip('# ').strip() in x for k in keep['aviary'] for x in table(k)[3]):
                rec.violation('FLOPS aero table: comments', f'{c} is lost', case=case)
        readable(rec, 'FLOPS aero table', o, names, data, case)


def gasp_columns(rec, rng, seed):
    heads = {'Altitude': ('Altitude', '(ft)'), 'alt': ('Altitude', '(ft)'), 'Mach': ('Mach', '(-)'), 'ALPHA': ('Angle of Attack', '(deg)'), 'CLTOT': ('CL', '(-)'), 'CL': ('CL', '(-)'),
             'CD': ('CD', '(-)'), 'DELFLP': ('Flap Deflection', '(deg)'), 'HOB': ('Hob', '(-)'), 'DEL_CL': ('Delta CL', '(-)'), 'DEL_CD': ('Delta CD', '(-)')}
    pick, final = [], set()
    for h in rng.permutation(list(heads)):
        if heads[h][0] not in final and (some(rng, 0.7)):
            pick.append(str(h))
            final.add(heads[h][0])
    if len(pick) < 2:
        return
    n = int(rng.integers(1, 40))
    d = np.round(rng.normal(size=(n, len(pick))) * 10.0 ** rng.integers(-2, 4, len(pick)), 5)
    un = [('(m)' if some(rng, 0.2) else heads[h][1]) if heads[h][0] == 'Altitude' else heads[h][1] for h in pick]
    com = [str(rng.choice(['Clean / Free Air Aerodynamics', 'Reference Area = 1370. sqft', 'a, b, c'])) for _ in range(int(rng.integers(0, 4)))]
    lines = ['#  ' + c for c in com] + ['# ' + '  '.join(pick), '# ' + str(rng.choice([' ', '   '])).join(un)] + ['#'] * int(rng.integers(0, 2))
    for r in d:
        if some(rng, 0.05):
            lines.append(str(rng.choice(['', '#', '  '])))
        lines.append(str(rng.choice(['', '   '])) + str(rng.choice([' ', '    ', '\t'])).join(repr(float(x)) for x in r))
    text = '\n'.join(lines) + '\n' * int(rng.integers(1, 3))
    case = {'text': text, 'seed': seed}
    rec.case(hash_of(text), {'GASP columns': pick, 'rows': n})
    keep = {}

    def go(pkg):
        src = source(text, 'gc' + pkg)
        if seed[-1] % 3 == 0:
            o = src[:-4] + '_aviary.csv'
            if os.path.exists(o):
                os.remove(o)
            convert(pkg, 'aero_table', src, None, 'GASP_ALT')
        else:
            o = out_name(pkg, 'gc')
            convert(pkg, 'aero_table', src, o, 'GASP_ALT')
        keep[pkg] = o
        t = table(o)
        return [t[0], t[1], t[2]]

    res = dual.judge(rec, 'GASP aero table', go, case, monitor='table agrees with the release')
    if res is None:
        return
    if not res[1].ok:
        rec.violation('GASP aero table: refused', repr(res[1].value)[:300], case=case)
        return
    names, units, data, cms = table(keep['aviary'])
    rec.event('rows conserved')
    if [n.replace('_', ' ') for n in names] != [heads[h][0] for h in pick] or units != [u.strip('()').replace('-', 'unitless') for u in un]:
        rec.violation('GASP aero table: columns', f'{list(zip(pick, un))} becomes {list(zip(names, units))}', case=case)
    elif not rows_equal(data, d):
        rec.violation('GASP aero table: rows', first_diff(data, d), case=case)
    for c in com:
        rec.event('comment kept')
        if not any(c in x for x in cms):
            rec.violation('GASP aero table: comments', f'{c} is lost', case=case)
    readable(rec, 'GASP aero table', keep['aviary'], names, data, case)


def gasp_aero(rec, rng, seed):
    alts = [float(a) for a in sorted(rng.choice([0, 10000, 20000, 30000, 41000], int(rng.integers(1, 4)), replace=False))]
    aoa = np.arange(int(rng.integers(4, 8))) * float(rng.choice([0.5, 1.0])) + float(rng.choice([0.0, -1.0]))
    mach = {a: np.round(0.2 + 0.05 * np.arange(int(rng.integers(4, 7))) * int(rng.choice([1, 2])), 2) for a in alts}
    if len(alts) > 1 and some(rng, 0.4):
        mach[alts[0]] = mach[alts[0]][:3]
    # CL has to be monotonic in angle of attack for the conversion to angle of attack to be defined
    cls = np.round(np.arange(-0.4, 1.6, 0.1)[:int(rng.integers(8, 19))], 2)
    CL = {a: np.round(0.1 + 0.09 * (aoa[:, None] + 0.2 * np.sin(aoa)[:, None]) * (1 + 0.3 * mach[a][None, :]), 4) for a in alts}
    CD = {a: np.round(0.02 + 0.05 * cls[:, None] ** 2 * (1 + mach[a][None, :] ** 2) + float(rng.uniform(0, 0.004)), 5) for a in alts}

    def text(order):
        out = [f'{0:5d}{1:5d}{-1:5d}{1:5d}' + f'{4876.0:10.1f}{1.0:10.1f}$']
        for nm, y, z, w in (('CL', aoa, CL, 4), ('CD', cls, CD, 5)):
            out += [f'{nm} tables $', f'{len(order):5d}$', '$']
            for i, a in enumerate(order):
                out += gasp_map(mach[a], y, z[a], a, (10, w))
                if i < len(order) - 1:
                    out.append('$')
        return '\n'.join(out) + '\n'

    t = text(alts)
    case = {'text': t, 'seed': seed}
    rec.case(hash_of(t), {'GASP aero maps': alts, 'angles': aoa.tolist()})
    keep = {}

    def go(pkg, txt=t, tag='ga'):
        o = out_name(pkg, tag)
        convert(pkg, 'aero_table', source(txt, tag), o, 'GASP')
        keep[pkg, tag] = o
        q = table(o)
        return [q[0], q[1], q[2]]

    res = dual.judge(rec, 'GASP aero maps', go, case, monitor='table agrees with the release', rtol=1e-3, atol=2e-5)
    if res is None or not res[1].ok:
        if res is not None:
            rec.event('refused table')
            rec.skip(repr(res[1].value)[:200])
        return
    names, units, data, _ = table(keep['aviary', 'ga'])
    ix = {n.replace('_', ' '): i for i, n in enumerate(names)}
    bad = None
    for a in alts:
        for j, y in enumerate(aoa):
            for i, x in enumerate(mach[a]):
                near = data[(np.abs(data[:, ix['Mach']] - x) < 1e-6) & (data[:, ix['Altitude']] == a) & (np.abs(data[:, ix['Angle of Attack']] - y) < 1e-6)]
                rec.event('node conserved')
                if len(near) != 1:
                    bad = bad or f'altitude {a}, Mach {x}, angle {y} appears {len(near)} times'
                    continue
                w = CL[a][j, i]
                k = int(np.clip(np.searchsorted(cls, w) - 1, 0, len(cls) - 2))
                s = (w - cls[k]) / (cls[k + 1] - cls[k])
                cd = CD[a][k, i] * (1 - s) + CD[a][k + 1, i] * s
                if abs(near[0, ix['CL']] - w) > 1e-3 * abs(w) + 1e-5 or abs(near[0, ix['CD']] - cd) > 1e-3 * abs(cd) + 1e-5:
                    bad = bad or f'altitude {a}, Mach {x}, angle {y}: CL {w}, CD {cd} become {near[0].tolist()}'
    if bad:
        rec.violation('GASP aero maps: nodes', bad, case=case)
    if len(alts) > 1:
        o2 = alts[::-1]
        go('aviary', text(o2), 'gb')
        d2 = table(keep['aviary', 'gb'])[2]
        rec.event('order of the maps')
        if d2.shape != data.shape or not np.allclose(d2, data, rtol=2e-3, atol=1e-4):
            rec.violation('GASP aero maps: order of the maps', f'maps in the order {o2} give other points', case=case)


def propeller(rec, rng, seed):
    kind = int(rng.choice([1, 2, 2, 3]))
    nm = int(rng.integers(1, 6))
    machs = [round(float(m), 4) for m in np.sort(rng.choice(np.arange(0, 1, 0.05), nm, replace=False))]
    want, lines = [], [f'{kind:5d}{1:5d}$', 'Ten Bladed Propfan:  Ct Tables   $', f'{nm:5d}$', '$']
    for i, m in enumerate(machs):
        J = np.round(np.sort(rng.choice(np.arange(0, 4, 0.1), int(rng.integers(1, 16)), replace=False)), 4)
        P = np.round(np.sort(rng.choice(np.arange(0.02, 2, 0.02), int(rng.integers(1, 9)), replace=False)), 4)
        ct = np.round(rng.normal(size=(len(P), len(J))) * 0.4, 6)
        g = gasp_map(J, P, ct, 0.0, (10, 6), indent=True)
        g[0] = f'{len(J):5d}{len(P):5d}{m:10.4f}$'
        lines += g
        if i < nm - 1:
            lines.append('$')
        want += [[m, p, j, ct[a, b]] for a, p in enumerate(P) for b, j in enumerate(J)]
    text = '\n'.join(lines) + '\n'
    case = {'text': text, 'seed': seed}
    rec.case(hash_of(text), {'propeller maps': nm, 'rows': len(want)})
    keep = {}
    rnd = some(rng, 0.3)

    def go(pkg):
        o = out_name(pkg, 'pm')
        convert(pkg, 'propeller_table', source(text, 'pm', '.map'), o, None, rnd if rnd or some(rng, 0.5) else None)
        keep[pkg] = o
        t = table(o)
        return [t[0], t[1], t[2]]

    res = dual.judge(rec, 'propeller map', go, case, monitor='table agrees with the release')
    if res is None:
        return
    if kind == 3:
        rec.event('refused table')
        if res[1].ok:
            rec.violation('propeller map: unknown kind', 'a map of kind 3 is converted', case=case)
        return
    if not res[1].ok:
        rec.violation('propeller map: refused', repr(res[1].value)[:300], case=case)
        return
    names, units, data, cm = table(keep['aviary'])
    rec.event('rows conserved')
    if [n.replace('_', ' ') for n in names] != ['Helical Mach' if kind == 1 else 'Mach', 'Power Coefficient', 'Advance Ratio', 'Thrust Coefficient'] or units != ['unitless'] * 4:
        rec.violation('propeller map: columns', f'{names} {units}', case=case)
    elif not rows_equal(data, np.array(want), 2e-5 if rnd else 1e-12):
        rec.violation('propeller map: rows', first_diff(data, np.array(want)), case=case)
    rec.event('comment kept')
    if not any('Ten Bladed Propfan' in x for x in cm):
        rec.violation('propeller map: comments', 'the title is lost', case=case)
    readable(rec, 'propeller map', keep['aviary'], names, data, case)


TABLES = [flops_engine, gasp_engine, flops_aero, gasp_columns, gasp_aero, propeller]


def worker(rec, item):
    kind, seeds = item
    for s in seeds:
        if kind == 'deck':
            deck(rec, s)
        else:
            TABLES[int(kind)](rec, np.random.default_rng(s), list(map(int, s)))


def run(chk):
    import aviary.api, aviary_ref.api  # noqa

    chk.rule = ('one case is one generated legacy file: a vehicle deck (a sample deck with perturbed, added and dropped assignments, written plainly, in other layouts, in lower case and again), '
                'or an engine, aero or propeller table with random contents, converted by the tree and the reference and judged against the generated contents')
    n = chk.pick(240, 4000)
    it = []
    s = [[chk.seed, hash_of('D08'), 7, i] for i in range(n)]
    it += [('deck', s[i:i + 10]) for i in range(0, n, 10)]
    m = chk.pick(60, 1500)
    for k in range(len(TABLES)):
        s = [[chk.seed, hash_of('D08'), 11 + k, i] for i in range(m)]
        it += [(str(k), s[i:i + 10]) for i in range(0, m, 10)]
    chk.pmap(worker, it, timeout=240)
    for k, v in {'converted deck': 100, 'layout neutral': 100, 'history neutral': 100, 'mapped value': 5000, 'unconverted kept': 2000, 'aviary name': 60, 'rows conserved': 150,
                 'node conserved': 3000, 'order of the maps': 50, 'comment kept': 150, 'readable': 150}.items():
        chk.require(k, v)
