"""Data tables through files: written and read back, and generated files of any layout read against an independent reading."""
import copy
import importlib
import os

import numpy as np

from vlib import dual
from vlib.missions import hash_of

UNITS = ['unitless', 'ft', 'm', 'lbm', 'lbf', 'kn', 'deg', 'degR', 'lb/h', 'lbm/h', 'hp', 'N*m', 'rpm', 'kg/(m*s)', 'lbm/(hp*h)', 'ft/s**2', '1/s', 'W', 'psi', 'lbf/ft**2', 'Btu/(lbm*degR)', 'g/(kW*h)']
ALT = {'ft': ['m', 'inch'], 'lbm': ['kg'], 'lbf': ['N'], 'deg': ['rad'], 'hp': ['kW', 'W'], 'lbm/h': ['kg/s', 'lbm/s'], 'kn': ['m/s', 'ft/s']}
WORDS = ['altitude', 'Mach', 'Thrust', 'Fuel_Flow', 'shaft_power', 'T4', 'aircraft:wing:span', 'alpha', 'CL', 'cd', 'Zero-Lift_Drag', 'x1', 'NOx_Rate', 'data', 'inputs_a', 'Output', 'hob', 'e1', 'delta.z']
NUM = ['-?', '']


def mod(pkg):
    return importlib.import_module(pkg + '.utils.csv_data_file')


def nv(pkg):
    return importlib.import_module(pkg + '.utils.named_values').NamedValues


def val(rng):
    r = rng.random()
    if r < 0.2:
        return float(rng.integers(-500, 50000))
    if r < 0.4:
        return float(10 ** rng.uniform(-12, 12) * rng.choice([-1, 1]))
    if r < 0.45:
        return float(rng.choice([0.0, -0.0, 1e-300, 1e300, 5e-324, 1 / 3]))
    return float(rng.normal() * 100)


def comment(rng):
    return str(rng.choice(['a comment', 'with, commas; and (brackets', '# already marked', 'x = 3', '  spaced  ', '1, 2, 3', 'see #4', 'Mach, Altitude (ft)', 'été ∂x/∂y µ',
                           'first line\nsecond line', 'one\n\n# two\nthree', '']))


def lines_of(cs):
    out = []
    for c in cs:
        for l in c.split('\n'):
            l = l.strip()
            out.append(l[1:].strip() if l.startswith('#') else l)
    return [x for x in out if x]


def same_values(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))


def round_trip(rec, seed):
    rng = np.random.default_rng(seed)
    ncol, nrow = int(rng.integers(1, 9)), int(rng.choice([1, 2, 3, 5, 12, 40]))
    names = [str(x) for x in rng.choice(WORDS, size=ncol, replace=False)]
    cols = []
    for n in names:
        v = np.array([val(rng) for _ in range(nrow)])
        if rng.random() < 0.1:
            v[int(rng.integers(nrow))] = rng.choice([np.nan, np.inf, -np.inf])
        if rng.random() < 0.2:
            v = rng.integers(-9, 9, nrow)
        cols.append((n, v, str(rng.choice(UNITS))))
    outs = None if rng.random() < 0.3 else [n for n in names if rng.random() < 0.4]
    r = rng.random()
    cs = comment(rng) if r < 0.2 else [] if r < 0.4 else [comment(rng) for _ in range(int(rng.integers(1, 4)))]
    form = str(rng.choice(['array', 'list', 'tuple']))
    stamp = bool(rng.random() < 0.2)
    as_path = bool(rng.integers(2))
    case = {'columns': [(n, v.tolist(), u) for n, v, u in cols], 'outputs': outs, 'comments': cs, 'timestamp': stamp}
    rec.case(repr(case)[:200], case)
    rec.seen('shapes', f'{ncol}x{nrow}')
    keep = {}

    def go(pkg):
        from pathlib import Path

        M = mod(pkg)
        d = nv(pkg)()
        for n, v, u in cols:
            d.set_val(n, v.copy() if form == 'array' else list(v) if form == 'list' else tuple(v), u)
        f = os.path.abspath(f'table{os.getpid()}.csv')
        a_out, a_com = copy.deepcopy(outs), copy.deepcopy(cs)
        if os.path.exists(f):
            os.remove(f)
        M.write_data_file(Path(f) if as_path else f, d, outputs=a_out, comments=a_com, include_timestamp=stamp)
        got = M.read_data_file(f, save_comments=True)
        keep[pkg] = (d, a_out, a_com, got)
        return ('tuple', [[(k, np.asarray(v[0]), v[1]) for k, v in got[0].items()], got[1], got[2], [c for c in got[3] if 'created' not in c]])

    res = dual.judge(rec, 'written and read back', go, case)
    if res is None or not res[1].ok:
        if res is not None:
            rec.violation('a table cannot be written and read back', f'{res[1].value!r:.300}', case=case)
        return
    d, a_out, a_com, (got, ins, os_, com) = keep['aviary']
    rec.event('round trip')
    if list(got.keys()) != names:
        rec.violation('round trip: columns', f'{names} read as {list(got.keys())}', case=case)
        return
    for n, v, u in cols:
        g, gu = got.get_item(n)
        if gu != u:
            rec.violation('round trip: units', f'{n}: {u} read as {gu}', case=case)
        if not same_values(g, v):
            rec.violation('round trip: values', f'{n}: {v.tolist()} read as {np.asarray(g).tolist()}', case=case)
    if outs is not None:
        rec.event('labels')
        if list(os_) != [n for n in names if n in outs] or list(ins) != [n for n in names if n not in outs]:
            rec.violation('round trip: input and output labels', f'outputs {outs} of {names} read as inputs {ins}, outputs {os_}', case=case)
    elif ins or os_:
        rec.violation('round trip: input and output labels', f'no labels asked for, read as inputs {ins}, outputs {os_}', case=case)
    want = lines_of([cs] if isinstance(cs, str) else cs)
    have = [c for c in com if c]
    rec.event('comments')
    if stamp:
        if not have or not have[0].startswith('created'):
            rec.violation('round trip: time stamp', f'comments {have}', case=case)
        have = have[1:]
    if have != want:
        rec.violation('round trip: comments', f'{want} read as {have}', case=case)
    if a_out != outs or a_com != cs or any(not same_values(d.get_val(n, u), v) or d.get_item(n)[1] != u for n, v, u in cols) or list(d.keys()) != names:
        rec.violation('writing changes its arguments', f'outputs {a_out}, comments {a_com}', case=case)


def spellings(rng, s):
    out = ''
    for ch in s:
        if ch == '_':
            out += str(rng.choice(['_', ' ']))
        else:
            out += ch.upper() if rng.random() < 0.3 else ch.lower() if rng.random() < 0.5 else ch
    return out


def layout(rec, seed):
    rng = np.random.default_rng(seed)
    ncol, nrow = int(rng.integers(1, 8)), int(rng.choice([1, 2, 3, 6, 15]))
    words = [str(x) for x in rng.choice(WORDS, size=ncol, replace=False)]
    defect = str(rng.choice(['none'] * 8 + ['duplicate', 'bad units', 'wrong units', 'short row', 'long row', 'blank cell', 'text in data', 'no header', 'no file', 'both labels', 'second header']))
    aliases, meta = None, None
    final = list(words)                 # the name each column gets
    spelled = list(words)
    if rng.random() < 0.5:
        aliases = {}
        for i, w in enumerate(words):
            if rng.random() < 0.6:
                key = f'key:{w}' if rng.random() < 0.7 else w.upper() + '_K'
                a = spellings(rng, w)
                others = [str(rng.choice(['other name', 'Something_else', 'zz']) + str(i))]
                aliases[key] = a if rng.random() < 0.2 else ([a] + others if rng.random() < 0.5 else others + [a])
                final[i] = key
                spelled[i] = spellings(rng, w)
                if rng.random() < 0.1 and not isinstance(aliases[key], str):
                    spelled[i] = others[0]
    units = [str(rng.choice(UNITS)) for _ in words]
    declared = [u if rng.random() < 0.5 else (str(rng.choice(ALT[u])) if u in ALT else u) for u in units]
    known = [True] * ncol
    if rng.random() < 0.4:
        known = [rng.random() < 0.8 for _ in words]
        if not any(known):
            known[0] = True
        meta = {f: {'units': declared[i], 'desc': 'x'} for i, f in enumerate(final) if known[i]}
        meta['not:in:file'] = {'units': 'ft', 'desc': 'y'}
    given = []
    for i in range(ncol):
        if rng.random() < 0.35:
            given.append(None)
        else:
            given.append(units[i])
    expect_u = [g if g is not None else (declared[i] if meta is not None else 'unitless') for i, g in enumerate(given)]
    label = [str(rng.choice(['input', 'output', ''])) if rng.random() < 0.7 else '' for _ in words]
    ds = str(rng.choice([',', ';', 'mixed'], p=[0.8, 0.1, 0.1]))

    def sp():
        return ''.join(str(rng.choice([' ', '\t'], p=[0.85, 0.15])) for _ in range(int(rng.choice([0, 0, 1, 1, 2, 5]))))

    def join(cells):
        out = ''
        for i, c in enumerate(cells):
            out += (('' if i == 0 else str(rng.choice([',', ';'])) if ds == 'mixed' else ds)) + sp() + c + sp()
        return out

    target = int(rng.integers(ncol))
    if defect == 'wrong units':
        if meta is None or not known[target]:
            defect = 'none'
        else:
            given[target] = 'kg' if meta[final[target]]['units'] not in ('kg', 'lbm') else 'ft'
    if defect == 'bad units':
        given[target] = str(rng.choice(['notaunit', 'ft*', 'feet3', 'lbm/blah']))
        if not known[target]:
            defect = 'unknown'
    head = []
    for i, s in enumerate(spelled):
        inside = [x for x in (given[i] or '', label[i]) if x]
        if rng.random() < 0.15 and given[i] is None and label[i] == '' and meta is None:
            inside = ['unitless']
        if defect == 'both labels' and i == target:
            inside = ([given[i]] if given[i] else []) + ['input', 'output']
            if not known[i]:
                defect = 'unknown'
        head.append(s + (sp() + '(' + (',' + sp()).join(x + sp() for x in inside) + ')' if inside else ''))
    if defect == 'duplicate':
        j = int(rng.integers(ncol))
        head.append(head[j])
        if not known[j]:
            defect = 'unknown'
    table = np.array([[val(rng) for _ in words] for _ in range(nrow)])
    rows = []
    for r in table:
        cells = []
        for v in r:
            k = rng.random()
            cells.append(repr(float(v)) if k < 0.8 else f'{v:.17e}')
        rows.append(cells)
    if defect == 'duplicate' or defect == 'unknown' and len(head) > ncol:
        for r in rows:
            r.append('7.5')
    k = int(rng.integers(nrow))
    if defect == 'short row':
        if ncol == 1:
            defect = 'none'
        else:
            rows[k].pop()
    elif defect == 'long row':
        rows[k].append('3.0')
    elif defect == 'blank cell':
        if ncol == 1:
            defect = 'none'
        else:
            rows[k][int(rng.integers(ncol - 1))] = ''
    elif defect == 'text in data':
        rows[k][target] = str(rng.choice(['abc', '1.2.3', '--', '1,5e', '0x1']))
    elif defect == 'second header':
        rows.insert(int(rng.integers(nrow)) + 1 if nrow > 1 else 1, list(words))
    text, comments = [], []

    def noise():
        while rng.random() < 0.25:
            r = rng.random()
            if r < 0.5:
                text.append(str(rng.choice(['', '   ', '\t'])))
            else:
                c = str(rng.choice(['a note', 'x, y (ft), z', '1, 2', 'more ## hashes', '']))
                text.append(sp() + '#' + sp() + c)
                comments.append(c)

    def end():
        r = rng.random()
        t = ''
        if r < 0.1:
            t = sp() + ','
        elif r < 0.2:
            t = sp() + '# inline, note'
            comments.append('inline, note')
        return t

    noise()
    if defect != 'no header':
        text.append(join(head) + end())
    for r in rows:
        noise()
        text.append(join(r) + end())
    noise()
    bom = rng.random() < 0.1
    nl = str(rng.choice(['\n', '\r\n', '\n\n']))
    body = nl.join(text) + (nl if rng.random() < 0.8 else '')
    case = {'file': body, 'aliases': aliases, 'metadata': {k: v['units'] for k, v in meta.items()} if meta else None, 'defect': defect}
    rec.case(repr(case)[:300], case)
    rec.seen('defects', defect)
    save = bool(rng.integers(2))
    verb = int(rng.integers(0, 4))
    keep = {}

    def go(pkg):
        f = os.path.abspath(f'layout{os.getpid()}.csv')
        if defect == 'no file':
            f = os.path.abspath('no_such_file.csv')
        else:
            with open(f, 'w', encoding='utf-8-sig' if bom else 'utf-8', newline='') as h:
                h.write(body)
        a, m = copy.deepcopy(aliases), copy.deepcopy(meta)
        got = mod(pkg).read_data_file(f, metadata=m, aliases=a, save_comments=save, verbosity=verb)
        keep[pkg] = (a, m, got)
        return ('tuple', [[(k, np.asarray(v[0]), v[1]) for k, v in got[0].items()], got[1], got[2], list(got[3]) if save else None])

    res = dual.judge(rec, 'reading a data file', go, case, describe=defect)
    if res is None or defect == 'unknown':
        return
    if defect != 'none':
        rec.event('rejected file')
        if res[1].ok:
            rec.violation(f'a file with a {defect} is read', f'as {str(res[1].value)[:300]}', case=case)
        return
    rec.event('file read')
    if not res[1].ok:
        rec.violation('a valid file is refused', f'{res[1].value!r:.300}', case=case)
        return
    a, m, got = keep['aviary']
    data = got[0]
    want = [i for i in range(ncol) if known[i]]
    wn = [final[i].replace(' ', '_') if final[i] == spelled[i] else final[i] for i in want]
    if list(data.keys()) != wn:
        rec.violation('columns of a file', f'{wn} read as {list(data.keys())}', case=case)
        return
    for i, n in zip(want, wn):
        g, gu = data.get_item(n)
        if gu != expect_u[i]:
            rec.violation('units of a column', f'{n}: {expect_u[i]} read as {gu}', case=case)
        if not same_values(g, table[:, i]):
            rec.violation('values of a column', f'{n}: {table[:, i].tolist()} read as {np.asarray(g).tolist()}', case=case)
    wi, wo = [n for i, n in zip(want, wn) if label[i] == 'input'], [n for i, n in zip(want, wn) if label[i] == 'output']
    rec.event('labels')
    if list(got[1]) != wi or list(got[2]) != wo:
        rec.violation('labels of columns', f'inputs {wi}, outputs {wo} read as {got[1]}, {got[2]}', case=case)
    if save:
        rec.event('comments')
        if [c for c in got[3] if c] != [c.strip() for c in comments if c.strip()]:
            rec.violation('comments of a file', f'{comments} read as {got[3]}', case=case)
    rec.event('arguments untouched')
    if a != aliases or m != meta:
        rec.violation('reading changes its arguments', f'aliases {a}, metadata {list(m or {})}', case=case)


def worker(rec, item):
    kind, seeds = item
    for s in seeds:
        (round_trip if kind == 'trip' else layout)(rec, s)


def run(chk):
    import aviary.api, aviary_ref.api  # noqa

    chk.rule = ('one case is one table written with write_data_file and read back, or one generated text file read with read_data_file (aliases, metadata, labels, '
                'spacing, comments, line ends; a defect in almost half); judged against the generated content and against the reference')
    n = chk.pick(2500, 60000)
    it = []
    for kind in ('trip', 'layout'):
        s = [[chk.seed, hash_of('D04'), hash_of(kind), i] for i in range(n)]
        it += [(kind, s[i:i + 100]) for i in range(0, n, 100)]
    chk.pmap(worker, it, timeout=120)
    chk.require('round trip', 1000)
    chk.require('file read', 500)
    chk.require('rejected file', 400)
    chk.require('labels', 1000)
    chk.require('comments', 1000)
    chk.require('arguments untouched', 500)
