"""The dashboard shows what was recorded: tables of variables, optimization history, mission plot, payload-range and report tables."""
import json
import os
import re
import shutil
import tempfile
import warnings

import numpy as np

from vlib import prob as vp
from vlib.core import eval_limit

UNITS = {'m': ['m', 'ft', 'km'], 's': ['s', 'min'], 'm/s': ['m/s', 'ft/s', 'kn'], None: [None]}


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.size == b.size and np.allclose(a.ravel(), b.ravel(), rtol=tol, atol=1e-12, equal_nan=True)


def num(v):
    """A number, list or text ('nan', 'infinity' ...) of the table as an array."""
    if isinstance(v, str):
        return np.array(float(v.replace('infinity', 'inf')))
    if isinstance(v, (list, tuple)):
        return np.array([num(x) for x in v])
    return np.asarray(v, float)


# ------------------------------------------------------------------ a recorded problem
def make(rng, name):
    """A small problem with the parts a mission has: aircraft values, a trajectory, objective and constraints; run and recorded."""
    import dymos as dm
    import openmdao.api as om

    from aviary.variable_info.variable_meta_data import CoreMetaData

    p = om.Problem(name=name)
    pool = [n for n, m in CoreMetaData.items() if n.startswith(('aircraft:', 'mission:')) and not m['option'] and isinstance(m['default_value'], (float, int)) and m['units']]
    names = [str(n) for n in rng.choice(pool, size=int(rng.integers(1, 25)), replace=False)]
    if rng.random() < 0.5:  # nearly one kind: groups of one variable
        names = sorted(names)[: int(rng.integers(1, 4))]
    comps = [om.IndepVarComp() for _ in range(int(rng.integers(1, 4)))]
    for n in names:
        v = np.round(rng.uniform(-1e3, 1e3, int(rng.choice([1, 1, 1, 2, 4]))), 4)
        if rng.random() < 0.1:
            v[int(rng.integers(len(v)))] = float(rng.choice([np.nan, np.inf]))
        comps[int(rng.integers(len(comps)))].add_output(n, v, units=CoreMetaData[n]['units'] if CoreMetaData[n]['units'] != 'unitless' else None)
    for i, c in enumerate(comps):
        c.add_output(f'extra_{i}', np.round(rng.uniform(-5, 5), 3))
    pre = p.model.add_subsystem('pre_mission', om.Group(), promotes=['*'])
    for i, c in enumerate(comps):
        pre.add_subsystem(f'part_{i}', c, promotes=['*'] if rng.random() < 0.8 else [])

    class ODE(om.ExplicitComponent):
        def initialize(self):
            self.options.declare('num_nodes', types=int)

        def setup(self):
            nn = self.options['num_nodes']
            self.add_input('velocity', np.ones(nn), units='m/s')
            self.add_output('distance_rate', np.ones(nn), units='m/s')
            self.add_output('velocity_rate', np.ones(nn), units='m/s**2')
            self.add_output('altitude', np.ones(nn), units='m')
            self.add_output('load', np.ones(nn))
            self.declare_partials('*', '*', method='fd')

        def compute(self, i, o):
            v = i['velocity']
            o['distance_rate'], o['velocity_rate'] = v, 1.0 - 0.01 * v
            o['altitude'], o['load'] = 100.0 + 3.0 * v**1.5, 1.0 + 0.001 * v**2

    tname = str(rng.choice(['traj', 'traj', 'flight']))
    traj = p.model.add_subsystem(tname, dm.Trajectory())
    phases = [str(x) for x in rng.permutation(['climb', 'cruise', 'Descent', 'reserve_1'])[: int(rng.integers(1, 4))]]
    t0 = 0.0
    for i, n in enumerate(phases):
        ph = dm.Phase(ode_class=ODE, transcription=dm.Radau(num_segments=int(rng.integers(1, 4)), order=3))
        traj.add_phase(n, ph)
        ph.set_time_options(fix_initial=i == 0, duration_bounds=(5.0, 90.0), units=str(rng.choice(UNITS['s'])))
        ph.add_state('distance', rate_source='distance_rate', units=str(rng.choice(UNITS['m'])), fix_initial=i == 0)
        ph.add_state('velocity', rate_source='velocity_rate', targets=['velocity'], units='m/s', fix_initial=i == 0)
        if rng.random() < 0.9:
            ph.add_timeseries_output('altitude', units=str(rng.choice(UNITS['m'])))
        if rng.random() < 0.6:
            ph.add_timeseries_output('load')
        if rng.random() < 0.4:
            ph.add_timeseries_output('velocity_rate', output_name='acceleration', units=str(rng.choice(['m/s**2', 'ft/s**2'])))
    if len(phases) > 1:
        traj.link_phases(phases, vars=['velocity'])
        for v, u in (('time', 's'), ('distance', 'm')):
            for a, b in zip(phases, phases[1:]):
                traj.add_linkage_constraint(a, b, v, v, units=u)

    p.model.add_subsystem('sizing', om.ExecComp(['margin = 2.0 * size - 500.0', 'cost = (size - 40.0)**2 / 100.0 - 900.0', 'spread = size * w'], size=50.0, margin=0.0, cost=0.0,
                                                spread=np.zeros(3), w=np.array([1.0, -2.0, 0.5])), promotes=['*'])
    p.model.add_design_var('size', lower=-100.0, upper=100.0, ref=float(rng.choice([1.0, 20.0])))
    p.model.add_constraint('margin', upper=0.0, ref=float(rng.choice([1.0, 1000.0])))
    p.model.add_constraint('spread', upper=1e4)
    sign = float(rng.choice([1.0, -1.0]))
    p.model.add_objective('cost', ref=sign if rng.random() < 0.7 else 3.0)
    if rng.random() < 0.3:  # a name with two roles
        p.model.add_constraint('size', lower=-90.0)

    seen = []

    class Recorder(om.SqliteRecorder):
        def record_iteration_driver(self, driver, data, metadata):
            row = {}
            for f in ('get_design_var_values', 'get_constraint_values', 'get_objective_values'):
                for k, v in getattr(driver, f)(driver_scaling=False).items():
                    row[k] = np.array(v)
            seen.append(row)
            super().record_iteration_driver(driver, data, metadata)

    p.driver = om.ScipyOptimizeDriver(optimizer='SLSQP', maxiter=int(rng.integers(1, 4)), disp=False)
    p.driver.add_recorder(Recorder('optimization_history.db'))
    p.add_recorder(om.SqliteRecorder('problem_history.db'))
    p.recording_options['record_inputs'] = True
    p.setup()
    for n in phases:
        ph = getattr(traj.phases, n)
        d = float(np.round(rng.uniform(8, 60), 2))
        ph.set_time_val(t0, d, units='s')
        ph.set_state_val('distance', [t0 * 20.0, t0 * 20.0 + d * 30.0], units='m')
        ph.set_state_val('velocity', [10.0 + t0 * 0.3, 10.0 + (t0 + d) * 0.3], units='m/s')
        t0 += d
    p.set_val('size', float(np.round(rng.uniform(-50, 90), 2)))
    p.run_driver()
    p.record('final')
    p.cleanup()
    return p, tname, phases, seen


# ------------------------------------------------------------------ monitors
def table(rec, p, out, labels):
    from aviary.variable_info.variable_meta_data import CoreMetaData
    from aviary.visualization import dashboard as db

    os.makedirs(f'{out}/reports/aviary_vars', exist_ok=True)
    got = db.create_aviary_variables_table_data_nested(out, f'{out}/problem_history.db')
    with open(f'{out}/reports/aviary_vars/aviary_vars.json') as f:
        shown = json.load(f)
    if json.loads(json.dumps(got)) != shown:
        rec.violation('variables table: file and table differ', '', labels=labels)
    want = {m['prom_name'] and a: (m['prom_name'], m['units']) for a, m in p.model.list_outputs(units=True, prom_name=True, out_stream=None, return_format='dict').items()}
    rows = []
    for g in shown:
        for r in g.get('_children', [g]):
            rows.append(r)
            rec.event('variable of the table')
    names = [r['abs_name'] for r in rows]
    if sorted(names) != sorted(want):
        rec.violation('variables table: not every output once', f'missing {sorted(set(want) - set(names))[:4]}, too many {sorted(set(names) - set(want))[:4]}', labels=labels)
    for r in rows:
        if r['abs_name'] not in want:
            continue
        prom, units = want[r['abs_name']]
        if r['prom_name'] != prom or r['units'] != units:
            rec.violation('variables table: name or units', f'{r["abs_name"]}: {r["prom_name"]} {r["units"]}, not {prom} {units}', labels=labels)
            continue
        v = p.get_val(r['abs_name'])
        if not close(num(r['value']), v):
            rec.violation('variables table: value', f'{prom}: {r["value"]} instead of {v}', labels=labels)
        meta = json.loads(r['metadata'])
        if (meta is None) != (prom not in CoreMetaData) or meta and (meta['units'] != CoreMetaData[prom]['units'] or meta['desc'] != CoreMetaData[prom]['desc']):
            rec.violation('variables table: metadata', f'{prom}: {meta}', labels=labels)


def history(rec, p, out, seen, labels):
    from aviary.visualization import dashboard as db

    df = db.convert_driver_case_recorder_file_to_df(f'{out}/optimization_history.db')
    if df is None or len(df) != len(seen):
        rec.violation('optimization history: iterations', f'{None if df is None else len(df)} of {len(seen)}', labels=labels)
        return
    cols = list(df.columns)
    known = list(seen[0])
    prom = {}
    for k in known:
        prom[k] = [c for c in cols if c == k or c.split('.')[-1] == k.split('.')[-1] and (c.endswith(k) or k.endswith(c))]
    if len(set(cols)) != len(cols) or cols[0] != 'iter_count':
        rec.violation('optimization history: columns', f'{cols}', labels=labels)
    for k in known:
        if not prom[k]:
            rec.violation('optimization history: a variable is missing', f'{k} in {cols}', labels=labels)
            continue
        c = k if k in prom[k] else prom[k][0]
        for i, row in enumerate(seen):
            rec.event('iteration of a variable')
            v = np.ravel(row[k])
            w = float(v[0]) if v.size == 1 else float(np.linalg.norm(v))
            if not close(df[c].iloc[i], w, 1e-7):
                rec.violation('optimization history: value', f'{k}: {df[c].iloc[i]} instead of {w} in iteration {i}', labels=labels)
                break
    if list(df['iter_count']) != list(range(len(seen))):
        rec.violation('optimization history: iteration count', f'{list(df["iter_count"])}', labels=labels)


def mission_plot(rec, rng, p, out, tname, phases, labels):
    import panel as pn
    from panel.param import ParamFunction

    from aviary.visualization import dashboard as db

    tabs = []
    pane = db._create_interactive_xy_plot_mission_variables('Mission', tabs, 'text', f'{out}/problem_history.db')
    if pane is None or len(tabs) != 1 or tabs[0][0] != 'Mission':
        rec.violation('mission plot: not created', f'{[str(x) for x in tabs][:1]}'[:400], labels=labels)
        return
    xs, ys = pane.select(pn.widgets.Select)
    fn = pane.select(ParamFunction)[0].object
    have = {}
    for ph in phases:
        pre = f'{tname}.phases.{ph}.timeseries.'
        for a, m in p.model.list_outputs(units=True, out_stream=None, return_format='dict').items():
            if a.startswith(pre):
                have.setdefault(a[len(pre):], {})[ph] = a
    if sorted(xs.options) != sorted(have) or sorted(ys.options) != sorted(have):
        rec.violation('mission plot: variables offered', f'{sorted(xs.options)} instead of {sorted(have)}', labels=labels)
        return
    default = (xs.value, ys.value)
    picks = [default] + [(str(rng.choice(xs.options)), str(rng.choice(ys.options))) for _ in range(5)]
    for x, y in picks:
        xs.value, ys.value = x, y
        fig = ParamFunction.eval(fn)
        lab = {}
        for ax, n in ((fig.xaxis[0], x), (fig.yaxis[0], y)):
            m = re.fullmatch(re.escape(n) + r' \((.*)\)', ax.axis_label or '')
            if not m:
                rec.violation('mission plot: axis', f'{ax.axis_label!r} for {n}', labels=labels)
                return
            lab[n] = None if m.group(1) in ('None', '') else m.group(1)
        curves = {it.label.value if hasattr(it.label, 'value') else it.label['value']: it.renderers for it in fig.legend[0].items}
        if sorted(curves) != sorted(phases):
            rec.violation('mission plot: phases', f'{sorted(curves)} instead of {sorted(phases)}', labels=labels)
            return
        for ph in phases:
            rec.event('curve of a phase')
            both = ph in have[x] and ph in have[y]
            for r in curves[ph]:
                d = r.data_source.data
                if not both:
                    if len(d['x']) or len(d['y']):
                        rec.violation('mission plot: curve of a variable the phase lacks', f'{x}, {y} in {ph}', labels=labels)
                    continue
                for axis, n in (('x', x), ('y', y)):
                    want = p.get_val(have[n][ph], units=lab[n])
                    if not close(d[axis], want):
                        rec.violation('mission plot: data', f'{n} of {ph} in {lab[n]}: {np.ravel(d[axis])[:3]} instead of {np.ravel(want)[:3]}', labels=labels)


def tables(rec, rng, labels):
    """Payload-range chart, csv and json tables, reports and the run status from their files."""
    from aviary.utils.csv_data_file import write_data_file
    from aviary.utils.named_values import NamedValues
    from aviary.visualization import dashboard as db

    pay, ran = np.round(np.sort(rng.uniform(0, 4e4, 4))[::-1], 3), np.round(np.sort(rng.uniform(0, 6e3, 4)), 3)
    nv = NamedValues()
    pts = ['Zero Fuel', 'Design Mission', 'Max Fuel + Payload Mission', 'Ferry Mission']
    nv.set_val('Mission Name', pts)
    nv.set_val('Payload', list(pay), 'lbm')
    nv.set_val('Fuel', list(np.round(rng.uniform(0, 5e4, 4), 3)), 'lbm')
    nv.set_val('Range', list(ran), 'NM')
    write_data_file('payload_range_data.csv', nv)
    tabs = []
    db.create_payload_range_frame('PR', tabs, 'text', 'payload_range_data.csv')
    rec.event('payload-range chart')
    fig = tabs[0][1][1].object
    for r in getattr(fig, 'renderers', []):
        d = r.data_source.data
        if not close(d['x'], ran) or not close(d['y'], pay) or [str(s).strip() for s in d['point_name']] != pts:
            rec.violation('payload-range chart', f'{dict(d)} instead of {ran} {pay}', labels=labels)
    if len(getattr(fig, 'renderers', [])) != 2:
        rec.violation('payload-range chart: curves', f'{fig}', labels=labels)

    import pandas as pd

    n = int(rng.integers(1, 9))
    df = pd.DataFrame({f'v{i} (ft)': np.round(rng.uniform(-1e4, 1e4, n), 6) for i in range(int(rng.integers(1, 6)))})
    df.to_csv('table.csv', index=False)
    tabs = []
    db.create_csv_frame('T', tabs, 'text', 'table.csv')
    rec.event('csv table')
    shown = tabs[0][1][1].value
    if list(shown.columns) != list(df.columns) or not np.allclose(shown.to_numpy(), df.to_numpy()):
        rec.violation('csv table', f'{shown} instead of {df}', labels=labels)

    status = {'Problem': 'x', 'Exit status': str(rng.choice(['SUCCESS', 'FAIL', 'SUCCESSFUL?', 'success'])), 'Iterations': int(rng.integers(99)), 'Range (NM)': float(np.round(rng.uniform(1, 5e3), 2))}
    with open('status.json', 'w') as f:
        json.dump(status, f)
    tabs = []
    db.create_table_pane_from_json('S', tabs, 'text', 'status.json')
    rec.event('status table')
    shown = tabs[0][1][1].value
    if dict(zip(shown['Name'], shown['Value'])) != status:
        rec.violation('status table', f'{shown} instead of {status}', labels=labels)
    s = db.get_run_status('status.json')
    if ('Success' in s) != (status['Exit status'] == 'SUCCESS') or 'Unknown' in s or (status['Exit status'] != 'SUCCESS' and status['Exit status'] not in s):
        rec.violation('run status', f'{s!r} for {status["Exit status"]}', labels=labels)
    if db.get_run_status('no such file.json') != 'Unknown':
        rec.violation('run status: no file', db.get_run_status('no such file.json'), labels=labels)

    text = '\n'.join(f'line {i} {rng.uniform():.6f} | x | y' for i in range(int(rng.integers(1, 30))))
    with open('rep.md', 'w') as f:
        f.write(text)
    for kind in ('markdown', 'text'):
        tabs = []
        db.create_report_frame('R', tabs, 'text', kind, 'rep.md')
        rec.event('report')
        if tabs[0][0] != 'R' or tabs[0][1][1].object != text:
            rec.violation('report frame', f'{kind}: {tabs[0][1][1].object[:80]!r}', labels=labels)
    for f in (db.create_csv_frame, db.create_table_pane_from_json):
        tabs = []
        f('gone', tabs, 'text', 'gone.file')
        if len(tabs) != 1 or 'gone.file' not in str(tabs[0][1][1].object):
            rec.violation('missing file is not announced', f'{f.__name__}', labels=labels)


def worker(rec, seed):
    rng = np.random.default_rng(seed)
    home, tmp = os.getcwd(), tempfile.mkdtemp(prefix='m16_')
    os.chdir(tmp)
    os.environ['OPENMDAO_WORKDIR'] = tmp
    try:
        with vp.quiet(), eval_limit(60), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            name = f'dash{seed[-1]}'
            p, tname, phases, seen = make(rng, name)
            out = str(p.get_outputs_dir())
            labels = [tname] + phases
            rec.case(f'dash-{seed}', {'seed': seed, 'phases': phases})
            table(rec, p, out, labels)
            history(rec, p, out, seen, labels)
            mission_plot(rec, rng, p, out, tname, phases, labels)
            tables(rec, rng, labels)
    finally:
        os.chdir(home)
        shutil.rmtree(tmp, ignore_errors=True)


def run(chk):
    import aviary.visualization.dashboard  # noqa

    chk.rule = 'one case is one small recorded problem (aircraft values, trajectory, optimization) whose dashboard tables, plots and charts are compared with the problem'
    n = chk.pick(48, 900)
    chk.pmap(worker, [[chk.seed, 1616, i] for i in range(n)], timeout=chk.pick(120, 120))
