"""Whole problems: built, run and observed through the public interface, in the package under test or in the reference."""

import contextlib
import copy
import importlib
import io
import os
import shutil
import tempfile
import warnings
from enum import Enum
from pathlib import Path

import numpy as np
import openmdao.api as om
from openmdao.utils.units import convert_units

warnings.simplefilter('ignore')

FLOPS = {
    'asa': 'models/aircraft/advanced_single_aisle/advanced_single_aisle_FLOPS.csv',
    'lsa1': 'models/aircraft/large_single_aisle_1/large_single_aisle_1_FLOPS.csv',
    'lsa2': 'models/aircraft/large_single_aisle_2/large_single_aisle_2_FLOPS.csv',
    'lsa2alt': 'models/aircraft/large_single_aisle_2/large_single_aisle_2_altwt_FLOPS.csv',
    'lsa2det': 'models/aircraft/large_single_aisle_2/large_single_aisle_2_detailwing_FLOPS.csv',
    'min': 'models/aircraft/minimum_single_aisle/minimum_single_aisle_FLOPS.csv',
    'bwbs': 'models/aircraft/blended_wing_body/bwb_simple_FLOPS.csv',
    'bwbd': 'models/aircraft/blended_wing_body/bwb_detailed_FLOPS.csv',
    'bwb300': 'models/aircraft/blended_wing_body/bwb300_baseline_FLOPS.csv',
}
GASP = {
    'lsag': 'models/aircraft/large_single_aisle_1/large_single_aisle_1_GASP.csv',
    'ssag': 'models/aircraft/small_single_aisle/small_single_aisle_GASP.csv',
    'bwbg': 'models/aircraft/blended_wing_body/generic_BWB_GASP.csv',
}
_D = Path(__file__).resolve().parent.parent / 'data' / 'decks'
BENCH = {
    'solved2dof': str(_D / 'aircraft_for_bench_solved2dof.csv'),
    'FwFm': str(_D / 'aircraft_for_bench_FwFm.csv'),
    'FwFmE': str(_D / 'aircraft_for_bench_FwFm_with_electric.csv'),
    'FwGm': str(_D / 'aircraft_for_bench_FwGm.csv'),
    'GwFm': str(_D / 'aircraft_for_bench_GwFm.csv'),
    'GwGm': str(_D / 'aircraft_for_bench_GwGm.csv'),
    'highwing': str(_D / 'high_wing_single_aisle.csv'),
    'confG': str(_D / 'configuration_test_GASP.csv'),
    'root1': str(_D / 'bwb_root_chord1.csv'),
    'root2': str(_D / 'bwb_root_chord2.csv'),
}
DECKS = {**FLOPS, **GASP, **BENCH}


def conv(x, pkg):
    """The same data with the enumerations (and containers) of package pkg."""
    if isinstance(x, Enum) and type(x).__module__.split('.')[0] in ('aviary', 'aviary_ref'):
        mod = pkg + '.' + type(x).__module__.split('.', 1)[1]
        return getattr(importlib.import_module(mod), type(x).__name__)[x.name]
    if isinstance(x, dict):
        return {k: conv(v, pkg) for k, v in x.items()}
    if isinstance(x, list):
        return [conv(v, pkg) for v in x]
    if isinstance(x, tuple):
        return tuple(conv(v, pkg) for v in x)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return np.array([conv(v, pkg) for v in x.ravel()], dtype=object).reshape(x.shape)
        return x.copy()
    return copy.copy(x) if not isinstance(x, type) else x


_PREP = {}


def vehicle(pkg, deck):
    """A fresh AviaryValues with what the deck states (as create_vehicle reads it)."""
    api = importlib.import_module(pkg + '.api')
    # build() passes the path for the plain case; here the deck is parsed so that a case may override values
    from importlib import import_module

    pi = import_module(pkg + '.utils.process_input_decks')
    av, guess = pi.create_vehicle(deck_path(pkg, deck))
    return av, guess


def deck_path(pkg, deck):
    p = DECKS.get(deck, deck)
    root = Path(importlib.import_module(pkg).__file__).parent
    q = root / p
    return str(q) if q.exists() else str(p)


@contextlib.contextmanager
def quiet():
    with open(os.devnull, 'w') as null, contextlib.redirect_stdout(null), contextlib.redirect_stderr(null):
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            yield


class Built:
    pass


def build(pkg, spec, upto='run'):
    """Run the level-2 sequence for a spec (plain data):

    deck, phase_info, values {name: (val, units)}, drop [names], objective, optimizer, external (factory),
    inputs {promoted name: (val, units)} set after set_initial_guesses.
    upto: load, preprocess, model, setup, guess, run, opt
    """
    api = importlib.import_module(pkg + '.api')
    if spec.get('missions'):
        return build_multi(pkg, spec, upto)
    if spec.get('detailed'):
        from vlib import detailed

        return detailed.build(pkg, spec, upto)
    if spec.get('as_path'):
        data = deck_path(pkg, spec['deck'])
    else:
        data, _ = vehicle(pkg, spec['deck'])
        for n in spec.get('drop', ()):
            if n in data:
                data.delete(n)
        for n, (v, u) in spec.get('values', {}).items():
            data.set_val(n, conv(v, pkg), u)
    phase_info = conv(spec['phase_info'], pkg) if spec.get('phase_info') is not None else None
    p = api.AviaryProblem(problem_type=conv(spec['problem_type'], pkg) if spec.get('problem_type') else None,
                          verbosity=spec.get('verbosity', 0))
    b = Built()
    b.prob = p
    b.pkg = pkg
    b.data = data
    b.phase_info_in = phase_info
    p.load_inputs(data, phase_info, verbosity=spec.get('verbosity', 0))
    if spec.get('external'):
        p.load_external_subsystems([f(pkg) for f in spec['external']])
    if upto == 'load':
        return b
    p.check_and_preprocess_inputs()
    if upto == 'preprocess':
        return b
    p.add_pre_mission_systems()
    if upto in ('premission', 'premission_setup'):
        p.setup()
        p.set_solver_print(-1)
        if upto == 'premission':
            p.run_model()
        else:
            p.final_setup()
        return b
    p.add_phases()
    p.add_post_mission_systems()
    p.link_phases()
    if upto == 'model':
        return b
    p.add_driver(spec.get('optimizer', 'SLSQP'), max_iter=spec.get('max_iter', 30), use_coloring=spec.get('coloring', True))
    p.add_design_variables()
    objective(p, spec)
    p.setup()
    if upto == 'setup':
        p.final_setup()
        return b
    p.set_initial_guesses()
    for n, (v, u) in spec.get('inputs', {}).items():
        p.set_val(n, v, units=u)
    if upto == 'guess':
        p.final_setup()
        return b
    p.set_solver_print(-1)
    if upto == 'run':
        p.run_model()
    elif upto == 'opt':
        p.options['group_by_pre_opt_post'] = p.options['group_by_pre_opt_post']
        import dymos as dm

        b.result = dm.run_problem(p, run_driver=True, simulate=False, make_plots=False)
    return b


def objective(p, spec):
    for kw in spec.get('dv_default', ()):
        p.add_design_var_default(**kw)
    if spec.get('composite') is not None:
        p.add_composite_objective(*spec['composite'], **spec.get('composite_kw', {}))
    elif spec.get('composite_adv') is not None:
        p.add_composite_objective_adv(**spec['composite_adv'])
    elif spec.get('objective') is not None:
        p.add_objective(**({'objective_type': spec['objective']} if isinstance(spec['objective'], str) else spec['objective']))
    else:
        p.add_objective()


def build_multi(pkg, spec, upto):
    """A problem of several missions (PROBLEM_TYPE MULTI_MISSION)."""
    api = importlib.import_module(pkg + '.api')
    E = importlib.import_module(pkg + '.variable_info.enums')
    p = api.AviaryProblem(problem_type=E.ProblemType.MULTI_MISSION, verbosity=spec.get('verbosity', 0))
    b = Built()
    b.prob, b.pkg = p, pkg
    for m in spec['missions']:
        data, _ = vehicle(pkg, m['deck'])
        for n, (v, u) in m.get('values', {}).items():
            data.set_val(n, conv(v, pkg), u)
        p.add_aviary_group(m['name'], aircraft=data, phase_info=conv(m['phase_info'], pkg))
    p.build_model()
    names = [m['name'] for m in spec['missions']]
    p.promote_inputs(spec.get('promote_in', names), [tuple(x) for x in spec['promote']])
    p.add_driver(spec.get('optimizer', 'SLSQP'), max_iter=spec.get('max_iter', 30))
    p.add_design_variables()
    objective(p, spec)
    p.setup()
    if spec.get('design_range'):
        p.set_design_range(*spec['design_range'])
    if upto in ('setup', 'guess'):
        p.final_setup()
        return b
    p.set_solver_print(-1)
    p.run_model()
    return b


def observe(prob, inputs=True):
    """{promoted name: (value, units)} of every output (and of the inputs nothing drives)."""
    model = prob.model
    out = {}
    meta = model._var_allprocs_abs2meta
    res = model._resolver
    for abs_name, m in meta['output'].items():
        prom = res.abs2prom(abs_name, 'output')
        if abs_name.startswith('_auto_ivc.'):
            continue
        try:
            out[prom] = (np.array(prob.get_val(abs_name)), m.get('units'))
        except Exception:
            continue
    if inputs:
        for abs_name, m in meta['input'].items():
            src = model._conn_global_abs_in2out.get(abs_name, '')
            if src.startswith('_auto_ivc.'):
                prom = res.abs2prom(abs_name, 'input')
                try:
                    out['in:' + prom] = (np.array(prob.get_val(abs_name)), m.get('units'))
                except Exception:
                    continue
    return out


def observe_opt(prob):
    """Design variables, constraints and objectives as the driver sees them."""
    model = prob.model
    res = {}
    for kind, d in (
        ('dv', model.get_design_vars(recurse=True, use_prom_ivc=True)),
        ('con', model.get_constraints(recurse=True, use_prom_ivc=True)),
        ('obj', model.get_objectives(recurse=True, use_prom_ivc=True)),
    ):
        for name, m in d.items():
            r = {}
            for k in ('lower', 'upper', 'equals', 'ref', 'ref0', 'scaler', 'adder', 'indices', 'units', 'linear', 'size', 'global_size'):
                v = m.get(k)
                if k == 'indices' and v is not None:
                    v = np.array(v.indexed_src_size if False else v()).tolist() if callable(v) else str(v)
                r[k] = v
            res[kind, name] = r
    return res


def drop_problem(b):
    try:
        b.prob.cleanup()
    except Exception:
        pass
