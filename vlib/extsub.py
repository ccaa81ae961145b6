"""External subsystems from plain declarations: the same declaration becomes a builder of either package."""

import copy
import importlib

import numpy as np
import openmdao.api as om


class PreComp(om.ExplicitComponent):
    def initialize(self):
        self.options.declare('decl', recordable=False)
        self.options.declare('gain', default=1.0)

    def setup(self):
        d = self.options['decl']
        for n, u, v in d['pre']['inputs']:
            self.add_input(n, val=v, units=u)
        for o in d['pre']['outputs']:
            self.add_output(o['name'], val=np.full(o.get('size', 1), 1.0), units=o['units'])

    def compute(self, inputs, outputs):
        d = self.options['decl']
        for o in d['pre']['outputs']:
            outputs[o['name']] = formula(o, {n: inputs[n] for n, _, _ in d['pre']['inputs']}, self.options['gain'])


def formula(o, values, gain):
    s = o['c0'] + sum(c * float(np.ravel(values[n])[0]) for n, c in o['coef'].items())
    return gain * s * (1 + 0.25 * np.arange(o.get('size', 1)))


class MissionComp(om.ExplicitComponent):
    """Every output is c0 + sum of its coefficients times the inputs (vector inputs by their sum)."""

    def initialize(self):
        self.options.declare('decl', recordable=False)
        self.options.declare('num_nodes')
        self.options.declare('gain', default=1.0)
        self.options.declare('phase_on', default=True)

    def setup(self):
        d = self.options['decl']
        nn = self.options['num_nodes']
        m = d['mission']
        for i in m['inputs']:
            size = nn if i['kind'] == 'node' else i.get('size', 1)
            self.add_input(i['name'], val=np.full(size, i['val']), units=i['units'])
        for o in m['outputs']:
            self.add_output(o['name'], val=np.ones(nn), units=o['units'])

    def compute(self, inputs, outputs):
        d = self.options['decl']
        m = d['mission']
        kinds = {i['name']: i['kind'] for i in m['inputs']}
        for o in m['outputs']:
            y = np.full(self.options['num_nodes'], float(o['c0']))
            for n, c in o['coef'].items():
                y = y + c * (inputs[n] if kinds[n] == 'node' else np.sum(inputs[n]))
            outputs[o['name']] = self.options['gain'] * y


class PostComp(om.ExplicitComponent):
    def initialize(self):
        self.options.declare('decl', recordable=False)
        self.options.declare('sizes', recordable=False)
        self.options.declare('gain', default=1.0)

    def setup(self):
        d = self.options['decl']
        for i in d['post']['inputs']:
            self.add_input(i['name'], val=np.full(self.options['sizes'].get(i['name'], i.get('size', 1)), 0.5), units=i['units'])
        self.add_output(d['post']['output'], val=1.0, units='unitless')

    def compute(self, inputs, outputs):
        d = self.options['decl']
        outputs[d['post']['output']] = self.options['gain'] * sum(np.sum(inputs[i['name']]) for i in d['post']['inputs'])


def uo_get(uo, key):
    try:
        v = uo[key]
    except Exception:
        return None
    return v


def make(pkg, decl):
    """The builder of package pkg for a declaration."""
    sb = importlib.import_module(pkg + '.subsystems.subsystem_builder').SubsystemBuilder
    av = importlib.import_module(pkg + '.api')
    meta = copy.deepcopy(av.CoreMetaData)
    for m in decl['meta']:
        av.add_meta_data(m['name'], units=m['units'], default_value=m['default'], desc='declared by ' + decl['name'], meta_data=meta)
    log = []
    d = decl

    def on(so):
        return True if not d['per_phase'] else bool((so or {}).get('on', False))

    class Ext(sb):
        decl_log = log

        def _log(self, what, so=None, uo=None, extra=None):
            log.append((what, dict(so) if so else {}, None if uo is None else uo_get(uo, 'mass_ref'), extra))

        def needs_mission_solver(self, aviary_inputs, user_options, subsystem_options):
            return d['solver']

        def preprocess_inputs(self, aviary_inputs):
            for n, v, u in d['presets']:
                aviary_inputs.set_val(n, v, u, meta_data=meta)
            return aviary_inputs

        def build_pre_mission(self, aviary_inputs=None, subsystem_options=None):
            self._log('pre', subsystem_options)
            if not d.get('pre'):
                return None
            return PreComp(decl=d, gain=(subsystem_options or {}).get('gain', 1.0))

        def get_mass_names(self, aviary_inputs=None):
            return list(d['masses'])

        def get_states(self, aviary_inputs=None, user_options=None, subsystem_options=None):
            self._log('states', subsystem_options, user_options)
            return copy.deepcopy(d['states']) if on(subsystem_options) else {}

        def get_controls(self, aviary_inputs=None, user_options=None, subsystem_options=None):
            return copy.deepcopy(d['controls']) if on(subsystem_options) else {}

        def get_parameters(self, aviary_inputs=None, user_options=None, subsystem_options=None):
            self._log('parameters', subsystem_options, user_options)
            return copy.deepcopy(d['parameters']) if on(subsystem_options) else {}

        def get_constraints(self, aviary_inputs=None, user_options=None, subsystem_options=None):
            self._log('constraints', subsystem_options, user_options)
            return copy.deepcopy(d['constraints']) if on(subsystem_options) else {}

        def get_linked_variables(self, aviary_inputs=None, user_options=None, subsystem_options=None):
            self._log('linked', subsystem_options, user_options)
            return list(d['linked']) if on(subsystem_options) else []

        def get_timeseries(self, aviary_inputs=None, user_options=None, subsystem_options=None):
            self._log('timeseries', subsystem_options, user_options)
            return list(d['timeseries']) if on(subsystem_options) else []

        def get_design_vars(self, aviary_inputs=None):
            return copy.deepcopy(d['design_vars'])

        def get_initial_guesses(self, aviary_inputs=None, user_options=None, subsystem_options=None):
            self._log('guesses', subsystem_options, user_options)
            return copy.deepcopy(d['guesses']) if on(subsystem_options) else {}

        def build_mission(self, num_nodes, aviary_inputs=None, user_options=None, subsystem_options=None):
            self._log('mission', subsystem_options, user_options)
            if not d.get('mission') or not on(subsystem_options):
                return None
            return MissionComp(decl=d, num_nodes=num_nodes, gain=(subsystem_options or {}).get('gain', 1.0))

        def mission_inputs(self, aviary_inputs=None, user_options=None, subsystem_options=None):
            return list(d['mission'].get('promote_in', ['*']))

        def mission_outputs(self, aviary_inputs=None, user_options=None, subsystem_options=None):
            return list(d['mission'].get('promote_out', ['*']))

        def get_pre_mission_bus_variables(self, aviary_inputs=None, mission_info=None):
            return copy.deepcopy(d['pre_bus'])

        def get_post_mission_bus_variables(self, aviary_inputs=None, mission_info=None):
            return copy.deepcopy(d['post_bus'])

        def build_post_mission(self, aviary_inputs=None, mission_info=None, subsystem_options=None, phase_mission_bus_lengths=None):
            self._log('post', subsystem_options)
            if not d.get('post'):
                return None
            sizes = {}
            for i in d['post']['inputs']:
                if i.get('whole'):
                    sizes[i['name']] = phase_mission_bus_lengths[i['whole']]
            return PostComp(decl=d, sizes=sizes, gain=(subsystem_options or {}).get('gain', 1.0))

    return Ext(d['name'], meta)


class Factory:
    """Picklable f(pkg) -> builder."""

    def __init__(self, decl):
        self.decl = decl

    def __call__(self, pkg):
        self.built = make(pkg, self.decl)
        return self.built


NODE = {'ES': [('mass', 'kg'), ('mass', 'lbm'), ('mach', 'unitless'), ('altitude', 'ft'), ('altitude', 'km'), ('velocity', 'm/s')],
        '2DOF': [('mass', 'kg'), ('mass', 'lbm')]}
CORE_IN = [('aircraft:wing:area', 'ft**2'), ('aircraft:wing:area', 'm**2'), ('aircraft:wing:span', 'ft'), ('aircraft:fuselage:length', 'm')]
CORE_OUT = ['aircraft:wing:mass', 'aircraft:horizontal_tail:mass', 'aircraft:fuselage:mass', 'aircraft:avionics:mass']
RATE_UNITS = [('kJ', 'kJ/s', 'kW'), ('kg', 'kg/s', 'lbm/s'), ('unitless', '1/s', '1/min')]


def r5(x):
    return float(f'{x:.5g}')


def blank(name):
    return {'name': name, 'meta': [], 'presets': [], 'masses': [], 'states': {}, 'controls': {}, 'parameters': {}, 'constraints': {},
            'linked': [], 'timeseries': [], 'design_vars': {}, 'guesses': {}, 'pre_bus': {}, 'post_bus': {}, 'solver': False, 'per_phase': False, 'on': []}


def declare(rng, name, eom, phases, analytic, solver_ok=True, massless=False):
    """A random declaration; phases: names of the mission's phases, analytic: those that integrate nothing."""
    from vlib.missions import UNITS  # noqa: F401

    base = f'aircraft:{name}'
    d = blank(name)
    U = lambda a, b: r5(rng.uniform(a, b))
    # a value the subsystem brings along, in units other than it is declared in
    d['meta'].append({'name': base + ':size', 'units': 'm', 'default': 1.0})
    d['presets'].append([base + ':size', U(1, 9), str(rng.choice(['m', 'ft', 'inch']))])
    has_pre = rng.random() < 0.8
    has_mission = rng.random() < 0.85 or not has_pre
    on_phases = list(phases)
    if rng.random() < 0.5 or analytic and rng.random() < 0.8:
        d['per_phase'] = True
        k = int(rng.integers(1, len(phases) + 1))
        i0 = int(rng.integers(0, len(phases) - k + 1))
        on_phases = phases[i0:i0 + k] if rng.random() < 0.6 else sorted(rng.choice(phases, k, replace=False).tolist(), key=phases.index)
    d['on'] = on_phases
    if has_pre:
        c, u = CORE_IN[int(rng.integers(len(CORE_IN)))]
        d['pre'] = {'inputs': [[base + ':size', str(rng.choice(['m', 'ft'])), 1.0], [c, u, 100.0]], 'outputs': []}
        ins = [i[0] for i in d['pre']['inputs']]
        coef = lambda s: {n: U(0.5, 2) * s for n in ins}
        if rng.random() < 0.5 and not massless:
            for k in range(int(rng.choice([1, 1, 2]))):
                n = f'{base}:mass{k or ""}'
                d['meta'].append({'name': n, 'units': str(rng.choice(['kg', 'lbm'])), 'default': 0.0})
                d['pre']['outputs'].append({'name': n, 'units': str(rng.choice(['kg', 'lbm'])), 'c0': U(10, 500), 'coef': coef(0.05)})
                d['masses'].append(n)
        if rng.random() < 0.25 and not massless:
            n = CORE_OUT[int(rng.integers(len(CORE_OUT)))]
            d['pre']['outputs'].append({'name': n, 'units': str(rng.choice(['kg', 'lbm'])), 'c0': U(800, 3000), 'coef': coef(0.05)})
            d['core_out'] = n
        n = base + ':power'
        d['meta'].append({'name': n, 'units': 'kW', 'default': 1.0})
        d['pre']['outputs'].append({'name': n, 'units': 'kW', 'c0': U(1, 9), 'coef': coef(0.01)})
        if rng.random() < 0.6:
            d['pre']['outputs'].append({'name': 'vec', 'units': 'm', 'c0': U(1, 9), 'coef': coef(0.01), 'size': int(rng.choice([1, 2, 3, 4]))})
        if rng.random() < 0.4:
            d['design_vars'][base + ':size'] = {'units': str(rng.choice(['m', 'ft'])), 'lower': U(0.1, 0.9), 'upper': U(10, 40), 'ref': U(1, 9)}
    if has_mission:
        m = d['mission'] = {'inputs': [], 'outputs': []}
        d['solver'] = bool(rng.random() < 0.4)
        names = []

        def inp(n, kind, units, val=1.0, **kw):
            m['inputs'].append({'name': n, 'kind': kind, 'units': units, 'val': val, **kw})
            names.append(n)

        nodes = NODE[eom]
        n, u = nodes[int(rng.integers(len(nodes)))]
        if rng.random() < 0.8:
            inp(n, 'node', u)
        # a parameter: brought along, computed before the mission, or a core one
        choices = [base + ':size']
        if has_pre:
            choices.append(base + ':power')
        for n in choices:
            if rng.random() < 0.6:
                pu = {'size': ['m', 'ft'], 'power': ['kW', 'hp']}[n.rsplit(':')[-1]]
                inp(n, 'static', str(rng.choice(pu)))
                d['parameters'][n] = {'units': str(rng.choice(pu)), 'static_target': True}
        if rng.random() < 0.5:
            n = base + ':setting'
            d['meta'].append({'name': n, 'units': 'unitless', 'default': None})
            inp(n, 'static', 'unitless')
            d['parameters'][n] = {'units': 'unitless', 'static_target': True, 'val': U(1, 9)}
            if rng.random() < 0.3:
                d['parameters'][n].update(opt=True, lower=0.5, upper=20.0)
        if rng.random() < 0.3:
            inp('aircraft:wing:area', 'static', str(rng.choice(['ft**2', 'm**2'])))
            d['parameters']['aircraft:wing:area'] = {'units': 'ft**2', 'static_target': True, 'shape': (1,)}
        integ = not any(p in analytic for p in on_phases)
        if integ and rng.random() < 0.6:
            su, ru, _ = RATE_UNITS[int(rng.integers(3))]
            s = f'{name}_charge'
            st = {'rate_source': f'{name}_charge_rate', 'units': su, 'fix_initial': bool(rng.random() < 0.6), 'fix_final': False}
            if rng.random() < 0.7:
                st['targets'] = s
                inp(s, 'node', su)
            if rng.random() < 0.6:
                st['ref'] = U(10, 100)
                st['defect_ref'] = U(10, 100)
            if rng.random() < 0.5:
                st['lower'] = -U(1e4, 1e5)
                if rng.random() < 0.6:
                    st['upper'] = U(1e5, 1e6)
            d['states'][s] = st
            m['outputs'].append({'name': f'{name}_charge_rate', 'units': ru, 'c0': U(-1, 1), 'coef': {}})
            if rng.random() < 0.6:
                d['linked'].append(s)
            if rng.random() < 0.7:
                k = int(rng.choice([1, 2, 2, 4]))
                v = [U(1, 50) for _ in range(k)]
                d['guesses'][s] = {'val': v[0] if k == 1 else v if rng.random() < 0.5 else np.array(v), 'type': 'state', 'units': su}
            if rng.random() < 0.5:
                d['constraints'][s] = {'type': 'boundary', 'loc': 'final', 'lower': -1e5, 'ref': U(10, 100), 'units': su}
                if rng.random() < 0.5:
                    d['constraints'][s] = {'type': 'path', 'upper': 1e6, 'lower': -1e6, 'units': su}
        if integ and rng.random() < 0.5:
            cname = f'{name}_knob'
            d['controls'][cname] = {'units': 'deg', 'opt': bool(rng.random() < 0.7), 'targets': [cname]}
            inp(cname, 'node', str(rng.choice(['deg', 'rad'])))
            if d['controls'][cname]['opt']:
                d['controls'][cname].update(lower=-U(20, 60), upper=U(20, 60), ref=U(5, 50))
            if rng.random() < 0.4:
                d['controls'][cname].update(control_type='polynomial', order=int(rng.choice([1, 2])))
            if rng.random() < 0.7:
                k = int(rng.choice([1, 2, 3])) if 'order' not in d['controls'][cname] else 1
                v = [U(-15, 15) for _ in range(k)]
                d['guesses'][cname] = {'val': v[0] if k == 1 else v, 'type': 'control', 'units': str(rng.choice(['deg', 'rad']))}
        if has_pre and any(o['name'] == 'vec' for o in d['pre']['outputs']):
            o = [o for o in d['pre']['outputs'] if o['name'] == 'vec'][0]
            if rng.random() < 0.8:
                n = f'{name}_xx'
                bus = {'mission_name': [n] if rng.random() < 0.5 else n, 'units': str(rng.choice(['m', 'ft']))}
                size = o['size']
                if size > 1 and rng.random() < 0.5:
                    size = int(rng.integers(1, size + 1))
                    bus['src_indices'] = np.sort(rng.choice(o['size'], size, replace=False))
                bus['shape'] = (size,)
                if rng.random() < 0.5 or d['per_phase']:
                    bus['phases'] = list(on_phases)
                inp(n, 'static', str(rng.choice(['m', 'ft'])), size=size)
                d['pre_bus'][f'{name}.vec'] = bus
        m['outputs'].append({'name': f'{name}_load', 'units': 'kN', 'c0': U(1, 5), 'coef': {}})
        for o in m['outputs']:
            for i in m['inputs']:
                o['coef'][i['name']] = {'mass': 1e-5, 'altitude': 1e-4, 'velocity': 1e-3}.get(i['name'], 0.01) * U(0.5, 2)
        if rng.random() < 0.6:
            d['timeseries'].append(f'{name}_load')
        if rng.random() < 0.5:
            d['constraints'][f'{name}_load'] = {'type': 'path', 'upper': U(1e3, 1e4), 'units': str(rng.choice(['kN', 'lbf']))}
            if rng.random() < 0.4:
                d['constraints'][f'{name}_load'] = {'type': 'boundary', 'loc': str(rng.choice(['initial', 'final'])), 'lower': -U(1e3, 1e4), 'ref': U(1, 9)}
        if rng.random() < 0.5:
            # only a subset is promoted: inputs of the subsystem's own keep their value
            m['inputs'].append({'name': 'own_constant', 'kind': 'static', 'units': 'unitless', 'val': U(1, 9)})
            m['outputs'][-1]['coef']['own_constant'] = 0.5
            m['promote_in'] = list(names)
            if not m['promote_in']:
                m['promote_in'] = []
            m['promote_out'] = [o['name'] for o in m['outputs']]
            m['outputs'].append({'name': 'own_result', 'units': 'kN', 'c0': U(1, 5), 'coef': {}})
    if rng.random() < 0.6:
        post = {'inputs': [], 'output': f'{name}_total'}
        if has_pre and any(o['name'] == 'vec' for o in d['pre']['outputs']) and rng.random() < 0.6:
            o = [o for o in d['pre']['outputs'] if o['name'] == 'vec'][0]
            bus = d['pre_bus'].setdefault(f'{name}.vec', {'units': 'm'})
            size = o['size']
            if 'src_indices' in bus:
                size = len(bus['src_indices'])
            two = rng.random() < 0.4
            bus['post_mission_name'] = [f'{name}.from_pre', f'{name}.from_pre2'] if two else f'{name}.from_pre'
            for n in ['from_pre', 'from_pre2'][:2 if two else 1]:
                post['inputs'].append({'name': n, 'units': str(rng.choice(['m', 'ft'])), 'size': size, 'src': (f'{name}.vec', bus.get('src_indices'))})
        if has_mission:
            for p in on_phases:
                if rng.random() < 0.6 or len(on_phases) == 1:
                    n = f'{p}_load'
                    last = rng.random() < 0.5
                    e = {'post_mission_name': f'{name}.{n}'}
                    if last:
                        e['src_indices'] = [-1]
                    d['post_bus'].setdefault(p, {})[f'{name}_load'] = e
                    post['inputs'].append({'name': n, 'units': str(rng.choice(['kN', 'lbf'])), 'size': 1, 'from': (p, f'{name}_load', bool(last)),
                                           **({} if last else {'whole': p})})
        for p in phases:
            if rng.random() < 0.25:
                n = f'{p}_mass'
                whole = rng.random() < 0.5
                e = {'post_mission_name': [f'{name}.{n}'] if rng.random() < 0.5 else f'{name}.{n}'}
                if not whole:
                    e['src_indices'] = [0]
                d['post_bus'].setdefault(p, {})['mass'] = [e] if rng.random() < 0.3 else e
                post['inputs'].append({'name': n, 'units': str(rng.choice(['kg', 'lbm'])), 'size': 1, 'from': (p, 'mass', 'first' if not whole else False),
                                       **({'whole': p} if whole else {})})
        if rng.random() < 0.5:
            post['inputs'].append({'name': 'mission:gross_mass', 'units': 'kg', 'size': 1})
        if post['inputs']:
            d['post'] = post
    return d
