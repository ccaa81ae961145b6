"""Masses add up."""
import re

import numpy as np

from vlib import aircraft as ac
from vlib import diff, gen
from vlib import missions as ms
from vlib import prob as vp
from vlib.core import eval_limit

MASS = re.compile(r'mass')


def worker(rec, item):
    kind, seed = item
    rng = np.random.default_rng(seed)
    if kind == 'aircraft':
        ov = int(rng.choice([0, 0, 1, 2, 4]))
        spec, labels, given = ac.spec_for(rng, perturb=int(rng.integers(2, 12)), options=int(rng.choice([0, 0, 1, 2])), overrides=ov, only=MASS)
        if rng.random() < 0.4:
            md = gen.ref('variable_info.variable_meta_data', '_MetaData')
            sc = [k for k, m in md.items() if k.endswith('mass_scaler') and k.startswith('aircraft:')]
            for k in rng.choice(sc, size=3, replace=False):
                if 'engine' in k or 'nacelle' in k:
                    continue
                spec['values'][str(k)] = (float(np.round(rng.uniform(0.3, 1.8), 4)), 'unitless')
        if rng.random() < 0.2:
            spec['values']['mission:operating_items_mass_additional'] = gen.reunit(rng, float(np.round(rng.uniform(10, 900), 2)), 'lbm')
        rec.case(ms.diff_key('aircraft', spec, labels), {'deck': spec['deck'], 'labels': labels})
        r = diff.run_pair(rec, spec, 'premission', rng, what='aircraft', limit=40)
        if r is None:
            return
        rec.seen('aircraft', spec['deck'])
        with vp.quiet():
            ac.mass_ledger(rec, r[1].b.prob, spec, spec)
            scaling(rec, rng, spec, r[1].b, labels)
        return
    spec, labels = ms.make_spec(rng, kind, 0, perturb=3)
    r = ms.pair(rec, kind, spec, labels, 'run', rng, f'mission {kind}', limit=90)
    if r is None:
        return
    p = r[1].b.prob
    with vp.quiet(), eval_limit(60):
        ac.mass_ledger(rec, p, spec, spec, 'mission: ')
        ms.ledger(rec, kind, spec, r[1].b, spec)
        g = lambda n: ms.get(p, n, 'lbm')
        a = [g('mission:gross_mass'), g('mission:zero_fuel_mass'), g('mission:total_fuel_mass')]
        if None not in a:
            rec.event('gross mass closure')
            if not ms.near(a[0], a[1] + a[2], 1e-9):
                rec.violation('mission: gross mass is not zero-fuel mass plus fuel', f'gross {a[0]!r}, zero-fuel {a[1]!r}, fuel {a[2]!r} lbm', spec=spec)


SCALED = ['aircraft:wing:mass', 'aircraft:horizontal_tail:mass', 'aircraft:vertical_tail:mass', 'aircraft:fuselage:mass', 'aircraft:furnishings:mass',
          'aircraft:avionics:mass', 'aircraft:air_conditioning:mass', 'aircraft:apu:mass', 'aircraft:hydraulics:mass', 'aircraft:instruments:mass',
          'aircraft:anti_icing:mass', 'aircraft:electrical:mass', 'aircraft:crew_and_payload:passenger_service_mass', 'aircraft:fuel:unusable_fuel_mass']


def scaling(rec, rng, spec, b, labels):
    """Give one component mass a different value: what contains it moves by exactly the difference."""
    p = b.prob
    if p.model.aviary_inputs.get_val('settings:mass_method').name == 'GASP':
        return
    cand = [k for k in SCALED if k not in spec['values']]
    if not cand or rng.random() < 0.4:
        return
    k = str(rng.choice(cand))
    try:
        m0 = float(np.ravel(p.get_val(k, units='lbm'))[0])
    except KeyError:
        return
    if m0 == 0:
        return
    up = 'mission:operating_items_mass' if 'crew_and_payload' in k or 'unusable' in k else (
        'aircraft:design:structure_mass' if k.split(':')[1] in ('wing', 'horizontal_tail', 'vertical_tail', 'fuselage') else 'aircraft:design:systems_and_equipment_mass')
    given = set(spec['values']) | set(gen.deck_values(spec['deck']))
    f = float(np.round(rng.uniform(0.5, 1.6), 3))
    s2 = {**spec, 'values': {**spec['values'], k: (m0 * f, 'lbm')}}
    o = diff.attempt('aviary', s2, 'premission', limit=40)
    if o.error is not None:
        rec.skip('scaled aircraft not built')
        return
    q = o.b.prob
    if {k, up} & set(gen.deck_values(spec['deck'])) or up in given or 'aircraft:design:empennage_mass' in given:
        return
    if ac.flavor(p) and 'systems' in up:
        return
    d = float(q.get_val(up, units='lbm')[0] - p.get_val(up, units='lbm')[0])
    rec.event('scaled component')
    # the fuel mass and wing-dependent terms do not feed back into these totals in FLOPS
    if not abs(d - m0 * (f - 1)) <= 1e-6 + 1e-7 * abs(m0):
        others = {n: float(np.ravel(q.get_val(n, units='lbm'))[0] - np.ravel(p.get_val(n, units='lbm'))[0]) for n in ac.FLOPS_LEDGER.get(up, {}) if n != k}
        if any(abs(x) > 1e-7 for x in others.values()):
            rec.skip('another part depends on the scaled one')
            return
        rec.violation(f'scaling {k} moves {up} by another amount', f'{k} changed by {m0 * (f - 1)!r} lbm, {up} by {d!r}', spec=spec)


def run(chk):
    import aviary.api, aviary_ref.api  # noqa

    chk.rule = ('one case is one aircraft (deck, perturbed inputs, options, scalers, given masses) or one flown mission; every mass total is recomputed from its '
                'parts as reported, the mission closes gross mass against zero-fuel mass and fuel, and all values are compared with the reference')
    n = chk.pick({'aircraft': 220, 'ES': 16, '2DOF': 4}, {'aircraft': 6000, 'ES': 300, '2DOF': 80})
    it = [(k, [chk.seed, ms.hash_of('M01'), ms.hash_of(k), i]) for k in ('2DOF', 'ES', 'aircraft') for i in range(n[k])]
    chk.pmap(worker, it, timeout=chk.pick(150, 250))
    chk.require('mass ledger', 700)
    chk.require('gross mass closure', 6)
    chk.require('scaled component', 15)
