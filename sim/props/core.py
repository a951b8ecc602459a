"""P01 P02 P03 P12 P13 P16 P18: whole runs of the sampler, alone and continued,
under extreme draws, stalled and non-finite callbacks and a jumping clock,
against the recorded history and the reference model."""
import copy

import numpy as np

from .. import engine, ref, scen
from ..kit import *             # noqa: F401,F403
from ..kit import Out, World, arr_eq, extreme_draws, nonfinite_callbacks, quiet, rec_of, redefine, snap, swarm, theta0

RUNS = {'P01': (12000, 1000000), 'P02': (12000, 1000000), 'P03': (16000, 1000000), 'P12': (12000, 1000000),
        'P13': (14000, 1000000), 'P16': (14000, 1000000), 'P18': (12000, 1000000)}
RULE = ('random model, data, parameters, limits, priors, options and custom samplers; one or more runs (fresh, continued '
        'or repeated) with injected extreme random draws, non-finite and stalled callbacks and clock jumps; '
        'non-trivial: at least one step was accepted and one rejected')
MEASURE = ('distinct tuples (method, number of parameters, error variance updated, delayed acceptances, out-of-bounds, '
           'non-finite, singular adaptation, burn-in, model kind, fixed parameters, kinds of run)')
ASSUME = ['samples seeded runs; a clean batch is evidence, not proof',
          'decisions within floating point tolerance of a tie, or with a numerically singular proposal, are left '
          'undecided (counted in probes)']

CLASSES = {
    'P01': ('bounds', 'fixed'),
    'P02': ('shape', 'names', 'first', 'last', 'ss', 's2first', 'row', 's2row', 'steps', 'prefix', 'settings'),
    'P03': ('accept', 'proposal', 'steps'),
    'P12': ('adapt', 'proposal', 'mutate-qcov', 'covchain', 'alias'),
    'P13': ('s2', 'mutate-s2', 's2first', 's2row', 's2state'),
    'P16': ('rejected', 'oob', 'iacce'),
    'P18': ('setup', 'order', 'state', 'custom', 'steps', 'customchain'),
}
ALWAYS = ('exception', 'hang')


def gen(r, pid, tier):
    nmax = r.choice([20, 45, 60]) if tier == 'quick' else r.choice([20, 60, 150])
    methods = ('mh', 'am', 'dr', 'dram', 'ram')
    if pid == 'P12':
        methods = ('am', 'am', 'dram', 'ram', 'dram')
    elif pid == 'P16':
        methods = ('mh', 'am', 'dr', 'dram', 'dram')
    elif pid == 'P03':
        methods = ('mh', 'am', 'dr', 'dr', 'dram', 'ram')
    case = scen.gen_case(r, nmax=nmax, methods=methods, walls=pid in ('P03', 'P01', 'P02', 'P16'),
                         updatesigma_p=0.9 if pid == 'P13' else 0.4)
    if pid == 'P12' and r.random() < 0.5:
        case['opts']['nsimu'] = r.choice([30, 50, 80])
    o = case['opts']
    if o['method'] == 'ram':
        if r.random() < 0.4:
            o['alphatarget'] = r.choice([0.1, 0.234, 0.5])
        if r.random() < 0.4:
            o['etaparam'] = r.choice([0.55, 0.7, 1.0])
    ncs = 1 if pid != 'P18' else r.choice([1, 2, 3])
    case['custom'] = [dict(id=i, cols=r.choice([1, 2]), file='cs%d' % i) for i in range(ncs)]
    if r.random() < 0.15:
        o['printint'] = r.choice([1, 3, 7])
        o['verbosity'] = r.choice([0, 1, 2, 3, 100])
    if r.random() < 0.2:
        o['waitbar'] = True
    phases = [dict(kind='fresh')]
    while r.random() < 0.3 and len(phases) < 4:
        phases.append(dict(kind=r.choice(['extend', 'extend', 'extend', 'fresh']), nsimu=r.choice([2, 5, 10, 25]),
                           redefine=r.random() < 0.5))
    w = swarm(r, n=4 * o['nsimu'])
    extreme_draws(r, w, o['nsimu'], case=case)
    if len(phases) == 1 and pid in ('P01', 'P02', 'P03', 'P16'):
        nonfinite_callbacks(r, w, o['nsimu'])
    full = dict(case=case, phases=phases, world=w)
    if pid == 'P01' and r.random() < 0.04:
        full['phases'] = phases[:1]
        full['refuse'] = True
        p = r.choice([p for p in case['params'] if p.get('sample', True)])
        d = r.choice([1e-9, 0.05, 2.0]) * max(1.0, abs(p['theta0']))
        k = r.random()
        p.pop('min', None)
        p.pop('max', None)
        if k < 0.45:
            p['min'] = p['theta0'] + d
            if r.random() < 0.5:
                p['max'] = p['theta0'] + 2 * d
        elif k < 0.9:
            p['max'] = p['theta0'] - d
            if r.random() < 0.5:
                p['min'] = p['theta0'] - 2 * d
        else:
            p['min'], p['max'] = p['theta0'] + d, p['theta0'] - d
    return full


def refuse(full):
    """Initial values outside the limits: an error before anything is evaluated there."""
    out = Out()
    with World(full['world']) as w:
        try:
            with quiet():
                mc = scen.build(w, full['case'])
                mc.run_simulation()
            out.bad('bounds', 'a simulation was run from initial values outside the limits: %s' % full['case']['params'])
        except (Exception, SystemExit):
            if any(e[0] in ('sos', 'model', 'prior') for e in w.procs[0].ev):
                out.bad('bounds', 'a user function was evaluated although the initial values are outside the limits')
        out.c['refused'] += 1
        out.state('refused')
        out.absorb(w)
    return out


def run(full, pid):
    if full.get('refuse'):
        return refuse(full)
    out = Out()
    want = CLASSES[pid] + ALWAYS
    case = full['case']
    with World(full['world']) as w:
        with quiet():
            mc = scen.build(w, case)
        opts = dict(case['opts'])
        rows = 0
        prev = None
        acc = rej = 0
        given = user_inputs(mc)
        for ph in full['phases']:
            mark = len(w.procs[0].ev)
            kind = ph['kind']
            if prev is None and kind == 'extend':
                continue
            if ph.get('nsimu') and prev is not None:
                opts = dict(opts, nsimu=ph['nsimu'])
            if prev is not None:
                if ph.get('redefine'):
                    redefine(w, mc, opts)
                    given = user_inputs(mc)
                else:
                    mc.simulation_options.nsimu = opts['nsimu']
            th0 = theta0(case)
            if kind == 'extend':
                th0 = np.array(prev['theta'], dtype=float)
                start = np.asarray(prev['chain']).shape[0] - 1
            else:
                if prev is not None:
                    th0 = np.array([p['theta0'] for p in mc.parameters.parameters], dtype=float)
                start = 0
            old = mc.simulation_results.results if prev is not None else None
            with quiet():
                mc.run_simulation(use_previous_results=(kind == 'extend'))
            res = mc.simulation_results.results
            rec = rec_of(w, case, mc, mark, opts, start, th0)
            engine.check_containment(case, rec.ev, res, out)
            engine.check_rows(case, rec, out, prev)
            if not any(v[0] in ('shape', 'steps') for v in out.viol):
                try:
                    rp = ref.Replay(case, rec, s2_first=None)
                except ValueError:
                    raise
                out.viol += rp.bad
                engine.check_counters(case, rec, rp, out)
                engine.probe_stats(out, case, rp)
                acc += rp.n['accepted']
                rej += rp.n['rejected']
            if pid == 'P18':
                engine.check_custom(case, rec, out)
            check_inputs(mc, given, out)
            if old is not None and prev is not None:
                # results handed out earlier do not change
                for k in ('chain', 'sschain', 's2chain', 'R', 'qcov', 'cov', 'mean'):
                    if k in prev and not same(prev[k], old.get(k)):
                        out.bad('alias', "results['%s'] of the previous run changed" % k)
            prev = snap(res)
            out.c['phase.' + kind] += 1
            out.viol = [v for v in out.viol if v[0] in want]
            if out.viol:
                break
        out.state('kinds', ','.join(p['kind'] for p in full['phases']))
        out.nontrivial = acc > 0 and rej > 0
        out.absorb(w)
    out.viol = [v for v in out.viol if v[0] in want]
    return out


def user_inputs(mc):
    """The arrays the user handed over."""
    return [(n, getattr(mc, o).__dict__.get(k), copy.deepcopy(getattr(mc, o).__dict__.get(k)))
            for (n, o, k) in (('mutate-qcov', 'simulation_options', 'qcov'),
                              ('mutate-qcov', 'simulation_options', 'drscale'),
                              ('mutate-qcov', 'simulation_options', 'RDR'),
                              ('mutate-s2', 'model_settings', 'sigma2'), ('mutate-s2', 'model_settings', 'S20'),
                              ('mutate-s2', 'model_settings', 'N0'))]


def check_inputs(mc, given, out):
    for cls, obj, was in given:
        if obj is None or was is None:
            continue
        if not same(was, obj):
            out.bad(cls, "the user's %s changed from %s to %s" % (cls[7:], was, obj))
