"""P19: simulation objects do not influence each other.

Two to four objects, given the very same option values, arrays, data and
functions or different ones, run concurrently under the seeded scheduler
(switching in every user function and file operation), alternately, or inside
each other's user functions.  Every object has its own stream of random
numbers; its results and its calls of user functions must be those of the same
object alone."""
import copy
import os

import numpy as np

from .. import pristine, scen, seams
from ..kit import *             # noqa: F401,F403
from ..kit import Out, World, muted, quiet, redefine, same, snap, swarm
from .repro import diff, first_diff, same_evals

RUNS = (3500, 300000)
RULE = ('two to four simulation objects, each with one to three runs (fresh, continued, repeated) and logs of its own, '
        'sharing the very same input arrays, data sets, callbacks and settings or not; executed concurrently under the '
        'seeded scheduler, alternately in random order, or nested in a user function of another; non-trivial: at least '
        'one switch between objects happened while both were under way')
MEASURE = 'distinct (schedule hash; mode, number of objects, methods, what is shared) tuples'


def gen(r, pid, tier):
    mode = r.choice(['concurrent', 'concurrent', 'alternate', 'nested'])
    n = r.choice([2, 2, 3, 4]) if mode != 'nested' else 2
    objs = []
    twin = r.random() < 0.5
    for k in range(n):
        if k and twin:
            case = copy.deepcopy(objs[0]['case'])
            case['rngseed'] = r.randrange(2 ** 31)
        elif k and r.random() < 0.5:
            case = sibling(r, objs[0]['case'])
        else:
            case = scen.gen_case(r, nmax=r.choice([8, 15, 25]), walls=r.random() < 0.2, updatesigma_p=0.5)
            case['custom'] = [dict(id=i) for i in range(r.choice([0, 0, 1, 2]))]
            if r.random() < 0.4:
                q = r.random()
                case['opts'].update(save_to_bin=q < 0.6, save_to_txt=q > 0.4, savesize=r.choice([0, 1, 3, 5]))
        phases = [dict(kind='fresh')]
        while r.random() < 0.4 and len(phases) < 3:
            phases.append(dict(kind=r.choice(['extend', 'extend', 'fresh']), nsimu=r.choice([2, 5, 10])))
        objs.append(dict(case=case, phases=phases))
    if mode == 'nested':
        for p in objs[1:]:
            p['at'] = r.randrange(1, 3 * objs[0]['case']['opts']['nsimu'])
    world = swarm(r, n=100)
    world['stickiness'] = r.choice([0.0, 0.3, 0.9])
    return dict(mode=mode, objs=objs, world=world, shared=twin and r.random() < 0.8,
                order=[r.randrange(n) for _ in range(4 * n)], swap=swarm(r, n=100))


def sibling(r, case):
    """The same problem with other values here and there."""
    case = copy.deepcopy(case)
    case['rngseed'] = r.randrange(2 ** 31)
    d, m, o = case['data'], case['model'], case['opts']
    nb = len(d['x'])
    if r.random() < 0.6:
        d['w'] = [r.choice([1, 0.5, 2.0, 3]) for _ in range(nb)]
    if r.random() < 0.4:
        d['y'] = [[round(v + 0.3 * r.random(), 3) for v in y] for y in d['y']]
    if r.random() < 0.4:
        d['n'] = [r.choice([None, 2, 4, 30]) for _ in range(nb)]
        m.pop('N', None)
    if r.random() < 0.4 and 'sigma2' in m:
        m['sigma2'] = r.choice([0.05, 0.3, 1.0, 4.0])
    if r.random() < 0.3 and 'S20' in m:
        m['S20'] = r.choice([0.1, 0.5, 2])
    if r.random() < 0.4:
        o['drscale'] = [r.choice([1.5, 2.0, 5.0, 10.0]) for _ in range(r.choice([1, 2, 3]))]
    if r.random() < 0.3 and o['method'] in ('am', 'dram'):
        o['adaptint'] = r.choice([1, 2, 3, 5])
    if r.random() < 0.3:
        o['nsimu'] = r.choice([3, 8, 15])
    if r.random() < 0.4:
        for p in case['params']:
            if 'sig' in p:
                p['sig'] = p['sig'] * r.choice([0.5, 1.0, 3.0])
    if r.random() < 0.3:
        case['sos']['base'] = round(abs(case['sos']['base']) + r.random(), 3)
    return case


class Kit:
    """What the user hands to the objects: made once, used for every one of them."""
    def __init__(self, w, case):
        self.model = scen.model_kwargs(case)
        self.opts = scen.option_kwargs(w, case['opts'])
        self.data = None
        self.xy = scen.data_sets(case['data'])
        self.before = copy.deepcopy((self.values(self.model), self.values(self.opts), self.xy))

    def values(self, kw):
        return {k: v for k, v in kw.items() if not callable(v)}

    def changed(self):
        return not same(list(self.before), [self.values(self.model), self.values(self.opts), self.xy])


class Obj:
    def __init__(self, w, k, spec, kit=None):
        self.w = w
        self.k = k
        self.spec = spec
        self.case = copy.deepcopy(spec['case'])
        self.kit = kit
        self.mc = None
        self.i = 0
        self.snaps = []
        self.results = []
        self.rs = None
        self.ev = []

    def build(self):
        w, case = self.w, self.case
        if case['opts'].get('save_to_bin') or case['opts'].get('save_to_txt'):
            case['opts']['savedir'] = 'obj%d-0' % self.k
        if self.kit is None:
            self.mc = scen.build(w, case)
            return
        kit = self.kit
        mc = scen.MCMC(rngseed=case['rngseed'])
        for x, y, kw in kit.xy:
            mc.data.add_data_set(x, y, **kw)
        scen.add_parameters(mc, case['params'])
        mc.model_settings.define_model_settings(**kit.model)
        kw = dict(kit.opts, nsimu=case['opts']['nsimu'])
        if 'savedir' in case['opts']:
            kw['savedir'] = os.path.join(w.scratch, case['opts']['savedir'])
        mc.simulation_options.define_simulation_options(**kw)
        for c in case.get('custom', []):
            mc.custom_samplers.append(scen.Probe(c))
        self.mc = mc

    def step(self):
        """One run of this object; False when there is none left."""
        if self.mc is None:
            self.build()
            return True
        if self.i >= len(self.spec['phases']):
            return False
        ph = self.spec['phases'][self.i]
        mc = self.mc
        if self.i:
            mc.simulation_options.nsimu = ph['nsimu']
            if ph['kind'] == 'fresh' and mc.simulation_options.savedir is not None:
                mc.simulation_options.savedir = os.path.join(self.w.scratch, 'obj%d-%d' % (self.k, self.i))
        self.i += 1
        mc.run_simulation(use_previous_results=ph['kind'] == 'extend')
        self.results.append(mc.simulation_results.results)
        self.snaps.append(snap(self.results[-1]))
        return True

    def all(self):
        while self.step():
            pass


class stream:
    """Inside: random numbers and history of this object."""
    def __init__(self, w, obj):
        self.w, self.o = w, obj
        if obj.rs is None:
            obj.rs = seams.SimRandomState.__new__(seams.SimRandomState)
            seams.RealRandomState.__init__(obj.rs, 17)

    def __enter__(self):
        p = self.p = self.w.current
        self.saved = p.rs, p.ev
        p.rs, p.ev = self.o.rs, self.o.ev

    def __exit__(self, *a):
        self.p.rs, self.p.ev = self.saved


def evals(ev):
    return [e[:3] for e in ev if e[0] in ('sos', 'model', 'prior')]


def alone(cfg, k, spec):
    """One object in a process of its own."""
    with World(cfg) as w, quiet():
        o = Obj(w, k, spec)
        with stream(w, o):
            o.all()
        return o.snaps, evals(o.ev), marks(w)


def marks(w):
    out = Out()
    out.absorb(w)
    return out.faults, out.c, out.simt, out.events, w.hash.digest(), out.states


def add(out, m):
    out.faults.update(m[0])
    out.c.update(m[1])
    out.simt += m[2]
    out.events += m[3]
    out.h.update(m[4])
    out.states |= m[5]


def run(full, pid):
    out = Out()
    solo = []
    for k, s in enumerate(full['objs']):
        snaps, ev, m = pristine.call(alone, dict(full['swap']), k, s)
        solo.append((snaps, ev))
        add(out, m)
    viol, c, states, nontrivial, m = pristine.call(together, full, solo)
    out.viol += viol
    out.c.update(c)
    out.states |= states
    out.nontrivial = nontrivial
    add(out, m)
    return out


def together(full, solo):
    """All objects in one process; returns what was found."""
    out = Out()
    specs = full['objs']
    mode = full['mode']
    overlapped = 0
    with World(full['world']) as w, quiet():
        kit = Kit(w, specs[0]['case']) if full['shared'] else None
        objs = [Obj(w, k, s, kit) for k, s in enumerate(specs)]
        if mode == 'concurrent':
            procs = [w.spawn(o.all, name='object%d' % o.k) for o in objs]
            w.block(lambda: all(p.done for p in procs), 'the objects')
            for o, p in zip(objs, procs):
                if p.error is not None:
                    raise p.error
                o.ev = p.ev
            overlapped = len(w.switches)
        elif mode == 'alternate':
            for k in full['order'] + list(range(len(objs))):
                with stream(w, objs[k]):
                    objs[k].step()
            for o in objs:
                with stream(w, o):
                    o.all()
            overlapped = 1
        else:
            plain = w.callback
            todo = {}
            for o in objs[1:]:
                todo[o.spec['at']] = o
            cnt = [0]

            def callback(kind):
                f = plain(kind)
                if w.current.ev is objs[0].ev:
                    cnt[0] += 1
                    o = todo.pop(cnt[0], None)
                    if o is not None:
                        with stream(w, o):
                            o.all()
                return f
            w.callback = callback
            with stream(w, objs[0]):
                objs[0].all()
            overlapped = len(objs) - 1 - len(todo)
            for o in todo.values():
                with stream(w, o):
                    o.all()
        for o, (snaps, ev) in zip(objs, solo):
            for i in range(len(snaps)):
                d = diff(snaps[i], o.snaps[i])
                if d:
                    out.bad('influence', 'run %d of object %d of %d (%s%s): %s differ from the same object alone%s' % (
                        i, o.k, len(objs), mode, ', shared inputs' if kit else '', d, first_diff(snaps[i], o.snaps[i], d)))
                    break
                if not same(o.snaps[i], snap(o.results[i])):
                    out.bad('later', 'results of run %d of object %d changed after it had ended (%s)' % (i, o.k, mode))
                    break
            if not out.viol and not same_evals(ev, evals(o.ev)):
                out.bad('evaluations', 'object %d called its user functions differently than alone (%s)' % (o.k, mode))
        if not out.viol and kit is not None and kit.changed():
            out.bad('inputs', "the user's arrays or settings were changed (%s)" % mode)
        if not out.viol:
            check_logs(w, objs, out)
        out.c['mode.' + mode] += 1
        out.c['shared'] += bool(kit)
        out.state(mode, len(objs), ','.join(sorted(s['case']['opts']['method'] for s in specs)), bool(kit))
        out.nontrivial = overlapped > 0
        return out.viol, out.c, out.states, out.nontrivial, marks(w)


def check_logs(w, objs, out):
    for o in objs:
        op = o.mc.simulation_options
        for ext, on in (('h5', op.save_to_bin), ('txt', op.save_to_txt)):
            if on is True:
                with muted():
                    got = scen.CP.read_in_savedir_files(op.savedir, extension=ext)
                if not same(np.asarray(got['chain']), o.snaps[-1]['chain']):
                    out.bad('logs', 'the %s log of object %d is not its chain' % (ext, o.k))
                out.c['logs.checked'] += 1
