"""P14: what is displayed while a simulation runs, and the time it reports.

The clock is the simulator's: it advances in chosen ticks, stalls inside user
functions, and jumps forward and backward.  Everything printed is parsed and
compared with the recorded history."""
import builtins
import io
import re
import sys

import numpy as np

from .. import ref, scen
from ..kit import *             # noqa: F401,F403
from ..kit import Out, World, muted, quiet, rec_of, redefine, theta0, swarm

RUNS = (20000, 700000)
RULE = ('random model and options with the progress bar on and rejection statistics printed at any interval; one to three '
        'runs of one object; console, notebook and Windows output; clock ticks from a microsecond to 20 s per reading, '
        'forward and backward jumps, stalls; an interval calculation with progress bar; non-trivial: the bar was shown')
MEASURE = 'distinct (lines shown, steps, tick, jumps, stalls, kind of terminal, statistics lines) tuples'
LINE = re.compile(r'\[([^\]]*)\] (-?\d+) of (-?\d+) complete in (-?[0-9.]+|nan|inf|-inf) sec')
STAT = re.compile(r'i:(\d+) \(([^,]+),([^,]+),([^)]+)\)')
ADAPT = re.compile(r'i:(\d+) adapting \(([^,]+), ([^,]+), ([^)]+)\)')
BURN = re.compile(r'\(burnin/(down|up)\) ([-0-9.e+]+)')


def gen(r, pid, tier):
    case = scen.gen_case(r, nmax=r.choice([5, 12, 30]), walls=r.random() < 0.2, updatesigma_p=0.4)
    o = case['opts']
    if r.random() < 0.15:
        o['nsimu'] = r.choice([1, 2])
    o['waitbar'] = r.random() < 0.9
    if r.random() < 0.5:
        o['verbosity'] = r.choice([2, 2, 3])
        o['printint'] = r.choice([1, 2, 3, 5, 10])
        if r.random() < 0.2:
            o['verbosity'] = r.choice([0, 1])
    case['custom'] = [dict(id=0)]
    phases = [dict(kind='fresh')]
    while r.random() < 0.3 and len(phases) < 3:
        phases.append(dict(kind=r.choice(['extend', 'extend', 'fresh']), nsimu=r.choice([2, 3, 8])))
    w = swarm(r, n=4 * o['nsimu'])
    w['clock']['tick'] = r.choice([0.0, 1e-6, 1e-3, 0.05, 0.26, 0.51, 1.0, 20.0])
    if r.random() < 0.5:
        w['clock'].pop('jumps', None)
    return dict(case=case, phases=phases, world=w, term=r.choice(['console', 'console', 'ipython', 'win']),
                intervals=r.random() < 0.2)


class Terminal:
    def __init__(self, kind):
        self.kind = kind

    def __enter__(self):
        self.platform = sys.platform
        if self.kind == 'ipython':
            builtins.__IPYTHON__ = True
        elif self.kind == 'win':
            sys.platform = 'win32'

    def __exit__(self, *a):
        sys.platform = self.platform
        if hasattr(builtins, '__IPYTHON__'):
            del builtins.__IPYTHON__


def run(full, pid):
    out = Out()
    case = full['case']
    opts = dict(case['opts'])
    ck = full['world']['clock']
    steady = not ck.get('jumps')
    tick = ck['tick']
    shown = 0
    with World(full['world']) as w:
        buf = io.StringIO()
        with quiet(buf):
            mc = scen.build(w, case)
        prev = None
        for k, ph in enumerate(full['phases']):
            if k:
                opts['nsimu'] = ph['nsimu']
                mc.simulation_options.nsimu = ph['nsimu']
            ext = ph['kind'] == 'extend' and prev is not None
            th0 = np.array([p['theta0'] for p in mc.parameters.parameters], dtype=float) if not ext else \
                np.array(prev['theta'], dtype=float)
            start = prev['chain'].shape[0] - 1 if ext else 0
            mark = len(w.procs[0].ev)
            t_before, m_before = w.t_wall, w.t_mono
            st_before = w.fault_counts.get('stall', 0)
            buf = io.StringIO()
            with quiet(buf), Terminal(full['term']):
                mc.run_simulation(use_previous_results=ext)
            ev = w.procs[0].ev[mark:]
            n = opts['nsimu']
            res = mc.simulation_results.results
            lines = [(m.group(1), int(m.group(2)), int(m.group(3)), float(m.group(4))) for m in LINE.finditer(buf.getvalue())]
            check_bar(lines, n, opts.get('waitbar'), steady, tick, m_before, w, ev, out)
            shown += len(lines)
            times = [e for e in ev if e[0] == 't']
            check_time(res['simutime'], times, steady, w.t_mono - m_before, out)
            rec = ref.Rec(ev, res, n, opts, start, th0)
            check_stats(case, opts, rec, buf.getvalue(), out)
            check_adapt(case, opts, rec, buf.getvalue(), out)
            prev = res
            if out.viol:
                break
        if full['intervals'] and not out.viol:
            intervals(w, full, mc, steady, tick, out)
        out.state(min(shown, 20), opts['nsimu'], tick, len(ck.get('jumps', {})), w.fault_counts.get('stall', 0),
                  full['term'], opts.get('printint'))
        out.c['lines'] += shown
        out.nontrivial = shown > 0
        out.absorb(w)
    return out


def check_bar(lines, n, on, steady, tick, m0, w, ev, out):
    if not on:
        if lines:
            out.bad('shown', 'a progress bar was shown although not asked for')
        return
    if not lines or lines[-1][1] != n:
        out.bad('end', 'a run of %d ended with the progress bar at %s' % (n, lines[-1][:3] if lines else None))
        return
    last = 0
    tl = None
    for bar, i, of, t in lines:
        if of != n or not 1 <= i <= n:
            out.bad('count', 'progress bar shows %d of %d in a run of %d' % (i, of, n))
            return
        if i < last:
            out.bad('count', 'progress bar goes back from %d to %d' % (last, i))
            return
        last = i
        m = re.search(r'(\d+)%', bar)
        if m is None or int(m.group(1)) != int(100 * i / float(n)):
            out.bad('percent', 'progress bar [%s] at %d of %d' % (bar, i, n))
            return
        if len(bar) != 38:
            out.bad('percent', 'progress bar of width %d' % len(bar))
        if steady:
            if tl is not None and t < tl - 1e-9:
                out.bad('time', 'progress bar time goes back from %s to %s' % (tl, t))
            if t < 0 or t > w.t_mono - m0 + 0.06:
                out.bad('time', 'progress bar shows %s s, %s s have passed' % (t, w.t_mono - m0))
            tl = t
    dup = [i for i in range(1, len(lines)) if lines[i][1] == lines[i - 1][1]]
    if dup:
        out.bad('count', 'progress bar shows %d of %d twice' % (lines[dup[0]][1], n))
    if steady and tick > 0.5 and len(lines) < n:
        out.bad('stuck', 'only %d updates in %d steps of at least %s s each' % (len(lines), n, tick))
    if steady and len(lines) > 3 + (w.t_mono - m0) / 0.45:
        out.bad('flood', '%d updates in %.3f s' % (len(lines), w.t_mono - m0))


def check_time(simutime, times, steady, passed, out):
    if not steady:
        vals = [t[2] for t in times]
        if not any(abs((b - a) - simutime) < 1e-6 * max(1, abs(b)) * 1e-3 + 1e-6 for i, a in enumerate(vals[:2])
                   for b in vals[i:]):
            out.bad('simutime', 'simulation time %s is not the difference of two clock readings' % simutime)
        return
    # seconds since 1970 are a float: every reading of the clock rounds the time by up to its spacing
    eps = 1e-6 + len(times) * 2.4e-7
    if simutime > passed + eps or simutime < passed * 0.999 - 12 * times_tick(times) - eps:
        out.bad('simutime', 'simulation time %s s, %s s passed' % (simutime, passed))


def times_tick(times):
    d = [times[i + 1][2] - times[i][2] for i in range(len(times) - 1)]
    d = [x for x in d if x >= 0]
    return min(d) if d else 0.0


def check_stats(case, opts, rec, text, out):
    """Printed rejection statistics are those of the history."""
    got = [(int(m.group(1)), float(m.group(2)), float(m.group(3)), float(m.group(4))) for m in STAT.finditer(text)]
    pi = opts.get('printint')
    if not pi or opts.get('verbosity', 0) < 2:
        if got:
            out.bad('stats', 'rejection statistics printed although not asked for')
        return
    want = [i for i in range(1, rec.nsimu) if i % pi == 0]
    if [g[0] for g in got] != want:
        out.bad('stats', 'rejection statistics printed at steps %s, every %d steps were asked for' % ([g[0] for g in got], pi))
        return
    rp = ref.Replay(case, rec, s2_first=None)
    if rp.bad or len(rp.reject_flags) != rec.nsimu - 1:
        return
    for i, tot, win, oob in got:
        rej = sum(rp.reject_flags[:i])
        if abs(tot - 100.0 * rej / i) > 1e-6:
            out.bad('stats', 'at step %d %s%% rejected was printed, %d were' % (i, tot, rej))
            return
        if all(f is not None for f in rp.oob_flags[:i]):
            ob = sum(1 for a, b in zip(rp.reject_flags[:i], rp.oob_flags[:i]) if a and b)
            if abs(oob - 100.0 * ob / i) > 1e-6:
                out.bad('stats', 'at step %d %s%% outside the limits was printed, %d were' % (i, oob, ob))
                return
        last = int(min(i - 1, rp.lastadapt)) // rp.adaptint * rp.adaptint if rp.adaptint > 0 else 0
        rej = sum(rp.reject_flags[last:i])
        if abs(win - 100.0 * rej / (i - last)) > 1e-6:
            out.bad('stats', 'at step %d %s%% rejected since the last adaptation was printed, %d of %d were' % (
                i, win, rej, i - last))
            return
        out.c['stats'] += 1


def check_adapt(case, opts, rec, text, out):
    """So are those printed with an adaptation of the proposal."""
    adapts = [(int(m.group(1)),) + tuple(float(m.group(k)) for k in (2, 3, 4)) for m in ADAPT.finditer(text)]
    burns = [(m.group(1), float(m.group(2))) for m in BURN.finditer(text)]
    v = opts.get('verbosity', 0)
    if (adapts and v < 3) or (burns and v < 2):
        out.bad('stats', 'adaptations reported although not asked for')
        return
    rp = ref.Replay(case, rec, s2_first=None)
    if v < 2 or rp.bad or len(rp.reject_flags) != rec.nsimu - 1:
        return
    k, burn = rp.adaptint, opts.get('burnintime', 0)
    steps = [i for i in range(1, rec.nsimu) if k > 0 and i % k == 0 and i <= rp.lastadapt]
    frac = {i: sum(rp.reject_flags[i - k:i]) / float(k) for i in steps}
    want = [('down' if frac[i] > .95 else 'up', 100 * frac[i]) for i in steps if i < burn and not .05 <= frac[i] <= .95]
    if len(want) != len(burns) or any(a[0] != b[0] or abs(a[1] - b[1]) > 1e-6 for a, b in zip(want, burns)):
        out.bad('stats', 'scaling in burn-in reported as %s, it was %s' % (burns[:6], want[:6]))
        return
    out.c['burnin.lines'] += len(burns)
    if v < 3:
        return
    want = [i for i in steps if i >= burn]
    if [a[0] for a in adapts] != want:
        out.bad('stats', 'adaptations reported at %s, they were at %s' % ([a[0] for a in adapts][:8], want[:8]))
        return
    for i, tot, win, oob in adapts:
        rej = 100.0 * sum(rp.reject_flags[:i]) / i
        if abs(tot - rej) > 1e-6 or abs(win - 100 * frac[i]) > 1e-6:
            out.bad('stats', 'at the adaptation in step %d %s%% and %s%% rejected were reported, %s and %s were' % (
                i, tot, win, rej, 100 * frac[i]))
            return
        if all(f is not None for f in rp.oob_flags[:i]):
            ob = sum(1 for a, b in zip(rp.reject_flags[:i], rp.oob_flags[:i]) if a and b)
            if abs(oob - 100.0 * ob / i) > 1e-6:
                out.bad('stats', 'at the adaptation in step %d %s%% outside the limits was reported, %d were' % (i, oob, ob))
                return
        out.c['adapt.lines'] += 1


def intervals(w, full, mc, steady, tick, out):
    from .intervals import Up, up
    res = mc.simulation_results.results
    ns = 9
    m0 = w.t_mono
    mark = len(w.procs[0].ev)
    buf = io.StringIO()
    with quiet(buf), Terminal(full['term']):
        up.calculate_intervals(res['chain'], res, None, Up(2, 1, 'flat'), s2chain=0.1, nsample=ns, waitbar=True)
    lines = [(m.group(1), int(m.group(2)), int(m.group(3)), float(m.group(4))) for m in LINE.finditer(buf.getvalue())]
    n = min(ns, res['chain'].shape[0])
    # the bar is drawn once when it is set up: its first count may repeat
    seen = []
    for x in lines:
        if not seen or x[1] != seen[-1][1]:
            seen.append(x)
    o2 = Out()
    check_bar(seen, n, True, steady, 0.0, m0, w, w.procs[0].ev[mark:], o2)
    out.viol += o2.viol
    out.c['interval.bar'] += 1
