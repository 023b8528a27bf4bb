"""Check runner:  python -m symx.run <property> [--tier quick|thorough]
Exit 0: held on everything explored.  Exit 1: VIOLATION line(s).  Exit 2: the
check could not decide anything."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import re
import resource
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)

KNOWN = os.path.join(ROOT, 'known_findings.txt')


def load_prop(pid):
    return importlib.import_module('props.' + pid)


def harnesses(mod, tier):
    from .engine import Harness
    out = []
    for h in mod.HARNESSES:
        if tier in h.tiers:
            out.append(h)
    return out


# ------------------------------------------------------------------ workers
def worker(conn, pid, tier, seed, mem):
    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    import faulthandler
    faulthandler.disable()
    from . import engine, sym
    mod = load_prop(pid)
    hs = {h.name: h for h in harnesses(mod, tier)}
    from . import loader
    # load both copies before anything can time out half way through an import
    err = None
    try:
        loader.sym_package()
    except BaseException as e:
        err = 'symbolic load: %s: %s' % (type(e).__name__, e)
    try:
        loader.real_package()
    except BaseException as e:
        err = 'real load: %s: %s' % (type(e).__name__, e)
    conn.send(('ready', err, None, None))
    if err:
        return
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            return
        if msg is None:
            return
        name, work, slice_s = msg
        t0 = time.time()
        stack = list(work)
        done = []
        first = True
        while stack and (first or time.time() - t0 < slice_s):
            first = False
            prefix, model = stack.pop()
            t1 = time.time()
            try:
                r = engine.explore_one(hs[name], prefix, model, tier, seed)
            except BaseException as e:      # engine trouble: never silent
                import traceback
                r = engine.PathResult()
                r.status = 'engine-error'
                r.inconclusive = ['engine: %s: %s %s' % (
                    type(e).__name__, e, traceback.format_exc()[-400:])]
            r.secs = time.time() - t1
            stack.extend(r.alts)
            r.alts = []
            done.append(r)
        st = sym.STATS.as_dict()
        sym.STATS.__init__()
        conn.send((name, done, stack, st))


class Pool:
    def __init__(self, n, pid, tier, seed, mem):
        self.args = (pid, tier, seed, mem)
        self.ctx = mp.get_context('fork')
        self.ws = [self._spawn() for _ in range(n)]

    def _spawn(self):
        a, b = self.ctx.Pipe()
        p = self.ctx.Process(target=worker, args=(b,) + self.args, daemon=True)
        p.start()
        b.close()
        return dict(p=p, c=a, job=None, t=0, ready=False)

    def close(self):
        for w in self.ws:
            try:
                w['p'].kill()
            except Exception:
                pass


def run(pid, tier, seed, jobs, budget, only=None, verbose=False):
    t0 = time.time()
    mod = load_prop(pid)
    hs = harnesses(mod, tier)
    if only:
        hs = [h for h in hs if re.search(only, h.name)]
    mem = int(6e9)
    queues = {h.name: [((), None)] for h in hs}
    hmap = {h.name: h for h in hs}
    agg = {h.name: dict(paths=0, infeasible=0, asserts=0, discharged=0,
                        validated=0, inconclusive={}, disagree={}, status={},
                        violations=[], stubs=set(), reach=set(), samples=[],
                        decisions=0, unexplored=0, divs=0, nf_only=0,
                        bands=False, secs=0.0, killed=0) for h in hs}
    stats = {}
    pool = Pool(jobs, pid, tier, seed, mem)
    fatal = None
    rr = 0
    names = [h.name for h in hs]
    stop = False
    from multiprocessing.connection import wait
    while True:
        now = time.time()
        busy = [w for w in pool.ws if w['job'] is not None or not w['ready']]
        left = any(queues.values())
        if fatal or (not busy and not left):
            break
        if now - t0 > budget:
            stop = True
            if not any(w['job'] is not None for w in pool.ws):
                break
            if now - t0 > budget + 40:
                break
        # hand out work
        idle = [w for w in pool.ws if w['ready'] and w['job'] is None]
        if not stop:
            for w in idle:
                pick = None
                for k in range(len(names)):
                    n = names[(rr + k) % len(names)]
                    if queues[n]:
                        pick = n
                        rr = (rr + k + 1) % len(names)
                        break
                if pick is None:
                    break
                tot = sum(len(q) for q in queues.values())
                take = max(1, min(8, len(queues[pick]) // max(1, jobs)))
                # oldest first: breadth over the enumerated choices
                work = queues[pick][:take]
                del queues[pick][:take]
                w['job'] = (pick, work)
                w['t'] = time.time()
                w['c'].send((pick, work, 0.7 if tot < 3 * jobs else 2.0))
        conns = {w['c']: w for w in pool.ws if w['job'] is not None or not w['ready']}
        for c in wait(list(conns), timeout=0.5):
            w = conns[c]
            try:
                name, done, stack, st = c.recv()
            except (EOFError, OSError):
                if w['job'] is None:
                    fatal = 'worker died while loading'
                    break
                name, work = w['job']
                a = agg[name]
                a['killed'] += 1
                a['inconclusive']['worker died'] = a['inconclusive'].get('worker died', 0) + 1
                pool.ws[pool.ws.index(w)] = pool._spawn()
                continue
            if name == 'ready':
                w['ready'] = True
                if done:
                    fatal = done
                continue
            w['job'] = None
            a = agg[name]
            for r in done:
                merge(a, r)
                if verbose and (r.violations or r.inconclusive or r.disagree):
                    print('  ', name, r.choices, r.status, r.note,
                          r.inconclusive[:2], r.disagree[:1],
                          [(v['label'], v['msg'], v['kind']) for v in r.violations])
            for k, v in st.items():
                stats[k] = stats.get(k, 0) + v
            if len(a['violations']) >= hmap[name].opts.get('max_viol', 12):
                a['unexplored'] += len(stack) + len(queues[name])
                queues[name] = []
            else:
                queues[name].extend(stack)
        # runaway workers
        for i, w in enumerate(pool.ws):
            if w['job'] is not None and time.time() - w['t'] > \
                    hmap[w['job'][0]].opts.get('path_s', 25) * 2 + 60:
                a = agg[w['job'][0]]
                a['killed'] += 1
                a['inconclusive']['path killed (time)'] = \
                    a['inconclusive'].get('path killed (time)', 0) + 1
                w['p'].kill()
                pool.ws[i] = pool._spawn()
    for w in pool.ws:
        if w['job'] is not None:
            agg[w['job'][0]]['unexplored'] += len(w['job'][1])
    for n, q in queues.items():
        agg[n]['unexplored'] += len(q)
    pool.close()
    return dict(hs=hs, agg=agg, stats=stats, fatal=fatal, wall=time.time() - t0)


def merge(a, r):
    a['secs'] += getattr(r, 'secs', 0)
    a['status'][r.status] = a['status'].get(r.status, 0) + 1
    if r.status == 'infeasible':
        a['infeasible'] += 1
        return
    a['paths'] += 1
    a['asserts'] += r.asserts
    a['discharged'] += r.discharged
    a['validated'] += r.validated
    a['decisions'] += r.decisions
    a['divs'] += r.divs
    a['nf_only'] += r.nf_only
    a['bands'] |= r.bands
    a['stubs'] |= r.stubs
    a['reach'] |= r.reach
    for k, src in (('inconclusive', r.inconclusive), ('disagree', r.disagree)):
        for s in src:
            s = s[:300]
            a[k][s] = a[k].get(s, 0) + 1
    a['violations'].extend(r.violations)
    if r.sample and len(a['samples']) < 2:
        a['samples'].append(r.sample)


# ------------------------------------------------------------------ findings
def read_known(pid):
    out = []
    if not os.path.exists(KNOWN):
        return out
    for line in open(KNOWN):
        line = line.strip()
        if not line.startswith('known: property=%s ' % pid):
            continue
        m = re.match(r'known: property=\S+ (\{.*?\}) :: (.*)$', line)
        if m:
            d = json.loads(m.group(1))
            d['what'] = m.group(2)
            out.append(d)
    return out


def match_known(v, known):
    for k in known:
        if not re.fullmatch(k['harness'], v['harness']):
            continue
        if 'label' in k and not re.fullmatch(k['label'], v['label']):
            continue
        if 'msg' in k and not re.search(k['msg'], v['msg'] or ''):
            continue
        if any(v['picked'].get(c) not in (z if isinstance(z, list) else [z])
               for c, z in k.get('picked', {}).items()):
            continue
        return k
    return None


def functions_of(pkg_files):
    return sorted(os.path.basename(p) for p in pkg_files)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('--budget', type=float)
    ap.add_argument('--replay')
    a = ap.parse_args(argv)
    sys.dont_write_bytecode = True
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.environ.setdefault('MPLBACKEND', 'Agg')
    for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ.setdefault(k, '1')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if a.replay:
        return replay(a.prop, a.replay)
    mod = load_prop(a.prop)
    budget = a.budget or (getattr(mod, 'BUDGET', {}).get(a.tier) or
                          (240 if a.tier == 'quick' else 1800))
    res = run(a.prop, a.tier, seed, a.jobs, budget, a.only, a.v)
    return report(a.prop, a.tier, seed, mod, res, a)


def report(pid, tier, seed, mod, res, a):
    from . import linalg as L
    known = read_known(pid)
    evdir = os.path.join(ROOT, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    rdir = os.path.join(evdir, 'replays')
    os.makedirs(rdir, exist_ok=True)
    nviol = 0
    seen = {}
    knownseen = {}
    lines = []
    for h in res['hs']:
        g = res['agg'][h.name]
        for v in g['violations']:
            k = match_known(v, known)
            if k is not None:
                knownseen[k['id']] = k
                continue
            nviol += 1
            key = (v['harness'], v['label'])
            if seen.get(key, 0) >= 2:
                continue
            seen[key] = seen.get(key, 0) + 1
            fn = os.path.join(rdir, '%s-%d.json' % (pid, len(lines)))
            v['property'] = pid
            with open(fn, 'w') as f:
                json.dump(v, f, indent=1)
            lines.append('VIOLATION property=%s replay=%s' % (pid, fn))
            lines.append('  %s / %s: %s (%s) %s' % (
                v['harness'], v['label'], v['msg'], v['kind'], v['picked']))
    tot = {k: sum(res['agg'][h.name][k] for h in res['hs']) for k in
           ('paths', 'infeasible', 'asserts', 'discharged', 'validated',
            'decisions', 'unexplored', 'divs', 'nf_only', 'killed')}
    incon = sum(sum(res['agg'][h.name]['inconclusive'].values()) for h in res['hs'])
    stubs = set()
    bands = False
    for h in res['hs']:
        stubs |= res['agg'][h.name]['stubs']
        bands |= res['agg'][h.name]['bands']
    vac = [h.name for h in res['hs'] if res['agg'][h.name]['validated'] == 0
           and not res['agg'][h.name]['violations']]
    samples = []
    for h in res['hs']:
        for s in res['agg'][h.name]['samples'][:1]:
            samples.append(dict(harness=h.name, **s))
    st = res['stats']
    dec = getattr(mod, 'FUNCTIONS', [])
    ev = dict(
        property=pid, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=tot['paths'], transitions=tot['decisions'],
            traces_validated_against_impl=tot['validated'],
            samples=samples[:8],
            functions_encoded=dec,
            bounds=getattr(mod, 'BOUNDS', {}).get(tier, getattr(mod, 'BOUNDS', {})),
            assertions_checked=tot['asserts'],
            assertions_discharged=tot['discharged'],
            solver=dict(queries=st.get('queries', 0), unsat=st.get('unsat', 0),
                        sat=st.get('sat', 0), unknown=st.get('unknown', 0),
                        solver_s=round(st.get('solver_s', 0), 2),
                        identities_decided_by_normal_form_only=tot['nf_only']),
            infeasible_paths=tot['infeasible'],
            inconclusive=incon, unexplored_prefixes=tot['unexplored'],
            zero_denominators_replayed=tot['divs'],
            harnesses={h.name: dict(
                paths=res['agg'][h.name]['paths'],
                assertions=res['agg'][h.name]['asserts'],
                discharged=res['agg'][h.name]['discharged'],
                validated=res['agg'][h.name]['validated'],
                reached=sorted(res['agg'][h.name]['reach']),
                inconclusive=res['agg'][h.name]['inconclusive'],
                encoding_vs_code_disagreements=res['agg'][h.name]['disagree'],
                unexplored=res['agg'][h.name]['unexplored'],
                cpu_s=round(res['agg'][h.name]['secs'], 1)) for h in res['hs']},
            known_findings_seen=sorted(knownseen),
            vacuous_harnesses=vac),
        assumptions=['floating point data are treated as exact reals'] +
                    (['comparisons with thresholds below 1e-6 are exact zero '
                      'tests; data inside the threshold band is excluded']
                     if bands else []) +
                    ['kernel model: ' + L.STUBS[s] for s in sorted(stubs)] +
                    list(getattr(mod, 'ASSUMPTIONS', [])),
        wall_s=round(res['wall'], 2), violations=nviol)
    with open(os.path.join(evdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for h in res['hs']:
        g = res['agg'][h.name]
        print('%-34s paths %-4d assert %d/%d valid %d inconcl %d disagree %d '
              'unexpl %d viol %d  %.1fs' % (
                  h.name, g['paths'], g['discharged'], g['asserts'],
                  g['validated'], sum(g['inconclusive'].values()),
                  sum(g['disagree'].values()), g['unexplored'],
                  len(g['violations']), g['secs']))
        if a.v:
            for s, n in list(g['inconclusive'].items())[:8]:
                print('      inconclusive x%d: %s' % (n, s))
            for s, n in list(g['disagree'].items())[:4]:
                print('      disagree x%d: %s' % (n, s))
    print('%s %s: %d paths, %d/%d assertions, %d queries %.1fs solver, '
          '%d inconclusive, %d unexplored, %.1fs wall' % (
              pid, tier, tot['paths'], tot['discharged'], tot['asserts'],
              st.get('queries', 0), st.get('solver_s', 0), incon,
              tot['unexplored'], res['wall']))
    for k in known:
        if k['id'] in knownseen:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for l in lines:
        print(l)
    if nviol:
        return 1
    if res['fatal']:
        print('ERROR', res['fatal'])
        return 2
    if tot['discharged'] == 0:
        print('ERROR nothing decided')
        return 2
    return 0


def replay(pid, fn):
    from . import engine
    v = json.load(open(fn))
    mod = load_prop(pid)
    h = [h for h in mod.HARNESSES if h.name == v['harness']][0]
    r, label, msg, x = engine.run_real(h, v['values'], v['choices'], v['tier'])
    print('replay:', r, label, msg)
    print('inputs:', x.values)
    print('choices:', x.picked)
    return 1 if r == 'fail' else 0


if __name__ == '__main__':
    sys.exit(main())
