"""check PROPERTY: prove it on /repo's current source; search for a failing input
where a proof does not go through."""
import argparse
import concurrent.futures as cf
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

from . import gobuild, verify
from .ssa import Prog

VERIF = gobuild.VERIF
NPROC = min(8, os.cpu_count() or 4)
PROPS = ['C%02d' % i for i in range(1, 17)]
TASK_LIMIT = {'quick': 200, 'thorough': 700}

MAPS = ('IntMap', 'StringMap', 'BytesMap', 'ArrMap', 'Map')
SETS = ('IntSet', 'StringSet', 'BytesSet', 'ArrSet', 'Set')
READS = ('Get', 'Val', 'Ptr', 'Has', 'All', 'Len', 'Dep', 'Nil')


def relevant(prop, t):
    """Does task t produce obligations the property's argument needs?"""
    kind = t[0]
    cont = {'op': lambda: t[1], 'null': lambda: t[1], 'new': lambda: t[1], 'scan': lambda: t[2], 'helper': lambda: None, 'lemma': lambda: None}[kind]()
    if kind == 'lemma':
        return prop not in ('C11', 'C12')
    if prop == 'C12':
        return kind == 'helper' and not t[1].startswith('new')
    if kind == 'helper':
        if t[1].startswith('new'):
            return prop not in ('C09',)
        return prop in ('C14', 'C15') or (prop in ('C01', 'C02') and True)
    if kind == 'null':
        return prop == 'C11' or (prop == 'C14')
    if kind == 'new':
        return prop in ('C11', 'C14', 'C08', 'C03', 'C04', 'C05', 'C16') or (prop == 'C01' and cont in MAPS) or (prop == 'C02' and cont in SETS) or (prop == 'C13' and cont.startswith('Int')) or prop == 'C06'
    if prop == 'C11':
        return kind == 'op' and t[4] in ('Nil', 'Len', 'Dep')
    if prop == 'C01' or prop == 'C07':
        return cont in MAPS
    if prop == 'C02':
        return cont in SETS
    if prop == 'C13':
        return cont.startswith('Int')
    if prop == 'C10':
        return kind == 'op' and t[4] in ('Mod', 'Get', 'Val', 'Ptr') and cont in MAPS
    if prop == 'C09':
        return kind == 'scan' or t[4] in READS
    if prop == 'C06':
        return kind == 'scan' or t[4] not in ('Len', 'Dep', 'Nil')
    if prop == 'C03':
        return kind == 'op' and t[4] not in ('Dep', 'Nil', 'All')
    if prop == 'C04':
        return kind == 'op' and t[4] not in ('Len', 'Nil', 'All')
    if prop in ('C05', 'C16'):
        return kind == 'scan' or t[4] in ('Set', 'Mod', 'Add', 'Del', 'All', 'Dep')
    return True


# ------------------------------------------------------------------ proofs
_prog = None


def _job(t):
    limit = _job.limit

    def bang(*a):
        raise verify.Unsupported('time limit of %d s' % limit)
    signal.signal(signal.SIGALRM, bang)
    signal.alarm(limit)
    try:
        return t, verify.run_task(_prog, t, _job.prop)
    except verify.Unsupported as e:
        R = verify.Result('.'.join(str(x) for x in t[1:] if isinstance(x, str)), 'error')
        R.status, R.reason = 'undecided', str(e)
        return t, R
    finally:
        signal.alarm(0)


def prove(prog, ts, limit, prop=None, total=None):
    global _prog
    _prog = prog
    _job.limit = limit
    _job.prop = prop
    out = {}
    t0 = time.time()
    with mp.get_context('fork').Pool(NPROC, maxtasksperchild=1) as pool:
        it = pool.imap_unordered(_job, ts, 1)
        while len(out) < len(ts):
            try:
                t, R = it.next(None if total is None else max(0.1, total - (time.time() - t0)))
            except (StopIteration, mp.TimeoutError):
                pool.terminate()
                break
            out[t] = R
    for t in ts:
        if t not in out:
            out[t] = R = verify.Result(tname(t), 'error')
            R.status, R.reason = 'undecided', 'not reached within %d s' % total
    return out


# where the proof of an operation does not go through, its loops along the route are
# executed with the levels given: (where the route ends, where the keys part)
BOUNDS = {'insert': [(0, 1), (15, 17), (0, 2), (1, 3), (14, 17), (16, 18), (31, 33)],
          'Del': [(0, 1), (1, 2), (2, 3), (4, 5), (17, 18)],
          'read': [(0, 1), (1, 2), (17, 18), (33, 34)]}


def bounded(prog, results, prop, tier):
    todo = []
    for t, R in results.items():
        if t[0] != 'op' or t[4] in ('Len', 'Dep', 'Nil', 'All'):
            continue
        if R.status == 'undecided' or any(o[2] == 'unknown' for o in R.obligations):
            bs = BOUNDS['Del' if t[4] == 'Del' else 'read' if t[4] in READS else 'insert']
            todo += [(i, ('bounded',) + t[1:] + (b,)) for i, b in enumerate(bs)]
    todo = [t for _, t in sorted(todo, key=lambda x: x[0])]
    if not todo:
        return {}
    return prove(prog, todo, {'quick': 150, 'thorough': 600}[tier], prop, {'quick': 240, 'thorough': 2400}[tier])


def tname(t):
    if t[0] == 'bounded':
        return '%s.%s (bounded: route ends at level %d, keys part at level %d)' % (t[1], t[4], *t[5])
    if t[0] in ('op', 'null'):
        return '%s.%s%s' % (t[1], t[4], ' (uninitialized)' if t[0] == 'null' else '')
    if t[0] == 'new':
        return 'New' + t[1]
    if t[0] == 'scan':
        return t[1].split('.')[-1]
    if t[0] == 'lemma':
        return 'lemmas: ' + t[1]
    return t[1]


# ------------------------------------------------------------------ search on the real code
class Search:
    def __init__(self, work, repo, prop, out):
        self.work, self.repo, self.prop, self.out = work, repo, prop, out
        self.bin = self.race = None
        self.buildlog = ''
        self.nosupplied = False
        self.runs = []
        self.error = ''

    def build(self):
        self.bin, err = gobuild.build_harness(self.work, self.repo)
        if self.bin is None:
            self.buildlog = err
            self.bin, err2 = gobuild.build_harness(self.work, self.repo, nosupplied=True)
            self.nosupplied = self.bin is not None
            if self.bin is None:
                self.buildlog = err2
        if self.bin and self.prop in ('C09', 'C14'):
            self.race, _ = gobuild.build_harness(self.work, self.repo, race=True, nosupplied=self.nosupplied)

    def go(self, seconds, seed, procs=NPROC, kinds=None):
        """Returns a violation (message, replay) or None."""
        if not self.bin:
            return None
        jobs = []
        for i in range(procs):
            d = os.path.join(self.work, 'out%d_%d' % (seed, i))
            os.makedirs(d, exist_ok=True)
            mode, b, e = 'hist', self.bin, None
            if self.prop == 'C12':
                mode = 'laws' if i % 4 != 3 else 'hist'
            if self.prop == 'C09':
                mode, b = 'race', self.race
                if b is None:
                    return None
            if self.prop == 'C14' and i % 4 == 3 and self.race:
                mode, b = 'sep', self.race
            cmd = [b, '-mode', mode, '-props', self.prop, '-seed', str(seed * 1000 + i), '-time', '%ds' % seconds, '-out', d]
            if kinds and i % 2 == 0:
                cmd += ['-kinds', ','.join(kinds)]
            e = gobuild.env()
            e['GORACE'] = 'halt_on_error=1 exitcode=66'
            e['GOMAXPROCS'] = '2'
            e['GOMEMLIMIT'] = '1500MiB'
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=open(os.path.join(d, 'err'), 'w'), text=True, env=e, cwd=d)
            jobs.append((p, d, cmd, mode))
        found = None
        for p, d, cmd, mode in jobs:
            try:
                o, _ = p.communicate(timeout=seconds + 90)
            except subprocess.TimeoutExpired:
                p.kill()
                o, _ = p.communicate()
            err = open(os.path.join(d, 'err')).read()
            rep = None
            for l in o.splitlines():
                try:
                    rep = json.loads(l)
                except ValueError:
                    pass
            v = None
            if rep is not None:
                self.runs.append(rep)
                for x in rep.get('violations') or []:
                    if x['property'] == self.prop:
                        v = (x['message'], x['replay'])
            if v is None and mode in ('race', 'sep') and p.returncode == 66 and 'DATA RACE' in err:
                case = [l for l in err.splitlines() if l.startswith('CASE')]
                what = 'concurrent lookups and iterations race' if mode == 'race' else 'operations on separate containers race'
                cur = {}
                if mode == 'race':
                    try:
                        with open(os.path.join(d, 'current.json')) as h:
                            cur = {'history': json.load(h)['history']}
                    except (OSError, ValueError, KeyError):
                        pass
                f = self.save(what, {**cur, 'command': cmd[1:], 'case': case[-1:], 'race_report': err[err.find('WARNING: DATA RACE'):][:4000]})
                v = ('%s (%s)' % (what, case[-1] if case else ''), f)
            elif v is None and rep is None and p.returncode not in (0, None):
                v = self.crash(d, cmd, err, p.returncode)
                if v is None:
                    self.error = 'search process ended with %s: %s' % (p.returncode, (err.splitlines() or [''])[0][:200])
            if v and not found:
                found = v
        if found:
            msg, f = found
            if os.path.exists(f) and not f.startswith(self.out):
                os.makedirs(self.out, exist_ok=True)
                dst = os.path.join(self.out, self.prop + '.json')
                shutil.copy(f, dst)
                found = (msg, dst)
        return found

    def crash(self, d, cmd, err, rc):
        """The process died of a fault outside Go's recovery."""
        if rc == -signal.SIGKILL or not any(m in err for m in ('panic:', 'fatal error:', 'SIGSEGV', 'found bad pointer', 'unexpected fault')):
            return None
        if any(m in err for m in ('out of memory', 'cannot allocate', 'thread exhaustion', 'newosproc')):
            return None
        try:
            with open(os.path.join(d, 'current.json')) as h:
                cur = json.load(h)
        except (OSError, ValueError):
            return None
        kind = cur['history']['kind']
        deep = cur['history']['config'].get('events') is not None
        counts = {'C08', 'C02' if 'Set' in kind else 'C01'} | ({'C13'} if kind.startswith('Int') else set()) | ({'C15'} if deep else set())
        if self.prop not in counts:
            return None
        if self.prop != 'C08':      # is it this container's own doing?
            f = os.path.join(d, 'crash.json')
            with open(f, 'w') as h:
                json.dump({**cur, 'property': self.prop}, h)
            try:
                p = subprocess.run([self.bin, '-replay', f], capture_output=True, text=True, env=gobuild.env(), cwd=d, timeout=60)
            except subprocess.TimeoutExpired:
                return None
            if p.returncode == 0 or (p.returncode == 2 and 'nothing to replay' in p.stdout):
                return None
        line = next((l for l in err.splitlines() if any(m in l for m in ('panic:', 'fatal error:', 'SIGSEGV', 'found bad pointer', 'unexpected fault'))), '')
        msg = '%s: the process crashes: %s' % (kind, line.strip()[:160])
        return msg, self.save(msg, {**cur, 'property': self.prop, 'message': msg, 'command': cmd[1:], 'crash': err.splitlines()[:40]})

    def save(self, msg, what):
        os.makedirs(self.out, exist_ok=True)
        f = os.path.join(self.out, self.prop + '.json')
        with open(f, 'w') as h:
            json.dump({'property': self.prop, 'message': msg, **what}, h, indent=1)
        return f


# ------------------------------------------------------------------ main
def known_findings():
    f = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('finding:'):
                out.append(l)
    return out


TRUSTED = [
    'go/parser, go/types and x/tools go/ssa (the SSA is taken to mean what the Go compiler compiles)',
    'amtv: symbolic semantics of SSA instructions, memory model and invariant rules (/verif/amtv, own code)',
    'z3 and cvc5',
    'hash/maphash: Sum64 is a function of seed and of the bytes written since SetSeed/Reset; MakeSeed never returns the zero seed; Bytes and String agree with Hash',
    'math/bits, bytes.Equal, string comparison: their documented meaning',
    'new(T) returns zeroed memory not reachable from anywhere else; the garbage collector keeps what unsafe.Pointer fields refer to',
]
ASSUME = [
    'one writer at a time; callbacks do not modify the container they are called from',
    'two distinct keys differ in one of their first 240 hash digits (levels fit in 8 bits, rehash counts in 4)',
    'generic keys: Equal is an equivalence that implies equal hashes; ArrMap/ArrSet: KeyBytes is injective on keys that are not equal',
    'lengths and depth sums stay below 2^64',
    'byte-slice keys are not modified by the caller while stored (documented)',
    'the Go memory model on 64-bit little-endian hardware: uintptr is 64 bits',
]


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--replay')
    ap.add_argument('--noprove', action='store_true')
    ap.add_argument('--nosearch', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    work = tempfile.mkdtemp(prefix='amtcheck.')
    try:
        if a.replay:
            return replay(a, work)
        if a.prop not in PROPS:
            print('unknown property', a.prop)
            return 2
        return check(a, work, seed)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(a, work):
    f = os.path.abspath(a.replay)
    try:
        with open(f) as h:
            what = json.load(h)
    except (OSError, ValueError) as e:
        print(e)
        return 2
    races = 'race_report' in what
    s = Search(work, a.repo, 'C14' if races else 'C08', work)
    s.build()
    b = s.race if races else s.bin
    if not b:
        print('the harness does not build:\n' + s.buildlog)
        return 2
    env = gobuild.env()
    if not races:
        return subprocess.run([b, '-replay', f], env=env, cwd=work).returncode
    env['GORACE'] = 'halt_on_error=1 exitcode=66'
    if 'history' in what:
        cmd = [b, '-replay', f]
    else:
        c = what['command']
        cmd = [b] + c[:c.index('-out')] + ['-out', work]
    for _ in range(5):      # the schedule is not part of the file
        p = subprocess.run(cmd, env=env, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        rc = p.returncode
        if rc:
            print(p.stdout[max(p.stdout.find('WARNING: DATA RACE'), 0):][:3000])
            break
    else:
        print('no failure')
    return 1 if rc == 66 else rc


def check(a, work, seed):
    t0 = time.time()
    prop, tier = a.prop, a.tier
    say = lambda *x: print('[%6.1f]' % (time.time() - t0), *x, flush=True)
    outdir = os.path.join(VERIF, 'replays', prop)
    shutil.rmtree(outdir, ignore_errors=True)
    results, bres, prog, fail = {}, {}, None, ''
    search = Search(work, a.repo, prop, outdir)
    builder = threading.Thread(target=search.build)
    try:
        dumper = gobuild.build_dumper(os.path.join(work, 'ssadump'))
        prog = Prog.load(gobuild.dump(dumper, a.repo, os.path.join(work, 'ssa.json')))
    except Exception as e:
        fail = 'front end: %s' % e
    builder.start()
    if prog is not None and not a.noprove:
        ts = [t for t in verify.tasks(prog) if relevant(prop, t)]
        say('%s: %d functions under contract' % (prop, len(ts)))
        results = prove(prog, ts, TASK_LIMIT[tier], prop, {'quick': 420, 'thorough': 5000}[tier])
        links = verify.container_checks(prog, results)
    else:
        links = []
    builder.join()
    # ---- verdict of the proof
    refuted, undecided, untagged = [], [], []
    nobl = ndis = 0
    for t, R in results.items():
        for o in R.obligations:
            nobl += 1
            if o[2] == 'proved':
                ndis += 1
            elif o[2] == 'refuted' and prog.renamed:
                # which field is which was guessed: the search decides
                undecided.append((tname(t), 'refuted with %s: %s' % ('; '.join(prog.renamed), o[0])))
            elif o[2] == 'refuted':
                (refuted if prop in o[1] else untagged).append((tname(t), o))
            else:
                undecided.append((tname(t), o[0]))
        if R.status == 'undecided' and not any(o[2] == 'unknown' for o in R.obligations):
            nobl += 1
            undecided.append((tname(t), R.reason))
    for name, tags, ok, why in links:
        nobl += 1
        if ok:
            ndis += 1
        elif prop in tags:
            undecided.append((name, why))
    if fail:
        undecided.append(('front end', fail))
    say('obligations %d, discharged %d, refuted %d (+%d of other properties), undecided %d' % (nobl, ndis, len(refuted), len(untagged), len(undecided)))
    for n, o in refuted[:8]:
        say('  refuted: %s: %s  %s' % (n, o[0], o[3][:200]))
    for n, o in untagged[:4]:
        say('  refuted (other property): %s: %s' % (n, o[0]))
    for n, w in undecided[:8]:
        say('  undecided: %s: %s' % (n, str(w)[:200]))
    # ---- search
    viol = None
    compile_viol = None
    if search.nosupplied and prop == 'C12' and 'satisfy' in search.buildlog + 'satisfy' and ('missing method' in search.buildlog or 'has no field or method' in search.buildlog):
        f = search.save('a supplied key type cannot be used as the key of a generic container', {'compiler': search.buildlog})
        compile_viol = ('a supplied key type cannot be used as the key of a generic container', f)
    clean = not (refuted or untagged or undecided)
    secs = {'quick': (6, 45), 'thorough': (60, 240)}[tier][0 if clean else 1]
    viol = compile_viol
    if not viol and not a.nosearch:
        kinds = sorted({n.split('.')[0] for n, _ in refuted} & (set(MAPS) | set(SETS))) or None
        if not clean:
            viol = search.go(8, seed, kinds=kinds)
        if not viol and undecided and prog is not None and not a.noprove:
            bres = bounded(prog, results, prop, tier)
            nb = {'proved': 0, 'refuted': 0, 'unknown': 0, 'runs not finished': 0}
            for t, R in bres.items():
                nb['runs not finished'] += R.status == 'undecided'
                for o in R.obligations:
                    nb[o[2]] += 1
                    if o[2] == 'refuted' and prop in o[1] and not prog.renamed:
                        refuted.append((tname(t), o))
            say('bounded: %d runs, %s' % (len(bres), nb))
            for n, o in refuted[:8]:
                say('  refuted: %s: %s  %s' % (n, o[0], o[3][:200]))
        if not viol:
            viol = search.go(secs, seed + 1, kinds=kinds)
        c = {}
        for r in search.runs:
            for k, v in r['counts'].items():
                c[k] = max(c.get(k, 0), v) if k.startswith('Max') else c.get(k, 0) + v
        say('search on the real code: %s%s' % (c, ' ' + search.error if search.error else ''))
    else:
        c = {}
    if not search.bin:
        say('the search harness does not build:', search.buildlog[:500])
    # ---- report
    rc = 0
    if viol:
        say('violation:', viol[0])
        print('VIOLATION property=%s replay=%s' % (prop, viol[1]))
        rc = 1
    elif refuted:
        f = search.save('obligations fail; no failing input found', {
            'failed_obligations': [{'function': n, 'obligation': o[0], 'properties': o[1], 'verifier_output': o[3]} for n, o in refuted],
            'search': c})
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, f))
        rc = 1
    for k in known_findings():
        if 'property=' + prop in k:
            print('KNOWN-FINDING: ' + k.split(':', 1)[1].strip())
    by, q, sol = {}, 0, 0.0
    for R in results.values():
        q += R.queries
        sol += R.solver
        for k, v in R.by.items():
            by[k] = by.get(k, 0) + v
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'wall_s': round(time.time() - t0, 1), 'violations': 1 if rc else 0,
        'coverage': {
            'obligations': nobl, 'discharged': ndis,
            'checker_cmd': './check %s --tier %s' % (prop, tier),
            'trusted_base': TRUSTED,
            'functions_under_contract': sorted(tname(t) for t in results),
            'per_function': {tname(t): {'obligations': len(R.obligations), 'discharged': sum(o[2] == 'proved' for o in R.obligations),
                                        'obligations_of_this_property': sum(prop in o[1] for o in R.obligations), 'paths': R.paths, 'cases': R.cases,
                                        'loops': [str(l) for l in R.loops][:12], 'inlined': R.inlined, 'calls_by_contract': R.callees,
                                        'solver_queries': R.queries, 'solver_s': round(R.solver, 1), 'status': R.status, 'reason': R.reason} for t, R in results.items()},
            'solver_queries': q, 'solver_time_s': round(sol, 1), 'queries_by_back_end': by,
            'container_level_checks': [{'check': n, 'ok': ok, 'detail': w} for n, tg, ok, w in links],
            'undecided_obligations': [{'function': n, 'why': str(w)[:300]} for n, w in undecided],
            'refuted_obligations': [{'function': n, 'obligation': o[0], 'properties': o[1]} for n, o in refuted + untagged],
            'bounded_runs': {tname(t): {'obligations': len(R.obligations), 'discharged': sum(o[2] == 'proved' for o in R.obligations),
                                        'status': R.status, 'reason': R.reason} for t, R in bres.items()},
            'bounded_search': {'role': 'conformance run on the real code; decides only the functions listed as undecided, within its bound',
                               'bound': '%d processes x %d s of random histories (<= 400 keys, collisions to level 230)' % (NPROC, secs), 'counts': c,
                               'note': search.error},
        },
        'assumptions': ASSUME,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as h:
        json.dump(ev, h, indent=1)
    say('done' if rc == 0 else 'failed')
    return rc
