"""Lemmas over the contracts.

smt: what the scan contracts assume about the g-th set bit of a presence map
(loops.nth_facts), by induction over g.
lean: /verif/lean derives the properties of all histories from the contracts of
single calls (spec.py), restated on the memory (Refine.lean) and on the tree it
represents (Amt.lean); each property needs some of the theorems.
"""
import glob
import os
import re
import shutil
import subprocess
import tempfile
import time

import z3

from . import loops
from .terms import *

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ALWAYS = ['history', 'ins_refines', 'del_refines', 'pre', 'mem_history', 'ins_total', 'del_total', 'level_bound', 'total_len_zero', 'total_dep_zero', 'total_route']
THEOREMS = {
    'C03': ['length_is_keys'],
    'C04': ['level_is_max_shared'],
    'C05': ['unique_root', 'same_keys_same_structure'],
    'C06': ['scan_refines', 'scan_visits', 'visits_prefix', 'visits_all', 'nodup_keys', 'get_iff'],
    'C07': ['boxes_distinct', 'boxes_ins', 'boxes_del'],
    'C10': ['ins_get'],
    'C14': ['boxes_distinct', 'boxes_ins'],
    'C15': ['parting', 'level_is_max_shared'],
    'C16': ['two_keys', 'emptied'],
}
AXIOMS = {'propext', 'Classical.choice', 'Quot.sound'}


def smt():
    """[(name, proved, detail)]: induction over g, for every presence map."""
    pm, r = z3.BitVecs('pm r', 32)
    g, q = z3.BitVecs('g q', 64)
    n = count(pm)

    def inv(g, r):
        return And(ULE(g, n), count(r) == n - g, (r & ~pm) == 0,
                   Implies(r != 0, r == pm & (bv(0xffffffff, 32) << ctz(r))))
    wf = z3.Extract(31, 16, pm) == 0
    b = zx(ctz(r), 64)
    nxt = r & (r - 1)
    facts = loops.nth_facts(pm, n, g, b, r, nxt)
    out = [('g-th set bit: start', [wf, Not(inv(bv(0, 64), pm))]),
           ('g-th set bit: step', [wf, inv(g, r), ULT(g, n), Not(inv(g + 1, nxt))]),
           ('g-th set bit: which one', [wf, inv(g, r), ULT(g, n), hasbit(pm, q), ULT(q, 16), rank(pm, q) == g, q != b])]
    for name, f in facts:
        if name == 'first':
            continue    # the start
        out.append(('g-th set bit: ' + name, [wf, inv(g, r), Not(f)]))
    res = []
    for name, fs in out:
        a = solve(fs)
        res.append((name, a == 'unsat', '' if a == 'unsat' else a))
    return res


def lean_bin():
    for f in [shutil.which('lean')] + sorted(glob.glob('/app/lean4-*/build/release/stage1/bin/lean')) + sorted(glob.glob('/app/toolchains/lean-*/bin/lean')):
        if f and os.access(f, os.X_OK):
            return f
    return 'lean'


def lean(prop, limit=300):
    """[(theorem, proved, detail)]"""
    names = ALWAYS + [t for t in THEOREMS.get(prop, []) if t not in ALWAYS]
    src = ''
    for n in ('Amt.lean', 'Refine.lean'):
        with open(os.path.join(HERE, 'lean', n)) as h:
            src += h.read() + '\n'
    src += '\n' + '\n'.join('#print axioms Amt.%s' % t for t in names) + '\n'
    with tempfile.TemporaryDirectory(prefix='amtlean.') as d:
        f = os.path.join(d, 'Amt.lean')
        with open(f, 'w') as h:
            h.write(src)
        t0 = time.time()
        try:
            p = subprocess.run([lean_bin(), f], capture_output=True, text=True, timeout=limit, cwd=d)
            o = p.stdout + p.stderr
            rc = p.returncode
        except (OSError, subprocess.TimeoutExpired) as e:
            o, rc = str(e), -1
        dt = time.time() - t0
    got = {}
    for m in re.finditer(r"'Amt\.(\w+)' (does not depend on any axioms|depends on axioms: \[([^\]]*)\])", o):
        got[m.group(1)] = {x.strip() for x in (m.group(3) or '').split(',') if x.strip()}
    res = []
    for t in names:
        ok = rc == 0 and t in got and got[t] <= AXIOMS and 'error:' not in o
        res.append(('theorem ' + t, ok, '' if ok else o[:300]))
    return res, dt
