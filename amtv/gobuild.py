"""Builds of the Go parts: the SSA dumper and the replay/search harness."""
import json
import os
import re
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GOBIN = '/opt/veriftools/go1.27.3/bin'


def env(cache=None):
    e = dict(os.environ)
    e.update(GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', GOSUMDB='off',
             GOPATH=e.get('GOPATH') or '/root/go', HOME=e.get('HOME') or '/root')
    if os.path.isdir(GOBIN):
        e['PATH'] = GOBIN + ':' + e.get('PATH', '/usr/bin:/bin')
    if cache:
        e['GOCACHE'] = cache
    return e


def run(cmd, cwd, timeout=600, **kw):
    return subprocess.run(cmd, cwd=cwd, env=kw.pop('env', None) or env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)


def build_dumper(out):
    r = run(['go', 'build', '-o', out, '.'], os.path.join(VERIF, 'ssadump'))
    if r.returncode:
        raise RuntimeError('ssadump does not build: ' + r.stderr[-2000:])
    return out


def dump(dumper, repo, out):
    r = run([dumper, repo], repo)
    if r.returncode:
        raise RuntimeError('ssadump failed: ' + r.stderr[-2000:])
    with open(out, 'w') as f:
        f.write(r.stdout)
    return out


def maphash_overlay(work):
    """maphash with a replaceable hash function: same interface, content recorded."""
    root = run(['go', 'env', 'GOROOT'], VERIF).stdout.strip()
    path = os.path.join(root, 'src/hash/maphash/maphash.go')
    s = open(path).read()

    def sub(pat, rep, n=1):
        nonlocal s
        s, k = re.subn(pat, rep, s, count=n, flags=re.S | re.M)
        if k < 1:
            raise RuntimeError('maphash overlay: %r not found' % pat)
    sub(r'(type Hash struct \{)', r'''// VerifHash replaces the hash function, VerifSeed the seeds, when set.
var VerifHash func(seed uint64, content []byte) uint64
var VerifSeed func() uint64

// VerifVal is the number inside a seed.
func (s Seed) VerifVal() uint64 { return s.s }

\1
	all []byte
	own *Hash''')
    sub(r'(const bufSize = 128)', r'''func (h *Hash) verifOwn() {
	if h.own != h {
		h.own, h.all = h, append([]byte(nil), h.all...)
	}
}

\1''')
    sub(r'(func \(h \*Hash\) WriteByte\(b byte\) error \{)', r'\1\n\tif VerifHash != nil {\n\t\th.verifOwn()\n\t\th.all = append(h.all, b)\n\t\treturn nil\n\t}')
    sub(r'(func \(h \*Hash\) Write\(b \[\]byte\) \(int, error\) \{)', r'\1\n\tif VerifHash != nil {\n\t\th.verifOwn()\n\t\th.all = append(h.all, b...)\n\t\treturn len(b), nil\n\t}')
    sub(r'(func \(h \*Hash\) WriteString\(s string\) \(int, error\) \{)', r'\1\n\tif VerifHash != nil {\n\t\th.verifOwn()\n\t\th.all = append(h.all, s...)\n\t\treturn len(s), nil\n\t}')
    sub(r'(func \(h \*Hash\) SetSeed\(seed Seed\) \{)', r'\1\n\th.all = nil')
    sub(r'(func \(h \*Hash\) Reset\(\) \{)', r'\1\n\th.all = nil')
    sub(r'(func \(h \*Hash\) Sum64\(\) uint64 \{\n\th\.initSeed\(\))', r'\1\n\tif VerifHash != nil {\n\t\treturn VerifHash(h.seed.s, h.all)\n\t}')
    sub(r'(func Bytes\(seed Seed, b \[\]byte\) uint64 \{\n\tstate := seed\.s\n\tif state == 0 \{\n\t\tpanic\([^\n]*\n\t\})', r'\1\n\tif VerifHash != nil {\n\t\treturn VerifHash(seed.s, b)\n\t}')
    sub(r'(func String\(seed Seed, s string\) uint64 \{\n\tstate := seed\.s\n\tif state == 0 \{\n\t\tpanic\([^\n]*\n\t\})', r'\1\n\tif VerifHash != nil {\n\t\treturn VerifHash(seed.s, []byte(s))\n\t}')
    sub(r'(func MakeSeed\(\) Seed \{)', r'\1\n\tif VerifSeed != nil {\n\t\treturn Seed{VerifSeed()}\n\t}')
    f = os.path.join(work, 'maphash_verif.go')
    with open(f, 'w') as h:
        h.write(s)
    o = os.path.join(work, 'overlay.json')
    with open(o, 'w') as h:
        json.dump({'Replace': {path: f}}, h)
    return o


def build_harness(work, repo='/repo', race=False, nosupplied=False):
    """Returns (binary, None) or (None, compiler output)."""
    ov = maphash_overlay(work)
    src = os.path.join(VERIF, 'harness')
    mod = os.path.join(work, 'harness.mod')
    with open(os.path.join(src, 'go.mod')) as f:
        m = f.read().replace('=> /repo', '=> ' + repo)
    with open(mod, 'w') as f:
        f.write(m)
    out = os.path.join(work, 'harness' + ('_race' if race else '') + ('_ns' if nosupplied else ''))
    cmd = ['go', 'build', '-overlay', ov, '-modfile', mod, '-o', out]
    if race:
        cmd.append('-race')
    if nosupplied:
        cmd += ['-tags', 'nosupplied']
    r = run(cmd + ['.'], src)
    if r.returncode:
        return None, r.stderr
    return out, None
