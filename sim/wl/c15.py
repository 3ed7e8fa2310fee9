# Workload of C15: the generator of control-system directories (flame.ioc) on generated lattices, with failing
# file-system calls.  Whatever ends without an exception must have written everything, exactly.
import os, re, sys, gc, shutil, runpy, logging, warnings, argparse
from types import SimpleNamespace
import flame, flame.ioc as ioc
import _sim as S
from collections import Counter
gc.collect(); gc.freeze()
warnings.simplefilter('ignore')
DATA = ioc.datadir
FILES = sorted(os.listdir(DATA))
KNOWN = sorted(f[:-9] for f in FILES if f.endswith('.template') and f != 'common.template')
CONTENT = {f: open(os.path.join(DATA, f), 'rb').read() for f in FILES}
class Handler(logging.Handler):
    def emit(self, rec): pass
lg = logging.getLogger('flame'); lg.propagate = False; lg.addHandler(Handler())
for n in ('flame.ioc', '__main__'): l = logging.getLogger(n); l.propagate = False; l.addHandler(Handler())
logging.raiseExceptions = False

def draw(n): return S.draw(n)
def pick(l): return l[S.draw(len(l))]
def chance(a, b): return S.draw(b) >= b - a

def lattice():
    """text, [(name, type)]"""
    names = ['a', 'b', 'a1', 'a:1', 'm', 'q_2', 'LS1:X', 'a_1', 'b1'][:2 + draw(8)]
    types = list(KNOWN) + ['tmatrix', 'generic', 'unknowntype']
    out = ['sim_type = "MomentMatrix";\n']
    if chance(1, 6): out = []
    defs = {}
    for n in names:
        t = pick(types) if chance(3, 4) else 'marker'
        defs[n] = t
        out.append('%s: %s, L=%g;\n' % (n, t, 0.1 * draw(5)))
    if chance(1, 3): out.append('# ' + 'x' * (1 << draw(14)) + '\n')
    line = []; seq = []
    for i in range(draw(12)):
        n = pick(names); k = 1 + (draw(4) if chance(1, 3) else 0)
        line.append(n if k == 1 else '%d*%s' % (k, n)); seq += [n] * k
    if not line: line = [names[0]]; seq = [names[0]]
    out.append('sub: LINE = (%s);\n' % ','.join(line))
    rep = 1 + draw(3)
    out.append('cell: LINE = (%s);\nUSE: cell;\n' % ('sub' if rep == 1 else '%d*sub' % rep)); seq = seq * rep
    ok = out[0].startswith('sim_type')
    if chance(1, 10): out.append('oops: \n'); ok = False
    return ''.join(out), [(n, defs[n]) for n in seq], ok

MANGLERS = [None, lambda e: '$(PREF)%(name)s:' % e, lambda e: 'SYS:%(type)s:' % e, lambda e: '$(PREF)' + e['name'].replace('1', '').replace(':', '') + '_', lambda e: 'X', lambda e: 'N' + e['name'].upper()]

def parse_subst(text):
    R = {}; cur = None; depth = 0
    for ln in text.splitlines():
        ln = ln.strip()
        if not ln: continue
        m = re.fullmatch(r'file\s+"([^"]*)"\s*(\{?)', ln)
        if m and depth == 0: cur = R.setdefault(m.group(1), []); depth = 1 if m.group(2) else 0; continue
        if ln == '{': depth += 1; continue
        if ln == '}': depth -= 1; continue
        m = re.fullmatch(r'\{(.*)\},?', ln)
        if not m or cur is None or depth != 1: return None
        d = dict(re.findall(r'(\w+)\s*=\s*"([^"]*)"', m.group(1)))
        if sorted(d) != ['ELEM', 'P']: return None
        cur.append((d['P'], d['ELEM']))
    return R if depth == 0 else None

def bad(cls, msg): S.violate(cls, msg)
def rd(p):
    b = S.get(p)
    if b is None: bad('missing-file', 'the generator ended without an error, but %s does not exist' % p[len(S.scratch()):])
    return b

def verify(out, inp, text, seq, mangler, have, cwd):
    """have: type -> template exists"""
    if rd(out + '/input.lat') != text: bad('wrong-copy', 'input.lat differs from the lattice file')
    for f in ['core.db', 'orbit.db', 'common.template'] + [t + '.template' for t in sorted(set(t for n, t in seq)) if t in have]:
        if rd(out + '/' + f) != have['/' + f]: bad('wrong-copy', '%s differs from the original' % f)
    sub = parse_subst(rd(out + '/lattice.substitutions').decode())
    if sub is None: bad('bad-substitutions', 'lattice.substitutions is not well formed')
    mg = mangler or MANGLERS[1]
    seen = Counter(); exp = []   # every element with a template: (type, element reference, base of the record name)
    for n, t in seq:
        k = seen[n]; seen[n] += 1
        if t in have: exp.append((t, n if k == 0 else '%s[%d]' % (n, k), mg({'name': n, 'type': t})))
    if set(sub) != set(['common.template'] + [t + '.template' for t, e, r in exp]): bad('wrong-templates', 'lattice.substitutions uses %s' % sorted(sub))
    com = sub['common.template']
    def same(got, want, what):
        if [re.sub(r'\[0\]$', '', e) for p, e in got] != [e for t, e, r in want]: bad('wrong-element', '%s lists %s instead of %s' % (what, [e for p, e in got][:8], [e for t, e, r in want][:8]))
        for (p, e), (t, x, r) in zip(got, want):
            if not re.fullmatch(re.escape(r) + r'\d*', p): bad('wrong-record', '%s: element %s has the record name %s (expected %s)' % (what, e, p, r))
    same(com, exp, 'common.template')
    if len(set(p for p, e in com)) != len(com): bad('record-not-unique', 'two elements have the same record name: %s' % com[:8])
    pref = {e: p for p, e in com}
    for t in set(t for t, e, r in exp):
        blk = [(p, e) for p, e in sub[t + '.template']]
        same(blk, [x for x in exp if x[0] == t], t)
        for p, e in blk:
            if pref[e] != p: bad('wrong-record', '%s is %s in one place and %s in another' % (e, p, pref[e]))
    st = rd(out + '/st.cmd').decode()
    pat = re.escape(have['/st.cmd'].decode().replace('%%', '%')).replace(re.escape('%(latticepath)s'), '(?P<path>[^"]*)').replace(re.escape('%(nmarkers)d'), r'(?P<n>\d+)')
    m = re.fullmatch(pat, st)
    if not m: bad('bad-script', 'st.cmd does not follow its template')
    if int(m.group('n')) != sum(1 for n, t in seq if t == 'marker'): bad('bad-script', 'st.cmd is for %s markers' % m.group('n'))
    if os.path.normpath(os.path.join(cwd, m.group('path'))) != os.path.normpath(os.path.join(cwd, inp)) or not os.path.isabs(m.group('path')): bad('bad-script', 'st.cmd names the lattice %s' % m.group('path'))

def run():
    top = S.scratch(); S.chdir(); nop = 0
    S.mkdir(top + '/data'); cust = {}
    for f in FILES: S.put(top + '/data/' + f, CONTENT[f])
    custom = dict(('/' + f, c) for f, c in CONTENT.items()); custom.update((t, 1) for t in KNOWN)
    if chance(1, 3): # other templates
        t = pick(KNOWN); c = b'# changed\n' * (1 << draw(12)); S.put(top + '/data/%s.template' % t, c); custom['/%s.template' % t] = c
    if chance(1, 3): t = pick(KNOWN); S.rm(top + '/data/%s.template' % t); del custom[t]
    real = dict(('/' + f, c) for f, c in CONTENT.items()); real.update((t, 1) for t in KNOWN)
    lats = []
    for i in range(1 + draw(3)):
        text, seq, ok = lattice(); d = pick(['', 'sub/', 'sub dir/'])
        if d: S.mkdir(top + '/' + d[:-1])
        p = d + 'l%d.lat' % i; S.put(top + '/' + p, text.encode()); lats.append((p if chance(1, 2) else top + '/' + p, text.encode(), seq, ok))
    outs = ['out', top + '/out2', 'deep/er/out', top + '/sub/out']
    for opn in range(1 + draw(6 if not S.tier() else 14)):
        S.opb()
        inp, text, seq, ok = pick(lats); out = pick(outs); mode = draw(8)
        mangler = pick(MANGLERS) if mode < 6 else None
        have = custom if mode < 6 else real
        if chance(1, 4): # an older, longer content
            S.mkdir(os.path.join(top, out)); f = pick(['input.lat', 'core.db', 'lattice.substitutions', 'st.cmd', 'common.template', 'drift.template']); S.put(os.path.join(top, out, f), b'old ' * 5000)
        fault = draw(6); k = 1 + draw(1 << (1 + draw(9)))
        def act():
            if mode < 6:
                kw = {'indir': top + '/data'} if chance(1, 2) or mode < 6 else {}
                if mangler: kw['mangler'] = mangler
                G = ioc.Generator(inp, **kw); G.emit_subst(out)
                if mode == 5: G.emit_subst(out)
            elif mode == 6: ioc.gendb(SimpleNamespace(input=inp, out=out))
            else:
                sys.argv = ['ioc'] + (['-d'] if chance(1, 3) else []) + ['gendb', inp, out]
                runpy.run_module('flame.ioc', run_name='__main__')
        err = None
        S.fault(fault if fault < 4 else 0, k)
        try: act()
        except SystemExit as e:
            if e.code not in (None, 0): err = e
        except Exception as e: err = e
        fired = S.fault(0, 0); gc.collect()
        S.log('%s -> %s mode %d fault %d/%d fired %d: %s' % (inp.replace(top, ''), out.replace(top, ''), mode, fault, k, fired, type(err).__name__ + ': ' + str(err).replace(top, '') if err else 'done'))
        if S.openfiles(): bad('file-left-open', 'the generator left %d files open' % S.openfiles())
        usable = ok and any(t in have for n, t in seq)
        if err is None:
            if not usable: bad('no-error', 'a lattice %s was accepted' % ('that is not usable' if not ok else 'without usable elements'))
            verify(os.path.join(top, out), inp, text, seq, mangler, have, top); S.count('op.complete')
        else:
            S.count('op.error')
            if usable and not fired: bad('unexpected-error', '%s: %s' % (type(err).__name__, str(err).replace(top, '')))
        for p, t, q, o in lats:
            if S.get(os.path.join(top, p)) != t: bad('input-changed', 'the lattice file was changed')
        S.reach('%d %s %d %d %d %d' % (mode, type(err).__name__ if err else 'ok', fault, min(fired, 2), min(len(seq), 6), len(set(t for n, t in seq))))
        if err is not None and usable: # the same again, without a fault
            act_mode = mode
            try: act()
            except SystemExit as e:
                if e.code not in (None, 0): bad('not-repeatable', 'after a failure, a second run fails: %s' % e)
            except Exception as e: bad('not-repeatable', 'after a failure, a second run fails: %s: %s' % (type(e).__name__, str(e).replace(top, '')))
            verify(os.path.join(top, out), inp, text, seq, mangler, have, top); S.count('op.repeated')
        S.ope()
