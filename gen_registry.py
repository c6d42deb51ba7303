#!/usr/bin/env python3
"""Writes the uniform adapter over the Standard Model process classes (src/sm_registry.cpp).

Run by hand when a class is added to /repo/SM; the result is committed and the checks only use that.
The particle content is given below, from the documented process of each class.
"""
import glob, os, re, sys
SM = '/repo/SM'
LEGS = {}
for n in sorted(os.path.basename(f)[:-4] for f in glob.glob(SM + '/*.cpp')):
    if n == 'test': continue
    t = open(f'{SM}/{n}.cpp').read()
    m = re.search(r'\\t\* ([^:"]*?)\s*(\(QED\))?\s*:', t)
    a, b = m.group(1).split('->')
    LEGS[n] = [x.strip() for x in a.split(',') + b.split(',')]
# The printed label of these is in another order than their particles.
LEGS['ueeu'] = ['u', 'e', 'e', 'u']
LEGS['AZee'] = ['A', 'Z', 'e', 'E']
# The spinor expressions of these are those of the CP conjugate of the printed process (the sums over spins are the same).
LEGS['menn'] = ['m', 'E', 'Ne', 'nm']
LEGS['udnl'] = ['U', 'd', 'Nl', 'l']
LEGS['ulnd'] = ['U', 'L', 'Nl', 'D']
LEGS['WdWd'] = ['W-', 'D', 'W-', 'D']
PAR = dict(echarge='E', gscharge='GS', gcharge='GS', sinW='SW', vev='VEV', massh='MH', massW='MW', widthh='WH', widthW='WW', widthZ='WZ',
           masse='ME', massmu='MMU', masstau='MTAU', massu='MU', massd='MD', masss='MS', massc='MC', masst='MT', massb='MB')
FL = {'u':'MU','d':'MD','s':'MS','c':'MC','t':'MT','b':'MB','e':'ME','m':'MMU','l':'MTAU'}

def spinless(l): return l == 'h' or l.lower() in ('ne', 'nm', 'nl')

USER = '/repo/user-dir'                                # the example of a process written by a user
LEGS['user-eemm'] = ['e', 'E', 'm', 'M']

out = []
for name, legs in LEGS.items():
    user = name.startswith('user-')
    n, d = (name[5:], USER) if user else (name, SM)
    h = re.sub(r'//.*', '', open(f'{d}/include/{n}.h').read())
    src = open(f'{d}/{n}.cpp').read()
    def args(s): return [re.sub(r'.*[ &*]', '', a.strip()) for a in s.split(',')] if s.strip() else []
    ct = args(re.search(r'\b%s\s*\(([^)]*)\)\s*;' % n, h).group(1))
    ctor = []
    for a in ct:
        if a == 'massf':
            a = {'u': 'massu', 'd': 'massd'}[legs[0].lower()]
        ctor.append(PAR[a])
    masses = [c for c in ctor if c[0] == 'M']
    mdef = re.search(r'void\s+%s::set_masses\s*\(([^)]*)\)' % n, src)
    nm = len(args(mdef.group(1))) if mdef else 0
    if mdef: assert nm == len(masses), n
    labelled = [i for i, l in enumerate(legs) if not spinless(l)]
    amps = []
    for m in re.finditer(r'cdouble\s+%s::(amp\w*)\s*\(([^)]*)\)' % n, src):
        k = len(args(m.group(2)))
        assert k == len(labelled), (n, m.group(0), labelled)
        names = args(m.group(2))
        order = [int(a[-1]) - 1 for a in names]       # the arguments are named after the particles
        assert sorted(order) == labelled, (n, names)
        amps.append((m.group(1), order))
    pols = []
    for m in re.finditer(r'ldouble\s+%s::(amp2_\w+)\s*\(\s*\)' % n, src):
        f = m.group(1)
        if f == 'amp2_Feynman':
            pols.append((f, [0, 0, 0, 0])); continue
        fix = [0, 0, 0, 0]
        for tok in f.split('_')[1:]:
            p, s = tok[0], tok[1:]
            i = next(i for i in range(2) if legs[i] == p and not fix[i])
            fix[i] = 2 if s == 'plus' else -2
        pols.append((f, fix))
    mom = re.search(r'ldouble\s+%s::amp2\s*\(\s*const' % n, src) is not None
    setv = re.search(r'void\s+%s::set_v\b' % n, src) is not None
    out.append(dict(n=name.replace('-', '_'), type='::' + n if user else 'spinas::' + n, header='../user-dir/include/%s.h' % n if user else 'include/%s.h' % n, legs=legs, ctor=ctor, masses=masses, has_masses=bool(mdef), lab=labelled, amps=amps, pols=pols, mom=mom, setv=setv, qed=user or n.endswith('QED')))

HEAD = '''// Written by gen_registry.py.
#include "sm_registry.h"
'''
def emit(lst, part):
    s = HEAD
    for o in lst: s += '#include "%s"\n' % o['header']
    s += '\nnamespace sm {\n\n'
    for o in lst:
        n, t = o['n'], o['type']
        s += 'struct P_%s : Proc {\n  %s* x;\n' % (n, t)
        s += '  P_%s(const Info& i, const Par& p) : Proc(i), x(new %s(%s)) {}\n' % (n, t, ','.join('p[%s]' % c for c in o['ctor']))
        s += '  P_%s(const Info& i, %s* y) : Proc(i), x(y) {}\n' % (n, t)
        s += '  Proc* clone() { %s* y = copied(x); return y ? new P_%s(info,y) : 0; }\n' % (t, n)
        s += '  bool assign(Proc* o) { return assigned(x,static_cast<P_%s*>(o)->x); }\n' % n
        s += '  ~P_%s() { delete x; }\n' % n
        if o['has_masses']:
            s += '  void set_masses(const Par& p) { x->set_masses(%s); }\n' % ','.join('p[%s]' % c for c in o['masses'])
        if o['setv']:
            s += '  void set_v(const Par& p) { x->set_v(p[VEV]); }\n'
        s += '  void set_momenta(const ldouble q[4][4]) { x->set_momenta(q[0],q[1],q[2],q[3]); }\n'
        s += '  spinas::process* base() { return x; }\n'
        s += '  ldouble amp2() { return x->amp2(); }\n'
        s += '  cdouble amp(int k, const int d[4]) { switch (k) {'
        for k, (f, order) in enumerate(o['amps']): s += ' case %d: return x->%s(%s);' % (k, f, ','.join('d[%d]' % i for i in order))
        s += ' } abort(); }\n'
        s += '  ldouble pol(int k) { switch (k) {'
        for k, (f, _) in enumerate(o['pols']): s += ' case %d: return x->%s();' % (k, f)
        s += ' } abort(); }\n'
        if o['mom']:
            s += '  ldouble amp2_of(const ldouble q[4][4]) { return x->amp2(q[0],q[1],q[2],q[3]); }\n'
        s += '};\n'
    s += '\nvoid register_%d(std::vector<Info>& r) {\n' % part
    for o in lst:
        q = lambda l: '{' + ','.join(l) + '}'
        s += '  r.push_back(Info{"%s",%s,%s,%s,%s,%s,%s,%d,%d,%d,%d,[](const Info& i, const Par& p) -> Proc* { return new P_%s(i,p); }});\n' % (
            o['n'], q('"%s"' % l for l in o['legs']), q(o['ctor']), q(o['masses']), q(str(i) for i in o['lab']),
            q('"%s"' % a for a, _ in o['amps']), '{' + ','.join('{"%s",{%s}}' % (f, ','.join(map(str, x))) for f, x in o['pols']) + '}',
            o['has_masses'], o['setv'], o['mom'], o['qed'], o['n'])
    s += '}\n\n}\n'
    return s
N = 6
dst = sys.argv[1]
for k in range(N):
    open('%s/sm_reg%d.cpp' % (dst, k), 'w').write(emit(out[k::N], k))
print(len(out), 'classes')
