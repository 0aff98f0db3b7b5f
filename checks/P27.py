import itertools
from sim import *
import P03
from models import MATERIALS, DAMAGE, FLUID, m

DT = 0.05


def points():
    return P03.blocks(P03.body('brick'), 'sides')


def deck():
    """An input with a little of everything."""
    P = points()
    d = {
        'Verbose': False,
        'Discretization': {'Type': 'Text File', 'Input Mesh File': 'm.txt', 'Bond Filters': {'cut': dict(PLANE)}},
        'Materials': {'steel': {'Material Model': 'Elastic', 'Density': 2.0, 'Bulk Modulus': 10.0, 'Shear Modulus': 6.0},
                      'foam': {'Material Model': 'Elastic Plastic', 'Density': 1.5, 'Bulk Modulus': 8.0, 'Shear Modulus': 3.0, 'Yield Stress': 0.3}},
        'Damage Models': {'snap': {'Damage Model': 'Critical Stretch', 'Critical Stretch': 0.05}},
        'Blocks': {'left': {'Block Names': 'block_1', 'Material': 'steel', 'Damage Model': 'snap', 'Horizon': 1.9},
                   'right': {'Block Names': 'block_2', 'Material': 'foam', 'Horizon': 2.1}},
        'Contact': {'Search Radius': 2.5, 'Search Frequency': 2, 'Models': {'bump': {'Contact Model': 'Short Range Force', 'Contact Radius': 0.9, 'Spring Constant': 20.0, 'Friction Coefficient': 0.1}},
                    'Interactions': {'all': {'First Block': 'block_1', 'Second Block': 'block_2', 'Contact Model': 'bump'}}},
        'Boundary Conditions': {'Node Set 1': '1 3 5', 'Node Set 2': '2 4 6 8',
                                'pull': {'Type': 'Prescribed Displacement', 'Node Set': 'Node Set 1', 'Coordinate': 'x', 'Value': '0.3*t'},
                                'throw': {'Type': 'Initial Velocity', 'Node Set': 'Node Set 2', 'Coordinate': 'y', 'Value': '0.7 + 0.2*x'},
                                'load': {'Type': 'Body Force', 'Node Set': 'Node Set 2', 'Coordinate': 'z', 'Value': '0.1*t*(1+y)'}},
        'Solver': {'Verbose': False, 'Initial Time': 0.0, 'Final Time': 4 * DT, 'Verlet': {'Fixed dt': DT}},
        'Compute Class Parameters': {'top': {'Compute Class': 'Block_Data', 'Calculation Type': 'Maximum', 'Block': 'block_2', 'Variable': 'Displacement', 'Output Label': 'Top'}},
        'Output': {'Output File Type': 'ExodusII', 'Output Filename': 'out', 'Output Frequency': 1,
                   'Output Variables': {v: True for v in ('Displacement', 'Velocity', 'Force', 'Damage', 'Dilatation', 'Number_Of_Neighbors', 'Contact_Force_Density', 'Global_Kinetic_Energy', 'Top')}},
    }
    return d, P


PLANE = {'Type': 'Rectangular_Plane', 'Normal_X': 1.0, 'Normal_Y': 0.0, 'Normal_Z': 0.0, 'Lower_Left_Corner_X': 0.5, 'Lower_Left_Corner_Y': -5.0, 'Lower_Left_Corner_Z': 5.0,
         'Bottom_Unit_Vector_X': 0.0, 'Bottom_Unit_Vector_Y': 1.0, 'Bottom_Unit_Vector_Z': 0.0, 'Bottom_Length': 5.4, 'Side_Length': 10.0}


def bc(**kw):
    return {'Boundary Conditions': kw}


# what is wrong: entries replaced (None: left out)
WRONG = {
    'no-discretization': {'Discretization': None},
    'discretization-type': {'Discretization': {'Type': 'Nonsense'}},
    'no-discretization-type': {'Discretization': {'Type': None}},
    'mesh-absent': {'Discretization': {'Input Mesh File': 'absent.txt'}},
    'no-mesh-file': {'Discretization': {'Input Mesh File': None}},
    'filter-type': {'Discretization': {'Bond Filters': {'cut': {'Type': 'Nonsense'}}}},
    'filter-incomplete': {'Discretization': {'Bond Filters': {'cut': {'Normal_X': None}}}},
    'influence-function': {'Discretization': {'Influence Function': 'Nonsense('}},
    'no-materials': {'Materials': None},
    'material-model': {'Materials': {'foam': {'Material Model': 'Nonsense'}}},
    'no-material-model': {'Materials': {'foam': {'Material Model': None}}},
    'no-density': {'Materials': {'steel': {'Density': None}}},
    'no-shear': {'Materials': {'steel': {'Shear Modulus': None}}},
    'no-bulk': {'Materials': {'steel': {'Bulk Modulus': None}}},
    'three-constants': {'Materials': {'steel': {"Poisson's Ratio": 0.25}}},
    'three-constants-2': {'Materials': {'foam': {"Young's Modulus": 9.0}}},
    'no-yield-stress': {'Materials': {'foam': {'Yield Stress': None}}},
    'density-text': {'Materials': {'steel': {'Density': 'heavy'}}},
    'damage-model': {'Damage Models': {'snap': {'Damage Model': 'Nonsense'}}},
    'no-damage-models': {'Damage Models': None},
    'no-critical-stretch': {'Damage Models': {'snap': {'Critical Stretch': None}}},
    'no-blocks': {'Blocks': None},
    'no-block-names': {'Blocks': {'left': {'Block Names': None}}},
    'no-block-material': {'Blocks': {'left': {'Material': None}}},
    'block-material': {'Blocks': {'right': {'Material': 'wood'}}},
    'block-damage': {'Blocks': {'left': {'Damage Model': 'crack'}}},
    'no-horizon': {'Blocks': {'right': {'Horizon': None}}},
    'no-horizon-first': {'Blocks': {'left': {'Horizon': None}}},
    'block-not-in-mesh': {'Blocks': {'third': {'Block Names': 'block_3', 'Material': 'steel', 'Horizon': 1.9}}},
    'block-not-in-deck': {'Blocks': {'right': None}},
    'block-name': {'Blocks': {'right': {'Block Names': 'block_two'}}},
    'no-search-radius': {'Contact': {'Search Radius': None}},
    'no-search-frequency': {'Contact': {'Search Frequency': None}},
    'no-contact-models': {'Contact': {'Models': None}},
    'contact-model': {'Contact': {'Models': {'bump': {'Contact Model': 'Nonsense'}}}},
    'no-contact-radius': {'Contact': {'Models': {'bump': {'Contact Radius': None}}}},
    'no-spring-constant': {'Contact': {'Models': {'bump': {'Spring Constant': None}}}},
    'no-interactions': {'Contact': {'Interactions': None}},
    'bc-node-set': bc(pull={'Node Set': 'Node Set 7'}),
    'bc-no-node-set': bc(pull={'Node Set': None}),
    'bc-type': bc(pull={'Type': 'Prescribed Nonsense'}),
    'bc-no-type': bc(throw={'Type': None}),
    'bc-coordinate': bc(pull={'Coordinate': 'w'}),
    'bc-no-value': bc(load={'Value': None}),
    'bc-value-unknown-name': bc(throw={'Value': '0.7 + nonsense'}),
    'bc-value-syntax': bc(throw={'Value': '0.7 + (2*x'}),
    'bc-value-empty': bc(throw={'Value': ''}),
    'load-value-syntax': bc(load={'Value': '0.7 + * 2'}),
    'pull-value-syntax': bc(pull={'Value': '0.3*t)'}),
    'bc-stray-parameter': bc(**{'Nonsense': 1.0}),
    'node-set-zero': bc(**{'Node Set 1': '0 3'}),
    'node-set-negative': bc(**{'Node Set 1': '-2 3'}),
    'node-set-text': bc(**{'Node Set 1': 'one two'}),
    'node-set-file': bc(**{'Node Set 1': 'absent.nodes'}),
    'solver-without-scheme': {'Solver': {'Verlet': None}},
    'solver-scheme': {'Solver': {'Verlet': None, 'Nonsense': {'Fixed dt': DT}}},
    'time-step-text': {'Solver': {'Verlet': {'Fixed dt': 'small'}}},
    'output-type': {'Output': {'Output File Type': 'Nonsense'}},
    'output-variable': {'Output': {'Output Variables': {'Nonsense': True}}},
    'compute-class': {'Compute Class Parameters': {'top': {'Compute Class': 'Nonsense'}}},
    'compute-variable': {'Compute Class Parameters': {'top': {'Variable': 'Nonsense'}}},
    'compute-block': {'Compute Class Parameters': {'top': {'Block': 'block_9'}}},
    'compute-calculation': {'Compute Class Parameters': {'top': {'Calculation Type': 'Nonsense'}}},
    'horizon-in-discretization': {'Discretization': {'Horizon': 1.9}},
    'horizon-in-material': {'Materials': {'steel': {'Horizon': 1.9}}},
    'horizon-in-contact': {'Contact': {'Models': {'bump': {'Horizon': 1.9}}}},
    'horizon-varies-in-contact': {'Blocks': {'right': {'Horizon': '1.9 + 0.1*x'}}},
    'horizon-syntax': {'Contact': None, 'Blocks': {'right': {'Horizon': '1.9 + (0.1*x'}}},
    'horizon-zero': {'Contact': None, 'Blocks': {'right': {'Horizon': 0.0}}},
    'block-twice': {'Blocks': {'again': {'Block Names': 'block_1', 'Material': 'foam', 'Horizon': 2.1}}},
    'multiphysics-material': {'Materials': {'Multiphysics foam': dict(m('Multiphysics Elastic'), **FLUID)}, 'Blocks': {'right': {'Material': 'Multiphysics foam'}}},
    'multiphysics-unsupported': {'Multiphysics': 1},
    'contact-radius-text': {'Contact': {'Models': {'bump': {'Contact Radius': 'wide'}}}},
    'search-frequency-real': {'Contact': {'Search Frequency': 2.5}},
    'scalar-coordinate': bc(warm={'Type': 'Prescribed Temperature', 'Node Set': 'Node Set 1', 'Coordinate': 'y', 'Value': '1.0'}),
    'bc-value-not-finite': bc(throw={'Value': '0.7/(x-x)'}),
    'node-set-file-zero': (bc(**{'Node Set 1': 'nodes.txt'}), {'nodes.txt': '0\n3\n'}),
    'no-time-step': {'Solver': {'Verlet': None, 'QuasiStatic': {}}},
    'adaptive-limits': {'Solver': {'Verlet': None, 'QuasiStatic': {'Number of Load Steps': 2, 'Adaptive Load-Stepping': {'Maximum load step reductions in one step': 5, 'Maximum total load step reductions': 2}}}},
    'nox-no-time-step': {'Solver': {'Verlet': None, 'NOXQuasiStatic': {}}},
    'nox-preconditioner': {'Solver': {'Verlet': None, 'Peridigm Preconditioner': 'Nonsense', 'NOXQuasiStatic': {'Number of Load Steps': 2}}},
    'damage-function': {'Damage Models': {'snap': {'Damage Model': 'Time Dependent Critical Stretch', 'Critical Stretch': None, 'Time Dependent Critical Stretch': 'value = (0.1'}}},
    'initial-damage-filter': {'Damage Models': {'snap': {'Damage Model': 'Initial Damage', 'Critical Stretch': None, 'Bond Filters': {'cut': dict(PLANE, Type='Nonsense')}}}},
    'contact-function': {'Contact': {'Models': {'bump': {'Contact Model': 'Time Dependent Short Range Force', 'Friction Coefficient': '0.1 + ('}}}},
    'output-parameter': {'Output': {'Nonsense': 1.0}},
    'output-filename-number': {'Output': {'Output Filename': 3.0}},
    'compute-no-label': {'Compute Class Parameters': {'top': {'Output Label': None}}},
}
# what is wrong in the mesh: function of its lines
MESH = {
    'mesh-empty': lambda L: [],
    'mesh-comments-only': lambda L: ['# nothing'],
    'mesh-four-columns': lambda L: L[:4] + [' '.join(L[4].split()[:4])] + L[5:],
    'mesh-six-columns': lambda L: L[:4] + [L[4] + ' 1.0'] + L[5:],
    'mesh-one-column': lambda L: L[:-1] + ['1.0'],
    'mesh-text': lambda L: L[:4] + ['a b c 1 1.0'] + L[5:],
    'mesh-text-volume': lambda L: L[:4] + [' '.join(L[4].split()[:4]) + ' big'] + L[5:],
    'mesh-extra-block': lambda L: L[:-1] + [' '.join(L[-1].split()[:3] + ['5', '1.0'])],
    'mesh-second-block-lacking': lambda L: [l if l.split()[3] != '2' else ' '.join(l.split()[:3] + ['1', l.split()[4]]) for l in L],
}
TEXT = {
    'yaml-indentation': lambda t: t.replace('  Materials:', ' Materials:'),
    'yaml-bracket': lambda t: t.replace('Final Time: ', 'Final Time: ['),
    'yaml-empty': lambda t: '',
}
XML = {
    'xml-cut': lambda t: t[:len(t) // 2],
    'xml-unclosed': lambda t: t.replace('</ParameterList>', '', 1),
    'xml-type': lambda t: t.replace('type="double" value="2.0"', 'type="double" value="two"', 1),
    'xml-no-list': lambda t: '<Nothing/>',
}


def refused(np_, change=None, lines=None, text=None, xmltext=None):
    def fn(wd):
        d, P = deck()
        extra = {}
        if isinstance(change, tuple):
            d, extra = merge(d, change[0]), change[1]
        elif change:
            d = merge(d, change)
        L = mesh(P).splitlines()[1:]
        files = {'m.txt': '\n'.join(lines(L) if lines else L) + '\n'}
        files.update(extra)
        t = None
        name = 'in.yaml'
        if text:
            t = text(yaml({'Peridigm': d}))
        if xmltext:
            t, name = xmltext(xml(d)), 'in.xml'
        r = simulate(wd, d, None, np_, files=files, text=t, deckname=name, expect_fail=True, timeout=25)
        return verdict(r)
    return fn


def verdict(r):
    if r.status is None:
        return ['the run hangs'], 1, 'hang'
    if r.status == 0:
        return ['accepted, %d time steps taken' % (len(r.T) - 1)], 1, 'accepted'
    if len(r.T) > 1:
        return ['refused only after %d time steps' % (len(r.T) - 1)], 1, 'late'
    told = [l for l in r.out.splitlines() if l.strip() and not l.startswith('--')]
    if not told:
        return ['refused without a message'], 1, 'silent'
    if 'signal 11' in r.out or 'Segmentation' in r.out or r.status in (-11, 139):
        return ['the run crashes: %s' % r], 1, 'crash'
    return [], 1, 'refused %s' % r.status


# changes after which the material is still a valid one
AD, SHEAR, HEAT = '+Apply Automatic Differentiation Jacobian', '+Apply Shear Correction Factor', '+Thermal Expansion Coefficient'
OPTIONAL = {
    'elastic': (AD, SHEAR, HEAT), 'thermal': (AD, SHEAR, '-Thermal Expansion Coefficient'), 'partial-stress': (AD, SHEAR, HEAT, '-Compute Partial Stress'), 'bond-based': (AD, SHEAR, HEAT),
    'plastic': (AD, SHEAR), 'hardening': (AD, SHEAR), 'linear-lps': (AD, SHEAR, HEAT), 'pals': (AD, SHEAR, HEAT), 'corr': (HEAT,), 'fluid': (AD, SHEAR, HEAT),
}


def alone(name, what, np_=1):
    """One material with a parameter left out (-), a further one (+) or its text in place of the number (~)."""
    def fn(wd):
        P = P03.body('full')
        d = base()
        d['Materials']['M'] = dict(MATERIALS[name][0])
        if name == 'fluid':
            d['Multiphysics'] = 1
            d['Materials']['Multiphysics M'] = d['Materials'].pop('M')
            d['Blocks']['B']['Material'] = 'Multiphysics M'
        M = next(iter(d['Materials'].values()))
        if what:
            k = what[1:]
            if what[0] == '-':
                del M[k]
            elif what[0] == '~':
                M[k] = 'text'
            else:
                M[k] = {'Apply Automatic Differentiation Jacobian': True, 'Apply Shear Correction Factor': True}.get(k, 0.25)
        r = simulate(wd, d, P, np_, expect_fail=bool(what), timeout=25)
        if not what:
            return ([] if r.ok else ['valid material refused: %s' % r]), 1, 'accepted'
        return verdict(r)
    return fn


REF = {}


def same(variant, np_, tol=1e-12):
    """variant: deck, points -> deck, files, deckname, text."""
    def fn(wd):
        d, P = deck()
        e, files, name, text = variant(d, P)
        files = dict(files or {})
        files.setdefault('m.txt', mesh(P))
        r = simulate(wd, e, None, np_, files=files, deckname=name, text=text)
        q = differ(r, REF[np_], tol)
        return ([q + (': %s' % r if not r.ok else '')] if q else []), len(r.T), 'same'
    return fn


def reorder(d, how):
    """The dictionary with its entries in another order, at all levels."""
    k = list(d)
    k = {'reverse': lambda: k[::-1], 'sorted': lambda: sorted(k), 'rotate': lambda: k[1:] + k[:1]}[how]()
    return {q: reorder(d[q], how) if isinstance(d[q], dict) else d[q] for q in k}


def constants(K, G):
    E, v = 9 * K * G / (3 * K + G), (3 * K - 2 * G) / (2 * (3 * K + G))
    all = {'Bulk Modulus': K, 'Shear Modulus': G, "Young's Modulus": E, "Poisson's Ratio": v}
    return [dict(c) for c in itertools.combinations(all.items(), 2)]


def with_constants(d, name, K, G, c):
    m = {k: v for k, v in d['Materials'][name].items() if k not in ('Bulk Modulus', 'Shear Modulus')}
    m.update(c)
    e = copy(d)
    e['Materials'][name] = m
    return e


MESHES = {
    'plain': lambda L: L,
    'comments': lambda L: ['# a mesh', '#'] + [x for i, l in enumerate(L) for x in ((l, '# after %d' % i) if i % 2 else (l,))],
    'blank-lines': lambda L: [''] + [x for l in L for x in (l, '')],
    'tabs': lambda L: ['\t'.join(l.split()) for l in L],
    'spaces': lambda L: ['   ' + '    '.join(l.split()) + '   ' for l in L],
    'exponents': lambda L: [' '.join(['%.17e' % float(x) if i != 3 else x for i, x in enumerate(l.split())]) for l in L],
    'no-newline-at-end': lambda L: L,
    'real-block': lambda L: [' '.join(x if i != 3 else x + '.0' for i, x in enumerate(l.split())) for l in L],
}


def meshtext(kind, P):
    L = MESHES[kind](mesh(P).splitlines()[1:])
    return '\n'.join(L) + ('' if kind == 'no-newline-at-end' else '\n')


def product(notation, order, meshkind, prefix, sets, blocks):
    def variant(d, P):
        files = {'m.txt': meshtext(meshkind, P)}
        e = copy(d)
        B = e['Boundary Conditions']
        if prefix:
            for k in ('pull', 'throw', 'load'):
                B[k]['Value'] = 'value = ' + B[k]['Value']
        if sets == 'file':
            files['one.txt'] = '1\n3\n5\n'
            B['Node Set 1'] = 'one.txt'
        if sets == 'renamed':
            B['Left Node Set'] = B.pop('Node Set 1')
            B['pull']['Node Set'] = 'Left Node Set'
        if blocks == 'default':
            e['Blocks']['right'] = dict(e['Blocks']['right'], **{'Block Names': 'Default'})
        if blocks == 'renamed':
            e['Blocks'] = {'zzz': e['Blocks']['left'], 'aaa': e['Blocks']['right']}
        if order:
            e = reorder(e, order)
        return e, files, 'in.' + notation, None
    return variant


def moduli(name):
    """Every pair of elastic constants for one material."""
    def fn(wd):
        d, P = P03.setup('full', 'one', name)
        M = next(iter(d['Materials'].values()))
        pairs = constants(M.pop('Bulk Modulus'), M.pop('Shear Modulus'))
        rest, out, first = dict(M), [], None
        for i, q in enumerate(pairs):
            M.clear()
            M.update(rest, **q)
            r = simulate(os.path.join(wd, str(i)), d, P, 1)
            first = first or r
            z = differ(r, first, 1e-9)
            if z or not r.ok:
                out.append('%s in place of bulk and shear modulus: %s' % (' and '.join(q), z or r))
        return out, len(pairs), 'same'
    return fn


def listed(split):
    """Three blocks of one kind in one entry or in several."""
    def fn(wd):
        P = P03.blocks(P03.body('brick'), 'three')
        d = base()
        names = {'together': ['block_1 block_2 block_3'], 'two': ['block_1 block_3', 'block_2'], 'apart': ['block_1', 'block_2', 'block_3'], 'default': ['Default'], 'rest': ['block_2', 'Default'], 'order': ['block_3 block_1 block_2']}
        res = {}
        d['Boundary Conditions'] = P03.bcs(len(P))
        for k in ('apart', split):
            d['Blocks'] = {'B%d' % i: {'Block Names': n, 'Material': 'M', 'Horizon': 1.9} for i, n in enumerate(names[k])}
            res[k] = simulate(os.path.join(wd, k), d, P, 1)
        q = differ(res[split], res['apart'], 1e-12) if res['apart'].ok else 'run failed: %s' % res['apart']
        return ([q + (': %s' % res[split] if not res[split].ok else '')] if q else []), 2, split
    return fn


def check():
    c = Check('P27')
    build('Peridigm', 'exodump')
    sw = Sweep(c)
    with Scratch() as sc:
        for np_ in (1, 2, 3):
            d, P = deck()
            r = simulate(os.path.join(sc.path, 'ref%d' % np_), d, P, np_)
            if not r.ok or len(r.T) != 5:
                c.fail('accepted/np%d' % np_, 'the valid input is not accepted: %s' % r, {})
            REF[np_] = r
    for np_ in (1, 2, 3) if THOROUGH else (1, 3):
        for k, ch in WRONG.items():
            sw.add('refused/%s/np%d' % (k, np_), refused(np_, ch))
        for k, f in MESH.items():
            sw.add('refused/%s/np%d' % (k, np_), refused(np_, lines=f))
        for k, f in TEXT.items():
            sw.add('refused/%s/np%d' % (k, np_), refused(np_, text=f))
        for k, f in XML.items():
            sw.add('refused/%s/np%d' % (k, np_), refused(np_, xmltext=f))
    for name, (M, _, _, _) in MATERIALS.items():
        sw.add('material/%s/valid' % name, alone(name, None))
        more = ['Bulk Modulus', 'Shear Modulus', "Young's Modulus", "Poisson's Ratio", 'Thermal Expansion Coefficient', 'Apply Automatic Differentiation Jacobian', 'Apply Shear Correction Factor']
        for what in ['-' + k for k in M] + ['~' + k for k in M] + ['+' + k for k in more if k not in M]:
            if what not in OPTIONAL.get(name, ()):
                sw.add('material/%s/%s' % (name, what), alone(name, what))
    for t in itertools.product(('yaml', 'xml'), (None, 'reverse', 'sorted', 'rotate'), MESHES, (False, True), ('plain', 'file', 'renamed'), ('plain', 'default', 'renamed')):
        if THOROUGH or sum(1 for x, y in zip(t[1:], (None, 'plain', False, 'plain', 'plain')) if x != y) <= 2:
            for np_ in (1, 3):
                if THOROUGH or np_ == 1 or t[0] == 'xml':
                    sw.add('same/%s/np%d' % ('/'.join(str(x) for x in t), np_), same(product(*t), np_))
    for mat, K, G in (('steel', 10.0, 6.0), ('foam', 8.0, 3.0)):
        for q in constants(K, G):
            for n in ('yaml', 'xml'):
                sw.add('constants/%s/%s/%s' % (mat, '+'.join(sorted(q)), n), same(lambda d, P, a=(mat, K, G, q), n=n: (with_constants(d, *a), None, 'in.' + n, None), 1, 1e-9))
    for name in MATERIALS:
        if name != 'bond-based':
            sw.add('moduli/%s' % name, moduli(name))
    for s in ('together', 'two', 'default', 'rest', 'order'):
        sw.add('listed/%s' % s, listed(s))
    sw.go()
    c.bounds = {'single faults': len(WRONG) + len(MESH) + len(TEXT) + len(XML), 'processes': '1 to 3', 'rewritings': 'notation with every pair of changes of order, mesh text, function text, node sets and block names', 'elastic constants': 'all six pairs for every material'}
    c.assumptions = ['The rewritten inputs are compared with relative tolerance 1e-12, with other elastic constants 1e-9.',
                     'Not judged: parameters no part of the program knows, node sets naming absent points, omitted coordinates (x is meant), absent lists of solvers or output variables, negative densities and horizons.']
    return c.finish()


if __name__ == '__main__':
    main(check)
