#!/usr/bin/env python3
"""Derives spec/metamodel.json from the Ecore metamodels in /repo/Model (the
models the class library was generated from) plus the reviewed hand-written
extensions listed below.  The result is committed; checks read only the JSON,
so that neither a change of the Python classes nor one of the Ecore files can
move the oracle.  Run by hand: python3 spec/gen_spec.py [REPO]."""
import glob, json, os, sys
import xml.etree.ElementTree as ET

REPO = sys.argv[1] if len(sys.argv) > 1 else '/repo'
XSI = '{http://www.w3.org/2001/XMLSchema-instance}type'
EC = 'ecore:EDataType http://www.eclipse.org/emf/2002/Ecore#//'
PRIM = {'EString': 'str', 'EFloat': 'float', 'EDouble': 'float', 'EBoolean': 'bool',
        'EInt': 'int', 'ELong': 'int', 'EShort': 'int', 'EDate': 'str'}
JAVA = {'float': 'float', 'int': 'int', 'boolean': 'bool', 'java.lang.String': 'str',
        'java.util.Date': 'str',
        # arbitrary precision integers are carried as their literal by the generator
        'java.math.BigInteger': 'str'}


def load(path):
    root = ET.parse(path).getroot()
    classes, enums, dts = {}, {}, {}

    def walk(p, pre):
        for c in p.findall('eClassifiers'):
            q = pre + '/' + c.get('name')
            t = c.get(XSI)
            if t == 'ecore:EClass':
                classes[q] = c
            elif t == 'ecore:EEnum':
                enums[q] = [l.get('name') for l in c.findall('eLiterals')]
            else:
                dts[q] = c.get('instanceClassName')
        for s in p.findall('eSubpackages'):
            walk(s, pre + '/' + s.get('name'))
    walk(root, '#/')
    return classes, enums, dts


def main():
    pkgs = {}
    for path in sorted(glob.glob(REPO + '/Model/**/*.ecore', recursive=True)):
        rel = os.path.relpath(path, REPO + '/Model')[:-6].split('/')
        if rel[-1] == rel[0]:
            rel = rel[:1]
        root = '.'.join(rel)
        classes, enums, dts = load(path)
        pre = rel[1:]

        def pyname(q):
            parts = q.split('/')[2:]
            if parts[:len(pre)] == pre:
                parts = parts[len(pre):]
            return '.'.join([root] + parts[:-1]) + ':' + parts[-1]
        out = {}
        for q, c in classes.items():
            sup = c.get('eSuperTypes')
            attrs, refs = [], []
            for f in c.findall('eStructuralFeatures'):
                name, t = f.get('name'), f.get('eType')
                if f.get(XSI) == 'ecore:EAttribute':
                    a = {'name': name}
                    if t in enums:
                        a['type'] = 'enum'
                        a['enum'] = t.split('/')[-1]
                        a['literals'] = enums[t]
                        a['default'] = enums[t][0] if enums[t] else ''
                    else:
                        a['type'] = PRIM[t[len(EC):]] if t.startswith(EC) else JAVA[dts[t]]
                        a['default'] = {'str': '', 'int': 0, 'float': 0.0, 'bool': False}[a['type']]
                    attrs.append(a)
                else:
                    if not name.isidentifier():
                        continue    # not reachable from Python
                    r = {'name': name, 'many': f.get('upperBound') == '-1', 'target': pyname(t)}
                    op = f.get('eOpposite')
                    if op:
                        r['opp'] = op.rsplit('/', 1)[1]
                    refs.append(r)
            d = {'attrs': attrs, 'refs': refs}
            if sup:
                d['super'] = pyname(sup)
            if c.get('abstract'):
                d['abstract'] = True
            out[pyname(q)] = d
        pkgs[root] = {'classes': out, 'nsURI': ET.parse(path).getroot().get('nsURI')}
    hand(pkgs)
    for root, p in pkgs.items():
        byname = {}
        for q in p['classes']:
            m, n = q.split(':')
            byname.setdefault(n, []).append(m)
        p['packageMap'] = {n: sorted(ms, key=len)[-1] for n, ms in byname.items()}
    dst = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'metamodel.json')
    with open(dst, 'w') as f:
        f.write('{\n')
        for i, root in enumerate(sorted(pkgs)):
            p = pkgs[root]
            f.write(json.dumps(root) + ': {"nsURI": %s,\n"packageMap": %s,\n"classes": {\n' % (
                json.dumps(p['nsURI']), json.dumps(p['packageMap'], sort_keys=True)))
            f.write(',\n'.join(json.dumps(q) + ': ' + json.dumps(p['classes'][q], sort_keys=True)
                               for q in sorted(p['classes'])))
            f.write('\n}}%s\n' % (',' if i < len(pkgs) - 1 else ''))
        f.write('}\n')


def hand(pkgs):
    """Extensions of the CIM15 classes that were written by hand after the
    generation (reviewed one by one; see DESIGN.md)."""
    c = pkgs['CIM15']['classes']
    W, P, O = 'CIM15.IEC61970.Wires:', 'CIM15.IEC61970.WiresPhaseModel:', 'CIM15.IEC61970.OperationalLimits:'
    core = 'CIM15.IEC61970.Core:'

    def ref(cls, name, many, target, opp=None):
        r = {'name': name, 'many': many, 'target': target, 'hand': True}
        if opp:
            r['opp'] = opp
        c[cls]['refs'].append(r)

    def cls(q, sup, attrs=(), hand=True):
        c[q] = {'attrs': list(attrs), 'refs': [], 'super': sup, 'hand': True}
    fl = lambda n: {'name': n, 'type': 'float', 'default': 0.0}
    kind = [a for a in c['CIM15.IEC61970.WiresPhaseModel:SwitchPhase']['attrs'] if a['name'] == 'phaseSide1'][0]
    cls(P + 'ACLineSegmentPhase', core + 'PowerSystemResource',
        [{'name': 'phase', 'type': 'enum', 'enum': 'SinglePhaseKind', 'literals': kind['literals'],
          'default': None}])
    cls(W + 'CurrentTemperatureCurve', core + 'Curve')
    cls(O + 'CheckPoint', core + 'IdentifiedObject')
    cls(O + 'VoltageCheckPoint', O + 'CheckPoint')
    cls(O + 'VoltageTimeCurve', core + 'Curve')
    c[P + 'EnergyConsumerPhase']['attrs'] += [
        fl('pfixed'), fl('qfixed'),
        {'name': 'phase', 'type': 'enum', 'enum': 'SinglePhaseKind', 'literals': kind['literals'], 'default': None}]
    ref(W + 'ACLineSegment', 'ACLineSegmentPhases', True, P + 'ACLineSegmentPhase', 'ACLineSegment')
    ref(P + 'ACLineSegmentPhase', 'ACLineSegment', False, W + 'ACLineSegment', 'ACLineSegmentPhases')
    ref(W + 'ACLineSegment', 'CurrentTemperatureCurves', True, W + 'CurrentTemperatureCurve', 'ACLineSegments')
    ref(W + 'CurrentTemperatureCurve', 'ACLineSegments', True, W + 'ACLineSegment', 'CurrentTemperatureCurves')
    ref(W + 'TransformerEnd', 'BaseVoltage', False, core + 'BaseVoltage', 'TransformerEnd')
    ref(core + 'BaseVoltage', 'TransformerEnd', True, W + 'TransformerEnd', 'BaseVoltage')
    ref(core + 'Equipment', 'OperationalLimitSet', True, O + 'OperationalLimitSet')
    # every class is identified: as in CIM14 and all profiles, Element is the root
    # (see DESIGN.md: CIM15 compounds could be neither read nor written)
    for q in c:
        if q != 'CIM15:Element' and not c[q].get('super'):
            c[q]['super'] = 'CIM15:Element'
    # one reference, three views: PerLengthImpedance is whichever of the two is set
    ref(W + 'ACLineSegment', 'PerLengthImpedance', False, core + 'IdentifiedObject')
    for r in c[W + 'ACLineSegment']['refs']:
        if r['name'] in ('PhaseImpedance', 'SequenceImpedance', 'PerLengthImpedance'):
            r['view'] = 'PerLengthImpedance'
    ref(O + 'CheckPoint', 'Equipment', False, core + 'Equipment')
    ref(O + 'VoltageCheckPoint', 'LowerLimitsCurve', False, O + 'VoltageTimeCurve')
    ref(O + 'VoltageCheckPoint', 'UpperLimitsCurve', False, O + 'VoltageTimeCurve')
    ref(O + 'VoltageCheckPoint', 'VoltageLimitSet', False, O + 'OperationalLimitSet')


main()
