"""Writes MANIFEST.json from properties.jsonl, the check modules present and the
table below (development tool)."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python -B run.py '
TECH = {
    'C01': 'runtime monitoring: recorded send/flush histories replayed against an event-log model; files re-read after each flush',
    'C02': 'runtime monitoring: recorded row histories against an event-log model, file parsed after each flush',
    'C03': 'runtime monitoring: round-trip monitor over random geometries and overwrite histories',
    'C04': 'runtime monitoring: offline checker of the saved files against a per-iteration event log of the running simulation',
    'C05': 'runtime monitoring: generated spec/config pairs against an independent verdict table',
    'C06': 'runtime monitoring: state monitors (cwd, warnings, calls) around generated block/exception histories, modules and signatures',
    'C07': 'runtime monitoring: recorder simulations in generated module directories driven through the real command line',
    'C08': 'runtime monitoring: shadow model (flat list of cell/item pairs) over random insertion/query histories',
    'C09': 'runtime monitoring: shadow tree after every edit, evaluation-order log of updates',
    'C10': 'runtime monitoring: event log of exit conditions and updates checked against a trace specification',
    'C11': 'runtime monitoring: queue histories of in-process and real child processes with injected stops and faults',
    'C12': 'runtime monitoring: field-by-field comparison of records with attributes, aliasing probes and state snapshots around refused assignments',
    'C13': 'runtime monitoring: bounds, ratio and inertia monitors on generated agents plus Kolmogorov-Smirnov monitors on accumulated draws',
    'C14': 'runtime monitoring: log of offered positions and an all-pairs overlap oracle after every group placement',
    'C15': 'runtime monitoring: logging attribute sources compared with the members built, over all description orders',
    'C16': 'runtime monitoring: algebraic-law monitors on generated vectors with argument snapshots',
    'C17': 'runtime monitoring: exact-geometry oracle and metamorphic monitors (swap, rigid motion) on generated bodies',
    'C18': 'runtime monitoring: exact rational geometry oracle on generated polygons and segments, edge multiset monitors',
    'C19': 'runtime monitoring: definition oracle (brute force) on generated crowds, doors and walls',
    'C20': 'runtime monitoring: finite-difference energy-gradient oracle on generated agent pairs',
    'C21': 'runtime monitoring: brute-force all-pairs oracle and metamorphic monitors on generated crowds',
    'C22': 'runtime monitoring: per-wall contact-law oracle and write-set monitors on generated agents and walls',
    'C23': 'runtime monitoring: closed-form oracle and write-set monitors on generated agents',
    'C24': 'runtime monitoring: closed-form scheme oracle and write-set monitors over integrated trajectories',
    'C25': 'runtime monitoring: bound, symmetry and distribution monitors on accumulated draws',
    'C26': 'runtime monitoring: containment and proportional-allocation monitors on accumulated samples',
    'C27': 'runtime monitoring: grid-graph distance oracle and followed trajectories on generated fields',
    'C28': 'runtime monitoring: per-agent expected-direction oracle around executed navigation steps',
    'C29': 'runtime monitoring: brute-force neighbour and leader oracle on generated crowds',
    'C30': 'runtime monitoring: per-iteration event log of positions against accounting model',
    'C31': 'runtime monitoring: conservation monitors and counting oracle on generated point sets',
    'C32': 'runtime monitoring: generated trait classes against an independent translation table, driven through click and numpy',
    'C33': 'runtime monitoring: recorded glyph calls of a recording plotting stand-in against the state plotted',
    'C34': 'runtime monitoring: histories of field changes and queries against fresh fields and a geometric oracle',
    'C35': 'runtime monitoring: NaN, index and write-set sanitizers wrapped around every logic node of assembled simulations',
    'C36': 'runtime monitoring: metamorphic and invariant monitors over whole simulations (moved, turned, mirrored, renumbered and separated scenes; walls; arrival)',
    'C37': 'runtime monitoring: geometry and agents read back from live example scenes against their parameters, reachability by flood fill',
}
NOTE = ('Held on the generated executions listed in the evidence file; nothing '
        'is claimed about inputs not generated. Numba kernels are executed '
        'interpreted, and libraries that are not installed here (numba, '
        'shapely, scipy, skfmm, cell_lists, skimage, matplotlib, bokeh) are '
        'stand-ins written for this work and validated separately.')
NOT_YET = 'no check registered yet'
NA = {}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i not in NA and os.path.exists(os.path.join(
                HERE, 'checks', i.lower() + '.py')):
            checks.append(dict(
                property=i, quick_cmd=PY + i,
                thorough_cmd=PY + i + ' --tier thorough',
                evidence_file='evidence/%s.json' % i, technique=TECH[i],
                level='exploration', level_note=NOTE))
        else:
            na.append(dict(property=i, reason=NA.get(i, NOT_YET)))
    m = dict(version=1, setup_cmd='/opt/venv/bin/python -B tools/setup.py',
             checks=checks, not_applicable=na,
             notes='No hooks were added to /repo: monitors attach through '
                   'public interfaces and by wrapping functions at run time.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fp:
        json.dump(m, fp, indent=1)
        fp.write('\n')
    try:
        import jsonschema
        jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    except ImportError:
        pass
    print(len(checks), 'checks', len(na), 'not claimed')


main()
