"""Writes MANIFEST.json from properties.jsonl."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'C01': 'differential runtime oracle: steering answers vs an extended-precision geometry model with rounding-error bounds',
    'C02': 'differential runtime oracle: derivatives vs closed-form and high-order numerical differentiation of observed steering matrices',
    'C03': 'reference-model monitor over imperfection combinations, copies and selections',
    'C04': 'reference-model monitor with recording sensor responses',
    'C05': 'invariant and reference-model monitor on constructed arrays',
    'C06': 'metamorphic and reference-model monitor on source placements',
    'C07': 'structural-invariant monitor against brute-force coarray recounts',
    'C08': 'reference-model monitor on augmented covariances',
    'C09': 'statistical online monitor and exact replay of the random stream',
    'C10': 'reference-model and invariant monitor on grids and refined grids',
    'C11': 'differential runtime oracle with first-order error bounds on whole spectra',
    'C12': 'independent peak-selection oracle on observed spectra, recording peak finders',
    'C13': 'reference trajectory oracle on refinement runs',
    'C14': 'history monitor: stateful call sequences vs fresh objects, argument and random-state fingerprints',
    'C15': 'exact-recovery oracle and reference implementation on noisy covariances',
    'C16': 'optimality monitor: reference objectives at observed estimates, basin-certified recovery',
    'C17': 'optimality-certificate monitor (duality, KKT and independent solvers) on observed solutions',
    'C18': 'differential runtime oracle: full Fisher information by an independent formula',
    'C19': 'differential runtime oracle and perturbation-analysis monitor',
    'C20': 'reference-model monitor, scale metamorphic relations',
    'C21': 'reference-model and metamorphic monitor',
    'C22': 'algebraic-identity monitor with rounding-error bounds',
    'C23': 'recording monitor: drawn artists are read back and compared with the data',
    'C24': 'end-to-end oracle: identification and pooled Monte Carlo statistics',
    'C25': 'fault-sequence monitor: refusals interleaved with valid calls, compared with fresh objects',
}
checks = []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    checks.append({
        'property': i,
        'quick_cmd': 'python3 run.py ' + i,
        'thorough_cmd': 'python3 run.py {0} --tier thorough'.format(i),
        'evidence_file': 'evidence/{0}.json'.format(i),
        'technique': 'runtime monitoring: ' + TECH[i],
        'level': 'exploration',
        'level_note': 'Held on the executions counted in the evidence file (random, seeded, replayable); says nothing about inputs '
                      'outside the generators described in DESIGN.md. Trusts NumPy/SciPy linear algebra and the reference model in '
                      'vlib/ref.py.',
    })
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': [],
     'notes': 'No hooks in /repo are needed: the library is pure Python without threads or hidden sinks, everything the properties '
              'speak about is observable at the API boundary. The code under test is imported from /repo (VERIF_REPO overrides it), '
              'compiled from source on every run.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks')
