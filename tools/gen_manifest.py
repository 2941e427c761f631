#!/opt/venv/bin/python
"""Writes /verif/MANIFEST.json from the scenario modules that exist and the lists below."""
import importlib, json, os, sys
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.path.insert(0, V)
NA = {
    'P30': 'A cost formula is a pure function of one shape and attribute set; there is no schedule, clock, I/O, crash or history for a simulator to vary, so simulation would add nothing over direct comparison with a formula.',
    'P31': 'A single inference of a single operator is a pure function of its attributes and input shapes; conformance needs a specification of every operator, not a simulated schedule or fault. History and fault behaviour of inference is decided in P09 and P10.',
    'P32': 'Sparsity search is a pure function of one array, with no concurrency, time, I/O or history involved.',
    'P34': 'The truth lives in external published numbers that are not available offline, and the computation is a pure function of a configuration. Order and history independence of it is decided in P20.',
    'P35': 'Argument parsing is a pure function of a string. The behaviour of whole command-line runs under faults is decided in P21.',
}
TECH = 'deterministic simulation with fault injection: seeded search over %s, replayable from seed and minimised plan'
EXTRA = {
    'P01': 'model histories, failed saves and storage behaviour',
    'P02': 'storage faults at every device operation of every writer',
    'P03': 'interruption points and storage faults of every writer, followed by retries',
    'P04': 'histories and storage behaviour before decoding by an independent reader',
    'P05': 'storage faults, crashes and retries of tensor export',
    'P06': 'thread interleavings at source-line granularity and clock behaviour',
    'P07': 'histories of other calls before a probe call compared with a fresh process',
    'P08': 'histories and interruption points with caller-owned arguments',
    'P09': 'inference histories, interruptions and failing operators',
    'P10': 'failure points of inference followed by further calls',
    'P11': 'profile histories, interruptions, clock faults and hash seeds',
    'P12': 'evaluation histories, interruptions and allocation failures',
    'P13': 'edit sequences with refused and interrupted calls',
    'P14': 'rewrite sequences, node arrival orders and save/crash/reload points',
    'P15': 'extraction histories interleaved with edits, inference and faults',
    'P16': 'execution histories inside a simulated memory pool',
    'P17': 'update/recompute/query histories of the shape engine with interruptions',
    'P18': 'request histories of several runtimes and threads with kernel, allocation, line and input faults on a simulated device',
    'P19': 'orders of quantisation calls with refused and failed attempts',
    'P20': 'orders and interleavings of LLM builder programs',
    'P21': 'command-line runs under storage faults, damaged inputs and interruptions',
    'P22': 'decoding, generation and command-line histories of language models with request, kernel, allocation and clock faults against a double-precision transformer',
    'P23': 'user actions, background threads and the event loop of the super-resolution window under a cooperative scheduler with storage, allocation, kernel and line faults',
    'P24': 'chains of file-level tools with storage faults, crashes, interruptions and repetitions, compared stage by stage with fresh processes and a reference execution',
    'P25': 'histories of whole detection evaluations inside one process (storage faults, crashes, interruptions, dying kernels, changing data), each compared with an independent evaluation of the pictures present and with a fresh process',
    'P26': 'histories of inferences, edits, failing saves and file-level calls with storage faults, crashes and interruptions; every completed file is put to the full ONNX checker and compared with a reference execution',
    'P27': 'histories of searches, graph edits, inferences, interrupted searches and refused allocations with pattern objects used again; every answer is compared with a reference matcher and the graph with its state before',
}
def main():
    props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in NA:
            na.append({'property': i, 'reason': NA[i]})
            continue
        f = os.path.join(V, 'dst', 'scen', i.lower() + '.py')
        if not os.path.exists(f) or i in os.environ.get('SKIP', '').split(','):
            na.append({'property': i, 'reason': 'check not built yet'})
            continue
        src = open(f).read()
        level = 'fault_enumeration' if "LEVEL = 'fault_enumeration'" in src else 'exploration'
        m = importlib.import_module('dst.scen.' + i.lower())
        checks.append({'property': i, 'quick_cmd': './check.sh %s quick' % i, 'thorough_cmd': './check.sh %s thorough' % i,
                       'technique': TECH % EXTRA[i], 'level': level, 'level_note': m.LEVEL_NOTE if hasattr(m, 'LEVEL_NOTE') else
                       '%d seeded simulated runs in the quick tier, %d in the thorough tier; %s' % (
                           m.RUNS['quick'], m.RUNS['thorough'], 'sampled, not exhaustive')})
    man = {'version': 1, 'setup_cmd': './setup.sh',
           'hooks': {'guard': 'VERIF_DST', 'enable': 'no hook was needed: every seam is installed from outside (module attributes, settrace, a substituted device), so /repo carries no guarded code', 'source_commits': []},
           'checks': checks, 'not_applicable': na,
           'notes': 'See DESIGN.md. Replay a violation with: python -B -m dst.replay <file> [-v]'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write('\n')
    print(len(checks), 'checks', len(na), 'n/a')
main()
