"""Writes MANIFEST.json from the table of implemented checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC, EX, FE = 'model_checking', 'exploration', 'fault_enumeration'
CHECKS = {
    'C01': (MC, 'explicit-state breadth-first exploration of the real objects, every step against a link-set model',
            'For each association and pool the reachable heaps are explored to the fixpoint, so all histories on the pool are covered. '
            'Trusts that objects depend only on the heap reachable from them; pools of 2-5 objects.'),
    'C02': (MC, 'explicit-state breadth-first exploration of the real objects, every step against a link-set model',
            'As C01, for one-to-one associations; every space closes.'),
    'C03': (MC, 'explicit-state breadth-first exploration of the real objects, every step against a link-set model',
            'As C01, for many-to-many associations; 2x2 pools close, larger pools to a depth.'),
    'C04': (MC, 'exhaustive operation histories on the real objects, every feature compared with a reference model after every operation',
            'Every class, every feature, every ordered pair of features on an empty and on a full background. Interference that needs '
            'three particular features at once is only met when it shows on one of the two backgrounds.'),
    'C05': (MC, 'exhaustive enumeration of constructor keyword subsets on the real classes, lock-step against default construction plus assignment',
            'Every class: no argument, every single feature with every value kind, every pair, all together. Larger subsets are covered '
            'only by the full set.'),
    'C06': (MC, 'exhaustive enumeration of classes and features, real classes and instances against the committed information model',
            'The space is finite and covered completely. Trusts spec/metamodel.json (derived from the Ecore models, hand-written '
            'extensions reviewed).'),
    'C07': (MC, 'exhaustive enumeration of all package map entries, import and read through each',
            'The space is finite and covered completely.'),
    'C08': (MC, 'exhaustive enumeration of import orders up to a bound, each in a forked fresh interpreter',
            'Every module first; every package followed by all of its model in two orders; all pairs of models. Thorough: all ordered '
            'pairs of packages and of modules within profiles.'),
    'C09': (MC, 'explicit-state breadth-first exploration of the real objects, every step against a reference model',
            'Closed spaces for the pools; larger pools in the thorough tier.'),
    'C10': (MC, 'exhaustive enumeration of statement and object orders, the real reader against an independent reference model',
            'Every class with its partners: all rotations and statement orders; networks in all permutations. Trusts the reference '
            'reader (mc/rdf.py), which agrees on the sample files.'),
    'C11': (MC, 'exhaustive enumeration of stream cuts, source kinds, encodings and spellings under a controlled stream',
            'Every one- and two-point cut of a small document, every read size, the 64 KiB boundary on every byte, the full product of '
            'spelling options.'),
    'C12': (MC, 'exhaustive insertion of foreign content at every position of documents, the real reader against the reference model',
            'Each junk form at each position, pairs of them, and every class for the unknown-property cases.'),
    'C13': (MC, 'exhaustive enumeration of literals over every attribute of every class, the real reader against the reference value',
            'Short strings over a tricky alphabet, numerals to a length, all spellings of booleans, every attribute.'),
    'C14': (MC, 'exhaustive operation histories (read, extend, mutate, write), each step against a reference model',
            'All histories over 17 operations to the bound; every class in parts.'),
    'C15': (MC, 'exhaustive enumeration of namespace declarations, overrides and version sequences, the real reader against the reference model',
            'Five namespaces, twelve prefixes, every declaration order with up to two other namespaces; the map of every profile under '
            'every namespace.'),
    'C16': (MC, 'stateless exploration of thread interleavings of the real code under a controlled scheduler with a preemption bound',
            'One preemption at every line for nine pairs of operations, two for one pair, up to three at stream calls; first-time imports '
            'included. Switches inside imports and C code are not explored.'),
    'C17': (MC, 'exhaustive enumeration of cut points and fault points of the input under a controlled stream',
            'Every prefix in seven spellings, every cut of each single pass, a fault at every read for every read size.'),
    'C18': (MC, 'exhaustive enumeration of small models (classes, values, link sets), round trip on the real code',
            'Every class, every attribute value of a list, every reference, every admissible link set on 2x2 objects per association.'),
    'C19': (MC, 'exhaustive enumeration of strings over a token alphabet and of all XML characters, round trip on the real code',
            'All sequences of 35 tokens up to length 3 (4 in the thorough tier) and every XML character, as values and identifiers.'),
    'C20': (MC, 'exhaustive enumeration of small models and write histories, the parsed output against the statements of the model',
            'Every class, value, reference and subset of partners; histories of three operations.'),
    'C21': (MC, 'exhaustive enumeration of call sequences up to a bound, the parsed output against a reference tree',
            'All sequences of 20 calls up to length 4 and of 14 calls up to length 6 (5 and 7 in the thorough tier).'),
    'C22': (MC, 'exhaustive enumeration of characters, words and encodings, the bytes decoded as declared against the input',
            'Thirteen encodings; every character of the basic plane in each.'),
    'C23': (MC, 'exhaustive enumeration of small trees with all white-space patterns, the result against the input tree',
            'All ordered trees of up to five elements (six in the thorough tier) with choices of text and tail; all classes; sample data.'),
    'C24': (MC, 'exhaustive fault injection at every call of the output and at every file size',
            'Every write and flush, ten kinds of error, transient, lasting and partial; a file size limit at every byte.'),
    'C25': (MC, 'exhaustive enumeration of unknown content in small documents and of read histories, the captured log against what was left out',
            'Combinations of up to three pieces (four in the thorough tier), every class, every reference. The wording of reports is free.'),
    'C26': (MC, 'exhaustive enumeration of operation histories and failure points on paths and streams, the open files of the process observed',
            'Every cut of the document, a failure at every object, all histories of four operations (five in the thorough tier).'),
    'C27': (MC, 'exhaustive enumeration of a list of process configurations, the results in fresh processes compared',
            '112 configurations, one dimension at a time. The hash seeds listed stand for all.'),
    'C28': (MC, 'exhaustive enumeration of documents by sequences of kinds of content and of operations, the memory in use observed at every read of the stream',
            'Python code accounted by tracemalloc; bounds with a fixed allowance'),
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        lv, tech, note = CHECKS[i]
        checks.append({'property': i, 'quick_cmd': './check %s' % i,
                       'thorough_cmd': 'VERIF_TIER=thorough ./check %s' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': tech, 'level': lv, 'level_note': note})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'its check is not built yet')})
m = {'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': na,
     'hooks': {'guard': 'none', 'enable': 'No hooks: the checks drive the public API of the unmodified tree; '
               'schedules and faults are injected from outside (sys.settrace, stream objects).', 'source_commits': []},
     'notes': 'Every check imports the code from /repo (no build, no bytecode) and needs only /opt/venv/bin/python.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
