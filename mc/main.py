"""check <property> | check --replay <file>"""
import importlib
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core

MODULES = {
    'C01': 'p_assoc', 'C02': 'p_assoc', 'C03': 'p_assoc', 'C09': 'p_views',
    'C04': 'p_frame', 'C05': 'p_ctor', 'C06': 'p_meta', 'C07': 'p_meta', 'C08': 'p_import',
    'C10': 'p_order', 'C11': 'p_delivery', 'C12': 'p_junk', 'C13': 'p_literal', 'C14': 'p_history',
    'C15': 'p_version', 'C16': 'p_threads', 'C17': 'p_trunc', 'C18': 'p_roundtrip', 'C19': 'p_strings',
    'C20': 'p_write', 'C21': 'p_xmlwriter', 'C22': 'p_encoding', 'C23': 'p_pretty', 'C24': 'p_outfault',
    'C25': 'p_report', 'C26': 'p_files', 'C27': 'p_process', 'C28': 'p_memory',
}


def main(argv):
    if argv[:1] == ['--replay']:
        data = json.load(open(argv[1]))
        core.setup()
        print(data['message'])
        importlib.import_module(MODULES[data['property']]).replay(data['property'], data['replay'])
        return 0
    prop = argv[0]
    if len(argv) > 1:
        core.TIER = argv[1]
    t0 = time.time()
    core.setup()
    res, kw = importlib.import_module(MODULES[prop]).run(prop)
    return core.finish(prop, kw.pop('level'), res, t0, kw.pop('rule'), kw.pop('assumptions', ()), **kw)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
