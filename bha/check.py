"""python3 -m bha.check <ID>: decides one property on /repo's current sources."""
import importlib
import json
import os
import sys
import time
import traceback

from . import prog, rule

MODS = ['rules_root', 'rules_async', 'rules_format', 'rules_pattern', 'rules_views', 'rules_json', 'rules_tskv', 'rules_sink', 'rules_config', 'rules_node', 'rules_time', 'rules_facade', 'rules_access', 'rules_attr', 'rules_misc']


def load_rules():
    here = os.path.dirname(os.path.abspath(__file__))
    for m in MODS:
        if os.path.exists(os.path.join(here, m + '.py')):
            importlib.import_module('bha.' + m)


def findings():
    """known-findings.txt: 'finding: property=<id> ident=<violation identity> # what' suppresses exactly that
    violation; 'fixed:' lines are records only."""
    out = {}
    path = os.path.join(prog.VERIF, 'known-findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.rstrip('\n')
                if line.startswith('finding: '):
                    head, _, ident = line[len('finding: '):].partition(' ident=')
                    pid = head.split('property=')[1].split()[0]
                    ident, _, what = ident.partition(' # ')
                    out.setdefault(pid, {})[ident.strip()] = what or ident
    return out


def main(argv):
    if len(argv) < 1:
        print('usage: python3 -m bha.check <ID>|all')
        return 2
    load_rules()
    ids = sorted(rule.PROPS) if argv[0] == 'all' else argv
    t0 = time.time()
    p = prog.load()
    rc = 0
    for pid in ids:
        r = one(p, pid, t0 if len(ids) == 1 else time.time())
        rc = max(rc, r)
    return rc


def one(p, pid, t0):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    if pid not in rule.PROPS:
        print('unknown property ' + pid)
        return 2
    c = rule.Ctx(p, pid, tier)
    fn = rule.PROPS[pid]
    try:
        fn(c)
        if not c.obligations:
            raise prog.AnalysisError('no obligation was generated')
    except Exception as e:
        # a violation found before the analysis got stuck is still a violation
        if not c.violations:
            print('ERROR property=%s %s' % (pid, e))
            if not isinstance(e, prog.AnalysisError):
                traceback.print_exc()
            return 2
        c.notes.append('analysis stopped early: %s' % e)
    known = findings().get(pid, {})
    new = [v for v in c.violations if v.ident() not in known]
    old = [v for v in c.violations if v.ident() in known]
    ob = {r: {'instances': len(v), 'held': sum(1 for _, o in v if o)} for r, v in c.obligations.items()}
    total = sum(x['instances'] for x in ob.values())
    ev = {
        'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': (fn.__doc__ or '').strip() + ' Decided on the type-checked syntax trees and flow graphs that '
                           'clang builds from the current sources; no code of the repository is executed.',
            'rules': ob,
            'obligations': total,
            'entry_points': len(c.entries),
            'functions_traversed': len(c.functions),
            'graph_nodes': c.stats['graph_nodes'],
            'graph_edges': c.stats['graph_edges'],
            'monitor_states': c.stats['product_states'],
            'translation_units': len(p.tus),
            'functions_in_program': len(p.functions),
            'instances': sorted({i for v in c.obligations.values() for i, _ in v})[:60],
            'entries': sorted({p.functions[k]['qnt'] + ' ' + p.loc(p.functions[k]) for k in c.entries if k in p.functions})[:60],
            'positive_examples': c.witness,
            'notes': c.notes,
        },
        'wall_s': round(time.time() - t0, 3),
        'violations': len(new),
    }
    os.makedirs(os.path.join(prog.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(prog.VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    for v in old:
        print('KNOWN-FINDING: property=%s %s' % (pid, known[v.ident()]))
    if new:
        rd = os.path.join(prog.BUILD, 'replay')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, pid + '.json')
        with open(path, 'w') as f:
            json.dump([v.json() for v in new], f, indent=1)
        for v in new[:20]:
            print('%s: %s [%s] %s' % (v.where, v.msg, v.rule, v.instance))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('OK property=%s %d obligations, %d functions, %.1fs' % (pid, total, len(c.functions), time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
