#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property by static analysis of /repo's current sources.
exit 0: holds on everything analysed; 1: violation; 2: no answer (the analysis itself failed)."""
import sys, os, json, time, argparse, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
def main():
    ap = argparse.ArgumentParser(); ap.add_argument('id'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough']); ap.add_argument('-v', action='store_true')
    a = ap.parse_args(); t0 = time.time()
    import threading
    import rules
    from report import Res, ToolError
    fn, technique, expl = rules.TABLE[a.id]
    res = Res(a.id)
    known = {}
    for ln in open(os.path.join(HERE, 'known-findings.txt')):
        if ln.startswith('finding: property=%s ' % a.id):
            _, _, rest = ln.strip().partition('property=%s ' % a.id)
            key, _, text = rest.partition(' :: '); known[key.strip()] = text.strip()
    err = []
    def run():
        try: fn(res, a.tier)
        except Exception as e: err.append((e, traceback.format_exc()))
    threading.stack_size(512 << 20)
    t = threading.Thread(target=run); t.start(); t.join()
    ev = os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence')); os.makedirs(os.path.join(ev, 'replay'), exist_ok=True)
    cov = {'explanation': expl, 'obligations': res.obl, 'discharged': res.dis, 'rules': res.rules, 'samples': res.samples[:12]}
    cov.update(res.cov)
    new = [(k_, v) for k_, v in res.bad.items() if k_ not in known]
    old = [(k_, v) for k_, v in res.bad.items() if k_ in known]
    cov['known_findings'] = len(old); cov['violations'] = len(new)
    if err: cov['no_answer'] = str(err[0][0])
    json.dump({'property': a.id, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov, 'wall_s': round(time.time() - t0, 2)},
              open(os.path.join(ev, a.id + '.json'), 'w'), indent=1, default=str)
    for n, r in res.rules.items(): print('%s %s: %d obligations, %d discharged' % (a.id, n, r['obligations'], r['discharged']))
    for k_, (where, msg) in old: print('KNOWN-FINDING: property=%s %s (%s: %s)' % (a.id, known[k_], where, msg))
    for i, (k_, (where, msg)) in enumerate(new):
        p = os.path.join(ev, 'replay', '%s-%d.txt' % (a.id, i))
        open(p, 'w').write('property: %s\nwhere: %s\nwhat: %s\nkey: %s\nreproduce: /verif/check.py %s\n' % (a.id, where, msg, k_, a.id))
        print('%s: %s  [%s]' % (where, msg, k_)); print('VIOLATION property=%s replay=%s' % (a.id, p))
    if new: return 1
    if err:
        print('no answer: %s' % err[0][0], file=sys.stderr)
        if not isinstance(err[0][0], ToolError): print(err[0][1], file=sys.stderr)
        return 2
    print('%s: holds on everything analysed (%.1fs)' % (a.id, time.time() - t0))
    return 0
sys.exit(main())
