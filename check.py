#!/usr/bin/env python3
"""Decides one property from the source in /repo.  usage: check.py <property id>"""
import importlib, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from engine import kit


def known_findings():
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: '):
                # known: property=<id> key=<key> :: text
                head, _, text = l[7:].partition(' :: ')
                pid = head.split('property=')[1].split()[0]
                key = head.split('key=', 1)[1].strip()
                out.setdefault(pid, []).append((key, text))
    return out


def main():
    pid = sys.argv[1]
    if pid == '--setup':
        kit.exporter()
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    ctx = kit.Ctx(pid)
    ctx.tier = tier
    mod = importlib.import_module('checks.' + pid.lower())
    err = None
    try:
        mod.run(ctx)
    except kit.Rejected as e:
        if e.uses and e.witness in getattr(mod, 'USES', ()):
            for line, text, place, msg in e.uses:
                ctx.ob('use-accepted', '`%s`' % text[:120], False, 'a use the property covers does not type-check: ' + msg[:200],
                       place or '%s:%d' % (e.witness, line), ['%s:%d  %s' % (e.witness, line, text)])
        else:
            err = str(e)
    except kit.Broken as e:
        err = str(e)
    except Exception:
        err = traceback.format_exc()
    known = known_findings().get(pid, [])
    new = []
    for b in ctx.bad:
        m = [t for k, t in known if k in b[0]]
        if m:
            print('KNOWN-FINDING: property=%s %s' % (pid, m[0]))
        else:
            new.append(b)
    EVD = os.environ.get('EVID') or os.path.join(HERE, 'evidence')
    os.makedirs(EVD, exist_ok=True)
    rep = os.path.join(EVD, pid + '.violation.txt')
    if os.path.exists(rep):
        os.unlink(rep)
    cov = {
        'explanation': getattr(mod, 'EXPLAIN', (mod.__doc__ or '').strip()),
        'rules': {r: {'obligations': n, 'violated': v, 'examples': ctx.samples.get(r, [])}
                  for r, (n, v) in sorted(ctx.by_rule.items())},
        'obligations': ctx.obs,
        'paths': ctx.paths,
        'functions_analysed': len(ctx.fns),
        'functions': sorted(ctx.fns)[:200],
        'unmodelled_constructs': ctx.unknown,
        'notes': ctx.notes,
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'other'),
          'coverage': cov, 'wall_s': round(time.time() - ctx.t0, 2),
          'violations': [{'where': b[1], 'what': b[2]} for b in new]}
    if err:
        ev['coverage']['error'] = err
    with open(os.path.join(EVD, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if new:
        with open(rep, 'w') as f:
            for b in new:
                f.write('%s\n    at %s\n' % (b[2], b[1]))
                for l in b[3] or ():
                    f.write('        %s\n' % l)
        for b in new[:20]:
            print('  %s  [%s]' % (b[2], b[1]))
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    if err:
        print(err, file=sys.stderr)
        print('check %s could not decide' % pid, file=sys.stderr)
        return 2
    if ctx.obs == 0:
        print('check %s found nothing to analyse' % pid, file=sys.stderr)
        return 2
    print('%s holds: %d obligations, %d paths, %d functions, %.1fs' % (
        pid, ctx.obs, ctx.paths, len(ctx.fns), time.time() - ctx.t0))
    return 0


sys.exit(main())
