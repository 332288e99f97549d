"""Runs one analysis once and prints what it says for every property (a tool for working on the checks).

  python3 tools/parts.py esc|buf|rend ...      exit 0 unless there is a definite finding
"""
import os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'sa'))
import interp  # noqa
import props, runner


def main(parts):
    bad = 0
    for part in parts:
        t = time.time()
        ctx = runner.Ctx()
        rep = runner.Report('ALL', 'quick')
        got = []
        rep.find = got.extend
        if part == 'esc':
            props.esc_part(rep, ctx, 'quick', ('general', 'partition', 'dispatch'))
        elif part == 'buf':
            import bufcheck
            for b, P in ctx.common().items():
                for x in runner.guard(rep, 'buffer', bufcheck.analyse, P) or ():
                    got.extend(x['findings'])
                    if x['undecided'] and not x.get('partition'):
                        rep.undec([('buffer', b, x['fn'], str(x['undecided'][0][0]))])
        elif part == 'rend':
            import rend
            r = runner.guard(rep, 'render', rend.run, None, 300)
            for x in r['records'] if r else ():
                got.extend(x['findings'])
                if x['undecided']:
                    rep.undec([('render', x['build'], x['kind'], str(x['undecided'][0][0]))])
            got.extend(r['findings'] if r else ())
            rep.undec(r['rejected'] if r else ())
            rep.undec([('uncovered', u) for u in r['uncovered']] if r else ())
        seen = set()
        for f in got:
            if f.key() in seen:
                continue
            seen.add(f.key())
            bad += bool(f.definite)
            print('%s %s %s [%s] %s %s' % (part, 'DEFINITE' if f.definite else 'maybe', ','.join(f.props), f.kind, f.where, f.text[:300]))
        und = sorted(set(rep.undecided))
        for u in und[:12]:
            print('%s undecided %s' % (part, u[:400]))
        print('%s: %d obligations, %d findings, %d undecided, %.0f s' % (part, rep.obligations, len(seen), len(und), time.time() - t), flush=True)
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
