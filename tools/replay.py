#!/usr/bin/env python3
"""replay.py <file written by check.py>: executes the rejected scenario once more on the code in /repo as it is now and has
TLC validate it.  Exit 1 if it is (still) rejected, 0 if it is accepted."""
import json, os, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, runner


class Recorded:
    def __init__(self, x):
        self.name, self.ops = x['scenario'], [tuple(o) for o in x['ops']]


def main():
    x = json.load(open(sys.argv[1]))
    tmp = tempfile.mkdtemp(prefix='vr')
    try:
        build.core()
        t = runner.record([Recorded(x)])[0]
        f = os.path.join(tmp, 't.ndjson')
        runner.write_trace(f, [t])
        st, pos, msgs = runner.validate_file(x['module'], f)
        print('%s: %s' % (x['scenario'], st))
        if st == runner.REJECT:
            for n, (line, _, proc) in enumerate(x['ops']):
                print('  %-8s %s' % (proc, line[:160]))
            print('event %d: %s' % (pos, json.dumps(t[pos])[:1500] if pos < len(t) else 'the trace is too short'))
            print('\n'.join(msgs[:4]))
        return int(st == runner.REJECT)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
