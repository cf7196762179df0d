"""Answers DFS cases (one JSON document per line) with the names of the
features, in order: run in processes with different string hashing."""
import json
import sys


def main():
    from pbt import env
    env.init()
    from pbt import dfsgen
    from pbt.core import Skip
    sys.stdout.write('ready\n')
    sys.stdout.flush()
    for line in sys.stdin:
        try:
            out = [f.unique_name() for f in dfsgen.synth(json.loads(line))]
        except Skip:
            out = None
        except Exception as e:
            out = 'error %s %s' % (type(e).__name__, e)
        sys.stdout.write(json.dumps(out) + '\n')
        sys.stdout.flush()


if __name__ == '__main__':
    main()
