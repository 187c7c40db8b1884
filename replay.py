#!/usr/bin/env python
"""replay.py FILE -- run a recorded counterexample on the unmodified code of /repo.

Exit 1 when the violation reproduces, 0 when the scenario passes on these inputs.
With --batch, FILE holds a list of cases expected to pass; prints the failing ones."""
import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('SYMKJ_REPO', '/repo'))
sys.dont_write_bytecode = True


def run_case(case, quiet=False):
    import kajiki
    import kajiki.i18n
    import kajiki.xml_template
    import kajiki.text
    import kajiki.lnotab
    import kajiki.entities
    from symkj.api import ConcS, Failed
    job = case['job']
    mod = importlib.import_module('props.' + job['module'])
    S = ConcS(kajiki, case['inputs'])
    try:
        getattr(mod, job['func'])(S, **job['params'])
        return None
    except Failed as e:
        return 'violated: %s' % e
    except SystemExit as e:
        return None
    except Exception:
        return 'violated: unexpected exception\n' + traceback.format_exc()
    finally:
        S.close()


def main():
    if sys.argv[1] == '--batch':
        with open(sys.argv[2], encoding='utf-8') as f:
            cases = json.load(f)
        out = []
        devnull = open(os.devnull, 'w')
        real, sys.stdout = sys.stdout, devnull
        for i, c in enumerate(cases):
            r = run_case(c, True)
            if r:
                out.append((i, r))
        sys.stdout = real
        print(json.dumps(out))
        return 0
    with open(sys.argv[1], encoding='utf-8') as f:
        case = json.load(f)
    for earlier in case.get('before') or ():       # the process's history, where it matters
        real, sys.stdout = sys.stdout, open(os.devnull, 'w')
        run_case(earlier)
        sys.stdout = real
    r = run_case(case)
    msg = r or 'passes on these inputs'
    sys.stdout.buffer.write((msg + '\n').encode('utf-8', 'backslashreplace'))
    return 1 if r else 0


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    os._exit(code)
