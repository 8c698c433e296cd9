#!/usr/bin/env python3-vt
"""check.py <PROPERTY> [--tier quick|thorough]: decide one property from /repo's current source."""
import argparse
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(12000)


def read_known():
    """known_findings.txt: 'known: property=<id> key=<rule|construct> :: <what fails>' and 'fixed: ...' lines."""
    out = []
    kf = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(kf):
        with open(kf) as fp:
            for line in fp:
                if line.startswith('known: property='):
                    head, what = line[len('known: '):].split(' :: ', 1)
                    pid, key = head.split(' key=', 1)
                    out.append({'property': pid.split('=')[1], 'key': key.strip(), 'status': 'known',
                                'what': what.strip()})
    return out


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    from sa.report import Report
    mod = importlib.import_module(f'props.{a.prop.lower()}')
    rep = Report(a.prop, a.tier if a.tier in ('quick', 'thorough') else 'quick')
    mod.run(rep)
    known = read_known()
    return rep.finish(getattr(mod, 'LEVEL', 'other'), mod.EXPLANATION, known)


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []

    def go():
        try:
            rc.append(main())
        except SystemExit as e:
            rc.append(e.code)
        except BaseException:
            import traceback
            traceback.print_exc()
            rc.append(3)
    th = threading.Thread(target=go)
    th.start()
    th.join()
    sys.exit(rc[0] if rc else 3)
