#!/usr/bin/env python3
"""setup_cmd: nothing to install; builds every harness once so that compiler problems show early."""
import concurrent.futures, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import buildsys
from spec import PROPS, HARNESS
todo = sorted({(r['h'], r['flavor']) for s in PROPS.values() for r in s['runs']})


def one(k):
    t = time.time()
    try:
        print(k, buildsys.build(k[0], k[1], HARNESS[k[0]]), '%.1fs' % (time.time() - t), flush=True)
    except buildsys.BuildError as e:
        print(k, 'BUILD-ERROR', e, flush=True)


with concurrent.futures.ThreadPoolExecutor(max_workers=4) as ex:
    list(ex.map(one, todo))
