#!/usr/bin/env python3
"""
Behaviours of the model (HSModel) for the replay in the implementation: TLC draws many (HSWalk), and of these the ones
are kept which reach the most pairs of situation (where all threads are) and step.

  gen_walks.py [--draw N] [--keep K] [CONFIG...]     writes spec/walks.json.gz
"""
import os
import sys
import gzip
import json
import argparse
import tempfile
import concurrent.futures

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'harness'))
import c_model  # noqa
import c_walk   # noqa


def select(walks, keep):
    """Greedily, by what was not covered before."""
    sets = [{(json.dumps(st['w']), st['a'], st['p']) for st in w} for w in walks]
    total = set().union(*sets) if sets else set()
    chosen, seen = [], set()
    gain = {i: len(s) for i, s in enumerate(sets)}
    while len(chosen) < keep and gain:
        # (gains only shrink: recompute that of the best until it stays the best)
        while True:
            i = max(gain, key=gain.get)
            g = len(sets[i] - seen)
            if g == gain[i]:
                break
            gain[i] = g
        if not g:
            break
        chosen.append(i)
        seen |= sets[i]
        del gain[i]
    return chosen, len(seen), len(total)


def one(name, draw, keep):
    with tempfile.TemporaryDirectory() as scratch:
        walks = c_walk.draw(name, draw, 1, scratch, workers=4, timeout=1500)
    chosen, covered, total = select(walks, keep)
    print(f'{name}: {len(walks)} behaviours, {len(chosen)} kept, {covered} of {total} pairs of situation and step', flush=True)
    return [[[st['a'], st['p'], st['x'], int(st['v'])] for st in walks[i]] for i in chosen]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--draw', type=int, default=1500)
    ap.add_argument('--keep', type=int, default=250)
    ap.add_argument('names', nargs='*')
    o = ap.parse_args()
    out = {}
    if o.names and os.path.exists(c_walk.CORPUS):
        out = c_walk.corpus()
    with concurrent.futures.ThreadPoolExecutor(2) as pool:
        names = o.names or list(c_model.CONFIGS)
        for name, ws in zip(names, pool.map(lambda n: one(n, o.draw, o.keep), names)):
            out[name] = ws
    with open(c_walk.CORPUS, 'wb') as f, gzip.GzipFile(fileobj=f, mode='wb', mtime=0) as g:
        g.write(json.dumps(out, separators=(',', ':')).encode())


if __name__ == '__main__':
    main()
