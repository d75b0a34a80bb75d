"""Linearizability of a concurrent history against the reference model (Wing & Gong, with memoisation)."""
from sim.core import agree, model_op

OK, LOST = 'ok', 'lost'   # LOST: raised or cut off by a crash: applied at once or not at all


class Entry(object):
    __slots__ = ('client', 'op', 'inv', 'ret', 'res', 'kind')

    def __init__(self, client, op, inv):
        self.client = client
        self.op = op
        self.inv = inv
        self.ret = float('inf')
        self.res = None
        self.kind = LOST


def search(entries, init, final, limit=200000):
    """Is there a sequential order that explains all results and whose end state satisfies final(model)?

    Returns (True, order) or (False, reason) or (None, reason) when the limit is reached."""
    n = len(entries)
    full = (1 << n) - 1
    seen = set()
    best = [0, None]
    stack = [(0, init, ())]
    steps = 0
    while stack:
        done, m, order = stack.pop()
        if done == full:
            bad = final(m)
            if bad is None:
                return True, order
            best = [n + 1, 'final state: %s' % bad]
            continue
        sig = (done, m.signature())
        if sig in seen:
            continue
        seen.add(sig)
        steps += 1
        if steps > limit:
            return None, 'search limit'
        first_ret = min(e.ret for i, e in enumerate(entries) if not done >> i & 1)
        for i in range(n - 1, -1, -1):
            e = entries[i]
            if done >> i & 1 or e.inv > first_ret:
                continue
            if e.kind == LOST:
                stack.append((done | 1 << i, m, order))
            m2 = m.copy()
            want = model_op(m2, e.op)
            if e.kind == OK and e.res is not None:
                bad = agree(e.op, e.res, want)
                if bad:
                    k = bin(done).count('1')
                    if k >= best[0]:
                        best = [k, 'after %d operations: %s' % (k, bad)]
                    continue
            stack.append((done | 1 << i, m2, order + (i,)))
    return False, best[1]
