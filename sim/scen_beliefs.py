"""C11: beliefs and their facts, in histories with crashes, restarts, failing operations, batches and concurrent clients."""
from sim import core, scen_history, scen_concurrent
from sim.gen import Gen, pool_for
from sim.values import lst, tup, key


def gen(rng, prop, tier, i):
    if rng.random() < 0.3:
        plan = scen_concurrent.gen(rng, 'C11', tier, i)
        return plan
    only = rng.random() < 0.75
    pool = pool_for(rng, nasty=rng.random() < 0.4, nedges=rng.randint(1, 5), maxlen=4)
    writes = ('belief', 'beliefm', 'unbelief', 'batch') if only else None
    g = Gen(rng, pool, writes=writes, reads=('sources', 'exists', 'pat'))
    if rng.random() < 0.2:
        # sources that are edges or numbers, or that occur in the facts themselves
        g.sources = g.sources + [lst(pool.edge()), 7, 7.0, pool.symbols[0]]
    big = 2 if tier == 'thorough' and rng.random() < 0.4 else 1
    n = rng.choice((4, 8, 14, 22)) * big
    trouble = rng.choice((0, 0.1, 0.3, 0.5))
    clients = rng.choice((1, 1, 2, 3))
    ops = []
    for op in g.history(n, reads=0.25):
        x = rng.random()
        if x < 0.04:
            ops.append(['reopen'])
        elif x < 0.09:
            ops.append(['crash', rng.choice(('kill', 'power', 'power_none'))])
        elif x < 0.15:
            ops.append(['check'])
        if core.writes(op) and rng.random() < trouble:
            ops.append(['fault', scen_history.gen_fault(rng), op])
        else:
            if op[0] == 'batch' and rng.random() < 0.25:
                op[1].insert(rng.randrange(len(op[1]) + 1), ['raise'])
            ops.append(op)
        if clients > 1:
            ops.append(['use', rng.randrange(clients)])
    return dict(type='history', ops=ops, clients_n=clients, beliefs_only=only)


def run(plan, ctx, prop):
    if plan['type'] == 'concurrent':
        return scen_concurrent.run(plan, ctx, prop)
    return scen_history.run(plan, ctx, prop)
