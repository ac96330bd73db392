"""Scripts of several independent objects, run in every interleaving: each must observe what it observes alone."""


def orders(counts):
    """All distinct orders of counts[i] steps of script i."""
    if not any(counts):
        yield ()
        return
    for i, c in enumerate(counts):
        if c:
            for rest in orders(counts[:i] + (c - 1,) + counts[i + 1:]):
                yield (i,) + rest


def interleave(ctx, case, scripts, fresh=None, expect=None):
    """scripts: functions returning a generator whose yields are the observations of one step each. fresh(): called before each
    run (new event loop, say). expect: required observations of each script alone, if known."""
    alone = []
    for i, s in enumerate(scripts):
        ctx.begin(dict(case, alone=i))
        if fresh:
            fresh()
        alone.append(list(s()))
        if expect is not None:
            ctx.check(alone[i] == expect[i], "alone: %r instead of %r", alone[i], expect[i])
    for order in orders(tuple(len(a) for a in alone)):
        ctx.begin(dict(case, order="".join(map(str, order))))
        if fresh:
            fresh()
        gens, seen = [s() for s in scripts], [[] for _ in scripts]
        for i in order:
            seen[i].append(next(gens[i], "ended"))
            ctx.step()
            k = len(seen[i]) - 1
            ctx.check(seen[i][k] == alone[i][k], "step %d of user %d gives %r instead of %r among others", k, i, seen[i][k], alone[i][k])
        for g in gens:
            g.close()
        ctx.state(ctx.case)
    return alone
