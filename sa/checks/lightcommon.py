from ..lightprof import LightRunner, run_light, WX, WY


def each_light(ctx, methods=('function',)):
    R = LightRunner(ctx.prog)
    names = R.names()
    ctx.need(len(names) > 20, 'registry of light models')
    n = 0
    for name in names:
        r = ctx.guard('light-profile', name, lambda: run_light(R, name, methods=methods))
        if r is None:
            continue
        if 'build' in r.fail:
            ctx.undecided('light-profile', name, r.fail['build'])
            continue
        n += 1
        ctx.functions |= r.functions
        yield r
    ctx.need(n > 20, 'light profiles that can be built')


def has_centre_light(r):
    return any(p in WX for p in r.params) and any(p in WY for p in r.params)
