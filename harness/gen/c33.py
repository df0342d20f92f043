import c32


def generate(tier):
    out = {}
    for k in ('pthreads', 'many'):
        out.update(c32.generate(tier, k))
    return out
