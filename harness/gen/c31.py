import c30


def generate(tier):
    out = {}
    for k in ('pthreads', 'many'):
        out.update(c30.generate(tier, k))
    return out
