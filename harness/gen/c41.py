from cvstep import *
# Every accepted step satisfies the BDF / Adams formula over the values of the previous steps.
T = STEP
for lmm, Q in (('BDF', 5), ('ADAMS', 7)):
    for q in range(1, Q + 1):
        n, fx = '%s%02d' % (lmm.lower(), q), int(q > 3)
        # two steps with a possible order change between them
        T += entry('h_%s_order' % n, lmm, q, 1, 1, fx, steps=2, pre='vary = 3;')
        # failed attempts of one step
        T += entry('h_%s_retry' % n, lmm, q, 3, -1, fx, pre='kind = 1; bad = vp_int(0, 2); unsolved = vp_int(0, 2);')
        T += entry('h_%s_fail' % n, lmm, q, 3, 1, fx, pre='bad = vp_int(3, 7);')
        T += entry('h_%s_nls' % n, lmm, q, 3, 1, fx, pre='unsolved = 10;')


def generate(tier):
    return {'c41.c': T}
