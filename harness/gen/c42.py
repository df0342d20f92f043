from cvstep import *
# The same for quadratures, sensitivities and quadrature sensitivities
T = STEP
SIM, STG, STG1 = 1, 2, 3
CFG = [('q', (1, 0, 0)), ('sim', (0, SIM, 0)), ('stg', (0, STG, 0)), ('stg1', (0, STG1, 0)), ('qsim', (1, SIM, 1)), ('qstg', (1, STG, 1)), ('qstg1', (1, STG1, 1))]
for lmm, qs in (('BDF', (2, 4)), ('ADAMS', (2, 5))):
    for cn, (qu, se, qq) in CFG:
        for err in (0, 1):
            feat = '%d, %d, %d, %d' % (qu, se, qq, err)
            for q in qs:
                n = '%s%d_%s%d' % (lmm.lower(), q, cn, err)
                T += entry('h_%s_order' % n, lmm, q, 1, 1, 1, feat, 2, pre='vary = %d; kind = %d;' % (3 if not err else 2, err))
                if q == qs[0]:
                    T += entry('h_%s_retry' % n, lmm, q, 3, -1, 1, feat, 1, pre='kind = %d; nbadt = vp_int(0, %d); bad = vp_int(0, 4); unsolved = vp_int(0, 2);' % (1 - err, 3 * err))
                    T += entry('h_%s_rec' % n, lmm, q, 2, 1, 1, feat, 1, pre='rf[vp_int(0, 3)] = vp_int(1, 2);')
                elif err:
                    T += entry('h_%s_retry' % n, lmm, q + (lmm == 'ADAMS'), 3, 1, 1, feat, 1, pre='nbadt = vp_int(0, 3); bad = vp_int(0, 1); unsolved = vp_int(0, 1);')


def generate(tier):
    return {'c42.c': T}
