#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below (only properties that have a check are claimed)."""
import json, os, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
sys.path.insert(0, 'engine')
from props import PROPS
S = []


def P(id, title, statement, over, text, why, files, mech, observe=None, tech=None, note=None):
    S.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({'observe_at': observe} if observe else {})), tech=tech, note=note))


UN = ['abs', 'acos', 'acosh', 'asin', 'asinh', 'atan', 'atanh', 'cos', 'cosh', 'digamma', 'erf', 'erfc', 'exp', 'inv', 'inv_logit',
      'inv_sqrt', 'inv_square', 'log', 'log_gamma', 'logit', 'sin', 'sinh', 'sqrt', 'square', 'tan', 'tanh']
BI = ['add', 'sub', 'mul', 'div', 'pow', 'hypot']
fs = lambda l: ['src/%s.F90' % x for x in l]
P('C01', 'Every scalar operation returns the value of the function it names',
  'For every supported scalar function and operator, and for every mix of variable and plain-real operands, the value held by the result equals the '
  'named mathematical function of the operand values throughout its domain, including the special operands (0, 1, equal operands, signs) for which the code takes shortcuts. '
  'Applied to an array, each element of the result is the scalar result for that element.',
  ['inputs'], 'all finite double operands in each function\'s domain (both real and variable operand kinds), all branches of each operator',
  'The unit tests evaluate each function at one or a few points; shortcut branches (0, 1, sign changes) are mostly never entered.',
  fs(UN + BI), [('forward evaluation of each operator', 'src/<op>.F90: <op>_v / <op>_vv / <op>_vd / <op>_dv')])
P('C02', 'Every unary function propagates its exact first derivative',
  'For every supported one-argument function f and every point x where f is differentiable, a gradient sweep from any expression containing f(x) contributes '
  'exactly (adjoint of f(x)) * f\'(x) to the adjoint of x, added to whatever x already holds. This holds for any adjoint value, not only 1, and leaves the adjoint and the values of all nodes otherwise unchanged.',
  ['inputs'], 'all operand values in the open domain, all incoming adjoints, all previously accumulated adjoints',
  'Tests differentiate at one point with adjoint 1 and empty accumulators, so wrong factors, wrong signs off that point and overwriting instead of accumulating pass.',
  fs(UN), [('reverse rule of each function', 'src/<op>.F90: chain_<op>')])
P('C03', 'Every binary operation propagates its exact partial derivatives',
  'For +, -, *, /, ** (power) and hypot with any mix of variable and real operands, including an operation applied to the same variable twice, a gradient sweep adds adjoint times the exact partial derivative to each variable operand, for every '
  'operand value at which the partials exist (positive base for powers with a variable exponent) and every adjoint. Neutral and special real operands (0, 1, 2, -1, 0.5 and similar) follow the same rule.',
  ['inputs'], 'all operand values where the partials exist, all adjoints, vv/vd/dv and x op x',
  'Tests use one pair of operands per operator and one adjoint; shortcut constants and repeated operands are not covered.',
  fs(BI), [('reverse rules', 'src/<op>.F90: chain_<op>_vv, _vd, _dv')])
P('C04', 'Applying an operation never changes its operands or any other variable',
  'Evaluating any supported function or operator leaves the value and the later gradient behaviour of its operands and of every other live variable unchanged: whatever was computed before the operation still differentiates to the same result afterwards. '
  'Two operations on the same operands are independent of each other.',
  ['inputs', 'histories'], 'every operator and operand kind, all operand values including the neutral constants, applied after arbitrary earlier use of the operands',
  'No test checks the gradient of an expression after a further operation was applied to its parts; shortcut branches that alias a node are invisible to a test that only looks at the newest result.',
  fs(BI + UN) + ['src/vari.F90'], [('creation of a result node', 'src/vari.F90: new_vari_val*'), ('shortcuts that return an operand', 'src/add.F90, src/mul.F90, src/hypot.F90')])
P('C05', 'A gradient sweep applies the chain rule to every computation graph',
  'For any expression built from the supported operations, with any sharing of subexpressions, a gradient sweep from any node leaves in the adjoint of each node the exact derivative of the swept node with respect to it, visiting each node once after all its uses. '
  'Nodes created after the swept node, and nodes it does not depend on, contribute nothing and keep their zero adjoints.',
  ['programs', 'inputs'], 'all straight-line programs of up to 4 operations over 3 inputs (all operand choices, symbolic), all values; plus one arbitrary reverse step on an arbitrary tape',
  'Tests contain a few fixed expression shapes; sharing, fan-out, unused nodes and sweeping from a middle node are sampled at best once.',
  ['src/var.F90', 'src/vari.F90', 'src/tape.F90'], [('reverse sweep', 'src/var.F90: grad'), ('adjoint accumulation', 'src/vari.F90: set_operand_adj_all')])
P('C06', 'Zeroing adjoints resets them all and makes the next gradient fresh',
  'Zeroing all adjoints sets the adjoint of every live variable to zero and changes nothing else. After it, a gradient of any variable gives the same adjoints as if no gradient had been taken before, for any number of repetitions and any sequence of swept variables.',
  ['histories', 'inputs'], 'all adjoint contents before zeroing, all values, sequences of gradient / zero / gradient on mixed scalar, array and matrix nodes',
  'Tests zero at most once and look at a couple of adjoints; a node class skipped by the zeroing loop or state kept elsewhere is not seen.',
  ['src/vari.F90', 'src/grad.F90'], [('zeroing loop', 'src/vari.F90: set_zero_all_adj')])
P('C07', 'Growing the storage never loses or alters a recorded computation',
  'Values, adjoints, recorded operands and gradients do not depend on how much storage was reserved initially or when it grows: creating any number of variables and operations of any size keeps everything recorded earlier intact, and no access ever leaves the storage. '
  'The result of any program is identical for every initial capacity.',
  ['configurations', 'histories', 'inputs'], 'initial capacities 1, 2 and 4 nodes, growth forced at every point of scalar, array, matrix and data-operand records',
  'The default capacity of 1024 nodes is never exceeded by the small test programs, so the growth code (twice: nodes and records) hardly runs.',
  ['src/vari.F90', 'src/tape.F90', 'src/array_in_tape.F90'], [('node stack growth', 'src/vari.F90: alloc_vari_stack_n'), ('record growth', 'src/tape.F90: alloc_storage')])
P('C08', 'Nested scopes are isolated and fully undone',
  'Between beginning and ending a nested scope, creating variables, nested gradients and nested zeroing touch only variables created in the innermost scope\'s range; ending it restores the outer tape exactly (values, adjoints, sizes, later gradients), and everything recorded afterwards behaves as on a tape where the scope never existed. '
  'Up to ten scopes may be nested; ending without beginning does nothing, and outside any scope the nested operations act on the whole tape.',
  ['histories', 'inputs'], 'nest depths 1..10, any number of nodes inside and outside (bounded), scopes left with a full or an empty tape, re-use of the freed space by every kind of record',
  'Tests open at most two scopes with a handful of nodes and do not examine what later nodes inherit from the freed space.',
  ['src/nested.F90', 'src/var.F90', 'src/vari.F90'], [('nested scope bookkeeping', 'src/nested.F90'), ('nested sweep', 'src/var.F90: grad_nested')])
P('C09', 'gradient() and jacobian() return exact derivatives and leave no trace',
  'gradient(f,x) returns f(x) followed by all partial derivatives, and jacobian(f,n,x) returns row i = f_i(x) followed by its partials, for functions whose outputs share subexpressions, are plain inputs, or themselves call gradient(). '
  'Afterwards every variable of the caller has the value, adjoint and later gradient it had before, whether or not the caller is inside a nested scope (functions referring to the caller\'s variables are excluded).',
  ['inputs', 'histories'], 'all input values, 1..5 inputs, 1..3 outputs, called on a fresh tape, on a used tape, inside a nested scope and recursively',
  'The tests call them on an otherwise unused tape for one function and one point.',
  ['src/grad.F90', 'src/nested.F90'], [('gradient', 'src/grad.F90: gradient'), ('jacobian', 'src/grad.F90: jacobian')])
exec(open('tools/spec1.py').read())
exec(open('tools/spec2.py').read() if os.path.exists('tools/spec2.py') else '')

NA = []
TECH = 'symbolic execution of the GCC RTL of the real sources; z3 decides each assertion over all values'
NOTE = ('Bounded symbolic execution of the compiled (-O2, RTL after expand) library code; every assertion is decided by z3 for all operand values within the stated '
        'ranges and bounds (sizes, loop counts). Real-arithmetic equalities treat +,-,*,/ as exact reals and libm functions as uninterpreted functions with '
        'their standard identities; rounding is outside. Every path is also replayed natively to validate the encoding. Trusts gcc up to that point, z3, and the harness oracle.')
with open('properties.jsonl', 'w') as f:
    for s in S:
        if s['id'] in PROPS:
            f.write(json.dumps({k: v for k, v in s.items() if k not in ('tech', 'note')}) + '\n')
M = dict(version=1, setup_cmd='bin/setup', checks=[], not_applicable=NA,
         notes='bin/check PROPERTY [--tier quick|thorough] [--only entries]; see DESIGN.md')
for s in S:
    assert len(s['title']) <= 80, s['title']
    if s['id'] in PROPS:
        M['checks'].append(dict(property=s['id'], quick_cmd='bin/check %s' % s['id'],
                                thorough_cmd='bin/check %s --tier thorough' % s['id'],
                                technique=s['tech'] or TECH, level='model_checking',
                                level_note=(s['note'] + ' ' if s['note'] else '') + NOTE))
assert {c['property'] for c in M['checks']} == set(PROPS), set(PROPS) - {c['property'] for c in M['checks']}
json.dump(M, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
