# -*- coding: utf-8 -*-
"""
Runs the code under test with sets whose iteration order is chosen by an explorer.

fresh() imports pymorphy2 anew from its sources; in these modules the names set and
frozenset, set displays and set comprehensions make sets of the classes below.
Whenever such a set of two or more elements is iterated, the explorer is asked for an
order (a choice point).  explore() runs a function under all combinations of orders if
they are few, otherwise under all single (and double) deviations from sorted order.
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import itertools
import math
import os
import sys

import core

REAL_SET, REAL_FROZEN = builtins.set, builtins.frozenset
ALL_UP_TO = 4


class State(object):
    plan = None         # {choice point: order}, None: not exploring
    trace = ()          # (alternatives, place in the code) per choice point
    policy = None       # one order for all choice points


def alternatives(n):
    return math.factorial(n) if n <= ALL_UP_TO else 2 * n + 1


def arrange(items, c):
    """ the c-th order of the sorted items """
    items = sorted(items, key=repr)
    n = len(items)
    if c == 0:
        return items
    if n <= ALL_UP_TO:
        return list(next(itertools.islice(itertools.permutations(items), c, None)))
    if c == 1:
        return items[::-1]
    k = c // 2
    if c % 2 == 0:                      # element k first
        return [items[k - 1]] + items[:k - 1] + items[k:]
    return items[:k - 1] + items[k:] + [items[k - 1]]   # element k last


def order(items):
    if len(items) < 2 or State.plan is None:
        return iter(items)
    if State.policy is not None:
        return iter(arrange(items, State.policy(len(items))))
    k = len(State.trace)
    f = sys._getframe(2)
    State.trace.append((alternatives(len(items)), (f.f_code.co_filename, f.f_lineno, len(items))))
    return iter(arrange(items, State.plan.get(k, 0) % alternatives(len(items))))


def _make(base, name):
    other = {}

    def wrap(res):
        return other['cls'](res) if isinstance(res, (REAL_SET, REAL_FROZEN)) else res

    def __iter__(self):
        return order(list(base.__iter__(self)))

    def binary(op):
        f = getattr(base, op)

        def method(self, *a):
            res = f(self, *a)
            return wrap(res) if res is not NotImplemented else res
        method.__name__ = op
        return method

    def pop(self):
        x = next(order(list(base.__iter__(self))))
        self.discard(x)
        return x
    d = {'__iter__': __iter__, '__slots__': (), '__reduce__': lambda self: (cls, (list(base.__iter__(self)),)),
         '__repr__': lambda self: '%s(%r)' % (name, sorted(base.__iter__(self), key=repr))}
    for op in ('__and__', '__or__', '__sub__', '__xor__', '__rand__', '__ror__', '__rsub__', '__rxor__', 'copy', 'difference',
               'intersection', 'symmetric_difference', 'union'):
        d[op] = binary(op)
    if base is REAL_SET:
        d['pop'] = pop
        d['__hash__'] = None
    cls = type(name, (base,), d)
    other['cls'] = cls
    return cls


OrderedChoiceSet = _make(REAL_SET, 'set')
OrderedChoiceFrozen = _make(REAL_FROZEN, 'frozenset')


class Displays(ast.NodeTransformer):
    """ {a, b} -> set([a, b]); {x for ...} -> set(x for ...) """

    def call(self, node, arg):
        return ast.copy_location(ast.Call(func=ast.copy_location(ast.Name(id='set', ctx=ast.Load()), node), args=[arg], keywords=[]), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return self.call(node, ast.copy_location(ast.List(elts=node.elts, ctx=ast.Load()), node))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self.call(node, ast.copy_location(ast.GeneratorExp(elt=node.elt, generators=node.generators), node))


class Loader(importlib.machinery.SourceFileLoader):

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, 'rb') as f:
            tree = ast.parse(f.read(), path)
        return compile(ast.fix_missing_locations(Displays().visit(tree)), path, 'exec', dont_inherit=True)

    def exec_module(self, module):
        module.__dict__['set'] = OrderedChoiceSet
        module.__dict__['frozenset'] = OrderedChoiceFrozen
        super(Loader, self).exec_module(module)


class Finder(importlib.abc.MetaPathFinder):

    def find_spec(self, name, path, target=None):
        if name != 'pymorphy2' and not name.startswith('pymorphy2.'):
            return None
        base = os.path.join(core.REPO, *name.split('.'))
        for fn, pkg in ((os.path.join(base, '__init__.py'), [base]), (base + '.py', None)):
            if os.path.exists(fn):
                import importlib.util
                return importlib.util.spec_from_file_location(name, fn, loader=Loader(name, fn), submodule_search_locations=pkg)
        return None


def fresh():
    """ forget pymorphy2 and import it with controlled sets """
    for name in list(sys.modules):
        if name == 'pymorphy2' or name.startswith('pymorphy2.'):
            del sys.modules[name]
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())
    import pymorphy2
    return pymorphy2


def run(fn, plan, policy=None):
    """ -> (result, alternatives per choice point) """
    State.plan, State.trace, State.policy = plan, [], policy
    try:
        try:
            res = fn()
        except Exception as e:
            res = 'raises %s' % type(e).__name__
        return res, list(State.trace)
    finally:
        State.plan, State.trace, State.policy = None, (), None


POLICIES = [('reversed', lambda n: (math.factorial(n) - 1) if n <= ALL_UP_TO else 1),
            ('last first', lambda n: (math.factorial(n) - math.factorial(n - 1)) if n <= ALL_UP_TO else 2 * n),
            ('middle first', lambda n: math.factorial(n) // 2 if n <= ALL_UP_TO else 2 * (n // 2))]


def explore(fn, full=200, depth=1, per_site=None):
    """
    yields (plan, result, trace) for the executions; the first one is the sorted order.
    per_site: deviate only in the first iterations of every place in the code
    """
    base, trace = run(fn, {})
    yield {}, base, trace
    for name, p in POLICIES if trace else ():
        yield name, run(fn, {}, p)[0], trace
    total = 1
    for a, site in trace:
        total *= a
        if total > full:
            break
    stack = [({}, trace)]
    while stack:
        plan, trace = stack.pop()
        start = max(plan) + 1 if plan else 0
        seen = {}
        for k in range(start, len(trace)):
            alts, site = trace[k]
            seen[site] = seen.get(site, 0) + 1
            if per_site and seen[site] > per_site:
                continue
            for c in range(1, alts):
                nxt = dict(plan)
                nxt[k] = c
                res, t = run(fn, nxt)
                yield nxt, res, t
                if total <= full or len(nxt) < depth:
                    stack.append((nxt, t))
