"""Properties and their cases."""
import importlib

MODULES = ['concrete', 'smt', 'z3p', 'cross', 'fp', 'fpsmt', 'adt', 'rand']
PROPS = {}


class Case:
    def __init__(self, name, fn, params, core=True, budget=None, world='base'):
        self.name, self.fn, self.params, self.core, self.budget, self.world = name, fn, params, core, budget, world

    @property
    def ref(self):
        return f'{self.fn.__module__}:{self.fn.__name__}'


class Prop:
    def __init__(self, pid, gen, bounds, outside, assumptions, world):
        self.pid, self.gen, self.bounds, self.outside = pid, gen, bounds, outside
        self.assumptions = assumptions
        self.world = world


def prop(pid, bounds, outside='', assumptions=(), world='base'):
    def deco(gen):
        PROPS[pid] = Prop(pid, gen, bounds, outside, list(assumptions), world)
        return gen
    return deco


def load_all():
    for m in MODULES:
        try:
            importlib.import_module('vf.props.' + m)
        except ModuleNotFoundError as e:
            if e.name != 'vf.props.' + m:
                raise


def resolve(ref):
    m, f = ref.split(':')
    return getattr(importlib.import_module(m), f)
