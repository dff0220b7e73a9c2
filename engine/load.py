"""Loads scenario files, instrumented (symbolic run) or plain (native run)."""
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Scenario:
    def __init__(self, prop, fn, name, cases, expect, bounds):
        self.prop, self.fn, self.name, self.cases, self.expect, self.bounds = prop, fn, name, cases, expect, bounds


def load(path, symbolic):
    reg = []

    def scenario(prop, cases=None, expect=(), bounds=""):
        def deco(fn):
            reg.append(Scenario(prop, fn, fn.__name__, cases or (lambda tier: [{}]), tuple(expect), bounds))
            return fn
        return deco
    g = {"__name__": "scenario_" + os.path.basename(path)[:-3], "__file__": path, "scenario": scenario}
    if symbolic:
        from . import instrument
        instrument.inject(g)
        instrument.LOADED[g["__name__"]] = path
        code = instrument.compile_file(path)
        g["spec"] = spec_module(True)
    else:
        code = compile(open(path).read(), path, "exec")
        g["spec"] = spec_module(False)
    exec(code, g)
    return reg


_SPEC = {}


def spec_module(symbolic):
    import types
    if symbolic not in _SPEC:
        path = os.path.join(HERE, "scenarios", "spec.py")
        m = types.ModuleType("scenario_spec")
        m.__file__ = path
        if symbolic:
            from . import instrument
            instrument.inject(m.__dict__)
            instrument.LOADED["scenario_spec"] = path
            exec(instrument.compile_file(path), m.__dict__)
        else:
            exec(compile(open(path).read(), path, "exec"), m.__dict__)
        _SPEC[symbolic] = m
    return _SPEC[symbolic]
