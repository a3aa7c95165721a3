"""Every property, the harnesses that decide it, and their bounds."""
class H:
    def __init__(self, name, bound, time=60, steps=20_000_000, covers=('done',), native=True, opts=()):
        self.name, self.bound, self.time, self.steps, self.covers, self.native, self.opts = name, bound, time, steps, list(covers), native, list(opts)

class P:
    def __init__(self, id, title, statement, over, quant, why, files, mech, quick=(), thorough=(), assume=(), note='', na=None):
        self.id, self.title, self.statement = id, title, statement
        self.over, self.quant, self.why, self.files, self.mech = over.split(), quant, why, files.split(), mech
        self.quick, self.thorough, self.assumptions, self.note, self.na = list(quick), list(thorough), list(assume), note, na
    def hs(self, tier):
        return self.quick + (self.thorough if tier == 'thorough' else [])

ASSUMPTIONS = [
    'the harnesses execute the LLVM IR that the installed nightly compiler emits for the current tree (release code generation, overflow wraps as in the release profile); the engine (engine/src) and z3 4.8.12 are trusted; violations are replayed before they are reported',
    'memory is sequentially consistent in the engine; threads switch only at synchronisation operations and only where a harness asks for schedules to be explored',
    'allocation succeeds unless a size is unreasonable; the virtual clock advances by a fixed step per reading; the operating system is the in-memory file model of harness/src/vfs.rs',
    'files the pinned commit does not compile (expression_parser, plan_builder, query_planner, execution_engine, db_instance, server_impl, connection, client, cli, main) are outside every property',
]
PROPS = {}
def add(*a, **k):
    p = P(*a, **k)
    assert p.id not in PROPS
    PROPS[p.id] = p

import os, glob, importlib.util
for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props', '*.py'))):
    exec(compile(open(f).read(), f, 'exec'), globals())
