"""Scheduling points inside modbus_tk: sys.monitoring events on the package's code objects.

Only instructions that can read or write state shared between threads are points (attribute, subscript and global
stores, non-method attribute loads, subscripts, iteration steps, membership tests) and calls of C code that get an
object which may be shared; everything else runs without a point, which loses no interleaving that differs in
shared-memory effect at this granularity.  Each location is a point at most `visit_cap` times per thread and
execution (loops), see World.visit_cap; a scenario may restrict the modules with points (World.only).
"""
import dis
import sys
import types
import _thread

from . import loader
from .world import _current, Killed

TOOL = 3
INTERESTING = {
    "STORE_ATTR", "DELETE_ATTR", "BINARY_SUBSCR", "STORE_SUBSCR", "DELETE_SUBSCR", "BINARY_SLICE", "STORE_SLICE",
    "CONTAINS_OP", "FOR_ITER", "CALL_FUNCTION_EX", "STORE_GLOBAL", "DELETE_GLOBAL", "GET_ITER",
    "LIST_EXTEND", "DICT_UPDATE",
}
PRIVATE = (str, bytes, int, float, tuple, type, type(None), types.ModuleType, range, frozenset, bool,
           types.FunctionType, types.MethodType, BaseException)
_points = {}
_mod = {}
_on = [False]


def _interesting(code, mods):
    out = set()
    prev = None
    for ins in dis.get_instructions(code):
        op = ins.opname
        if op in INTERESTING:
            out.add(ins.offset)
        elif op == "LOAD_ATTR" and not (ins.arg & 1):
            if not (prev is not None and prev.opname == "LOAD_GLOBAL" and prev.argval in mods):
                out.add(ins.offset)
        if op != "CACHE":
            prev = ins
    return out


def _module_names(code):
    """names that the module binds to modules outside of the package (and the constants module)"""
    mods = {"defines", "struct"}
    ins = list(dis.get_instructions(code))
    for a, b in zip(ins, ins[1:]):
        if a.opname == "IMPORT_NAME" and b.opname == "STORE_NAME" and not a.argval.startswith(loader.PKG):
            mods.add(b.argval)
    return mods


def install():
    """trace every code object of the package (already compiled)"""
    loader.precompile()
    mon = sys.monitoring
    if not _on[0]:
        mon.use_tool_id(TOOL, "mc")
        mon.register_callback(TOOL, mon.events.INSTRUCTION, _cb)
        mon.register_callback(TOOL, mon.events.CALL, _cb_call)
        _on[0] = True
    codes = [c for c in loader.package_codes() if c not in _points]
    if not codes:
        return
    mods = {}
    for code in loader.package_codes():
        if code.co_name == "<module>":
            mods[code.co_filename] = _module_names(code)
    for code in codes:
        if code.co_name == "<module>":
            continue
        _points[code] = _interesting(code, mods.get(code.co_filename, ()))
        _mod[code] = code.co_filename.rsplit("/", 1)[-1][:-3]
        mon.set_local_events(TOOL, code, mon.events.INSTRUCTION | mon.events.CALL)


def _at(code, offset):
    c = _current.get(_thread.get_ident())
    if c is None:
        return
    world, task = c
    if world.aborting:
        raise Killed()
    if not world.trace or (world.only is not None and _mod[code] not in world.only):
        world.beat += 1
        return
    if task.nopreempt:
        return
    k = (code, offset)
    v = task.visits.get(k, 0)
    if v >= world.visit_cap:
        world.beat += 1
        return
    task.visits[k] = v + 1
    world._dispatch(task)


def _cb(code, offset):
    pts = _points.get(code)
    if pts is None or offset not in pts:
        return sys.monitoring.DISABLE
    _at(code, offset)
    return None


def _cb_call(code, offset, fn, arg0):
    t = type(fn)
    if t is types.FunctionType or t is types.MethodType:
        return None                     # python code has its own points (or none, when it is not ours)
    if t is types.BuiltinFunctionType:
        me = fn.__self__
        if me is not None and not isinstance(me, PRIVATE):
            _at(code, offset)           # bound method of a possibly shared object
            return None
    if t is type and not issubclass(fn, (list, dict, set, tuple, bytes, bytearray, frozenset, map, zip, enumerate,
                                         reversed, filter)):
        return None                     # building an object
    if arg0 is sys.monitoring.MISSING or isinstance(arg0, PRIVATE):
        return None
    if isinstance(arg0, bytearray) and t is types.BuiltinFunctionType:
        return None
    _at(code, offset)
    return None
