"""Fingerprint of everything the library could carry over from one call to the next: all globals of all its loaded
modules (lists, dicts, sets, strings, numbers, objects), function defaults, function attributes, closure cells and
cache sizes, class attributes, and a few process-wide settings."""
import functools, hashlib, os, sys, types, warnings

PKG = "aksharamukha"


def _h(x, memo, depth=0):
    t = type(x)
    if x is None or t in (str, int, float, bool, bytes, complex):
        return repr(x)
    if depth > 12:
        return "<deep>"
    i = id(x)
    if i in memo:
        return "<ref>"
    if t in (list, tuple):
        memo.add(i)
        r = t.__name__ + "[" + ",".join([repr(y) if type(y) is str else _h(y, memo, depth + 1) for y in x]) + "]"
        memo.discard(i)
        return r
    if t in (set, frozenset):
        return "set[" + ",".join(sorted(_h(y, memo, depth + 1) for y in x)) + "]"
    if isinstance(x, dict):
        memo.add(i)
        r = "{" + ",".join(_h(k, memo, depth + 1) + ":" + _h(v, memo, depth + 1) for k, v in x.items()) + "}"
        memo.discard(i)
        return r
    if isinstance(x, types.FunctionType):
        if not (x.__module__ or "").startswith(PKG):
            return "<fn>"
        memo.add(i)
        cells = []
        for c in x.__closure__ or ():
            try:
                cells.append(_h(c.cell_contents, memo, depth + 1))
            except ValueError:
                cells.append("<empty>")
        return "fn(%s,%s,%s,%s)" % (_h(x.__defaults__, memo, depth + 1), _h(x.__kwdefaults__, memo, depth + 1),
                                    _h(x.__dict__, memo, depth + 1), cells)
    if hasattr(x, "cache_info") and hasattr(x, "__wrapped__"):
        return "cache" + _h(x.__wrapped__, memo, depth + 1)       # what a cache holds is not an observable by itself
    if isinstance(x, types.ModuleType):
        return "<mod>"
    if isinstance(x, type):
        if not (x.__module__ or "").startswith(PKG):
            return "<type>"
        memo.add(i)
        return "class{" + ",".join(k + ":" + _h(v, memo, depth + 1) for k, v in sorted(vars(x).items()) if not k.startswith("__")) + "}"
    if (t.__module__ or "").startswith(PKG):
        memo.add(i)
        return "obj" + _h(getattr(x, "__dict__", None), memo, depth + 1)
    return "<%s>" % t.__name__


def snapshot():
    """-> {module: digest} for every loaded module of the package, plus process-wide settings"""
    out = {}
    for n in sorted(sys.modules):
        if n != PKG and not n.startswith(PKG + "."):
            continue
        m = sys.modules[n]
        if m is None:
            continue
        s = "|".join(k + "=" + _h(v, set()) for k, v in sorted(vars(m).items())
                     if not k.startswith("__") and not isinstance(v, types.ModuleType))
        out[n] = hashlib.sha1(s.encode("utf8", "surrogatepass")).hexdigest()[:12]
    out["process"] = repr((os.getcwd(), sys.getrecursionlimit(), len(warnings.filters), sorted(os.environ.items()).__hash__() if False else len(os.environ)))
    return out


def changed(before, after):
    """modules that were loaded before and differ now"""
    return sorted(m for m in before if after.get(m) != before[m])
