# Reads length-prefixed requests (file name, expected content as JSON), reads the file with the
# pure-Python reader of the tree under test and answers "ok" or a description of the difference.
import sys, json, math, os
sys.path.insert(0, os.path.join(os.environ["VX_REPO"], "python", "caliper-reader"))
sys.dont_write_bytecode = True
import caliperreader as cr

def conv(v, t):
    if t == "double":
        f = float(v)
        return "nan" if math.isnan(f) else float.hex(f)
    if t in ("int", "uint"): return int(v)
    if t == "addr": return int(v, 16)
    if not isinstance(v, str): raise ValueError("%r is not text" % (v,))
    return v

def want(v, t):
    if t == "double": return "nan" if v == "nan" else float.hex(float.fromhex(v))
    if t in ("int", "uint"): return int(v)
    if t == "addr": return int(v, 16)
    return v

def same_value(got, exp):
    """exp: list of [type, text]; a single value is not a list in the reader's records"""
    if len(exp) == 1:
        if isinstance(got, list): return False
        got = [got]
    elif not isinstance(got, list): return False
    if len(got) != len(exp): return False
    try:
        return all(conv(g, t) == want(v, t) for g, (t, v) in zip(got, exp))
    except (ValueError, TypeError): return False

def same_rec(what, got, exp):
    if not isinstance(got, dict): return "%s: not a dict" % what
    g, e = set(got), set(exp)
    if g != e: return "%s: has keys %s, expected %s" % (what, sorted(g), sorted(e))
    for k in exp:
        if not same_value(got[k], exp[k]) and not (k == "path" and isinstance(got[k], list) and len(exp[k]) == 1 and len(got[k]) == 1 and same_value(got[k][0], exp[k])):
            return "%s: %s is %r, expected %r" % (what, k, got[k], exp[k])
    return None

def check(fn, exp):
    r = cr.CaliperReader()
    r.read(fn)
    for i, (g, e) in enumerate(zip(r.records, exp["records"])):
        m = same_rec("record %d" % i, g, e)
        if m: return m
    if len(r.records) != len(exp["records"]): return "%d records, expected %d" % (len(r.records), len(exp["records"]))
    m = same_rec("globals", r.globals, exp["globals"])
    if m: return m
    names = r.attributes()
    for n, a in exp["attributes"].items():
        if a["hidden"]:
            if n in names: return "hidden attribute %r is listed" % n
            continue
        if n not in names: return "attribute %r is not listed" % n
        p = r.attribute(n)
        if p.name() != n: return "attribute %r has name %r" % (n, p.name())
        for f in ("type", "nested", "value", "global", "aggregatable", "scope"):
            g = {"type": p.attribute_type, "nested": p.is_nested, "value": p.is_value, "global": p.is_global, "aggregatable": p.is_aggregatable, "scope": p.scope}[f]()
            if g != a[f] and not (f == "scope" and a[f] == "UNKNOWN"): return "attribute %r: %s is %r, expected %r" % (n, f, g, a[f])
        md = p.metadata()
        for f in ("is_nested", "is_value", "is_global", "is_aggregatable"):
            if md[f] != a[f[3:]]: return "attribute %r: metadata %s is %r, expected %r" % (n, f, md[f], a[f[3:]])
        if md["type"] != a["type"]: return "attribute %r: metadata type is %r, expected %r" % (n, md["type"], a["type"])
        for k, v in a["meta"].items():
            if not same_value(md.get(k), [v]): return "attribute %r: metadata %r is %r, expected %r" % (n, k, md.get(k), v)
            if not same_value(p.get(k), [v]): return "attribute %r: get(%r) is %r, expected %r" % (n, k, p.get(k), v)
        for k in md:
            if k not in a["meta"] and k not in ("is_nested", "is_value", "is_global", "is_aggregatable", "class.aggregatable", "type", "cali.attribute.name", "cali.attribute.type", "cali.attribute.prop"): return "attribute %r: unexpected metadata %r" % (n, k)
    rec, glob = cr.read_caliper_contents(fn)
    if rec != r.records or glob != r.globals or cr.read_caliper_globals(fn) != r.globals: return "the convenience functions return something else"
    return None

inp, out = sys.stdin.buffer, sys.stdout.buffer
while True:
    h = inp.read(8)
    if len(h) < 8: break
    req = json.loads(inp.read(int(h)))
    try: m = check(req["file"], req) or "ok"
    except Exception as e: m = "%s: %s" % (type(e).__name__, e)
    b = m.encode("utf-8", "replace")[:2000]
    out.write(b"%08d" % len(b) + b); out.flush()
