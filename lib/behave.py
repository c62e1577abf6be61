"""Behaviours drawn from the specifications with TLC's simulator, turned into scenarios for the real code."""
import os, re, shutil, tempfile
import tlc

def simulate(module, cfg, num, depth, seed):
    """-> list of behaviours, each a list of (action, args, state text)"""
    d = tempfile.mkdtemp(prefix="sim.")
    try:
        rc, out = tlc.run(module, cfg, args=["-simulate", "num=%d,file=%s/t" % (num, d), "-depth", str(depth), "-seed", str(seed)], timeout=400)
        res = []
        for f in sorted(os.listdir(d)):
            s = open(os.path.join(d, f)).read()
            parts = re.split(r"^\\\* <(\w+)(?:\(([^)]*)\))? line.*$", s, flags=re.M)[1:]
            res.append([(parts[i], [x.strip() for x in (parts[i + 1] or "").split(",") if x.strip()], parts[i + 2]) for i in range(0, len(parts), 3)])
        if not res: raise tlc.ToolError("no behaviours of %s/%s (rc %s)\n%s" % (module, cfg, rc, out[-2000:]))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)

def var(state, name):
    """one variable of a printed state as a Python value"""
    m = re.search(r"^/\\ %s = (.*?)(?=^/\\ |\Z)" % name, state, re.M | re.S)
    t = re.sub(r"^(=|-).*$", "", m.group(1), flags=re.M).replace("\n", " ")
    t = re.sub(r'(\w+) \|->', r'"\1":', t)
    t = t.replace("<<", "\x01").replace(">>", "\x02")
    t = t.replace("{", "frozenset((").replace("}", ",))").replace("((,))", "(())")
    t = t.replace("[", "{").replace("]", "}").replace("\x01", "(").replace("\x02", ",)").replace("(,)", "()")
    t = t.replace("TRUE", "True").replace("FALSE", "False")
    return eval(t)
