"""Run by gdb: writes what the printers of the repository show of each object the driver stops with."""
import os
import gdb
for c in ("confirm off", "pagination off", "width 0", "height 0", "print elements 0", "print repeats unlimited", "debuginfod enabled off", "startup-with-shell off"):
    try:
        gdb.execute("set " + c)
    except gdb.error:
        pass
out = open(os.environ["LV_DEBUG_GOT"], "w")


def text(v):
    t = v.type.strip_typedefs()
    if t.code == gdb.TYPE_CODE_ARRAY:
        lo, hi = t.range()
        return "{" + ",".join(text(v[i]) for i in range(lo, hi + 1)) + "}"
    if t.code in (gdb.TYPE_CODE_INT, gdb.TYPE_CODE_BOOL, gdb.TYPE_CODE_CHAR, gdb.TYPE_CODE_ENUM):
        return str(int(v))
    if t.code == gdb.TYPE_CODE_FLT:
        return "%.1f" % float(v)
    if t.code == gdb.TYPE_CODE_STRUCT:
        return "(" + ",".join(text(v[f]) for f in t.fields()) + ")"
    return "?"


def bases(v):
    t = v.type.strip_typedefs()
    return [v[f] for f in t.fields() if f.is_base_class] if t.code == gdb.TYPE_CODE_STRUCT else []


def visualizer(v):
    """The printer of an object, or of the first of its bases that has one: gdb shows that one within the object."""
    p = gdb.default_visualizer(v)
    if p is not None:
        return p
    for b in bases(v):
        p = visualizer(b)
        if p is not None:
            return p
    return None


def elements(t):
    n = 1
    while t.code == gdb.TYPE_CODE_ARRAY:
        lo, hi = t.range()
        n *= hi - lo + 1
        t = t.target().strip_typedefs()
    return n


def shown(kind, x):
    p = visualizer(x)
    if p is None:
        return "no printer\t"
    title = p.to_string()
    size = title[title.rindex(" of size ") + 9:] if " of size " in title else "no size"
    children = list(p.children())
    if kind == "ragged":
        found = {n: v for n, v in children if n.isdigit()}
        r = ""
        for i in range(len(found)):
            v = found[str(i)]
            r += text(v) if elements(v.type.strip_typedefs()) else "{}"
        return size + "\t" + r
    views = [v for n, v in children if n == "gdb_view"]
    if len(views) != 1:
        return size + "\t%d views" % len(views)
    v = views[0]
    t = v.type.strip_typedefs()
    if t.code != gdb.TYPE_CODE_ARRAY or not elements(t):
        return size + "\tnone"
    return size + "\t" + text(v)


try:
    # As documented: the binaries name the script relative to the sources.
    for c in ("add-auto-load-safe-path " + os.environ["LV_DEBUG_REPO"], "directory " + os.environ["LV_DEBUG_REPO"], "file " + os.environ["LV_DEBUG_SELF"]):
        gdb.execute(c, to_string=True)
    gdb.Breakpoint("debugStop")
    gdb.execute("run", to_string=True)
    done = 0
    while gdb.selected_thread() is not None and gdb.selected_thread().is_valid():
        f = gdb.selected_frame()
        if f.name() != "debugStop":
            break
        n = int(f.read_var("id"))
        with open(os.environ["LV_DEBUG_WANT"]) as w:
            kind = w.read().splitlines()[n].split("\t")[1]
        f.older().select()
        x = gdb.selected_frame().read_var("x")
        try:
            r = shown(kind, x.referenced_value())
            whole = x.referenced_value().format_string(raw=False)
            if "<error" in whole:
                r = "fails\t" + whole[whole.index("<error"):][:80].replace("\n", " ")
        except (gdb.error, gdb.MemoryError, TypeError, ValueError, KeyError, AttributeError, RuntimeError, IndexError) as e:
            r = "fails\t%s %s" % (type(e).__name__, str(e).replace("\n", " ").replace("\t", " "))
        out.write("%d\t%s\t%s\n" % (n, kind, r))
        out.flush()
        gdb.execute("continue", to_string=True)
    out.write("finished\n")
finally:
    out.close()
