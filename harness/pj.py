#!/usr/bin/env python3
"""src/tools/partjson.py, partedit.py, partinspect.py: --sym explores them on symbolic values (engine/pysym.py) over a model of the
bindings (what P42, P04 and P05 decide), --native replays one path in CPython over the real module.

usage: pj.py --sym SRC OUT MAXTIME SOLVERMS SAMPLES SEED [k=v ...]
       pj.py --native SRC PYMOD VECTOR SCRATCH [k=v ...]
"""
import sys, os, io, json, struct, time, types, traceback, contextlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
VECTOR, FLOAT, INT, STR = 1, 2, 3, 4
NAMES = sorted(["a", "A", "id", "position", "\u00e9 \"x\""])
TOOLNAMES = ["a", "pid", "b"]
TEXTS = sorted(["", "\"q\\\n", "A", "a", "\u00e9"])
ARGS = sorted(["--compress", "--help", "--verbose", "-c", "-h", "-v", "bad.bgeo", "in.bgeo", "in.json", "in.txt", "missing.json", "missing.pdb", "out.bgeo", "out.geo", "out.json", "out.pdb", "out.ptc", "out.txt"])
ALL = sorted(["a", "b", "id", "f", "g"])
OTHERS = sorted(["a", "b", "id", "position", "zz"])
KNOWN_EXT = (".bgeo", ".geo", ".bhclassic", ".ptc", ".pdb")


class Missing(Exception):
    pass


# ---------------------------------------------------------------- what is checked
class Attr:
    def __init__(self, name, type, count):
        self.name, self.type, self.count, self.texts, self.cells = name, type, count, [], {}


def number(c, a, cell):
    return c.floatval(cell) if a.type in (VECTOR, FLOAT) else c.intval(cell)


def some_attr(c, what, others):
    kinds = [int(x) for x in str(c.cfg.get("types", 1234))]
    t = kinds[c.choice(what + " type", len(kinds))]
    n = 3 if t == VECTOR else (1, 2, 5)[c.choice(what + " count", int(c.cfg.get("counts", 2)))]
    if int(c.cfg["mode"]) > 2:  # these tools look names up in ways of their own
        first = not others and int(c.cfg.get("id", 1)) and c.choice(what + " is called id", 2)
        if first and what == "attribute" and int(c.cfg["mode"]) < 5: c.assume(t == INT); c.assume(n == 1)  # an id is one int
        a = Attr("id" if first else TOOLNAMES[len(others)] if int(c.cfg["mode"]) < 5 else (("ids", "a", "h_pil_id"), ("A", "a", "ids"))[int(c.cfg.get("names", 0))][len(others)], t, n)
    else:
        a = Attr(c.text(what + " name", NAMES), t, n)
        for o in others:
            c.assume(a.name != o.name)
    if t == STR:
        a.texts = [c.text(what + " text", TEXTS) for _ in range(int(c.cfg["ntexts"]) if "ntexts" in c.cfg else c.choice(what + " texts", 1 + int(c.cfg.get("texts", 2))))]
    return a


def put_texts(c, s, h, a, fixed):
    # a table may hold one text more than once: setIndexedStr() leads to it
    reg, put = (s.registerFixedIndexedStr, s.setFixedIndexedStr) if fixed else (s.registerIndexedStr, s.setIndexedStr)
    for k, x in enumerate(a.texts):
        reg(h, "~%d" % k)
    for k, x in enumerate(a.texts):
        put(h, k, x)


def some_set(c, n, na, nf):
    m = types.SimpleNamespace(n=n, attrs=[], fixed=[])
    s = c.partio.create()
    for i in range(nf):
        a = some_attr(c, "fixed", m.fixed); m.fixed.append(a)
        h = s.addFixedAttribute(a.name, a.type, a.count)
        put_texts(c, s, h, a, True)
        a.cells[0] = [c.u32("value") for _ in range(a.count)]
        s.setFixed(h, tuple(number(c, a, x) for x in a.cells[0]))
    hs = []
    for i in range(na):
        a = some_attr(c, "attribute", m.attrs); m.attrs.append(a)
        hs.append(s.addAttribute(a.name, a.type, a.count))
        put_texts(c, s, hs[-1], a, False)
    s.addParticles(n)
    for a, h in zip(m.attrs, hs):
        for j in range(n):
            a.cells[j] = [c.u32("value") for _ in range(a.count)]
            s.set(h, j, tuple(number(c, a, x) for x in a.cells[j]))
    return s, m


def same_values(c, got, a, cells, msg):
    c.check(len(got) == a.count, msg + ": count")
    for g, x in zip(got, cells):
        c.check(c.samef(g, x) if a.type in (VECTOR, FLOAT) else g == c.intval(x), msg)


def same_texts(c, got, want, msg):
    c.check(len(got) == len(want), msg + ": number")
    for g, w in zip(got, want):
        c.check(g == w, msg)


def is_set(c, s, m, what, skip=()):
    c.check(s.numParticles() == m.n, what + ": number of particles")
    c.check(s.numAttributes() == len(m.attrs), what + ": number of attributes")
    c.check(s.numFixedAttributes() == len(m.fixed), what + ": number of fixed attributes")
    for fixed, l in ((True, m.fixed), (False, m.attrs)):
        for a in l:
            h = s.fixedAttributeInfo(a.name) if fixed else s.attributeInfo(a.name)
            c.check(h is not None, what + ": an attribute is missing")
            c.check(h.type == a.type, what + ": type"); c.check(h.count == a.count, what + ": count")
            if a.type == STR:
                same_texts(c, s.fixedIndexedStrs(h) if fixed else s.indexedStrs(h), a.texts, what + ": strings")
            for j, cells in a.cells.items():
                if (a, j) not in skip:
                    same_values(c, s.getFixed(h) if fixed else s.get(h, j), a, cells, what + (": fixed value" if fixed else ": value"))


def mode_roundtrip(c):
    pj = c.module()
    n = int(c.cfg.get("n", 2))
    s, m = some_set(c, n, int(c.cfg.get("na", 2)), int(c.cfg.get("nf", 1)))
    data = pj.toJson(s)
    is_set(c, s, m, "the set converted")
    if c.choice("through text", 2):
        data = c.through_text(data, indent=2, sort_keys=True) if c.choice("sorted", 2) else c.through_text(data)
    is_set(c, pj.fromJson(data), m, "the set converted back")
    c.check(not c.stderr(), "no messages")


def mode_foreign(c):
    """data someone wrote: what fits arrives, what does not is skipped with a message"""
    pj = c.module()
    n = int(c.cfg.get("n", 2))
    N = c.name
    m = types.SimpleNamespace(n=n, attrs=[Attr(N("a"), FLOAT, 2), Attr(N("b"), INT, 1), Attr(N("id"), STR, 1)], fixed=[Attr(N("f"), FLOAT, 3), Attr(N("g"), STR, 1)])
    data, skip, message = {}, set(), False
    data["fixedAttributes"] = {a.name: {"type": a.type, "count": a.count, "value": []} for a in m.fixed}
    data["attributes"] = {a.name: {"type": a.type, "count": a.count} for a in m.attrs}
    m.attrs[2].texts = ["x", "y"]; m.fixed[1].texts = ["u"]
    data["indexedStrings"], data["fixedIndexedStrings"] = {N("id"): ["x", "y"]}, {N("g"): ["u"]}
    for a in m.fixed:
        a.cells[0] = [c.u32("value") for _ in range(a.count)]
        data["fixedAttributes"][a.name]["value"] = [number(c, a, x) for x in a.cells[0]]
    data["particles"] = {}
    for j in range(n):
        p = data["particles"][str(j)] = {}
        for a in m.attrs:
            a.cells[j] = [c.u32("value") for _ in range(a.count)]
            p[a.name] = [number(c, a, x) for x in a.cells[j]]
    kind = int(c.cfg["kind"])
    if kind == 0:  # a fixed value of another length
        a = m.fixed[c.choice("which", 2)]; l = c.choice("length", 5)
        v = data["fixedAttributes"][a.name]["value"]
        data["fixedAttributes"][a.name]["value"] = (v + v + v + v + v)[:l]
        if l != a.count: skip.add((a, 0)); message = True
    elif kind == 1:  # a particle with an attribute that may not exist
        j = c.choice("particle", n); name = c.text("name", OTHERS)
        a = next((a for a in m.attrs if name == a.name), None)
        l = 1 + c.choice("length", 3)
        vals = [c.u32("more") for _ in range(l)]
        if c.choice("first", 2):
            old = data["particles"][str(j)]; p = {name: None}; p.update(old); data["particles"][str(j)] = p
        data["particles"][str(j)][a.name if a else name] = [number(c, a, x) if a else c.intval(x) for x in vals]
        if a and l == a.count: a.cells[j] = vals
        elif a: skip.add((a, j)); message = True
        else: message = True
    elif kind == 2:  # a particle's value of another length
        a = m.attrs[c.choice("which", 3)]; j = c.choice("particle", n); l = c.choice("length", 4)
        data["particles"][str(j)][a.name] = (data["particles"][str(j)][a.name] * 4)[:l]
        if l != a.count: skip.add((a, j)); message = True
    elif kind == 3:  # strings for an attribute that may not exist
        fixed = c.choice("fixed", 2); name = c.text("name", OTHERS)
        c.assume(name != "a"); c.assume(name != "b"); c.assume(name != "id")
        sec = data["fixedIndexedStrings" if fixed else "indexedStrings"]
        if c.choice("first", 2):
            old = dict(sec); sec.clear(); sec[name] = ["x"]; sec.update(old)
        else:
            sec[name] = ["x"]
        message = True
    elif kind == 4:  # sections that are not there, others that mean nothing
        for i, k in enumerate(("particles", "indexedStrings", "fixedIndexedStrings")):
            if c.choice("drop " + k, 2): del data[k]
        if "particles" not in data:
            m.n = 0
            for a in m.attrs: a.cells = {}
        if "indexedStrings" not in data: m.attrs[2].texts = []
        if "fixedIndexedStrings" not in data: m.fixed[1].texts = []
        if c.choice("drop fixed", 2):
            del data["fixedAttributes"]; m.fixed = []
            message = "fixedIndexedStrings" in data
        if c.choice("more", 2): data["comment"] = {"type": c.intval(c.u32("more")), "x": [1, "y"]}
    elif kind == 5:  # particles in another order; ints for floats
        order = [1, 2, 0, 3][:n] if n > 2 else list(range(n))[::-1]
        data["particles"] = {str(j): data["particles"][str(j)] for j in order}
        j = c.choice("particle", n); x = c.u32("small"); c.assume(c.small(x))
        data["particles"][str(j)][N("a")][1] = c.intval(x); m.attrs[0].cells[j][1] = c.floatbits(x)
    s = pj.fromJson(c.through_text(data) if c.choice("through text", 2) else data)
    is_set(c, s, m, "the set", skip)
    c.check(bool(c.stderr()) == message, "a message exactly when something is skipped")


def mode_main(c):
    n = int(c.cfg.get("n", 1))
    pos, ident = Attr("position", VECTOR, 3), Attr("id", INT, 1)
    m = types.SimpleNamespace(n=n, attrs=[pos, ident], fixed=[])
    s = c.partio.create()
    hp, hi = s.addAttribute("position", VECTOR, 3), s.addAttribute("id", INT, 1)
    s.addParticles(n)
    for j in range(n):
        xs = [c.u32("value") for _ in range(3)]
        for x in xs: c.assume(c.small(x))
        pos.cells[j], ident.cells[j] = [c.floatbits(x) for x in xs], [c.u32("id")]
        s.set(hp, j, tuple(c.intval(x) for x in xs)); s.set(hi, j, (c.intval(ident.cells[j][0]),))
    c.partio.write("in.bgeo", s)
    c.put_json("in.json", {"attributes": {"position": {"type": VECTOR, "count": 3}, "id": {"type": INT, "count": 1}},
                           "particles": {str(j): {"position": [c.floatval(x) for x in pos.cells[j]], "id": [c.intval(x) for x in ident.cells[j]]} for j in range(n)}})
    c.put_text("in.txt", "text"); c.put_text("bad.bgeo", "text")
    args = [c.text("argument", ARGS) for _ in range(int(c.cfg.get("args", 2)))]
    before = c.listing()
    status, out = c.run_main(args)
    err = c.stderr()
    files, compress, help = [], False, False
    for a in args:
        if a == "-h" or a == "--help": help = True
        elif a == "-c" or a == "--compress": compress = True
        elif a == "-v" or a == "--verbose": pass
        else: files.append(a)
    changed = lambda: sorted(k for k, v in c.listing().items() if before.get(k) != v)
    if help:
        c.check(status == 0, "help is no failure"); c.check("Usage" in out, "help is printed"); c.check(changed() == [], "help writes nothing")
        return
    if len(files) != 2:
        c.check(status != 0, "a wrong number of files fails"); c.check(err or out, "it says why"); c.check(changed() == [], "it writes nothing")
        return
    a, b = [c.plain(f) for f in files]
    ea, eb = os.path.splitext(a)[1], os.path.splitext(b)[1]
    if a.startswith(("missing", "out")) or (ea == ".json" and eb not in KNOWN_EXT) or (ea != ".json" and ea not in KNOWN_EXT) or a == "bad.bgeo":
        c.check(status != 0, "files it cannot convert fail"); c.check(err or out, "it says why"); c.check(changed() == [], "failing writes nothing")
    elif ea == ".json":
        c.check(status == 0, "json is converted"); c.check(all(x == b for x in changed()), "only the output is written")
        r = c.partio.read(b, False)
        c.check(r is not None, "the output is a particle file")
        if eb == ".ptc" or eb == ".pdb": m.attrs = [x for x in m.attrs if x is pos]
        c.check(r.numParticles() == n, "number of particles")
        for x in m.attrs:
            h = r.attributeInfo(x.name); c.check(h is not None, "attribute of the output")
            for j in range(n): same_values(c, r.get(h, j), x, x.cells[j], "value of the output")
        if eb != ".bhclassic": c.check(c.compressed(b) == compress, "compressed exactly when asked")
    elif eb == ".json":
        c.check(status == 0, "a particle file is converted"); c.check(all(x == b for x in changed()), "only the output is written")
        d = c.get_json(b)
        is_set(c, c.module().fromJson(d), m, "the set in the output")
        for k in range(n): c.check(len(d["particles"][str(k)]["position"]) == 3, "particles are named by their index")


# ---------------------------------------------------------------- partedit, partinspect
class Bound:
    def __init__(self): self.sent, self.to = [], []
    def emit(self, *a):
        self.sent.append(a)
        for f in self.to: f(*a)
    def connect(self, f): self.to.append(f)


class Signal:
    def __init__(self, *a): pass
    def __set_name__(self, o, n): self.n = "_signal_" + n
    def __get__(self, o, t=None):
        if o is None: return self
        return o.__dict__.setdefault(self.n, Bound())


class Names(type):
    def __getattr__(cls, n):
        if n.startswith("__"): raise AttributeError(n)
        return (cls.__name__, n)


class Nothing(metaclass=Names):
    """stands for Qt's classes: what they do is not what is checked"""
    def __init__(self, *a, **k): pass
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return lambda *a, **k: None


class Index:
    def __init__(self, r=-1, c=-1): self.r, self.c = r, c
    def row(self): return self.r
    def column(self): return self.c
    def isValid(self): return self.r >= 0 and self.c >= 0


class Model(Nothing):
    def createIndex(self, r, c, *a): return Index(r, c)
    def setSourceModel(self, m): self.__dict__["src"] = m
    def sourceModel(self): return self.__dict__["src"]


class Line(Nothing):
    def text(self): return self.value


def qt():
    def mod(name, **k):
        m = types.ModuleType(name); known = dict(k)
        def ga(n):
            if n.startswith("__"): raise AttributeError(n)
            return known.setdefault(n, type(n, (Nothing,), {}))
        m.__getattr__ = ga
        for x, y in k.items(): setattr(m, x, y)
        return m
    core = mod("Qt.QtCore", Signal=Signal, QObject=type("QObject", (), {"__init__": lambda self, *a: None}), QAbstractItemModel=Model, QSortFilterProxyModel=Model, QModelIndex=Index)
    gui, wid = mod("Qt.QtGui"), mod("Qt.QtWidgets", QLineEdit=Line)
    top = mod("Qt", QtCore=core, QtGui=gui, QtWidgets=wid)
    return {"Qt": top, "Qt.QtCore": core, "Qt.QtGui": gui, "Qt.QtWidgets": wid}


def values(m, j):
    return [(a, a.cells[j]) for a in m.attrs]


def edit_set(c):
    n, na, nf = int(c.cfg.get("n", 2)), int(c.cfg.get("na", 2)), int(c.cfg.get("nf", 1))
    s, m = some_set(c, n, na, nf)
    for a in m.attrs:
        if a.name == "id":  # one that can be counted on
            for j in range(n): c.assume(c.intval(a.cells[j][0]) < 2 ** 31 - 1)
    return s, m


def controller(c, s):
    """partedit's data, with what it tells its observers"""
    pe = c.module("partedit")
    d = c.call(pe.ParticleData)
    c.call(d.setData, s)
    for x in (d.particleAdded, d.attributeAdded, d.fixedAttributeAdded, d.dataReset, d.dirtied): del x.sent[:]
    return d


def told(c, d, **k):
    for n in ("particleAdded", "attributeAdded", "fixedAttributeAdded", "dataReset"):
        want = k.get(n)
        c.check(len(getattr(d, n).sent) == (want is not None), "observers told: " + n)
        if want is not None:
            for g, w in zip(getattr(d, n).sent[0], want): c.check(g == w, "what observers are told: " + n)


def edit_op(c, d, m, op):
    """one operation on the controller and on the description"""
    if op == 0:  # a particle
        c.call(d.addParticle)
        last = m.n - 1; m.n += 1
        for a in m.attrs:
            if last < 0: a.cells[m.n - 1] = [0] * a.count if a.type in (INT, STR) else [c.zero() for _ in range(a.count)]
            else: a.cells[m.n - 1] = list(a.cells[last])
            if a.name == "id" and last >= 0:
                big = a.cells[0][0]
                for j in range(1, last + 1): big = c.cellmax(big, a.cells[j][0])
                a.cells[m.n - 1] = [c.cellplus1(big)]
        return dict(particleAdded=(m.n - 1,))
    if op == 1:  # particles removed
        gone = [j for j in range(m.n) if c.choice("remove", 2)]
        c.call(d.removeParticles, list(gone))
        keep = [j for j in range(m.n) if j not in gone]
        m.n = len(keep)
        for a in m.attrs: a.cells = {i: a.cells[j] for i, j in enumerate(keep)}
        return dict(dataReset=())
    if op in (2, 3):  # attributes removed
        l = m.fixed if op == 2 else m.attrs
        names = [a.name for a in l if c.choice("remove", 2)]
        c.call(d.removeFixedAttributes if op == 2 else d.removeAttributes, names)
        l[:] = [a for a in l if a.name not in names]
        return dict(dataReset=())
    if op == 4:  # an attribute added
        a = Attr("new", *((INT, 1), (FLOAT, 2), (VECTOR, 3))[c.choice("new type", 3)]); fixed = c.choice("fixed", 2)
        cells = [c.u32("default") for _ in range(a.count)]
        v = tuple(number(c, a, x) for x in cells)
        c.call(d.addAttribute, a.name, a.type, a.count, bool(fixed), v[0] if a.count == 1 and c.choice("no tuple", 2) else v)
        a.cells = {j: list(cells) for j in range(1 if fixed else m.n)}
        (m.fixed if fixed else m.attrs).append(a)
        return {"fixedAttributeAdded" if fixed else "attributeAdded": (a.name,)}
    if op == 7:  # saved whole
        c.call(d.write, "whole.bgeo", False)
        is_set(c, c.reread("whole.bgeo"), m, "saved in between")
        return {}
    fixed = op == 6  # a value set
    l = m.fixed if fixed else m.attrs
    if not l or (not fixed and not m.n): return {}
    a = l[c.choice("attribute set", len(l))]; j = 0 if fixed else c.choice("particle set", m.n)
    cells = [c.u32("set") for _ in range(a.count)]
    if fixed: c.call(d.setFixed, d.fixedAttributeInfo(a.name), tuple(number(c, a, x) for x in cells))
    else: c.call(d.set, d.attributeInfo(a.name), j, tuple(number(c, a, x) for x in cells))
    a.cells[j] = cells
    return {}


def mode_edit(c):
    """partedit changes what it is asked to, keeps the rest, and saves it"""
    s, m = edit_set(c)
    d = controller(c, s)
    is_set(c, d.data, m, "the set edited")
    for k in str(c.cfg["ops"]):
        for x in (d.particleAdded, d.attributeAdded, d.fixedAttributeAdded, d.dataReset): del x.sent[:]
        t = edit_op(c, d, m, int(k))
        if t or int(k) > 4: told(c, d, **t)
        is_set(c, d.data, m, "after the operation"); is_set(c, d, m, "seen through the controller")
        c.check(d.dirty is (int(k) != 7) or (int(k) in (5, 6) and not (m.fixed if int(k) == 6 else m.n and m.attrs)), "changes are to be saved")
    c.call(d.write, "out.bgeo", False)
    is_set(c, c.reread("out.bgeo"), m, "saved")
    c.check(d.dirty is False, "nothing left to save"); c.check(d.filename == "out.bgeo", "the file's name")
    if "read" not in c.cfg: return
    c.call(d.setDirty, True); del d.dataReset.sent[:]
    k = c.choice("opened", 3)
    if k == 2: c.put_text("bad.bgeo", "no particles")
    c.call(d.read, ("nowhere.bgeo", "out.bgeo", "bad.bgeo")[k])
    if k == 2: m = types.SimpleNamespace(n=0, attrs=[], fixed=[])
    is_set(c, d.data, m, "a file opened"); is_set(c, d, m, "a file opened, through the controller")
    c.check(len(d.dataReset.sent) == (k > 0), "observers told of another set"); c.check(d.dirty is (k == 0), "a set just opened has nothing to save")
    c.check(k != 1 or d.filename == "out.bgeo", "name of the file opened"); c.check(bool(c.stderr()) == (k != 1), "a message exactly if it cannot be opened")


def mode_delta(c):
    """a delta holds the particles that differ from those last opened or saved whole, in order"""
    s, m = edit_set(c)
    d = controller(c, s)
    def copied(): return [[(a.name, a.type, list(a.cells[j])) for a in m.attrs] for j in range(m.n)]
    base = copied()
    for k in str(c.cfg["ops"]):
        edit_op(c, d, m, int(k))
        if k == "7": base = copied()
    now, dirty = copied(), d.dirty
    def same(x, y):
        if len(x) != len(y): return False
        r = True
        for p, q in zip(x, y):
            if p[1] != q[1] or len(p[2]) != len(q[2]): return False
            for u, v in zip(p[2], q[2]): r = r & (c.samecell(u, v) if p[1] in (VECTOR, FLOAT) else c.intval(u) == c.intval(v))
        return r
    changed = [x for x in now if not any(same(x, y) for y in base)]
    c.call(d.write, "delta.bgeo", True)
    r = c.reread("delta.bgeo")
    c.check(r.numParticles() == len(changed), "the delta holds the particles that changed")
    for i, x in enumerate(changed):
        for (name, t, cells), a in zip(x, m.attrs):
            h = r.attributeInfo(name)
            c.check(h is not None, "attribute of the delta")
            same_values(c, r.get(h, i), a, cells, "value in the delta")
            if t == STR: same_texts(c, r.indexedStrs(h), a.texts, "strings of the delta")
    c.check(d.dirty is dirty, "a delta does not save the set"); c.check(d.filename != "delta.bgeo", "the file's name is that of the set")
    is_set(c, d.data, m, "saving a delta")


TYPES = ("None", "Vector", "Float", "Integer", "Indexed String")


def mode_inspect(c):
    """partinspect's table shows every component of every attribute of every particle once"""
    n, na = int(c.cfg.get("n", 2)), int(c.cfg.get("na", 2))
    s, m = some_set(c, n, na, 0)
    pi = c.module("partinspect")
    Qt, core = c.qt["Qt.QtCore"].Qt, c.qt["Qt.QtCore"]
    t = c.call(pi.PartioTreeModel, None, s, False)
    show = Qt.DisplayRole
    total = sum(a.count for a in m.attrs)
    c.check(t.rowCount(Index()) == n, "a row per particle"); c.check(t.rowCount(Index(0, 0)) == 0, "rows have no children"); c.check(t.columnCount(None) == 1 + total, "a column per component")
    left = [(a, k) for a in m.attrs for k in range(a.count)]
    for col in range(1 + total):
        head = c.call(t.headerData, col, None, show)
        cells = [c.call(t.data, c.call(t.index, j, col, None), show) for j in range(n)]
        if col == 0:
            c.check(head == "Index", "the first column is the index")
            for j in range(n): c.check(cells[j] == str(j), "index of a row")
            continue
        i = next((i for i, (a, k) in enumerate(left) if head == "%s[%d]" % (c.plain(a.name), k)), None)
        c.check(i is not None, "each component has one column, named after it")
        a, k = left.pop(i)
        for j in range(n): same_values(c, [cells[j]], Attr(a.name, a.type, 1), [a.cells[j][k]], "value shown")
    c.check(t.data(Index(n, 1), show) is None, "no row after the last"); c.check(t.data(Index(), show) is None, "no cell"); c.check(t.data(Index(0, 0), Qt.ToolTipRole) is None, "other roles")
    u = c.call(pi.PartioTreeModel, None, s, True)
    c.check(u.rowCount(Index()) >= len(m.attrs) if m.attrs else u.rowCount(Index()) == 0, "a row per attribute"); c.check(u.columnCount(None) == 4, "index, name, type and count")
    seen = set()
    for r in range(u.rowCount(Index())):
        g = [c.call(u.data, Index(r, k), show) for k in range(4)]
        a = next((a for a in m.attrs if g[1] == a.name), None)
        c.check(a is not None, "an attribute's name"); c.check(g[0] == str(r), "index of the row"); c.check(g[2] == TYPES[a.type], "type shown"); c.check(g[3] == a.count, "count shown"); seen.add(id(a))
    c.check(len(seen) == len(m.attrs), "every attribute is listed")
    f = ["", "a", "id pos", ",", "A,zz", "x"][c.choice("filter", 6)]
    line = Line(); line.value = f
    parts = [x for x in f.replace(",", " ").split(" ") if x]
    p = c.call(pi.FilterModel, line, False, None); p.setSourceModel(t)
    for col in range(1 + total):
        head = t.headerData(col, None, show)
        c.check(bool(c.call(p.filterAcceptsColumn, col, None)) == (col == 0 or not f or any(x in head for x in parts)), "columns the filter shows"); c.check(c.call(p.filterAcceptsRow, 0, None), "the filter keeps the rows")
    p = c.call(pi.FilterModel, line, True, None); p.setSourceModel(u)
    for r in range(u.rowCount(Index())):
        name = u.data(Index(r, 1), show)
        c.check(bool(c.call(p.filterAcceptsRow, r, None)) == (not f or any(x in c.plain(name) for x in parts)), "attributes the filter shows")


MODES = [mode_roundtrip, mode_foreign, mode_main, mode_edit, mode_delta, mode_inspect]


# ---------------------------------------------------------------- native
class Native:
    def __init__(self, src, pymod, vec, cfg):
        self.cfg, self.src, self.values = cfg, src, {}
        for l in open(vec):
            n, v = l.rstrip("\n").rsplit(" ", 1); self.values[n] = int(v)
        self.names = {}
        sys.path.insert(0, pymod); sys.dont_write_bytecode = True
        import partio
        self.partio = partio
        self.err = io.StringIO(); self.real_err = sys.stderr; sys.stderr = self.err

    def raw(self, name):
        k = self.names.get(name, 0); self.names[name] = k + 1
        return self.values.get(name if not k else "%s~%d" % (name, k), 0)

    def choice(self, name, n):
        v = self.raw(name); self.assume(v < n); return v
    def u32(self, name): return self.raw(name) & 0xffffffff
    def text(self, name, pal):
        v = self.raw(name); self.assume(v < len(pal)); return pal[v]
    def floatval(self, x): return struct.unpack("<f", struct.pack("<I", x))[0]
    def intval(self, x): return x - (1 << 32) if x >> 31 else x
    def floatbits(self, x): return struct.unpack("<I", struct.pack("<f", float(self.intval(x))))[0]
    def small(self, x): return x < 256
    def samef(self, g, x):
        w = self.floatval(x)
        return (g != g and w != w) or struct.pack("<d", g) == struct.pack("<d", w)
    def assume(self, v):
        if not v: self.finish("ASSUME", 11)
    def check(self, v, msg):
        if not v: self.finish("CHECK-FAILED " + msg, 3)
    def finish(self, text, code):
        self.real_err.write(self.err.getvalue()[-300:] + "\n" + text + "\n"); self.real_err.flush(); os._exit(code)
    def plain(self, x): return x
    def name(self, x): return x
    def stderr(self):
        t = self.err.getvalue(); return t
    def path(self, tool="partjson"): return os.path.join(self.src, "tools", tool + ".py")
    def zero(self): return 0
    def cellmax(self, x, y): return max(x, y, key=self.intval)
    def cellplus1(self, x): return (x + 1) & 0xffffffff
    def samecell(self, x, y): return repr(self.floatval(x)) == repr(self.floatval(y))
    def call(self, f, *a): return f(*a)
    def reread(self, name):
        r = self.saved.get(name); self.check(r is not None, "the file can be read"); return r
    def module(self, tool="partjson"):
        import importlib.util
        self.qt = qt(); sys.modules.update(self.qt)
        spec = importlib.util.spec_from_file_location(tool, self.path(tool)); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        if tool == "partedit":  # no format holds every set: what write() is given is kept as it is
            real, kept = self.partio, self.saved = self.partio, {}
            class Partio(types.ModuleType):
                def __getattr__(_, n): return getattr(real, n)
                def write(_, name, s, *a):
                    open(name, "w").close(); kept[name] = real.clone(s, True)
                def read(_, name, *a): return real.clone(kept[name], True) if name in kept else real.read(name, *a)
            m.partio = Partio("partio")
        return m
    def through_text(self, data, **k): return json.loads(json.dumps(data, **k))
    def put_json(self, name, data):
        with open(name, "w") as f: json.dump(data, f)
    def put_text(self, name, t):
        with open(name, "w") as f: f.write(t)
    def get_json(self, name):
        with open(name) as f: return json.load(f)
    def listing(self): return {n: open(n, "rb").read() for n in os.listdir(".")}
    def compressed(self, name): return open(name, "rb").read(2) == b"\x1f\x8b"
    def run_main(self, args):
        import runpy
        old, sys.argv = sys.argv, ["partjson.py"] + args
        out = io.StringIO(); status = 0
        try:
            with contextlib.redirect_stdout(out):
                runpy.run_path(self.path(), run_name="__main__")
        except SystemExit as e:
            status = 0 if e.code is None else e.code
            if isinstance(status, str): sys.stderr.write(status); status = 1
        except Exception as e:
            sys.stderr.write("Traceback: %r\n" % (e,)); status = 1
        sys.argv = old
        return status, out.getvalue()


def native(src, pymod, vec, sd, cfg):
    os.chdir(sd)
    c = Native(src, pymod, vec, cfg)
    try:
        MODES[int(cfg["mode"])](c)
    except Exception as e:
        c.finish("CHECK-FAILED raises %s" % type(e).__name__ + "".join(traceback.format_exception(e)[-3:]), 3)
    c.finish("HARNESS-DONE", 0)


# ---------------------------------------------------------------- symbolic
def symbolic(src, out, maxtime, solver_ms, samples, seed, cfg):
    import z3, pysym
    from pysym import SymInt, SymFloat, SymStr, SymBool, Unsupported, plain
    t0 = time.time()
    ex = pysym.Explorer(seed, solver_ms); pysym.begin(ex); tool = "partedit" if int(cfg["mode"]) in (3, 4) else "partinspect" if int(cfg["mode"]) == 5 else "partjson"
    target = "<%s.py>" % tool; pysym.TARGET = target
    path = os.path.join(src, "tools", tool + ".py")
    code = compile(open(path).read(), target, "exec")
    TYPENAMES = ["NONE", "VECTOR", "FLOAT", "INT", "INDEXEDSTR"]

    class Handle:
        def __init__(self, name, type, count, k): self.name, self.type, self.count, self.k = name, type, count, k

    def text(x):
        if not isinstance(x, str): raise TypeError("argument of type 'char const *'")
        if "\ue000" in str.__str__(x) and not isinstance(x, SymStr): raise Unsupported("text made of a symbolic one")
        return x

    def cint(x):
        if isinstance(x, bool) or not isinstance(x, int): 
            if not isinstance(x, bool): raise TypeError("argument of type 'int'")
        return x if type(x) is SymInt else int(x)

    class Set:
        """the bindings' view of a particle set (what P42 decides)"""
        def __init__(self): self.a, self.f, self.n = [], [], 0
        def copy(self):
            s = Set(); s.n = self.n
            s.a = [dict(x, tab=list(x["tab"]), v={j: list(v) for j, v in x["v"].items()}) for x in self.a]
            s.f = [dict(x, tab=list(x["tab"]), v={j: list(v) for j, v in x["v"].items()}) for x in self.f]
            return s
        def numParticles(self): return self.n
        def numAttributes(self): return len(self.a)
        def numFixedAttributes(self): return len(self.f)
        def _add(self, l, name, type, count):
            name, type, count = text(name), cint(type), cint(count)
            if type not in (1, 2, 3, 4) or not count >= 1: raise Unsupported("attribute of type or count the bindings' model has not")
            for x in l:
                if x["name"] == name: raise Unsupported("two attributes of one name")
            if type == 1 and count != 3: raise Unsupported("vector of other than 3")
            l.append({"name": name, "type": type, "count": int(count), "tab": [], "v": {}})
            return Handle(name, type, int(count), len(l) - 1)
        def addAttribute(self, name, type, count): return self._add(self.a, name, type, count)
        def addFixedAttribute(self, name, type, count): return self._add(self.f, name, type, count)
        def addParticle(self): self.n += 1; return self.n - 1
        def addParticles(self, k): self.n += int(cint(k)); return object()
        def _info(self, l, i):
            if isinstance(i, str):
                for k, x in enumerate(l):
                    if x["name"] == i: break
                else: return None
            else:
                k = int(cint(i))
                if k < 0 or k >= len(l): raise IndexError("Invalid attribute index")
                x = l[k]
            return Handle(x["name"], x["type"], x["count"], k)
        def attributeInfo(self, i): return self._info(self.a, i)
        def fixedAttributeInfo(self, i): return self._info(self.f, i)
        def _cells(self, x, j):
            if j not in x["v"]: x["v"][j] = [z3.BitVec("unset-%d" % next(fresh), 32) if x["type"] in (3, 4) else z3.FP("unset-%d" % next(fresh), pysym.F32) for _ in range(x["count"])]
            return x["v"][j]
        def _get(self, x, j):
            r = self._cells(x, j)
            return tuple(pysym.mkint(z3.SignExt(pysym.W - 32, t)) for t in r) if x["type"] in (3, 4) else tuple(mkfloat(t) for t in r)
        def get(self, h, j):
            j = int(cint(j))
            if j < 0 or j >= self.n: raise IndexError("Invalid particle index")
            return self._get(self.a[h.k], j)
        def getFixed(self, h): return self._get(self.f[h.k], 0)
        def _set(self, x, j, seq):
            if isinstance(seq, (dict, set)) or not hasattr(seq, "__getitem__"): raise TypeError("Expecting a sequence")
            if len(seq) != x["count"]: raise ValueError("Invalid number of parameters")
            if j is None: return
            cells = self._cells(x, j)
            for i in range(len(seq)):
                o = seq[i]
                if x["type"] in (3, 4):
                    if not isinstance(o, int): raise ValueError("Expecting a sequence of ints")
                    t = SymInt.of(o)
                    if EXB(z3.Or(t < -2 ** 31, t >= 2 ** 31)): raise OverflowError("Integer does not fit the attribute")
                    cells[i] = z3.simplify(z3.Extract(31, 0, t))
                elif isinstance(o, float): cells[i] = to32(o)
                elif isinstance(o, int): cells[i] = z3.fpSignedToFP(pysym.RNE, SymInt.of(o), pysym.F32)
                else: raise ValueError("Expecting a sequence of floats or ints")
        def set(self, h, j, seq):
            j = int(cint(j)); self._set(self.a[h.k], j if 0 <= j < self.n else None, seq)
        def setFixed(self, h, seq): self._set(self.f[h.k], 0, seq)
        def _tab(l):
            def reg(self, h, s):
                tab = getattr(self, l)[h.k]["tab"]; s = text(s)
                for k, x in enumerate(tab):
                    if x == s: return k
                tab.append(s); return len(tab) - 1
            def put(self, h, k, s):
                tab = getattr(self, l)[h.k]["tab"]; k = int(cint(k))
                if not 0 <= k < len(tab): return
                tab[k] = text(s)
            def look(self, h, s):
                s = text(s)
                for k, x in enumerate(getattr(self, l)[h.k]["tab"]):
                    if x == s: return k
                return -1
            def tab(self, h): return list(getattr(self, l)[h.k]["tab"])
            return reg, put, look, tab
        registerIndexedStr, setIndexedStr, lookupIndexedStr, indexedStrs = _tab("a")
        registerFixedIndexedStr, setFixedIndexedStr, lookupFixedIndexedStr, fixedIndexedStrs = _tab("f")
        del _tab
        def __getattr__(self, n): raise Unsupported("the set's " + n)

    import itertools
    fresh = itertools.count()
    EXB = ex.branch
    def mkfloat(t):
        f = SymFloat(z3.fpFPToFP(pysym.RNE, t, pysym.F64)); f.narrow = t
        return f
    def to32(o):
        if type(o) is SymFloat: return getattr(o, "narrow", None) if hasattr(o, "narrow") else z3.fpFPToFP(pysym.RNE, o.t, pysym.F32)
        return z3.fpFPToFP(pysym.RNE, pysym.fpval(o), pysym.F32)

    class Doc(str):
        """JSON text with a symbolic structure"""
        def __new__(cls, v):
            s = str.__new__(cls, "\ue000json\ue000"); s.v = v; return s

    def norm(v, k):
        """what reading back what is written gives"""
        if isinstance(v, SymStr) or v is None or isinstance(v, bool): return v
        if isinstance(v, str): return text(v)
        if isinstance(v, float):
            if not k.get("allow_nan", True) and EXB(z3.Or(z3.fpIsNaN(SymFloat.of(v)), z3.fpIsInf(SymFloat.of(v)))): raise ValueError("Out of range float values are not JSON compliant")
            return v
        if isinstance(v, int): return v
        if isinstance(v, (list, tuple)): return [norm(x, k) for x in v]
        if isinstance(v, dict):
            items = list(v.items())
            if k.get("sort_keys"): items = sorted(items)
            r = {}
            for x, y in items:
                if not isinstance(x, (str, int, float)) and x is not None:
                    if k.get("skipkeys"): continue
                    raise TypeError("keys must be str, int, float, bool or None")
                x = x if isinstance(x, str) else "null" if x is None else {True: "true", False: "false"}[x] if isinstance(x, bool) else str(x)
                r[x] = norm(y, k)
            return r
        if k.get("default"): return norm(k["default"](v), k)
        raise TypeError("Object of type %s is not JSON serializable" % type(v).__name__)

    def hooks(v, k):
        if isinstance(v, list): return [hooks(x, k) for x in v]
        if isinstance(v, dict):
            items = [(x, hooks(y, k)) for x, y in v.items()]
            return k["object_pairs_hook"](items) if k.get("object_pairs_hook") else k["object_hook"](dict(items)) if k.get("object_hook") else dict(items)
        if isinstance(v, float) and k.get("parse_float"): return k["parse_float"](repr(v))
        if isinstance(v, int) and not isinstance(v, bool) and k.get("parse_int"): return k["parse_int"](repr(v))
        return v

    def known(k, names):
        for x in k:
            if x not in names: raise Unsupported("json option " + x)
    class FakeJson:
        JSONDecodeError = json.JSONDecodeError
        @staticmethod
        def dumps(v, **k):
            known(k, ("indent", "sort_keys", "separators", "ensure_ascii", "allow_nan", "default", "skipkeys", "check_circular"))
            return Doc(norm(v, k))
        @staticmethod
        def loads(t, **k):
            known(k, ("object_hook", "object_pairs_hook", "parse_float", "parse_int"))
            if not isinstance(t, Doc):
                if "\ue000" in t: raise Unsupported("text made of JSON")
                return hooks(norm(json.loads(t), {}), k)
            return hooks(norm(t.v, {}), k)
        @staticmethod
        def dump(v, fp, **k): fp.write(FakeJson.dumps(v, **k))
        @staticmethod
        def load(fp, **k): return FakeJson.loads(fp.read(), **k)
        def __getattr__(self, n): raise Unsupported("json." + n)

    class File:
        def __init__(self, c, name, mode): self.c, self.name, self.mode = c, name, mode
        def __enter__(self): return self
        def __exit__(self, *a): pass
        def close(self): pass
        def flush(self): pass
        def read(self):
            v = self.c.fs[self.name]
            if not isinstance(v, str): raise Unsupported("reading a particle file as text")
            return v
        def write(self, t):
            old = self.c.fs[self.name]
            if isinstance(t, Doc):
                if old != "": raise Unsupported("JSON after text")
                self.c.fs[self.name] = t
            elif isinstance(old, Doc):
                if t.strip(): raise Unsupported("text after JSON")
            else: self.c.fs[self.name] = old + plain(t)
        def __getattr__(self, n): raise Unsupported("the file's " + n)

    class Sym:
        def __init__(self):
            self.cfg, self.partio = cfg, types.SimpleNamespace()
            p = self.partio
            p.NONE, p.VECTOR, p.FLOAT, p.INT, p.INDEXEDSTR = range(5)
            def TypeName(i):
                i = int(cint(i))
                if not 0 <= i < 5: raise Unsupported("TypeName")
                return TYPENAMES[i]
            def clone(s, particles=True, names=None):
                if names: raise Unsupported("clone with a map of names")
                r = s.copy()
                if not particles: r.a, r.n = [], 0
                return r
            p.TypeName, p.create, p.read, p.write, p.clone = TypeName, Set, self.read, self.write, clone
            self.fs, self.errs, self.outs, self.qt = {}, [], [], qt()
            p.__getattr__ = None
            self.sys_ = FakeSys(self); self.os_ = FakeOs(self)
        def choice(self, name, n): return ex.choice(name, n)
        def u32(self, name): return ex.var(name, 32)
        def text(self, name, pal):
            v = ex.var(name, 8); ex.s.add(z3.ULT(v, len(pal))); return SymStr(v, pal)
        def name(self, x): return SymStr(z3.BitVecVal(ALL.index(x), 8), ALL)
        def floatval(self, x):
            return mkfloat(x if z3.is_fp(x) else z3.fpBVToFP(x, pysym.F32))
        def intval(self, x): return x if isinstance(x, int) else pysym.mkint(z3.SignExt(pysym.W - 32, x))
        def floatbits(self, x): return z3.fpSignedToFP(pysym.RNE, SymInt.of(self.intval(x)), pysym.F32)
        def small(self, x): return SymBool(z3.ULT(x, 256))
        def samef(self, g, x):
            if not isinstance(g, float): return False
            w = self.floatval(x).narrow
            return SymBool(g.narrow == w) if hasattr(g, "narrow") else SymBool(SymFloat.of(g) == z3.fpFPToFP(pysym.RNE, w, pysym.F64))
        def assume(self, v): ex.assume(v)
        def check(self, v, msg): ex.check(v, msg, where="src/tools/%s.py" % tool)
        def plain(self, x): return plain(x)
        def stderr(self): return "".join(self.errs)
        def read(self, name, verbose=True, *a):
            v = self.fs.get(plain(name))
            if isinstance(v, tuple): return v[0].copy()
            if verbose: self.errs.append("Partio: cannot read\n")
            return None
        def write(self, name, s, compressed=False, verbose=True):
            if s is None: raise TypeError("None is not allowed")
            name = plain(name)
            if os.path.splitext(name)[1] in KNOWN_EXT: self.fs[name] = (s.copy(), bool(compressed))
        def namespace(self, name):
            import builtins
            b = dict(vars(builtins)); b["int"], b["float"] = pysym.IntType, pysym.FloatType
            def imp(n, *a, **k):
                if n in self.qt: return self.qt[n] if len(a) > 2 and a[2] else self.qt["Qt"]
                top = {"partio": self.partio, "json": FakeJson(), "sys": self.sys_, "os": self.os_, "os.path": self.os_}.get(n)
                if n == "os.path" and len(a) > 2 and a[2]: return self.os_.path
                return top if top is not None else __import__(n, *a, **k)
            def op(name, mode="r", *a, **k):
                name = plain(name)
                if "b" in mode or "+" in mode or "a" in mode: raise Unsupported("open mode " + mode)
                if "w" in mode or "x" in mode: self.fs[name] = ""
                elif name not in self.fs: raise FileNotFoundError(name)
                return File(self, name, mode)
            def pr(*a, **k): (self.errs if k.get("file") is self.sys_.stderr else self.outs).append(" ".join(str(plain(x)) if isinstance(x, (str, int)) else "?" for x in a) + "\n")
            b["__import__"], b["open"], b["print"] = imp, op, pr
            return {"__name__": name, "__builtins__": b, "__file__": path}
        def zero(self): return z3.FPVal(0, pysym.F32)
        def cellmax(self, x, y): return z3.If(x > y, x, y)
        def cellplus1(self, x): return x + 1
        def samecell(self, x, y): return SymBool(self.floatval(x).narrow == self.floatval(y).narrow)
        def call(self, f, *a): return self.run(lambda: f(*a))
        def reread(self, name):
            v = self.fs.get(name); ex.check(isinstance(v, tuple), "the file can be read"); return v[0]
        def module(self, want=tool):
            ns = self.namespace(want); self.run(lambda: exec(code, ns))
            if want != "partjson": return types.SimpleNamespace(**{k: v for k, v in ns.items() if not k.startswith("__")})
            # functions of the module: what they raise is a finding
            return types.SimpleNamespace(**{k: (lambda *a, _f=v: self.run(lambda: _f(*a))) for k, v in ns.items() if isinstance(v, types.FunctionType)})
        def run(self, f):
            try:
                return f()
            except Exception as e:
                tb = [x for x in traceback.extract_tb(e.__traceback__) if x.filename == target]
                ex.check(False, "raises %s: %s" % (type(e).__name__, str(e)[:100].replace("\ue000", "")), "exception", " < ".join("%s:%d" % (x.name, x.lineno) for x in tb[::-1]))
        def through_text(self, data, **k): return FakeJson.loads(FakeJson.dumps(data, **k))
        def put_json(self, name, data): self.fs[name] = FakeJson.dumps(data)
        def put_text(self, name, t): self.fs[name] = t
        def get_json(self, name):
            v = self.fs[name]
            ex.check(isinstance(v, Doc), "the output is JSON")
            return FakeJson.loads(v)
        def listing(self): return {k: id(v) for k, v in self.fs.items()}
        def compressed(self, name): return self.fs[name][1]
        def run_main(self, args):
            self.keep = list(self.fs.values())
            self.sys_.argv = ["partjson.py"] + args
            status = 0
            real = sys.argv, sys.stdout, sys.stderr  # for modules that use them
            try:
                sys.argv, sys.stdout, sys.stderr = self.sys_.argv, self.sys_.stdout, self.sys_.stderr
                exec(code, self.namespace("__main__"))
            except SystemExit as e:
                status = 0 if e.code is None else e.code
                if isinstance(status, str): self.errs.append(status); status = 1
            except Exception as e:
                self.errs.append("Traceback: %r\n" % (e,)); status = 1
            finally:
                sys.argv, sys.stdout, sys.stderr = real
            return status, "".join(self.outs)

    class Out:
        def __init__(self, l): self.l = l
        def write(self, t): self.l.append(t if not isinstance(t, SymStr) else "?")
        def writelines(self, ts): [self.write(t) for t in ts]
        def flush(self): pass
        def isatty(self): return False
    class FakeSys:
        def __init__(self, c): self.stderr, self.stdout, self.argv = Out(c.errs), Out(c.outs), ["partjson.py"]
        def __getattr__(self, n): return getattr(sys, n)
    class FakePath:
        def __init__(self, c): self.c = c
        def exists(self, p): return plain(p) in self.c.fs
        isfile = lexists = exists
        def __getattr__(self, n):
            f = getattr(os.path, n)
            if n in ("isdir", "getsize", "getmtime", "realpath", "samefile", "islink"): raise Unsupported("os.path." + n)
            return (lambda *a: f(*[plain(x) for x in a])) if callable(f) else f
    class FakeOs:
        def __init__(self, c): self.path = FakePath(c)
        def access(self, p, m): return plain(p) in self.path.c.fs
        def __getattr__(self, n):
            if n in ("sep", "linesep", "R_OK", "W_OK", "F_OK", "environ", "fspath", "name"): return getattr(os, n)
            raise Unsupported("os." + n)

    ex.explore(lambda e: MODES[int(cfg["mode"])](Sym()), t0 + maxtime, samples)
    st = ex.stats
    d = dict(st, transitions=st["instructions"], violations=ex.violations, samples=ex.samples, covers=ex.covers, functions=sorted(tool + ".py:" + f for f in ex.functions if f != "<module>"),
             incomplete_why=ex.incomplete, complete=not ex.incomplete, wall_s=time.time() - t0, solver=ex.sol)
    with open(out, "w") as f: json.dump(d, f)


if __name__ == "__main__":
    kv = lambda l: dict(x.split("=", 1) for x in l)
    if sys.argv[1] == "--sym":
        symbolic(sys.argv[2], sys.argv[3], float(sys.argv[4]), int(sys.argv[5]), int(sys.argv[6]), int(sys.argv[7]), kv(sys.argv[8:]))
    else:
        native(sys.argv[2], sys.argv[3], sys.argv[4], sys.argv[5], kv(sys.argv[6:]))
