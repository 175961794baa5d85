# Python side of C16 (run) and C17 (hist, leak); see ../bind.py
import copy, gc, pickle, random, sys, threading
import hext

def hx(b): return b.hex() or "-"
def un(s): return b"" if s == "-" else bytes.fromhex(s)

def canon(res):
    if type(res) is not list: raise TypeError("the result is a %r" % type(res))
    out = []
    for g in res:
        if type(g) is not dict: raise TypeError("a group is a %r" % type(g))
        o = []
        for k, v in g.items():
            if type(k) is not str: raise TypeError("a name is a %r" % type(k))
            if type(v) is str: s = hx(v.encode())
            elif type(v) is list:
                for x in v:
                    if type(x) is not str: raise TypeError("a value is a %r" % type(x))
                s = "[" + ",".join(hx(x.encode()) for x in v) + "]"
            else: raise TypeError("a value is a %r" % type(v))
            o.append(hx(k.encode()) + "=" + s)
        out.append("{" + ";".join(o) + "}")
    return "".join(out) or "none"

def observe(fn):
    try: return "G " + canon(fn())
    except UnicodeError as e: return "E %s %s" % (type(e).__name__, hx(repr(e).encode()))
    except Exception as e:
        c = [k.__name__ for k in (ValueError, RuntimeError, TypeError) if isinstance(e, k)]
        return "E %s %s" % ((c or [type(e).__name__])[0], hx(str(e).encode("utf-8", "surrogateescape")))

def live(): return int(open("/proc/self/vh-live").read())

def run(path):
    for line in open(path):
        t, h, n = line.split()
        t, h, n = un(t).decode(), un(h).decode(), int(n)
        def f():
            rule = hext.Rule(t)
            doc = hext.Html(h)
            return rule.extract(doc) if n == 0 else rule.extract(doc, n)
        print(observe(f), flush=False)

class NoInitRule(hext.Rule):
    def __init__(self): pass
class NoInitHtml(hext.Html):
    def __init__(self): pass
class SubRule(hext.Rule): pass
class SubHtml(hext.Html):
    def __init__(self, s): super().__init__(s)
class Stringy(str): pass
class Evil(str):
    def encode(self, *a): raise RuntimeError("no")
class BadInt(int):
    def __index__(self): raise RuntimeError("no")
    def __int__(self): raise RuntimeError("no")

R, H = hext.Rule, hext.Html
def r(): return R("<a href:x/>")
def h(): return H("<a href=1></a>")
# name, whether it has to raise, call
WRONG = [
    ("Rule()", 1, lambda: R()), ("Html()", 1, lambda: H()), ("Rule(None)", 1, lambda: R(None)), ("Html(None)", 1, lambda: H(None)),
    ("Rule(bytes)", 1, lambda: R(b"<a/>")), ("Html(bytes)", 1, lambda: H(b"<a>")), ("Rule(int)", 1, lambda: R(1)), ("Html([])", 1, lambda: H([])),
    ("Rule(a,b)", 1, lambda: R("<a/>", "<b/>")), ("Html(a,b)", 1, lambda: H("<a>", 1)), ("Html(surrogate)", 1, lambda: H("<a>\ud800")),
    ("Rule(surrogate)", 1, lambda: R("<a \udfff/>")), ("Rule(bytearray)", 1, lambda: R(bytearray(b"<a/>"))), ("Html(object)", 1, lambda: H(object())),
    ("extract()", 1, lambda: r().extract()), ("extract(None)", 1, lambda: r().extract(None)), ("extract(str)", 1, lambda: r().extract("<a>")),
    ("extract(rule)", 1, lambda: r().extract(r())), ("extract(class)", 1, lambda: r().extract(H)), ("extract(h,None)", 1, lambda: r().extract(h(), None)),
    ("extract(h,-1)", 1, lambda: r().extract(h(), -1)), ("extract(h,2**64)", 1, lambda: r().extract(h(), 2**64)), ("extract(h,-2**70)", 1, lambda: r().extract(h(), -2**70)),
    ("extract(h,1.0)", 1, lambda: r().extract(h(), 1.0)), ("extract(h,'1')", 1, lambda: r().extract(h(), "1")), ("extract(h,1,2)", 1, lambda: r().extract(h(), 1, 2)),
    ("extract(h,*1000)", 1, lambda: r().extract(h(), *range(1000))), ("extract(h,k=1)", 1, lambda: r().extract(h(), k=1)), ("extract(h,True)", 1, lambda: r().extract(h(), True)),
    ("extract(h,BadInt)", 0, lambda: r().extract(h(), BadInt(0))),
    ("Rule.extract(None,h)", 1, lambda: R.extract(None, h())), ("Rule.extract(h,h)", 1, lambda: R.extract(h(), h())), ("Rule.extract(1,h)", 1, lambda: R.extract(1, h())),
    ("Rule.extract()", 1, lambda: R.extract()), ("noinit rule", 1, lambda: NoInitRule().extract(h())), ("noinit html", 1, lambda: r().extract(NoInitHtml())),
    ("new rule", 1, lambda: R.__new__(R).extract(h())), ("new html", 1, lambda: r().extract(H.__new__(H))),
    ("failed rule", 1, lambda: half(R, "<a").extract(h())), ("failed html", 1, lambda: r().extract(half(H, 5))),
    ("deepcopy", 1, lambda: copy.deepcopy(r())), ("pickle", 1, lambda: pickle.dumps(h())), ("sub html", 0, lambda: r().extract(SubHtml("<a href=1>"))),
    ("sub rule", 0, lambda: SubRule("<a/>").extract(h())), ("copy", 0, lambda: copy.copy(r()).extract(copy.copy(h()))), ("stringy", 0, lambda: R(Stringy("<a/>")).extract(H(Evil("<a>")))),
    ("reinit", 0, lambda: reinit()), ("repr", 0, lambda: (repr(r()), str(h()), r() == r(), hash(h()), bool(r()))), ("attribute", 1, lambda: r().nope),
    ("dict", 0, lambda: (vars(r()), dir(h()))), ("keyword", 0, lambda: r().extract(html=h(), max_searches=100)), ("recursion", 1, lambda: deep()),
]
def half(c, a):
    o = c.__new__(c)
    try: o.__init__(a)
    except Exception: pass
    return o
def reinit():
    x, y = r(), h()
    x.__init__("<b/>"); y.__init__("<b>")
    return x.extract(y)
def deep():
    x, y = r(), h()
    def f(): x.extract(y); f()
    f()

def pool(path):
    T, D, X = [], [], {}
    for line in open(path):
        w = line.split()
        if w[0] == "T": T.append(un(w[1]).decode())
        elif w[0] == "H": D.append(un(w[1]).decode())
        else: X[int(w[1]), int(w[2]), int(w[3])] = " ".join(w[4:])
    return T, D, X

class Fail(Exception): pass
SYNTAX, LIMIT, OTHER = "ValueError", "RuntimeError", "RuntimeError"

def agree(got, want, what):
    w = want.split()
    if w[0] == "S": return
    if w[0] == "U":
        if not got.startswith("E "): raise Fail("%s: a value that is not UTF-8 gave %s" % (what, got[:300]))
        return
    if w[0] == "G":
        if got != want: raise Fail("%s:\n  got      %s\n  expected %s" % (what, got[:800], want[:800]))
        return
    cls = {"syntax": SYNTAX, "limit": LIMIT, "other": OTHER}[w[1]]
    g = got.split()
    if g[0] != "E" or g[1] != cls or (w[2] != "?" and un(w[2]) not in un(g[2])):
        raise Fail("%s:\n  got      %s\n  expected %s %s %s" % (what, got[:800], cls, w[1], un(w[2]) if w[2] != "?" else ""))

def hist(path, seed, steps):
    T, D, X = pool(path)
    rnd = random.Random(seed)
    rules, docs, kept = [], [], []
    ok = [i for i in range(len(T)) if not any(X.get((i, 0, 0), "").startswith("E " + k) for k in ("syntax",))]
    bad = [i for i in range(len(T)) if i not in ok]
    lims = {}
    for t, d, n in X: lims.setdefault((t, d), []).append(n)
    count = {}
    log = sys.stderr
    for step in range(steps):
        k = rnd.randrange(100)
        op = "?"
        if k < 16 or not rules:
            i = rnd.choice(ok); op = "rule %d" % i
            s = "".join(list(T[i])); x = R(s); del s
            rules.append((i, x))
            if len(rules) > 8: rules.pop(rnd.randrange(len(rules)))
        elif k < 24 and bad:
            i = rnd.choice(bad); op = "bad rule %d" % i
            print(step, op, file=log, flush=True)
            agree(observe(lambda: R(T[i])), X[i, 0, 0], "template %r" % T[i][:300])
        elif k < 38 or not docs:
            i = rnd.randrange(len(D)); op = "html %d" % i
            s = "".join(list(D[i])); x = H(s); del s
            docs.append((i, x))
            if len(docs) > 8: docs.pop(rnd.randrange(len(docs)))
        elif k < 66:
            (i, x), (j, y) = rnd.choice(rules), rnd.choice(docs)
            n = rnd.choice(lims[i, j]); op = "extract %d %d %d" % (i, j, n)
            print(step, op, file=log, flush=True)
            a, b = sys.getrefcount(x), sys.getrefcount(y)
            res = []
            def f():
                res.append(x.extract(y, n) if n or rnd.random() < .3 else x.extract(y))
                return res[0]
            got = observe(f)
            del f
            if (sys.getrefcount(x), sys.getrefcount(y)) != (a, b): raise Fail("an extraction changed the reference counts of its rule or document")
            agree(got, X[i, j, n], "template %r on %r, limit %d" % (T[i][:300], D[j][:300], n))
            if res:
                if sys.getrefcount(res[0]) != 2: raise Fail("a result has %d references" % (sys.getrefcount(res[0]) - 1))
                for g in res[0]:
                    if sys.getrefcount(g) != 3: raise Fail("a group has %d references" % (sys.getrefcount(g) - 1))
                    for v in list(g.values()):
                        if type(v) is list and sys.getrefcount(v) != 4: raise Fail("a list of values has %d references" % (sys.getrefcount(v) - 2))
                    g = v = None
                kept.append((got, res[0]))
                if len(kept) > 12: kept.pop(rnd.randrange(len(kept)))
        elif k < 74 and kept:
            op = "kept"
            got, res = rnd.choice(kept)
            if "G " + canon(res) != got: raise Fail("a result changed after it was returned")
        elif k < 80:
            op = "drop"
            for l in (rules, docs, kept):
                if l and rnd.random() < .5: l.pop(rnd.randrange(len(l)))
        elif k < 85:
            op = "gc"; gc.collect()
        elif k < 88:
            op = "share"
            if rules: rules.append(rnd.choice(rules))
            if docs: docs.append((docs[0][0], copy.copy(docs[0][1])))
        else:
            name, must, f = rnd.choice(WRONG)
            op = "wrong " + name
            print(step, op, file=log, flush=True)
            try:
                f()
                if must: raise Fail("%s raised nothing" % name)
            except Fail: raise
            except Exception: pass
        count[op.split()[0]] = count.get(op.split()[0], 0) + 1
    print("DONE", " ".join("%s=%d" % c for c in sorted(count.items())))

def leak(path, per):
    T, D, X = pool(path)
    ops = []
    def add(name, f): ops.append((name, f))
    okpair = [k for k in X if X[k].startswith("G {") and len(X[k]) > 60][:3]
    for k in okpair:
        x, y = R(T[k[0]]), H(D[k[1]])
        add("extract %d %d" % k[:2], lambda x=x, y=y: x.extract(y))
    x, y = R("<ul><+li @text:name class:'other name'/></ul>"), H("<ul>" + "".join("<li class='class number %d'>value number %d</li>" % (i, i) for i in range(5)) + "</ul>")
    add("lists of values", lambda x=x, y=y: x.extract(y))
    for kind in ("syntax", "limit", "other", "U"):
        for k in [k for k in X if X[k].startswith("U" if kind == "U" else "E " + kind)][:2]:
            if kind == "syntax": add("syntax %d" % k[0], lambda k=k: R(T[k[0]]))
            else:
                x, y = R(T[k[0]]), H(D[k[1]])
                add("%s %d %d" % (kind, k[0], k[1]), lambda x=x, y=y, n=k[2]: x.extract(y, n))
    for k in okpair[:1]:
        add("rule", lambda: R(T[k[0]])); add("html", lambda: H(D[k[1]]))
    for name, must, f in WRONG:
        if name not in ("recursion", "reinit"): add("wrong " + name, f)
    for name, f in ops:
        def go(n):
            for _ in range(n):
                try: f()
                except Exception: pass
        n = per
        go(20); gc.collect(); go(20); gc.collect()
        m = [live()]
        for _ in range(5):
            go(n); gc.collect(); m.append(live())
        grow = [b - a for a, b in zip(m, m[1:])][2:]
        print("LEAK %d %d %s" % (min(grow), n, name))
    print("DONE")

if sys.argv[1] == "run": run(sys.argv[2])
else:
    try:
        if sys.argv[1] == "hist": hist(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]))
        else: leak(sys.argv[2], int(sys.argv[3]))
    except Fail as e:
        print("FAIL " + str(e))
        sys.exit(1)
