"""C14 and C15: htmlext run on generated command lines, its output, status and
messages judged against what the library makes of the same bytes."""
import errno, hashlib, json, multiprocessing, os, pwd, random, shutil, signal, socket, subprocess, sys, tempfile, time
import lib
from lib import CheckError, Report

CORPUS = os.path.join(lib.HERE, "harness", "corpus")


def unhex(s):
    return b"" if s == "-" else bytes.fromhex(s)


def hexs(b):
    return b.hex() or "-"


def gen(vh, seed, a, b, mode):
    p = subprocess.run([vh, "gen", str(seed), str(a), str(b), mode, CORPUS], stdout=subprocess.PIPE, env=lib.ENV, check=True)
    return [tuple(unhex(x) for x in l.split(" ")) for l in p.stdout.decode().splitlines()]


def dump(vh, jobs):
    """The library's view of [(template, html, limit)]: {"g": groups} or {"e": kind, "m": message}."""
    inp = "".join("%s %s %d\n" % (hexs(t), hexs(h), n) for t, h, n in jobs).encode()
    p = subprocess.run([vh, "dump"], input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=lib.ENV)
    lines = p.stdout.decode().splitlines()
    if p.returncode != 0 or len(lines) != len(jobs):
        i = len(lines)
        raise lib.CheckError("the library could not be asked about template %r on %r (exit %d): %s" % (
            jobs[i][0][:300] if i < len(jobs) else "", jobs[i][1][:300] if i < len(jobs) else "", p.returncode, p.stderr.decode("utf-8", "replace")[-1500:]))
    out = []
    for l in lines:
        d = json.loads(l)
        if "g" in d:
            d = {"g": [[(unhex(a), unhex(b)) for a, b in g] for g in d["g"]]}
        else:
            d["m"] = bytes.fromhex(d["m"])
        out.append(d)
    return out


def is_utf8(b):
    try:
        b.decode("utf-8")
        return True
    except UnicodeDecodeError:
        return False


def collect(group):
    """A group as the documented JSON object: repeated names become arrays."""
    o = {}
    for k, v in group:
        o.setdefault(k.decode(), []).append(v.decode())
    return {k: v[0] if len(v) == 1 else v for k, v in o.items()}


class Dup(Exception):
    pass


def no_dups(pairs):
    o = dict(pairs)
    if len(o) != len(pairs):
        raise Dup("a name occurs twice in a JSON object")
    return o


def stream(text):
    """The JSON documents of a text, each of which must end with a newline."""
    dec = json.JSONDecoder(object_pairs_hook=no_dups, strict=True)
    i, out = 0, []
    while i < len(text):
        v, j = dec.raw_decode(text, i)
        if text[j:j + 1] != "\n":
            raise ValueError("no newline after a JSON document")
        out.append((v, text[i:j]))
        i = j + 1
    return out


def large(r, sweep=False):
    """A (template, document) pair with a result that is large in one way."""
    if sweep or r.random() < 0.15:   # groups of many sizes
        ks = list(range(1, 36)) + [63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 255, 256, 257, 258, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025]
        return b"<ul><+li v:all @text:t/></ul>", b"".join(b"<ul>" + b"".join(b"<li v=%d>%d" % (i, i % 3) for i in range(k)) + b"</ul>" for k in ks)
    k = r.choice([30, 90, 100, 128, 150, 255, 256, 400, 512, 700, 1024, 3000]) + r.choice([-1, 0, 0, 1, 2])
    w = [b"item", b"caf\xc3\xa9", b"x y", b"", b"\xe2\x82\xac&#38;", b"long value " * r.randrange(1, 30)]
    vals = [r.choice(w) + b"%d" % i for i in range(k)]
    doc = b"<ul>" + b"".join(b"<li v='%s'>%s</li>" % (v, r.choice(w)) for v in vals) + b"</ul>"
    kind = r.randrange(6)
    if kind == 0:    # many values of one name
        return b"<ul><+li v:all/></ul>", doc
    if kind == 1:    # of two names, that alternate
        return b"<ul><+li v:a @text:b/></ul>", doc
    if kind == 2:    # many groups
        return b"<li v:all @text:t/>", doc
    if kind == 3:    # many names in a group
        return b"<ul " + b" ".join(b"a%d:n%d" % (i, i) for i in range(k)) + b"/>", b"<ul " + b" ".join(b"a%d='%s'" % (i, v) for i, v in enumerate(vals)) + b"></ul>"
    if kind == 4:    # a name with many values among others
        return b"<ul @text:first><li v:x/><+li v:all/></ul>", doc
    big = r.choice(w[:2]) * r.choice([300, 4000, 20000])   # a long value, a long name
    return b"<a href:" + r.choice([b"x", b"n" * 3000]) + b" @text:t/>", b"<a href='%s'>%s</a>" % (big, big)


def oversize(r):
    """A (template, document) pair of which one is longer than the usual buffers; what counts is at both ends."""
    n = r.choice([1 << 12, 1 << 13, 1 << 14, 1 << 15, 1 << 16, 1 << 17, 1 << 18, 1 << 20, 1 << 21, 3 << 20]) + r.randrange(-30, 30)
    t, h = b"<p id:x @text:y/>", b"<p id=first>a</p>%s<p id=last>b</p>"
    if r.random() < 0.4:
        fill = r.choice([b"# comment\n", b"  \n", b"\n", b"#\n"])
        return b"<p id:x><i/>" + fill * (n // len(fill)) + b"<b @text:y/></p>", b"<p id=1><i></i><b>c</b></p>"
    fill = r.choice([b"<!-- comment -->", b"text ", b"<b>x</b>", b"\n", b"<i></i>", b"<!--" + b"-c" * 2000 + b"-->"])
    return t, h % (fill * (n // len(fill)))


def work_dir(tag):
    d = tempfile.mkdtemp(prefix="vh-%s-" % tag)
    os.chmod(d, 0o777)
    return d


def lim():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))


def unprivileged():
    lim()
    os.setgroups([])
    os.setgid(65534)
    os.setuid(65534)


def run(cmd, stdin=None, env=None, stdout=subprocess.PIPE, preexec=lim, timeout=120, cwd=None):
    """(status, stdout, stderr); status is negative for a signal, None for no end."""
    try:
        p = subprocess.run(cmd, input=stdin, stdin=subprocess.DEVNULL if stdin is None else None, stdout=stdout, stderr=subprocess.PIPE,
                           env=env or lib.ENV, preexec_fn=preexec, timeout=timeout, cwd=cwd)
    except subprocess.TimeoutExpired:
        return None, b"", b""
    return p.returncode, p.stdout or b"", p.stderr or b""


def run_tty(cmd, stdin):
    """run(), but standard output is a terminal. None if there are no terminals here."""
    import threading, tty
    try:
        master, slave = os.openpty()
        tty.setraw(slave)
    except OSError:
        return None
    got = []

    def reader():
        while True:
            try:
                b = os.read(master, 65536)
            except OSError:   # the other side is closed
                return
            if not b:
                return
            got.append(b)
    t = threading.Thread(target=reader)
    t.start()
    try:
        rc, _, err = run(cmd, stdin, stdout=slave)
    finally:
        os.close(slave)
        t.join(60)
        os.close(master)
    return rc, b"".join(got), err


def crashed(rc, err):
    return rc is None or rc < 0 or rc in (66, 77, 134, 139) or b"Sanitizer" in err or b"runtime error:" in err


# ------------------------------------------------------------------------- C14
SCRATCH_FILES = 0


def command(r, htmlext, d, templates, docs, opts):
    """Writes the inputs to files of d and makes the command line for them."""
    tfiles, strs = [], []
    args = []
    for i, (t, as_string) in enumerate(templates):
        if as_string:
            strs.append(t)
        else:
            p = os.path.join(d, "t%d.hext" % i).encode()
            with open(p, "wb") as f:
                f.write(t)
            tfiles.append(p)
    hfiles, stdin = [], None
    use_stdin = r.random() < 0.08
    for i, h in enumerate(docs):
        p = os.path.join(d, r.choice(["h%d.html", "h %d", "h\xe9%d.html", "h%d"]) % i).encode()
        if use_stdin and i == 0:
            stdin, p = h, b"-"
        else:
            with open(p, "wb") as f:
                f.write(h)
        hfiles.append(p)
    order = []
    positional_t = tfiles and r.random() < 0.4
    for i, p in enumerate(tfiles):
        if positional_t and i == 0:
            continue   # the only positional template is the first file
        order.append(("x", [r.choice([[b"-x", p], [b"--hext", p], [b"--hext=" + p]])][0]))
    # the order of one kind of argument counts, the order between kinds does not
    strs_a = [("s", r.choice([[b"-s", s], [b"--str", s], [b"--str=" + s]])) for s in strs]
    positional_h = positional_t and b"-" not in hfiles and r.random() < 0.7
    html_a = [("i", r.choice([[b"-i", p], [b"--html", p], [b"--html=" + p]])) for p in hfiles]
    pos = []
    if positional_t:
        if len(tfiles) > 1:
            # mixing both forms leaves the order of the files to the option parser
            order = [("x", [b"-x", p]) for p in tfiles]
        else:
            pos.append(tfiles[0])
            if positional_h:
                pos += hfiles
                html_a = []
    groups = [g for g in (order, strs_a, html_a, [("o", o) for o in opts]) if g]
    while groups:
        g = r.choice(groups)
        args += g.pop(0)[1]
        if not g:
            groups.remove(g)
    if pos:
        k = r.choice([0, 1])
        args = (pos + args) if k else (args + pos)
    return [htmlext.encode()] + args, stdin


def expected(res, templates, ntem, ndoc):
    """Results in print order (files first, then strings), up to the first limit error."""
    order = [i for i in range(ntem) if not templates[i][1]] + [i for i in range(ntem) if templates[i][1]]
    out = []
    for i in order:
        for j in range(ndoc):
            x = res[i * ndoc + j]
            if "e" in x:
                return out, x
            out.append(x["g"])
    return out, None


def judge14(rc, out, err, results, limit_error, mode, key):
    if crashed(rc, err):
        return "htmlext crashed or did not end (status %s): %s" % (rc, err[-1500:].decode("utf-8", "replace"))
    if limit_error is None and rc != 0:
        return "htmlext failed (status %d) though nothing is wrong: %s" % (rc, err[-600:].decode("utf-8", "replace"))
    if limit_error is not None:
        if rc == 0:
            return "the search limit is exceeded, but htmlext exits with status 0"
        if limit_error["m"] not in err:
            return "the search limit is exceeded, but standard error does not say so: %r" % err[-300:]
    partial = limit_error is not None
    if key is not None:
        want = b"".join(v + b"\n" for g in results for x in g for k, v in x if k == key)
        if (not want.startswith(out)) if partial else out != want:
            return "--filter %r printed\n %r\n instead of\n %r" % (key, out[:2000], want[:2000])
        return None
    if not all(is_utf8(k) and is_utf8(v) for g in results for x in g for k, v in x):
        return None   # JSON cannot represent these
    try:
        text = out.decode("utf-8")
        docs = stream(text)
    except (ValueError, Dup) as e:
        if partial and isinstance(e, ValueError):
            return None
        return "the output is not a sequence of valid JSON documents (%s): %r" % (e, out[:1500])
    array, pretty = "a" in mode, "p" in mode
    if pretty:
        for v, s in docs:
            if v and v != [{}] * len(v) and "\n" not in s:
                return "in pretty mode, a result is on a single line: %r" % s[:500]
    if array:
        want = [[collect(x) for x in g] for g in results if g]
    else:
        want = [collect(x) for g in results for x in g]
    got = [v for v, _ in docs]
    if (want[:len(got)] != got) if partial else want != got:
        return "the output is\n %s\n instead of\n %s" % (json.dumps(got)[:2500], json.dumps(want)[:2500])
    if not pretty:
        for v, s in docs:
            if "\n" in s:
                return "in compact mode, a result is not on a single line: %r" % s[:500]
    return None


def worker14(a):
    vh, htmlext, seed, lo, hi = a
    rep = {"evaluations": 0, "keys": [], "counters": {}, "samples": [], "violations": []}

    def count(k, n=1):
        rep["counters"][k] = rep["counters"].get(k, 0) + n
    r = random.Random("C14 %d %d" % (seed, lo))
    pool = gen(vh, seed, lo, hi, "valid")
    wild = gen(vh, seed + 77, lo, lo + (hi - lo) // 4 + 1, "hostile")
    wres = dump(vh, [(t, h, 0) for t, h in wild])
    wild = [w for w, x in zip(wild, wres) if "g" in x]
    cases = []
    for i in range(lo, hi):
        nt, nd = r.choice([1, 1, 1, 2, 3]), r.choice([1, 1, 1, 2, 3])
        pick = [pool[i - lo]] + [r.choice(wild) if wild and r.random() < 0.2 else r.choice(pool) for _ in range(max(nt, nd) - 1)]
        r.shuffle(pick)
        templates = [(t, b"\0" not in t and t != b"" and r.random() < 0.4) for t, _ in pick[:nt]]
        docs = [h for _, h in pick[:nd]]
        if r.random() < 0.03:   # output larger than any buffer
            docs[0] = b"<ul>" + b"".join(b"<li id=%d>item \xc3\xa4 %d</li>" % (k, k) for k in range(r.choice([300, 3000]))) + b"</ul>"
            templates[0] = (b"<li id:a @text:b/>", templates[0][1])
        elif r.random() < 0.006 and len(templates) == 1:
            t, docs[0] = oversize(r)
            templates[0] = (t, templates[0][1] and len(t) < 100000)
            count("oversized_inputs")
        elif r.random() < 0.04:
            t, docs[0] = large(r)
            templates[0] = (t, templates[0][1] and len(t) < 5000)
        limit = r.choice([0] * 14 + [1, 2, 3, 5, 8, 13, 30, 100, 300, 1000, 1000, 2 ** 31, 2 ** 32 + 1, 2 ** 64 - 1])
        cases.append((templates, docs, limit))
    jobs, at = [], []
    for templates, docs, limit in cases:
        at.append(len(jobs))
        jobs += [(t, h, limit) for t, _ in templates for h in docs]
    res = dump(vh, jobs)
    d = work_dir("C14")
    try:
        for n, (templates, docs, limit) in enumerate(cases):
            xs = res[at[n]:at[n] + len(templates) * len(docs)]
            if any(x.get("e") in ("syntax", "other") for x in xs):
                count("skipped_invalid")
                continue
            results, lerr = expected(xs, templates, len(templates), len(docs))
            names = [k for g in results for x in g for k, _ in x]
            mode, opts, key = "", [], None
            k = r.random()
            if k < 0.3 and names:
                key = r.choice(names) if r.random() < 0.85 else b"no such name"
                if b"\0" in key or key == b"" or key.startswith(b"-"):
                    key = None
                else:
                    opts.append(r.choice([[b"-f", key], [b"--filter", key], [b"--filter=" + key]]))
            if r.random() < 0.35:
                mode += "a"
                opts.append([r.choice([b"-a", b"--array"])])
            if r.random() < 0.35:
                mode += "p"
                opts.append([r.choice([b"-p", b"--pretty"])])
            compact = r.random() < 0.5
            if compact:   # --pretty takes precedence
                opts.insert(r.randrange(len(opts) + 1), [r.choice([b"-c", b"--compact"])])
            if limit or r.random() < 0.1:
                opts.append(r.choice([[b"-m", b"%d" % limit], [b"--max-searches", b"%d" % limit], [b"--max-searches=%d" % limit]]))
            cmd, stdin = command(r, htmlext, d, templates, docs, opts)
            tty = None
            if r.random() < 0.08:
                tty = run_tty(cmd, stdin)
            if tty:   # pretty is the default on a terminal
                rc, out, err = tty
                count("runs_on_a_terminal")
                if "p" not in mode and not compact:
                    mode += "p"
            else:
                rc, out, err = run(cmd, stdin)
            bad = judge14(rc, out, err, results, lerr, mode, key)
            rep["evaluations"] += 1
            count("runs_filter" if key is not None else "runs_" + (mode or "compact"))
            count("groups_checked", sum(len(g) for g in results))
            count("values_checked", len(names))
            if lerr:
                count("limit_errors")
            if len(templates) > 1 or len(docs) > 1:
                count("several_inputs")
            if stdin is not None:
                count("stdin_documents")
            if any(len(set(k for k, _ in x)) < len(x) for g in results for x in g):
                count("repeated_names")
            if names:
                rep["keys"].append(hashlib.blake2b(repr((templates, docs, opts)).encode(), digest_size=8).hexdigest())
            if len(rep["samples"]) < 1 and names:
                rep["samples"].append("%s -> %s" % (cmd, out[:200]))
            if bad:
                rep["violations"].append((bad, {"command": [os.fsdecode(x) for x in cmd], "templates": [hexs(t) for t, _ in templates],
                                                "documents": [hexs(h) for h in docs], "limit": limit, "stdout_is_a_terminal": bool(tty)}))
                break
            for f in os.listdir(d):
                os.unlink(os.path.join(d, f))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return rep


# ------------------------------------------------------------------------- C15
# One scenario is a command line whose inputs may be faulty, run once as it is,
# then once for every injected failure of one of its reads, opens and writes.
def scenario(r, vh_pool, bad_pool, d):
    """(args, stdin, parts); parts: what the command line asks for, for the judge."""
    lint = r.random() < 0.25
    items = []     # templates in processing order: (kind, bytes or path, fault)
    nt, nd = r.choice([1, 1, 2, 3]), r.choice([1, 1, 2, 3])
    faulty = r.random() < 0.6
    where = r.randrange(nt + (0 if lint else nd)) if faulty else -1
    nstr = r.choice([0, 0, 1, nt])
    k = 0
    args, order_t, order_h = [], [], []

    def write(name, data):
        p = os.path.join(d, name)
        with open(p, "wb") as f:
            f.write(data)
        return p

    def broken(name):
        kind = r.choice(["missing", "directory", "notdir", "loop", "memory", "denied", "long", "empty-name", "no-name", "dot", "socket", "dangling"])
        if kind == "missing":
            return kind, os.path.join(d, name + ".none")
        if kind == "directory":
            p = os.path.join(d, name + ".d")
            os.mkdir(p)
            return kind, p
        if kind == "notdir":
            return kind, os.path.join(write(name + ".f", b"<a/>"), "x")
        if kind == "loop":
            p = os.path.join(d, name + ".l")
            os.symlink(p, p)
            return kind, p
        if kind == "memory":
            return kind, "/proc/self/mem"
        if kind == "long":
            return kind, os.path.join(d, "n" * 300)
        if kind == "no-name":
            return kind, ""
        if kind == "dot":
            return kind, d + "/."
        if kind == "socket":
            p = os.path.join(d, name + ".s")
            with socket.socket(socket.AF_UNIX) as k:
                k.bind(p)
            return kind, p
        if kind == "dangling":
            p = os.path.join(d, name + ".k")
            os.symlink(p + ".none", p)
            return kind, p
        if kind == "empty-name":
            return kind, os.path.join(d, "sub", "")
        p = write(name + ".p", b"<a/>")
        os.chmod(p, 0)
        return kind, p
    pairs = [r.choice(vh_pool) for _ in range(max(nt, nd))]
    for i in range(nt):
        t = pairs[i][0]
        as_str = i >= nt - nstr and t and b"\0" not in t
        fault = None
        path = None
        if where == k:
            if r.random() < 0.5 or as_str:
                fault, t = "syntax", r.choice(bad_pool)
                if as_str and (b"\0" in t or not t):
                    t = b"<a"
            else:
                fault, path = broken("t%d" % i)
        if not as_str and path is None:
            path = write("t%d.hext" % i, t)
        order_t.append({"string": as_str, "bytes": t, "path": path, "fault": fault})
        k += 1
    # files are compiled before strings, whatever their order
    files = [x for x in order_t if not x["string"]]
    strings = [x for x in order_t if x["string"]]
    for x in order_t:
        args += [r.choice(["-s", "--str"]), x["bytes"]] if x["string"] else [r.choice(["-x", "--hext"]), x["path"]]
    if not lint:
        for i in range(nd):
            fault, path, h = None, None, pairs[i][1]
            if where == k:
                fault, path = broken("h%d" % i)
            if path is None:
                path = write("h%d.html" % i, h)
            order_h.append({"bytes": h, "path": path, "fault": fault})
            args += [r.choice(["-i", "--html"]), path]
            k += 1
    opts = []
    if lint:
        opts.append(r.choice(["-l", "--lint"]))
    if r.random() < 0.3:
        opts.append("-a")
    if r.random() < 0.3:
        opts.append("-p")
    limit = r.choice([0, 0, 0, 1, 3, 100])
    if limit:
        opts += ["-m", str(limit)]
    usage = None
    if r.random() < 0.08:   # a command line that asks for nothing sensible
        usage, extra = r.choice([("unknown option", ["--no-such-option"]), ("bad number", ["-m", "abc"]), ("bad number", ["--max-searches=99999999999999999999999"]),
                                 ("missing value", ["-f"]), ("no html", None), ("no hext", None), ("twice", ["-m", "1", "-m", "2"]), ("bad number", ["-m", "1x"]),
                                 ("bad number", ["--max-searches", ""])])
        if usage == "no html":
            if lint:
                usage = None
            else:
                args = [a for x in order_t for a in (["-s", x["bytes"]] if x["string"] else ["-x", x["path"]])]
        elif usage == "no hext":
            args = [] if lint else [a for x in order_h for a in ("-i", x["path"])]
        elif usage == "missing value":
            opts = opts + extra
        else:
            opts = extra + opts
    args = args + opts
    return {"args": [a if isinstance(a, bytes) else os.fsencode(a) for a in args], "lint": lint, "templates": files + strings, "docs": order_h, "limit": limit, "usage": usage}


def first_fault(s):
    for x in s["templates"] + s["docs"]:
        if x["fault"]:
            return x
    return None


def judge15(s, rc, out, err, base, injected=None):
    """base: (rc, out) of the run without injected failure, None when judging that run itself."""
    text = err[-1500:].decode("utf-8", "replace")
    if crashed(rc, err):
        return "htmlext crashed or did not end (status %s): %s" % (rc, text)
    if rc != 0 and not err.strip():
        return "htmlext failed (status %d) without a message on standard error" % rc
    fault = first_fault(s)
    if s["lint"] and out:
        return "--lint printed on standard output: %r" % out[:300]
    if s["usage"]:
        return "htmlext exits with status 0 for a wrong command line (%s)" % s["usage"] if rc == 0 else None
    if fault:
        if rc == 0:
            return "htmlext exits with status 0 despite a fault in its inputs (%s, %s)" % (fault["fault"], fault["path"] or fault["bytes"][:200])
        if out:
            return "htmlext printed results although an input is faulty (%s): %r" % (fault["fault"], out[:300])
        if injected is None:
            if fault["fault"] == "syntax":
                if fault["message"].rstrip(b"\n") not in err:
                    return "standard error does not contain the syntax error %r: %s" % (fault["message"], text)
                if fault["path"] and os.fsencode(fault["path"]) not in err:
                    return "standard error does not name the template %s: %s" % (fault["path"], text)
            elif os.fsencode(fault["path"]) not in err:
                return "standard error does not name the unreadable file %s: %s" % (fault["path"], text)
        return None
    if injected is None:
        want_rc = 1 if s["limit_error"] else 0
        if (rc == 0) != (want_rc == 0):
            return "htmlext exits with status %d instead of %s: %s" % (rc, "a failure" if want_rc else "0", text)
        if s["limit_error"] and s["limit_error"] not in err:
            return "standard error does not name the exceeded search limit: %s" % text
        return None
    op, k, how, delivered = injected
    if not delivered:
        return None
    if how in ("short", str(errno.EINTR), str(errno.EAGAIN)) and (rc, out) == base:
        return None
    if rc == 0:
        if out != base[1]:
            return "exit status 0, but the output is incomplete after %s %d: %s (%d of %d bytes)" % (op, k, how, len(out), len(base[1]))
        if how not in ("short", str(errno.EINTR), str(errno.EAGAIN)):
            return "htmlext exits with status 0 although %s %d failed (%s)" % (op, k, os.strerror(int(how)))
    else:
        if base[0] == 0 and how == "short":
            return "htmlext fails because %s %d transferred fewer bytes than asked for: %s" % (op, k, text)
        if op in ("open", "read") and how != "short" and out:
            return "htmlext printed results although %s %d of its inputs failed: %r" % (op, k, out[:300])
        if op in ("open", "read") and how not in ("short", str(errno.EINTR), str(errno.EAGAIN)):
            paths = [os.fsencode(x["path"]) for x in s["templates"] + s["docs"] if x["path"]]
            if not any(p in err for p in paths):
                return "standard error does not name the file that could not be read: %s" % text
    return None


def snapshot(s):
    out = []
    for x in s["templates"] + s["docs"]:
        if x["path"] and x["fault"] in (None, "syntax"):
            st = os.stat(x["path"])
            out.append((x["path"], open(x["path"], "rb").read(), st.st_mtime_ns, st.st_mode))
    return out


def worker15(a):
    vh, htmlext, preload, seed, lo, hi, most = a
    rep = {"evaluations": 0, "keys": [], "counters": {}, "samples": [], "violations": []}

    def count(k, n=1):
        rep["counters"][k] = rep["counters"].get(k, 0) + n
    r = random.Random("C15 %d %d" % (seed, lo))
    pool = gen(vh, seed + 5, lo, hi, "valid")
    pool.append((b"<li @text:x/>", b"<ul>" + b"".join(b"<li>%d %s</li>" % (i, b"x" * 40) for i in range(400)) + b"</ul>"))
    pool.append((b"<li @text:x/>", b"<ul>" + b"<li>y</li>" * 2500 + b"</ul>"))
    ok = dump(vh, [(t, h, 0) for t, h in pool])
    pool = [p for p, x in zip(pool, ok) if "g" in x]
    bad = gen(vh, seed + 9, lo, lo + 3 * (hi - lo) + 40, "hostile")
    bres = dump(vh, [(t, b"", 0) for t, _ in bad])
    bad = [t for (t, _), x in zip(bad, bres) if x.get("e") == "syntax"] or [b"<a"]
    top = work_dir("C15")
    try:
        for opt in ("--help", "-h", "--version", "-V") if lo == 0 else ():
            rc, out, err = run([htmlext, opt])
            rep["evaluations"] += 2
            problem = None
            if rc != 0 or not out:
                problem = "%s exits with status %s and prints %d bytes" % (opt, rc, len(out))
            with open("/dev/full", "wb") as full:
                rc, _, err = run([htmlext, opt], stdout=full)
            if rc == 0 or crashed(rc, err) or not err.strip():
                problem = "%s to a full device exits with status %s and message %r" % (opt, rc, err[-300:])
            count("unwritable_output")
            if problem:
                rep["violations"].append((problem, {"command": [htmlext, opt]}))
                return rep
        for n in range(lo, hi):
            d = os.path.join(top, "s")
            os.mkdir(d)
            os.chmod(d, 0o777)
            s = scenario(r, pool, bad, d)
            for x in s["templates"]:
                if x["fault"] == "syntax":
                    x["message"] = dump(vh, [(x["bytes"], b"", 0)])[0]["m"]
            s["limit_error"] = None
            if not first_fault(s) and not s["usage"] and not s["lint"]:
                for x in dump(vh, [(t["bytes"], h["bytes"], s["limit"]) for t in s["templates"] for h in s["docs"]]):
                    if "e" in x:
                        s["limit_error"] = x["m"]
            before = snapshot(s)
            cmd = [htmlext.encode()] + s["args"]
            logf = os.path.join(top, "log")

            def once(fault=None, stdout=subprocess.PIPE):
                if os.path.exists(logf):
                    os.unlink(logf)
                env = dict(lib.ENV, LD_PRELOAD=preload, VH_ROOT=d + "/", VH_LOG=logf)
                if fault:
                    env["VH_FAULT"] = "%s %d %s" % fault
                rep["evaluations"] += 1
                res = run(cmd, env=env, preexec=unprivileged, stdout=stdout)
                calls = open(logf, errors="replace").read().splitlines() if os.path.exists(logf) else []
                return res, calls
            # root may read files without permission, so this runs as nobody
            (rc, out, err), calls = once()
            problem = judge15(s, rc, out, err, None)
            f = first_fault(s)
            kind = s["usage"] or (f["fault"] if f else ("limit" if s["limit_error"] else "none"))
            count("scenario_" + kind.replace(" ", "_"))
            if s["lint"]:
                count("lint_runs")
            rep["keys"].append(hashlib.blake2b(repr((kind, [(x["bytes"], x["fault"]) for x in s["templates"] + s["docs"]], [a for a in s["args"] if a.startswith(b"-")])).encode(), digest_size=8).hexdigest())
            where = {"fault": None}
            if not problem:
                base = (rc, out)
                ops = {}
                for c in calls:
                    op, k = c.split(" ")[:2]
                    ops[op] = max(ops.get(op, 0), int(k))
                plan = []
                for op, hows in (("open", [errno.EACCES, errno.EMFILE, errno.EIO, errno.ENOENT]), ("read", [errno.EIO, "short", errno.EINTR, errno.EISDIR, errno.ESTALE]),
                                 ("write", [errno.ENOSPC, errno.EIO, "short", errno.EINTR, errno.EPIPE, errno.EDQUOT])):
                    ks = list(range(1, ops.get(op, 0) + 1))
                    if len(ks) > most:
                        ks = sorted(set(ks[:most // 2] + ks[-most // 4:] + r.sample(ks, most // 4)))
                        count("operations_sampled")
                    for k in ks:
                        plan.append((op, k, str(hows[0])))
                        plan.append((op, k, str(r.choice(hows[1:]))))
                if kind not in ("none", "limit"):
                    plan = r.sample(plan, min(len(plan), 3))
                for fault in plan:
                    (rc2, out2, err2), calls2 = once(fault)
                    delivered = any(c.endswith(" failed") or c.endswith(" short") for c in calls2)
                    if delivered:
                        count("injected_" + fault[0] + "_" + ("short" if fault[2] == "short" else errno.errorcode[int(fault[2])]))
                        count("reported" if rc2 else "survived")
                    problem = judge15(s, rc2, out2, err2, base, fault + (delivered,))
                    if problem:
                        where = {"fault": list(fault), "calls": calls2[-20:]}
                        break
                if not problem and out and kind == "none":
                    for name, flags in (("/dev/full", os.O_WRONLY), (None, 0)):
                        if name:
                            fd = os.open(name, flags)
                        else:   # a pipe nobody reads
                            rd, fd = os.pipe()
                            os.close(rd)
                        try:
                            rc3, _, err3 = run(cmd, preexec=unprivileged, stdout=fd)
                        finally:
                            os.close(fd)
                        rep["evaluations"] += 1
                        count("unwritable_output")
                        if rc3 == 0:
                            problem = "htmlext exits with status 0 although its output cannot be written (%s)" % (name or "broken pipe")
                        elif name and crashed(rc3, err3):
                            problem = "htmlext crashes when its output cannot be written: %s" % err3[-800:]
                        elif name and not err3.strip():
                            problem = "no message although the output cannot be written"
                        if problem:
                            where = {"stdout": name or "broken pipe"}
                            break
            if not problem and snapshot(s) != before:
                problem = "htmlext modified one of its inputs"
            if len(rep["samples"]) < 1 and f:
                rep["samples"].append("%s (%s) -> %s %s" % (s["args"], kind, rc, err[:160]))
            if problem:
                rep["violations"].append((problem, dict(where, command=[os.fsdecode(x) for x in cmd], inputs=[(x["path"], hexs(x["bytes"]), x["fault"]) for x in s["templates"] + s["docs"]],
                                                        preload="harness/faults.c")))
                break
            shutil.rmtree(d)
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return rep


# --------------------------------------------------------------------- driver
def merge(rep, results):
    for x in results:
        rep.evaluations += x["evaluations"]
        rep.distinct.update(x["keys"])
        for k, v in x["counters"].items():
            rep.count(k, v)
        for s in x["samples"]:
            rep.sample(s)
    for x in results:
        for m, replay in x["violations"][:1]:
            rep.violation(m, replay)
            return


def check(pid):
    thorough = lib.TIER == "thorough"
    if pid == "C14":
        rep = Report(pid, "exploration", "command lines over 1-3 templates (files and strings) and 1-3 documents with random options; results parsed back and compared with the library's groups; "
                     "non-trivial: a new command line whose result has at least one value", ["Python's json module is the judge of valid JSON"])
        n, fn, tail = (100000 if thorough else 6000), worker14, ()
    else:
        rep = Report(pid, "fault_enumeration", "command lines with valid and faulty inputs; for each, every open, read and write of htmlext on its inputs and standard streams (sampled above 10 per kind) "
                     "fails once, in two ways, as do writes to a full device and a closed pipe; non-trivial: a distinct combination of inputs, fault and options",
                     ["failures of system calls are injected in libc's wrappers (LD_PRELOAD); only delivered ones are judged"])
        n, fn, tail = (20000 if thorough else 1000), worker15, (10,)
    d = lib.build("cli")
    vh, htmlext = os.path.join(d, "vh"), find_htmlext(d)
    top = tempfile.mkdtemp(prefix="vh-cli-")
    try:
        os.chmod(top, 0o755)
        shutil.copy(htmlext, os.path.join(top, "htmlext"))   # readable for nobody
        os.chmod(os.path.join(top, "htmlext"), 0o755)
        htmlext = os.path.join(top, "htmlext")
        head = (vh, htmlext)
        if pid == "C15":
            so = os.path.join(top, "faults.so")
            lib.sh(["gcc", "-shared", "-fPIC", "-O1", "-w", os.path.join(lib.HERE, "harness", "faults.c"), "-o", so, "-ldl"], "compiling faults.c")
            head += (so,)
        step = max(1, n // (lib.JOBS * (4 if not thorough else 40)))
        tasks = [head + (lib.SEED, i, min(n, i + step)) + tail for i in range(0, n, step)]
        results = []
        t = time.time()
        with multiprocessing.Pool(lib.JOBS) as pool:
            for x in pool.imap(fn, tasks):
                results.append(x)
                if x["violations"] or time.time() - t > (1500 if thorough else 300):
                    pool.terminate()
                    break
        merge(rep, results)
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return rep


def find_htmlext(d):
    for root, _, files in os.walk(d):
        if "htmlext" in files and os.access(os.path.join(root, "htmlext"), os.X_OK):
            return os.path.join(root, "htmlext")
    raise CheckError("no htmlext in " + d)
