"""C16 and C17: the language bindings, built with AddressSanitizer and UBSan and
run in their interpreters, compared with what the library makes of the same bytes."""
import glob, hashlib, json, os, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import lib
from lib import CheckError, Report
from cli import gen, dump, hexs, is_utf8, large

HERE = os.path.join(lib.HERE, "bind")
LANGS = ["python", "ruby", "php", "nodejs"]
FLAGS = "-O1 -g1 -w -fPIC -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all"
ADDON = "/opt/veriftools/node/node_modules/node-addon-api"


def tree_hash(*paths):
    h = hashlib.blake2b()
    for p in paths:
        for f in sorted(glob.glob(p)):
            if os.path.isfile(f):
                h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


def build():
    d = os.path.join(lib.BUILD, "bind")
    env = dict(lib.ENV, CC="gcc", CXX="g++")
    prefix = os.path.join(d, "prefix")
    with lib.Lock("bind"):
        want = json.dumps([FLAGS, lib.REPO])
        stamp = os.path.join(d, "vh.stamp")
        if not os.path.exists(stamp) or open(stamp).read() != want:
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)

        def cm(name, src, *args):
            lib.sh(["cmake", "-S", src, "-B", os.path.join(d, name), "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_CXX_FLAGS=" + FLAGS] + list(args),
                   "configuring " + name, env=env)
            lib.sh(["ninja", "-C", os.path.join(d, name), "-j", str(lib.JOBS)], "building " + name, env=env)
        cm("lib", lib.REPO + "/libhext", "-DBUILD_SHARED_LIBS=OFF", "-DCMAKE_INSTALL_PREFIX=" + prefix, "-DCMAKE_INSTALL_LIBDIR=lib")
        with open(stamp, "w") as f:
            f.write(want)
        archive = prefix + "/lib/libhext.a"
        before = tree_hash(archive)
        shutil.rmtree(os.path.join(prefix, "include"), ignore_errors=True)
        lib.sh(["cmake", "--install", os.path.join(d, "lib")], "installing libhext", env=env)
        if tree_hash(archive) != before:
            for f in glob.glob(d + "/*/*.so"):
                os.unlink(f)

        def one(l):
            if l == "preload":
                lib.sh(["gcc", "-O1", "-w", "-shared", "-fPIC", HERE + "/preload.c", "-o", d + "/preload.so", "-ldl"], "building the preload", env=env)
            elif l == "nodejs":
                src = sorted(glob.glob(lib.REPO + "/libhext/bindings/nodejs/src/*.cpp"))
                key = tree_hash(lib.REPO + "/libhext/bindings/nodejs/src/*", archive, prefix + "/include/hext/*")
                mark = os.path.join(d, "nodejs.stamp")
                os.makedirs(os.path.join(d, "nodejs"), exist_ok=True)
                if os.path.exists(mark) and open(mark).read() == key:
                    return
                # vptr needs typeinfo that node is not built with
                lib.sh(["g++", "-shared", "-std=c++17"] + FLAGS.split() + ["-fno-sanitize=vptr", "-DNAPI_VERSION=8", "-I" + prefix + "/include", "-I/usr/include/node", "-I" + ADDON]
                       + src + [archive, "-lgumbo", "-lboost_regex", "-o", d + "/nodejs/hext.node"], "building nodejs", env=env)
                with open(mark, "w") as f:
                    f.write(key)
            else:
                cm(l, lib.REPO + "/libhext/bindings/" + l, "-DCMAKE_PREFIX_PATH=" + prefix, "-DSWIG_USE_SWIG_DEPENDENCIES=ON", "-DPython3_EXECUTABLE=/usr/bin/python3")
        with ThreadPoolExecutor(5) as ex:
            list(ex.map(one, ["preload"] + LANGS))
    return d


def command(d, lang):
    """(command, environment) of an interpreter with the binding loaded."""
    asan = [subprocess.run(["gcc", "-print-file-name=" + l], stdout=subprocess.PIPE, text=True).stdout.strip() for l in ("libasan.so", "libubsan.so", "libstdc++.so")]
    env = dict(lib.ENV, LD_PRELOAD=" ".join([d + "/preload.so"] + asan), UBSAN_OPTIONS="print_stacktrace=1",
               ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0:detect_odr_violation=0:verify_asan_link_order=0:exitcode=77:handle_abort=1:quarantine_size_mb=64")
    if lang == "python":
        return ["/usr/bin/python3", HERE + "/driver.py"], dict(env, PYTHONMALLOC="malloc", PYTHONPATH=d + "/python", PYTHONDONTWRITEBYTECODE="1")
    if lang == "ruby":
        return ["/usr/bin/ruby", "-W0", "-I", d + "/ruby", HERE + "/driver.rb"], env
    if lang == "php":
        return ["php", "-n", "-d", "memory_limit=-1", "-d", "display_errors=stderr", "-d", "extension=" + d + "/php/hext.so", HERE + "/driver.php"], dict(env, USE_ZEND_ALLOC="0")
    return ["node", "--expose-gc", HERE + "/driver.js", d + "/nodejs/hext.node"], env


def go(cmd, env, args, timeout, cwd):
    try:
        p = subprocess.run(cmd + args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout, cwd=cwd)
    except subprocess.TimeoutExpired as e:
        return None, e.stdout or b"", e.stderr or b""
    return p.returncode, p.stdout, p.stderr


def canon(groups):
    out = ""
    for g in groups:
        o = {}
        for k, v in g:
            o.setdefault(k, []).append(v)
        out += "{" + ";".join(hexs(k) + "=" + (hexs(v[0]) if len(v) == 1 else "[" + ",".join(map(hexs, v)) + "]") for k, v in o.items()) + "}"
    return out or "none"


def expected(lang, t, h, x):
    """What a binding has to make of it: 'G canon', 'E kind hex of the message', 'U' (an error, not more), 'S' (anything), None: not for this binding."""
    text = lang in ("python", "nodejs")   # strings are characters, not bytes
    if text and not (is_utf8(t) and is_utf8(h)):
        return None
    if "g" in x:
        if lang != "ruby" and lang != "php" and not all(is_utf8(k) and is_utf8(v) for g in x["g"] for k, v in g):
            return "U" if lang == "python" else "S"
        if lang == "nodejs":   # ordered like the library's, by bytes
            return "G " + canon(x["g"])
        return "G " + canon(x["g"])
    m = x["m"]
    if text:
        while not is_utf8(m):
            m = m[:-1]
    return "E %s %s" % (x["e"], hexs(m) if m else "?")


CLASSES = {"python": {"syntax": "ValueError", "limit": "RuntimeError", "other": "RuntimeError"},
           "ruby": {"syntax": "ArgumentError", "limit": "RuntimeError", "other": "RuntimeError"}}


def agrees(lang, got, want):
    w, g = want.split(), got.split()
    if w[0] == "S":
        return True
    if w[0] == "U":
        return g[0] == "E"
    if w[0] == "G":
        return got == want
    if g[0] != "E":
        return False
    cls = CLASSES.get(lang, {}).get(w[1])
    if cls and g[1] != cls:
        return False
    return w[2] == "?" or bytes.fromhex("" if w[2] == "-" else w[2]) in bytes.fromhex("" if g[2] == "-" else g[2])


def readable(s):
    out = []
    for w in s.replace("{", " { ").replace("}", " } ").replace("=", " = ").replace(",", " , ").replace(";", " ; ").replace("[", " [ ").replace("]", " ] ").split():
        try:
            out.append(repr(bytes.fromhex(w))[1:] if len(w) > 1 else w)
        except ValueError:
            out.append(w)
    return " ".join(out)[:1500]


LIMITS = [0, 0, 0, 0, 1, 2, 3, 5, 8, 13, 21, 50, 200, 10000, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 32 + 2, 3 << 32, 2 ** 53 - 1]
SPECIAL = [   # (template, document)
    (b"<a @text:__proto__ href:x/>", b"<a href=1>v</a>"), (b"<a href:x href:x/>", b"<a href=''>"), (b"<a href:''/>", b"<a href=1>"),
    (b"<a href:x/>", b"<a href='a\0b&#0;'>"), (b"<a @text:x:y/>", b"<a>b"), (b"", b""), (b"<a/>", b""), (b"<a href:x/>", b"<a href=1><a href=2><a href=3>"),
    (b"<a href:x><b/></a>", b"<a href=1>"), (b"{<a href:x/>}", b"<a href=1></a><a href=2></a>"), (b"<x-y @text:x/>", b"<x-y>1</x-y><X-Y>2</X-Y>"),
    (b"<a href:x href:y href:x/><b @text:x/>", b"<a href=1></a><b>2</b>"), (b"<a href='\xc3\xa9':x/>", b"<a href='\xc3\xa9'>"), (b"<a href=/\xc3\xa9(.)/:x/>", b"<a href='\xc3\xa9z'>"),
    (b"<a href=~/x/:'\xe2\x82\xac'/>", b"<a href=x>"), (b"<a @text:replace(/./,\"\xc3\"):x/>", b"<a>1</a>"), (b"<a @text:append(\"\0z\"):x @text:prepend(\"\0\"):x/>", b"<a>v</a>"), (b"<a @text:'n\0m' href:'n\0m' href:'n\0n'/>", b"<a href=2>v</a>"), (b"<a @text:filter(/^./):x/>", b"<a>\xc3\xa9</a>"),
]


NSPECIAL = len(SPECIAL)


def zoo():
    """Every kind of character at the beginning, in the middle and at the end of single values, of values of a list, and of names."""
    out = []
    chars = [chr(c) for c in (0, 1, 8, 9, 10, 11, 12, 13, 0x1b, 0x1f, 0x20, 0x22, 0x27, 0x5c, 0x7f, 0x80, 0x85, 0xa0, 0xad, 0xff, 0x100, 0x7ff, 0x800, 0x2028, 0x2029, 0xd7ff, 0xe000,
                                  0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x10ffff)] + ["e\u0301", "\U0001f469\u200d\U0001f52c", "\0\0", "NaN", "null", "0", "-1", "true"]
    for c in chars:
        q = c.replace("\\", "\\\\").replace('"', '\\"').encode()
        ends = [(b'prepend("', q, b'")'), (b'append("', q, b'")'), (b'append("', q + b"z", b'")'), (b'prepend("z', q, b'")'), (b'replace(/a/,"', q.replace(b"\\\\", b"\\\\\\\\"), b'")')]
        for a, m, b in ends:
            out.append((b"<a @text:" + a + m + b + b":x/>", b"<a>a</a>"))
        out.append((b'<a @text:filter(/b/):append("' + q + b'"):x/>', b"<a>a</a>"))   # nothing else
        out.append((b'<a @text:append("' + q + b'"):x @text:y @text:prepend("' + q + b'"):x/>', b"<a>a</a>"))
        out.append((b'<a @text:"' + q + b'" @text:"' + q + b'y" @text:"y' + q + b'" href:"y' + q + b'z"/>', b"<a href=b>a</a>"))
    return out


SPECIAL += zoo()


def pairs(vh, n, seed):
    """n (template, document) pairs, valid and hostile."""
    r = random.Random(seed * 31 + 5)
    out = list(SPECIAL) + [large(r, True)] * 4 + [large(r) for _ in range(min(64, max(4, n // 60)))]
    per = max(1, n // (2 * lib.JOBS))
    with ThreadPoolExecutor(lib.JOBS) as ex:
        for l in ex.map(lambda i: gen(vh, seed * 1000 + 16, i * per, (i + 1) * per, ("valid", "hostile")[i % 2]), range(2 * lib.JOBS)):
            out += l
    return [(t, h) for t, h in out if len(t) < 70000 and len(h) < 1500000]


def c16(rep):
    n = 300000 if lib.TIER == "thorough" else 9000
    per = 900
    d = build()
    vh = os.path.join(lib.build("plain"), "vh")
    tmp = tempfile.mkdtemp(prefix="vh-C16-")
    r = random.Random(lib.SEED * 7919 + 16)
    deadline = time.time() + (1500 if lib.TIER == "thorough" else 240)
    try:
        for rnd in range(0, n, per * lib.JOBS):
            if rnd and time.time() > deadline:
                rep.count("stopped_by_time_cap")
                break
            k = min(per * lib.JOBS, n - rnd)
            jobs = [(t, h, r.choice(LIMITS)) for t, h in pairs(vh, k, lib.SEED + rnd)]
            if rnd == 0:
                jobs += [(t, h, l) for t, h in SPECIAL[:NSPECIAL] for l in sorted(set(LIMITS))]
            chunks = [jobs[i::lib.JOBS] for i in range(lib.JOBS)]
            with ThreadPoolExecutor(lib.JOBS) as ex:
                ref = list(ex.map(lambda c: dump(vh, c), chunks))

                def work(a):
                    lang, i = a
                    todo = []
                    for j, x in zip(chunks[i], ref[i]):
                        e = expected(lang, j[0], j[1], x)
                        if e is not None:
                            todo.append((j, e, x))
                    f = os.path.join(tmp, "%s%d" % (lang, i))
                    with open(f, "w") as o:
                        o.writelines("%s %s %d\n" % (hexs(t), hexs(h), l) for (t, h, l), _, _ in todo)
                    cmd, env = command(d, lang)
                    rc, out, err = go(cmd, env, ["run", f], 600, tmp)
                    return lang, i, todo, rc, out, err
                # interleaved so that all cores are busy with different interpreters
                results = list(ex.map(work, [(l, i) for i in range(lib.JOBS) for l in LANGS]))
            for lang, i, todo, rc, out, err in results:
                if rc == 127 or (rc not in (0, None) and not out and b"Sanitizer" not in err and b"runtime error" not in err and rc > 0):
                    raise CheckError("%s does not run (%s): %s" % (lang, rc, err.decode("utf-8", "replace")[-2000:]))
                lines = out.decode("utf-8", "replace").splitlines()
                bad = None
                for (job, want, x), got in zip(todo, lines):
                    rep.evaluations += 1
                    rep.count("extractions_" + lang)
                    w = want.split(" ")[0]
                    if w == "E":
                        rep.count("errors_%s_%s" % (x["e"], lang))
                    elif w == "U":
                        rep.count("unrepresentable_" + lang)
                    elif w == "S":
                        rep.count("not_compared_" + lang)
                    elif x["g"]:
                        rep.count("groups_" + lang, len(x["g"]))
                        rep.count("values_" + lang, sum(len(g) for g in x["g"]))
                        rep.count("lists_" + lang, want.count("["))
                        if any(g for g in x["g"]):
                            rep.nontrivial(lang.encode() + b"\0" + job[0] + b"\0" + job[1])
                            rep.sample("%s: %r on %r" % (lang, job[0][:150], job[1][:150]))
                            vals = [v for g in x["g"] for _, v in g]
                            rep.count("empty_values_" + lang, sum(not v for v in vals))
                            rep.count("non_ascii_values_" + lang, sum(not v.isascii() for v in vals))
                            rep.count("nul_values_" + lang, sum(b"\0" in v for v in vals))
                    if not bad and not agrees(lang, got, want):
                        bad = (job, "%s: template %r on %r, limit %d\n  got      %s\n  expected %s" % (lang, job[0][:600], job[1][:600], job[2], readable(got), readable(want)))
                if not bad and (rc != 0 or len(lines) != len(todo)):
                    k = min(len(lines), len(todo) - 1)
                    # Ruby and Python buffer their output: find the job again alone
                    for k2 in range(k, len(todo)):
                        f = os.path.join(tmp, "again")
                        with open(f, "w") as o:
                            o.write("%s %s %d\n" % (hexs(todo[k2][0][0]), hexs(todo[k2][0][1]), todo[k2][0][2]))
                        cmd, env = command(d, lang)
                        rc2, out2, err2 = go(cmd, env, ["run", f], 120, tmp)
                        if rc2 != 0:
                            k, err = k2, err2
                            break
                    job = todo[k][0]
                    bad = (job, "%s ended with %s at template %r on %r, limit %d\n%s" % (lang, rc, job[0][:600], job[1][:600], job[2], lib.report(err.decode("utf-8", "replace"))))
                if bad:
                    cmd, env = command(d, lang)
                    job = bad[0]
                    rep.violation(bad[1], {"language": lang, "command": cmd + ["run", "JOBS"], "environment": {k: env[k] for k in env if k not in os.environ or os.environ[k] != env[k]},
                                           "jobs": "%s %s %d\n" % (hexs(job[0]), hexs(job[1]), job[2]), "build": "python3 run.py C16"})
                    return
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ------------------------------------------------------------------------- C17
BAD = [b"<a", b"<a href=/(/>", b"<\xc3\xa9>", b"<a :nope/>", b"{", b"<a \xc3\xa9=1/>", b"<a href=/[/:x/>", b"<a @text:trim(:x/>", b"x", b"<a href:'/>", b"<a/></a>"]
COMPLEX = (b"<a href=~/(a*)*(a*)*(a*)*b$/:x/>", b"<a href='" + b"a" * 60 + b"'>")


def make_pool(vh, r, rounds, seed):
    """Templates and documents with every result that extracting one from the other has to give."""
    ps = pairs(vh, 60, seed)
    r.shuffle(ps)
    ts = [t for t, h in ps if len(t) < 2000][:12] + r.sample(BAD, 3) + [b"<a href:x href:y><b @text:x/></a>", b"<a href:x/>"]
    ds = [h for t, h in ps if 20 < len(h) < 3000][:9] + [b"", b"<a href=1><b>2</b></a><a href='\xc3\xa9'><b>x\0y</b></a>"]
    # documents of the chosen templates, so that many pairs give results
    for t, h in ps:
        if t in ts and len(ds) < 16 and h not in ds and len(h) < 3000:
            ds.append(h)
    special = r.sample(SPECIAL, 4) + [COMPLEX]
    ts += [t for t, _ in special]
    ds += [h for _, h in special]
    # names of custom elements are compared, and serialised, as they stand in the bytes of
    # the document: short ones (kept within a string object) and long ones
    ts += [b"<x-y @text:x/>", b"<a-custom-element @inner-html:x/>"]
    ds += [b"<x-y>1</x-y>", b"<x-y>1</x-y><X-Y>2</X-Y><x-z>3</x-z>" + b"<p>4</p>" * r.randint(0, 40), b"<A-Custom-Element><x-y a=b>5</x-y></A-Custom-Element>"]
    return ts, ds


def pool_for(lang, vh, ts, ds):
    if lang in ("python", "nodejs"):
        ts, ds = [t for t in ts if is_utf8(t)], [h for h in ds if is_utf8(h)]
    idx = [(i, j, l) for i in range(len(ts)) for j in range(len(ds)) for l in (0, 1, 4, 30, 2 ** 32)]
    res = dump(vh, [(ts[i], ds[j], l) for i, j, l in idx])
    out = ["T " + hexs(t) for t in ts] + ["H " + hexs(h) for h in ds]
    seen = {}
    for (i, j, l), x in zip(idx, res):
        e = expected(lang, ts[i], ds[j], x)
        out.append("X %d %d %d %s" % (i, j, l, e))
        k = e.split()[0] + (" " + x["e"] if "e" in x else "")
        seen[k] = seen.get(k, 0) + 1
    return "\n".join(out) + "\n", seen


def c17(rep):
    thorough = lib.TIER == "thorough"
    d = build()
    vh = os.path.join(lib.build("plain"), "vh")
    tmp = tempfile.mkdtemp(prefix="vh-C17-")
    r = random.Random(lib.SEED * 104729 + 17)
    hists = 160 if thorough else 24    # per language
    steps = 6000 if thorough else 1500
    per = 400 if thorough else 60
    try:
        def task(a):
            kind, lang, i, pool = a
            cmd, env = command(d, lang)
            if kind == "magic":
                return a, go(cmd, env, ["magic", i], 120, tmp)
            f = os.path.join(tmp, "%s-%s-%d" % (kind, lang, i))
            with open(f, "w") as o:
                o.write(pool)
            args = ["hist", f, str(lib.SEED * 1000 + i), str(steps)] if kind == "hist" else ["leak", f, str(per)]
            t = time.time()
            res = go(cmd, env, args, 1200 if thorough else 600, tmp)
            os.unlink(f)
            if os.environ.get("VH_DEBUG"):
                lib.log("%s %s %d: %.1f s" % (kind, lang, i, time.time() - t))
            return a, res
        tasks = []
        pools = [make_pool(vh, r, i, lib.SEED * 77 + i) for i in range(max(2, hists // 4))]
        with ThreadPoolExecutor(lib.JOBS) as ex:
            made = list(ex.map(lambda a: (a, pool_for(a[0], vh, *pools[a[1]])), [(l, i) for l in LANGS for i in range(len(pools))]))
            for (l, i), (text, seen) in made:
                for k, v in seen.items():
                    rep.count("expectations_%s_%s" % (k.replace(" ", "_"), l), v)
            by = {a: x[0] for a, x in made}
            for lang in LANGS:
                tasks.append(("leak", lang, 0, by[lang, 0]))
                tasks += [("hist", lang, i, by[lang, i % len(pools)]) for i in range(hists)]
            tasks += [("magic", "php", m, None) for m in ("__set", "__get", "__isset")]
            for (kind, lang, i, pool), (rc, out, err) in ex.map(task, tasks):
                if rep.violations:
                    continue
                text, etext = out.decode("utf-8", "replace"), err.decode("utf-8", "replace")
                cmd, env = command(d, lang)
                replay = {"language": lang, "command": cmd + [kind, "POOL"], "seed": lib.SEED * 1000 + (i if isinstance(i, int) else 0), "steps": steps, "pool": pool, "build": "python3 run.py C17",
                          "environment": {k: env[k] for k in env if k not in os.environ or os.environ[k] != env[k]}}
                if kind == "magic":
                    rep.evaluations += 1
                    if rc != 0 or "DONE" not in text:
                        rep.violation("php: calling %s of a HextRule directly with arguments 1 and 2 ends the interpreter (%s)\n%s" % (i, rc, lib.report(etext)), replay, key="php-" + i)
                    continue
                if rc == 1 and "FAIL " in text:
                    rep.violation("%s: %s\n%s" % (lang, text[text.index("FAIL ") + 5:][:3000], etext[-600:]), replay)
                    continue
                if rc is None:
                    rep.violation("%s: the history does not end; last steps:\n%s" % (lang, etext[-800:]), replay)
                    continue
                if rc != 0 or "DONE" not in text:
                    if rc > 0 and rc not in (77, 134, 139) and "Sanitizer" not in etext and "runtime error" not in etext and not etext[:1].isdigit() and kind == "hist":
                        raise CheckError("%s does not run (%s): %s" % (lang, rc, etext[-2000:]))
                    rep.violation("%s ended with %s during %s\n%s\nlast steps:\n%s" % (
                        lang, rc, kind, lib.report(etext), "\n".join([l for l in etext.splitlines() if l[:1].isdigit() and len(l) < 80][-8:])), replay)
                    continue
                if kind == "hist":
                    rep.count("histories_" + lang)
                    for w in text[text.index("DONE"):].split()[1:]:
                        k, v = w.split("=")
                        rep.count("%s_%s" % (k, lang), int(v))
                        rep.evaluations += int(v)
                    rep.nontrivial("%s %d %s" % (lang, i, text))
                    ops = [l for l in etext.splitlines() if l[:1].isdigit()]
                    for o in ops:
                        rep.nontrivial(lang + " " + o.split(" ", 1)[-1] + pool[:2000])
                    rep.sample("%s: %s" % (lang, "; ".join(o.split(" ", 1)[-1] for o in ops[20:40])))
                else:
                    worst = 0
                    for l in text.splitlines():
                        if not l.startswith("LEAK "):
                            continue
                        _, g, n, name = l.split(" ", 3)
                        rep.evaluations += 1
                        rep.count("leak_loops_" + lang)
                        worst = max(worst, int(g) / int(n))
                        if int(g) >= 7 * int(n):
                            again = task((kind, lang, i, pool))[1][1].decode("utf-8", "replace")
                            m = [x for x in again.splitlines() if x.startswith("LEAK ") and x.split(" ", 3)[3] == name]
                            if m and int(m[0].split()[1]) >= 7 * int(n):
                                rep.violation("%s: every '%s' leaves %.1f bytes allocated (%s bytes after %s of them, garbage collected, again and again)" % (lang, name, int(g) / int(n), g, n),
                                              dict(replay, operation=name), key="leak-%s-%s" % (lang, name.replace(" ", "_")))
                    rep.maximum("most_bytes_left_per_call_" + lang, round(worst, 2))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(pid):
    if pid == "C16":
        rep = Report(pid, "exploration", "templates, documents and limits run through each binding in its interpreter under ASan and UBSan and compared with the library; "
                     "non-trivial: a (binding, template, document) with a captured value",
                     ["Node and Python are compared where the values are valid UTF-8 (Python: raises otherwise; Node substitutes)", "interpreters and SWIG's generated runtime are trusted apart from what the check observes"])
        c16(rep)
    else:
        rep = Report(pid, "exploration", "random histories of constructions, extractions, failures, wrong calls, drops and garbage collections in each interpreter, under ASan and UBSan, "
                     "with every outcome compared with the library's; live heap after repeated calls; non-trivial: a distinct operation of a distinct history",
                     ["leaks are measured in the allocator: 7 bytes or more per call, in each of three successive intervals"])
        c17(rep)
    return rep
