"""C21: the command-line scripts that come with the language bindings, run in
their interpreters (bindings built with ASan and UBSan) on files, and judged by
what the library makes of the same bytes."""
import json, os, random, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import lib
from lib import CheckError, Report
from cli import collect, dump, gen, hexs, is_utf8, large, no_dups, Dup
import bind

LIMIT = 10000   # built into the Python, PHP and Node scripts
SPECIAL = bind.SPECIAL[:bind.NSPECIAL] + [
    (b"<a @text:0/>", b"<a>x</a>"), (b"<a @text:0 href:1 @text:0/>", b"<a href=/>x</a>"), (b"<a @text:1/>", b"<a>x</a>"), (b"<a @text:007 href:-1/>", b"<a href=1>x</a>"),
    (b"<a @text:'a\rb'/>", b"<a>x</a>"), (b"<a\r\n @text:prepend('\r\n'):x/>\r\n", b"<a>\r\n</a>"), (b"<a @text:'\0x' @text:0/>", b"<a>\0x</a>"),
    (b"<a @text:x\r\n\r%", b""), (b"<a", b"<a>"), (b"<a\n\n  @nope/>", b"<a>"), (b"\xef\xbb\xbf<a @text:x/>", b"<a>1</a>"), (b"<a @text:x/>", b"\xef\xbb\xbf<a>1</a>"),
    (b"<a @text:x/>", b"<a>&#8232;&#x1F600;&#1;&#127;\"\\/</a>" * 3), (b"<a @text:filter(/^./):x/><a @text:y/>", b"<a>1</a><a>2</a><a>\xc3\xa9</a><a>3</a>"),
    (b"<a @text:append(\"\xff\"):x/>", b"<a>q</a>"), (b"<a @text:true href:null/>", b"<a href=false>null</a>"), (b"<a @text:x/>", b""), (b"", b"<a>"),
    (b"<div><a @text:x/></div>", b"<div><p></p><a>1</a></div>" * 4000), (b"<div><a @text:x/></div>", b"<div><p></p><a>1</a></div>" * 2400),
    (b"<div><a @text:x/></div>", b"<div><p></p><a>1</a></div>" * 12000), (b"<i/><a/>", b"<i></i><a></a>" * 2499), (b"<a @text:x/><b @text:y/>", b"<a>1</a><b>2</b>" * 3333),
]


def command(d, lang, stub):
    cmd, env = bind.command(d, lang)
    src = lib.REPO + "/libhext/bindings/" + lang + "/htmlext."
    if lang == "python":
        return ["/usr/bin/python3", src + "py"], env
    if lang == "ruby":
        return ["/usr/bin/ruby", "-W0", "-I", d + "/ruby", src + "rb"], env
    if lang == "php":
        return [x for x in cmd if not x.endswith("driver.php")] + ["-d", "include_path=" + d + "/php", src + "php"], env
    return ["node", src + "js"], dict(env, NODE_PATH=stub)


def first_line(m):
    """What a message surely shows in every language: its first line, if plain."""
    m = m.split(b"\n")[0].split(b"\0")[0]
    return m if m.isascii() else b""


def judge(lang, x, rc, out, err, tname):
    if rc is None or rc < 0 or rc in (66, 77, 134, 139) or b"Sanitizer" in err or b"runtime error:" in err:
        return "crashed or did not end (%s): %s" % (rc, lib.report(err.decode("utf-8", "replace")))
    if "e" in x:
        if rc == 0:
            return "succeeded, though the library reports an error (%s: %r)" % (x["e"], x["m"][:200])
        if out:
            return "printed %r in spite of the error %r" % (out[:300], x["m"][:200])
        if x["e"] != "other":
            m = x["m"].rstrip(b"\n") if is_utf8(x["m"]) and b"\0" not in x["m"] else first_line(x["m"])
            if m not in err or tname not in err:
                return "does not tell the error %r of %r but %r" % (m, tname, err[-500:])
        elif not err:
            return "failed without a message"
        return None
    if not all(is_utf8(k) and is_utf8(v) for g in x["g"] for k, v in g):
        n = out.count(b"\n")
        if rc == 0 and n != len(x["g"]):
            return "succeeded and printed %d lines for %d results" % (n, len(x["g"]))
        if rc == 0:
            for l, g in zip(out.split(b"\n"), x["g"]):
                try:
                    v = json.loads(l.decode("utf-8", "replace"))
                except ValueError:
                    return "printed the line %r, which is not JSON" % l[:300]
                if not isinstance(v, dict):
                    return "printed the line %r, which is not an object" % l[:300]
        elif not err:
            return "failed without a message"
        return None
    if rc != 0:
        return "failed (%d) though nothing is wrong: %r" % (rc, err[-600:])
    try:
        text = out.decode("utf-8")
        if text and not text.endswith("\n"):
            return "the last line is not ended: %r" % text[-100:]
        got = [json.loads(l, object_pairs_hook=no_dups) for l in text.split("\n")[:-1]]
    except (ValueError, Dup) as e:
        return "printed what is not one JSON object per line (%s): %r" % (e, out[:600])
    want = [collect(g) for g in x["g"]]
    if got != want:
        return "printed\n %s\n instead of\n %s" % (json.dumps(got)[:1500], json.dumps(want)[:1500])
    return None


def c21(rep):
    thorough = lib.TIER == "thorough"
    n = 30000 if thorough else 560
    d = bind.build()
    vh = os.path.join(lib.build("plain"), "vh")
    tmp = tempfile.mkdtemp(prefix="vh-C21-")
    r = random.Random(lib.SEED * 6007 + 21)
    deadline = time.time() + (1500 if thorough else 200)
    try:
        stub = os.path.join(tmp, "stub")
        os.makedirs(stub + "/hext")
        with open(stub + "/hext/index.js", "w") as f:
            f.write("module.exports = require(%s)\n" % json.dumps(d + "/nodejs/hext.node"))

        def run(lang, args, to_file):
            cmd, env = command(d, lang, stub)
            out = os.path.join(tmp, "out-%d" % r.getrandbits(60))
            try:
                with (open(out, "wb") if to_file else open(os.devnull, "wb")) as o:
                    p = subprocess.run(cmd + args, stdin=subprocess.DEVNULL, stdout=o if to_file else subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=120, cwd=tmp)
            except subprocess.TimeoutExpired:
                return None, b"", b""
            text = open(out, "rb").read() if to_file else p.stdout
            if to_file:
                os.unlink(out)
            return p.returncode, text, p.stderr

        def one(a):
            i, lang, t, h, x, style = a
            tp = os.path.join(tmp, ["t%d-%s", "t %d %s.hext", "t\u00e9%d-%s.hext", "-t%d-%s", "t%d'%s\""][style % 5] % (i, lang))
            hp = os.path.join(tmp, ["h%d-%s", "h %d %s.html", "h\u00e9%d-%s.html", "-h%d-%s", "h%d'%s\""][style // 5 % 5] % (i, lang))
            for p, b in ((tp, t), (hp, h)):
                with open(p, "wb") as f:
                    f.write(b)
            res = run(lang, [tp, hp], style % 3 == 0)
            os.unlink(tp)
            os.unlink(hp)
            return a, tp, res

        first = True
        for rnd in range(0, n, 560):
            if time.time() > deadline:
                rep.count("stopped_by_time_cap")
                break
            jobs = [(t, h) for t, h in bind.pairs(vh, min(560, n - rnd), lib.SEED * 13 + 5 + rnd) if len(h) < 400000]
            r.shuffle(jobs)
            jobs = jobs[:min(560, n - rnd)] + (SPECIAL + r.sample(bind.SPECIAL[bind.NSPECIAL:], 40) if first else [])
            lim, free = dump(vh, [(t, h, LIMIT) for t, h in jobs]), dump(vh, [(t, h, 0) for t, h in jobs])
            todo = []
            for i, (t, h) in enumerate(jobs):
                for lang in bind.LANGS:
                    if lang in ("python", "nodejs") and not (is_utf8(t) and is_utf8(h)):
                        continue
                    todo.append((i, lang, t, h, free[i] if lang == "ruby" else lim[i], r.randrange(75)))
            with ThreadPoolExecutor(lib.JOBS) as ex:
                for (i, lang, t, h, x, style), tp, (rc, out, err) in ex.map(one, todo):
                    if rep.violations:
                        break
                    if rc in (126, 127):
                        raise CheckError("%s does not run: %s" % (lang, err.decode("utf-8", "replace")[-1000:]))
                    rep.evaluations += 1
                    rep.count("runs_" + lang)
                    if "e" in x:
                        rep.count("errors_%s_%s" % (x["e"], lang))
                    else:
                        rep.count("lines_" + lang, len(x["g"]))
                        rep.count("lists_" + lang, sum(len(set(k for k, _ in g)) < len(g) for g in x["g"]))
                        if x["g"]:
                            rep.nontrivial(lang.encode() + b"\0" + t + b"\0" + h)
                            rep.sample("%s: %r on %r -> %r" % (lang, t[:150], h[:150], out[:150]))
                    bad = judge(lang, x, rc, out, err, tp.encode())
                    if bad:
                        cmd, env = command(d, lang, "STUB")
                        rep.violation("%s's htmlext on template %r and document %r: %s" % (lang, t[:800], h[:800], bad),
                                      {"language": lang, "command": cmd + ["TEMPLATE", "DOCUMENT"], "template": hexs(t), "document": hexs(h), "build": "python3 run.py C21",
                                       "environment": {k: env[k] for k in env if k not in os.environ or os.environ[k] != env[k]}})
            if rep.violations:
                return
            if first:
                command_lines(rep, run, tmp)
                first = False
            if rep.violations:
                return
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def command_lines(rep, run, tmp):
    """Missing arguments and files that cannot be read."""
    t, h = tmp + "/good.hext", tmp + "/good.html"
    with open(t, "w") as f:
        f.write("<a @text:x/>")
    with open(h, "w") as f:
        f.write("<a>1</a>")
    for lang in bind.LANGS:
        for args in ([t], [h], [t, tmp + "/none"], [tmp + "/none", h], [tmp, h], [t, tmp], [tmp + "/none", tmp + "/none"], [t, t + "/x"], [t, ""], ["", h]):
            rc, out, err = run(lang, args, False)
            rep.evaluations += 1
            rep.count("bad_command_lines_" + lang)
            if rc is None or rc <= 0 or rc in (66, 77, 134, 139) or out or not err:
                rep.violation("%s's htmlext %r: status %s, output %r, message %r" % (lang, args, rc, out[:200], err[-300:]), {"language": lang, "arguments": args})
                return
        rc, out, err = run(lang, [], False)
        rep.evaluations += 1
        if rc != 0 or b"Usage" not in out:
            rep.violation("%s's htmlext without arguments: status %s, output %r" % (lang, rc, out[:200]), {"language": lang, "arguments": []})
            return


def check(pid):
    rep = Report(pid, "exploration", "template and document files given to each language's htmlext script; its output, status and messages compared with the library's results; "
                 "non-trivial: a (language, template, document) with at least one result",
                 ["the Python and Node scripts are run on files of valid UTF-8, in a UTF-8 locale", "for values that are not valid UTF-8, only the number and form of the lines, or a failure with a message, is required",
                  "the Ruby script sets no search limit; the others use 10000"])
    c21(rep)
    return rep
