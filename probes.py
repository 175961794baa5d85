"""Single inputs of extreme size, each run in a process of its own."""
import json, os, resource, subprocess
from concurrent.futures import ThreadPoolExecutor
import lib


def hexs(b):
    return b.hex() or "-"


def inputs():
    def nest(n):
        return b"<a>" * n + b"</a>" * n
    d = 20000
    yield "C01", "nesting-20k", nest(d), b""
    yield "C01", "nested-blocks-5k", b"<a>{" * 5000 + b"<a/>" + b"}</a>" * 5000, b""
    yield "C01", "siblings-15k", b"<a/>" * 15000, b""
    yield "C01", "not-5k", b"<a" + b":not(" * 5000 + b":empty" + b")" * 5000 + b"/>", b""
    yield "C01", "unclosed-20k", b"<a>" * d, b""
    yield "C01", "pipes-8k", b"<a @text" + b":trim" * 8000 + b":x/>", b""
    yield "C01", "line-1M", b"<a " + b" " * 1000000 + b"%", b""
    yield "C01", "lines-200k", b"\n" * 200000 + b"%", b""
    yield "C01", "literal-1M", b"<a title='" + b"x" * 1000000 + b"'/>", b""
    yield "C01", "nesting-1M", nest(1000000), b""      # known finding
    yield "C13", "deep-10k", b"<a @text:x/>", b"<div>" * 10000 + b"t"
    yield "C13", "deep-inner-10k", b"<body @inner-html:x @strip-tags:y/>", b"<b>" * 10000 + b"t"
    yield "C13", "wide-100k", b"<a @text:x/>", b"<p>t</p>" * 100000
    wide = b"<div>" + b"<p></p>" * 400000 + b"<a>1</a></div>"
    yield "C13", "wide-400k-child", b"<div><a @text:x/></div>", wide, [["x", "1"]]
    yield "C13", "wide-400k-optional", b"<div><?u/><p/><?i/><?u/><a @text:x/></div>", wide, [["x", "1"]]
    yield "C13", "wide-400k-position", b"<div><a:nth-child(400001):last-child:nth-last-of-type(1) @text:x/></div>", wide, [["x", "1"]]
    yield "C13", "wide-400k-nested", b"<div>{<a @text:x/>}</div>", wide, [["x", "1"]]
    yield "C13", "wide-400k-text", b"<div @text:x/>", wide, [["x", "1"]]
    yield "C13", "wide-400k-greedy", b"<div><+p @text:y/><a @text:x/></div>", wide, [["x", "1"]] + [["y", ""]] * 400000
    yield "C13", "attrs-20k", b"<p @inner-html:x/>", b"<p " + b" ".join(b"a%d=%d" % (i, i) for i in range(20000)) + b">t"
    yield "C13", "text-4M", b"<* @text:x @strip-tags:y/>", b"<p>" + b"a &amp; b " * 400000
    yield "C13", "greedy-20k", b"<ul><+li @text:x/></ul>", b"<ul>" + b"<li>t" * 20000


def edges():
    """Documents that end within something, placed at the edge of readable memory."""
    refs = ["&lt", "&amp", "&copy", "&notit", "&x", "&#6", "&#x41", "&#", "&", "&lt;", "&AMP", "&acE", "&nbsp"]
    attr = ["<a b=\"x%s", "<a b='%s", "<a b=%s", "<p><a b=c d=\"%s"]
    text = ["%s", "<p>%s", "<title>%s", "<textarea>%s", "<script>%s", "<style>%s", "<!--%s", "<svg>%s", "<svg><![CDATA[%s", "<plaintext>%s", "<xmp>%s",
            "<a b=\"%s\">", "<!doctype %s", "</%s", "<%s", "<a %s", "<?%s"]
    tails = ["", "<", "</", "-", "--", "]]", "\r", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\0", "=", "/", "'", '"', "<!", "<!-", "<![CDATA["]
    for c in attr + text:
        for r in refs + tails:
            known = c in attr and r in ("&lt", "&amp", "&copy", "&notit", "&AMP", "&nbsp")
            yield (c % r).encode("latin-1"), "reference-at-end" if known else None


def run_edges(rep):
    vh = os.path.join(lib.build("debug"), "vh")
    jobs = [(h, k, at) for h, k in edges() for at in ("end", "start")]
    with ThreadPoolExecutor(lib.JOBS) as ex:
        done = ex.map(lambda j: subprocess.run([vh, "edge", hexs(j[0]), j[2]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=lib.ENV, timeout=120, preexec_fn=lim), jobs)
        for (h, key, at), p in zip(jobs, done):
            rep.evaluations += 1
            rep.count("documents_at_the_edge_of_memory")
            if p.returncode == 0 and p.stdout == b"same\n":
                rep.nontrivial(b"edge" + h)
                continue
            if p.returncode > 0 and b"different" not in p.stdout:
                raise lib.CheckError("vh edge: %s" % p.stdout[-500:])
            rep.violation("the document %r before an inaccessible page (placed at the %s): %s" % (h, at, "the tree differs" if p.returncode == 0 else "exit %d" % p.returncode),
                          {"html": repr(h), "command": [vh, "edge", hexs(h), at]}, key=key if p.returncode == -11 and at == "end" else None)


def lim():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_STACK, (8 << 20, 8 << 20))


def got(out):
    """The groups of a result, as printed by vh dump."""
    try:
        u = lambda x: "" if x == "-" else bytes.fromhex(x).decode("latin-1")
        return [[[u(k), u(v)] for k, v in g] for g in json.loads(out)["g"]]
    except (ValueError, KeyError):
        return None


def run(rep):
    vh = os.path.join(lib.build("debug"), "vh")
    for pid, name, t, h, *want in inputs():
        if pid != rep.pid:
            continue
        line = ("%s %s 0\n" % (hexs(t), hexs(h))).encode()
        try:
            p = subprocess.run([vh, "dump"], input=line, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=lib.ENV, timeout=300, preexec_fn=lim)
        except subprocess.TimeoutExpired:
            rep.violation("extreme input %s does not terminate within 300 s" % name, {"input": name, "see": "probes.py"}, key=name)
            continue
        rep.evaluations += 1
        rep.count("extreme_inputs")
        if p.returncode != 0:
            rep.violation("extreme input %s: the library ended the process (exit %d)" % (name, p.returncode),
                          {"input": name, "see": "probes.py", "template": repr(t[:60]), "html": repr(h[:60])}, key=name)
        elif b'"e":"other"' in p.stdout:
            rep.violation("extreme input %s: undocumented exception: %s" % (name, p.stdout[:300]), {"input": name, "see": "probes.py"}, key=name)
        elif want and got(p.stdout) != [want[0]]:
            rep.violation("extreme input %s: the result is %s instead of %s" % (name, str(got(p.stdout))[:300], str([want[0]])[:300]), {"input": name, "see": "probes.py"}, key=name)
        else:
            rep.nontrivial(name)
