#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
H=/repo/_build/main/htmlext
cat > "$t/t.py" <<'R'
import hext
r = hext.Rule("<p><+a @text:x/></p>").extract(hext.Html("<p>" + "".join("<a>%d</a>" % i for i in range(150)) + "</p>"))
assert r == [{"x": [str(i) for i in range(150)]}], r
R
PYTHONPATH=/repo/_build/python python3 "$t/t.py"
