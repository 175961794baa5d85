#!/bin/bash
# memory traced by Python must not grow with the number of extractions
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
cat > "$t/t.py" <<'R'
import hext, sys, gc, tracemalloc
r = hext.Rule("<p><+a @text:x/></p>"); h = hext.Html("<p><a>value one</a><a>value two</a></p>")
def go(n):
    for _ in range(n): r.extract(h)
    gc.collect()
go(500)
tracemalloc.start()
go(500); a = tracemalloc.get_traced_memory()[0]
go(5000); b = tracemalloc.get_traced_memory()[0]
sys.exit(0 if b - a < 50000 else 1)
R
PYTHONPATH=/repo/_build/python python3 "$t/t.py"
