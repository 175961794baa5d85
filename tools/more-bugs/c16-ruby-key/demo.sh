#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
H=/repo/_build/main/htmlext
cat > "$t/t.rb" <<'R'
require 'hext'
r = Hext::Rule.new("<p><+a href:x/></p>"); ok = [2, 255, 256, 257].all? { |n| r.extract(Hext::Html.new("<p>" + "<a href=1></a>" * n + "</p>"))[0]["x"].size == n }
exit(ok ? 0 : 1)
R
ruby -W0 -I /repo/_build/ruby "$t/t.rb"
