#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
H=/repo/_build/main/htmlext
cat > "$t/t.rb" <<'R'
require 'hext'
r = Hext::Rule.new("<p><+a @text:append(\"\0z\"):x/></p>").extract(Hext::Html.new("<p><a>1</a><a>2</a></p>"))
exit(r == [{"x" => ["1\0z", "2\0z"]}] ? 0 : 1)
R
ruby -I/repo/_build/ruby "$t/t.rb"
