#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
H=/repo/_build/main/htmlext
cat > "$t/t.rb" <<'R'
require 'hext'
r = Hext::Rule.new("<a href:x id:x/>"); v = r.extract(Hext::Html.new("<a href='\u00e9' id='\u00e8'>"))[0]["x"]
exit(v.sort == ["\u00e9", "\u00e8"].sort && v.all? { |s| s.encoding == Encoding::UTF_8 } ? 0 : 1)
R
ruby -W0 -I /repo/_build/ruby "$t/t.rb"
