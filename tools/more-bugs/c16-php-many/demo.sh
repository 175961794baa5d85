#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
H=/repo/_build/main/htmlext
cat > "$t/t.php" <<'R'
<?php $r = new HextRule("<a href:x id:x/>"); $h = new HextHtml("<a href=1 id=''>"); exit($r->extract($h) === [["x" => ["1", ""]]] ? 0 : 1);
R
php -n -d extension=/repo/_build/php/hext.so "$t/t.php"
