#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
H=/repo/_build/main/htmlext
N=/opt/veriftools/node/node_modules/node-addon-api; P=/repo/_build/prefix
node_build() { g++ -shared -fPIC -std=c++17 -O0 -w -DNAPI_VERSION=8 -I/usr/include/node -I$N -I$P/include /repo/libhext/bindings/nodejs/src/*.cpp -L$P/lib -Wl,-rpath,$P/lib -lhext -o "$t/hext.node" || exit 3; mkdir -p "$t/node_modules/hext" && printf 'module.exports = require("%s/hext.node")' "$t" > "$t/node_modules/hext/index.js"; }
node_build
cat > "$t/t.js" <<'X'
const hext = require('hext');
const r = new hext.Rule('<p @text:append("\0z"):x/>').extract(new hext.Html("<p>1</p>"));
process.exit(r.length == 1 && r[0].x === "1\0z" ? 0 : 1);
X
node "$t/t.js"