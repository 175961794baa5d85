# Writes harness/grid.inc: the states of the template language's automaton and
# the byte ranges on which each of them changes, as found in Parser.cpp at the
# pinned commit. The harness only uses it to *choose* templates that visit every
# state with every kind of byte; what the templates mean is decided by refparse.
# Run by hand; the result is committed and does not follow later edits.
import re, sys
s = open(sys.argv[1]).read()
def tab(n):
    m = re.search(r'_hext_%s\[\] = \{(.*?)\};' % n, s, re.S)
    return [int(x) for x in re.findall(r'-?\d+', m[1])]
ko, keys, sl, rl, io, ind, tg, ta = map(tab, ['key_offsets', 'trans_keys', 'single_lengths', 'range_lengths', 'index_offsets', 'indicies', 'trans_targs', 'trans_actions'])
final = int(re.search(r'hext_first_final = (\d+)', s)[1]); start = int(re.search(r'hext_start = (\d+)', s)[1])
N = len(sl)
out = []; edges = 0
for c in range(N):
    k = ko[c]; t = [None] * 256
    d = io[c] + sl[c] + rl[c]
    cls = [d] * 256
    for i in range(rl[c]):
        lo, hi = keys[k + sl[c] + 2 * i], keys[k + sl[c] + 2 * i + 1]
        for b in range(lo, hi + 1): cls[b & 255] = io[c] + sl[c] + i
    for i in range(sl[c]): cls[keys[k + i] & 255] = io[c] + i   # these come first
    rs = []; a = 0
    for b in range(1, 257):
        if b == 256 or cls[b] != cls[a]:
            rs.append((a, b - 1, tg[ind[cls[a]]] if tg[ind[cls[a]]] else 0)); a = b
    out.append(rs); edges += len(rs)
flat = []; off = [0]
for rs in out:
    flat += rs; off.append(len(flat))
with open('/verif/harness/grid.inc', 'w') as f:
    f.write('// generated by tools/mkgrid.py\nstatic const int kGridStart = %d, kGridFinal = %d, kGridStates = %d;\n' % (start, final, N))
    f.write('static const unsigned short kGridOff[] = {' + ','.join(map(str, off)) + '};\n')
    f.write('struct GridEdge { unsigned char lo, hi; unsigned short to; };\nstatic const GridEdge kGridEdges[] = {\n')
    for i in range(0, len(flat), 12): f.write(','.join('{%d,%d,%d}' % x for x in flat[i:i + 12]) + ',\n')
    f.write('};\n')
print(N, edges, start, final)
