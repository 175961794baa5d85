// Node side of C16 (run) and C17 (hist, leak); see ../bind.py
'use strict';
const fs = require('fs');
const [, , mod, mode, path, a3, a4] = process.argv;
const hext = require(mod);
const R = hext.Rule, H = hext.Html;
const hx = (s) => Buffer.from(s, 'utf8').toString('hex') || '-';
const un = (s) => s === '-' ? Buffer.alloc(0) : Buffer.from(s, 'hex');
const str = (s) => { if (typeof s !== 'string') throw new Error('a value is a ' + typeof s); return hx(s); };
class Fail extends Error {}

function canon(res) {
  if (!Array.isArray(res)) throw new Error('the result is no array');
  let out = '';
  for (const g of res) {
    if (typeof g !== 'object' || g === null || Array.isArray(g)) throw new Error('a group is no object');
    const names = Reflect.ownKeys(g);
    const o = [];
    for (const k of names) {
      const d = Object.getOwnPropertyDescriptor(g, k);
      if (!('value' in d) || !d.enumerable) throw new Error('a name is no ordinary property');
      o.push([hx(k), Array.isArray(d.value) ? '[' + d.value.map(str).join(',') + ']' : str(d.value)]);
    }
    // names that look like an index come first in JavaScript: order by bytes
    o.sort((p, q) => p[0] === '-' ? -1 : q[0] === '-' ? 1 : p[0] < q[0] ? -1 : 1);
    out += '{' + o.map((p) => p.join('=')).join(';') + '}';
  }
  return out || 'none';
}
function observe(f) {
  try { return 'G ' + canon(f()); }
  catch (e) { return e instanceof Error ? 'E ' + e.constructor.name + ' ' + hx(e.message) : 'E notanerror -'; }
}
const live = () => parseInt(fs.readFileSync('/proc/self/vh-live', 'utf8'));
const turn = () => new Promise((r) => setImmediate(r));
async function collect() { for (let i = 0; i < 3; ++i) { global.gc(); await turn(); } }

function run() {
  const out = [];
  for (const line of fs.readFileSync(path, 'utf8').split('\n')) {
    if (!line) continue;
    const [t, h, n] = line.split(' ');
    out.push(observe(() => {
      const rule = new R(un(t).toString('utf8')), doc = new H(un(h).toString('utf8'));
      return n === '0' ? rule.extract(doc) : rule.extract(doc, Number(n));
    }));
  }
  fs.writeSync(1, out.join('\n') + '\n');
}

const r = () => new R('<a href:x/>'), h = () => new H('<a href=1></a>');
const bare = (c) => Object.create(c.prototype);
const WRONG = [
  ['Rule()', 1, () => new R()], ['Html()', 1, () => new H()], ['Rule(null)', 1, () => new R(null)], ['Html(undefined)', 1, () => new H(undefined)], ['Rule(1)', 1, () => new R(1)], ['Html([])', 1, () => new H([])],
  ['Html({})', 1, () => new H({})], ['Rule(Symbol)', 1, () => new R(Symbol('a'))], ['Html(BigInt)', 1, () => new H(5n)], ['Rule(new String)', 0, () => new R(new String('<a/>'))], ['Html(Buffer)', 1, () => new H(Buffer.from('<a>'))],
  ['call Rule', 1, () => R('<a/>')], ['call Html', 1, () => H('<a>')], ['Rule(a,b)', 0, () => new R('<a/>', 1, 2)], ['Html(a,b)', 0, () => new H('<a>', 1)], ['Html(surrogate)', 0, () => r().extract(new H('<a href="\ud800">\udfff'))],
  ['Rule(surrogate)', 0, () => new R('<a @text:\ud800/>')],
  ['extract()', 1, () => r().extract()], ['extract(null)', 1, () => r().extract(null)], ['extract(undefined)', 1, () => r().extract(undefined)], ['extract(str)', 1, () => r().extract('<a>')], ['extract(1)', 1, () => r().extract(1)],
  ['extract(Symbol)', 1, () => r().extract(Symbol())], ['extract(rule)', 1, () => r().extract(r())], ['extract({})', 1, () => r().extract({})], ['extract(class)', 1, () => r().extract(H)], ['extract(proto)', 1, () => r().extract(H.prototype)],
  ['extract(bare)', 1, () => r().extract(bare(H))], ['extract(Proxy)', 1, () => r().extract(new Proxy(h(), {}))], ['extract(inherits)', 1, () => r().extract(Object.create(h()))], ['extract(function)', 1, () => r().extract(() => 1)],
  ['extract(h,null)', 1, () => r().extract(h(), null)], ['extract(h,"1")', 1, () => r().extract(h(), '1')], ['extract(h,{})', 1, () => r().extract(h(), {})], ['extract(h,BigInt)', 1, () => r().extract(h(), 5n)], ['extract(h,Symbol)', 1, () => r().extract(h(), Symbol())],
  ['extract(h,undefined)', 0, () => r().extract(h(), undefined)], ['extract(h,NaN)', 0, () => r().extract(h(), NaN)], ['extract(h,Infinity)', 0, () => r().extract(h(), Infinity)], ['extract(h,-1)', 0, () => r().extract(h(), -1)],
  ['extract(h,1.5)', 0, () => r().extract(h(), 1.5)], ['extract(h,1e300)', 0, () => r().extract(h(), 1e300)], ['extract(h,1,2)', 0, () => r().extract(h(), 100, 2)], ['extract(h,...1000)', 0, () => r().extract(h(), 100, ...Array(1000).keys())],
  ['bare rule', 1, () => bare(R).extract(h())], ['borrowed', 1, () => R.prototype.extract.call({}, h())], ['borrowed null', 1, () => R.prototype.extract.call(null, h())], ['borrowed html', 1, () => R.prototype.extract.call(h(), h())],
  ['borrowed proto', 1, () => R.prototype.extract.call(R.prototype, h())], ['Proxy rule', 1, () => new Proxy(r(), {}).extract(h())], ['getter', 1, () => r().extract({ get x() { throw new Error('x'); } })],
  ['Reflect', 0, () => Reflect.construct(H, ['<a>'], R)], ['Reflect rule', 1, () => Reflect.construct(H, ['<a href=1>'], R).extract(h())], ['Reflect html', 0, () => r().extract(Reflect.construct(H, ['<a>'], Object))],
  ['subclass', 0, () => { class S extends H { constructor() { super('<a href=3>'); } } return r().extract(new S()); }],
  ['subclass of a failure', 1, () => { class S extends R { constructor() { try { super('<a'); } catch (e) { super('<a'); } } } return new S(); }],
  ['retry', 0, () => { class S extends R { constructor() { try { super('<a'); } catch (e) { super('<a href:x/>'); } } } return new S().extract(h()); }],
  ['setPrototypeOf', 1, () => { const x = h(); Object.setPrototypeOf(x, R.prototype); return x.extract(h()); }], ['swapped', 0, () => { const x = h(); Object.setPrototypeOf(x, Array.prototype); return r().extract(x); }],
  ['freeze', 0, () => Object.freeze(r()).extract(Object.freeze(h()))], ['frozen fields', 0, () => JSON.stringify(r()) + String(h())], ['nope', 1, () => r().nope()], ['structuredClone', 0, () => structuredClone(h())],
  ['extract(clone)', 1, () => r().extract(structuredClone(h()))], ['recursion', 1, () => { const x = r(), y = h(); const f = () => { x.extract(y); f(); }; f(); }],
  ['polluted', 0, () => {
    Object.defineProperty(Object.prototype, 'x', { configurable: true, set() { throw new Error('the setter of Object.prototype was called'); }, get() { return 5; } });
    try { if (canon(r().extract(h())) !== '{78=31}') throw new Fail('a name was lost to a setter of Object.prototype'); }
    catch (e) { throw e instanceof Fail ? e : new Fail(e.message); }
    finally { delete Object.prototype.x; }
  }],
];

function pool() {
  const T = [], D = [], X = new Map();
  for (const line of fs.readFileSync(path, 'utf8').split('\n')) {
    const w = line.split(' ');
    if (w[0] === 'T') T.push(un(w[1]).toString('utf8'));
    else if (w[0] === 'H') D.push(un(w[1]).toString('utf8'));
    else if (w[0] === 'X') X.set(w.slice(1, 4).join(' '), w.slice(4).join(' '));
  }
  return [T, D, X];
}
function agree(got, want, what) {
  const w = want.split(' ');
  if (w[0] === 'S') return;
  if (w[0] === 'G') {
    if (got !== want) throw new Fail(`${what}:\n  got      ${got.slice(0, 800)}\n  expected ${want.slice(0, 800)}`);
    return;
  }
  const g = got.split(' ');
  if (g[0] !== 'E' || g[1] === 'notanerror' || (w[2] !== '?' && !un(g[2]).includes(un(w[2]))))
    throw new Fail(`${what}:\n  got      ${got.slice(0, 800)}\n  expected ${w[1]} ${w[2] === '?' ? '' : un(w[2])}`);
}

let state = 0;
const rand = (n) => {   // xorshift
  state ^= state << 13; state ^= state >>> 17; state ^= state << 5;
  return (state >>> 0) % n;
};
const pick = (a) => a[rand(a.length)];

async function hist() {
  const [T, D, X] = pool(), steps = parseInt(a4);
  state = (parseInt(a3) * 2654435761 + 12345) | 1;
  for (let i = 0; i < 20; ++i) rand(2);
  let rules = [], docs = [], kept = [];
  const count = {}, lims = {};
  const bad = [], ok = [];
  T.forEach((_, i) => ((X.get(`${i} 0 0`) || '').startsWith('E syntax') ? bad : ok).push(i));
  for (const k of X.keys()) { const [a, b, n] = k.split(' '); (lims[a + ' ' + b] ||= []).push(n); }
  const drop = (l) => l.length && l.splice(rand(l.length), 1);
  for (let step = 0; step < steps; ++step) {
    const k = rand(100);
    const log = (o) => { fs.writeSync(2, `${step} ${o}\n`); return o; };
    let op;
    if (k < 16 || !rules.length) {
      const i = pick(ok);
      op = log('rule ' + i);
      rules.push([i, new R((T[i] + 'x').slice(0, -1))]);
      if (rules.length > 8) drop(rules);
    } else if (k < 24 && bad.length) {
      const i = pick(bad);
      op = log('bad rule ' + i);
      agree(observe(() => new R(T[i])), X.get(`${i} 0 0`), 'template ' + JSON.stringify(T[i].slice(0, 300)));
    } else if (k < 38 || !docs.length) {
      const i = rand(D.length);
      op = log('html ' + i);
      docs.push([i, new H((D[i] + 'x').slice(0, -1))]);
      if (docs.length > 8) drop(docs);
    } else if (k < 66) {
      const [i, rule] = pick(rules), [j, doc] = pick(docs);
      const n = pick(lims[i + ' ' + j]);
      op = log(`extract ${i} ${j} ${n}`);
      let res = null;
      const got = observe(() => res = (n === '0' && rand(10) < 7 ? rule.extract(doc) : rule.extract(doc, Number(n))));
      agree(got, X.get(`${i} ${j} ${n}`), `template ${JSON.stringify(T[i].slice(0, 300))} on ${JSON.stringify(D[j].slice(0, 300))}, limit ${n}`);
      if (res !== null) { kept.push([got, res]); if (kept.length > 12) drop(kept); }
    } else if (k < 74 && kept.length) {
      op = 'kept';
      const [got, res] = pick(kept);
      if ('G ' + canon(res) !== got) throw new Fail('a result changed after it was returned');
    } else if (k < 80) {
      op = 'drop';
      for (const l of [rules, docs, kept]) if (rand(2)) drop(l);
    } else if (k < 83) {
      op = log('gc');
      if (rand(2)) await collect(); else global.gc();
    } else if (k < 88) {
      op = 'share';
      if (rules.length) rules.push(pick(rules));
      await turn();
    } else {
      const [name, must, f] = pick(WRONG);
      op = log('wrong ' + name);
      let raised = false;
      try { f(); } catch (e) { if (e instanceof Fail) throw e; raised = true; }
      if (must && !raised) throw new Fail(name + ' raised nothing');
    }
    const o = op.split(' ')[0];
    count[o] = (count[o] || 0) + 1;
  }
  fs.writeSync(1, 'DONE ' + Object.keys(count).sort().map((c) => c + '=' + count[c]).join(' ') + '\n');
}

async function leak() {
  const [T, D, X] = pool(), per = parseInt(a3), ops = [];
  const keys = [...X.keys()];
  const okpair = keys.filter((k) => X.get(k).startsWith('G {') && X.get(k).length > 60).slice(0, 3);
  for (const k of okpair) { const [a, b] = k.split(' '); const x = new R(T[a]), y = new H(D[b]); ops.push([`extract ${a} ${b}`, () => x.extract(y)]); }
  const lr = new R("<ul><+li @text:name class:'other name'/></ul>");
  const lh = new H('<ul>' + [0, 1, 2, 3, 4].map((i) => `<li class='class number ${i}'>value number ${i}</li>`).join('') + '</ul>');
  ops.push(['lists of values', () => lr.extract(lh)]);
  for (const kind of ['syntax', 'limit', 'other'])
    for (const k of keys.filter((k) => X.get(k).startsWith('E ' + kind)).slice(0, 2)) {
      const [a, b, n] = k.split(' ');
      if (kind === 'syntax') { ops.push(['syntax ' + a, () => new R(T[a])]); continue; }
      const x = new R(T[a]), y = new H(D[b]);
      ops.push([`${kind} ${a} ${b}`, () => x.extract(y, Number(n))]);
    }
  for (const k of okpair.slice(0, 1)) { const [a, b] = k.split(' '); ops.push(['rule', () => new R(T[a])]); ops.push(['html', () => new H(D[b])]); }
  for (const [name, , f] of WRONG) if (!['recursion', 'polluted'].includes(name)) ops.push(['wrong ' + name, f]);
  for (const [name, f] of ops) {
    const go = (n) => { for (let i = 0; i < n; ++i) try { f(); } catch (e) { } };
    for (let i = 0; i < 2; ++i) { go(20); await collect(); }
    const m = [live()];
    for (let i = 0; i < 5; ++i) { go(per); await collect(); m.push(live()); }
    const grow = m.slice(1).map((v, i) => v - m[i]).slice(2);
    fs.writeSync(1, `LEAK ${Math.min(...grow)} ${per} ${name}\n`);
  }
  fs.writeSync(1, 'DONE\n');
}

(async () => {
  try {
    if (mode === 'run') run();
    else if (mode === 'hist') await hist();
    else await leak();
  } catch (e) {
    if (!(e instanceof Fail)) throw e;
    fs.writeSync(1, 'FAIL ' + e.message + '\n');
    process.exitCode = 1;
  }
})();
