<?php
// PHP side of C16 (run) and C17 (hist, leak); see ../bind.py
function hx($s) { return $s === "" ? "-" : bin2hex($s); }
function un($s) { return $s === "-" ? "" : hex2bin($s); }
function val($v) {
  if (!is_string($v)) throw new Exception("a value is a " . gettype($v));
  return hx($v);
}
function canon($res) {
  if (!is_array($res) || !array_is_list($res)) throw new Exception("the result is no list");
  $out = "";
  foreach ($res as $g) {
    if (!is_array($g)) throw new Exception("a group is a " . gettype($g));
    $o = [];
    foreach ($g as $k => $v) {
      if (is_array($v)) {
        if (!array_is_list($v)) throw new Exception("values are no list");
        $s = "[" . implode(",", array_map('val', $v)) . "]";
      } else $s = val($v);
      $o[] = hx((string)$k) . "=" . $s;
    }
    $out .= "{" . implode(";", $o) . "}";
  }
  return $out === "" ? "none" : $out;
}
function observe($f) {
  try { return "G " . canon($f()); }
  catch (Throwable $e) { return "E " . get_class($e) . " " . hx($e->getMessage()); }
}
function live() { return (int)file_get_contents("/proc/self/vh-live"); }

function run($path) {
  foreach (file($path) as $line) {
    [$t, $h, $n] = explode(" ", trim($line));
    $n = (int)$n;
    echo observe(function () use ($t, $h, $n) {
      $rule = new HextRule(un($t));
      $doc = new HextHtml(un($h));
      return $n === 0 ? $rule->extract($doc) : $rule->extract($doc, $n);
    }), "\n";
  }
}

class NoInitRule extends HextRule { function __construct() {} }
class NoInitHtml extends HextHtml { function __construct() {} }
class SubHtml extends HextHtml { function __construct($s) { parent::__construct($s . "<a href=2>"); } }
class HalfRule extends HextRule { function __construct($s) { try { parent::__construct($s); } catch (Throwable $e) {} } }
class Stringy { public $s; function __construct($s) { $this->s = $s; } function __toString(): string { return $this->s; } }
class Thrower { function __toString(): string { throw new Exception("no"); } }
function r() { return new HextRule("<a href:x/>"); }
function h() { return new HextHtml("<a href=1></a>"); }
function bare($c) { return (new ReflectionClass($c))->newInstanceWithoutConstructor(); }
// arguments that are not strings must come out of a call as they went in
function intact($v) {
  $copy = unserialize(serialize($v));
  foreach (['HextRule', 'HextHtml'] as $c)
    try { @new $c($v); } catch (Throwable $e) {}
  $noise = [];
  for ($i = 0; $i < 20; ++$i) { $noise[] = range(7000, 7004); $noise[] = new Stringy("noise" . $i); $noise[] = str_repeat("n", 10 + $i); }
  if ($v != $copy || gettype($v) != gettype($copy)) throw new Fail("an argument was changed by a call");
}
$WRONG = [
  ["new HextRule()", 1, fn() => new HextRule()], ["new HextHtml()", 1, fn() => new HextHtml()], ["new HextRule(a,b)", 1, fn() => new HextRule("<a/>", 1)], ["new HextHtml(a,b)", 1, fn() => new HextHtml("<a>", 1)],
  ["new HextHtml(many)", 1, fn() => new HextHtml(...range(1, 500))], ["new HextHtml(stdClass)", 1, fn() => new HextHtml(new stdClass)], ["new HextRule(stdClass)", 1, fn() => new HextRule(new stdClass)],
  ["new HextHtml(thrower)", 1, fn() => new HextHtml(new Thrower)], ["new HextRule(thrower)", 1, fn() => new HextRule(new Thrower)], ["new HextRule(closure)", 1, fn() => new HextRule(fn() => 1)],
  ["null", 0, function () { new HextHtml(null); new HextRule(null); }], ["array", 0, fn() => intact(range(1, rand(2, 9)))], ["nested", 0, fn() => intact([[str_repeat("x", rand(1, 5))], 2])],
  ["int", 0, fn() => intact(rand(1000, 99999))], ["float", 0, fn() => intact(rand(1000, 99999) / 7)], ["bool", 0, fn() => intact(true)], ["stringy", 0, fn() => intact(new Stringy("<a/>" . str_repeat(" ", rand(1, 5))))],
  ["thrower", 0, fn() => intact(new ArrayObject([1, 2]))],
  ["extract()", 1, fn() => r()->extract()], ["extract(null)", 1, fn() => r()->extract(null)], ["extract(str)", 1, fn() => r()->extract("<a>")], ["extract(rule)", 1, fn() => r()->extract(r())],
  ["extract(stdClass)", 1, fn() => r()->extract(new stdClass)], ["extract(array)", 1, fn() => r()->extract(range(1, 3))], ["extract(h,null)", 0, fn() => r()->extract(h(), null)], ["extract(h,-1)", 1, fn() => r()->extract(h(), -1)],
  ["extract(h,min)", 1, fn() => r()->extract(h(), PHP_INT_MIN)], ["extract(h,1.5)", 0, fn() => r()->extract(h(), 1.5)], ["extract(h,1e30)", 0, fn() => r()->extract(h(), 1e30)], ["extract(h,nan)", 0, fn() => r()->extract(h(), NAN)],
  ["extract(h,'7')", 0, fn() => r()->extract(h(), "7" . rand(0, 9))], ["extract(h,'abc')", 1, fn() => r()->extract(h(), "abc")], ["extract(h,[])", 1, fn() => r()->extract(h(), range(1, 2))], ["extract(h,object)", 1, fn() => r()->extract(h(), new Stringy("1"))],
  ["extract(h,true)", 0, fn() => r()->extract(h(), true)], ["extract(h,1,2)", 1, fn() => r()->extract(h(), 1, 2)], ["extract(h,5)", 1, fn() => r()->extract(h(), ...range(1, 5))], ["extract(h,1000)", 1, fn() => r()->extract(h(), ...range(1, 1000))],
  ["noinit rule", 1, fn() => (new NoInitRule)->extract(h())], ["noinit html", 1, fn() => r()->extract(new NoInitHtml)], ["bare rule", 1, fn() => bare('HextRule')->extract(h())], ["bare html", 1, fn() => r()->extract(bare('HextHtml'))],
  ["bare both", 1, fn() => bare('HextRule')->extract(bare('HextHtml'), 3)], ["half rule", 1, fn() => (new HalfRule("<a"))->extract(h())], ["clone rule", 0, fn() => (clone r())->extract(h())], ["clone html", 0, fn() => r()->extract(clone h())],
  ["unserialize", 0, fn() => unserialize(serialize(r()))->extract(h())], ["unserialize html", 0, fn() => r()->extract(unserialize(serialize(h())))], ["sub html", 0, fn() => r()->extract(new SubHtml("<b>"))],
  ["property", 0, function () { $x = r(); $x->foo = 1; $y = $x->foo; return isset($x->foo); }], ["dump", 0, fn() => print_r(r(), true) . print_r(h(), true) . var_export([1], true)], ["compare", 0, fn() => r() == r()],
  ["reference", 0, function () { $x = h(); $y = &$x; return r()->extract($y); }], ["call", 1, fn() => call_user_func([r(), 'extract'], null)], ["static", 1, fn() => HextRule::extract(h())], ["nope", 1, fn() => r()->nope()],
  ["reinit", 0, function () { $x = r(); $x->__construct("<b/>"); $y = h(); $y->__construct("<b>"); return $x->extract($y); }],
  ["failed reinit", 0, function () { $x = r(); try { $x->__construct("<b"); } catch (Throwable $e) {} if (canon($x->extract(h())) !== "{78=31}") throw new Fail("a failed __construct changed the rule"); }],
];

class Fail extends Exception {}
function pool($path) {
  $T = $D = $X = [];
  foreach (file($path) as $line) {
    $w = explode(" ", trim($line));
    if ($w[0] === "T") $T[] = un($w[1]);
    elseif ($w[0] === "H") $D[] = un($w[1]);
    else $X["$w[1] $w[2] $w[3]"] = implode(" ", array_slice($w, 4));
  }
  return [$T, $D, $X];
}
function agree($got, $want, $what) {
  $w = explode(" ", $want);
  if ($w[0] === "S") return;
  if ($w[0] === "G") {
    if ($got !== $want) throw new Fail("$what:\n  got      " . substr($got, 0, 800) . "\n  expected " . substr($want, 0, 800));
    return;
  }
  $g = explode(" ", $got);
  if ($g[0] !== "E" || ($w[2] !== "?" && strpos(un($g[2]), un($w[2])) === false))
    throw new Fail("$what:\n  got      " . substr($got, 0, 800) . "\n  expected $w[1] " . ($w[2] === "?" ? "" : un($w[2])));
}
function pick($a) { return $a[array_rand($a)]; }
function drop(&$l) { if ($l) array_splice($l, rand(0, count($l) - 1), 1); }

function hist($path, $seed, $steps) {
  global $WRONG;
  [$T, $D, $X] = pool($path);
  mt_srand($seed);
  srand($seed);
  $rules = $docs = $kept = $count = $bad = $ok = $lims = [];
  foreach ($T as $i => $_)
    if (str_starts_with($X["$i 0 0"] ?? "", "E syntax")) $bad[] = $i; else $ok[] = $i;
  foreach ($X as $k => $_) { [$a, $b, $n] = explode(" ", $k); $lims["$a $b"][] = (int)$n; }
  $err = fopen("php://stderr", "w");
  for ($step = 0; $step < $steps; ++$step) {
    $k = rand(0, 99);
    $log = function ($o) use ($err, $step) { fwrite($err, "$step $o\n"); return $o; };
    if ($k < 16 || !$rules) {
      $i = pick($ok);
      $op = $log("rule $i");
      $s = substr($T[$i] . "x", 0, -1);
      $rules[] = [$i, new HextRule($s)];
      for ($c = 0; $c < strlen($s); ++$c) $s[$c] = "z";
      if (count($rules) > 8) drop($rules);
    } elseif ($k < 24 && $bad) {
      $i = pick($bad);
      $op = $log("bad rule $i");
      agree(observe(fn() => new HextRule($T[$i])), $X["$i 0 0"], "template " . json_encode(substr($T[$i], 0, 300), JSON_INVALID_UTF8_SUBSTITUTE));
    } elseif ($k < 38 || !$docs) {
      $i = rand(0, count($D) - 1);
      $op = $log("html $i");
      $s = substr($D[$i] . "x", 0, -1);
      $docs[] = [$i, new HextHtml($s)];
      for ($c = 0; $c < strlen($s); ++$c) $s[$c] = "z";
      unset($s);
      if (count($docs) > 8) drop($docs);
    } elseif ($k < 66) {
      [$i, $rule] = pick($rules);
      [$j, $doc] = pick($docs);
      $n = pick($lims["$i $j"]);
      $op = $log("extract $i $j $n");
      $res = null;
      $got = observe(function () use ($rule, $doc, $n, &$res) { return $res = ($n === 0 && rand(0, 9) < 7 ? $rule->extract($doc) : $rule->extract($doc, $n)); });
      agree($got, $X["$i $j $n"], "template " . json_encode(substr($T[$i], 0, 300), JSON_INVALID_UTF8_SUBSTITUTE) . " on " . json_encode(substr($D[$j], 0, 300), JSON_INVALID_UTF8_SUBSTITUTE) . ", limit $n");
      if ($res !== null) {
        $kept[] = [$got, $res];
        if (rand(0, 3) == 0 && $res) { array_pop($res); $res[] = 5; }   // a copy: the kept one must not change
        if (count($kept) > 12) drop($kept);
      }
      unset($rule, $doc);
    } elseif ($k < 74 && $kept) {
      $op = "kept";
      [$got, $res] = pick($kept);
      if ("G " . canon($res) !== $got) throw new Fail("a result changed after it was returned");
    } elseif ($k < 80) {
      $op = "drop";
      if (rand(0, 1)) drop($rules);
      if (rand(0, 1)) drop($docs);
      if (rand(0, 1)) drop($kept);
    } elseif ($k < 85) {
      $op = $log("gc");
      gc_collect_cycles();
    } elseif ($k < 88) {
      $op = "share";
      $o = new stdClass;
      $o->self = $o;
      $o->rule = $rules ? pick($rules) : null;
      $o->doc = $docs ? pick($docs) : null;
      unset($o);   // a cycle: left to the collector
      if ($rules) $rules[] = pick($rules);
    } else {
      [$name, $must, $f] = pick($WRONG);
      $op = $log("wrong $name");
      $raised = false;
      try { @$f(); } catch (Fail $e) { throw $e; } catch (Throwable $e) { $raised = true; }
      if ($must && !$raised) throw new Fail("$name raised nothing");
    }
    $o = explode(" ", $op)[0];
    $count[$o] = ($count[$o] ?? 0) + 1;
  }
  ksort($count);
  echo "DONE ", implode(" ", array_map(fn($a, $b) => "$a=$b", array_keys($count), $count)), "\n";
}

function leak($path, $per) {
  global $WRONG;
  [$T, $D, $X] = pool($path);
  $ops = [];
  $okpair = array_slice(array_values(array_filter(array_keys($X), fn($k) => str_starts_with($X[$k], "G {") && strlen($X[$k]) > 60)), 0, 3);
  foreach ($okpair as $k) {
    [$a, $b, $n] = explode(" ", $k);
    $x = new HextRule($T[$a]);
    $y = new HextHtml($D[$b]);
    $ops[] = ["extract $a $b", fn() => $x->extract($y)];
  }
  $lr = new HextRule("<ul><+li @text:name class:'other name'/></ul>");
  $lh = new HextHtml("<ul>" . implode("", array_map(fn($i) => "<li class='class number $i'>value number $i</li>", range(0, 4))) . "</ul>");
  $ops[] = ["lists of values", fn() => $lr->extract($lh)];
  foreach (["syntax", "limit", "other"] as $kind)
    foreach (array_slice(array_values(array_filter(array_keys($X), fn($k) => str_starts_with($X[$k], "E $kind"))), 0, 2) as $k) {
      [$a, $b, $n] = explode(" ", $k);
      if ($kind === "syntax") { $ops[] = ["syntax $a", fn() => new HextRule($T[$a])]; continue; }
      $x = new HextRule($T[$a]);
      $y = new HextHtml($D[$b]);
      $ops[] = ["$kind $a $b", fn() => $x->extract($y, (int)$n)];
    }
  foreach (array_slice($okpair, 0, 1) as $k) {
    [$a, $b, $n] = explode(" ", $k);
    $ops[] = ["rule", fn() => new HextRule($T[$a])];
    $ops[] = ["html", fn() => new HextHtml($D[$b])];
  }
  foreach ($WRONG as [$name, $must, $f])
    if ($name !== "reinit" && $name !== "failed reinit") $ops[] = ["wrong $name", $f];
  foreach ($ops as [$name, $f]) {
    $go = function ($n) use ($f) { for ($i = 0; $i < $n; ++$i) { try { @$f(); } catch (Throwable $e) { unset($e); } } };
    $go(20);
    gc_collect_cycles();
    $go(20);
    $m = [live()];
    for ($i = 0; $i < 5; ++$i) { $go($per); gc_collect_cycles(); $m[] = live(); }
    $grow = [];
    for ($i = 2; $i < 5; ++$i) $grow[] = $m[$i + 1] - $m[$i];
    echo "LEAK ", min($grow), " $per $name\n";
  }
  echo "DONE\n";
}

try {
  if ($argv[1] === "run") run($argv[2]);
  elseif ($argv[1] === "hist") hist($argv[2], (int)$argv[3], (int)$argv[4]);
  elseif ($argv[1] === "magic") { $x = r(); $x->{$argv[2]}(1, 2); echo "DONE\n"; }
  else leak($argv[2], (int)$argv[3]);
} catch (Fail $e) {
  echo "FAIL ", $e->getMessage(), "\n";
  exit(1);
}
