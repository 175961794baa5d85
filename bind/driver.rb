# Ruby side of C16 (run) and C17 (hist, leak); see ../bind.py
require 'hext'

def hx(s) s.empty? ? "-" : s.unpack1("H*") end
def un(s) s == "-" ? "".b : [s].pack("H*") end
def str(s)
  raise TypeError, "a string is a #{s.class}" unless s.instance_of?(String)
  raise TypeError, "a string has encoding #{s.encoding}" unless s.encoding == Encoding::UTF_8
  hx(s.b)
end
def canon(res)
  raise TypeError, "the result is a #{res.class}" unless res.instance_of?(Array)
  out = res.map do |g|
    raise TypeError, "a group is a #{g.class}" unless g.instance_of?(Hash)
    "{" + g.map { |k, v| str(k) + "=" + (v.instance_of?(Array) ? "[" + v.map { |x| str(x) }.join(",") + "]" : str(v)) }.join(";") + "}"
  end.join
  out.empty? ? "none" : out
end
def observe
  "G " + canon(yield)
rescue Exception => e
  raise if e.is_a?(NoMemoryError) || e.is_a?(SystemExit)
  "E #{e.class} #{hx(e.message.b)}"
end
def live() File.read("/proc/self/vh-live").to_i end

def run(path)
  i = 0
  File.foreach(path) do |line|
    t, h, n = line.split
    n = n.to_i
    i += 1
    puts(observe do
      rule = Hext::Rule.new(un(t).force_encoding(i % 3 == 0 ? "BINARY" : "UTF-8"))
      doc = Hext::Html.new(un(h).force_encoding(i % 3 == 1 ? "BINARY" : "UTF-8"))
      begin
        GC.stress = true if i % 16 == 0 && h.size < 400
        n == 0 ? rule.extract(doc) : rule.extract(doc, n)
      ensure
        GC.stress = false
      end
    end)
  end
end

class NoInitRule < Hext::Rule; def initialize; end; end
class NoInitHtml < Hext::Html; def initialize; end; end
class SubHtml < Hext::Html; def initialize(s) super(s + "<a href=2>"); end; end
ToStr = Struct.new(:s) do def to_str; s; end; def to_s; s; end; end
R, H = Hext::Rule, Hext::Html
def r() R.new("<a href:x/>") end
def h() H.new("<a href=1></a>") end
def half(c, a)
  o = c.allocate
  begin; o.send(:initialize, a); rescue ArgumentError, TypeError; end
  o
end
WRONG = [
  ["Rule.new", true, -> { R.new }], ["Html.new", true, -> { H.new }], ["Rule.new(nil)", true, -> { R.new(nil) }], ["Html.new(nil)", true, -> { H.new(nil) }],
  ["Rule.new(1)", true, -> { R.new(1) }], ["Html.new(:a)", true, -> { H.new(:a) }], ["Html.new([])", true, -> { H.new([]) }], ["Html.new({})", true, -> { H.new({ a: 1 }) }],
  ["Rule.new(a,b)", true, -> { R.new("<a/>", 1) }], ["Html.new(a,b)", true, -> { H.new("<a>", "<b>") }], ["Html.new(2**70)", true, -> { H.new(2**70) }],
  ["Html.new(to_str)", false, -> { H.new(ToStr.new("<a>")) }], ["Html.new(BasicObject)", true, -> { H.new(BasicObject.new) }], ["Rule.new(rule)", true, -> { R.new(r) }],
  ["extract()", true, -> { r.extract }], ["extract(nil)", true, -> { r.extract(nil) }], ["extract(str)", true, -> { r.extract("<a>") }], ["extract(rule)", true, -> { r.extract(r) }],
  ["extract(class)", true, -> { r.extract(H) }], ["extract(h,nil)", true, -> { r.extract(h, nil) }], ["extract(h,-1)", true, -> { r.extract(h, -1) }], ["extract(h,2**64)", true, -> { r.extract(h, 2**64) }],
  ["extract(h,1.5)", false, -> { r.extract(h, 1.5) }], ["extract(h,'1')", true, -> { r.extract(h, "1") }], ["extract(h,1,2)", true, -> { r.extract(h, 1, 2) }], ["extract(h,*1000)", true, -> { r.extract(h, *(1..1000)) }],
  ["extract(h,k: 1)", true, -> { r.extract(h, k: 1) }], ["extract(h,true)", true, -> { r.extract(h, true) }], ["extract(BasicObject)", true, -> { r.extract(BasicObject.new) }],
  ["allocate rule", true, -> { R.allocate.extract(h) }], ["allocate html", true, -> { r.extract(H.allocate) }], ["dup rule", false, -> { r.dup.extract(h) }], ["clone html", false, -> { r.extract(h.clone) }],
  ["dup html", false, -> { a = h; b = a.dup; c = r.extract(a); begin; r.extract(b); rescue; end; c }],
  ["noinit rule", true, -> { NoInitRule.new.extract(h) }], ["noinit html", true, -> { r.extract(NoInitHtml.new) }], ["failed rule", true, -> { half(R, "<a").extract(h) }], ["failed html", true, -> { r.extract(half(H, 3)) }],
  ["marshal", true, -> { Marshal.dump(r) }], ["bind", true, -> { R.instance_method(:extract).bind(h).call(h) }], ["sub html", false, -> { r.extract(SubHtml.new("<b>")) }],
  ["freeze", false, -> { r.freeze.extract(h.freeze) }], ["inspect", false, -> { r.inspect + h.to_s + (r == r).to_s + h.hash.to_s }], ["nope", true, -> { r.nope }],
  ["reinit", false, -> { a = r; a.send(:initialize, "<b/>"); b = h; b.send(:initialize, "<b>"); a.extract(b) }], ["binary", false, -> { H.new("<a \xff>".b); R.new("<a \xff/>".b) }],
  ["utf16", false, -> { H.new("<a href=1>".encode("UTF-16LE")) }], ["frozen", false, -> { H.new("<a>".freeze); R.new(-"<a/>") }], ["throw", true, -> { deep(r, h) }],
]
def deep(x, y) x.extract(y); deep(x, y) end

def pool(path)
  t, d, x = [], [], {}
  File.foreach(path) do |line|
    w = line.split
    case w[0]
    when "T" then t << un(w[1]).force_encoding("UTF-8")
    when "H" then d << un(w[1]).force_encoding("UTF-8")
    else x[[w[1].to_i, w[2].to_i, w[3].to_i]] = w[4..].join(" ")
    end
  end
  [t, d, x]
end
class Fail < Exception; end
CLASSES = { "syntax" => "ArgumentError", "limit" => "RuntimeError", "other" => "RuntimeError" }

def agree(got, want, what)
  w = want.split
  return if w[0] == "S"
  if w[0] == "G"
    raise Fail, "#{what}:\n  got      #{got[0, 800]}\n  expected #{want[0, 800]}" if got != want
    return
  end
  g = got.split
  if g[0] != "E" || g[1] != CLASSES[w[1]] || (w[2] != "?" && !un(g[2]).include?(un(w[2])))
    raise Fail, "#{what}:\n  got      #{got[0, 800]}\n  expected #{w[1]} #{w[2] == "?" ? "" : un(w[2])}"
  end
end

def scribble(s) s.replace("z" * s.bytesize) end

def hist(path, seed, steps)
  t, d, x = pool(path)
  rnd = Random.new(seed)
  pick = ->(a) { a[rnd.rand(a.size)] }
  rules, docs, kept = [], [], []
  bad = (0...t.size).select { |i| (x[[i, 0, 0]] || "").start_with?("E syntax") }
  ok = (0...t.size).to_a - bad
  lims = Hash.new { |hh, k| hh[k] = [] }
  x.each_key { |a, b, n| lims[[a, b]] << n }
  count = Hash.new(0)
  steps.times do |step|
    k = rnd.rand(100)
    log = ->(o) { $stderr.syswrite("#{step} #{o}\n"); o }
    if k < 16 || rules.empty?
      i = pick[ok]
      op = log["rule #{i}"]
      s = t[i].dup
      o = R.new(s)
      scribble(s)
      rules << [i, o]
      rules.delete_at(rnd.rand(rules.size)) if rules.size > 8
    elsif k < 24 && !bad.empty?
      i = pick[bad]
      op = log["bad rule #{i}"]
      agree(observe { R.new(t[i].dup) }, x[[i, 0, 0]], "template #{t[i].inspect[0, 300]}")
    elsif k < 38 || docs.empty?
      i = rnd.rand(d.size)
      op = log["html #{i}"]
      s = d[i].dup
      s << "" if rnd.rand < 0.3
      o = H.new(s)
      scribble(s)
      docs << [i, o]
      docs.delete_at(rnd.rand(docs.size)) if docs.size > 8
    elsif k < 66
      (i, rule), (j, doc) = pick[rules], pick[docs]
      n = pick[lims[[i, j]]]
      op = log["extract #{i} #{j} #{n}"]
      res = nil
      stress = rnd.rand < 0.04 && (x[[i, j, n]] || "").size < 500
      got = observe do
        begin
          GC.stress = stress
          res = n == 0 && rnd.rand < 0.7 ? rule.extract(doc) : rule.extract(doc, n)
        ensure
          GC.stress = false
        end
      end
      agree(got, x[[i, j, n]], "template #{t[i].inspect[0, 300]} on #{d[j].inspect[0, 300]}, limit #{n}")
      if res
        kept << [got, res]
        kept.delete_at(rnd.rand(kept.size)) if kept.size > 12
      end
    elsif k < 74 && !kept.empty?
      op = "kept"
      got, res = pick[kept]
      raise Fail, "a result changed after it was returned" if "G " + canon(res) != got
    elsif k < 80
      op = "drop"
      [rules, docs, kept].each { |l| l.delete_at(rnd.rand(l.size)) if !l.empty? && rnd.rand < 0.5 }
    elsif k < 85
      op = log["gc"]
      rnd.rand < 0.3 && GC.respond_to?(:compact) ? GC.compact : GC.start
    elsif k < 88
      op = "share"
      rules << pick[rules] unless rules.empty?
      docs << pick[docs] unless docs.empty?
    else
      name, must, f = pick[WRONG]
      op = log["wrong #{name}"]
      begin
        f.call
        raise Fail, "#{name} raised nothing" if must
      rescue StandardError, SystemStackError, NoMethodError
      end
    end
    count[op.split[0]] += 1
  end
  puts "DONE " + count.sort.map { |c| c.join("=") }.join(" ")
end

def leak(path, per)
  t, d, x = pool(path)
  ops = []
  okpair = x.keys.select { |k| x[k].start_with?("G {") && x[k].size > 60 }.first(3)
  okpair.each { |k| a, b = R.new(t[k[0]]), H.new(d[k[1]]); ops << ["extract #{k[0]} #{k[1]}", -> { a.extract(b) }] }
  lists = [R.new("<ul><+li @text:name class:'other name'/></ul>"), H.new("<ul>" + (0..4).map { |i| "<li class='class number #{i}'>value number #{i}</li>" }.join + "</ul>")]
  ops << ["lists of values", -> { lists[0].extract(lists[1]) }]
  %w[syntax limit other].each do |kind|
    x.keys.select { |k| x[k].start_with?("E " + kind) }.first(2).each do |k|
      if kind == "syntax" then ops << ["syntax #{k[0]}", -> { R.new(t[k[0]]) }]
      else
        a, b = R.new(t[k[0]]), H.new(d[k[1]])
        ops << ["#{kind} #{k[0]} #{k[1]}", -> { a.extract(b, k[2]) }]
      end
    end
  end
  okpair.first(1).each { |k| ops << ["rule", -> { R.new(t[k[0]]) }]; ops << ["html", -> { H.new(d[k[1]]) }] }
  WRONG.each { |name, _, f| ops << ["wrong " + name, f] unless %w[throw reinit].include?(name) }
  ops.each do |name, f|
    go = ->(n) { n.times { begin; f.call; rescue StandardError, NoMethodError; end } }
    2.times { go[20]; GC.start }
    m = [live]
    5.times { go[per]; 2.times { GC.start }; m << live }
    grow = m.each_cons(2).map { |a, b| b - a }[2..]
    puts "LEAK #{grow.min} #{per} #{name}"
  end
  puts "DONE"
end

begin
  case ARGV[0]
  when "run" then run(ARGV[1])
  when "hist" then hist(ARGV[1], ARGV[2].to_i, ARGV[3].to_i)
  else leak(ARGV[1], ARGV[2].to_i)
  end
rescue Fail => e
  puts "FAIL " + e.message
  exit 1
end
