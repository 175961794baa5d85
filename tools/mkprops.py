import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or [],hook_needed=None)))
L="libhext/src/"; I="libhext/include/hext/"
p("C01","Compiling any template yields a rule or a syntax error, safely",
"Compiling a template from any sequence of bytes (empty, truncated at any point, containing NUL or non-ASCII bytes, with arbitrary numbers or regular expressions) always terminates and either produces a rule or raises the documented syntax error: no other exception, crash, undefined behaviour, leak or read outside the given buffer. The outcome (the rule's behaviour, or the exact error message) depends only on those bytes, not on where they lie, what follows them in memory, or what was compiled before. A template accepted through the pointer-and-length form behaves the same through the NUL-terminated form when it contains no NUL.",
["inputs","histories"],"every byte string given to the template compiler, in every order of calls",
"Tests compile about two hundred fixed templates in uninstrumented builds; they cannot see out-of-bounds reads, leaks, state carried over between calls or the behaviour on arbitrary bytes.",
[L+"Parser.cpp","libhext/ragel/Parser.cpp.rl","libhext/ragel/hext-machine.rl",L+"ParseHext.cpp",L+"StringUtil.cpp",L+"PatternValues.cpp"],
[("generated state machine bounded by p/pe/eof","libhext/ragel/Parser.cpp.rl Parser::parse"),("conversion of numbers and regexes with errors turned into SyntaxError","libhext/ragel/hext-machine.rl nth_pattern, trait, regex")],
[dict(name="rule stacks",meaning="open rules and finished siblings while parsing",where="Parser::stacks_")],["hext::ParseHext"])
p("C02","The compiler accepts exactly the template language",
"A template is accepted if and only if it is a sentence of the hext template language: rules with tag or '*', '?' and '+' prefixes, traits and :not(...), attribute and builtin patterns with their operators, values, pipes, captures and negation, properly closed and nested, one nested block per '{ }', comments ended by a newline, and every regular expression valid. Anything else is rejected, at the first byte after which no valid template can follow or at the construct that is wrong.",
["inputs"],"every byte string",
"The tests list a few dozen valid and invalid templates each; a change that starts to accept or reject some other combination of constructs goes unnoticed.",
["libhext/ragel/hext-machine.rl","libhext/ragel/Parser.cpp.rl",L+"Parser.cpp"],
[("grammar","libhext/ragel/hext-machine.rl"),("rule stack discipline: push_rule/pop_rule/push_nested/pop_nested, closing tag validation","libhext/ragel/Parser.cpp.rl")],None,["hext::ParseHext"])
p("C03","A compiled template means what its text says",
"The rule produced for a valid template has exactly the structure and the behaviour its text denotes: tags, optional and greedy marks, children, siblings, nested blocks, and every trait, pattern, operator, value, regular expression with its own flags, pipe and capture, in order and with nothing added or dropped. Whitespace and comments between constructs and the two spellings of an empty element do not change the meaning, and no construct influences another one elsewhere in the template. The same rule assembled through the library's API gives the same results.",
["programs","inputs"],"every valid template, in every layout, applied to every document",
"Blackbox cases pin about 190 template/document pairs; combinations of constructs (flags of one regex next to another, values of several pipes, several patterns per rule) are unbounded and mostly untested.",
["libhext/ragel/hext-machine.rl","libhext/ragel/Parser.cpp.rl",L+"Parser.cpp",L+"PatternValues.cpp",L+"Rule.cpp"],
[("semantic actions fill PatternValues and append to the current rule; reset after each pattern","libhext/ragel/hext-machine.rl pattern; src/PatternValues.cpp")],
[dict(name="pattern values",meaning="attribute name, literal, regex and its flags, pipe, test, trait under construction",where="hext::PatternValues")],["hext::ParseHext","Rule::child/next/nested","Rule::extract"])
p("C04","Syntax errors name what is wrong and where",
"For every rejected template the error message states the kind of problem (unexpected character, premature end, unexpected, missing or unknown-expected closing tag, nesting error, invalid regular expression), the 1-based line and column of the offending byte or the end of input, quotes the template's lines numbered from 1 up to that byte, and, for ASCII templates, underlines it with a caret mark that ends exactly at that column. The position is right for every line length, number of lines and newline placement, and whatever locale the program has set.",
["inputs"],"every invalid template",
"Tests only check that a SyntaxError is thrown and, in a few cases, one message; positions and carets over arbitrary layouts are not checked.",
["libhext/ragel/Parser.cpp.rl",L+"Parser.cpp",L+"StringUtil.cpp"],
[("print_error_location, CharPosition, PrintNumberedLines, DecimalWidth, CharName","libhext/ragel/Parser.cpp.rl; src/StringUtil.cpp")],None,["hext::SyntaxError::what"])
p("C05","An element matches a rule exactly when all its conditions hold",
"For every node of every document, a rule's own conditions hold if and only if the tag agrees (any node for '*', custom tag names ignoring case) and every condition of the rule does: attribute presence, contains-words, equality, prefix, suffix, substring and regular-expression tests on attributes and on the builtin values, their negation (which also holds when the attribute is missing), child-count, attribute-count, empty, first/last/only/nth positions counted over element siblings (optionally of the same type, from either end, with any step and offset), type-matches and :not(...) of any of them. Conditions are combined with logical and; :not holds when none of its conditions does.",
["inputs","programs"],"every node, every combination of conditions and arguments",
"Unit tests check a few fixed nodes per condition; sibling positions, steps, offsets, negation and value edge cases (empty, spaces, prefixes longer than the value, mixed case) form an unbounded space.",
[L+f for f in ["Rule.cpp","AttributeMatch.cpp","AttributeCountMatch.cpp","ChildCountMatch.cpp","NthChildMatch.cpp","OnlyChildMatch.cpp","TypeRegexMatch.cpp","NegateMatch.cpp","NegateTest.cpp","FunctionMatch.cpp","FunctionValueMatch.cpp","EqualsTest.cpp","BeginsWithTest.cpp","EndsWithTest.cpp","ContainsTest.cpp","ContainsWordsTest.cpp","RegexTest.cpp","StringUtil.cpp"]],
[("Rule::matches and the Match/ValueTest classes","libhext/src")],None,["Rule::matches"])
p("C06","Captured text, markup and attribute values are faithful to the document",
"@text is the element's text in document order with line-breaking elements separated, inline elements joined, whitespace trimmed and collapsed; @strip-tags is all its text unaltered; @inner-html is a serialisation of its children that keeps tag names, attributes with their values and order, text, comments and nesting; an attribute capture is the attribute's exact value and is present if and only if the attribute is. This holds for every element of every document, including custom, void, foreign (SVG/MathML) and template elements, and nothing outside the element ever shows up in a value.",
["inputs"],"every document and every element in it",
"Tests check a few small fragments; which of the ~150 tags break text, how attributes and nested markup are serialised and how whitespace falls between them are only sampled.",
[L+"NodeUtil.cpp",L+"StringUtil.cpp",L+"Builtins.cpp",L+"AttributeCapture.cpp",L+"FunctionCapture.cpp"],
[("StripTags/NodeText/NodeInnerHtml, TagWrapsText, TagIsSelfClosing, TrimAndCollapseWs","libhext/src/NodeUtil.cpp, StringUtil.cpp")],None,["Rule::capture","TextBuiltin, InnerHtmlBuiltin, StripTagsBuiltin"])
p("C07","String pipes transform values exactly, in the written order",
"A captured value is passed through its pipes from left to right, each applied once to the whole result of the previous one: trim removes only leading and trailing characters of its set, collapsews trims and collapses runs of whitespace, tolower and toupper change ASCII letters only, prepend and append add their text verbatim, filter yields the first group (or the match) of the first match or the empty string, and replace substitutes every match with group references expanded. This holds for values of any content and length, including empty and NUL-containing strings and chains of any length.",
["inputs","programs"],"every value and every pipe chain",
"Unit tests apply each pipe to a handful of strings and chain at most a few; the order, completeness and byte-exactness for arbitrary values and chains is not covered.",
[L+f for f in ["StringPipe.cpp","TrimPipe.cpp","CollapseWsPipe.cpp","CasePipe.cpp","PrependPipe.cpp","AppendPipe.cpp","RegexPipe.cpp","RegexReplacePipe.cpp","AttributeCapture.cpp","FunctionCapture.cpp"]],
[("StringPipe::pipe chain and transform implementations","libhext/src/*Pipe.cpp")],None,["StringPipe::pipe","Rule::capture","Rule::extract"])
p("C08","Extraction returns exactly the matches, grouped and in document order",
"Extraction returns one result group per occurrence of the template's sibling rules in each list of sibling nodes anywhere in the document, in document pre-order of these lists, and nothing else: mandatory siblings match in order, greedy rules repeat, optional rules are taken when present and never prevent a match, and children and nested blocks must match below their element. Each group holds exactly the values captured from the nodes of that occurrence (the matched siblings and whatever their children and nested blocks matched below them), none missing, duplicated or from elsewhere, in a fixed order for values of the same name. A group without captured values is not reported.",
["inputs","programs"],"every document and every rule tree, including optional, greedy, nested and sibling combinations (where a list of only optional rules ends its search of a sibling list with the first occurrence that lacks its last rule, and a greedy mandatory rule found while skipping optional ones before it is taken once, both as the unit tests pin)",
"Blackbox tests pin some two hundred pairs; interactions of optional, greedy, child and nested rules with sibling order grow combinatorially.",
[L+"RuleMatching.cpp",L+"RuleMatching.h",L+"Rule.cpp",L+"NodeUtil.cpp"],
[("SaveMatchingNodesRecursive, MatchRuleGroup, MatchRange, MatchRuleOnce, RuleMatchesNodeRecursive","libhext/src/RuleMatching.cpp"),("grouping of captures","libhext/src/Rule.cpp Rule::extract")],None,["Rule::extract"])
p("C09","The search limit bounds work and never alters results",
"For every rule and document there is a threshold such that extraction with any larger search limit, or with limit 0 (unlimited), returns exactly the unlimited result, and extraction with any limit from 1 up to the threshold raises the search-limit error and returns nothing. The threshold is the number of sibling lists actually searched (nested blocks counted every time they are searched), the limit applies to each extraction call separately, and hitting it leaves the rule and document usable.",
["inputs","programs"],"every rule, document and limit value, up to the maximum 64-bit value",
"Tests try a handful of limits on single documents; off-by-one errors, limits consumed by the wrong operation or remembered between calls are not covered.",
[L+"RuleMatching.cpp",L+"Rule.cpp",I+"MaxSearchError.h"],
[("countdown in SaveMatchingNodesRecursive","libhext/src/RuleMatching.cpp")],[dict(name="max_searches",meaning="remaining searches of this extraction",where="RuleMatching.cpp, by reference")],["Rule::extract"])
p("C10","Extraction is pure: repeatable, history-free, results own their data",
"Extracting, matching or capturing any number of times, in any order and interleaved with other rules and documents, always gives the same result for the same rule and document; neither the rule nor the document changes, even when an extraction ended in an error. Results and rules remain valid and unchanged after the documents, buffers, templates and other rules they came from are destroyed or overwritten.",
["histories"],"every sequence of compile, load, extract, copy and destroy operations",
"Tests run one extraction per fresh rule and document and let everything die together; carried-over state and dangling references need long mixed histories under a memory checker.",
[L+"Rule.cpp",L+"RuleMatching.cpp",L+"Html.cpp",I+"Result.h"],
[("const extract path; results are owning strings","libhext/src/Rule.cpp")],None,["Rule::extract","Rule::matches","Rule::capture"])
p("C11","Rules and documents can be shared between threads",
"Any number of threads may concurrently extract from, match, capture with and copy the same rule and the same document, and compile templates and load documents of their own, without data races and with every thread observing exactly the results a single thread would. Search limits and errors in one thread never affect another.",
["schedules"],"every interleaving of concurrent const operations on shared rules and documents and of independent compilations",
"All existing tests are single-threaded.",
[L+"Rule.cpp",L+"RuleMatching.cpp",L+"Parser.cpp",L+"Builtins.cpp",L+"NodeUtil.cpp"],
[("no shared mutable state in const operations or in the parser","libhext/src")],None,["Rule::extract","hext::ParseHext"])
p("C12","Copies, moves and assignments of rules, conditions and pipes are values",
"A copied rule, condition, value test, capture or pipe (by copy construction, assignment or cloning) behaves identically to the original at the time of copying and is fully independent: changing, assigning or destroying either never affects the other. Moves transfer the behaviour intact, self-assignment and assigning to a rule one of its own subrules are safe, moved-from objects can be destroyed and assigned to, and nothing is leaked or freed twice, for documents as well.",
["histories"],"every sequence of construct, copy, move, assign, mutate and destroy operations on rules, their parts and documents",
"Tests copy a few objects once; aliasing, missing members in hand-written copy code and lifetime errors appear in other operation sequences and only under a memory checker.",
[L+f for f in ["Rule.cpp","AttributeMatch.cpp","FunctionValueMatch.cpp","NegateMatch.cpp","NegateTest.cpp","AttributeCapture.cpp","FunctionCapture.cpp","StringPipe.cpp","Html.cpp"]]+[I+"Html.h",I+"Cloneable.h"],
[("hand-written copy constructors, clone(), swap","libhext/src, libhext/include/hext/Cloneable.h")],None,["Rule, Match, ValueTest, Capture, StringPipe, Html special members"])
p("C13","Extraction is safe on arbitrary HTML and rules",
"For any byte sequence given as HTML (invalid UTF-8, NUL bytes, truncated or malformed markup, unusual namespaces, deep or wide nesting) and any rule, loading and extraction terminate without crash, undefined behaviour, uninitialised reads, leaks or reads outside the given buffer, and return strings or one of the documented errors.",
["inputs","programs"],"every byte string as HTML combined with every rule",
"Tests use small well-formed documents in uninstrumented builds.",
[L+f for f in ["RuleMatching.cpp","NodeUtil.cpp","Rule.cpp","NthChildMatch.cpp","TypeRegexMatch.cpp","Html.cpp","StringUtil.cpp"]],
[("type checks before using the node union; NextNode bounds","libhext/src/NodeUtil.cpp, src/*Match.cpp")],None,["hext::Html","Rule::extract"])
p("C14","htmlext prints exactly the library's results",
"For every list of templates (files, then strings) and HTML files, htmlext prints, for each template in order and each document in order, every result group with exactly the library's names and values: one JSON object per line in compact mode, an equal document spread over several lines when pretty-printed (with --pretty, or without --compact on a terminal), one array per non-empty result with --array, repeated names as arrays in order, and only the values of the chosen name, one per line, with --filter. Output is valid JSON whatever characters the values contain (for valid UTF-8), and --max-searches has the meaning of the library's search limit.",
["inputs","configurations"],"every combination of options, templates, documents and captured values",
"Blackbox tests use compact output on one document and one template each; option combinations and values that need escaping are barely covered.",
["htmlext/main.cpp","htmlext/htmlext/Json.cpp","htmlext/htmlext/ProgramOptions.cpp","htmlext/htmlext/File.cpp"],
[("PrintJson/PrintJsonValue, option handling","htmlext/htmlext/Json.cpp, ProgramOptions.cpp")],None,["htmlext stdout"])
p("C15","htmlext reports every failure and never passes partial work off as success",
"htmlext exits with status 0 only if every template was compiled, every input read completely and all output written; otherwise it exits with a failure status and a message on standard error naming the problem (the file, or the template's syntax error), and never crashes. Lint accepts a template exactly when extraction would and prints nothing on standard output; all templates and inputs are validated and read before the first result is printed; inputs are never modified.",
["fault_sequences","configurations","inputs"],"every command line, missing or unreadable file, read error and write error",
"The bats tests try a few missing-file and syntax-error cases; read and write failures and arbitrary argument lists are not exercised.",
["htmlext/main.cpp","htmlext/htmlext/File.cpp","htmlext/htmlext/ProgramOptions.cpp","htmlext/htmlext/ErrorOutput.cpp"],
[("ReadFileOrThrow, exception handlers in main, output stream checks","htmlext/main.cpp, htmlext/htmlext/File.cpp")],None,["htmlext exit status, stdout, stderr"])
p("C16","Language bindings return exactly the library's results",
"For every template, document and search limit, the Python, Ruby, PHP and Node.js bindings return the same groups, names and values, in the same order and with repeated names as arrays in order, as the C++ library given the same bytes. Every character of every value survives the conversion, including NUL, non-ASCII characters and empty strings.",
["inputs","configurations"],"every template and document, for each binding",
"Blackbox tests run about 190 small ASCII-leaning cases through each binding's own script (and none for Node and PHP here).",
["libhext/bindings/python/pyhext.i","libhext/bindings/ruby/rbhext.i","libhext/bindings/php/phphext.i","libhext/bindings/nodejs/src/Rule.cpp","libhext/bindings/nodejs/src/Html.cpp","libhext/bindings/wrapper/Rule.cpp","libhext/bindings/wrapper/Html.cpp"],
[("result typemaps and wrapper classes","libhext/bindings")],None,["hext.Rule.extract in each language"])
p("C17","Bindings turn every failure into a language error and never corrupt the host",
"Invalid templates, exceeded search limits, wrong argument types, values that cannot be represented and failures inside the library always surface as an exception of the host language (with the library's message) and never crash or abort the interpreter; afterwards the same objects keep working. Objects may be created, shared, dropped and garbage-collected in any order without leaking memory or references, and a document stays valid as long as its object lives whatever happens to the string it was built from.",
["inputs","histories"],"every call of the documented classes' constructors and methods with any arguments, in every order, with garbage collection at any point",
"Tests check one syntax error and one limit in Python; the other error paths, lifetimes and reference counts are never exercised.",
["libhext/bindings/python/pyhext.i","libhext/bindings/ruby/rbhext.i","libhext/bindings/php/phphext.i","libhext/bindings/nodejs/src/Rule.cpp","libhext/bindings/nodejs/src/Html.cpp","libhext/bindings/wrapper/Html.cpp"],
[("exception typemaps, ScopedPyObject, ObjectWrap","libhext/bindings")],None,["interpreter exceptions, reference counts, process memory"])
p("C18","A loaded document is the HTML5 tree of exactly the given bytes",
"Loading a document presents exactly the element tree, attributes and text that HTML5 parsing assigns to the given bytes: exactly the stated number of them (or up to the terminating NUL), no more and no fewer, whatever lies around them in memory, with the html element as root. Moving a document keeps the tree, and loading never modifies the bytes.",
["inputs"],"every byte string, buffer placement and length",
"Tests load NUL-terminated literals only.",
[L+"Html.cpp",I+"Html.h"],[("gumbo_parse_with_options with buffer and size","libhext/src/Html.cpp")],None,["Html::root"])
p("C19","Exceptions thrown by user code propagate cleanly from any point",
"When a user-supplied condition, value test, capture function or pipe throws, at whichever of its calls during matching, capturing, extracting or copying, that very exception reaches the caller. Nothing is leaked, freed twice or left half-modified: the target of a failed assignment or insertion is unchanged, and the same rule and document give the full correct result when used again.",
["fault_sequences"],"every operation and every one of its calls into user code as the point of failure",
"No test throws from a callback.",
[L+"Rule.cpp",L+"RuleMatching.cpp",L+"FunctionMatch.cpp",L+"FunctionCapture.cpp",L+"FunctionValueMatch.cpp",L+"AttributeMatch.cpp",L+"NegateMatch.cpp",L+"NegateTest.cpp",L+"AttributeCapture.cpp",L+"StringPipe.cpp"],
[("RAII ownership throughout; copy-and-swap assignment","libhext/src")],None,["Rule::extract","Rule::matches","Rule::capture","Rule copy and assignment"])
p("C20","User-defined conditions and captures see the right nodes and are honoured",
"User-supplied conditions, capture functions and value tests attached to a rule are called only with nodes of the document being searched that have the rule's element type (capture functions: only with nodes that matched the rule), decide matching exactly like built-in ones, and each reported value is what the capture function returned for a node that matched, after its pipes. Extraction with a plain rule yields exactly what visiting every node, list of siblings by list of siblings in document pre-order, testing it and capturing from it yields; for a subtree, only nodes from the given node on in that sibling list and below are visited. User functions may use the library themselves, with the same rule and document too, without any effect on the extraction that called them.",
["inputs","programs"],"every rule built from user functions, every document and start node",
"Unit tests attach one lambda to one fixed node.",
[L+"Rule.cpp",L+"RuleMatching.cpp",L+"FunctionMatch.cpp",L+"FunctionCapture.cpp",L+"FunctionValueMatch.cpp"],
[("Rule::matches/capture delegating to Match and Capture objects","libhext/src/Rule.cpp")],None,["Rule::extract(node)","Rule::matches","Rule::capture"])
p("C21","Each language's htmlext script prints the library's results or fails cleanly",
"The htmlext command-line scripts that come with the Python, Ruby, PHP and Node.js bindings print, for a template file and a document file, exactly one line per group the library extracts from those bytes, in order, each a valid JSON object that maps every captured name to its value, or to the array of its values in order, whatever characters names and values consist of, and exit with status 0. If arguments are missing, a file cannot be read, the template does not compile or the built-in search limit is exceeded, they print no result, explain the problem on standard error (for templates: with the file's name and the library's message) and exit with a nonzero status.",
["inputs","configurations"],"every template file and document file, for each script",
"Blackbox tests run the Python and Ruby scripts on about 190 small cases that succeed; the PHP and Node scripts are not run at all.",
["libhext/bindings/python/htmlext.py","libhext/bindings/ruby/htmlext.rb","libhext/bindings/php/htmlext.php","libhext/bindings/nodejs/htmlext.js"],
[("reading both files, reporting errors, JSON output","libhext/bindings")],None,["standard output, standard error and exit status of the scripts"])
p("C22","Running out of memory is reported and harms nothing",
"When any single allocation, or every one from some point on, that the library makes through operator new fails while a template is compiled, a rule is constructed, copied, assigned or extended, or conditions, captures, pipes or extraction run, the operation ends with std::bad_alloc or completes with exactly its normal result or with its normal kind of error (the text of an error message alone may be cut short). It never ends the process, returns a shortened or otherwise different result, corrupts memory or leaks; the rules and documents involved, in particular the target of a failed assignment or insertion, are as they were and work as before when used again.",
["fault_sequences","inputs"],"every operation of the library on every template and document, and every one of its allocations as the point of failure",
"No test makes an allocation fail.",
[L+f for f in ["Rule.cpp","RuleMatching.cpp","Parser.cpp","NodeUtil.cpp","StringUtil.cpp","SyntaxError.cpp","AttributeCapture.cpp","FunctionCapture.cpp","StringPipe.cpp","NegateMatch.cpp"]]+[I+"MaxSearchError.h"],
[("RAII ownership, copy-and-swap, noexcept only where nothing allocates, serialisation that does not hide failed insertions","libhext/src")],None,["ParseHext","Rule's special members, append_*, extract, matches, capture","clone() and pipe()"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
