From 0b4898942f986ffbeb2980e638f8a1d2205f3694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:20 +0000
Subject: [PATCH 01/37] fix: report out-of-range numbers in traits as
 SyntaxError

std::stoi's std::out_of_range escaped from ParseHext, e.g. for
<a:nth-child(99999999999)/>.
---
 libhext/ragel/Parser.cpp.rl   | 14 ++++++++++++++
 libhext/ragel/hext-machine.rl |  8 ++++----
 libhext/src/Parser.cpp        | 36 ++++++++++++++++++++++++-----------
 libhext/src/Parser.h          |  4 ++++
 4 files changed, 47 insertions(+), 15 deletions(-)

diff --git a/libhext/ragel/Parser.cpp.rl b/libhext/ragel/Parser.cpp.rl
index b0c7523..ee80e8e 100644
--- a/libhext/ragel/Parser.cpp.rl
+++ b/libhext/ragel/Parser.cpp.rl
@@ -48,6 +48,8 @@
 
 #include <vector>
 #include <sstream>
+#include <stdexcept>
+#include <string>
 #include <utility>
 #include <algorithm>
 
@@ -336,6 +338,18 @@ void Parser::validate_close_tag_or_throw(const std::string& tag_name)
   }
 }
 
+int Parser::parse_int_or_throw(const std::string& number) const
+{
+  try
+  {
+    return std::stoi(number);
+  }
+  catch( const std::out_of_range& )
+  {
+    this->throw_error_message("Number '" + number + "' is out of range");
+  }
+}
+
 void Parser::throw_unexpected() const
 {
   assert(this->p && this->p_begin_ && this->pe);
diff --git a/libhext/ragel/hext-machine.rl b/libhext/ragel/hext-machine.rl
index 9b9502f..c94085c 100644
--- a/libhext/ragel/hext-machine.rl
+++ b/libhext/ragel/hext-machine.rl
@@ -70,13 +70,13 @@ nth_pattern = (
 
   ( ( ( '-'? [0-9]+ )
       >{ tk_start(); }
-      %{ tk_stop(); pv.nth = {0, std::stoi(tok)}; }
+      %{ tk_stop(); pv.nth = {0, this->parse_int_or_throw(tok)}; }
     )
     ( 'n'
       %{ pv.nth = {pv.nth.second, 0}; }
       ( ( ('+'|'-') [0-9]+ )
         >{ tk_start(); }
-        %{ tk_stop(); pv.nth.second = std::stoi(tok); }
+        %{ tk_stop(); pv.nth.second = this->parse_int_or_throw(tok); }
       )?
     )?
   )
@@ -120,14 +120,14 @@ trait = ':' (
   ( 'child-count('
     ( [0-9]+
       >{ tk_start(); }
-      %{ tk_stop(); pv.set_trait<ChildCountMatch>(std::stoi(tok)); } )
+      %{ tk_stop(); pv.set_trait<ChildCountMatch>(this->parse_int_or_throw(tok)); } )
     ')' )
   |
 
   ( 'attribute-count('
     ( [0-9]+
       >{ tk_start(); }
-      %{ tk_stop(); pv.set_trait<AttributeCountMatch>(std::stoi(tok)); } )
+      %{ tk_stop(); pv.set_trait<AttributeCountMatch>(this->parse_int_or_throw(tok)); } )
     ')' )
   |
 
diff --git a/libhext/src/Parser.cpp b/libhext/src/Parser.cpp
index b299e10..7324d35 100644
--- a/libhext/src/Parser.cpp
+++ b/libhext/src/Parser.cpp
@@ -51,6 +51,8 @@
 
 #include <vector>
 #include <sstream>
+#include <stdexcept>
+#include <string>
 #include <utility>
 #include <algorithm>
 
@@ -64,7 +66,7 @@ namespace hext {
 namespace ragel {
   /// Embed the ragel state machine.
   
-#line 67 "Parser.cpp.tmp"
+#line 66 "Parser.cpp.tmp"
 static const char _hext_actions[] = {
 	0, 1, 2, 1, 3, 1, 4, 1, 
 	5, 1, 6, 1, 7, 1, 8, 1, 
@@ -1758,7 +1760,7 @@ static const int hext_error = 0;
 static const int hext_en_main = 816;
 
 
-#line 67 "Parser.cpp.rl"
+#line 69 "Parser.cpp.rl"
 
 } // namespace ragel
 
@@ -1830,12 +1832,12 @@ Rule Parser::parse()
 #endif
 #endif
   
-#line 1833 "Parser.cpp.tmp"
+#line 1828 "Parser.cpp.tmp"
 	{
 	cs = hext_start;
 	}
 
-#line 1838 "Parser.cpp.tmp"
+#line 1831 "Parser.cpp.tmp"
 	{
 	int _klen;
 	unsigned int _trans;
@@ -1971,7 +1973,7 @@ _match:
 	break;
 	case 15:
 #line 73 "hext-machine.rl"
-	{ tk_stop(); pv.nth = {0, std::stoi(tok)}; }
+	{ tk_stop(); pv.nth = {0, this->parse_int_or_throw(tok)}; }
 	break;
 	case 16:
 #line 76 "hext-machine.rl"
@@ -1983,7 +1985,7 @@ _match:
 	break;
 	case 18:
 #line 79 "hext-machine.rl"
-	{ tk_stop(); pv.nth.second = std::stoi(tok); }
+	{ tk_stop(); pv.nth.second = this->parse_int_or_throw(tok); }
 	break;
 	case 19:
 #line 88 "hext-machine.rl"
@@ -2043,7 +2045,7 @@ _match:
 	break;
 	case 31:
 #line 123 "hext-machine.rl"
-	{ tk_stop(); pv.set_trait<ChildCountMatch>(std::stoi(tok)); }
+	{ tk_stop(); pv.set_trait<ChildCountMatch>(this->parse_int_or_throw(tok)); }
 	break;
 	case 32:
 #line 129 "hext-machine.rl"
@@ -2051,7 +2053,7 @@ _match:
 	break;
 	case 33:
 #line 130 "hext-machine.rl"
-	{ tk_stop(); pv.set_trait<AttributeCountMatch>(std::stoi(tok)); }
+	{ tk_stop(); pv.set_trait<AttributeCountMatch>(this->parse_int_or_throw(tok)); }
 	break;
 	case 34:
 #line 135 "hext-machine.rl"
@@ -2283,7 +2285,7 @@ _match:
 #line 360 "hext-machine.rl"
 	{ this->throw_unexpected(); }
 	break;
-#line 2286 "Parser.cpp.tmp"
+#line 2189 "Parser.cpp.tmp"
 		}
 	}
 
@@ -2315,7 +2317,7 @@ _again:
 #line 360 "hext-machine.rl"
 	{ this->throw_unexpected(); }
 	break;
-#line 2318 "Parser.cpp.tmp"
+#line 2216 "Parser.cpp.tmp"
 		}
 	}
 	}
@@ -2323,7 +2325,7 @@ _again:
 	_out: {}
 	}
 
-#line 142 "Parser.cpp.rl"
+#line 144 "Parser.cpp.rl"
 
 #ifndef _MSC_VER
 #pragma GCC diagnostic pop
@@ -2521,6 +2523,18 @@ void Parser::validate_close_tag_or_throw(const std::string& tag_name)
   }
 }
 
+int Parser::parse_int_or_throw(const std::string& number) const
+{
+  try
+  {
+    return std::stoi(number);
+  }
+  catch( const std::out_of_range& )
+  {
+    this->throw_error_message("Number '" + number + "' is out of range");
+  }
+}
+
 void Parser::throw_unexpected() const
 {
   assert(this->p && this->p_begin_ && this->pe);
diff --git a/libhext/src/Parser.h b/libhext/src/Parser.h
index c44f4fc..97820ff 100644
--- a/libhext/src/Parser.h
+++ b/libhext/src/Parser.h
@@ -93,6 +93,10 @@ private:
   /// does not equal the tag from the top most rule.
   void validate_close_tag_or_throw(const std::string& tag_name);
 
+  /// Converts a token containing a decimal number to an int or throws an
+  /// exception if the number is not representable.
+  int parse_int_or_throw(const std::string& number) const;
+
   /// Throws SyntaxError with an error message marking an unexpected character.
   [[noreturn]]
   void throw_unexpected() const;
-- 
2.43.0


From ea6abade7ddfb3d5afef9a3d57564d8d72d7b3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:20 +0000
Subject: [PATCH 02/37] fix: do not carry regex flags over to following regular
 expressions

In <a @text:filter(/A/i):filter(/b/):x/> or :type-matches(/DIV/i) the
flags of one regular expression were also applied to later ones of the
same pattern.
---
 libhext/ragel/hext-machine.rl |   2 +
 libhext/src/Parser.cpp        | 136 +++++++++++++++++-----------------
 2 files changed, 71 insertions(+), 67 deletions(-)

diff --git a/libhext/ragel/hext-machine.rl b/libhext/ragel/hext-machine.rl
index c94085c..000bdfd 100644
--- a/libhext/ragel/hext-machine.rl
+++ b/libhext/ragel/hext-machine.rl
@@ -101,6 +101,8 @@ regex = (
 )*
 %{ try {
      pv.regex = boost::regex(tok, pv.regex_flag);
+     // Flags must not carry over to the next regular expression
+     pv.regex_flag = boost::regex::perl;
    }
    catch( const boost::regex_error& e ) {
      // Mark whole regex as error, including slashes and flags
diff --git a/libhext/src/Parser.cpp b/libhext/src/Parser.cpp
index 7324d35..43a3ab1 100644
--- a/libhext/src/Parser.cpp
+++ b/libhext/src/Parser.cpp
@@ -2023,6 +2023,8 @@ _match:
 #line 102 "hext-machine.rl"
 	{ try {
      pv.regex = boost::regex(tok, pv.regex_flag);
+     // Flags must not carry over to the next regular expression
+     pv.regex_flag = boost::regex::perl;
    }
    catch( const boost::regex_error& e ) {
      // Mark whole regex as error, including slashes and flags
@@ -2032,179 +2034,179 @@ _match:
 }
 	break;
 	case 28:
-#line 112 "hext-machine.rl"
+#line 114 "hext-machine.rl"
 	{ assert(pv.regex); pv.set_test<RegexTest>(*pv.regex); }
 	break;
 	case 29:
-#line 117 "hext-machine.rl"
+#line 119 "hext-machine.rl"
 	{ pv.set_trait<ChildCountMatch>(0); }
 	break;
 	case 30:
-#line 122 "hext-machine.rl"
+#line 124 "hext-machine.rl"
 	{ tk_start(); }
 	break;
 	case 31:
-#line 123 "hext-machine.rl"
+#line 125 "hext-machine.rl"
 	{ tk_stop(); pv.set_trait<ChildCountMatch>(this->parse_int_or_throw(tok)); }
 	break;
 	case 32:
-#line 129 "hext-machine.rl"
+#line 131 "hext-machine.rl"
 	{ tk_start(); }
 	break;
 	case 33:
-#line 130 "hext-machine.rl"
+#line 132 "hext-machine.rl"
 	{ tk_stop(); pv.set_trait<AttributeCountMatch>(this->parse_int_or_throw(tok)); }
 	break;
 	case 34:
-#line 135 "hext-machine.rl"
+#line 137 "hext-machine.rl"
 	{ pv.set_trait<NthChildMatch>(pv.nth); }
 	break;
 	case 35:
-#line 139 "hext-machine.rl"
+#line 141 "hext-machine.rl"
 	{ pv.set_trait<NthChildMatch>(pv.nth, NthChildMatch::Last); }
 	break;
 	case 36:
-#line 143 "hext-machine.rl"
+#line 145 "hext-machine.rl"
 	{ pv.set_trait<NthChildMatch>(pv.nth, NthChildMatch::First|NthChildMatch::OfType); }
 	break;
 	case 37:
-#line 147 "hext-machine.rl"
+#line 149 "hext-machine.rl"
 	{ pv.set_trait<NthChildMatch>(0, 1); }
 	break;
 	case 38:
-#line 151 "hext-machine.rl"
+#line 153 "hext-machine.rl"
 	{ pv.set_trait<NthChildMatch>(0, 1, NthChildMatch::First|NthChildMatch::OfType); }
 	break;
 	case 39:
-#line 155 "hext-machine.rl"
+#line 157 "hext-machine.rl"
 	{ pv.set_trait<NthChildMatch>(0, 1, NthChildMatch::Last); }
 	break;
 	case 40:
-#line 159 "hext-machine.rl"
+#line 161 "hext-machine.rl"
 	{ pv.set_trait<NthChildMatch>(0, 1, NthChildMatch::Last|NthChildMatch::OfType); }
 	break;
 	case 41:
-#line 163 "hext-machine.rl"
+#line 165 "hext-machine.rl"
 	{ pv.set_trait<NthChildMatch>(pv.nth, NthChildMatch::Last|NthChildMatch::OfType); }
 	break;
 	case 42:
-#line 166 "hext-machine.rl"
+#line 168 "hext-machine.rl"
 	{ pv.set_trait<OnlyChildMatch>(); }
 	break;
 	case 43:
-#line 169 "hext-machine.rl"
+#line 171 "hext-machine.rl"
 	{ pv.set_trait<OnlyChildMatch>(OnlyChildMatch::OfType); }
 	break;
 	case 44:
-#line 173 "hext-machine.rl"
+#line 175 "hext-machine.rl"
 	{ pv.set_trait<TypeRegexMatch>(*pv.regex); }
 	break;
 	case 45:
-#line 177 "hext-machine.rl"
+#line 179 "hext-machine.rl"
 	{ pv.negate = std::make_unique<NegateMatch>(); }
 	break;
 	case 46:
-#line 180 "hext-machine.rl"
+#line 182 "hext-machine.rl"
 	{
        assert(pv.negate);
        pv.negate->append_match(std::move(pv.trait));
      }
 	break;
 	case 47:
-#line 191 "hext-machine.rl"
+#line 193 "hext-machine.rl"
 	{ pv.builtin = TextBuiltin; }
 	break;
 	case 48:
-#line 193 "hext-machine.rl"
+#line 195 "hext-machine.rl"
 	{ pv.builtin = InnerHtmlBuiltin; }
 	break;
 	case 49:
-#line 195 "hext-machine.rl"
+#line 197 "hext-machine.rl"
 	{ pv.builtin = StripTagsBuiltin; }
 	break;
 	case 50:
-#line 203 "hext-machine.rl"
+#line 205 "hext-machine.rl"
 	{ pv.add_pipe<TrimPipe>(); }
 	break;
 	case 51:
-#line 205 "hext-machine.rl"
+#line 207 "hext-machine.rl"
 	{ pv.add_pipe<TrimPipe>(pv.literal_value); }
 	break;
 	case 52:
-#line 207 "hext-machine.rl"
+#line 209 "hext-machine.rl"
 	{ pv.add_pipe<CollapseWsPipe>(); }
 	break;
 	case 53:
-#line 209 "hext-machine.rl"
+#line 211 "hext-machine.rl"
 	{ pv.add_pipe<CasePipe>(); }
 	break;
 	case 54:
-#line 211 "hext-machine.rl"
+#line 213 "hext-machine.rl"
 	{ pv.add_pipe<CasePipe>(CasePipe::ToUpper); }
 	break;
 	case 55:
-#line 213 "hext-machine.rl"
+#line 215 "hext-machine.rl"
 	{ pv.add_pipe<PrependPipe>(pv.literal_value); }
 	break;
 	case 56:
-#line 215 "hext-machine.rl"
+#line 217 "hext-machine.rl"
 	{ pv.add_pipe<AppendPipe>(pv.literal_value); }
 	break;
 	case 57:
-#line 217 "hext-machine.rl"
+#line 219 "hext-machine.rl"
 	{ pv.add_pipe<RegexPipe>(*pv.regex); }
 	break;
 	case 58:
-#line 220 "hext-machine.rl"
+#line 222 "hext-machine.rl"
 	{ pv.add_pipe<RegexReplacePipe>(*pv.regex, pv.literal_value); }
 	break;
 	case 59:
-#line 226 "hext-machine.rl"
+#line 228 "hext-machine.rl"
 	{ pv.cap_var = pv.literal_value; }
 	break;
 	case 60:
-#line 228 "hext-machine.rl"
+#line 230 "hext-machine.rl"
 	{ tk_start(); }
 	break;
 	case 61:
-#line 229 "hext-machine.rl"
+#line 231 "hext-machine.rl"
 	{ tk_stop(); pv.cap_var = tok; }
 	break;
 	case 62:
-#line 236 "hext-machine.rl"
+#line 238 "hext-machine.rl"
 	{ pv.set_test<ContainsWordsTest>(pv.literal_value); }
 	break;
 	case 63:
-#line 239 "hext-machine.rl"
+#line 241 "hext-machine.rl"
 	{ pv.set_test<EqualsTest>(pv.literal_value); }
 	break;
 	case 64:
-#line 242 "hext-machine.rl"
+#line 244 "hext-machine.rl"
 	{ pv.set_test<BeginsWithTest>(pv.literal_value); }
 	break;
 	case 65:
-#line 245 "hext-machine.rl"
+#line 247 "hext-machine.rl"
 	{ pv.set_test<ContainsTest>(pv.literal_value); }
 	break;
 	case 66:
-#line 248 "hext-machine.rl"
+#line 250 "hext-machine.rl"
 	{ pv.set_test<EndsWithTest>(pv.literal_value); }
 	break;
 	case 67:
-#line 256 "hext-machine.rl"
+#line 258 "hext-machine.rl"
 	{ cur_rule().append_capture<FunctionCapture>(
              pv.builtin, pv.cap_var, std::move(pv.pipe)); }
 	break;
 	case 68:
-#line 261 "hext-machine.rl"
+#line 263 "hext-machine.rl"
 	{ cur_rule().append_match<FunctionValueMatch>(pv.builtin, std::move(pv.test)); }
 	break;
 	case 69:
-#line 265 "hext-machine.rl"
+#line 267 "hext-machine.rl"
 	{ cur_rule().append_match<FunctionValueMatch>(pv.builtin, std::move(pv.test)); }
 	break;
 	case 70:
-#line 269 "hext-machine.rl"
+#line 271 "hext-machine.rl"
 	{ cur_rule().append_capture<AttributeCapture>(
              pv.attr_name, pv.cap_var, std::move(pv.pipe));
          if( !pv.optional )
@@ -2212,80 +2214,80 @@ _match:
        }
 	break;
 	case 71:
-#line 277 "hext-machine.rl"
+#line 279 "hext-machine.rl"
 	{ cur_rule().append_match<AttributeMatch>(pv.attr_name, std::move(pv.test)); }
 	break;
 	case 72:
-#line 281 "hext-machine.rl"
+#line 283 "hext-machine.rl"
 	{ cur_rule().append_match<AttributeMatch>(pv.attr_name, std::move(pv.test)); }
 	break;
 	case 73:
-#line 285 "hext-machine.rl"
+#line 287 "hext-machine.rl"
 	{ pv.test = nullptr; }
 	break;
 	case 74:
-#line 288 "hext-machine.rl"
+#line 290 "hext-machine.rl"
 	{ cur_rule().append_match<AttributeMatch>(pv.attr_name, std::move(pv.test)); }
 	break;
 	case 75:
-#line 289 "hext-machine.rl"
+#line 291 "hext-machine.rl"
 	{ pv.reset(); }
 	break;
 	case 76:
-#line 299 "hext-machine.rl"
+#line 301 "hext-machine.rl"
 	{ push_rule(); }
 	break;
 	case 77:
-#line 304 "hext-machine.rl"
+#line 306 "hext-machine.rl"
 	{ cur_rule().set_optional(true); }
 	break;
 	case 78:
-#line 308 "hext-machine.rl"
+#line 310 "hext-machine.rl"
 	{ cur_rule().set_greedy(true); }
 	break;
 	case 79:
-#line 312 "hext-machine.rl"
+#line 314 "hext-machine.rl"
 	{ tk_start(); }
 	break;
 	case 80:
-#line 313 "hext-machine.rl"
+#line 315 "hext-machine.rl"
 	{ tk_stop(); set_open_tag_or_throw(tok); }
 	break;
 	case 81:
-#line 316 "hext-machine.rl"
+#line 318 "hext-machine.rl"
 	{ cur_rule().append_match(std::move(pv.negate)); }
 	break;
 	case 82:
-#line 319 "hext-machine.rl"
+#line 321 "hext-machine.rl"
 	{ cur_rule().append_match(std::move(pv.trait)); }
 	break;
 	case 83:
-#line 327 "hext-machine.rl"
+#line 329 "hext-machine.rl"
 	{ pop_rule(); }
 	break;
 	case 84:
-#line 334 "hext-machine.rl"
+#line 336 "hext-machine.rl"
 	{ tk_start(); }
 	break;
 	case 85:
-#line 335 "hext-machine.rl"
+#line 337 "hext-machine.rl"
 	{ tk_stop();
                             validate_close_tag_or_throw(tok);
                             pop_rule(); }
 	break;
 	case 86:
-#line 352 "hext-machine.rl"
+#line 354 "hext-machine.rl"
 	{ push_nested(); }
 	break;
 	case 87:
-#line 356 "hext-machine.rl"
+#line 358 "hext-machine.rl"
 	{ pop_nested(); }
 	break;
 	case 88:
-#line 360 "hext-machine.rl"
+#line 362 "hext-machine.rl"
 	{ this->throw_unexpected(); }
 	break;
-#line 2189 "Parser.cpp.tmp"
+#line 2191 "Parser.cpp.tmp"
 		}
 	}
 
@@ -2302,22 +2304,22 @@ _again:
 	while ( __nacts-- > 0 ) {
 		switch ( *__acts++ ) {
 	case 83:
-#line 327 "hext-machine.rl"
+#line 329 "hext-machine.rl"
 	{ pop_rule(); }
 	break;
 	case 86:
-#line 352 "hext-machine.rl"
+#line 354 "hext-machine.rl"
 	{ push_nested(); }
 	break;
 	case 87:
-#line 356 "hext-machine.rl"
+#line 358 "hext-machine.rl"
 	{ pop_nested(); }
 	break;
 	case 88:
-#line 360 "hext-machine.rl"
+#line 362 "hext-machine.rl"
 	{ this->throw_unexpected(); }
 	break;
-#line 2216 "Parser.cpp.tmp"
+#line 2218 "Parser.cpp.tmp"
 		}
 	}
 	}
-- 
2.43.0


From d9ff195c1b296c3f8a6fa381aceeb3b5e88e987b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:20 +0000
Subject: [PATCH 03/37] fix: null dereference when assigning captures without a
 pipe

---
 libhext/src/AttributeCapture.cpp | 2 +-
 libhext/src/FunctionCapture.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libhext/src/AttributeCapture.cpp b/libhext/src/AttributeCapture.cpp
index 8631433..c772099 100644
--- a/libhext/src/AttributeCapture.cpp
+++ b/libhext/src/AttributeCapture.cpp
@@ -43,7 +43,7 @@ AttributeCapture& AttributeCapture::operator=(const AttributeCapture& other)
   {
     this->attr_name_ = other.attr_name_;
     this->name_ = other.name_;
-    this->pipe_ = other.pipe_->clone();
+    this->pipe_ = other.pipe_ ? other.pipe_->clone() : nullptr;
   }
 
   return *this;
diff --git a/libhext/src/FunctionCapture.cpp b/libhext/src/FunctionCapture.cpp
index a3b0d0b..dd60108 100644
--- a/libhext/src/FunctionCapture.cpp
+++ b/libhext/src/FunctionCapture.cpp
@@ -43,7 +43,7 @@ FunctionCapture& FunctionCapture::operator=(const FunctionCapture& other)
   {
     this->func_ = other.func_;
     this->name_ = other.name_;
-    this->pipe_ = other.pipe_->clone();
+    this->pipe_ = other.pipe_ ? other.pipe_->clone() : nullptr;
   }
 
   return *this;
-- 
2.43.0


From 6880ca090396eb70b3774da8f296448bbbd3c907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 04/37] fix: double free after moving Html

The defaulted move operations left the parse tree owned by both objects.
---
 libhext/include/hext/Html.h |  4 ++--
 libhext/src/Html.cpp        | 18 ++++++++++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/libhext/include/hext/Html.h b/libhext/include/hext/Html.h
index bbee510..c71e201 100644
--- a/libhext/include/hext/Html.h
+++ b/libhext/include/hext/Html.h
@@ -64,8 +64,8 @@ public:
   Html(const char * buffer, std::size_t size) noexcept;
 
   ~Html() noexcept;
-  Html(Html&&) noexcept = default;
-  Html& operator=(Html&&) noexcept = default;
+  Html(Html&& other) noexcept;
+  Html& operator=(Html&& other) noexcept;
 
   /// Returns a non-owning pointer to the root node of the HTML document.
   ///
diff --git a/libhext/src/Html.cpp b/libhext/src/Html.cpp
index 553ce7c..380f22c 100644
--- a/libhext/src/Html.cpp
+++ b/libhext/src/Html.cpp
@@ -15,6 +15,7 @@
 #include "hext/Html.h"
 
 #include <cstring>
+#include <utility>
 
 
 namespace hext {
@@ -42,6 +43,23 @@ Html::~Html() noexcept
     gumbo_destroy_output(&kGumboDefaultOptions, this->g_outp_);
 }
 
+Html::Html(Html&& other) noexcept
+: g_outp_(other.g_outp_)
+{
+  other.g_outp_ = nullptr;
+}
+
+Html& Html::operator=(Html&& other) noexcept
+{
+  if( this != &other )
+  {
+    Html tmp(std::move(other));
+    std::swap(this->g_outp_, tmp.g_outp_);
+  }
+
+  return *this;
+}
+
 const GumboNode * Html::root() const noexcept
 {
   return this->g_outp_ ? this->g_outp_->root : nullptr;
-- 
2.43.0


From 01b018690e1113b16357f8ca6a99c4bdd3cd1e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 05/37] fix: use after free when move-assigning a rule from its
 own subrule

---
 libhext/include/hext/Rule.h | 2 +-
 libhext/src/Rule.cpp        | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/libhext/include/hext/Rule.h b/libhext/include/hext/Rule.h
index aacd79a..22265f4 100644
--- a/libhext/include/hext/Rule.h
+++ b/libhext/include/hext/Rule.h
@@ -124,7 +124,7 @@ public:
   ~Rule() noexcept = default;
   Rule(Rule&&) noexcept = default;
   Rule(const Rule& other);
-  Rule& operator=(Rule&&) noexcept = default;
+  Rule& operator=(Rule&& other) noexcept;
   Rule& operator=(const Rule& other);
 
   /// Returns the child or nullptr if childless.
diff --git a/libhext/src/Rule.cpp b/libhext/src/Rule.cpp
index e76d8cc..ecfe180 100644
--- a/libhext/src/Rule.cpp
+++ b/libhext/src/Rule.cpp
@@ -86,6 +86,14 @@ Rule& Rule::operator=(const Rule& other)
   return *this;
 }
 
+Rule& Rule::operator=(Rule&& other) noexcept
+{
+  // other may be owned by this, e.g. rule = std::move(*rule.child())
+  Rule tmp(std::move(other));
+  this->swap(tmp);
+  return *this;
+}
+
 const Rule * Rule::child() const noexcept
 {
   return this->first_child_.get();
-- 
2.43.0


From e762d61139569c09f602e55cd78b5e72b87d456b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 06/37] fix: signed integer overflow in NthChildMatch for
 extreme steps and shifts

---
 libhext/src/NthChildMatch.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libhext/src/NthChildMatch.cpp b/libhext/src/NthChildMatch.cpp
index 6c266e8..8ddce91 100644
--- a/libhext/src/NthChildMatch.cpp
+++ b/libhext/src/NthChildMatch.cpp
@@ -15,6 +15,7 @@
 #include "hext/NthChildMatch.h"
 
 #include <cassert>
+#include <cstdint>
 
 
 namespace hext {
@@ -47,7 +48,8 @@ bool NthChildMatch::matches(const GumboNode * node) const noexcept
   if( this->options_ & Option::OfType )
     count_tag = static_cast<HtmlTag>(node->v.element.tag);
 
-  int node_pos = 0;
+  // A wide type is required, because step and shift may be any int.
+  std::int64_t node_pos = 0;
   if( this->options_ & Option::First )
     node_pos = this->count_preceding_siblings(node, count_tag);
   else
@@ -76,7 +78,7 @@ bool NthChildMatch::matches(const GumboNode * node) const noexcept
     if( node_pos > this->shift_ )
       return false;
 
-    return ( this->shift_ - node_pos ) % ( -1 * this->step_ ) == 0;
+    return ( this->shift_ - node_pos ) % ( -1 * std::int64_t(this->step_) ) == 0;
   }
 }
 
-- 
2.43.0


From cfcb785208b7f2def34d6e752c58be41ae6196c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 07/37] fix: null dereference when extracting from a node
 without a parent

---
 libhext/src/NodeUtil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libhext/src/NodeUtil.cpp b/libhext/src/NodeUtil.cpp
index 5328b8e..717fd66 100644
--- a/libhext/src/NodeUtil.cpp
+++ b/libhext/src/NodeUtil.cpp
@@ -304,7 +304,7 @@ bool TagWrapsText(GumboTag tag) noexcept
 
 const GumboNode * NextNode(const GumboNode * node) noexcept
 {
-  if( !node || node->parent->type != GUMBO_NODE_ELEMENT )
+  if( !node || !node->parent || node->parent->type != GUMBO_NODE_ELEMENT )
     return nullptr;
 
   const GumboNode * parent = node->parent;
-- 
2.43.0


From 594581d8b2de5529fabe638db2440404981ca888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:35 +0000
Subject: [PATCH 08/37] fix: filter pipe ignored everything after a null byte

---
 libhext/src/RegexPipe.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libhext/src/RegexPipe.cpp b/libhext/src/RegexPipe.cpp
index 144cf6f..9c6daf7 100644
--- a/libhext/src/RegexPipe.cpp
+++ b/libhext/src/RegexPipe.cpp
@@ -25,12 +25,12 @@ RegexPipe::RegexPipe(boost::regex regex)
 
 std::string RegexPipe::transform(std::string str) const
 {
-  boost::match_results<const char *> mr;
-  if( boost::regex_search(str.c_str(), mr, this->regex_) )
+  boost::smatch mr;
+  if( boost::regex_search(str, mr, this->regex_) )
   {
     // If there are no parentheses contained within the regex, return whole
     // regex capture (mr[0]), if there are, then return the first one.
-    return ( mr.size() > 1 ? mr[1] : mr[0] );
+    return ( mr.size() > 1 ? mr[1] : mr[0] ).str();
   }
 
   return "";
-- 
2.43.0


From 0b3b958e868a7027b140b17536f7012516a0212e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:35 +0000
Subject: [PATCH 09/37] fix: keep a pipe's chain intact if cloning the assigned
 chain throws

The current chain was deleted before the other chain was cloned.
---
 libhext/src/StringPipe.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/libhext/src/StringPipe.cpp b/libhext/src/StringPipe.cpp
index 6ad581b..0cae0af 100644
--- a/libhext/src/StringPipe.cpp
+++ b/libhext/src/StringPipe.cpp
@@ -32,13 +32,14 @@ StringPipe& StringPipe::operator=(const StringPipe& other)
 {
   if( this != &other )
   {
-    // delete current chain
-    this->next_ = nullptr;
-
     // recursively clone the pipe chain (Cloneable::clone() will call the copy
-    // ctor for other.next_).
+    // ctor for other.next_). Cloning may throw: keep the current chain until
+    // it is done.
+    std::unique_ptr<StringPipe> next;
     if( other.next_ )
-      this->next_ = other.next_->clone();
+      next = other.next_->clone();
+
+    this->next_ = std::move(next);
   }
 
   return *this;
-- 
2.43.0


From 92943eeda69a1e3f0b3f327b3ff1314f7fc9f8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 10/37] fix: captures were left half-assigned if cloning their
 pipe throws

---
 libhext/src/AttributeCapture.cpp | 10 +++-------
 libhext/src/FunctionCapture.cpp  | 10 +++-------
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/libhext/src/AttributeCapture.cpp b/libhext/src/AttributeCapture.cpp
index c772099..6244190 100644
--- a/libhext/src/AttributeCapture.cpp
+++ b/libhext/src/AttributeCapture.cpp
@@ -39,13 +39,9 @@ AttributeCapture::AttributeCapture(const AttributeCapture& other)
 
 AttributeCapture& AttributeCapture::operator=(const AttributeCapture& other)
 {
-  if( this != &other )
-  {
-    this->attr_name_ = other.attr_name_;
-    this->name_ = other.name_;
-    this->pipe_ = other.pipe_ ? other.pipe_->clone() : nullptr;
-  }
-
+  using std::swap;
+  AttributeCapture tmp(other);
+  swap(*this, tmp);
   return *this;
 }
 
diff --git a/libhext/src/FunctionCapture.cpp b/libhext/src/FunctionCapture.cpp
index dd60108..35f4f0f 100644
--- a/libhext/src/FunctionCapture.cpp
+++ b/libhext/src/FunctionCapture.cpp
@@ -39,13 +39,9 @@ FunctionCapture::FunctionCapture(const FunctionCapture& other)
 
 FunctionCapture& FunctionCapture::operator=(const FunctionCapture& other)
 {
-  if( this != &other )
-  {
-    this->func_ = other.func_;
-    this->name_ = other.name_;
-    this->pipe_ = other.pipe_ ? other.pipe_->clone() : nullptr;
-  }
-
+  using std::swap;
+  FunctionCapture tmp(other);
+  swap(*this, tmp);
   return *this;
 }
 
-- 
2.43.0


From 30ebda42174ef7a0a3dac6098230f086fffb5b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 11/37] fix: htmlext truncated JSON values at null bytes

---
 htmlext/htmlext/Json.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/htmlext/htmlext/Json.cpp b/htmlext/htmlext/Json.cpp
index ab3c672..553ca2f 100644
--- a/htmlext/htmlext/Json.cpp
+++ b/htmlext/htmlext/Json.cpp
@@ -34,8 +34,15 @@ void PrintJson(const hext::Result result, JsonOption opt, std::ostream& out)
 
     for(const auto& p : group)
     {
-      rapidjson::Value name(p.first.c_str(), alloc);
-      rapidjson::Value value(p.second.c_str(), alloc);
+      // Pass the length, values may contain null bytes
+      rapidjson::Value name(
+          p.first.c_str(),
+          static_cast<rapidjson::SizeType>(p.first.size()),
+          alloc);
+      rapidjson::Value value(
+          p.second.c_str(),
+          static_cast<rapidjson::SizeType>(p.second.size()),
+          alloc);
       // If the key is already taken, transform the value into an array
       if( obj.HasMember(name) )
       {
-- 
2.43.0


From c717f19cab842e4025b7b51d13bc75d675849910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 12/37] fix: htmlext ignored everything after a null byte in
 hext files

---
 htmlext/main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/htmlext/main.cpp b/htmlext/main.cpp
index c4049c3..f963482 100644
--- a/htmlext/main.cpp
+++ b/htmlext/main.cpp
@@ -64,8 +64,9 @@ int main(int argc, const char ** argv)
     for(const auto& filename : hext_filenames)
     {
       try {
+        auto hext_content = htmlext::ReadFileOrThrow(filename);
         rules.emplace_back(
-            hext::ParseHext(htmlext::ReadFileOrThrow(filename).c_str()));
+            hext::ParseHext(hext_content.c_str(), hext_content.size()));
       } catch( const hext::SyntaxError& e ) {
         errout.print(std::string("Error in " + filename), e.what());
         return EXIT_FAILURE;
-- 
2.43.0


From 86589bd18ac85517adea6ff9b381e875ed018aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 13/37] fix: htmlext treated unreadable files as empty

Read errors, e.g. when given a directory, went unnoticed.
---
 htmlext/htmlext/File.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/htmlext/htmlext/File.cpp b/htmlext/htmlext/File.cpp
index e014da2..9a983b0 100644
--- a/htmlext/htmlext/File.cpp
+++ b/htmlext/htmlext/File.cpp
@@ -15,7 +15,6 @@
 #include "htmlext/File.h"
 
 #include <fstream>
-#include <sstream>
 // strerror_r, strerror_s are not part of the C++ stdlib
 #include <string.h>
 
@@ -77,15 +76,22 @@ std::string ReadFileOrThrow(const std::string& path)
       );
   }
 
-  std::stringstream buffer;
-  buffer << file.rdbuf();
+  // istream::read sets badbit on read errors, e.g. if path is a directory
+  std::string content;
+  char chunk[4096];
+  do
+  {
+    file.read(chunk, sizeof(chunk));
+    content.append(chunk, static_cast<std::string::size_type>(file.gcount()));
+  }
+  while( file );
 
-  if( file.fail() )
+  if( file.bad() )
     throw FileError(
       "cannot read '" + path + "': " + StrError(errno)
     );
 
-  return buffer.str();
+  return content;
 }
 
 
-- 
2.43.0


From e2b24d2e56709e0b2cf64be09d5cebacb10f20dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 14/37] fix: htmlext reported success if its output could not
 be written

---
 htmlext/main.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/htmlext/main.cpp b/htmlext/main.cpp
index f963482..1974ee4 100644
--- a/htmlext/main.cpp
+++ b/htmlext/main.cpp
@@ -29,6 +29,23 @@
 #include <vector>
 
 
+namespace {
+
+
+// Returns EXIT_FAILURE if any output could not be written.
+int FlushOutput(const htmlext::ErrorOutput& errout)
+{
+  if( std::cout.flush() )
+    return EXIT_SUCCESS;
+
+  errout.print("Error", "cannot write to standard output");
+  return EXIT_FAILURE;
+}
+
+
+} // namespace
+
+
 int main(int argc, const char ** argv)
 {
   std::ios_base::sync_with_stdio(false);
@@ -43,13 +60,13 @@ int main(int argc, const char ** argv)
     if( po.contains("help") )
     {
       po.print(argv[0], std::cout);
-      return EXIT_SUCCESS;
+      return FlushOutput(errout);
     }
 
     if( po.contains("version") )
     {
       htmlext::PrintVersion(std::cout);
-      return EXIT_SUCCESS;
+      return FlushOutput(errout);
     }
 
     std::vector<hext::Rule> rules;
@@ -139,6 +156,6 @@ int main(int argc, const char ** argv)
     return EXIT_FAILURE;
   }
 
-  return EXIT_SUCCESS;
+  return FlushOutput(errout);
 }
 
-- 
2.43.0


From d4b6a9a47744814f64d596a58f3745b43109d3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:05 +0000
Subject: [PATCH 15/37] fix: python: crash and leak if a value is not valid
 UTF-8

ScopedPyObject called Py_DECREF(NULL) when leaving the typemap, and the
unfinished result list was never released.
---
 libhext/bindings/python/pyhext.i | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libhext/bindings/python/pyhext.i b/libhext/bindings/python/pyhext.i
index 813d5df..bc96537 100644
--- a/libhext/bindings/python/pyhext.i
+++ b/libhext/bindings/python/pyhext.i
@@ -41,7 +41,7 @@ struct ScopedPyObject
   : obj(object)
   {}
 
-  ~ScopedPyObject() noexcept { Py_DECREF(this->obj); }
+  ~ScopedPyObject() noexcept { Py_XDECREF(this->obj); }
 
   PyObject * obj;
 };
@@ -56,8 +56,8 @@ struct ScopedPyObject
 // Convert vector of multimaps to list of dicts
 %typemap(out) std::vector<std::multimap<std::string, std::string>>
 {
-  $result = PyList_New(0);
-  if( !$result )
+  ScopedPyObject groups(PyList_New(0));
+  if( !groups.obj )
     SWIG_exception(SWIG_RuntimeError, "PyList_New returned nullptr");
 
   for(const auto& map : *(&$1))
@@ -115,9 +115,12 @@ struct ScopedPyObject
     }
 
     // does not steal a reference to dict
-    if( PyList_Append($result, dict.obj) )
+    if( PyList_Append(groups.obj, dict.obj) )
       SWIG_exception(SWIG_RuntimeError, "PyList_Append returned != 0");
   }
+
+  Py_INCREF(groups.obj);
+  $result = groups.obj;
 }
 
 %include "exception.i"
-- 
2.43.0


From c595309c202287b69cd996207fb9613755e842da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:05 +0000
Subject: [PATCH 16/37] fix: python: names and values were truncated at null
 bytes

---
 libhext/bindings/python/pyhext.i | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/libhext/bindings/python/pyhext.i b/libhext/bindings/python/pyhext.i
index bc96537..ade2205 100644
--- a/libhext/bindings/python/pyhext.i
+++ b/libhext/bindings/python/pyhext.i
@@ -69,17 +69,24 @@ struct ScopedPyObject
     auto it = map.cbegin();
     while( it != map.cend() )
     {
+      ScopedPyObject key(PyUnicode_FromStringAndSize(
+          it->first.data(), static_cast<Py_ssize_t>(it->first.size())));
+      if( !key.obj )
+        SWIG_exception(SWIG_RuntimeError,
+            "PyUnicode_FromStringAndSize returned nullptr");
+
       if( map.count(it->first) < 2 )
       {
-        ScopedPyObject value(PyString_FromString(it->second.c_str()));
+        ScopedPyObject value(PyUnicode_FromStringAndSize(
+            it->second.data(), static_cast<Py_ssize_t>(it->second.size())));
         if( !value.obj )
           SWIG_exception(SWIG_RuntimeError,
-              "PyString_FromString returned nullptr");
+              "PyUnicode_FromStringAndSize returned nullptr");
 
-        // does not steal a reference to value
-        if( PyDict_SetItemString(dict.obj, it->first.c_str(), value.obj) )
+        // does not steal references to key and value
+        if( PyDict_SetItem(dict.obj, key.obj, value.obj) )
           SWIG_exception(SWIG_RuntimeError,
-              "PyDict_SetItemString returned != 0");
+              "PyDict_SetItem returned != 0");
 
         ++it;
       }
@@ -93,22 +100,22 @@ struct ScopedPyObject
         auto upper = map.upper_bound(it->first);
         for(; lower != upper; ++lower)
         {
-          // Swig defines PyString_FromString, which forwards to
-          // PyUnicode_FromString
-          ScopedPyObject value(PyString_FromString(lower->second.c_str()));
+          ScopedPyObject value(PyUnicode_FromStringAndSize(
+              lower->second.data(),
+              static_cast<Py_ssize_t>(lower->second.size())));
           if( !value.obj )
             SWIG_exception(SWIG_RuntimeError,
-                "PyString_FromString returned nullptr");
+                "PyUnicode_FromStringAndSize returned nullptr");
 
           // does not steal a reference to value
           if( PyList_Append(list.obj, value.obj) )
             SWIG_exception(SWIG_RuntimeError, "PyList_Append returned != 0");
         }
 
-        // does not steal a reference to list
-        if( PyDict_SetItemString(dict.obj, it->first.c_str(), list.obj) )
+        // does not steal references to key and list
+        if( PyDict_SetItem(dict.obj, key.obj, list.obj) )
           SWIG_exception(SWIG_RuntimeError,
-              "PyDict_SetItemString returned != 0");
+              "PyDict_SetItem returned != 0");
 
         it = upper;
       }
-- 
2.43.0


From e262ba899bee7c2f78e8c8d0802c3dbdc42fa8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:05 +0000
Subject: [PATCH 17/37] fix: php: names and values were truncated at null bytes

---
 libhext/bindings/php/phphext.i | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/libhext/bindings/php/phphext.i b/libhext/bindings/php/phphext.i
index 52a143b..7ce9699 100644
--- a/libhext/bindings/php/phphext.i
+++ b/libhext/bindings/php/phphext.i
@@ -32,10 +32,12 @@
     {
       if( map.count(it->first) < 2 )
       {
-        add_assoc_string(
+        add_assoc_stringl_ex(
           &out_map,
           it->first.c_str(),
-          it->second.c_str()
+          it->first.size(),
+          it->second.c_str(),
+          it->second.size()
         );
         ++it;
       }
@@ -54,7 +56,12 @@
             lower->second.size()
           );
 
-        add_assoc_zval(&out_map, it->first.c_str(), &values);
+        add_assoc_zval_ex(
+          &out_map,
+          it->first.c_str(),
+          it->first.size(),
+          &values
+        );
         it = upper;
       }
     }
-- 
2.43.0


From 5c6aec7774e93946bf524de7c91f9e016dbaad7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:05 +0000
Subject: [PATCH 18/37] fix: bindings: exceptions from within libhext aborted
 the interpreter

Boost.Regex throws std::runtime_error if matching becomes too complex.
---
 libhext/bindings/nodejs/src/Rule.cpp | 16 ++++++++++++++++
 libhext/bindings/php/phphext.i       |  8 ++++++++
 libhext/bindings/python/pyhext.i     |  8 ++++++++
 libhext/bindings/ruby/rbhext.i       |  8 ++++++++
 4 files changed, 40 insertions(+)

diff --git a/libhext/bindings/nodejs/src/Rule.cpp b/libhext/bindings/nodejs/src/Rule.cpp
index b950767..dacdeb9 100644
--- a/libhext/bindings/nodejs/src/Rule.cpp
+++ b/libhext/bindings/nodejs/src/Rule.cpp
@@ -20,6 +20,7 @@
 #include <hext/Result.h>
 
 #include <cstdint>
+#include <exception>
 
 
 Rule::Rule(const Napi::CallbackInfo& info)
@@ -57,6 +58,12 @@ Rule::Rule(const Napi::CallbackInfo& info)
     Napi::Error::New(env, message).ThrowAsJavaScriptException();
     return;
   }
+  catch( const std::exception& e )
+  {
+    auto message = std::string("Error: ") + e.what();
+    Napi::Error::New(env, message).ThrowAsJavaScriptException();
+    return;
+  }
 }
 
 Napi::Value Rule::extract(const Napi::CallbackInfo& info)
@@ -152,6 +159,15 @@ Napi::Value Rule::extract(const Napi::CallbackInfo& info)
       .ThrowAsJavaScriptException();
     return env.Null();
   }
+  catch( const std::exception& e )
+  {
+    auto message = std::string("Error: ") + e.what();
+    Napi::Error::New(
+        env,
+        message)
+      .ThrowAsJavaScriptException();
+    return env.Null();
+  }
 
   Napi::Array ret = Napi::Array::New(env);
   for(const auto& group : result)
diff --git a/libhext/bindings/php/phphext.i b/libhext/bindings/php/phphext.i
index 7ce9699..e27af85 100644
--- a/libhext/bindings/php/phphext.i
+++ b/libhext/bindings/php/phphext.i
@@ -80,6 +80,10 @@
   {
     SWIG_exception(SWIG_ValueError, e.what());
   }
+  catch(const std::exception& e)
+  {
+    SWIG_exception(SWIG_RuntimeError, e.what());
+  }
 }
 %exception Rule::extract {
   try
@@ -90,6 +94,10 @@
   {
     SWIG_exception(SWIG_RuntimeError, e.what());
   }
+  catch(const std::exception& e)
+  {
+    SWIG_exception(SWIG_RuntimeError, e.what());
+  }
 }
 
 %ignore Html::root() const;
diff --git a/libhext/bindings/python/pyhext.i b/libhext/bindings/python/pyhext.i
index ade2205..5cc5b7c 100644
--- a/libhext/bindings/python/pyhext.i
+++ b/libhext/bindings/python/pyhext.i
@@ -140,6 +140,10 @@ struct ScopedPyObject
   {
     SWIG_exception(SWIG_ValueError, e.what());
   }
+  catch(const std::exception& e)
+  {
+    SWIG_exception(SWIG_RuntimeError, e.what());
+  }
 }
 %exception Rule::extract {
   try
@@ -150,6 +154,10 @@ struct ScopedPyObject
   {
     SWIG_exception(SWIG_RuntimeError, e.what());
   }
+  catch(const std::exception& e)
+  {
+    SWIG_exception(SWIG_RuntimeError, e.what());
+  }
 }
 
 // Improve error messages for argument type mismatch
diff --git a/libhext/bindings/ruby/rbhext.i b/libhext/bindings/ruby/rbhext.i
index 4f68d3c..656c3b8 100644
--- a/libhext/bindings/ruby/rbhext.i
+++ b/libhext/bindings/ruby/rbhext.i
@@ -69,6 +69,10 @@
   {
     SWIG_exception(SWIG_ValueError, e.what());
   }
+  catch(const std::exception& e)
+  {
+    SWIG_exception(SWIG_RuntimeError, e.what());
+  }
 }
 %exception Rule::extract {
   try
@@ -79,6 +83,10 @@
   {
     SWIG_exception(SWIG_RuntimeError, e.what());
   }
+  catch(const std::exception& e)
+  {
+    SWIG_exception(SWIG_RuntimeError, e.what());
+  }
 }
 
 %ignore Html::root() const;
-- 
2.43.0


From fc1b32d85a21b02ee078d96d396d19ce7bb53772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:05 +0000
Subject: [PATCH 19/37] fix: nodejs: everything after a null byte in a template
 was ignored

---
 libhext/bindings/nodejs/src/Rule.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libhext/bindings/nodejs/src/Rule.cpp b/libhext/bindings/nodejs/src/Rule.cpp
index dacdeb9..0a232b3 100644
--- a/libhext/bindings/nodejs/src/Rule.cpp
+++ b/libhext/bindings/nodejs/src/Rule.cpp
@@ -49,8 +49,9 @@ Rule::Rule(const Napi::CallbackInfo& info)
 
   try
   {
+    const std::string hext = info[0].As<Napi::String>().Utf8Value();
     this->rule_ = std::make_unique<hext::Rule>(
-        hext::ParseHext(info[0].As<Napi::String>().Utf8Value().c_str()));
+        hext::ParseHext(hext.c_str(), hext.size()));
   }
   catch( const hext::SyntaxError& e )
   {
-- 
2.43.0


From 956de68d21c62707dae15246db3daf0f2739d9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:05 +0000
Subject: [PATCH 20/37] fix: nodejs: max_searches was truncated to 32 bits

4294967296 was treated as 0, i.e. unlimited.
---
 libhext/bindings/nodejs/src/Rule.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libhext/bindings/nodejs/src/Rule.cpp b/libhext/bindings/nodejs/src/Rule.cpp
index 0a232b3..de199c7 100644
--- a/libhext/bindings/nodejs/src/Rule.cpp
+++ b/libhext/bindings/nodejs/src/Rule.cpp
@@ -103,7 +103,8 @@ Napi::Value Rule::extract(const Napi::CallbackInfo& info)
     }
     else
     {
-      max_searches = info[1].ToNumber().Uint32Value();
+      max_searches = static_cast<std::uint64_t>(
+          info[1].ToNumber().Int64Value());
     }
   }
 
-- 
2.43.0


From aa3e0557c7eadb69bc937b96347854236085461f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 21/37] fix: of-type traits counted all custom elements as one
 type

:first-of-type, :nth-of-type, :only-of-type, etc. did not distinguish
between different custom tag names.
---
 libhext/src/NodeUtil.cpp       | 15 +++++++++++++++
 libhext/src/NodeUtil.h         |  5 +++++
 libhext/src/NthChildMatch.cpp  |  6 ++++--
 libhext/src/OnlyChildMatch.cpp |  6 +++---
 4 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/libhext/src/NodeUtil.cpp b/libhext/src/NodeUtil.cpp
index 717fd66..f434e5e 100644
--- a/libhext/src/NodeUtil.cpp
+++ b/libhext/src/NodeUtil.cpp
@@ -213,6 +213,21 @@ void SerializeElementTag(const GumboElement& e, std::ostringstream& os)
   }
 }
 
+bool TagsAreEqual(const GumboElement& a, const GumboElement& b) noexcept
+{
+  if( a.tag != b.tag )
+    return false;
+
+  if( a.tag != GUMBO_TAG_UNKNOWN )
+    return true;
+
+  GumboStringPiece a_name = a.original_tag;
+  GumboStringPiece b_name = b.original_tag;
+  gumbo_tag_from_original_text(&a_name);
+  gumbo_tag_from_original_text(&b_name);
+  return gumbo_string_equals_ignore_case(&a_name, &b_name);
+}
+
 bool TagIsSelfClosing(GumboTag tag) noexcept
 {
 #ifndef _MSC_VER
diff --git a/libhext/src/NodeUtil.h b/libhext/src/NodeUtil.h
index 709fb6d..2237145 100644
--- a/libhext/src/NodeUtil.h
+++ b/libhext/src/NodeUtil.h
@@ -63,6 +63,11 @@ void SerializeElement(const GumboElement& e, std::ostringstream& os);
 void SerializeElementTag(const GumboElement& e, std::ostringstream& os);
 
 
+/// Returns true if both HTML elements have the same tag name. Custom HTML tags
+/// all share GUMBO_TAG_UNKNOWN and are compared by their name.
+bool TagsAreEqual(const GumboElement& a, const GumboElement& b) noexcept;
+
+
 /// Returns true if HTML tag is a tag for a "void element".
 /// See https://www.w3.org/TR/html5/syntax.html#void-elements
 bool TagIsSelfClosing(GumboTag tag) noexcept;
diff --git a/libhext/src/NthChildMatch.cpp b/libhext/src/NthChildMatch.cpp
index 8ddce91..e85c44f 100644
--- a/libhext/src/NthChildMatch.cpp
+++ b/libhext/src/NthChildMatch.cpp
@@ -14,6 +14,8 @@
 
 #include "hext/NthChildMatch.h"
 
+#include "NodeUtil.h"
+
 #include <cassert>
 #include <cstdint>
 
@@ -106,7 +108,7 @@ int NthChildMatch::count_preceding_siblings(
 
     if( child && child->type == GUMBO_NODE_ELEMENT )
       if( count_tag == HtmlTag::ANY
-          || child->v.element.tag == static_cast<GumboTag>(count_tag) )
+          || TagsAreEqual(child->v.element, node->v.element) )
         ++count;
 
     if( node == child )
@@ -144,7 +146,7 @@ int NthChildMatch::count_following_siblings(
     assert(child != nullptr);
     if( child && child->type == GUMBO_NODE_ELEMENT )
       if( count_tag == HtmlTag::ANY ||
-          child->v.element.tag == static_cast<GumboTag>(count_tag) )
+          TagsAreEqual(child->v.element, node->v.element) )
         ++count;
 
     if( node == child )
diff --git a/libhext/src/OnlyChildMatch.cpp b/libhext/src/OnlyChildMatch.cpp
index 8e4bda7..2cefd6f 100644
--- a/libhext/src/OnlyChildMatch.cpp
+++ b/libhext/src/OnlyChildMatch.cpp
@@ -14,6 +14,8 @@
 
 #include "hext/OnlyChildMatch.h"
 
+#include "NodeUtil.h"
+
 #include <cassert>
 
 
@@ -35,15 +37,13 @@ bool OnlyChildMatch::matches(const GumboNode * node) const noexcept
   if( !parent || parent->type != GUMBO_NODE_ELEMENT )
     return false;
 
-  GumboTag count_tag = node->v.element.tag;
-
   const GumboVector& child_nodes = parent->v.element.children;
   for(unsigned int i = 0; i < child_nodes.length; ++i)
   {
     auto child = static_cast<const GumboNode *>(child_nodes.data[i]);
 
     if( child && child->type == GUMBO_NODE_ELEMENT && node != child )
-      if( !(this->options_ & OfType) || child->v.element.tag == count_tag )
+      if( !(this->options_ & OfType) || TagsAreEqual(child->v.element, node->v.element) )
         return false;
   }
 
-- 
2.43.0


From 0f6c4d2cb4b9c967b519a65049d10cf166a7f7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:41 +0000
Subject: [PATCH 22/37] fix: nodejs binding loses values captured under the
 name __proto__

map.Set() assigns, and assigning to __proto__ replaces the prototype of
the result object. Define own properties instead.
---
 libhext/bindings/nodejs/src/Rule.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libhext/bindings/nodejs/src/Rule.cpp b/libhext/bindings/nodejs/src/Rule.cpp
index de199c7..9a441f1 100644
--- a/libhext/bindings/nodejs/src/Rule.cpp
+++ b/libhext/bindings/nodejs/src/Rule.cpp
@@ -175,14 +175,17 @@ Napi::Value Rule::extract(const Napi::CallbackInfo& info)
   for(const auto& group : result)
   {
     Napi::Object map = Napi::Object::New(env);
+    // Names are defined as own properties, not assigned: assigning to
+    // "__proto__" would replace the prototype of map instead.
     auto it = group.cbegin();
     while( it != group.cend() )
     {
       if( group.count(it->first) < 2 )
       {
-        map.Set(
+        map.DefineProperty(Napi::PropertyDescriptor::Value(
             Napi::String::New(env, it->first),
-            Napi::String::New(env, it->second));
+            Napi::String::New(env, it->second),
+            napi_default_jsproperty));
         ++it;
       }
       else
@@ -195,9 +198,10 @@ Napi::Value Rule::extract(const Napi::CallbackInfo& info)
           array.Set(
               array.Length(),
               Napi::String::New(env, lower->second));
-        map.Set(
+        map.DefineProperty(Napi::PropertyDescriptor::Value(
             Napi::String::New(env, it->first),
-            array);
+            array,
+            napi_default_jsproperty));
         it = upper;
       }
     }
-- 
2.43.0


From bf7660eb388272a3f753466be10ca3eb0c28149b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:31 +0000
Subject: [PATCH 23/37] fix: ruby binding leaks memory on every syntax error
 and exceeded limit

rb_raise() left the catch block by longjmp: neither the C++ exception nor
the std::string argument was destroyed.
---
 libhext/bindings/ruby/rbhext.i | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/libhext/bindings/ruby/rbhext.i b/libhext/bindings/ruby/rbhext.i
index 656c3b8..4a2f418 100644
--- a/libhext/bindings/ruby/rbhext.i
+++ b/libhext/bindings/ruby/rbhext.i
@@ -60,32 +60,48 @@
 }
 
 %include "exception.i"
+// Ruby exceptions are raised after the catch block: raising does not return,
+// and would leak the C++ exception and the wrapper's arguments.
 %exception Rule::Rule {
+  VALUE error = Qnil;
   try
   {
     $action
   }
   catch(const hext::SyntaxError& e)
   {
-    SWIG_exception(SWIG_ValueError, e.what());
+    error = rb_exc_new_cstr(SWIG_Ruby_ErrorType(SWIG_ValueError), e.what());
   }
   catch(const std::exception& e)
   {
-    SWIG_exception(SWIG_RuntimeError, e.what());
+    error = rb_exc_new_cstr(SWIG_Ruby_ErrorType(SWIG_RuntimeError), e.what());
+  }
+
+  if( error != Qnil )
+  {
+    $cleanup
+    rb_exc_raise(error);
   }
 }
 %exception Rule::extract {
+  VALUE error = Qnil;
   try
   {
     $action
   }
   catch(const hext::MaxSearchError& e)
   {
-    SWIG_exception(SWIG_RuntimeError, e.what());
+    error = rb_exc_new_cstr(SWIG_Ruby_ErrorType(SWIG_RuntimeError), e.what());
   }
   catch(const std::exception& e)
   {
-    SWIG_exception(SWIG_RuntimeError, e.what());
+    error = rb_exc_new_cstr(SWIG_Ruby_ErrorType(SWIG_RuntimeError), e.what());
+  }
+
+  if( error != Qnil )
+  {
+    $cleanup
+    rb_exc_raise(error);
   }
 }
 
-- 
2.43.0


From c0f49a09858602dda4717bc85d8dbadff2d74ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:30 +0000
Subject: [PATCH 24/37] fix: php binding corrupts non-string constructor
 arguments

SWIG's typemaps convert the argument in place although it is a copy
without a reference: arrays and objects of the caller are destroyed
while still in use, and strings made from numbers leak.
---
 libhext/bindings/php/phphext.i | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/libhext/bindings/php/phphext.i b/libhext/bindings/php/phphext.i
index e27af85..47351f4 100644
--- a/libhext/bindings/php/phphext.i
+++ b/libhext/bindings/php/phphext.i
@@ -70,6 +70,33 @@
   }
 }
 
+// PHP arguments are shallow copies that don't own their value: converting them
+// in place (SWIG's default) destroys arrays and objects of the caller and leaks
+// strings made from anything else.
+%typemap(in) std::string %{
+  if( zend_string * str = zval_try_get_string(&$input) )
+  {
+    $1.assign(ZSTR_VAL(str), ZSTR_LEN(str));
+    zend_string_release(str);
+  }
+  else
+  {
+    SWIG_fail; // there is a pending exception
+  }
+%}
+%typemap(in) const std::string& ($*1_ltype temp) %{
+  if( zend_string * str = zval_try_get_string(&$input) )
+  {
+    temp.assign(ZSTR_VAL(str), ZSTR_LEN(str));
+    zend_string_release(str);
+    $1 = &temp;
+  }
+  else
+  {
+    SWIG_fail; // there is a pending exception
+  }
+%}
+
 %include "exception.i"
 %exception Rule::Rule {
   try
-- 
2.43.0


From 55d039e55759378da3ae1e864a55a3fc5409cd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:10 +0000
Subject: [PATCH 25/37] fix: php binding crashes on extra arguments and
 uninitialized objects

HextRule::extract() wrote arguments past the end of an array when called
with more than two of them, and dereferenced the null pointers of
HextHtml and HextRule objects whose constructor did not run (subclasses
that don't call parent::__construct(), unserialize(), ...).
---
 libhext/bindings/php/phphext.i | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/libhext/bindings/php/phphext.i b/libhext/bindings/php/phphext.i
index 47351f4..8b0deae 100644
--- a/libhext/bindings/php/phphext.i
+++ b/libhext/bindings/php/phphext.i
@@ -97,6 +97,32 @@
   }
 %}
 
+// The dispatcher that SWIG generates for overloaded methods copies any number
+// of arguments into an array of fixed size, and looks into objects whose
+// constructor never ran. Don't overload, and check every argument here.
+#if SWIG_VERSION >= 0x040100 // classes are implemented in C++
+%feature("compactdefaultargs") Rule::extract;
+%typemap(in) const Html& %{
+  if( Z_TYPE($input) != IS_OBJECT ||
+      !instanceof_function(Z_OBJCE($input), SWIG_Php_ce_HextHtml) ||
+      !SWIG_Z_FETCH_OBJ_P(&$input)->ptr )
+  {
+    zend_type_error("Wrong argument type for <html>, expected HextHtml");
+    return;
+  }
+  $1 = static_cast<$1_ltype>(SWIG_Z_FETCH_OBJ_P(&$input)->ptr);
+%}
+%typemap(in) std::uint64_t %{
+  if( Z_TYPE($input) != IS_LONG || Z_LVAL($input) < 0 )
+  {
+    zend_type_error(
+        "Wrong argument type for <max_searches>, expected unsigned int");
+    return;
+  }
+  $1 = static_cast<$1_ltype>(Z_LVAL($input));
+%}
+#endif
+
 %include "exception.i"
 %exception Rule::Rule {
   try
@@ -113,6 +139,9 @@
   }
 }
 %exception Rule::extract {
+  if( !arg1 )
+    SWIG_exception(SWIG_TypeError, "HextRule is not initialized");
+
   try
   {
     $action
-- 
2.43.0


From e4f6749c33f65903232917df08024b0f19187c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:35 +0000
Subject: [PATCH 26/37] fix: python binding crashes when Rule.extract is called
 on None

hext.Rule.extract(None, html) dereferenced a null pointer.
---
 libhext/bindings/python/pyhext.i | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libhext/bindings/python/pyhext.i b/libhext/bindings/python/pyhext.i
index 5cc5b7c..a6c22b6 100644
--- a/libhext/bindings/python/pyhext.i
+++ b/libhext/bindings/python/pyhext.i
@@ -146,6 +146,10 @@ struct ScopedPyObject
   }
 }
 %exception Rule::extract {
+  // None converts to a null pointer
+  if( !arg1 )
+    SWIG_exception(SWIG_TypeError, "Wrong argument type, expected hext.Rule");
+
   try
   {
     $action
-- 
2.43.0


From 5c93234a9982f78eb3891c4422380e155b10e687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:25 +0000
Subject: [PATCH 27/37] fix: python binding loses syntax error messages that
 end within a character
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The message quotes the template up to the offending byte, so that for
'<a é' a UnicodeDecodeError about the message was raised instead.
---
 libhext/bindings/python/pyhext.i | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libhext/bindings/python/pyhext.i b/libhext/bindings/python/pyhext.i
index a6c22b6..fd2d166 100644
--- a/libhext/bindings/python/pyhext.i
+++ b/libhext/bindings/python/pyhext.i
@@ -138,7 +138,13 @@ struct ScopedPyObject
   }
   catch(const hext::SyntaxError& e)
   {
-    SWIG_exception(SWIG_ValueError, e.what());
+    // The message quotes the template up to the byte that is not understood:
+    // it may end within a multibyte character.
+    ScopedPyObject message(PyUnicode_DecodeUTF8(
+        e.what(), static_cast<Py_ssize_t>(std::strlen(e.what())), "replace"));
+    if( message.obj )
+      PyErr_SetObject(PyExc_ValueError, message.obj);
+    SWIG_fail;
   }
   catch(const std::exception& e)
   {
@@ -183,6 +189,8 @@ struct ScopedPyObject
 
 %ignore Html::root() const;
 %{
+#include <cstring>
+
 #include "wrapper/Html.h"
 #include "wrapper/Rule.h"
 %}
-- 
2.43.0


From 29a4c4fd85a067174d56a7746a958bd936f82215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:07 +0000
Subject: [PATCH 28/37] fix: htmlext.php did not report syntax errors

The binding throws a ValueError, which is an Error and not an Exception
since PHP 8.
---
 libhext/bindings/php/htmlext.php | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libhext/bindings/php/htmlext.php b/libhext/bindings/php/htmlext.php
index f0f6ea1..346a9d7 100644
--- a/libhext/bindings/php/htmlext.php
+++ b/libhext/bindings/php/htmlext.php
@@ -46,7 +46,7 @@ try
 {
   $rule = new HextRule($strhext);
 }
-catch(Exception $e)
+catch(Throwable $e)
 {
   fwrite(STDERR, "$scriptname: In '{$argv[1]}': {$e->getMessage()}\n");
   exit(1);
@@ -59,7 +59,7 @@ try
 {
   $result = $rule->extract($html, /* max_searches: */10000);
 }
-catch(Exception $e)
+catch(Throwable $e)
 {
   fwrite(STDERR, "$scriptname: In '{$argv[1]}': {$e->getMessage()}\n");
   exit(1);
-- 
2.43.0


From a46080f4929f93ea42c58f278237c0da3543bc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:07 +0000
Subject: [PATCH 29/37] fix: htmlext.php printed arrays for results whose names
 are numbers

---
 libhext/bindings/php/htmlext.php | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libhext/bindings/php/htmlext.php b/libhext/bindings/php/htmlext.php
index 346a9d7..551b963 100644
--- a/libhext/bindings/php/htmlext.php
+++ b/libhext/bindings/php/htmlext.php
@@ -66,5 +66,11 @@ catch(Throwable $e)
 }
 
 foreach($result as $map)
+{
+  // json_encode prints an array with the keys 0, 1, 2, ... as a JSON array
+  if( $map === array_values($map) )
+    $map = (object)$map;
+
   echo json_encode($map, JSON_UNESCAPED_SLASHES | JSON_UNESCAPED_UNICODE)."\n";
+}
 
-- 
2.43.0


From 1121dc6ecdf2c0139925b71a426adfdad48ea54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:07 +0000
Subject: [PATCH 30/37] fix: htmlext.php printed an empty line for results that
 are not valid UTF-8

---
 libhext/bindings/php/htmlext.php | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libhext/bindings/php/htmlext.php b/libhext/bindings/php/htmlext.php
index 551b963..3723f2f 100644
--- a/libhext/bindings/php/htmlext.php
+++ b/libhext/bindings/php/htmlext.php
@@ -71,6 +71,7 @@ foreach($result as $map)
   if( $map === array_values($map) )
     $map = (object)$map;
 
-  echo json_encode($map, JSON_UNESCAPED_SLASHES | JSON_UNESCAPED_UNICODE)."\n";
+  echo json_encode($map, JSON_UNESCAPED_SLASHES | JSON_UNESCAPED_UNICODE
+                       | JSON_INVALID_UTF8_SUBSTITUTE)."\n";
 }
 
-- 
2.43.0


From dd409259a83e52145b502bfbf84f88cf85fd9a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:07 +0000
Subject: [PATCH 31/37] fix: htmlext.php required a file that newer versions of
 SWIG do not generate

---
 libhext/bindings/php/htmlext.php | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libhext/bindings/php/htmlext.php b/libhext/bindings/php/htmlext.php
index 3723f2f..04372b1 100644
--- a/libhext/bindings/php/htmlext.php
+++ b/libhext/bindings/php/htmlext.php
@@ -14,7 +14,9 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
-require "hext.php";
+// SWIG before version 4.1 defines the classes in hext.php
+if( !class_exists("HextRule") )
+  require "hext.php";
 
 
 $scriptname = basename($argv[0]);
-- 
2.43.0


From 3331fccf50e60ccd1f6b97afc926afe1127ed314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:07 +0000
Subject: [PATCH 32/37] fix: htmlext.py replaced carriage returns in templates

---
 libhext/bindings/python/htmlext.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libhext/bindings/python/htmlext.py b/libhext/bindings/python/htmlext.py
index 42497f1..ece9eab 100644
--- a/libhext/bindings/python/htmlext.py
+++ b/libhext/bindings/python/htmlext.py
@@ -14,6 +14,7 @@
 
 from __future__ import print_function
 import hext
+import io
 import json
 import sys
 import os
@@ -30,8 +31,9 @@ if len(sys.argv) < 3:
     sys.exit(1)
 
 
-strhext = open(sys.argv[1]).read()
-strhtml = open(sys.argv[2]).read()
+# newline='': do not replace carriage returns
+strhext = io.open(sys.argv[1], newline='').read()
+strhtml = io.open(sys.argv[2], newline='').read()
 
 try:
     rule = hext.Rule(strhext)
-- 
2.43.0


From 319617a0ad02a6b1bddd3296dec10793d8dce94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:49 +0000
Subject: [PATCH 33/37] fix: htmlext.rb failed with an encoding error if a
 syntax error shows part of a character

---
 libhext/bindings/ruby/htmlext.rb | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libhext/bindings/ruby/htmlext.rb b/libhext/bindings/ruby/htmlext.rb
index 8226b32..897ffa2 100644
--- a/libhext/bindings/ruby/htmlext.rb
+++ b/libhext/bindings/ruby/htmlext.rb
@@ -33,7 +33,7 @@ rule = nil
 begin
   rule = Hext::Rule.new(strhext)
 rescue ArgumentError => e
-  abort "%s: In '%s': %s" % [scriptname, ARGV[0], e.message]
+  abort "%s: In '%s': %s" % [scriptname, ARGV[0], e.message].map(&:b)
 end
 
 html = Hext::Html.new(strhtml)
@@ -41,7 +41,7 @@ html = Hext::Html.new(strhtml)
 begin
   result = rule.extract(html)
 rescue RuntimeError => e
-  abort "%s: In '%s': %s" % [scriptname, ARGV[0], e.message]
+  abort "%s: In '%s': %s" % [scriptname, ARGV[0], e.message].map(&:b)
 end
 
 result.each do |map|
-- 
2.43.0


From 5febc185a36dbec8fb3733f766a4b0a7b9ad82d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:31 +0000
Subject: [PATCH 34/37] fix: NodeInnerHtml: report std::bad_alloc instead of
 returning a part of the markup

Formatted output functions of streams, and std::quoted in particular, turn
exceptions into stream state. Let the stream rethrow them and write quoted
attribute values without std::quoted.
---
 libhext/src/NodeUtil.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/libhext/src/NodeUtil.cpp b/libhext/src/NodeUtil.cpp
index f434e5e..70a9e0a 100644
--- a/libhext/src/NodeUtil.cpp
+++ b/libhext/src/NodeUtil.cpp
@@ -16,7 +16,6 @@
 
 #include <cassert>
 #include <cstddef>
-#include <iomanip>
 #include <iterator>
 #include <string_view>
 
@@ -74,6 +73,7 @@ std::string NodeInnerHtml(const GumboNode * node)
     return "";
 
   std::ostringstream os;
+  os.exceptions(std::ios_base::badbit); // do not hide bad_alloc
   const GumboVector& children = node->v.element.children;
   for(unsigned int i = 0; i < children.length; ++i)
   {
@@ -162,7 +162,17 @@ void SerializeAttribute(const GumboAttribute& a, std::ostringstream& os)
     }
     os << a.name;
     if( a.value )
-      os << '=' << std::quoted(a.value);
+    {
+      // std::quoted hides bad_alloc
+      os << "=\"";
+      for(const char * c = a.value; *c; ++c)
+      {
+        if( *c == '"' || *c == '\\' )
+          os << '\\';
+        os << *c;
+      }
+      os << '"';
+    }
   }
 }
 
-- 
2.43.0


From 0340a2722fc1a76a5ca1a425cc695235f84d5491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:31 +0000
Subject: [PATCH 35/37] fix: constructors of SyntaxError and MaxSearchError
 allocate, so are not noexcept

Running out of memory while an error was raised terminated the process.
---
 libhext/include/hext/MaxSearchError.h | 4 ++--
 libhext/include/hext/SyntaxError.h    | 2 +-
 libhext/src/SyntaxError.cpp           | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/libhext/include/hext/MaxSearchError.h b/libhext/include/hext/MaxSearchError.h
index 37aedc0..8435ad1 100644
--- a/libhext/include/hext/MaxSearchError.h
+++ b/libhext/include/hext/MaxSearchError.h
@@ -32,8 +32,8 @@ namespace hext {
 class HEXT_PUBLIC MaxSearchError : public std::runtime_error
 {
 public:
-  explicit MaxSearchError(const std::string& msg) noexcept
-  : std::runtime_error(msg)  // noexcept
+  explicit MaxSearchError(const std::string& msg)
+  : std::runtime_error(msg)  // not noexcept
   {}
 };
 
diff --git a/libhext/include/hext/SyntaxError.h b/libhext/include/hext/SyntaxError.h
index 06dd5ac..cea20fa 100644
--- a/libhext/include/hext/SyntaxError.h
+++ b/libhext/include/hext/SyntaxError.h
@@ -32,7 +32,7 @@ namespace hext {
 class HEXT_PUBLIC SyntaxError : public std::runtime_error
 {
 public:
-  explicit SyntaxError(const std::string& msg) noexcept;
+  explicit SyntaxError(const std::string& msg);
 };
 
 
diff --git a/libhext/src/SyntaxError.cpp b/libhext/src/SyntaxError.cpp
index 1591ddf..827cbed 100644
--- a/libhext/src/SyntaxError.cpp
+++ b/libhext/src/SyntaxError.cpp
@@ -18,8 +18,8 @@
 namespace hext {
 
 
-SyntaxError::SyntaxError(const std::string& msg) noexcept
-: std::runtime_error(msg)  // noexcept
+SyntaxError::SyntaxError(const std::string& msg)
+: std::runtime_error(msg)  // not noexcept
 {
 }
 
-- 
2.43.0


From 7f5c1a20cdb80460628d32c34141b8db91e9bac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:31 +0000
Subject: [PATCH 36/37] fix: Rule(std::string) is noexcept: move the tag name
 instead of copying it

---
 libhext/src/Rule.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libhext/src/Rule.cpp b/libhext/src/Rule.cpp
index ecfe180..94fbcdc 100644
--- a/libhext/src/Rule.cpp
+++ b/libhext/src/Rule.cpp
@@ -48,7 +48,7 @@ Rule::Rule(std::string tag,
 , is_optional_(optional)
 , is_greedy_(greedy)
 , tagname_(this->tag_ == HtmlTag::UNKNOWN
-           ? std::optional<std::string>(tag)
+           ? std::optional<std::string>(std::move(tag))
            : std::nullopt)
 {
 }
-- 
2.43.0


From 3bb9d30e4e32166ae113e84f7b026202de8caa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:31 +0000
Subject: [PATCH 37/37] fix: error messages do not depend on the global locale

With a locale that groups digits, line numbers were printed as 1,234 and
the mark below the error was misplaced.
---
 libhext/ragel/Parser.cpp.rl | 6 ++++++
 libhext/src/Parser.cpp      | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/libhext/ragel/Parser.cpp.rl b/libhext/ragel/Parser.cpp.rl
index ee80e8e..578e38b 100644
--- a/libhext/ragel/Parser.cpp.rl
+++ b/libhext/ragel/Parser.cpp.rl
@@ -46,6 +46,7 @@
 #include "PatternValues.h"
 #include "StringUtil.h"
 
+#include <locale>
 #include <vector>
 #include <sstream>
 #include <stdexcept>
@@ -356,6 +357,7 @@ void Parser::throw_unexpected() const
   assert(this->p <= this->pe && this->p >= this->p_begin_);
 
   std::stringstream error_msg;
+  error_msg.imbue(std::locale::classic());
   if( this->p == this->pe || !this->p )
     error_msg << "Premature termination ";
   else
@@ -375,6 +377,7 @@ void Parser::throw_regex_error(
 ) const
 {
   std::stringstream error_msg;
+  error_msg.imbue(std::locale::classic());
   error_msg << "In regular expression ";
 
   auto unexpected_char = this->p - 1;
@@ -396,6 +399,7 @@ void Parser::throw_missing_tag(
 ) const
 {
   std::stringstream error_msg;
+  error_msg.imbue(std::locale::classic());
   error_msg << "Missing closing tag '</";
 
   if( missing_tagname )
@@ -419,6 +423,7 @@ void Parser::throw_unexpected_tag(
 ) const
 {
   std::stringstream error_msg;
+  error_msg.imbue(std::locale::classic());
   error_msg << "Unexpected closing tag '</"
             << tag
             << ">'";
@@ -450,6 +455,7 @@ void Parser::throw_unexpected_tag(
 void Parser::throw_error_message(const std::string& msg) const
 {
   std::stringstream error_msg;
+  error_msg.imbue(std::locale::classic());
   error_msg << msg << " ";
   std::size_t mark_len = 1;
   auto unexpected_char = this->p - 1;
diff --git a/libhext/src/Parser.cpp b/libhext/src/Parser.cpp
index 43a3ab1..fb46e96 100644
--- a/libhext/src/Parser.cpp
+++ b/libhext/src/Parser.cpp
@@ -49,6 +49,7 @@
 #include "PatternValues.h"
 #include "StringUtil.h"
 
+#include <locale>
 #include <vector>
 #include <sstream>
 #include <stdexcept>
@@ -2543,6 +2544,7 @@ void Parser::throw_unexpected() const
   assert(this->p <= this->pe && this->p >= this->p_begin_);
 
   std::stringstream error_msg;
+  error_msg.imbue(std::locale::classic());
   if( this->p == this->pe || !this->p )
     error_msg << "Premature termination ";
   else
@@ -2562,6 +2564,7 @@ void Parser::throw_regex_error(
 ) const
 {
   std::stringstream error_msg;
+  error_msg.imbue(std::locale::classic());
   error_msg << "In regular expression ";
 
   auto unexpected_char = this->p - 1;
@@ -2583,6 +2586,7 @@ void Parser::throw_missing_tag(
 ) const
 {
   std::stringstream error_msg;
+  error_msg.imbue(std::locale::classic());
   error_msg << "Missing closing tag '</";
 
   if( missing_tagname )
@@ -2606,6 +2610,7 @@ void Parser::throw_unexpected_tag(
 ) const
 {
   std::stringstream error_msg;
+  error_msg.imbue(std::locale::classic());
   error_msg << "Unexpected closing tag '</"
             << tag
             << ">'";
@@ -2637,6 +2642,7 @@ void Parser::throw_unexpected_tag(
 void Parser::throw_error_message(const std::string& msg) const
 {
   std::stringstream error_msg;
+  error_msg.imbue(std::locale::classic());
   error_msg << msg << " ";
   std::size_t mark_len = 1;
   auto unexpected_char = this->p - 1;
-- 
2.43.0

