From 86e5da916220f813908004ca40a8a6c717387d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 01/38] fix: a MACRO whose regex is rejected must not stay
 defined

---
 include/lexertl/rules.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index b0a5749..75d286c 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -251,12 +251,11 @@ namespace lexertl
 
             if (iter_ == _macro_map.end())
             {
-                auto pair_ =
-                    _macro_map.insert(macro_pair(name_, token_vector()));
                 auto tokens_vec_ = tokenise(regex_, npos(), name_);
 
                 // There can only be one token_vector for a macro
-                pair_.first->second = std::move(tokens_vec_.back());
+                _macro_map.insert(macro_pair(name_,
+                    std::move(tokens_vec_.back())));
             }
             else
             {
-- 
2.43.0


From 3b99a093c4d9f8d98410ef7910ea916de585d8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 02/38] fix: look for ^ in the first alternative when a rule is
 split

---
 include/lexertl/rules.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index 75d286c..aa6cb2c 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -1201,7 +1201,7 @@ namespace lexertl
 
                 narrow(regex_.c_str(), ss_);
 
-                if (tokens_vec_.back()[1]._type == detail::token_type::BOL)
+                if (tokens_vec_.front()[1]._type == detail::token_type::BOL)
                 {
                     _features[curr_] |= *feature_bit::bol;
                 }
-- 
2.43.0


From f8d71cf0be3774c5e21850145f6c2298ce7f3bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 03/38] fix: minimising a char state machine must keep ids and
 pushes/pops

---
 include/lexertl/state_machine.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/lexertl/state_machine.hpp b/include/lexertl/state_machine.hpp
index 1c1ffa5..c8d0db5 100644
--- a/include/lexertl/state_machine.hpp
+++ b/include/lexertl/state_machine.hpp
@@ -473,8 +473,10 @@ namespace lexertl
                     }
 
                     new_ptr_->_end_state = ptr_->_end_state;
-                    new_ptr_->_id = ptr_->_end_state;
+                    new_ptr_->_push_pop_dfa = ptr_->_push_pop_dfa;
+                    new_ptr_->_id = ptr_->_id;
                     new_ptr_->_user_id = ptr_->_user_id;
+                    new_ptr_->_push_dfa = ptr_->_push_dfa;
                     new_ptr_->_next_dfa = ptr_->_next_dfa;
 
                     if (ptr_->_eol_index != npos())
-- 
2.43.0


From bb64b45b7ab634b431d8dc38e0f6063704683eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 04/38] fix: slice 24 bit ranges that span more than two planes

---
 include/lexertl/parser/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexertl/parser/parser.hpp b/include/lexertl/parser/parser.hpp
index 127f0e9..ded1a8e 100644
--- a/include/lexertl/parser/parser.hpp
+++ b/include/lexertl/parser/parser.hpp
@@ -558,7 +558,7 @@ namespace lexertl::detail
 
                 if (second_msb_ > first_msb_ + 1)
                 {
-                    insert_range(first_mid_ + 1, second_mid_ - 1,
+                    insert_range(first_msb_ + 1, second_msb_ - 1,
                         0, 0xff,
                         0, 0xff, data_);
                 }
-- 
2.43.0


From ff6628bcdac2c001984d3b459f9512a841406b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:28 +0000
Subject: [PATCH 05/38] fix: [:print:] for wide characters excludes control
 characters

---
 include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
index c6b9b77..f496586 100644
--- a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
+++ b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
@@ -853,7 +853,7 @@ namespace lexertl::detail
                 {
                     // print
                     str_ = sizeof(input_char_type) == 1 ?
-                        "[\x20-\x7e]" : R"([\p{C}])";
+                        "[\x20-\x7e]" : R"([^\p{C}])";
                 }
                 else
                 {
-- 
2.43.0


From 54a0651f21a8dba0ec49fd271698da1ca7c32120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:28 +0000
Subject: [PATCH 06/38] fix: fold a partial match of a case pair that is stored
 in reverse

---
 .../parser/tokeniser/re_tokeniser_helper.hpp    | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
index f496586..df6567c 100644
--- a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
+++ b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
@@ -267,14 +267,15 @@ namespace lexertl::detail
                     }
                     else
                     {
-                        const index_type first_ = ptr_->to.second +
+                        const index_type second_ = ptr_->to.first -
                             (range_.first - ptr_->from.first);
 
-                        out_.insert(range(first_,
-                            range_.second > ptr_->from.second ?
-                            ptr_->to.first :
-                            static_cast<index_type>(ptr_->to.second +
-                                (range_.second - ptr_->from.first))));
+                        out_.insert(range(range_.second >
+                            ptr_->from.second ?
+                            ptr_->to.second :
+                            static_cast<index_type>(ptr_->to.first -
+                                (range_.second - ptr_->from.first)),
+                            second_));
                     }
                 }
                 else if (range_.second >= ptr_->from.first &&
@@ -289,10 +290,10 @@ namespace lexertl::detail
                     }
                     else
                     {
-                        const index_type second_ = ptr_->to.second +
+                        const index_type first_ = ptr_->to.first -
                             (range_.second - ptr_->from.first);
 
-                        out_.insert(range(ptr_->to.second, second_));
+                        out_.insert(range(first_, ptr_->to.first));
                     }
                 }
                 // Either range fully encompasses from range or not at all.
-- 
2.43.0


From a7cc391d40aa5588b7cecf48f6640a2590671558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:28 +0000
Subject: [PATCH 07/38] fix: match_results::subview() must compile for string
 iterators

---
 include/lexertl/match_results.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexertl/match_results.hpp b/include/lexertl/match_results.hpp
index 50e519a..d67c51a 100644
--- a/include/lexertl/match_results.hpp
+++ b/include/lexertl/match_results.hpp
@@ -74,7 +74,8 @@ namespace lexertl
         string_view subview(const std::size_t soffset_,
             const std::size_t eoffset_) const
         {
-            return string_view(first + soffset_,
+            // &* in case we are using string iterators
+            return string_view(&*first + soffset_,
                 length() - soffset_ - eoffset_);
         }
 
-- 
2.43.0


From 19ab6c1f712ed99694732bf5cee15f678359c0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:23 +0000
Subject: [PATCH 08/38] fix: expand First/Last ranges of UnicodeData.txt in
 \p{Co}, \p{Cs} and \p{Lo}

---
 gen_unicode_hpp/main.cpp                     | 14 ++++++-
 include/lexertl/parser/tokeniser/unicode.hpp | 40 ++++++++++----------
 2 files changed, 32 insertions(+), 22 deletions(-)

diff --git a/gen_unicode_hpp/main.cpp b/gen_unicode_hpp/main.cpp
index e35bfaa..b28de82 100644
--- a/gen_unicode_hpp/main.cpp
+++ b/gen_unicode_hpp/main.cpp
@@ -16,9 +16,11 @@ void lex_unicode_data(lexertl::memory_file& mf_, std::ostream& os_,
 	const char* start_ = mf_.data();
 	const char* end_ = start_ + mf_.size();
 	lexertl::cmatch results_(start_, end_);
-	enum { eNumber = 1, eName };
+	enum { eNumber = 1, eLast, eName };
 
 	std::size_t num_ = 0;
+	std::size_t first_ = 0;
+	bool last_ = false;
 	using string_token = lexertl::basic_string_token<std::size_t>;
 	using map = std::map<std::string, string_token>;
 	map map_;
@@ -28,6 +30,8 @@ void lex_unicode_data(lexertl::memory_file& mf_, std::ostream& os_,
 	rules_.push_state("FINISH");
 
 	rules_.push("INITIAL", "^[A-F0-9]+", eNumber, "LONG_NAME");
+	// The previous line is the first code point of the range
+	rules_.push("LONG_NAME", ";<[^;]+, Last>;", eLast, "SHORT_NAME");
 	rules_.push("LONG_NAME", ";[^;]+;", lexertl::rules::skip(), "SHORT_NAME");
 	rules_.push("SHORT_NAME", "[A-Z][a-z]?", eName, "FINISH");
 	rules_.push("FINISH", ".*\n", lexertl::rules::skip(), "INITIAL");
@@ -42,14 +46,20 @@ void lex_unicode_data(lexertl::memory_file& mf_, std::ostream& os_,
 			std::stringstream ss_;
 
 			ss_ << results_.str();
+			first_ = num_;
 			ss_ >> std::hex >> num_;
+			last_ = false;
+		}
+		else if (results_.id == eLast)
+		{
+			last_ = true;
 		}
 		else if (results_.id == eName)
 		{
 			const std::string name_ = results_.str();
 
 			map_[name_].insert(lexertl::basic_string_token<std::size_t>::range
-			(num_, num_));
+			(last_ ? first_ : num_, num_));
 		}
 	} while (results_.id != 0);
 
diff --git a/include/lexertl/parser/tokeniser/unicode.hpp b/include/lexertl/parser/tokeniser/unicode.hpp
index 00e1d41..853def4 100644
--- a/include/lexertl/parser/tokeniser/unicode.hpp
+++ b/include/lexertl/parser/tokeniser/unicode.hpp
@@ -54,12 +54,12 @@
 
     static const char* Co()
     {
-        return "[\\xe000\\xf8ff\\xf0000\\xffffd\\x100000\\x10fffd]";
+        return "[\\xe000-\\xf8ff\\xf0000-\\xffffd\\x100000-\\x10fffd]";
     }
 
     static const char* Cs()
     {
-        return "[\\xd800\\xdb7f\\xdb80\\xdbff\\xdc00\\xdfff]";
+        return "[\\xd800-\\xdfff]";
     }
 
     static const char* Ll()
@@ -217,8 +217,8 @@
             "\\x2da8-\\x2dae\\x2db0-\\x2db6\\x2db8-\\x2dbe\\x2dc0-\\x2dc6"
             "\\x2dc8-\\x2dce\\x2dd0-\\x2dd6\\x2dd8-\\x2dde\\x3006\\x303c"
             "\\x3041-\\x3096\\x309f\\x30a1-\\x30fa\\x30ff\\x3105-\\x312f"
-            "\\x3131-\\x318e\\x31a0-\\x31bf\\x31f0-\\x31ff\\x3400\\x4dbf\\x4e00"
-            "\\x9fff-\\xa014\\xa016-\\xa48c\\xa4d0-\\xa4f7\\xa500-\\xa60b"
+            "\\x3131-\\x318e\\x31a0-\\x31bf\\x31f0-\\x31ff\\x3400-\\x4dbf"
+            "\\x4e00-\\xa014\\xa016-\\xa48c\\xa4d0-\\xa4f7\\xa500-\\xa60b"
             "\\xa610-\\xa61f\\xa62a\\xa62b\\xa66e\\xa6a0-\\xa6e5\\xa78f\\xa7f7"
             "\\xa7fb-\\xa801\\xa803-\\xa805\\xa807-\\xa80a\\xa80c-\\xa822"
             "\\xa840-\\xa873\\xa882-\\xa8b3\\xa8f2-\\xa8f7\\xa8fb\\xa8fd\\xa8fe"
@@ -228,7 +228,7 @@
             "\\xaa7a\\xaa7e-\\xaaaf\\xaab1\\xaab5\\xaab6\\xaab9-\\xaabd\\xaac0"
             "\\xaac2\\xaadb\\xaadc\\xaae0-\\xaaea\\xaaf2\\xab01-\\xab06"
             "\\xab09-\\xab0e\\xab11-\\xab16\\xab20-\\xab26\\xab28-\\xab2e"
-            "\\xabc0-\\xabe2\\xac00\\xd7a3\\xd7b0-\\xd7c6\\xd7cb-\\xd7fb"
+            "\\xabc0-\\xabe2\\xac00-\\xd7a3\\xd7b0-\\xd7c6\\xd7cb-\\xd7fb"
             "\\xf900-\\xfa6d\\xfa70-\\xfad9\\xfb1d\\xfb1f-\\xfb28"
             "\\xfb2a-\\xfb36\\xfb38-\\xfb3c\\xfb3e\\xfb40\\xfb41\\xfb43\\xfb44"
             "\\xfb46-\\xfbb1\\xfbd3-\\xfd3d\\xfd50-\\xfd8f\\xfd92-\\xfdc7"
@@ -281,26 +281,26 @@
             "\\x14400-\\x14646\\x16100-\\x1611d\\x16800-\\x16a38"
             "\\x16a40-\\x16a5e\\x16a70-\\x16abe\\x16ad0-\\x16aed"
             "\\x16b00-\\x16b2f\\x16b63-\\x16b77\\x16b7d-\\x16b8f"
-            "\\x16d43-\\x16d6a\\x16f00-\\x16f4a\\x16f50\\x17000"
-            "\\x187ff-\\x18cd5\\x18cff\\x18d00\\x18d1e\\x18d80-\\x18df2"
-            "\\x1b000-\\x1b122\\x1b132\\x1b150-\\x1b152\\x1b155"
-            "\\x1b164-\\x1b167\\x1b170-\\x1b2fb\\x1bc00-\\x1bc6a"
-            "\\x1bc70-\\x1bc7c\\x1bc80-\\x1bc88\\x1bc90-\\x1bc99\\x1df0a"
-            "\\x1e100-\\x1e12c\\x1e14e\\x1e290-\\x1e2ad\\x1e2c0-\\x1e2eb"
-            "\\x1e4d0-\\x1e4ea\\x1e5d0-\\x1e5ed\\x1e5f0\\x1e6c0-\\x1e6de"
-            "\\x1e6e0-\\x1e6e2\\x1e6e4\\x1e6e5\\x1e6e7-\\x1e6ed"
-            "\\x1e6f0-\\x1e6f4\\x1e6fe\\x1e7e0-\\x1e7e6\\x1e7e8-\\x1e7eb"
-            "\\x1e7ed\\x1e7ee\\x1e7f0-\\x1e7fe\\x1e800-\\x1e8c4"
-            "\\x1ee00-\\x1ee03\\x1ee05-\\x1ee1f\\x1ee21\\x1ee22\\x1ee24\\x1ee27"
+            "\\x16d43-\\x16d6a\\x16f00-\\x16f4a\\x16f50\\x17000-\\x18cd5"
+            "\\x18cff-\\x18d1e\\x18d80-\\x18df2\\x1b000-\\x1b122\\x1b132"
+            "\\x1b150-\\x1b152\\x1b155\\x1b164-\\x1b167\\x1b170-\\x1b2fb"
+            "\\x1bc00-\\x1bc6a\\x1bc70-\\x1bc7c\\x1bc80-\\x1bc88"
+            "\\x1bc90-\\x1bc99\\x1df0a\\x1e100-\\x1e12c\\x1e14e"
+            "\\x1e290-\\x1e2ad\\x1e2c0-\\x1e2eb\\x1e4d0-\\x1e4ea"
+            "\\x1e5d0-\\x1e5ed\\x1e5f0\\x1e6c0-\\x1e6de\\x1e6e0-\\x1e6e2"
+            "\\x1e6e4\\x1e6e5\\x1e6e7-\\x1e6ed\\x1e6f0-\\x1e6f4\\x1e6fe"
+            "\\x1e7e0-\\x1e7e6\\x1e7e8-\\x1e7eb\\x1e7ed\\x1e7ee"
+            "\\x1e7f0-\\x1e7fe\\x1e800-\\x1e8c4\\x1ee00-\\x1ee03"
+            "\\x1ee05-\\x1ee1f\\x1ee21\\x1ee22\\x1ee24\\x1ee27"
             "\\x1ee29-\\x1ee32\\x1ee34-\\x1ee37\\x1ee39\\x1ee3b\\x1ee42\\x1ee47"
             "\\x1ee49\\x1ee4b\\x1ee4d-\\x1ee4f\\x1ee51\\x1ee52\\x1ee54\\x1ee57"
             "\\x1ee59\\x1ee5b\\x1ee5d\\x1ee5f\\x1ee61\\x1ee62\\x1ee64"
             "\\x1ee67-\\x1ee6a\\x1ee6c-\\x1ee72\\x1ee74-\\x1ee77"
             "\\x1ee79-\\x1ee7c\\x1ee7e\\x1ee80-\\x1ee89\\x1ee8b-\\x1ee9b"
-            "\\x1eea1-\\x1eea3\\x1eea5-\\x1eea9\\x1eeab-\\x1eebb\\x20000"
-            "\\x2a6df\\x2a700\\x2b73f\\x2b740\\x2b81d\\x2b820\\x2cead\\x2ceb0"
-            "\\x2ebe0\\x2ebf0\\x2ee5d\\x2f800-\\x2fa1d\\x30000\\x3134a\\x31350"
-            "\\x323af\\x323b0\\x33479]";
+            "\\x1eea1-\\x1eea3\\x1eea5-\\x1eea9\\x1eeab-\\x1eebb"
+            "\\x20000-\\x2a6df\\x2a700-\\x2b81d\\x2b820-\\x2cead"
+            "\\x2ceb0-\\x2ebe0\\x2ebf0-\\x2ee5d\\x2f800-\\x2fa1d"
+            "\\x30000-\\x3134a\\x31350-\\x33479]";
     }
 
     static const char* Lt()
-- 
2.43.0


From 00e877a476d71079ae42168c10e7c4567c67c7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:25 +0000
Subject: [PATCH 09/38] fix: debug::dump() of rules did not compile as tokens
 could not be compared

---
 include/lexertl/parser/tokeniser/re_token.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/lexertl/parser/tokeniser/re_token.hpp b/include/lexertl/parser/tokeniser/re_token.hpp
index 53a208b..f14b4dd 100644
--- a/include/lexertl/parser/tokeniser/re_token.hpp
+++ b/include/lexertl/parser/tokeniser/re_token.hpp
@@ -54,6 +54,14 @@ namespace lexertl::detail
             _str.swap(rhs_._str);
         }
 
+        friend bool operator ==(const basic_re_token& lhs_,
+            const basic_re_token& rhs_)
+        {
+            return lhs_._type == rhs_._type &&
+                lhs_._extra == rhs_._extra &&
+                lhs_._str == rhs_._str;
+        }
+
         char precedence(const token_type type_) const
         {
             // Moved in here for Solaris compiler.
-- 
2.43.0


From 272efaa632d3455ce1ed951316dd0696e4b69de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:25 +0000
Subject: [PATCH 10/38] fix: debug: escape the end of a range, not its start

---
 include/lexertl/debug.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexertl/debug.hpp b/include/lexertl/debug.hpp
index 7872e95..a6a3f8f 100644
--- a/include/lexertl/debug.hpp
+++ b/include/lexertl/debug.hpp
@@ -510,7 +510,7 @@ namespace lexertl
                         range_.second == static_cast<char_type>('^') ||
                         range_.second == static_cast<char_type>(']'))
                     {
-                        stream_ << static_cast<char_type>('\\');
+                        chars_ += static_cast<char_type>('\\');
                     }
 
                     chars_ += string_token::escape_char(range_.second);
-- 
2.43.0


From ca994da5a9d4132ea8898844d48a9121fd168c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:25 +0000
Subject: [PATCH 11/38] fix: dot: escape the end of a range and do not truncate
 wide characters

---
 include/lexertl/dot.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/lexertl/dot.hpp b/include/lexertl/dot.hpp
index 4e54763..e889731 100644
--- a/include/lexertl/dot.hpp
+++ b/include/lexertl/dot.hpp
@@ -80,7 +80,8 @@ namespace lexertl
         // Escape control characters twice. This is necessary when
         // expressing character sets attached as to DOT nodes as
         // labels.
-        static string double_escape_char(const id_type ch_)
+        static string double_escape_char
+            (const typename string_token::index_type ch_)
         {
             stringstream out_;
 
@@ -268,7 +269,7 @@ namespace lexertl
                     if (range.second == '^' ||
                         range.second == ']')
                     {
-                        stream_ << R"(\\)";
+                        chars_ += R"(\\)";
                     }
 
                     chars_ += double_escape_char(range.second);
-- 
2.43.0


From def12a48c96083def1bf000aff16de7a9a738cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:48 +0000
Subject: [PATCH 12/38] fix: memory_file must unmap and close everything that
 it opened

---
 include/lexertl/memory_file.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/lexertl/memory_file.hpp b/include/lexertl/memory_file.hpp
index d1c7768..ba2be1a 100644
--- a/include/lexertl/memory_file.hpp
+++ b/include/lexertl/memory_file.hpp
@@ -46,10 +46,8 @@ namespace lexertl
 
         void open(const char* pathname_)
         {
-            if (_data)
-            {
-                close();
-            }
+            // There can be an open file even when there is no mapping
+            close();
 
 #ifdef _WIN32
             _fh = ::CreateFileA(pathname_, GENERIC_READ, FILE_SHARE_READ,
@@ -94,6 +92,7 @@ namespace lexertl
                     else
                     {
                         _size = sbuf_.st_size / sizeof(char_type);
+                        _length = sbuf_.st_size;
                     }
                 }
             }
@@ -117,7 +116,8 @@ namespace lexertl
 #ifdef _WIN32
                 ::UnmapViewOfFile(_data);
 #else
-                ::munmap(const_cast<char_type*>(_data), _size);
+                ::munmap(const_cast<char_type*>(_data), _length);
+                _length = 0;
 #endif
                 _data = nullptr;
                 _size = 0;
@@ -134,10 +134,10 @@ namespace lexertl
 
             _fh = nullptr;
 #else
-            if (_fh)
+            if (_fh > -1)
                 ::close(_fh);
 
-            _fh = 0;
+            _fh = -1;
 #endif
         }
 
@@ -148,7 +148,9 @@ namespace lexertl
         HANDLE _fh = nullptr;
         HANDLE _fmh = nullptr;
 #else
-        int _fh = 0;
+        int _fh = -1;
+        // In bytes
+        std::size_t _length = 0;
 #endif
     };
 
-- 
2.43.0


From d4d181324744ff02b919c862210a35ec5b044ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:48 +0000
Subject: [PATCH 13/38] fix: stream_shared_iterator.hpp did not include what it
 uses

---
 include/lexertl/stream_shared_iterator.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/lexertl/stream_shared_iterator.hpp b/include/lexertl/stream_shared_iterator.hpp
index b91e5d5..5e7dda4 100644
--- a/include/lexertl/stream_shared_iterator.hpp
+++ b/include/lexertl/stream_shared_iterator.hpp
@@ -9,6 +9,9 @@
 
 #include "runtime_error.hpp"
 
+#include <algorithm>
+#include <cstddef>
+#include <cstring>
 #include <istream>
 #include <iterator>
 #include <vector>
-- 
2.43.0


From 1e7dee297d336c5820e0bc767a5f8566b5e85767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:46 +0000
Subject: [PATCH 14/38] fix: the kept part of the stream buffer can overlap its
 new position

---
 include/lexertl/stream_shared_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lexertl/stream_shared_iterator.hpp b/include/lexertl/stream_shared_iterator.hpp
index 5e7dda4..859c32d 100644
--- a/include/lexertl/stream_shared_iterator.hpp
+++ b/include/lexertl/stream_shared_iterator.hpp
@@ -202,12 +202,12 @@ namespace lexertl
                 }
                 else
                 {
-                    // Some systems have memcpy in namespace std
+                    // Some systems have memmove in namespace std
                     using namespace std;
                     const size_t start_ = _buffer.size() - lowest_;
                     const size_t len_ = _buffer.size() - start_;
 
-                    memcpy(&_buffer.front(), &_buffer[lowest_], start_ *
+                    memmove(&_buffer.front(), &_buffer[lowest_], start_ *
                         sizeof(char_type));
                     _stream.read(&_buffer.front() + start_, len_);
                     read_ = static_cast<size_t>(_stream.gcount());
-- 
2.43.0


From f1d992da61aee013932a04c92358434b6906db9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:46 +0000
Subject: [PATCH 15/38] fix: stream_shared_iterator assignment must keep its
 owners and clients in step

---
 include/lexertl/stream_shared_iterator.hpp | 66 +++++++++++-----------
 1 file changed, 34 insertions(+), 32 deletions(-)

diff --git a/include/lexertl/stream_shared_iterator.hpp b/include/lexertl/stream_shared_iterator.hpp
index 859c32d..b174b3e 100644
--- a/include/lexertl/stream_shared_iterator.hpp
+++ b/include/lexertl/stream_shared_iterator.hpp
@@ -60,17 +60,7 @@ namespace lexertl
 
         ~basic_stream_shared_iterator()
         {
-            if (_shared)
-            {
-                --_shared->_ref_count;
-                _shared->erase(this);
-
-                if (_shared->_ref_count == 0)
-                {
-                    delete _shared;
-                    _shared = nullptr;
-                }
-            }
+            release();
         }
 
         basic_stream_shared_iterator& operator =
@@ -78,37 +68,33 @@ namespace lexertl
         {
             if (this != &rhs_)
             {
-                _master = false;
-                _index = rhs_._master ? rhs_._shared->lowest() : rhs_._index;
+                const std::size_t index_ =
+                    rhs_._master ? rhs_._shared->lowest() : rhs_._index;
+                // As with copy construction, a copy of a master is live
+                const bool live_ = rhs_._live || rhs_._master;
 
-                if (!_live && !rhs_._live)
-                {
-                    if (rhs_._shared)
-                    {
-                        ++rhs_._shared->_ref_count;
-                    }
-                }
-                else if (!_live && rhs_._live)
+                if (_shared != rhs_._shared || _live != live_)
                 {
-                    rhs_._shared->_clients.push_back(this);
+                    shared* shared_ = rhs_._shared;
 
-                    if (!_shared)
+                    // Before release() in case this is the only other owner
+                    if (shared_)
                     {
-                        ++rhs_._shared->_ref_count;
+                        ++shared_->_ref_count;
                     }
-                }
-                else if (_live && !rhs_._live)
-                {
-                    _shared->erase(this);
 
-                    if (!rhs_._shared)
+                    release();
+                    _shared = shared_;
+
+                    if (live_)
                     {
-                        --_shared->_ref_count;
+                        _shared->_clients.push_back(this);
                     }
                 }
 
-                _live = rhs_._live;
-                _shared = rhs_._shared;
+                _master = false;
+                _live = live_;
+                _index = index_;
             }
 
             return *this;
@@ -305,6 +291,22 @@ namespace lexertl
         std::size_t _index = shared::npos();
         shared* _shared = nullptr;
 
+        void release()
+        {
+            if (_shared)
+            {
+                --_shared->_ref_count;
+                _shared->erase(this);
+
+                if (_shared->_ref_count == 0)
+                {
+                    delete _shared;
+                }
+
+                _shared = nullptr;
+            }
+        }
+
         void check_master()
         {
             if (!_shared)
-- 
2.43.0


From 6ff898b9c2975de6fafa94832e0cb05d1d8c400f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:47 +0000
Subject: [PATCH 16/38] fix: a start state that does not fit must not be added

---
 include/lexertl/rules.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index aa6cb2c..cd1a0de 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -197,6 +197,15 @@ namespace lexertl
         {
             validate(name_);
 
+            // npos cannot be used for a state
+            if (_next_dfas.size() >= npos() &&
+                _statemap.find(name_) == _statemap.end())
+            {
+                // Overflow
+                throw runtime_error("The id_type you have chosen cannot hold "
+                    "this many lexer start states.");
+            }
+
             if (_statemap.insert(string_id_type_pair(name_,
                 static_cast<id_type>(_statemap.size()))).second)
             {
@@ -219,13 +228,6 @@ namespace lexertl
                 return _statemap.find(name_)->second;
             }
 
-            if (_next_dfas.size() > npos())
-            {
-                // Overflow
-                throw runtime_error("The id_type you have chosen cannot hold "
-                    "this many lexer start states.");
-            }
-
             // Initial is not stored, so no need to - 1.
             return static_cast<id_type>(_lexer_state_names.size());
         }
-- 
2.43.0


From d1987f720e483885a8e89ee3bdac806589d57863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:11 +0000
Subject: [PATCH 17/38] fix: $ in a compressed state machine needs the zero
 byte to be in the alphabet

---
 include/lexertl/parser/parser.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/lexertl/parser/parser.hpp b/include/lexertl/parser/parser.hpp
index ded1a8e..4b24816 100644
--- a/include/lexertl/parser/parser.hpp
+++ b/include/lexertl/parser/parser.hpp
@@ -407,6 +407,10 @@ namespace lexertl::detail
             const id_type temp_cr_id_ = lookup(cr_);
             const id_type temp_nl_id_ = lookup(nl_);
 
+            // The generator needs a zero byte to find \r and \n
+            if constexpr (sm_traits::compressed)
+                lookup(string_token(0, 0));
+
             assert(handle_.top()->_type == token_type::EOL &&
                 handle_.size() == 1);
 
-- 
2.43.0


From 43fad40425fc3f2a65161a998894311ef523b299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:11 +0000
Subject: [PATCH 18/38] fix: $ in a compressed state machine must keep every
 way on through \r and \n

---
 include/lexertl/generator.hpp | 30 +++---------------------------
 1 file changed, 3 insertions(+), 27 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index 0de20b0..9265ddb 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -642,8 +642,6 @@ namespace lexertl
             typename internals::id_type_vector& dfa_,
             const std::size_t dfa_alphabet_, const std::true_type&)
         {
-            std::size_t i_ = 0;
-
             for (const auto& eol_ : eol_set_)
             {
                 observer_ptr<id_type> ptr_ = &dfa_.front() +
@@ -651,6 +649,7 @@ namespace lexertl
                 const id_type eol_state_ = ptr_[*state_index::eol];
                 id_type cr_state_ = 0;
                 id_type nl_state_ = 0;
+                std::size_t i_ = 0;
 
                 for (; i_ < (sm_traits::char_24_bit ? 2 : 1); ++i_)
                 {
@@ -660,33 +659,9 @@ namespace lexertl
                 }
 
                 cr_state_ = ptr_[*state_index::transitions + cr_id_];
-
-                if (cr_state_)
-                {
-                    ptr_ = &dfa_.front() + eol_state_ * dfa_alphabet_;
-
-                    if (ptr_[*state_index::transitions + zero_id_] != 0)
-                        continue;
-
-                    ptr_[*state_index::transitions + zero_id_] =
-                        static_cast<id_type>(dfa_.size() / dfa_alphabet_);
-                    dfa_.resize(dfa_.size() + dfa_alphabet_, 0);
-
-                    for (i_ = 0; i_ < (sm_traits::char_24_bit ? 1 : 0); ++i_)
-                    {
-                        ptr_ = &dfa_.front() + dfa_.size() - dfa_alphabet_;
-                        ptr_[*state_index::transitions + zero_id_] =
-                            static_cast<id_type>(dfa_.size() / dfa_alphabet_);
-                        dfa_.resize(dfa_.size() + dfa_alphabet_, 0);
-                    }
-
-                    ptr_ = &dfa_.front() + dfa_.size() - dfa_alphabet_;
-                    ptr_[*state_index::transitions + cr_id_] = cr_state_;
-                }
-
                 nl_state_ = ptr_[*state_index::transitions + nl_id_];
 
-                if (nl_state_)
+                if (cr_state_ || nl_state_)
                 {
                     ptr_ = &dfa_.front() + eol_state_ * dfa_alphabet_;
 
@@ -706,6 +681,7 @@ namespace lexertl
                     }
 
                     ptr_ = &dfa_.front() + dfa_.size() - dfa_alphabet_;
+                    ptr_[*state_index::transitions + cr_id_] = cr_state_;
                     ptr_[*state_index::transitions + nl_id_] = nl_state_;
                 }
             }
-- 
2.43.0


From 4880911b058b92dba6a3530b4879965ce4e6bf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:41 +0000
Subject: [PATCH 19/38] fix: EOL tokens must not be used as an index of
 set_mapping_

---
 include/lexertl/generator.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index 9265ddb..3cbdea4 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -336,7 +336,9 @@ namespace lexertl
             {
                 node* node_ = *nl_iter_;
 
-                if (node_->end_state())
+                // An EOL token is not in set_mapping_
+                if (node_->end_state() ||
+                    node_->token() == parser::eol_token())
                 {
                     ++nl_iter_;
                     continue;
@@ -351,7 +353,8 @@ namespace lexertl
 
                     for (auto cr_node_ : cr_followpos_)
                     {
-                        if (cr_node_->end_state())
+                        if (cr_node_->end_state() ||
+                            cr_node_->token() == parser::eol_token())
                             continue;
 
                         if (const auto& nl_set_ =
@@ -431,7 +434,8 @@ namespace lexertl
 
                 for (auto cr_node_ : cr_followpos_)
                 {
-                    if (cr_node_->end_state())
+                    if (cr_node_->end_state() ||
+                        cr_node_->token() == parser::eol_token())
                         continue;
 
                     const auto& cr_set_ = set_mapping_[cr_node_->token()];
-- 
2.43.0


From 316c81e8f34ba8ffb42f988034c933280242ec72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:41 +0000
Subject: [PATCH 20/38] fix: a node with several ways to follow a \r must only
 be erased once

---
 include/lexertl/generator.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index 3cbdea4..aa293f7 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -350,6 +350,7 @@ namespace lexertl
                 {
                     const auto& cr_followpos_ =
                         node_->followpos();
+                    bool erased_ = false;
 
                     for (auto cr_node_ : cr_followpos_)
                     {
@@ -379,14 +380,15 @@ namespace lexertl
                                 // but we should be erroring out anyway.
                                 nl_iter_ = followpos_.erase(nl_iter_);
                                 end_ = followpos_.end();
-                                continue;
+                                erased_ = true;
+                                break;
                             }
                         }
                     }
-                }
 
-                if (nl_iter_ == end_)
-                    break;
+                    if (erased_)
+                        continue;
+                }
 
                 if (const auto& nl_set_ =
                     set_mapping_[node_->token()];
-- 
2.43.0


From 72bf1ca61581f7d5edd9e4e867f6d1033280c4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:57 +0000
Subject: [PATCH 21/38] fix: save/load ids as numbers for every id type and
 character type

---
 include/lexertl/serialise.hpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/lexertl/serialise.hpp b/include/lexertl/serialise.hpp
index 10ebb17..71b71f0 100644
--- a/include/lexertl/serialise.hpp
+++ b/include/lexertl/serialise.hpp
@@ -21,29 +21,30 @@ namespace lexertl
         template<typename char_type, typename id_type, class stream>
         void output_vec(const std::vector<id_type>& vec_, stream& stream_)
         {
-            std::basic_ostringstream<char_type> ss_;
-            std::basic_string<char_type> str_;
+            std::ostringstream ss_;
+            std::string str_;
             std::size_t line_len_ = 0;
 
             stream_ << vec_.size() << '\n';
 
             for (const id_type l_ : vec_)
             {
-                ss_ << l_;
+                // Always a number, even if id_type is a character type
+                ss_ << static_cast<std::size_t>(l_);
                 str_ = ss_.str();
 
                 if (line_len_ + str_.size() + 1 > 80)
                 {
-                    stream_ << '\n' << str_ << ' ';
+                    stream_ << '\n' << str_.c_str() << ' ';
                     line_len_ = str_.size() + 1;
                 }
                 else
                 {
-                    stream_ << str_ << ' ';
+                    stream_ << str_.c_str() << ' ';
                     line_len_ += str_.size() + 1;
                 }
 
-                ss_.str("");
+                ss_.str(std::string());
             }
 
             stream_ << '\n';
@@ -78,7 +79,7 @@ namespace lexertl
         stream_ << 1 << '\n';
         stream_ << sizeof(char_type) << '\n';
         stream_ << sizeof(id_type) << '\n';
-        stream_ << internals_._eoi << '\n';
+        stream_ << static_cast<std::size_t>(internals_._eoi) << '\n';
         stream_ << internals_._lookup.size() << '\n';
 
         for (const auto& vec_ : internals_._lookup)
@@ -87,7 +88,7 @@ namespace lexertl
         }
 
         detail::output_vec<char_type>(internals_._dfa_alphabet, stream_);
-        stream_ << internals_._features << '\n';
+        stream_ << static_cast<std::size_t>(internals_._features) << '\n';
         stream_ << internals_._dfa.size() << '\n';
 
         for (const auto& vec_ : internals_._dfa)
@@ -118,7 +119,8 @@ namespace lexertl
         if (num_ != sizeof(id_type))
             throw runtime_error("id_type mismatch in lexertl::load().");
 
-        stream_ >> internals_._eoi;
+        stream_ >> num_;
+        internals_._eoi = static_cast<id_type>(num_);
         stream_ >> num_;
         internals_._lookup.reserve(num_);
 
@@ -129,7 +131,8 @@ namespace lexertl
         }
 
         detail::input_vec<char_type>(stream_, internals_._dfa_alphabet);
-        stream_ >> internals_._features;
+        stream_ >> num_;
+        internals_._features = static_cast<id_type>(num_);
         stream_ >> num_;
         internals_._dfa.reserve(num_);
 
-- 
2.43.0


From 71515bb117461f307d94ba0285165f14fa22236e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 22/38] fix: reversing rules must exchange their bol and eol
 features

---
 include/lexertl/rules.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index cd1a0de..983a1c8 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -398,6 +398,18 @@ namespace lexertl
             {
                 reverse(pair_.second);
             }
+
+            // ^ has become $ and the other way around
+            for (auto& features_ : _features)
+            {
+                const bool bol_ = (features_ & *feature_bit::bol) != 0;
+                const bool eol_ = (features_ & *feature_bit::eol) != 0;
+
+                if (bol_ != eol_)
+                {
+                    features_ ^= *feature_bit::bol | *feature_bit::eol;
+                }
+            }
         }
 
         const string_id_type_map& statemap() const
-- 
2.43.0


From f0114d49fc54179d175c32db51b56991670333c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:10 +0000
Subject: [PATCH 23/38] fix: a quantifier separated from its quantifier must be
 a syntax error

---
 include/lexertl/parser/tokeniser/re_token.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/lexertl/parser/tokeniser/re_token.hpp b/include/lexertl/parser/tokeniser/re_token.hpp
index f14b4dd..0290aee 100644
--- a/include/lexertl/parser/tokeniser/re_token.hpp
+++ b/include/lexertl/parser/tokeniser/re_token.hpp
@@ -84,13 +84,13 @@ namespace lexertl::detail
                 /*MACRO*/  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>',
                 /*  (  */  ' ', '=', '<', '<', '<', '<', '<', ' ', ' ', '<', '<', '<', '<', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ',
                 /*  )  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>',
-                /*  ?  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
+                /*  ?  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* ??  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
-                /*  *  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
+                /*  *  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* *?  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
-                /*  +  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
+                /*  +  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* +?  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
-                /* n,m */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
+                /* n,m */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* n,m?*/  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* END */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' '
             };
-- 
2.43.0


From 241fdd907ab181a79a9a6e5e1021981b34253994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:24 +0000
Subject: [PATCH 24/38] fix: a quantifier applied to ^ must be a syntax error
 (the machine was built with reads out of bounds)

---
 include/lexertl/parser/tokeniser/re_token.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexertl/parser/tokeniser/re_token.hpp b/include/lexertl/parser/tokeniser/re_token.hpp
index 0290aee..a3d65f8 100644
--- a/include/lexertl/parser/tokeniser/re_token.hpp
+++ b/include/lexertl/parser/tokeniser/re_token.hpp
@@ -79,7 +79,7 @@ namespace lexertl::detail
                 /*DUPLI*/  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* or  */  ' ', ' ', ' ', '=', '<', '<', '<', ' ', ' ', '<', '<', '<', '<', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ',
                 /*CHARA*/  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>',
-                /* BOL */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>',
+                /* BOL */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* EOL */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>',
                 /*MACRO*/  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>',
                 /*  (  */  ' ', '=', '<', '<', '<', '<', '<', ' ', ' ', '<', '<', '<', '<', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ',
-- 
2.43.0


From 264d1bcf09f84073857e44bd0652a9b8a74796df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:24 +0000
Subject: [PATCH 25/38] fix: {+} and {-} must follow a character set (the set
 after them was dropped silently)

---
 include/lexertl/rules.hpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index 983a1c8..32aae18 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -847,6 +847,27 @@ namespace lexertl
             observer_ptr<token> lhs_, const token& rhs_,
             const re_state& state_, const rules_char_type diff_) const
         {
+            if (lhs_->_type != detail::token_type::CHARSET)
+            {
+                std::ostringstream ss_;
+
+                ss_ << "CHARSET must precede {-} or {+} at index " <<
+                    state_.index() - 1 << " in ";
+
+                if (name_ != nullptr)
+                {
+                    ss_ << "macro ";
+                    narrow(name_, ss_);
+                }
+                else
+                {
+                    ss_ << "rule id " << state_._id;
+                }
+
+                ss_ << '.';
+                throw runtime_error(ss_.str());
+            }
+
             if (rhs_._type != detail::token_type::CHARSET)
             {
                 std::ostringstream ss_;
-- 
2.43.0


From 4fcabccafa7399920c397194111041925e965731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:24 +0000
Subject: [PATCH 26/38] fix: reversing a rule with an unmatched ( popped an
 empty stack

---
 include/lexertl/rules.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index 32aae18..d26e565 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -1028,13 +1028,18 @@ namespace lexertl
                     iter_->swap(*dest_);
                     dest_->_type = detail::token_type::CLOSEPAREN;
 
-                    if (stack_.top() != end_)
+                    // Unbalanced parentheses are reported by the parser
+                    if (!stack_.empty())
                     {
-                        ++dest_;
-                        dest_->swap(*stack_.top());
+                        if (stack_.top() != end_)
+                        {
+                            ++dest_;
+                            dest_->swap(*stack_.top());
+                        }
+
+                        stack_.pop();
                     }
 
-                    stack_.pop();
                     break;
                 case detail::token_type::CLOSEPAREN:
                     iter_->swap(*dest_);
-- 
2.43.0


From fc53ab06b61ea9de1c58e8941336e2ef7f4dbfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:19 +0000
Subject: [PATCH 27/38] fix: {+} or {-} directly after {+} or {-} must be a
 syntax error

---
 include/lexertl/rules.hpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index d26e565..de21a62 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -813,6 +813,27 @@ namespace lexertl
             const token& rhs_, const re_state& state_, string& macro_,
             rules_char_type& diff_)
         {
+            if (diff_)
+            {
+                std::ostringstream ss_;
+
+                ss_ << "CHARSET must follow {-} or {+} at index " <<
+                    state_.index() - 1 << " in ";
+
+                if (name_ != nullptr)
+                {
+                    ss_ << "macro ";
+                    narrow(name_, ss_);
+                }
+                else
+                {
+                    ss_ << "rule id " << state_._id;
+                }
+
+                ss_ << '.';
+                throw runtime_error(ss_.str());
+            }
+
             if (!macro_.empty())
             {
                 auto iter_ = _macro_map.find(macro_);
-- 
2.43.0


From f6f7010666d43ea8057c2215c849b7d68d7ddf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:03 +0000
Subject: [PATCH 28/38] fix: UTF output iterators inside a character are not
 equal to the one at its start

---
 include/lexertl/utf_iterators.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/lexertl/utf_iterators.hpp b/include/lexertl/utf_iterators.hpp
index 1ec4ae2..33c1d3e 100644
--- a/include/lexertl/utf_iterators.hpp
+++ b/include/lexertl/utf_iterators.hpp
@@ -283,13 +283,13 @@ namespace lexertl
         friend bool operator ==(const basic_utf8_out_iterator& lhs_,
             const basic_utf8_out_iterator& rhs_)
         {
-            return lhs_._it == rhs_._it;
+            return lhs_._it == rhs_._it && lhs_._index == rhs_._index;
         }
 
         friend bool operator !=(const basic_utf8_out_iterator& lhs_,
             const basic_utf8_out_iterator& rhs_)
         {
-            return lhs_._it != rhs_._it;
+            return !(lhs_ == rhs_);
         }
 
         basic_utf8_out_iterator& operator ++()
@@ -329,13 +329,14 @@ namespace lexertl
 
         void next()
         {
+            _index = 0;
+
             if (_it == _eoi)
                 return;
 
             const std::size_t ch_ = *_it;
 
             _count = len(ch_);
-            _index = 0;
 
             switch (_count)
             {
@@ -544,13 +545,13 @@ namespace lexertl
         friend bool operator ==(const basic_utf16_out_iterator& lhs_,
             const basic_utf16_out_iterator& rhs_)
         {
-            return lhs_._it == rhs_._it;
+            return lhs_._it == rhs_._it && lhs_._index == rhs_._index;
         }
 
         friend bool operator !=(const basic_utf16_out_iterator& lhs_,
             const basic_utf16_out_iterator& rhs_)
         {
-            return lhs_._it != rhs_._it;
+            return !(lhs_ == rhs_);
         }
 
         basic_utf16_out_iterator& operator ++()
@@ -590,13 +591,14 @@ namespace lexertl
 
         void next()
         {
+            _index = 0;
+
             if (_it == _eoi)
                 return;
 
             const std::size_t ch_ = *_it;
 
             _count = len(ch_);
-            _index = 0;
 
             switch (_count)
             {
-- 
2.43.0


From c29039e46baa817d008db43dff61ca7417e8a613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:58 +0000
Subject: [PATCH 29/38] fix: an empty name in a list of start states is
 refused, not ignored

---
 include/lexertl/rules.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index de21a62..341a3fb 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -1219,8 +1219,9 @@ namespace lexertl
             {
                 const rules_char_type* start_ = curr_dfa_;
                 string next_dfa_;
+                bool more_ = true;
 
-                while (*curr_dfa_)
+                while (more_)
                 {
                     while (*curr_dfa_ && *curr_dfa_ != ',')
                     {
@@ -1228,8 +1229,9 @@ namespace lexertl
                     }
 
                     next_dfa_.assign(start_, curr_dfa_);
+                    more_ = *curr_dfa_ != 0;
 
-                    if (*curr_dfa_)
+                    if (more_)
                     {
                         ++curr_dfa_;
                         start_ = curr_dfa_;
-- 
2.43.0


From 6a33b6233eb740ed7b4a4f7a0baabe1da21f2f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:27 +0000
Subject: [PATCH 30/38] fix: more character sets than id_type can number are
 refused, not wrapped

---
 include/lexertl/parser/parser.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/lexertl/parser/parser.hpp b/include/lexertl/parser/parser.hpp
index 4b24816..3e2fce4 100644
--- a/include/lexertl/parser/parser.hpp
+++ b/include/lexertl/parser/parser.hpp
@@ -745,16 +745,18 @@ namespace lexertl::detail
             // Converted to id_type below.
             std::size_t id_ = sm_traits::npos();
 
-            if (static_cast<id_type>(id_) < id_)
-            {
-                throw runtime_error("id_type is not large enough "
-                    "to hold all ids.");
-            }
-
             if (auto iter_ = _charset_map.find(charset_);
                 iter_ == _charset_map.end())
             {
                 id_ = _charset_map.size();
+
+                // The values from eol_token() on are reserved
+                if (id_ >= eol_token())
+                {
+                    throw runtime_error("id_type is not large enough "
+                        "to hold all ids.");
+                }
+
                 _charset_map.insert(charset_pair(charset_,
                     static_cast<id_type>(id_)));
             }
-- 
2.43.0


From dd98f7d27d58a8cd64d2cc647817a618e7d1b9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 31/38] fix: rules are counted beyond the range of id_type

---
 include/lexertl/generator.hpp            | 16 ++++++++--------
 include/lexertl/parser/parser.hpp        |  2 +-
 include/lexertl/parser/tree/end_node.hpp |  6 +++---
 include/lexertl/parser/tree/node.hpp     |  2 +-
 4 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index aa293f7..5a7c882 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -51,8 +51,8 @@ namespace lexertl
             internals internals_;
             sm temp_sm_;
             node_ptr_vector node_ptr_vector_;
-            std::set<id_type> used_ids_;
-            id_type unique_id_ = 0;
+            std::set<std::size_t> used_ids_;
+            std::size_t unique_id_ = 0;
 
             internals_._eoi = rules_.eoi();
             internals_.add_states(size_);
@@ -104,7 +104,7 @@ namespace lexertl
         static observer_ptr<node> build_tree(const rules& rules_,
             const std::size_t dfa_, node_ptr_vector& node_ptr_vector_,
             charset_map& charset_map_, id_type& cr_id_, id_type& nl_id_,
-            id_type& unique_id_)
+            std::size_t& unique_id_)
         {
             parser parser_(rules_.locale(), node_ptr_vector_, charset_map_,
                 rules_.eoi());
@@ -188,7 +188,7 @@ namespace lexertl
         static void build_dfa(const charset_map& charset_map_,
             const observer_ptr<node> root_, internals& internals_, sm& sm_,
             const id_type dfa_index_, id_type& cr_id_, id_type& nl_id_,
-            const std::size_t flags_, std::set<id_type>& used_ids_)
+            const std::size_t flags_, std::set<std::size_t>& used_ids_)
         {
             // partitioned charset list
             charset_list charset_list_;
@@ -567,11 +567,11 @@ namespace lexertl
         }
 
         static void check_suppressed(const rules& rules_,
-            const id_type unique_id_, std::set<id_type>& used_ids_)
+            const std::size_t unique_id_, std::set<std::size_t>& used_ids_)
         {
             if (!(rules_.flags() & *regex_flags::allow_suppressed_rules))
             {
-                for (id_type id_ = 0; id_ < unique_id_; ++id_)
+                for (std::size_t id_ = 0; id_ < unique_id_; ++id_)
                 {
                     if (used_ids_.find(id_ + 1) == used_ids_.end())
                     {
@@ -880,7 +880,7 @@ namespace lexertl
             node_set_vector& seen_sets_, node_vector_vector& seen_vectors_,
             size_t_vector& hash_vector_, const id_type size_,
             id_type_vector& dfa_, const std::size_t flags_,
-            std::set<id_type>& used_ids_)
+            std::set<std::size_t>& used_ids_)
         {
             bool end_state_ = false;
             id_type id_ = 0;
@@ -956,7 +956,7 @@ namespace lexertl
             id_type& push_dfa_, bool& pop_dfa_, node_set& set_ptr_,
             node_vector& vector_ptr_, std::size_t& hash_,
             greedy_repeat& greedy_, const std::size_t flags_,
-            std::set<id_type>& used_ids_)
+            std::set<std::size_t>& used_ids_)
         {
             if (node_->end_state())
             {
diff --git a/include/lexertl/parser/parser.hpp b/include/lexertl/parser/parser.hpp
index 3e2fce4..2a42630 100644
--- a/include/lexertl/parser/parser.hpp
+++ b/include/lexertl/parser/parser.hpp
@@ -91,7 +91,7 @@ namespace lexertl::detail
         }
 
         observer_ptr<node> parse(const token_vector& regex_, const id_type id_,
-            const id_type user_id_, const id_type unique_id_,
+            const id_type user_id_, const std::size_t unique_id_,
             const id_type next_dfa_, const id_type push_dfa_,
             const bool pop_dfa_, id_type& cr_id_, id_type& nl_id_,
             const bool seen_bol_)
diff --git a/include/lexertl/parser/tree/end_node.hpp b/include/lexertl/parser/tree/end_node.hpp
index aa02515..97b2476 100644
--- a/include/lexertl/parser/tree/end_node.hpp
+++ b/include/lexertl/parser/tree/end_node.hpp
@@ -24,7 +24,7 @@ namespace lexertl::detail
         using node_vector = typename node::node_vector;
 
         basic_end_node(const id_type id_,
-            const id_type user_id_, const id_type unique_id_,
+            const id_type user_id_, const std::size_t unique_id_,
             const id_type next_dfa_, const id_type push_dfa_,
             const bool pop_dfa_, const greedy_repeat greedy_) :
             node(false),
@@ -85,7 +85,7 @@ namespace lexertl::detail
             return _user_id;
         }
 
-        id_type unique_id() const override
+        std::size_t unique_id() const override
         {
             return _unique_id;
         }
@@ -108,7 +108,7 @@ namespace lexertl::detail
     private:
         id_type _id;
         id_type _user_id;
-        id_type _unique_id;
+        std::size_t _unique_id;
         id_type _next_dfa;
         id_type _push_dfa;
         bool _pop_dfa;
diff --git a/include/lexertl/parser/tree/node.hpp b/include/lexertl/parser/tree/node.hpp
index ae68c1f..ec8ad1c 100644
--- a/include/lexertl/parser/tree/node.hpp
+++ b/include/lexertl/parser/tree/node.hpp
@@ -147,7 +147,7 @@ namespace lexertl::detail
 #endif
         }
 
-        virtual id_type unique_id() const
+        virtual std::size_t unique_id() const
         {
             throw runtime_error("Internal error node::unique_id().");
 #ifdef __SUNPRO_CC
-- 
2.43.0


From 634c4e1be0da915ab1e52666d045fd8fdd2e35fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:59 +0000
Subject: [PATCH 32/38] fix: a hexadecimal escape too long for size_t is too
 big, not a small number

---
 include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
index df6567c..8c33450 100644
--- a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
+++ b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
@@ -1321,10 +1321,14 @@ namespace lexertl::detail
                 throw runtime_error(ss_.str());
             }
 
+            const std::size_t limit_ = ~static_cast<std::size_t>(0) >> 4;
             std::size_t hex_ = 0;
 
             do
             {
+                // A number that does not fit size_t must not wrap
+                if (hex_ > limit_) hex_ = limit_;
+
                 hex_ *= 16;
 
                 if (ch_ >= '0' && ch_ <= '9')
-- 
2.43.0


From fc9a7a2c2a2accc27d2d66cdfe24fe720c043df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:17 +0000
Subject: [PATCH 33/38] fix: refuse a repeat count that does not fit size_t

---
 .../lexertl/parser/tokeniser/re_tokeniser.hpp | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/lexertl/parser/tokeniser/re_tokeniser.hpp b/include/lexertl/parser/tokeniser/re_tokeniser.hpp
index ddc855b..d6e9d53 100644
--- a/include/lexertl/parser/tokeniser/re_tokeniser.hpp
+++ b/include/lexertl/parser/tokeniser/re_tokeniser.hpp
@@ -563,8 +563,7 @@ namespace lexertl::detail
 
             while (!eos_ && ch_ >= '0' && ch_ <= '9')
             {
-                min_ *= 10;
-                min_ += static_cast<std::size_t>(ch_) - '0';
+                add_digit(ch_, state_, min_);
                 token_._extra += ch_;
                 eos_ = state_.next(ch_);
             }
@@ -630,8 +629,7 @@ namespace lexertl::detail
 
                     do
                     {
-                        max_ *= 10;
-                        max_ += static_cast<std::size_t>(ch_) - '0';
+                        add_digit(ch_, state_, max_);
                         token_._extra += ch_;
                         eos_ = state_.next(ch_);
                     } while (!eos_ && ch_ >= '0' && ch_ <= '9');
@@ -735,6 +733,24 @@ namespace lexertl::detail
             }
         }
 
+        static void add_digit(const rules_char_type ch_, const state& state_,
+            std::size_t& count_)
+        {
+            const std::size_t digit_ = static_cast<std::size_t>(ch_) - '0';
+
+            if (count_ > (~static_cast<std::size_t>(0) - digit_) / 10)
+            {
+                std::ostringstream ss_;
+
+                ss_ << "Repeat count too big at index " <<
+                    state_.index() - 1;
+                state_.error(ss_);
+                throw runtime_error(ss_.str());
+            }
+
+            count_ = count_ * 10 + digit_;
+        }
+
         static void macro(state& state_, re_token& token_)
         {
             rules_char_type ch_ = 0;
-- 
2.43.0


From b7498b2ab8b1ce96d5ae1e1a2e4fadb609e77cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:40 +0000
Subject: [PATCH 34/38] fix: (?s:) lets . match newlines whichever flag forbids
 it

---
 include/lexertl/parser/tokeniser/re_tokeniser.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/lexertl/parser/tokeniser/re_tokeniser.hpp b/include/lexertl/parser/tokeniser/re_tokeniser.hpp
index d6e9d53..f73de77 100644
--- a/include/lexertl/parser/tokeniser/re_tokeniser.hpp
+++ b/include/lexertl/parser/tokeniser/re_tokeniser.hpp
@@ -395,11 +395,8 @@ namespace lexertl::detail
                         else
                         {
                             state_._flags = state_._flags &
-#ifdef _WIN32
-                                ~*regex_flags::dot_not_cr_lf;
-#else
-                                ~*regex_flags::dot_not_newline;
-#endif
+                                ~(*regex_flags::dot_not_newline |
+                                    *regex_flags::dot_not_cr_lf);
                         }
 
                         negate_ = false;
-- 
2.43.0


From 5f9ffc53d8f8f43e55081e0335f29e325e75f04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:37 +0000
Subject: [PATCH 35/38] fix: . does not match a carriage return if both dot
 flags are set

---
 include/lexertl/parser/tokeniser/re_tokeniser.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/lexertl/parser/tokeniser/re_tokeniser.hpp b/include/lexertl/parser/tokeniser/re_tokeniser.hpp
index f73de77..08bbc56 100644
--- a/include/lexertl/parser/tokeniser/re_tokeniser.hpp
+++ b/include/lexertl/parser/tokeniser/re_tokeniser.hpp
@@ -202,15 +202,15 @@ namespace lexertl::detail
                     {
                         token_._type = token_type::CHARSET;
 
-                        if (state_._flags & *regex_flags::dot_not_newline)
+                        if (state_._flags & *regex_flags::dot_not_cr_lf)
                         {
                             token_._str.insert(range('\n', '\n'));
+                            token_._str.insert(range('\r', '\r'));
                         }
                         else if (state_._flags &
-                            *regex_flags::dot_not_cr_lf)
+                            *regex_flags::dot_not_newline)
                         {
                             token_._str.insert(range('\n', '\n'));
-                            token_._str.insert(range('\r', '\r'));
                         }
 
                         token_._str.negate();
-- 
2.43.0


From 2b6b1a7f223ba3111cd692c3c833030001c3bde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:36 +0000
Subject: [PATCH 36/38] fix: replace() advances its output iterator

The overloads that write to an output iterator dropped what std::copy returns, so every piece was written where the first one
began and the iterator returned was the one passed in (only back_insert_iterator and the like worked).
---
 include/lexertl/replace.hpp | 44 ++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/include/lexertl/replace.hpp b/include/lexertl/replace.hpp
index 7655f38..688c958 100644
--- a/include/lexertl/replace.hpp
+++ b/include/lexertl/replace.hpp
@@ -31,13 +31,13 @@ namespace lexertl
 
         while (results_.id != 0)
         {
-            std::copy(last_, results_.first, out_);
-            std::copy(fmt_.cbegin(), fmt_.cend(), out_);
+            out_ = std::copy(last_, results_.first, out_);
+            out_ = std::copy(fmt_.cbegin(), fmt_.cend(), out_);
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
@@ -57,18 +57,18 @@ namespace lexertl
         {
             auto iter_ = fmt_.find(results_.id);
 
-            std::copy(last_, results_.first, out_);
+            out_ = std::copy(last_, results_.first, out_);
 
             if (iter_ == fmt_.cend())
-                std::copy(results_.first, results_.second, out_);
+                out_ = std::copy(results_.first, results_.second, out_);
             else
-                std::copy(iter_->second.cbegin(), iter_->second.cend(), out_);
+                out_ = std::copy(iter_->second.cbegin(), iter_->second.cend(), out_);
 
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
@@ -90,22 +90,22 @@ namespace lexertl
         {
             auto iter_ = fmt_.find(results_.id);
 
-            std::copy(last_, results_.first, out_);
+            out_ = std::copy(last_, results_.first, out_);
 
             if (iter_ == fmt_.cend())
-                std::copy(results_.first, results_.second, out_);
+                out_ = std::copy(results_.first, results_.second, out_);
             else
             {
                 const auto str_ = iter_->second(results_.first, results_.second);
 
-                std::copy(str_.cbegin(), str_.cend(), out_);
+                out_ = std::copy(str_.cbegin(), str_.cend(), out_);
             }
 
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
@@ -129,13 +129,13 @@ namespace lexertl
 
         while (results_.id != 0)
         {
-            std::copy(last_, results_.first, out_);
-            std::copy(fmt_, end_fmt_, out_);
+            out_ = std::copy(last_, results_.first, out_);
+            out_ = std::copy(fmt_, end_fmt_, out_);
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
@@ -153,10 +153,10 @@ namespace lexertl
         {
             auto iter_ = fmt_.find(results_.id);
 
-            std::copy(last_, results_.first, out_);
+            out_ = std::copy(last_, results_.first, out_);
 
             if (iter_ == fmt_.cend())
-                std::copy(results_.first, results_.second, out_);
+                out_ = std::copy(results_.first, results_.second, out_);
             else
             {
                 const char_type* end_fmt_ = [end_ = iter_->second]() mutable
@@ -167,14 +167,14 @@ namespace lexertl
                         return end_;
                     }();
 
-                std::copy(iter_->second, end_fmt_, out_);
+                out_ = std::copy(iter_->second, end_fmt_, out_);
             }
 
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
@@ -193,10 +193,10 @@ namespace lexertl
         {
             auto iter_ = fmt_.find(results_.id);
 
-            std::copy(last_, results_.first, out_);
+            out_ = std::copy(last_, results_.first, out_);
 
             if (iter_ == fmt_.cend())
-                std::copy(results_.first, results_.second, out_);
+                out_ = std::copy(results_.first, results_.second, out_);
             else
             {
                 const char_type* str_ =
@@ -209,14 +209,14 @@ namespace lexertl
                         return str_;
                     }();
 
-                std::copy(str_, end_str_, out_);
+                out_ = std::copy(str_, end_str_, out_);
             }
 
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
-- 
2.43.0


From b5aed2c98ae84adb78dba40ab346b56127e9d497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:11 +0000
Subject: [PATCH 37/38] fix: wdot and u32dot compile

---
 include/lexertl/dot.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/lexertl/dot.hpp b/include/lexertl/dot.hpp
index e889731..923f918 100644
--- a/include/lexertl/dot.hpp
+++ b/include/lexertl/dot.hpp
@@ -179,7 +179,7 @@ namespace lexertl
 
                 if (i_ == 0)
                 {
-                    const char* name_ = rules_.state(dfa_id_);
+                    const char_type* name_ = rules_.state(dfa_id_);
 
                     stream_ << "    " << name <<
                         " [shape = circle, xlabel=\"";
@@ -269,7 +269,8 @@ namespace lexertl
                     if (range.second == '^' ||
                         range.second == ']')
                     {
-                        chars_ += R"(\\)";
+                        chars_ += '\\';
+                        chars_ += '\\';
                     }
 
                     chars_ += double_escape_char(range.second);
-- 
2.43.0


From a9d4fcc4b555caba905e29e4d844709855aac96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:11 +0000
Subject: [PATCH 38/38] fix: push(state, std::string regex, id, next, user id)
 is ambiguous with an int user id

---
 include/lexertl/rules.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index 341a3fb..da50ada 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -349,7 +349,7 @@ namespace lexertl
         void push(const rules_char_type* curr_dfa_, const string& regex_,
             const rules_char_type* new_dfa_)
         {
-            push(curr_dfa_, regex_, eoi(), new_dfa_, false);
+            push(curr_dfa_, regex_, eoi(), new_dfa_, npos(), false);
         }
 
         // Add rule with id
@@ -381,7 +381,7 @@ namespace lexertl
             const id_type id_, const rules_char_type* new_dfa_,
             const id_type user_id_ = npos())
         {
-            push(curr_dfa_, regex_, id_, new_dfa_, true, user_id_);
+            push(curr_dfa_, regex_, id_, new_dfa_, user_id_, true);
         }
 
         void reverse()
@@ -1111,7 +1111,7 @@ namespace lexertl
 
         void push(const rules_char_type* curr_dfa_, const string& regex_,
             const id_type id_, const rules_char_type* new_dfa_,
-            const bool check_, const id_type user_id_ = npos())
+            const id_type user_id_, const bool check_)
         {
             const bool star_ = *curr_dfa_ == '*' && *(curr_dfa_ + 1) == 0;
             const bool dot_ = *new_dfa_ == '.' && *(new_dfa_ + 1) == 0;
-- 
2.43.0

