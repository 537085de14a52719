From cd2586f495797b4f67ad6589a49cdce7442faf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:18 +0000
Subject: [PATCH 01/45] fix: look an operation up under its own name, not under
 the plain word

---
 Narsese/Parser/NarseseParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/Parser/NarseseParser.cpp b/Narsese/Parser/NarseseParser.cpp
index a90e80c..22e8b84 100644
--- a/Narsese/Parser/NarseseParser.cpp
+++ b/Narsese/Parser/NarseseParser.cpp
@@ -458,7 +458,7 @@ void *NARSESEPARSER::operation(Parser *self, const Args &args)
 	auto &str = *((std::string *)args[0]);
 	auto str_op = "^" + str;
 	pTerm *term;
-	if (INTERPRETER::interpreter.check_by_name(str) > 0)
+	if (INTERPRETER::interpreter.check_by_name(str_op) > 0)
 	{
 		auto key = INTERPRETER::interpreter.get_by_name(str_op);
 		term = (pTerm *)INTERPRETER::interpreter.get_object(key);
-- 
2.43.0


From e32ef2430dbcd63609255f4cec7e4f6b900b983a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:18 +0000
Subject: [PATCH 02/45] fix: only an inheritance from a product to an operation
 is an operation statement

---
 Narsese/include/Statement.inl | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Narsese/include/Statement.inl b/Narsese/include/Statement.inl
index f559a38..44ff39e 100644
--- a/Narsese/include/Statement.inl
+++ b/Narsese/include/Statement.inl
@@ -23,10 +23,8 @@ namespace STATEMENT
         // components = unordered_set<Term*>{&subject, &predicate};
 
         this->is_higher_order = COPULA::is_higher_order(copula);
-        this->is_operation = _predicate->is_operation;
-
-        if (this->predicate->is_atom() && this->predicate->is_operation && this->subject->is_compound() && this->subject->connector == CONNECTOR::PRODUCT)
-            this->is_operation = true;
+        // Only `<(*, ...) --> ^op>` is an operation; other statements may have an operation as the predicate.
+        this->is_operation = this->copula == COPULA::INHERITANCE && this->predicate->is_atom() && this->predicate->is_operation && this->subject->is_compound() && this->subject->connector == CONNECTOR::PRODUCT;
 
         // is_operation = predicate.is_operation;
         auto terms = {this->subject, this->predicate};
-- 
2.43.0


From 1d0ed7d3da18dc02a7d7bbeb5a6eab3091735823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:18 +0000
Subject: [PATCH 03/45] fix: compare dependent and query variables by their own
 index

---
 Narsese/include/Term.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Narsese/include/Term.inl b/Narsese/include/Term.inl
index 0660714..1e87d26 100644
--- a/Narsese/include/Term.inl
+++ b/Narsese/include/Term.inl
@@ -69,9 +69,9 @@ namespace TERM
             if (this->is_var || other.is_var)
             {
                 if (this->is_qvar && other.is_qvar)
-                    return *(this->_vars_independent->indices[0]) == *(other._vars_query->indices[0]);
+                    return *(this->_vars_query->indices[0]) == *(other._vars_query->indices[0]);
                 else if (this->is_dvar && other.is_dvar)
-                    return *(this->_vars_independent->indices[0]) == *(other._vars_dependent->indices[0]);
+                    return *(this->_vars_dependent->indices[0]) == *(other._vars_dependent->indices[0]);
                 else if (this->is_ivar && other.is_ivar)
                     return *(this->_vars_independent->indices[0]) == *(other._vars_independent->indices[0]);
             }
-- 
2.43.0


From 3010b4370bd72652d2ace2b3745e89da65ebac1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:18 +0000
Subject: [PATCH 04/45] fix: connect each kind of variable index to the
 component's index of that kind

---
 Narsese/include/Term.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Narsese/include/Term.inl b/Narsese/include/Term.inl
index 1e87d26..7dd0af1 100644
--- a/Narsese/include/Term.inl
+++ b/Narsese/include/Term.inl
@@ -21,7 +21,7 @@ namespace TERM
             auto it = indexvars2.begin();
             for (const auto indexvar1 : variables)
             {
-                auto indexvar2 = *it;
+                auto indexvar2 = *it++;
                 IndexVar::connect(indexvar1, indexvar2, false);
             }
         }
@@ -35,7 +35,7 @@ namespace TERM
             auto it = indexvars2.begin();
             for (const auto indexvar1 : variables)
             {
-                auto indexvar2 = *it;
+                auto indexvar2 = *it++;
                 IndexVar::connect(indexvar1, indexvar2, false);
             }
         }
-- 
2.43.0


From 6ec1933ce7add59d150ee749af92c3998c622845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:48 +0000
Subject: [PATCH 05/45] fix: make the order of statements and compounds
 lexicographic, so that it is a strict weak order

---
 Narsese/include/Term.inl | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Narsese/include/Term.inl b/Narsese/include/Term.inl
index 7dd0af1..5f9bda4 100644
--- a/Narsese/include/Term.inl
+++ b/Narsese/include/Term.inl
@@ -151,11 +151,13 @@ namespace TERM
 
             if (*(term1.subject) < *(term2.subject))
                 return true;
+            if (*(term2.subject) < *(term1.subject))
+                return false;
             if (*(term1.predicate) < *(term2.predicate))
                 return true;
-            if (term1.copula < term2.copula)
-                return true;
-            return false;
+            if (*(term2.predicate) < *(term1.predicate))
+                return false;
+            return term1.copula < term2.copula;
         }
         else if (this->is_compound())
         {
@@ -171,6 +173,8 @@ namespace TERM
                 auto &term2 = **it2;
                 if ((term1 < term2))
                     return true;
+                if ((term2 < term1))
+                    return false;
             }
             return false;
             // throw std::logic_error("TODO");
-- 
2.43.0


From b34a99b69a23779513835e740ad20b670813a35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:48 +0000
Subject: [PATCH 06/45] fix: grow the parser stack before the slot past its end
 is used

---
 Narsese/Parser/narsese.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Narsese/Parser/narsese.cpp b/Narsese/Parser/narsese.cpp
index 24d113f..a5a3e2f 100644
--- a/Narsese/Parser/narsese.cpp
+++ b/Narsese/Parser/narsese.cpp
@@ -178,7 +178,7 @@ bool _parser::alloc_stack( void )
 
 		this->stacksize = UNICC_MALLOCSTEP;
 	}
-	else if( ( this->tos - this->stack ) == this->stacksize )
+	else if( ( this->tos - this->stack ) + 1 >= this->stacksize )
 	{
 		size_t			size = ( this->tos - this->stack );
 		_tok*	ptr;
@@ -798,6 +798,9 @@ int _parser::parse( void )
 
 			this->get_go();
 
+			if( !this->alloc_stack() )
+				return (int)NULL;
+
 			this->tos++;
 			this->tos->node = NULL;
 
-- 
2.43.0


From a32a064030643d67fc4d8778468362b4257785c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:48 +0000
Subject: [PATCH 07/45] fix: do not read past the end of the input buffer when
 consuming a token

---
 Narsese/Parser/narsese.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/Parser/narsese.cpp b/Narsese/Parser/narsese.cpp
index a5a3e2f..c95be50 100644
--- a/Narsese/Parser/narsese.cpp
+++ b/Narsese/Parser/narsese.cpp
@@ -323,7 +323,7 @@ void _parser::clear_input( void )
 #endif
 
 			memmove( this->buf, this->buf + this->len,
-						( ( this->bufend - ( this->buf + this->len ) ) + 1 + 1 )
+						( ( this->bufend - ( this->buf + this->len ) ) + 1 )
 							* sizeof( UNICC_CHAR ) );
 			this->bufend = this->buf + ( this->bufend - ( this->buf + this->len ) );
 
-- 
2.43.0


From fd62c0ec91708ca8cbd6cb063afdbce8b8997feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:48 +0000
Subject: [PATCH 08/45] fix: initialise the parser's state and drop the tree of
 an input whose transformation failed

---
 Narsese/Parser/Parser.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/Narsese/Parser/Parser.cpp b/Narsese/Parser/Parser.cpp
index fcb41a8..c39f589 100644
--- a/Narsese/Parser/Parser.cpp
+++ b/Narsese/Parser/Parser.cpp
@@ -6,8 +6,13 @@ using namespace PARSER;
 Parser::Parser()
 {
     this->eof = '\n';
+    this->stack = this->tos = NULL;
     this->stacksize = 0;
-    this->buf = NULL;
+    this->lexem = NULL;
+    this->buf = this->bufend = this->bufsize = NULL;
+    this->ast = NULL;
+    this->error_delay = 0;
+    this->error_count = 0;
     // const char *empty = "";
     // const char* start = "start";
     // auto len = sizeof(this->productions)/sizeof(this->productions[0]);
@@ -27,6 +32,9 @@ Parser::Parser()
 
 void *Parser::parse_string(std::string &input)
 {
+    /* If transforming an earlier input threw an exception, its tree is still there. */
+    this->ast = this->ast_free(this->ast);
+
     char_fetcher.switch_string_mode();
     char_fetcher.fill(input);
 
@@ -48,6 +56,8 @@ void *Parser::parse_string(std::string &input)
 
 void *Parser::parse_input()
 {
+    this->ast = this->ast_free(this->ast);
+
     char_fetcher.switch_stdin_mode();
     this->parse();
     /* Print AST */
-- 
2.43.0


From 580fe961297e94cffb208acef0161440787617e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:14 +0000
Subject: [PATCH 09/45] fix: merge evidential bases without losing, inventing
 or overfilling evidence

---
 Narsese/include/Evidence.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Narsese/include/Evidence.h b/Narsese/include/Evidence.h
index b96dd73..b1d532c 100755
--- a/Narsese/include/Evidence.h
+++ b/Narsese/include/Evidence.h
@@ -33,9 +33,11 @@ namespace EVIDENCE
         void extend(const Base &other)
         {
             auto base1 = Base(*this);
-            auto &base2 = other;
-            this->_set->clear();
+            auto base2 = Base(other);
+            // `base1` and `base2` keep the old sets; the merged one is a new set.
+            this->_set = shared_ptr<set<size_t>>(new set<size_t>());
             Base::interleave(*this, base1, base2);
+            this->_is_hashed = false;
         }
 
         static void interleave(Base &base, const Base &base1, const Base &base2)
@@ -52,7 +54,7 @@ namespace EVIDENCE
                     it2++;
                     i++;
                 }
-                if (it1 != base1._set->end())
+                if (i < base_length && it1 != base1._set->end())
                 {
                     base._set->insert(*it1);
                     it1++;
@@ -63,7 +65,7 @@ namespace EVIDENCE
 
         static auto interleave(const Base &base1, const Base &base2)
         {
-            auto base = pBase(new Base());
+            auto base = pBase(new Base(set<size_t>{}));
             Base::interleave(*base, base1, base2);
             return base;
         }
-- 
2.43.0


From 4270069af0703b075fe2b143422d31445521f088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:14 +0000
Subject: [PATCH 10/45] fix: give a stamp made without an evidential base one
 of its own

---
 Narsese/include/Sentence.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Narsese/include/Sentence.h b/Narsese/include/Sentence.h
index c8f6933..7e362cf 100755
--- a/Narsese/include/Sentence.h
+++ b/Narsese/include/Sentence.h
@@ -61,8 +61,8 @@ namespace SENTENCE
 
         Stamp(signed int t_occurrence, signed int t_creation, signed int t_put, pBase evidential_base, bool is_eternal = true) : t_occurrence(t_occurrence), t_creation(t_creation), t_put(t_put), evidential_base(evidential_base), is_eternal(is_eternal)
         {
-            if (evidential_base == nullptr)
-                evidential_base = pBase(new Base());
+            if (this->evidential_base == nullptr)
+                this->evidential_base = pBase(new Base());
         }
 
         static pStamp create(bool is_eternal = false)
-- 
2.43.0


From badc67f0d1261d275a600cac798c95e06790d00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:32 +0000
Subject: [PATCH 11/45] fix: share one clock and one evidence counter between
 all translation units

---
 Global.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Global.h b/Global.h
index ec26c8a..26f84c2 100755
--- a/Global.h
+++ b/Global.h
@@ -3,8 +3,8 @@
 
 namespace GLOBAL
 {
-    static unsigned long time = 0;
-    static unsigned long _input_id = 0;
+    inline unsigned long time = 0;
+    inline unsigned long _input_id = 0;
 
     inline unsigned long get_input_id()
     {
-- 
2.43.0


From 10537978529e324aac71c84e87a001cedb76d587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:32 +0000
Subject: [PATCH 12/45] fix: take the past, present and future tense relative
 to the current time

---
 Narsese/Parser/NarseseParser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Narsese/Parser/NarseseParser.cpp b/Narsese/Parser/NarseseParser.cpp
index 22e8b84..0a64b0a 100644
--- a/Narsese/Parser/NarseseParser.cpp
+++ b/Narsese/Parser/NarseseParser.cpp
@@ -773,20 +773,20 @@ void *NARSESEPARSER::tense_time(Parser *self, const Args &args)
 void *NARSESEPARSER::tense_future(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new std::tuple(0, (new (signed int)(CONFIG::temporal_duration)));
+	ret = new std::tuple(0, (new (signed int)(GLOBAL::time + CONFIG::temporal_duration)));
 	return ret;
 }
 void *NARSESEPARSER::tense_present(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new std::tuple(0, (new (signed int)(0)));
+	ret = new std::tuple(0, (new (signed int)(GLOBAL::time)));
 
 	return ret;
 }
 void *NARSESEPARSER::tense_past(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new std::tuple(0, (new (signed int)(-CONFIG::temporal_duration)));
+	ret = new std::tuple(0, (new (signed int)(GLOBAL::time - CONFIG::temporal_duration)));
 	return ret;
 }
 void *NARSESEPARSER::truth(Parser *self, const Args &args)
-- 
2.43.0


From 512f84ecb70b57d9669d16991ad8ad5d1c0f957a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:32 +0000
Subject: [PATCH 13/45] fix: return the symmetric and reversed copula, not
 whether it is nonzero

---
 Narsese/include/Copula.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Narsese/include/Copula.h b/Narsese/include/Copula.h
index f6bf5d3..e32dfcc 100755
--- a/Narsese/include/Copula.h
+++ b/Narsese/include/Copula.h
@@ -48,8 +48,8 @@ namespace COPULA
     inline bool is_commutative(Copula copula) { return _commutative[copula]; }
     inline bool is_higher_order(Copula copula) { return _higher_order[copula]; }
     inline bool is_temporal(Copula copula) { return _temporal[copula]; }
-    inline bool symmetrize(Copula copula) { return _symmetrize[copula]; }
-    inline bool reverse(Copula copula) { return _reverse[copula]; }
+    inline Copula symmetrize(Copula copula) { return _symmetrize[copula]; }
+    inline Copula reverse(Copula copula) { return _reverse[copula]; }
 
     void pybind_copula(py::module &m);
 
-- 
2.43.0


From d2d7ef2eb28e5cbb13b84e61db6735fc6d6491f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:32 +0000
Subject: [PATCH 14/45] fix: let projected confidence decay with the distance
 in time

---
 NAL/Functions/include/TemporalFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NAL/Functions/include/TemporalFunctions.h b/NAL/Functions/include/TemporalFunctions.h
index 86b2529..2890a87 100644
--- a/NAL/Functions/include/TemporalFunctions.h
+++ b/NAL/Functions/include/TemporalFunctions.h
@@ -11,7 +11,7 @@ namespace TEMPORAL_FUNCTIONS
     inline auto project(pTruth truth, int64_t t_source, int64_t t_current, int64_t t_target, size_t decay_duration = 1000)
     {
         auto d = (abs(t_source - t_current) + abs(t_target - t_current)) + decay_duration;
-        auto k_c = d > 0 ? abs(t_source - t_target) / d : 0;
+        auto k_c = d > 0 ? (double)abs(t_source - t_target) / d : 0;
         auto c_new = (1 - k_c) * truth->c;
         return Truth::create(truth->f, c_new, truth->k);
     }
-- 
2.43.0


From cef38105b2d3d3d3a3d739dd7cd1bbe744e80b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:58 +0000
Subject: [PATCH 15/45] fix: list each variable occurrence once when
 connecting, and renormalise an index when it is rebuilt

---
 utils/IndexVar.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/IndexVar.cpp b/utils/IndexVar.cpp
index c9f7293..1dae3f8 100755
--- a/utils/IndexVar.cpp
+++ b/utils/IndexVar.cpp
@@ -81,8 +81,6 @@ void IndexVar::connect(pIndexVar father, pIndexVar son, bool generate_pos)
         position.insert(position.end(), pos.begin(), pos.end());
         positions.push_back(position);
     }
-    indices.insert(indices.end(), son->indices.begin(), son->indices.end());
-    positions.insert(positions.end(), son->positions.begin(), son->positions.end());
     father->indices.insert(father->indices.end(), indices.begin(), indices.end());
     father->positions.insert(father->positions.end(), positions.begin(), positions.end());
 }
@@ -114,6 +112,8 @@ void IndexVar::build(bool rebuild)
     }
 
     this->_is_built = true;
+    this->_indices_normalized = nullptr;
+    this->_is_hashed = false;
     this->_hash_value = hash(*this);
 }
 
-- 
2.43.0


From 2b5a8b10e2d3e7a9b24bb1c99e0c1cfcf19547e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:28 +0000
Subject: [PATCH 16/45] fix: give the coloured sentence format as many fields
 as arguments

---
 Interpreter/src/Interpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index 3c44eba..e3f4257 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -268,7 +268,7 @@ string Interpreter::interpret(Sentence &sentence, bool colored)
         str_punct = fmt::format(color_punct, SENTENCE::PUNCTUATION::Repr[(int)(sentence.punct)]);
         str_stamp = sentence.stamp->is_eternal ? "" : fmt::format(color_tense, "{} ", TENSE::Repr[sentence.stamp->tense()]);
 
-        return fmt::format("{}{} {}{} {}{}", str_term, str_punct, str_stamp, str_truth);
+        return fmt::format("{}{} {}{}", str_term, str_punct, str_stamp, str_truth);
     }
     else
     {
-- 
2.43.0


From 4bd09a9b4db2d73f016175f6c6bfd7995168daf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:28 +0000
Subject: [PATCH 17/45] fix: do not read the name of an atom as a format string

---
 Interpreter/src/Interpreter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index e3f4257..b68443a 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -68,9 +68,9 @@ string Interpreter::interpret(Term &term, bool colored)
         if (term.type == TermType::ATOM && colored)
         {
             if (!term.is_operation)
-                return fmt::format(color_term, this->get(key));
+                return fmt::format(color_term, "{}", this->get(key));
             else
-                return fmt::format(color_operation, this->get(key));
+                return fmt::format(color_operation, "{}", this->get(key));
         }
         return this->get(key);
     }
-- 
2.43.0


From b246e6efa241c391ac8a45f18f1ad884051696ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:28 +0000
Subject: [PATCH 18/45] fix: print a negative interval as the parser reads it

---
 Interpreter/src/Interpreter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index b68443a..1902ac3 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -56,9 +56,9 @@ string Interpreter::interpret(Term &term, bool colored)
         {
             auto &interval = (INTERVAL::Interval &)term;
             if (colored)
-                return fmt::format(color_number, fmt::format("{:+d}", interval.interval));
+                return fmt::format(color_number, fmt::format("+{}", interval.interval));
             else
-                return fmt::format("{:+d}", interval.interval);
+                return fmt::format("+{}", interval.interval);
         }
     }
 
-- 
2.43.0


From e1b14dc23da86d6ab6e79b2c3b19bd3291feecd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:28 +0000
Subject: [PATCH 19/45] fix: print an operation without arguments without a
 dangling comma

---
 Interpreter/src/Interpreter.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index 1902ac3..7671f35 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -142,13 +142,17 @@ string Interpreter::interpret(Term &term, bool colored)
             auto &cmpd = (Compound &)*stat.subject;
             if (colored)
             {
-                ss << fmt::format(color_parenthesis, "(") << str_op << fmt::format(color_seperator, ", ");
+                ss << fmt::format(color_parenthesis, "(") << str_op;
+                if (cmpd.components().begin() != cmpd.components().end())
+                    ss << fmt::format(color_seperator, ", ");
                 append_strs(ss, cmpd.components());
                 ss << fmt::format(color_parenthesis, ")");
             }
             else
             {
-                ss << "(" << str_op << ", ";
+                ss << "(" << str_op;
+                if (cmpd.components().begin() != cmpd.components().end())
+                    ss << ", ";
                 append_strs(ss, cmpd.components());
                 ss << ")";
             }
-- 
2.43.0


From 796750750f977be97a78b4ac6ba27304f118b2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:28 +0000
Subject: [PATCH 20/45] fix: print the truth of any judgement or goal,
 whichever way the sentence was made

---
 Interpreter/src/Interpreter.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index 7671f35..412ae3d 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -259,14 +259,14 @@ string Interpreter::interpret(Sentence &sentence, bool colored)
     string str_punct;
     if (colored)
     {
-        if (sentence.is_judgement())
+        if (sentence.is_judgement() && sentence.truth != nullptr)
         {
-            const auto &truth = *((SENTENCE::Judgement &)sentence).truth;
+            const auto &truth = *sentence.truth;
             str_truth = fmt::format("{0}{1}{3}{2}{0}", fmt::format(color_percent, "%"), fmt::format(color_number, "{:.3f}", truth.f), fmt::format(color_number, "{:.3f}", truth.c), fmt::format(color_percent, ";"));
         }
-        else if (sentence.is_goal())
+        else if (sentence.is_goal() && sentence.truth != nullptr)
         {
-            auto &truth = *((SENTENCE::Goal &)sentence).desire;
+            const auto &truth = *sentence.truth;
             str_truth = fmt::format("{0}{1}{3}{2}{0}", fmt::format(color_percent, "%"), fmt::format(color_number, "{:.3f}", truth.f), fmt::format(color_number, "{:.3f}", truth.c), fmt::format(color_percent, ";"));
         }
         str_punct = fmt::format(color_punct, SENTENCE::PUNCTUATION::Repr[(int)(sentence.punct)]);
@@ -276,14 +276,14 @@ string Interpreter::interpret(Sentence &sentence, bool colored)
     }
     else
     {
-        if (sentence.is_judgement())
+        if (sentence.is_judgement() && sentence.truth != nullptr)
         {
-            auto &truth = *((SENTENCE::Judgement &)sentence).truth;
+            const auto &truth = *sentence.truth;
             str_truth = fmt::format("%{:.3f};{:.3f}%", truth.f, truth.c);
         }
-        else if (sentence.is_goal())
+        else if (sentence.is_goal() && sentence.truth != nullptr)
         {
-            auto &truth = *((SENTENCE::Goal &)sentence).desire;
+            const auto &truth = *sentence.truth;
             str_truth = fmt::format("%{:.3f};{:.3f}%", truth.f, truth.c);
         }
         str_punct = SENTENCE::PUNCTUATION::Repr[(int)(sentence.punct)];
-- 
2.43.0


From 8de4c7e3e79c0dd12f96d34715da02141ed38676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:17 +0000
Subject: [PATCH 21/45] fix: bind the Python name of the extensional difference
 to that connector

---
 Narsese/src/Connector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/src/Connector.cpp b/Narsese/src/Connector.cpp
index 6ce8f9f..52a2d97 100755
--- a/Narsese/src/Connector.cpp
+++ b/Narsese/src/Connector.cpp
@@ -15,7 +15,7 @@ namespace CONNECTOR
             .value("SequentialEvents", CONNECTOR::Connector::SequentialEvents, "&/")
             .value("IntensionalIntersection", CONNECTOR::Connector::IntensionalIntersection, "|")
             .value("ExtensionalIntersection", CONNECTOR::Connector::ExtensionalIntersection, "&")
-            .value("ExtensionalDifference", CONNECTOR::Connector::ParallelEvents, "-")
+            .value("ExtensionalDifference", CONNECTOR::Connector::ExtensionalDifference, "-")
             .value("IntensionalDifference", CONNECTOR::Connector::IntensionalDifference, "~")
             .value("Negation", CONNECTOR::Connector::Negation, "--")
             .value("IntensionalSet", CONNECTOR::Connector::IntensionalSet, "[")
-- 
2.43.0


From 60cbbeea6d708323d04cde9afbcbae9f42e257c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:17 +0000
Subject: [PATCH 22/45] fix: raise RuntimeError from Python's parse for a
 sentence that is not accepted

---
 Narsese/Parser/NarseseParser.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Narsese/Parser/NarseseParser.cpp b/Narsese/Parser/NarseseParser.cpp
index 0a64b0a..dafa030 100644
--- a/Narsese/Parser/NarseseParser.cpp
+++ b/Narsese/Parser/NarseseParser.cpp
@@ -1004,13 +1004,11 @@ void NARSESEPARSER::pybind_parse(py::module &m)
 			catch (std::exception &e)
 			{
 				// std::cout << e.what() << std::endl;
-				PyErr_SetString(PyExc_RuntimeError, e.what());
-				return py::none();
+				throw std::runtime_error(e.what()); // RuntimeError in Python
 			}
 			catch (...)
 			{
-				PyErr_SetString(PyExc_RuntimeError, "Unknown error occurred.");
-				return pybind11::none();
+				throw std::runtime_error("Unknown error occurred.");
 			}
 		},
 		py::arg("line"));
-- 
2.43.0


From 43504953646a3f9b8804c27d9d33b565cbc7731d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:17 +0000
Subject: [PATCH 23/45] fix: give __repr__ its default argument in Python

---
 Narsese/src/Compound.cpp  | 2 +-
 Narsese/src/Sentence.cpp  | 2 +-
 Narsese/src/Statement.cpp | 2 +-
 Narsese/src/Task.cpp      | 2 +-
 Narsese/src/Term.cpp      | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/Narsese/src/Compound.cpp b/Narsese/src/Compound.cpp
index a99f6ff..c2b6e1c 100755
--- a/Narsese/src/Compound.cpp
+++ b/Narsese/src/Compound.cpp
@@ -346,5 +346,5 @@ void COMPOUND::pybind_compound(py::module &m)
                 if (interpreter == nullptr)
                     interpreter = (void *)&INTERPRETER::interpreter;
                 return self.__repr__(interpreter);
-            });
+            }, py::arg("interpreter") = (void *)nullptr);
 }
diff --git a/Narsese/src/Sentence.cpp b/Narsese/src/Sentence.cpp
index 49b06d9..26cf6c3 100755
--- a/Narsese/src/Sentence.cpp
+++ b/Narsese/src/Sentence.cpp
@@ -40,6 +40,6 @@ namespace SENTENCE
                 if (interpreter == nullptr)
                     interpreter = (void *)&INTERPRETER::interpreter;
                 return self.__repr__(interpreter);
-            });
+            }, py::arg("interpreter") = (void *)nullptr);
     }
 }
\ No newline at end of file
diff --git a/Narsese/src/Statement.cpp b/Narsese/src/Statement.cpp
index 3f40542..ec5d3a3 100755
--- a/Narsese/src/Statement.cpp
+++ b/Narsese/src/Statement.cpp
@@ -25,6 +25,6 @@ namespace STATEMENT
                 if (interpreter == nullptr)
                     interpreter = (void *)&INTERPRETER::interpreter;
                 return self.__repr__(interpreter);
-            });
+            }, py::arg("interpreter") = (void *)nullptr);
     }
 }
diff --git a/Narsese/src/Task.cpp b/Narsese/src/Task.cpp
index 767b102..eb37d56 100755
--- a/Narsese/src/Task.cpp
+++ b/Narsese/src/Task.cpp
@@ -25,7 +25,7 @@ namespace TASK
                 if (interpreter == nullptr)
                     interpreter = (void *)&INTERPRETER::interpreter;
                 return self.__repr__(interpreter);
-            });
+            }, py::arg("interpreter") = (void *)nullptr);
     }
 
 }
diff --git a/Narsese/src/Term.cpp b/Narsese/src/Term.cpp
index c19e2fc..e15a318 100755
--- a/Narsese/src/Term.cpp
+++ b/Narsese/src/Term.cpp
@@ -132,7 +132,7 @@ namespace TERM
                 if (interpreter == nullptr)
                     interpreter = (void *)&INTERPRETER::interpreter;
                 return self.__repr__(interpreter);
-            });
+            }, py::arg("interpreter") = (void *)nullptr);
     }
 
     void pybind_terms(py::module &m)
-- 
2.43.0


From 812ff36a0b94e460c8b7503c5877eb3b609a00c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:16 +0000
Subject: [PATCH 24/45] fix: keep components that cannot be merged whole when
 normalising a compound

---
 Narsese/src/Compound.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Narsese/src/Compound.cpp b/Narsese/src/Compound.cpp
index c2b6e1c..cc41d5f 100755
--- a/Narsese/src/Compound.cpp
+++ b/Narsese/src/Compound.cpp
@@ -185,10 +185,11 @@ std::tuple<Connector, pTerms> prepocess_terms(Compound &self, Connector connecto
 
             /* Now, `connector` is not `None`. */
             auto terms_merged = _merge_compounds(connector_parent, connector, compounds);
-            if (terms_merged == nullptr)
+            if (terms_merged == nullptr || terms_merged->size() == 0)
             {
+                /* The compounds cannot be merged (or they have nothing in common), so each of them is a component as a whole. */
                 for (auto &compound : compounds)
-                    terms_norm.push_back({connector, compound->terms});
+                    terms_norm.push_back({Connector::None, Terms::create(std::vector{compound}, true)});
                 continue;
             }
 
@@ -251,8 +252,7 @@ std::tuple<Connector, pTerms> prepocess_terms(Compound &self, Connector connecto
                 if `connector_parent` is `|` and `connector` is `{`, the return `connector`;
                 if `connector_parent` is `&` and `connector` is `&`, it makes no difference returning either `connector` or `connector_parent`;
             */
-            if ((_connector == Connector::ExtensionalSet && connector_parent == Connector::IntensionalIntersection) ||
-                (_connector == Connector::IntensionalSet && connector_parent == Connector::ExtensionalIntersection))
+            if (_connector == Connector::ExtensionalSet || _connector == Connector::IntensionalSet)
             {
                 return {_connector, Terms::create(*_terms, true)};
             }
-- 
2.43.0


From 25ad00b64a3a6b8dabca4dbb03d0d1df93dc3b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:18 +0000
Subject: [PATCH 25/45] fix: terminate the lexeme of input that cannot be
 converted

---
 Narsese/Parser/narsese.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Narsese/Parser/narsese.cpp b/Narsese/Parser/narsese.cpp
index c95be50..3b556e6 100644
--- a/Narsese/Parser/narsese.cpp
+++ b/Narsese/Parser/narsese.cpp
@@ -24,6 +24,9 @@ UNICC_SCHAR* _parser::get_lexem( void )
 
 	size = wcstombs( (char*)NULL, this->buf, 0 );
 
+	if( size == (size_t)-1 ) /* the input cannot be converted */
+		size = 0;
+
 	free( this->lexem );
 
 	if( !( this->lexem = (UNICC_SCHAR*)malloc(
@@ -33,7 +36,8 @@ UNICC_SCHAR* _parser::get_lexem( void )
 		return NULL;
 	}
 
-	wcstombs( this->lexem, this->buf, size + 1 );
+	wcstombs( this->lexem, this->buf, size );
+	this->lexem[ size ] = '\0';
 #endif
 
 #if UNICC_DEBUG	> 2
-- 
2.43.0


From d26a66f26f9bcf08cf279e250bda92e7a21641b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:33 +0000
Subject: [PATCH 26/45] fix: find the transformation of a node by its name, not
 by the address of the name

---
 Narsese/Parser/Parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/Parser/Parser.h b/Narsese/Parser/Parser.h
index 5ba51b6..fa3117b 100644
--- a/Narsese/Parser/Parser.h
+++ b/Narsese/Parser/Parser.h
@@ -25,7 +25,7 @@ namespace PARSER
     {
     public:
         /* function mappings from name to pointer */
-        std::unordered_map<const char *, long> _map;
+        std::unordered_map<std::string, long> _map;
 
         /* variable mappings from name to index */
         std::unordered_map<std::string, long> names_ivar;
-- 
2.43.0


From 42dd1fdb767b4e00f301484f112a6c768fc8cb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:33 +0000
Subject: [PATCH 27/45] fix: free a term of any kind as what it is

---
 Narsese/include/Term.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Narsese/include/Term.h b/Narsese/include/Term.h
index 336ee18..895bccf 100755
--- a/Narsese/include/Term.h
+++ b/Narsese/include/Term.h
@@ -124,6 +124,7 @@ namespace TERM
         // string word;
         Term() : hash_value(Hash{}(std::initializer_list<size_t>{(size_t)TermType::ATOM, (size_t)this})), is_hashed(true){};
         Term(const TermType _type) : type(_type) {}
+        virtual ~Term() = default; // terms of every kind are freed as a `Term`
         // ~Term()
         // {
         //     std::cout << (size_t)this << " Term freed" << std::endl;
@@ -502,4 +503,4 @@ namespace TERM
 } // namespace Term
 // #include "Term.inl"
 
-#endif // _TERM_H
\ No newline at end of file
+#endif // _TERM_H
\ No newline at end of file
-- 
2.43.0


From 37e07d022c716a95d80e79edbb7f2569d7f66b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:33 +0000
Subject: [PATCH 28/45] fix: pass an empty list of arguments for a node without
 children

---
 Narsese/Parser/Parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Narsese/Parser/Parser.cpp b/Narsese/Parser/Parser.cpp
index c39f589..bea416d 100644
--- a/Narsese/Parser/Parser.cpp
+++ b/Narsese/Parser/Parser.cpp
@@ -102,6 +102,8 @@ Args *Parser::transform(_ast *node)
         else
         {
             auto ret_args = this->transform(node->child);
+            if (ret_args == nullptr)
+                ret_args = new Args; // no children, so no arguments
             auto fptr = this->get_function(name);
             if (fptr != 0)
             {
-- 
2.43.0


From 06eba2cd3d3b5b54981d0c74edead865709c7656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:33 +0000
Subject: [PATCH 29/45] fix: free a sentence of any kind as what it is

---
 Narsese/include/Sentence.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Narsese/include/Sentence.h b/Narsese/include/Sentence.h
index 7e362cf..8d97938 100755
--- a/Narsese/include/Sentence.h
+++ b/Narsese/include/Sentence.h
@@ -130,6 +130,8 @@ namespace SENTENCE
                 stamp = pStamp(new Stamp(true));
         }
 
+        virtual ~Sentence() = default; // sentences of every kind are freed as a `Sentence`
+
         inline bool is_judgement() { return punct == PUNCTUATION::Judgement; }
         inline bool is_question() { return punct == PUNCTUATION::Question; }
         inline bool is_goal() { return punct == PUNCTUATION::Goal; }
-- 
2.43.0


From 3e7d7d59add3cd615fa4424d14524c7689df1f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:12 +0000
Subject: [PATCH 30/45] fix: do not read a copula as a format string

---
 Interpreter/src/Interpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index 412ae3d..a8c0eb9 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -127,7 +127,7 @@ string Interpreter::interpret(Term &term, bool colored)
                 auto str1 = fmt::format(color_angle, "<");
                 // auto str2 = fmt::format(color_term, str_subject);
                 auto str2 = fmt::format(fmt::format(color_term, "{{}}"), str_subject);
-                auto str3 = fmt::format(color_copula, str_copula);
+                auto str3 = fmt::format(color_copula, "{}", str_copula);
                 // auto str4 = fmt::format(color_term, str_predicate);
                 auto str4 = fmt::format(fmt::format(color_term, "{{}}"), str_predicate);
                 auto str5 = fmt::format(color_angle, ">");
-- 
2.43.0


From 0b07c204c6ca403d79f05225d3c1108a41e05f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:47 +0000
Subject: [PATCH 31/45] fix: release the term a handle held when another is
 assigned to it

---
 Narsese/include/Term.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Narsese/include/Term.h b/Narsese/include/Term.h
index 895bccf..0373d2f 100755
--- a/Narsese/include/Term.h
+++ b/Narsese/include/Term.h
@@ -58,6 +58,15 @@ namespace TERM
         pTerm() : std::shared_ptr<Term>::shared_ptr() {}
         pTerm(Term *term, void *interpreter = nullptr) : std::shared_ptr<Term>(term), _interpreter(interpreter) {}
         // pTerm() : std::shared_ptr<Term>() {}
+        pTerm(const pTerm &other) = default;
+        pTerm &operator=(const pTerm &other)
+        {
+            // what this handle held before is released by the destructor of `old`, which knows about the interpreter
+            pTerm old(other);
+            std::shared_ptr<Term>::swap(old);
+            std::swap(this->_interpreter, old._interpreter);
+            return *this;
+        }
 
         ~pTerm();
 
-- 
2.43.0


From 61aae7e44a355bb414538a1c28b360192745a635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:41 +0000
Subject: [PATCH 32/45] fix: refuse to combine an ordered container of terms
 also when it comes first

---
 Narsese/include/Term.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Narsese/include/Term.h b/Narsese/include/Term.h
index 0373d2f..9cb04ea 100755
--- a/Narsese/include/Term.h
+++ b/Narsese/include/Term.h
@@ -386,6 +386,8 @@ namespace TERM
                 throw std::runtime_error("Empty input.");
 
             auto it = terms_all.begin();
+            if (!(*it)->_is_commutative)
+                throw std::runtime_error("Each `Terms` should be commutative.");
             std::set<pTerm, compare> intersection((*it)->terms_unordered);
             for (++it; it != terms_all.end(); ++it)
             {
@@ -408,6 +410,8 @@ namespace TERM
                 throw std::runtime_error("Empty input.");
 
             auto it = terms_all.begin();
+            if (!(*it)->_is_commutative)
+                throw std::runtime_error("Each `Terms` should be commutative.");
             std::set<pTerm, compare> union_((*it)->terms_unordered);
             for (++it; it != terms_all.end(); ++it)
             {
@@ -430,6 +434,8 @@ namespace TERM
                 throw std::runtime_error("Empty input.");
 
             auto it = terms_all.begin();
+            if (!(*it)->_is_commutative)
+                throw std::runtime_error("Each `Terms` should be commutative.");
             std::set<pTerm, compare> difference((*it)->terms_unordered);
             for (++it; it != terms_all.end(); ++it)
             {
-- 
2.43.0


From 93388919ca2a8fb0972b6e44ab41595d297dde96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:02 +0000
Subject: [PATCH 33/45] fix: tell terms apart by their structure when their
 hash values happen to be equal

---
 Narsese/include/Term.inl | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Narsese/include/Term.inl b/Narsese/include/Term.inl
index 5f9bda4..0e42081 100644
--- a/Narsese/include/Term.inl
+++ b/Narsese/include/Term.inl
@@ -75,6 +75,9 @@ namespace TERM
                 else if (this->is_ivar && other.is_ivar)
                     return *(this->_vars_independent->indices[0]) == *(other._vars_independent->indices[0]);
             }
+            // atoms of different kinds may have the same hash value
+            if (this->is_var != other.is_var || this->is_interval != other.is_interval)
+                return false;
             return hash(*this) == hash(other);
         }
         else if (this->is_statement())
@@ -121,9 +124,8 @@ namespace TERM
         if (hash(*this) != hash(other))
             return hash(*this) < hash(other);
 
-        if (!this->has_var && !other.has_var)
-            return hash(*this) < hash(other);
-        else if (!this->has_var && other.has_var)
+        // different terms may have the same hash value
+        if (!this->has_var && other.has_var)
             return false;
         else if (this->has_var && !other.has_var)
             return true;
@@ -142,6 +144,8 @@ namespace TERM
                 else if (this->is_ivar && other.is_ivar)
                     return *(this->_vars_independent->indices[0]) < *(other._vars_independent->indices[0]);
             }
+            if (this->is_interval != other.is_interval)
+                return other.is_interval;
             return hash(*this) < hash(other);
         }
         else if (this->is_statement())
-- 
2.43.0


From 5f3b5e9e28ce3e6ea29a3263c053f9a6bafd846b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:02 +0000
Subject: [PATCH 34/45] fix: key the dictionary of terms by the whole hash
 value

---
 Interpreter/include/Interpreter.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Interpreter/include/Interpreter.hpp b/Interpreter/include/Interpreter.hpp
index d179b37..4f23977 100644
--- a/Interpreter/include/Interpreter.hpp
+++ b/Interpreter/include/Interpreter.hpp
@@ -38,7 +38,7 @@ namespace INTERPRETER
         map<string, size_t> dictionary_inv;
         map<size_t, int> count;
 
-        inline void put(int key, string name, void *object)
+        inline void put(size_t key, string name, void *object)
         {
             dictionary[key] = name;
             objects[key] = (pTerm *)object;
@@ -46,12 +46,12 @@ namespace INTERPRETER
             count[key] = (check_count(key) == 0) ? 1 : (count[key] + 1);
         }
 
-        inline string &get(int key) { return dictionary[key]; }
-        inline pTerm *get_object(int key) { return objects[key]; }
-        inline int get_by_name(string &name) { return dictionary_inv[name]; }
-        inline bool check(int key) { return dictionary.count(key) == 1; }
+        inline string &get(size_t key) { return dictionary[key]; }
+        inline pTerm *get_object(size_t key) { return objects[key]; }
+        inline size_t get_by_name(string &name) { return dictionary_inv[name]; }
+        inline bool check(size_t key) { return dictionary.count(key) == 1; }
         inline bool check_by_name(string &name) { return dictionary_inv.count(name) == 1; }
-        inline int check_count(int key)
+        inline int check_count(size_t key)
         {
             if (count.count(key) == 0)
             {
@@ -68,7 +68,7 @@ namespace INTERPRETER
             }
         }
 
-        inline bool remove(int key)
+        inline bool remove(size_t key)
         {
             if (check(key))
             {
@@ -118,7 +118,7 @@ namespace INTERPRETER
             }
         }
 
-        inline bool erase(int key)
+        inline bool erase(size_t key)
         {
             if (check_count(key) > 0)
             {
-- 
2.43.0


From a6e545096ab52de063fd23d574ae92e3bdf8e78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:02 +0000
Subject: [PATCH 35/45] fix: hash an interval anew when its value changes

---
 Narsese/include/Interval.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Narsese/include/Interval.h b/Narsese/include/Interval.h
index 3dd0cc7..551af32 100755
--- a/Narsese/include/Interval.h
+++ b/Narsese/include/Interval.h
@@ -40,6 +40,7 @@ namespace INTERVAL
         Interval &operator+=(const Interval &other)
         {
             interval += other.interval;
+            this->hash_value = Hash{}(std::initializer_list<signed int>{TermType::INTERVAL, this->interval});
             return *this;
         }
     };
-- 
2.43.0


From e53e89c8475a6bebca2ccc7fe242305b22c7da19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:33 +0000
Subject: [PATCH 36/45] fix: keep copies of an evidential base apart, and hash
 a base anew when evidence is merged into it

---
 Narsese/include/Evidence.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Narsese/include/Evidence.h b/Narsese/include/Evidence.h
index b1d532c..4dc0187 100755
--- a/Narsese/include/Evidence.h
+++ b/Narsese/include/Evidence.h
@@ -42,6 +42,7 @@ namespace EVIDENCE
 
         static void interleave(Base &base, const Base &base1, const Base &base2)
         {
+            base.detach();
             auto base_length = std::min(base1.size() + base2.size(), (size_t)CONFIG::maximum_evidential_base_length);
             size_t i = 0;
             auto it1 = base1._set->begin();
@@ -72,11 +73,19 @@ namespace EVIDENCE
 
         auto add(size_t id_evidence)
         {
+            this->detach();
             this->_set->insert(id_evidence);
-            this->_is_hashed = false;
             return this;
         }
 
+        // Copies share a set until one of them is changed.
+        void detach()
+        {
+            if (this->_set.use_count() > 1)
+                this->_set = shared_ptr<set<size_t>>(new set<size_t>(*this->_set));
+            this->_is_hashed = false;
+        }
+
         bool is_overlaped(Base &base)
         {
             std::set<int> intersection;
-- 
2.43.0


From e2b750e0b374b53ee635849f0e5712b3010463b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:33 +0000
Subject: [PATCH 37/45] fix: release every term of the dictionary when it is
 reset

---
 Interpreter/include/Interpreter.hpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/Interpreter/include/Interpreter.hpp b/Interpreter/include/Interpreter.hpp
index 4f23977..43bbe48 100644
--- a/Interpreter/include/Interpreter.hpp
+++ b/Interpreter/include/Interpreter.hpp
@@ -149,19 +149,14 @@ namespace INTERPRETER
 
         void reset()
         {
-
-            for (auto pair : objects)
-            {
-                auto ptr = pair.second;
-                if ((*ptr).use_count() == 1)
-                {
-                    delete ptr;
-                }
-            }
-            objects.clear();
+            // forget the names first: a term that is freed removes its name otherwise
+            map<size_t, pTerm *> released;
+            released.swap(objects);
             dictionary.clear();
             dictionary_inv.clear();
             count.clear();
+            for (auto pair : released)
+                delete pair.second;
         }
 
         ~Interpreter()
-- 
2.43.0


From aae2063c60a77c952387f1b8e5e358a04a7c789d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:11 +0000
Subject: [PATCH 38/45] fix: do not step before the first component of a
 compound without any when printing it

---
 Interpreter/src/Interpreter.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index a8c0eb9..69b2e85 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -165,7 +165,6 @@ string Interpreter::interpret(Term &term, bool colored)
         auto &cmpd = (Compound &)term;
         auto &components = cmpd.components();
         auto str_conn = CONNECTOR::Repr[(int)cmpd.connector];
-        auto last_it = components.end() - 1;
 
         if (colored)
         {
-- 
2.43.0


From eb88930b352087fd6d051cb2e33935ebe7905ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:09 +0000
Subject: [PATCH 39/45] fix: the postfix increment of a component iterator
 gives the position before it

---
 Narsese/include/Term.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Narsese/include/Term.h b/Narsese/include/Term.h
index 9cb04ea..230b8ac 100755
--- a/Narsese/include/Term.h
+++ b/Narsese/include/Term.h
@@ -260,9 +260,11 @@ namespace TERM
             return *this;
         }
 
-        Iterator &operator++(int)
+        Iterator operator++(int)
         {
-            return ++(*this);
+            Iterator old(*this);
+            ++(*this);
+            return old;
         }
 
         bool operator!=(const Iterator &other) const
-- 
2.43.0


From 84c281164540ed7d180d01e1fc042f867c20fd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:09 +0000
Subject: [PATCH 40/45] fix: an assigned component iterator has a position of
 its own

---
 Narsese/include/Term.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Narsese/include/Term.h b/Narsese/include/Term.h
index 230b8ac..f7b092d 100755
--- a/Narsese/include/Term.h
+++ b/Narsese/include/Term.h
@@ -221,9 +221,8 @@ namespace TERM
         using iterator_category = std::input_iterator_tag;
 
     public:
-        Iterator(const Iterator &iterator)
+        Iterator(const Iterator &iterator) : _is_commutative(iterator._is_commutative)
         {
-            *this = iterator;
             if (this->_is_commutative)
                 it_ = new auto(*(std::set<pTerm>::iterator *)(iterator.it_));
             else
@@ -232,6 +231,14 @@ namespace TERM
         Iterator(std::vector<pTerm>::const_iterator it) : it_((void *)new auto(it)), _is_commutative(false) {}
         Iterator(std::set<pTerm>::iterator it) : it_((void *)new auto(it)), _is_commutative(true) {}
 
+        Iterator &operator=(const Iterator &iterator)
+        {
+            Iterator copy(iterator);
+            std::swap(this->_is_commutative, copy._is_commutative);
+            std::swap(this->it_, copy.it_);
+            return *this;
+        }
+
         ~Iterator()
         {
             if (it_ == nullptr)
-- 
2.43.0


From 3732abdd8b3cbd8e3ee5471ba4def527f1103d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:08 +0000
Subject: [PATCH 41/45] fix: a commutative compound can be made without
 components

---
 Narsese/src/Compound.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Narsese/src/Compound.cpp b/Narsese/src/Compound.cpp
index cc41d5f..0d66dbb 100755
--- a/Narsese/src/Compound.cpp
+++ b/Narsese/src/Compound.cpp
@@ -154,6 +154,8 @@ std::tuple<Connector, pTerms> prepocess_terms(Compound &self, Connector connecto
             else
                 terms->push_back(term);
         }
+        if (terms->size() == 0)
+            return {connector_parent, terms}; // a compound without components has nothing to merge
 
         for (auto term : *terms)
         {
-- 
2.43.0


From 0fa4d4a7a48d693092a921c7523e18233335320b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:08 +0000
Subject: [PATCH 42/45] fix: quality_from_truth of None is a TypeError in
 Python, not a crash

---
 Narsese/src/Budget.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/src/Budget.cpp b/Narsese/src/Budget.cpp
index 2913b3a..1cb66e9 100755
--- a/Narsese/src/Budget.cpp
+++ b/Narsese/src/Budget.cpp
@@ -13,7 +13,7 @@ namespace BUDGET
             .def_readwrite("p", &Budget::priority)
             .def_readwrite("d", &Budget::durability)
             .def_readwrite("q", &Budget::quality)
-            .def_static("quality_from_truth", [](TRUTH::pTruth t) { return Budget::quality_from_truth(*t); })
+            .def_static("quality_from_truth", [](TRUTH::Truth &t) { return Budget::quality_from_truth(t); })
             .def("__repr__", [](Budget& self)
                  { return fmt::format("<Budget: ${:.2f};{:.2f};{:.2f}$>", self.priority, self.durability, self.quality); });
     }
-- 
2.43.0


From 86a58ac0bd70156cfbe5e85b6733166851cbc426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:08 +0000
Subject: [PATCH 43/45] fix: the components handed to Python outlive the
 compound they came from

---
 Narsese/src/Term.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/src/Term.cpp b/Narsese/src/Term.cpp
index e15a318..d05d922 100755
--- a/Narsese/src/Term.cpp
+++ b/Narsese/src/Term.cpp
@@ -113,7 +113,7 @@ namespace TERM
                     else if (self->is_statement())
                         return py::iter(py::cast(std::vector<pTerm>{self->subject, self->predicate}));
                     else if (self->is_compound())
-                        return py::make_iterator(self->terms->begin(), self->terms->end());
+                        return py::iter(py::cast(std::vector<pTerm>(self->terms->begin(), self->terms->end())));
                     else
                     {
                         PyErr_SetString(PyExc_TypeError, fmt::format("In file <{}> line <{}>: Invalid TermType", __FILE__, __LINE__).c_str());
-- 
2.43.0


From 74bafc7fd5546a5a3ab02d19794ba1a2ea258eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:10 +0000
Subject: [PATCH 44/45] fix: order deeply nested terms without comparing every
 level twice

Ordering two equal terms compared each pair of components in both
directions, so the time doubled with every level of nesting: parsing a
set that states a term of thirty levels twice did not come to an end.
---
 Narsese/include/Term.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Narsese/include/Term.inl b/Narsese/include/Term.inl
index 0e42081..e9afe92 100644
--- a/Narsese/include/Term.inl
+++ b/Narsese/include/Term.inl
@@ -155,11 +155,11 @@ namespace TERM
 
             if (*(term1.subject) < *(term2.subject))
                 return true;
-            if (*(term2.subject) < *(term1.subject))
+            if (!(*(term1.subject) == *(term2.subject)))
                 return false;
             if (*(term1.predicate) < *(term2.predicate))
                 return true;
-            if (*(term2.predicate) < *(term1.predicate))
+            if (!(*(term1.predicate) == *(term2.predicate)))
                 return false;
             return term1.copula < term2.copula;
         }
@@ -177,7 +177,7 @@ namespace TERM
                 auto &term2 = **it2;
                 if ((term1 < term2))
                     return true;
-                if ((term2 < term1))
+                if (!(term1 == term2))
                     return false;
             }
             return false;
-- 
2.43.0


From e849f48586fa9f4edab811bade24e7355b3e50ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:58 +0000
Subject: [PATCH 45/45] fix: accept the names of other scripts that the grammar
 accepts

The bytes of non-ASCII characters were fetched as negative characters, which
no token contains, and were not converted back in the "C" locale.
---
 Narsese/Parser/narsese.cpp | 10 +++++-----
 Narsese/Parser/narsese.h   |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/Narsese/Parser/narsese.cpp b/Narsese/Parser/narsese.cpp
index 3b556e6..87b8ff1 100644
--- a/Narsese/Parser/narsese.cpp
+++ b/Narsese/Parser/narsese.cpp
@@ -22,10 +22,9 @@ UNICC_SCHAR* _parser::get_lexem( void )
 #else
 	size_t		size;
 
-	size = wcstombs( (char*)NULL, this->buf, 0 );
-
-	if( size == (size_t)-1 ) /* the input cannot be converted */
-		size = 0;
+	/* each character is one byte of the input */
+	for( size = 0; this->buf + size < this->bufend && this->buf[ size ]; )
+		size++;
 
 	free( this->lexem );
 
@@ -36,7 +35,8 @@ UNICC_SCHAR* _parser::get_lexem( void )
 		return NULL;
 	}
 
-	wcstombs( this->lexem, this->buf, size );
+	for( size_t i = 0; i < size; i++ )
+		this->lexem[ i ] = (UNICC_SCHAR)this->buf[ i ];
 	this->lexem[ size ] = '\0';
 #endif
 
diff --git a/Narsese/Parser/narsese.h b/Narsese/Parser/narsese.h
index eb06ecf..675c7e2 100644
--- a/Narsese/Parser/narsese.h
+++ b/Narsese/Parser/narsese.h
@@ -206,7 +206,7 @@ public:
 		{
 			return EOF;
 		}
-		auto ch = *(buffer.c_str() + pointer);
+		auto ch = (unsigned char)*(buffer.c_str() + pointer); // the bytes of non-ASCII characters are not negative
 		pointer ++;
 		return ch;
 	}
-- 
2.43.0

