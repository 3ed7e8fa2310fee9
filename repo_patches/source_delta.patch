From a35747730010ee4b11d51bbc024c588e59e4aceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:43 +0000
Subject: [PATCH 01/64] fix: forget an element's cached matrices when
 calculating them fails

An exception (failed allocation, missing parameter, unreadable data) while
calculating left the new cache key with old or partial results, which the next
propagation of the same beam then used.
---
 src/flame/moment.h    | 15 +++++++++++++++
 src/flame/rf_cavity.h |  2 ++
 src/moment.cpp        |  4 ++++
 3 files changed, 21 insertions(+)

diff --git a/src/flame/moment.h b/src/flame/moment.h
index b4c1e91..041525d 100644
--- a/src/flame/moment.h
+++ b/src/flame/moment.h
@@ -193,6 +193,21 @@ protected:
     // scratch space to avoid temp. allocation in advance()
     // An Element can't be shared between multiple threads
     state_t::matrix_t scratch;
+
+    //! Forget the cached results if they are not completely calculated
+    //! (exception thrown) so that check_cache() and check_backward() won't use them.
+    struct cache_guard {
+        MomentElementBase& elem;
+        bool done;
+        cache_guard(MomentElementBase& e) :elem(e), done(false) {}
+        ~cache_guard() {
+            if(!done) {
+                elem.last_real_in.clear();
+                elem.last_real_out.clear();
+            }
+        }
+        void complete() { done = true; }
+    };
 };
 
 #endif // FLAME_MOMENT_H
diff --git a/src/flame/rf_cavity.h b/src/flame/rf_cavity.h
index 4728129..327ad57 100644
--- a/src/flame/rf_cavity.h
+++ b/src/flame/rf_cavity.h
@@ -165,6 +165,7 @@ struct ElementRFCavity : public MomentElementBase
         ST.recalc();
 
         if(!check_cache(ST) && !ST.retreat) {
+            cache_guard guard(*this);
             last_ref_in = ST.ref;
             last_real_in = ST.real;
             resize_cache(ST);
@@ -194,6 +195,7 @@ struct ElementRFCavity : public MomentElementBase
 
             last_ref_out = ST.ref;
             last_real_out = ST.real;
+            guard.complete();
         } else if(ST.retreat){
             if (!check_backward(ST))
                 throw std::runtime_error(SB()<<
diff --git a/src/moment.cpp b/src/moment.cpp
index 6a073e3..02f5cd2 100644
--- a/src/moment.cpp
+++ b/src/moment.cpp
@@ -665,6 +665,7 @@ void MomentElementBase::advance(StateBase& s)
 
     if(!check_cache(ST)){
         // need to re-calculate energy dependent terms
+        cache_guard guard(*this);
         last_ref_in = ST.ref;
         last_real_in = ST.real;
         resize_cache(ST);
@@ -685,6 +686,7 @@ void MomentElementBase::advance(StateBase& s)
 
         last_ref_out = ST.ref;
         last_real_out = ST.real;
+        guard.complete();
     } else {
         ST.ref = last_ref_out;
         assert(last_real_out.size()==ST.real.size()); // should be true if check_cache() -> true
@@ -947,6 +949,7 @@ struct ElementSBend : public MomentElementBase
 
         if(!check_cache(ST)) {
             // need to re-calculate energy dependent terms
+            cache_guard guard(*this);
             last_ref_in = ST.ref;
             last_real_in = ST.real;
             resize_cache(ST);
@@ -956,6 +959,7 @@ struct ElementSBend : public MomentElementBase
             ST.recalc();
             last_ref_out = ST.ref;
             last_real_out = ST.real;
+            guard.complete();
         } else {
             ST.ref = last_ref_out;
             assert(last_real_out.size()==ST.real.size()); // should be true if check_cache() -> true
-- 
2.43.0


From c305b9b442dbaa7e663173797dcc4f3e4dc174f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:43 +0000
Subject: [PATCH 02/64] fix: phase advance of a cached element must follow the
 propagation direction

The cached output phases included the advance of the direction in which the
matrix was calculated.  Propagating the same beam in the other direction then
moved the phases the wrong way.
---
 src/moment.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/moment.cpp b/src/moment.cpp
index 02f5cd2..3fbe73d 100644
--- a/src/moment.cpp
+++ b/src/moment.cpp
@@ -674,16 +674,6 @@ void MomentElementBase::advance(StateBase& s)
 
         ST.recalc();
 
-        if(!ST.retreat){
-            ST.ref.phis += ST.ref.SampleIonK*length*MtoMM;
-            for(size_t k=0; k<last_real_in.size(); k++)
-                ST.real[k].phis += ST.real[k].SampleIonK*length*MtoMM;
-        } else {
-            ST.ref.phis -= ST.ref.SampleIonK*length*MtoMM;
-            for(size_t k=0; k<last_real_in.size(); k++)
-                ST.real[k].phis -= ST.real[k].SampleIonK*length*MtoMM;
-        }
-
         last_ref_out = ST.ref;
         last_real_out = ST.real;
         guard.complete();
@@ -695,6 +685,17 @@ void MomentElementBase::advance(StateBase& s)
                   ST.real.begin());
     }
 
+    // cached results are used in both directions, so not included there
+    if(!ST.retreat){
+        ST.ref.phis += ST.ref.SampleIonK*length*MtoMM;
+        for(size_t k=0; k<last_real_in.size(); k++)
+            ST.real[k].phis += ST.real[k].SampleIonK*length*MtoMM;
+    } else {
+        ST.ref.phis -= ST.ref.SampleIonK*length*MtoMM;
+        for(size_t k=0; k<last_real_in.size(); k++)
+            ST.real[k].phis -= ST.real[k].SampleIonK*length*MtoMM;
+    }
+
     if(!ST.retreat){
         // Forward propagation
         ST.pos += length;
-- 
2.43.0


From 4a87d09e4baf8bbe494da791115e44403b49b492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:02 +0000
Subject: [PATCH 03/64] fix: backward propagation through a cavity must not
 change its cached matrices

The misalignment matrices kept for the next forward propagation of the same
beam were overwritten with ones evaluated at the exit energy.
---
 src/flame/rf_cavity.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/flame/rf_cavity.h b/src/flame/rf_cavity.h
index 327ad57..e659a58 100644
--- a/src/flame/rf_cavity.h
+++ b/src/flame/rf_cavity.h
@@ -160,6 +160,8 @@ struct ElementRFCavity : public MomentElementBase
         using namespace boost::numeric::ublas;
 
         double x0[2], x2[2], s0[2];
+        // backward propagation must not disturb the cached misalign and misalign_inv
+        std::vector<value_t> back_misalign, back_misalign_inv;
 
         // IonEk is Es + E_state; the latter is set by user.
         ST.recalc();
@@ -201,12 +203,15 @@ struct ElementRFCavity : public MomentElementBase
                 throw std::runtime_error(SB()<<
                     "Backward propagation error at " << ST.next_elem << ": beam state does not match to the previous propagation.");
 
+            back_misalign = misalign;
+            back_misalign_inv = misalign_inv;
+
             ST.ref.phis -= (last_ref_out.phis - last_ref_in.phis);
             ST.ref.IonEk = last_ref_in.IonEk;
             for(size_t k=0; k<last_real_in.size(); k++) {
                 ST.real[k].phis -= (last_real_out[k].phis - last_real_in[k].phis);
                 ST.real[k].IonEk = last_real_in[k].IonEk;
-                get_misalign(ST, ST.real[k], misalign[k], misalign_inv[k]);
+                get_misalign(ST, ST.real[k], back_misalign[k], back_misalign_inv[k]);
             }
 
             ST.recalc();
@@ -273,8 +278,8 @@ struct ElementRFCavity : public MomentElementBase
             ST.pos -= length;
             value_t invmat = boost::numeric::ublas::identity_matrix<double>(state_t::maxsize);
             for(size_t i=0; i<last_real_in.size(); i++) {
-                scratch = prod(transfer[i], misalign[i]);
-                scratch = prod(misalign_inv[i], scratch);
+                scratch = prod(transfer[i], back_misalign[i]);
+                scratch = prod(back_misalign_inv[i], scratch);
 
                 inverse(invmat, scratch);
 
-- 
2.43.0


From f13ce6c2ce15a089e998a517069b135afc29cb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:19 +0000
Subject: [PATCH 04/64] fix: don't use a variable's name after freeing it when
 its assignment fails

---
 src/glps_parser.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/glps_parser.cpp b/src/glps_parser.cpp
index 549352d..737b203 100644
--- a/src/glps_parser.cpp
+++ b/src/glps_parser.cpp
@@ -387,10 +387,9 @@ void glps_assign(parse_context *ctxt, string_t *name, expr_t*value)
 {
     assert(name);
     assert(value);
+    std::auto_ptr<string_t> SN(name);
+    std::auto_ptr<expr_t> VN(value);
     try{
-        std::auto_ptr<string_t> SN(name);
-        std::auto_ptr<expr_t> VN(value);
-
         bool ok = false;
         parse_var V;
         V.name = name->str;
-- 
2.43.0


From 5699546d5406408c2e7e6674bb8769fffe91bb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:19 +0000
Subject: [PATCH 05/64] fix: release a property's name the way it was allocated
 after a syntax error

---
 src/glps.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glps.y b/src/glps.y
index cdd87c5..cfc58e0 100644
--- a/src/glps.y
+++ b/src/glps.y
@@ -56,7 +56,7 @@ void yyerror (yacc_arg arg, const char* msg)
 %printer { fprintf(yyoutput, "%p", $$); } line_list;
 
 %union { kv_t kv; }
-%destructor { free($$.key); $$.key = NULL;glps_expr_cleanup($$.value); } <kv>
+%destructor { glps_string_cleanup($$.key); $$.key = NULL; glps_expr_cleanup($$.value); } <kv>
 %type <kv> property
 
 %token COMMENT
-- 
2.43.0


From 38f031c70d9f919e304a4b9dc8af5640ea6dca0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:19 +0000
Subject: [PATCH 06/64] fix: name the operator in the error for unsupported
 operand types

---
 src/glps_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glps_parser.cpp b/src/glps_parser.cpp
index 737b203..6ff3df0 100644
--- a/src/glps_parser.cpp
+++ b/src/glps_parser.cpp
@@ -346,7 +346,7 @@ expr_t *glps_add_op(parse_context *ctxt, string_t *name, unsigned N, expr_t **ar
 
         if(!op) {
             std::ostringstream strm;
-            strm << "Operation '" << name <<"'(";
+            strm << "Operation '" << name->str <<"'(";
             for(unsigned i=0; i<N; i++) {
                 if(i>0)
                     strm<<", ";
-- 
2.43.0


From 6546b525b6f74f4805ce932461046cd47a900afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:07 +0000
Subject: [PATCH 07/64] fix: report a failure to allocate while parsing an
 expression

---
 src/glps.y          | 2 +-
 src/glps_parser.cpp | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/glps.y b/src/glps.y
index cfc58e0..5866ab8 100644
--- a/src/glps.y
+++ b/src/glps.y
@@ -107,7 +107,7 @@ line_list : %empty             { $$ = NULL; }
           | expr               { $$ = glps_append_expr(ctxt, NULL, $1); PERR($$); }
           | expr ',' line_list { $$ = glps_append_expr(ctxt, $3, $1); PERR($$); }
 
-expr : NUM                  { $$ = glps_add_value(ctxt, glps_expr_number, $1); }
+expr : NUM                  { $$ = glps_add_value(ctxt, glps_expr_number, $1); PERR($$); }
      | vector               { $$ = glps_add_value(ctxt, glps_expr_vector, $1); PCLR($1); PERR($$); }
      | STR                  { $$ = glps_add_value(ctxt, glps_expr_string, $1); PCLR($1); PERR($$); }
      | KEYWORD              { $$ = glps_add_value(ctxt, glps_expr_var, $1); PCLR($1); PERR($$); }
diff --git a/src/glps_parser.cpp b/src/glps_parser.cpp
index 6ff3df0..340d422 100644
--- a/src/glps_parser.cpp
+++ b/src/glps_parser.cpp
@@ -322,6 +322,8 @@ expr_t *glps_add_op(parse_context *ctxt, string_t *name, unsigned N, expr_t **ar
     std::auto_ptr<string_t> SN(name);
     std::auto_ptr<expr_t> ret;
     try{
+        if(!name)
+            throw std::bad_alloc();
 
         parse_context::operations_iterator_pair opit = ctxt->operations.equal_range(name->str);
 
@@ -374,7 +376,7 @@ expr_t *glps_add_op(parse_context *ctxt, string_t *name, unsigned N, expr_t **ar
 
     }catch(std::exception& e){
         glps_error(ctxt->scanner, ctxt, "Exception evaluating expression op '%s': %s",
-                   name->str.c_str(), e.what());
+                   name ? name->str.c_str() : "", e.what());
         ret.reset(0);
     }
 
-- 
2.43.0


From a675594855fd3e9eb1ad17302914c7a9fe6f49a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:24 +0000
Subject: [PATCH 08/64] fix: a failure to read or buffer the input is a parse
 error, not the end of the process

---
 src/CMakeLists.txt  |  7 +++++++
 src/glps.l          | 22 +++++++++++++++++++++-
 src/glps_parser.cpp |  6 ++++++
 src/glps_parser.h   |  1 +
 4 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/CMakeLists.txt b/src/CMakeLists.txt
index a1eacb1..9b48453 100644
--- a/src/CMakeLists.txt
+++ b/src/CMakeLists.txt
@@ -30,6 +30,13 @@ set_source_files_properties(
   PROPERTIES
     GENERATED TRUE
 )
+# C++ exceptions from actions unwind through the generated code
+set_source_files_properties(
+    glps.par.c
+    glps.tab.c
+  PROPERTIES
+    COMPILE_FLAGS -fexceptions
+)
 
 set(inst_HEADERS
   flame/util.h
diff --git a/src/glps.l b/src/glps.l
index 0eeb8e7..1fba1a6 100644
--- a/src/glps.l
+++ b/src/glps.l
@@ -1,11 +1,31 @@
 %{
-#include <stdlib.h>
+#include <errno.h>
 #include <math.h>
+#include <stdlib.h>
+#include <string.h>
 
 #include "glps_parser.h"
 #include "glps.par.h"
 
 #define YYSTYPE         GLPS_STYPE
+
+/* A failure to read the input, or to allocate, is an error of this parse.
+ * The defaults would exit() the process.
+ */
+#define YY_INPUT(buf, result, max_size) \
+    do { \
+        errno = 0; \
+        result = (int)fread(buf, 1, (size_t)(max_size), yyin); \
+        if(!ferror(yyin)) \
+            break; \
+        if(errno!=EINTR) { \
+            glps_error(yyscanner, yyextra, "Error reading input: %s", strerror(errno)); \
+            break; \
+        } \
+        clearerr(yyin); \
+    } while(result==0)
+
+#define YY_FATAL_ERROR(msg) glps_fatal(msg)
 %}
 
 %option 8bit reentrant batch bison-bridge
diff --git a/src/glps_parser.cpp b/src/glps_parser.cpp
index 340d422..689adb4 100644
--- a/src/glps_parser.cpp
+++ b/src/glps_parser.cpp
@@ -56,6 +56,12 @@ void glps_verror(void *scan, parse_context *ctxt, const char*fmt, va_list args)
     ctxt->last_line = glps_get_lineno(scan);
 }
 
+// the lexer can not continue.  Unwinds through the generated code to parse_common()
+void glps_fatal(const char* msg)
+{
+    throw std::runtime_error(msg);
+}
+
 const char *glps_expr_type_name(glps_expr_type e)
 {
     switch(e) {
diff --git a/src/glps_parser.h b/src/glps_parser.h
index 521a2f1..d6e0451 100644
--- a/src/glps_parser.h
+++ b/src/glps_parser.h
@@ -61,6 +61,7 @@ void glps_string_debug(FILE *, const string_t *);
 
 void glps_error(void *scan, parse_context *ctxt, const char*, ...) __attribute__((format(printf,3,4)));
 void glps_verror(void *scan, parse_context *ctxt, const char*, va_list);
+void glps_fatal(const char*) __attribute__((noreturn));
 
 void glps_assign(parse_context*, string_t *, expr_t*);
 void glps_add_element(parse_context*, string_t *label, string_t *etype, kvlist_t*);
-- 
2.43.0


From ad05a99ae8dcde0ddef4012dcd00da8163c98edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:58 +0000
Subject: [PATCH 09/64] fix: a failure to log a message must not terminate the
 process

---
 src/base.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/base.cpp b/src/base.cpp
index ef0a1f6..d6674bb 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -308,10 +308,15 @@ void Machine::set_logger(const boost::shared_ptr<Logger> &p)
 
 Machine::LogRecord::~LogRecord()
 {
-    boost::shared_ptr<Logger> logger;
-    {
-        info_mutex_t::scoped_lock G(info_mutex);
-        logger = p_logger;
+    // must not throw from a dtor
+    try{
+        boost::shared_ptr<Logger> logger;
+        {
+            info_mutex_t::scoped_lock G(info_mutex);
+            logger = p_logger;
+        }
+        logger->log(*this);
+    }catch(std::exception& e){
+        std::cerr<<fname<<':'<<lnum<<" : failed to log: "<<e.what()<<'\n';
     }
-    logger->log(*this);
 }
-- 
2.43.0


From c975cd5b3fc5be6e230b34b80fa9141fea0a79cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:53 +0000
Subject: [PATCH 10/64] fix: an element re-named by reconfigure() must be found
 by its new name

---
 src/base.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/base.cpp b/src/base.cpp
index d6674bb..a82299b 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -210,7 +210,24 @@ void Machine::reconfigure(size_t idx, const Config& c)
 
     element_builder_t *builder = eit->second;
 
-    builder->rebuild(p_elements[idx], c, idx);
+    ElementVoid *E = p_elements[idx];
+
+    // the new name must be found, and the old name no more, if the element is re-named
+    const LookupKey before(E->name, idx), after(c.get<std::string>("name"), idx);
+    const bool rename = before.name!=after.name;
+
+    if(rename)
+        p_lookup.insert(std::make_pair(after, E));
+    try{
+        builder->rebuild(E, c, idx);
+    }catch(...){
+        // an interrupted assign() may have changed the name already
+        if(rename)
+            p_lookup.erase(E->name==after.name ? before : after);
+        throw;
+    }
+    if(rename)
+        p_lookup.erase(before);
 }
 
 Machine::p_state_infos_t Machine::p_state_infos;
-- 
2.43.0


From 8be7e670abb5ab5a89b368fa17209d679c842e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:53 +0000
Subject: [PATCH 11/64] fix: reconfiguring a Vector or TransferMatrix source
 must replace its initial state

---
 src/linear.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/linear.cpp b/src/linear.cpp
index 958595e..33bd35a 100644
--- a/src/linear.cpp
+++ b/src/linear.cpp
@@ -192,6 +192,13 @@ struct ElementSource : public Base
 
     virtual ~ElementSource() {}
 
+    virtual void assign(const ElementVoid *other)
+    {
+        base_t::assign(other);
+        const ElementSource *O = static_cast<const ElementSource*>(other);
+        istate.assign(O->istate);
+    }
+
     virtual const char* type_name() const {return "source";}
 };
 
-- 
2.43.0


From fb60fd358cd829eb7dc7dbbc54f2309a1f2ee457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:01 +0000
Subject: [PATCH 12/64] fix: a cavity data file which can't be parsed is an
 error of the element using it

The failure was printed to stderr, remembered in CavConfMap and the null
pointer then used.
---
 src/rf_cavity.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index 327fd8d..7103716 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -809,15 +809,11 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
         if ( CavConfMap.find(key) == CavConfMap.end() ) {
             // not found in CavConfMap
             try {
-                try {
-                    GLPSParser P;
-                    conf.reset(P.parse_file(DataFile.c_str()));
-                }catch(std::exception& e){
-                    std::cerr<<"Parse error: "<<e.what()<<"\n";
-                }
-
+                GLPSParser P;
+                conf.reset(P.parse_file(DataFile.c_str()));
             }catch(std::exception& e){
-                std::cerr<<"Error: "<<e.what()<<"\n";
+                // don't remember the failure
+                throw std::runtime_error(SB()<<"Error parsing '"<<DataFile<<"' : "<<e.what());
             }
             CavConfMap.insert(std::make_pair(key, conf));
         } else {
-- 
2.43.0


From 20a522825ac72dbf1966eb25c982ee9609511ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:01 +0000
Subject: [PATCH 13/64] fix: don't read or write out of bounds for incomplete
 cavity data

---
 src/rf_cavity.cpp | 2 ++
 src/util.cpp      | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index 7103716..7d2ca66 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -839,6 +839,8 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
                 const double eV0(EC.get<double>("V0"));
                 params.E0 = eV0;
                 EC.tryGet<std::vector<double> >("attr", attrs);
+                if(attrs.size()<20u || (etype=="AccGap" && SynAccTab.empty() && attrs.size()<23u))
+                    throw std::runtime_error(SB()<<"'attr' of '"<<etype<<"' is missing or too short in '"<<DataFile<<"'");
                 for(int i=0; i<10; i++)
                 {
                     params.Tfit.push_back(attrs[i]);
diff --git a/src/util.cpp b/src/util.cpp
index e09378b..5563e2c 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -12,6 +12,8 @@
 
 void numeric_table::readvec(std::vector<double> vec, int numcol)
 {
+    if(vec.size()%numcol!=0)
+        throw std::runtime_error(SB()<<"Can't arrange "<<vec.size()<<" values in "<<numcol<<" columns");
     value_t tabletmp(int(vec.size()/numcol),numcol);
     for (unsigned i=0; i < vec.size(); i++){
         int ii,jj;
-- 
2.43.0


From 3f38563c371f2cbac3195fb65ed175aaf032b778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:01 +0000
Subject: [PATCH 14/64] fix: assign all members of a reconfigured RF cavity

---
 src/flame/rf_cavity.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/flame/rf_cavity.h b/src/flame/rf_cavity.h
index e659a58..4070427 100644
--- a/src/flame/rf_cavity.h
+++ b/src/flame/rf_cavity.h
@@ -143,6 +143,18 @@ struct ElementRFCavity : public MomentElementBase
         lattice       = O->lattice;
         mlptable      = O->mlptable;
         CavData       = O->CavData;
+        CavType       = O->CavType;
+        DataPath      = O->DataPath;
+        DataFile      = O->DataFile;
+        SynAccTab     = O->SynAccTab;
+        have_RefNrm     = O->have_RefNrm;
+        have_SynComplex = O->have_SynComplex;
+        have_EkLim      = O->have_EkLim;
+        have_NrLim      = O->have_NrLim;
+        RefNrm        = O->RefNrm;
+        SynComplex    = O->SynComplex;
+        EkLim         = O->EkLim;
+        NrLim         = O->NrLim;
         CavTLMLineTab = O->CavTLMLineTab;
         fRF           = O->fRF;
         IonFys        = O->IonFys;
-- 
2.43.0


From 4b522e2a92b5e301848fe38e57262eb8593c63cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:38 +0000
Subject: [PATCH 15/64] fix: a failure to allocate must not replace a flag by
 its default value

---
 src/moment.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/moment.cpp b/src/moment.cpp
index 3fbe73d..28c5c14 100644
--- a/src/moment.cpp
+++ b/src/moment.cpp
@@ -2,6 +2,8 @@
 #include <fstream>
 
 #include <limits>
+#include <cctype>
+#include <cstdlib>
 
 #include <boost/lexical_cast.hpp>
 
@@ -634,14 +636,16 @@ unsigned MomentElementBase::get_flag(const Config& c, const std::string& name, c
     unsigned read_value;
     double check_value;
 
-    try {
-        check_value = boost::lexical_cast<double>(c.get<std::string>(name));
-    }catch (std::exception&){
-        try {
-            check_value = c.get<double>(name);
-        }catch (std::exception&){
-            check_value = boost::lexical_cast<double>(def_value);
-        }
+    // strtod() and tryGet() don't confuse a failure to allocate with a missing or unusable value
+    std::string str_value;
+    if (c.tryGet<std::string>(name, str_value)) {
+        const char *begin = str_value.c_str();
+        char *end;
+        check_value = strtod(begin, &end);
+        if (end == begin || *end != '\0' || isspace((unsigned char)*begin))
+            check_value = def_value;
+    } else if (!c.tryGet<double>(name, check_value)) {
+        check_value = def_value;
     }
 
     //Check the value is an unsigned integer
-- 
2.43.0


From 88780bc0bd44d69a9f343efe626fd54298b3f083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:21 +0000
Subject: [PATCH 16/64] fix: a Machine must be usable after the registry is
 discarded

Machines kept pointers to the element builders, which registeryCleanup() deletes,
for use in reconfigure().  Also don't leak the builder of a refused registration.
---
 src/base.cpp     | 16 ++++------------
 src/flame/base.h |  3 ++-
 2 files changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/base.cpp b/src/base.cpp
index a82299b..6100390 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -118,7 +118,7 @@ Machine::Machine(const Config& c)
         if(eit==p_info.elements.end())
             throw key_error(etype);
 
-        element_builder_t* builder = eit->second;
+        element_builder_t* builder = eit->second.get();
 
         ElementVoid *E;
         try{
@@ -208,7 +208,7 @@ void Machine::reconfigure(size_t idx, const Config& c)
     if(eit==p_info.elements.end())
         throw key_error(etype);
 
-    element_builder_t *builder = eit->second;
+    element_builder_t *builder = eit->second.get();
 
     ElementVoid *E = p_elements[idx];
 
@@ -248,6 +248,7 @@ void Machine::p_registerState(const char *name, state_builder_t b)
 
 void Machine::p_registerElement(const std::string& sname, const char *ename, element_builder_t *b)
 {
+    boost::shared_ptr<element_builder_t> builder(b); // released if registration fails
     info_mutex_t::scoped_lock G(info_mutex);
     p_state_infos_t::iterator it = p_state_infos.find(sname);
     if(it==p_state_infos.end()) {
@@ -262,22 +263,13 @@ void Machine::p_registerElement(const std::string& sname, const char *ename, ele
               "sim_type=\""<<sname<<"\"";
         throw std::logic_error(strm.str());
     }
-    I.elements[ename] = b;
+    I.elements.insert(std::make_pair(std::string(ename), builder));
 }
 
 void Machine::registeryCleanup()
 {
     info_mutex_t::scoped_lock G(info_mutex);
 
-    for(p_state_infos_t::iterator it=p_state_infos.begin(), end=p_state_infos.end();
-        it!=end; ++it)
-    {
-        state_info::elements_t::iterator it2, end2;
-        for(it2=it->second.elements.begin(), end2=it->second.elements.end(); it2!=end2; ++it2)
-        {
-            delete it2->second;
-        }
-    }
     p_state_infos.clear();
 }
 
diff --git a/src/flame/base.h b/src/flame/base.h
index 37b130c..7f59ca7 100644
--- a/src/flame/base.h
+++ b/src/flame/base.h
@@ -425,7 +425,8 @@ private:
     struct state_info {
         std::string name;
         state_builder_t builder;
-        typedef std::map<std::string, element_builder_t*> elements_t;
+        // builders are shared with the Machines using them, which may outlive the registration
+        typedef std::map<std::string, boost::shared_ptr<element_builder_t> > elements_t;
         elements_t elements;
     };
 
-- 
2.43.0


From 79a331cec224fcc76d55342fca7bb76480f517d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:21 +0000
Subject: [PATCH 17/64] fix: don't hold the registry lock while constructing
 elements

An element constructor which logs, or builds another Machine, would deadlock.
---
 src/base.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/base.cpp b/src/base.cpp
index 6100390..0cb0829 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -100,6 +100,9 @@ Machine::Machine(const Config& c)
 
     p_info = it->second;
 
+    // p_info is our own copy.  Element ctors may take long, and may log.
+    G.unlock();
+
     typedef Config::vector_t elements_t;
     elements_t Es(c.get<elements_t>("elements"));
 
@@ -149,8 +152,6 @@ Machine::Machine(const Config& c)
         result_t.insert(std::make_pair(LookupKey(etype, E->index), E));
     }
 
-    G.unlock();
-
     p_elements.swap(result);
     p_lookup.swap(result_l);
     p_lookup_type.swap(result_t);
-- 
2.43.0


From 15d29948bf7b73bb66574816f175b65ce4b7aad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:21 +0000
Subject: [PATCH 18/64] fix: don't leak the elements of a Machine which can't
 be constructed

---
 src/base.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/base.cpp b/src/base.cpp
index 0cb0829..2729fef 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -79,6 +79,17 @@ void ElementVoid::assign(const ElementVoid *other)
     *const_cast<size_t*>(&index) = other->index;
 }
 
+namespace {
+// elements of a Machine under construction.  Deleted if construction fails
+struct ElementsGuard {
+    std::vector<ElementVoid*> elements;
+    ~ElementsGuard() {
+        for(size_t i=0; i<elements.size(); i++)
+            delete elements[i];
+    }
+};
+}
+
 Machine::Machine(const Config& c)
     :p_elements()
     ,p_trace(NULL)
@@ -106,7 +117,8 @@ Machine::Machine(const Config& c)
     typedef Config::vector_t elements_t;
     elements_t Es(c.get<elements_t>("elements"));
 
-    p_elements_t result;
+    ElementsGuard guard;
+    p_elements_t& result = guard.elements;
     p_lookup_t result_l, result_t;
     result.reserve(Es.size());
 
@@ -139,6 +151,8 @@ Machine::Machine(const Config& c)
             throw std::runtime_error(strm.str());
         }
 
+        result.push_back(E); // can't fail, see reserve() above
+
         if(E->type_name()!=etype) {
             std::ostringstream strm;
             strm<<"Element type inconsistent "<<etype<<" "<<E->type_name();
@@ -147,15 +161,16 @@ Machine::Machine(const Config& c)
 
         *const_cast<size_t*>(&E->index) = idx++; // ugly
 
-        result.push_back(E);
         result_l.insert(std::make_pair(LookupKey(E->name, E->index), E));
         result_t.insert(std::make_pair(LookupKey(etype, E->index), E));
     }
 
+    FLAME_LOG(DEBUG)<<"Complete constructing Machine w/ sim_type='"<<type<<'\'';
+
+    // can't fail
     p_elements.swap(result);
     p_lookup.swap(result_l);
     p_lookup_type.swap(result_t);
-    FLAME_LOG(DEBUG)<<"Complete constructing Machine w/ sim_type='"<<type<<'\'';
 }
 
 Machine::~Machine()
-- 
2.43.0


From 1524f1d6dd71520b9ec80a75b2dcf539e9dc4fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:12 +0000
Subject: [PATCH 19/64] fix: guard the caches of cavity and curve data against
 concurrent use

Elements of different Machines may be built and reconfigured in different threads.
---
 src/moment_sup.cpp | 17 ++++++++++++-----
 src/rf_cavity.cpp  | 17 ++++++++++++-----
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/moment_sup.cpp b/src/moment_sup.cpp
index 6f5387e..99407e9 100644
--- a/src/moment_sup.cpp
+++ b/src/moment_sup.cpp
@@ -1,6 +1,7 @@
 
 #include <boost/lexical_cast.hpp>
 #include <boost/filesystem.hpp>
+#include <boost/thread/mutex.hpp>
 #include <boost/numeric/ublas/lu.hpp>
 
 #include "flame/constants.h"
@@ -16,6 +17,8 @@
 #endif
 
 std::map<std::string,boost::shared_ptr<Config> > CurveMap;
+// guards CurveMap
+static boost::mutex CurveLock;
 
 // http://www.crystalclearsoftware.com/cgi-bin/boost_wiki/wiki.pl?LU_Matrix_Inversion
 // by LU-decomposition.
@@ -395,8 +398,14 @@ void GetCurveData(const Config &c, const unsigned ncurve, std::vector<double> &S
     if (checker){
         std::string CurveFile =  c.get<std::string>("Eng_Data_Dir", defpath);
         CurveFile += "/" + filename;
-        std::string key(SB()<<CurveFile<<"|"<<boost::filesystem::last_write_time(CurveFile));
-        if ( CurveMap.find(key) == CurveMap.end() ) {
+        std::string key(CurveFile+"|"+boost::lexical_cast<std::string>(boost::filesystem::last_write_time(CurveFile)));
+        {
+            boost::mutex::scoped_lock G(CurveLock);
+            std::map<std::string,boost::shared_ptr<Config> >::const_iterator it = CurveMap.find(key);
+            if (it != CurveMap.end())
+                conf = it->second;
+        }
+        if (!conf) {
             // not found in CurveMap
             try {
                 try {
@@ -409,10 +418,8 @@ void GetCurveData(const Config &c, const unsigned ncurve, std::vector<double> &S
             }catch(std::exception& e){
                 throw std::runtime_error(SB()<<"Error: "<<e.what()<<"\n");
             }
+            boost::mutex::scoped_lock G(CurveLock);
             CurveMap.insert(std::make_pair(key, conf));
-        } else {
-            // found in CurveMap
-            conf=CurveMap[key];
         }
     }
 
diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index 7d2ca66..6956f14 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -3,6 +3,7 @@
 
 #include <boost/lexical_cast.hpp>
 #include <boost/filesystem.hpp>
+#include <boost/thread/mutex.hpp>
 
 #include "flame/constants.h"
 #include "flame/moment.h"
@@ -20,6 +21,8 @@
 #endif
 
 std::map<std::string,boost::shared_ptr<Config> > ElementRFCavity::CavConfMap;
+// guards CavConfMap
+static boost::mutex CavConfLock;
 
 // RF Cavity beam dynamics functions.
 
@@ -805,8 +808,14 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
     else
     {
         boost::shared_ptr<Config> conf;
-        std::string key(SB()<<DataFile<<"|"<<boost::filesystem::last_write_time(DataFile));
-        if ( CavConfMap.find(key) == CavConfMap.end() ) {
+        std::string key(DataFile+"|"+boost::lexical_cast<std::string>(boost::filesystem::last_write_time(DataFile)));
+        {
+            boost::mutex::scoped_lock G(CavConfLock);
+            std::map<std::string,boost::shared_ptr<Config> >::const_iterator it = CavConfMap.find(key);
+            if (it != CavConfMap.end())
+                conf = it->second;
+        }
+        if (!conf) {
             // not found in CavConfMap
             try {
                 GLPSParser P;
@@ -815,10 +824,8 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
                 // don't remember the failure
                 throw std::runtime_error(SB()<<"Error parsing '"<<DataFile<<"' : "<<e.what());
             }
+            boost::mutex::scoped_lock G(CavConfLock);
             CavConfMap.insert(std::make_pair(key, conf));
-        } else {
-            // found in CavConfMap
-            conf=CavConfMap[key];
         }
 
         typedef Config::vector_t elements_t;
-- 
2.43.0


From 47f47ee23099d0b067833cb669d9a674742654c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:29 +0000
Subject: [PATCH 20/64] fix: a data file changed while being read, or given an
 older time, must be read again

---
 src/util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index 5563e2c..4fa167f 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -143,7 +143,7 @@ numeric_table_cache::table_pointer numeric_table_cache::fetch(const std::string&
     boost::mutex::scoped_lock L(pvt->lock);
 
     Pvt::cache_t::const_iterator it = pvt->cache.find(path);
-    if(it==pvt->cache.end() || mtime>it->second.lastmod) {
+    if(it==pvt->cache.end() || mtime!=it->second.lastmod) {
         // miss
 
         ret.reset(new numeric_table);
@@ -153,7 +153,7 @@ numeric_table_cache::table_pointer numeric_table_cache::fetch(const std::string&
         ret->read(strm);
 
         Pvt::Value v;
-        v.lastmod = boost::filesystem::last_write_time(P); // fetch again to avoid some, but not all, races
+        v.lastmod = mtime; // time before reading.  If the file has changed since, then the next fetch() reads it again
         v.table = ret;
 
         pvt->cache[path] = v;
-- 
2.43.0


From 47e4dcc6aa56cf7e6b140009728d1419ec7a9d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:13 +0000
Subject: [PATCH 21/64] fix: FINE logging must not crash for a Generic cavity

The line table isn't filled for this type.
---
 src/rf_cavity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index 6956f14..307fb58 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -1349,7 +1349,7 @@ void ElementRFCavity::GetCavMatGeneric(Particle &real, const double EfieldScl, c
             kfdy = kfdx;
             if(logme) {
                 FLAME_LOG(FINE)<<" X EFocus1 kfdx="<<kfdx<<"\n"
-                         <<" Y "<<linetab.E0[n]<<" "<<EfieldScl<<" "<<beta
+                         <<" Y "<<P.E0<<" "<<EfieldScl<<" "<<beta
                          <<" "<<gamma<<" "<<IonFy<<" "<<cRm<<"\n Z "<<T<<" "<<S<<"\n";
             }
 
-- 
2.43.0


From 1856061c2734c570615086d8de574dd918e3aa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:10 +0000
Subject: [PATCH 22/64] fix: initialize the moments of a state allocated
 without charge states

---
 src/moment.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/moment.cpp b/src/moment.cpp
index 28c5c14..f04308a 100644
--- a/src/moment.cpp
+++ b/src/moment.cpp
@@ -189,6 +189,9 @@ MomentState::MomentState(const Config& c)
         moment1[0].resize(maxsize, maxsize);
         transmat[0].resize(maxsize, maxsize);
 
+        // defined values if not given
+        moment0[0] = boost::numeric::ublas::zero_vector<double>(maxsize);
+        moment1[0] = boost::numeric::ublas::identity_matrix<double>(maxsize);
         load_storage(moment0[0].data(), c, vectorname, false);
         load_storage(moment1[0].data(), c, matrixname, false);
         transmat[0] = boost::numeric::ublas::identity_matrix<double>(maxsize);
-- 
2.43.0


From 8a4ddfb7dccb693cba1b64dd187a64aaa8b484b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:24 +0000
Subject: [PATCH 23/64] fix: flattening a Config must not change its copies

---
 src/config.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/config.cpp b/src/config.cpp
index df2468f..a4604ff 100644
--- a/src/config.cpp
+++ b/src/config.cpp
@@ -116,6 +116,7 @@ void Config::push_scope()
 void Config::flatten()
 {
     if(implicit_values) {
+        _cow();
         values->insert(implicit_values->begin(),
                        implicit_values->end());
         implicit_values.reset();
-- 
2.43.0


From 614b681c07224ab71f4482f841bd31ddd87175ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:48 +0000
Subject: [PATCH 24/64] fix: a failed sim_type registration must leave nothing
 behind

operator[] inserted an entry without a state builder before the assignment, which may fail.
---
 src/base.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/base.cpp b/src/base.cpp
index 2729fef..495b181 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -259,7 +259,8 @@ void Machine::p_registerState(const char *name, state_builder_t b)
     state_info I;
     I.name = name;
     I.builder = b;
-    p_state_infos[name] = I;
+    // all or nothing
+    p_state_infos.insert(std::make_pair(I.name, I));
 }
 
 void Machine::p_registerElement(const std::string& sname, const char *ename, element_builder_t *b)
-- 
2.43.0


From cc2787baf92d58e9f9cc2857797faa85a49aa339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:12 +0000
Subject: [PATCH 25/64] fix: the default logger must not mix messages of
 different threads

Each message was written piecewise to std::cerr.
---
 src/base.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/base.cpp b/src/base.cpp
index 495b181..e7a88a6 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -307,10 +307,11 @@ struct Logcerr : public Machine::Logger
     virtual ~Logcerr() {}
     virtual void log(const Machine::LogRecord &r)
     {
-        std::string msg(r.strm.str());
-        std::cerr<<r.fname<<':'<<r.lnum<<" : "<<msg;
-        if(msg.empty() || msg[msg.size()-1]!='\n')
-            std::cerr.put('\n');
+        // written as a whole.  Other threads may be logging as well
+        std::string msg(SB()<<r.fname<<':'<<r.lnum<<" : "<<r.strm.str());
+        if(msg[msg.size()-1]!='\n')
+            msg += '\n';
+        std::cerr<<msg;
     }
     static Logcerr singleton;
     static void noopdtor(Logcerr*) {}
@@ -343,6 +344,11 @@ Machine::LogRecord::~LogRecord()
         }
         logger->log(*this);
     }catch(std::exception& e){
-        std::cerr<<fname<<':'<<lnum<<" : failed to log: "<<e.what()<<'\n';
+        try{
+            std::string msg(SB()<<fname<<':'<<lnum<<" : failed to log: "<<e.what()<<'\n');
+            std::cerr<<msg;
+        }catch(std::exception&){
+            // nothing more to be done
+        }
     }
 }
-- 
2.43.0


From 45809eab9ffef6c0ea267324ad861bef2f964339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:07 +0000
Subject: [PATCH 26/64] fix: opening an absolute HDF5 path without a group must
 not loop forever

---
 src/h5loader.cpp | 3 ++-
 src/h5writer.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/h5loader.cpp b/src/h5loader.cpp
index c1ce95a..ff8e399 100644
--- a/src/h5loader.cpp
+++ b/src/h5loader.cpp
@@ -59,7 +59,8 @@ void H5Loader::open(const std::string& spec)
     size_t sep = spec.npos;
 
     while(true) {
-        sep = spec.find_last_of('/', sep-1);
+        // after the leading '/' of an absolute path only the whole path remains
+        sep = sep==0 ? spec.npos : spec.find_last_of('/', sep-1);
 
         std::string fname(spec.substr(0, sep));
 
diff --git a/src/h5writer.cpp b/src/h5writer.cpp
index 72237c5..ffc73f4 100644
--- a/src/h5writer.cpp
+++ b/src/h5writer.cpp
@@ -74,7 +74,8 @@ void H5StateWriter::open(const std::string& spec)
         size_t sep = spec.npos;
 
         while(true) {
-            sep = spec.find_last_of('/', sep-1);
+            // after the leading '/' of an absolute path only the whole path remains
+            sep = sep==0 ? spec.npos : spec.find_last_of('/', sep-1);
 
             std::string fname(spec.substr(0, sep));
 
-- 
2.43.0


From f1b5d06a468a79348ddf6b101b583749ad5adbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:07 +0000
Subject: [PATCH 27/64] fix: load tables of the root group of an HDF5 file

---
 src/h5loader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h5loader.cpp b/src/h5loader.cpp
index ff8e399..bb4fc25 100644
--- a/src/h5loader.cpp
+++ b/src/h5loader.cpp
@@ -74,7 +74,7 @@ void H5Loader::open(const std::string& spec)
             continue; // keep trying
         } CATCH()
 
-        std::string group(spec.substr(sep+1));
+        std::string group(sep==spec.npos ? std::string("/") : spec.substr(sep+1));
 
         try {
             pvt->group = pvt->file.openGroup(group);
-- 
2.43.0


From 5016ebadb7972b777d911eea90e3bc6fa86d4474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:07 +0000
Subject: [PATCH 28/64] fix: save the quantities of all charge states to HDF5

The arrays of a state with several charge states are not contiguous.
---
 src/h5writer.cpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/h5writer.cpp b/src/h5writer.cpp
index ffc73f4..21f365c 100644
--- a/src/h5writer.cpp
+++ b/src/h5writer.cpp
@@ -26,6 +26,21 @@ struct StateElement {
     size_t nextrow;
     StateElement() :idx((unsigned)-1), nextrow(0u) {}
 };
+
+// copy an array, which need not be contiguous, in C order
+template<typename T>
+void gather(StateBase::ArrayInfo& info, std::vector<T>& buf)
+{
+    size_t n[StateBase::ArrayInfo::maxdims], i[StateBase::ArrayInfo::maxdims];
+    std::fill(n, n+StateBase::ArrayInfo::maxdims, 1);
+    std::copy(info.dim, info.dim+info.ndim, n);
+
+    buf.clear();
+    for(i[0]=0; i[0]<n[0]; i[0]++)
+        for(i[1]=0; i[1]<n[1]; i[1]++)
+            for(i[2]=0; i[2]<n[2]; i[2]++)
+                buf.push_back(*info.get<T>(i));
+}
 }
 
 struct H5StateWriter::Pvt {
@@ -228,8 +243,15 @@ void H5StateWriter::append(const StateBase *RS)
 
             H5::DataType dtype(elem.dset.getDataType());
 
-            elem.dset.write(info.ptr, dtype, memspace, filespace);
-
+            if(info.type==StateBase::ArrayInfo::Double) {
+                std::vector<double> buf;
+                gather(info, buf);
+                elem.dset.write(buf.empty() ? NULL : &buf[0], dtype, memspace, filespace);
+            } else {
+                std::vector<size_t> buf;
+                gather(info, buf);
+                elem.dset.write(buf.empty() ? NULL : &buf[0], dtype, memspace, filespace);
+            }
         }
     } CATCH()
 }
-- 
2.43.0


From f92d61af728dc1cc7057ac02dfd68fce0c5ca6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:07 +0000
Subject: [PATCH 29/64] fix: fewer charge states must not truncate the HDF5
 data stored before

---
 src/h5writer.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/h5writer.cpp b/src/h5writer.cpp
index 21f365c..46cb3c4 100644
--- a/src/h5writer.cpp
+++ b/src/h5writer.cpp
@@ -222,14 +222,18 @@ void H5StateWriter::append(const StateBase *RS)
 
             hsize_t shape[StateBase::ArrayInfo::maxdims+1];
             shape[0] = ++elem.nextrow;
-            std::copy(info.dim,
-                      info.dim+info.ndim,
-                      shape+1);
 
             // resize
-            // always in time, maybe in other dimensions
+            // always in time, maybe in other dimensions.
+            // Never shrink, which would truncate what was stored before.
+            for(unsigned i=0; i<info.ndim; i++)
+                shape[i+1] = elem.info.dim[i] = std::max(elem.info.dim[i], info.dim[i]);
             elem.dset.extend(shape);
 
+            std::copy(info.dim,
+                      info.dim+info.ndim,
+                      shape+1);
+
             // filespace is hyper from [index,0...] to [index,shape]
             hsize_t start[StateBase::ArrayInfo::maxdims+1];
             start[0] = shape[0]-1;
-- 
2.43.0


From 74013b68fc39c1b329c3214d57ed8d231a58cd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:07 +0000
Subject: [PATCH 30/64] fix: closing a H5StateWriter must complete its file

Open datasets kept the file open until the writer was destroyed, where
errors can't be reported, and were written to by a writer opened again.
---
 src/h5writer.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/h5writer.cpp b/src/h5writer.cpp
index 46cb3c4..e596c22 100644
--- a/src/h5writer.cpp
+++ b/src/h5writer.cpp
@@ -65,7 +65,7 @@ H5StateWriter::~H5StateWriter()
 {
     try{
         close();
-    } catch(std::runtime_error& e) {
+    } catch(std::exception& e) {
         std::cerr<<"H5StateWriter is ignoring exception in dtor : "<<e.what()<<"\n";
     }
     delete pvt;
@@ -129,10 +129,19 @@ void H5StateWriter::open(const std::string& spec)
 
 void H5StateWriter::close()
 {
+    std::auto_ptr<Pvt> next(new Pvt);
+    Pvt *P = pvt;
+    pvt = next.release();
     try{
-        pvt->group.close();
-        pvt->file.close();
-    }CATCH()
+        P->group.close();
+        P->file.close();
+        // the file is complete only when the last of its datasets is closed
+        BOOST_FOREACH(StateElement& elem, P->elements)
+        {
+            elem.dset.close();
+        }
+    }CATCH() // abandons P.  The HDF5 library can't close again what it failed to close.
+    delete P;
 }
 
 void H5StateWriter::prepare(const StateBase *RS)
-- 
2.43.0


From be3f27ecd70258ebf5223f4c5e85a92d619d9e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:07 +0000
Subject: [PATCH 31/64] fix: don't read beyond the end of a short HDF5
 attribute

---
 src/h5writer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/h5writer.cpp b/src/h5writer.cpp
index e596c22..1c475fa 100644
--- a/src/h5writer.cpp
+++ b/src/h5writer.cpp
@@ -280,9 +280,12 @@ void H5StateWriter::setAttr(const char *name, const char *val)
 
         {
             H5::DataSpace scalar;
-            H5::StrType dtype(H5::PredType::C_S1, std::max((size_t)16u, strlen(val)));
+            std::vector<char> buf(std::max((size_t)16u, strlen(val)), '\0');
+            std::copy(val, val+strlen(val), buf.begin());
+
+            H5::StrType dtype(H5::PredType::C_S1, buf.size());
             H5::Attribute attr(pvt->group.createAttribute(name, dtype, scalar));
-            attr.write(dtype, val);
+            attr.write(dtype, &buf[0]);
         }
     } CATCH()
 }
-- 
2.43.0


From 64c0ab436d5a28caa9a406bb29a10e36b8d0c996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:07 +0000
Subject: [PATCH 32/64] fix: don't leave an HDF5 file open when it can't be
 used

---
 src/h5loader.cpp | 14 ++++++++++++--
 src/h5writer.cpp | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/h5loader.cpp b/src/h5loader.cpp
index bb4fc25..ab098e1 100644
--- a/src/h5loader.cpp
+++ b/src/h5loader.cpp
@@ -24,12 +24,22 @@ H5Loader::H5Loader() :pvt(new Pvt) {}
 
 H5Loader::H5Loader(const char *spec) :pvt(new Pvt)
 {
-    open(spec);
+    try {
+        open(spec);
+    } catch(...) {
+        delete pvt;
+        throw;
+    }
 }
 
 H5Loader::H5Loader(const std::string& spec) :pvt(new Pvt)
 {
-    open(spec);
+    try {
+        open(spec);
+    } catch(...) {
+        delete pvt;
+        throw;
+    }
 }
 
 H5Loader::~H5Loader()
diff --git a/src/h5writer.cpp b/src/h5writer.cpp
index 1c475fa..a51815f 100644
--- a/src/h5writer.cpp
+++ b/src/h5writer.cpp
@@ -53,12 +53,22 @@ H5StateWriter::H5StateWriter() :pvt(new Pvt) {}
 
 H5StateWriter::H5StateWriter(const char *spec) :pvt(new Pvt)
 {
-    open(spec);
+    try {
+        open(spec);
+    } catch(...) {
+        delete pvt;
+        throw;
+    }
 }
 
 H5StateWriter::H5StateWriter(const std::string& spec) :pvt(new Pvt)
 {
-    open(spec);
+    try {
+        open(spec);
+    } catch(...) {
+        delete pvt;
+        throw;
+    }
 }
 
 H5StateWriter::~H5StateWriter()
-- 
2.43.0


From fa652b024e878f419e8ac0fe4f24228d87c9afa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:02 +0000
Subject: [PATCH 33/64] fix: flame must fail when it can't write its output
 file

---
 tools/cli.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tools/cli.cpp b/tools/cli.cpp
index 2927a85..9be2207 100644
--- a/tools/cli.cpp
+++ b/tools/cli.cpp
@@ -263,7 +263,7 @@ struct StreamObserver : public Observer
 
     struct Factory : public ObserverFactory
     {
-        std::auto_ptr<std::ostream> owned_strm;
+        std::auto_ptr<std::ofstream> owned_strm;
         std::ostream *strm;
         int detail;
         Factory(const strvect& fmt) :strm(&std::cout), detail(1)
@@ -276,6 +276,8 @@ struct StreamObserver : public Observer
                 if(cmd.substr(0,5)=="file=") {
                     owned_strm.reset(new std::ofstream(cmd.substr(5).c_str()));
                     strm = owned_strm.get();
+                    if(!owned_strm->is_open())
+                        throw std::runtime_error("Unable to open output file "+cmd.substr(5));
                 } else if(cmd=="verbose") {
                     detail=1;
                 } else if(cmd.substr(0,8)=="verbose=") {
@@ -293,7 +295,10 @@ struct StreamObserver : public Observer
 
         virtual void after_sim(Machine&)
         {
-            strm->flush();
+            if(owned_strm.get()) owned_strm->close();
+            else                 strm->flush();
+            if(!*strm)
+                throw std::runtime_error("Error while writing output");
         }
     };
 };
-- 
2.43.0


From 0a756a15dbcc104ba0e938cbb015a31c7dbaa00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:02 +0000
Subject: [PATCH 34/64] fix: flame must fail when it can't write to standard
 output

---
 tools/cli.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tools/cli.cpp b/tools/cli.cpp
index 9be2207..83196d3 100644
--- a/tools/cli.cpp
+++ b/tools/cli.cpp
@@ -5,6 +5,7 @@
 #include <typeinfo>
 #include <climits>
 
+#include <stdio.h>
 #include <time.h>
 
 #include <boost/numeric/ublas/io.hpp>
@@ -584,6 +585,12 @@ try {
     Machine::registeryCleanup();
     if(showtime) timeit.showdelta("Cleanup");
 
+    std::cout.flush();
+    if(!std::cout || ferror(stdout)) {
+        std::cerr<<"Error while writing to standard output\n";
+        return 1;
+    }
+
     return 0;
 }catch(std::exception& e){
     std::cerr<<"Error "<<typeid(e).name()<<" : "<<e.what()<<"\n";
-- 
2.43.0


From 774d5e399d680b655b5948a574d281c3d7386a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:02 +0000
Subject: [PATCH 35/64] fix: flame -F utest must not print another quantity
 instead of an unknown one

---
 tools/cli.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/cli.cpp b/tools/cli.cpp
index 83196d3..59a864c 100644
--- a/tools/cli.cpp
+++ b/tools/cli.cpp
@@ -157,6 +157,8 @@ struct UnitTestObserver : public Observer
             lookup_t::const_iterator Lit = L.find(*it);
             if(Lit!=L.end()) {
                 interested_indicies[i] = Lit->second;
+            } else {
+                throw std::runtime_error("-F utest can't print "+*it);
             }
         }
     }
-- 
2.43.0


From 2581f6e968d3c70ff9f4b5be48dcf5ece59cc582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:43 +0000
Subject: [PATCH 36/64] fix: python: log messages lost their last character

---
 python/flame/modmain.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/flame/modmain.cpp b/python/flame/modmain.cpp
index 715cdaf..c3898d7 100644
--- a/python/flame/modmain.cpp
+++ b/python/flame/modmain.cpp
@@ -23,7 +23,7 @@ struct PyLogger : public Machine::Logger
             std::string msg(r.strm.str());
             size_t pos = msg.find_last_not_of('\n');
             if(pos!=msg.npos)
-                msg = msg.substr(0, pos);
+                msg = msg.substr(0, pos+1);
 
             // name, level, function name, lineno, message, args, exc_info
             PyRef<> rec(PyObject_CallMethod(logger.py(), "makeRecord", "sHsHsOO",
-- 
2.43.0


From 55e5f8208d89a102e0eab73f2088f941d1a2c739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:43 +0000
Subject: [PATCH 37/64] fix: python: exception from a log handler left active
 in the call being logged

---
 python/flame/modmain.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/python/flame/modmain.cpp b/python/flame/modmain.cpp
index c3898d7..1597e98 100644
--- a/python/flame/modmain.cpp
+++ b/python/flame/modmain.cpp
@@ -25,11 +25,22 @@ struct PyLogger : public Machine::Logger
             if(pos!=msg.npos)
                 msg = msg.substr(0, pos+1);
 
+            // log() may be called at any point, so leave alone any exception which
+            // is already active, and don't leave behind one raised while logging.
+            PyObject *etype, *evalue, *etb;
+            PyErr_Fetch(&etype, &evalue, &etb);
+
             // name, level, function name, lineno, message, args, exc_info
-            PyRef<> rec(PyObject_CallMethod(logger.py(), "makeRecord", "sHsHsOO",
-                                            FLAME_LOGGER_NAME, r.level, r.fname, r.lnum,
-                                            msg.c_str(), Py_None, Py_None));
-            PyRef<> junk(PyObject_CallMethod(logger.py(), "handle", "O", rec.py()));
+            PyObject *rec = PyObject_CallMethod(logger.py(), "makeRecord", "sHsHsOO",
+                                                FLAME_LOGGER_NAME, r.level, r.fname, r.lnum,
+                                                msg.c_str(), Py_None, Py_None);
+            PyObject *junk = rec ? PyObject_CallMethod(logger.py(), "handle", "O", rec) : NULL;
+            if(!junk)
+                PyErr_WriteUnraisable(logger.py());
+            Py_XDECREF(junk);
+            Py_XDECREF(rec);
+
+            PyErr_Restore(etype, evalue, etb);
         }
     }
     static void noopdtor(Machine::Logger*) {}
-- 
2.43.0


From 0a12cd7399cde12e0a8546ce217fc00ccf3d67b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:43 +0000
Subject: [PATCH 38/64] fix: python: GLPSParser.parse() leaks the parsed Config

---
 python/flame/modconfig.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/flame/modconfig.cpp b/python/flame/modconfig.cpp
index d1eed62..0961791 100644
--- a/python/flame/modconfig.cpp
+++ b/python/flame/modconfig.cpp
@@ -276,6 +276,7 @@ Config* PyGLPSParse2Config(PyObject *, PyObject *args, PyObject *kws)
 PyObject* PyGLPSParse(PyObject *unused, PyObject *args, PyObject *kws)
 {
     try{
-        return conf2dict(PyGLPSParse2Config(unused, args, kws));
+        std::auto_ptr<Config> C(PyGLPSParse2Config(unused, args, kws));
+        return conf2dict(C.get());
     }CATCH()
 }
-- 
2.43.0


From e5c9932a23b220391cc59aeb05281b179225a333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:43 +0000
Subject: [PATCH 39/64] fix: python: Machine() crashes when its arguments are
 invalid

---
 python/flame/modmachine.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/flame/modmachine.cpp b/python/flame/modmachine.cpp
index af91b72..cb87bac 100644
--- a/python/flame/modmachine.cpp
+++ b/python/flame/modmachine.cpp
@@ -23,6 +23,8 @@ int PyMachine_init(PyObject *raw, PyObject *args, PyObject *kws)
         assert(!machine->weak);
 
         std::auto_ptr<Config> C(PyGLPSParse2Config(raw, args, kws));
+        if(!C.get())
+            return -1; // a py exception is active
 
         machine->machine = new Machine(*C);
 
-- 
2.43.0


From dbc1f4ad7184aa035d0b3be85f499abd0dda7f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:43 +0000
Subject: [PATCH 40/64] fix: python: calling Machine.__init__() again leaks the
 previous Machine

---
 python/flame/modmachine.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/flame/modmachine.cpp b/python/flame/modmachine.cpp
index cb87bac..577ebf5 100644
--- a/python/flame/modmachine.cpp
+++ b/python/flame/modmachine.cpp
@@ -20,13 +20,15 @@ static
 int PyMachine_init(PyObject *raw, PyObject *args, PyObject *kws)
 {
     TRY {
-        assert(!machine->weak);
-
         std::auto_ptr<Config> C(PyGLPSParse2Config(raw, args, kws));
         if(!C.get())
             return -1; // a py exception is active
 
-        machine->machine = new Machine(*C);
+        std::auto_ptr<Machine> M(new Machine(*C));
+
+        // __init__() may be called again, replace the existing Machine
+        std::auto_ptr<Machine> old(machine->machine);
+        machine->machine = M.release();
 
         return 0;
     } CATCH3(key_error, KeyError, -1)
-- 
2.43.0


From 391ea6fb623ac4615a606dd3abb2df1560b83b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:43 +0000
Subject: [PATCH 41/64] fix: python: methods of a Machine which was never
 initialized crash

---
 python/flame/modmachine.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/python/flame/modmachine.cpp b/python/flame/modmachine.cpp
index 577ebf5..9390cba 100644
--- a/python/flame/modmachine.cpp
+++ b/python/flame/modmachine.cpp
@@ -16,6 +16,14 @@ struct PyMachine {
     Machine *machine;
 };
 
+// the Machine of a sub-class which did not call __init__(), or if __init__() failed, is missing
+static
+void checkInit(const PyMachine *machine)
+{
+    if(!machine->machine)
+        throw std::runtime_error("Machine has not been initialized");
+}
+
 static
 int PyMachine_init(PyObject *raw, PyObject *args, PyObject *kws)
 {
@@ -54,6 +62,7 @@ static
 PyObject *PyMachine_str(PyObject *raw)
 {
     TRY {
+        checkInit(machine);
         std::ostringstream strm;
         strm << *(machine->machine);
         return PyString_FromString(strm.str().c_str());
@@ -64,6 +73,7 @@ static
 PyObject *PyMachine_conf(PyObject *raw, PyObject *args, PyObject *kws)
 {
     TRY {
+        checkInit(machine);
         PyObject *pyindex = Py_None;
         const char *pnames[] = {"index", NULL};
         if(!PyArg_ParseTupleAndKeywords(args, kws, "|O", (char**)pnames, &pyindex))
@@ -91,6 +101,7 @@ static
 PyObject *PyMachine_allocState(PyObject *raw, PyObject *args, PyObject *kws)
 {
     TRY {
+        checkInit(machine);
         PyObject *d = Py_None, *W = Py_False;
         const char *pnames[] = {"config", "inherit", NULL};
         if(!PyArg_ParseTupleAndKeywords(args, kws, "|OO", (char**)pnames, &d, &W))
@@ -161,6 +172,7 @@ PyObject *PyMachine_propagate(PyObject *raw, PyObject *args, PyObject *kws)
 {
 
     TRY {
+        checkInit(machine);
         PyObject *state, *toobserv = Py_None, *pymax = Py_None;
         unsigned long start = 0;
         int max = INT_MAX;
@@ -199,6 +211,7 @@ static
 PyObject *PyMachine_reconfigure(PyObject *raw, PyObject *args, PyObject *kws)
 {
     TRY{
+        checkInit(machine);
         unsigned long idx;
         PyObject *conf, *replace = Py_False;
         const char *pnames[] = {"index", "config", "replace", NULL};
@@ -226,6 +239,7 @@ static
 PyObject *PyMachine_find(PyObject *raw, PyObject *args, PyObject *kws)
 {
     TRY{
+        checkInit(machine);
         const char *ename = NULL, *etype = NULL;
         const char *pnames[] = {"name", "type", NULL};
         if(!PyArg_ParseTupleAndKeywords(args, kws, "|zz", (char**)pnames, &ename, &etype))
@@ -262,6 +276,7 @@ static
 Py_ssize_t PyMachine_len(PyObject *raw)
 {
     TRY{
+        checkInit(machine);
         return machine->machine->size();
     }CATCH1(-1)
 }
-- 
2.43.0


From 81d20a433b69108b69b4bbe7f860df00effc70c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:43 +0000
Subject: [PATCH 42/64] fix: python: reference to the type of an unsupported
 value leaked

---
 python/flame/modconfig.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/flame/modconfig.cpp b/python/flame/modconfig.cpp
index 0961791..738862f 100644
--- a/python/flame/modconfig.cpp
+++ b/python/flame/modconfig.cpp
@@ -67,7 +67,7 @@ void List2Config(Config& ret, PyObject *list, unsigned depth)
                     elem.reset(PyMapping_Items(elem.py()));
                 }
                 if(!PyList_Check(elem.py())) {
-                    PyTypeObject *valuetype = (PyTypeObject*)PyObject_Type(elem.py());
+                    PyTypeObject *valuetype = Py_TYPE(elem.py());
                     throw std::invalid_argument(SB()<<"lists must contain only dict or list of tuples, not "<<valuetype->tp_name);
                 }
 
@@ -79,7 +79,7 @@ void List2Config(Config& ret, PyObject *list, unsigned depth)
             ret.set<Config::vector_t>(kname, output);
 
         } else {
-            PyTypeObject *valuetype = (PyTypeObject*)PyObject_Type(value);
+            PyTypeObject *valuetype = Py_TYPE(value);
             throw std::invalid_argument(SB()<<"Must be a dict, not "<<valuetype->tp_name);
         }
     }
-- 
2.43.0


From b3ae9682b24972243b36cff3a7dbe1237ddf39b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:43 +0000
Subject: [PATCH 43/64] fix: python: exception while iterating a configuration
 list ignored

---
 python/flame/modconfig.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/flame/modconfig.cpp b/python/flame/modconfig.cpp
index 738862f..e34ac7f 100644
--- a/python/flame/modconfig.cpp
+++ b/python/flame/modconfig.cpp
@@ -27,7 +27,11 @@ void List2Config(Config& ret, PyObject *list, unsigned depth)
     PyRef<> iter(PyObject_GetIter(list));
     while(true) {
         PyObject *item = PyIter_Next(iter.py());
-        if(!item) break;
+        if(!item) {
+            if(PyErr_Occurred())
+                throw std::runtime_error(""); // caller will get active python exception
+            break;
+        }
         PyRef<> itemref(item);
         const char *kname;
         PyObject *value;
-- 
2.43.0


From 126b83b732e769c313874f2db09331fed9f78b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:43 +0000
Subject: [PATCH 44/64] fix: python: references leaked for each file-like
 object with a name

---
 python/flame/modconfig.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/flame/modconfig.cpp b/python/flame/modconfig.cpp
index e34ac7f..12becd4 100644
--- a/python/flame/modconfig.cpp
+++ b/python/flame/modconfig.cpp
@@ -240,7 +240,9 @@ Config* PyGLPSParse2Config(PyObject *, PyObject *args, PyObject *kws)
         PyCString pyname;
 
         if(!path && PyObject_HasAttrString(conf, "name")) {
-            path = pyname.c_str(pydirname(PyObject_GetAttrString(conf, "name")));
+            PyRef<> name(PyObject_GetAttrString(conf, "name")),
+                    dir(pydirname(name.py()));
+            path = pyname.c_str(dir.py());
         }
 
         PyRef<> pybytes(PyObject_CallMethod(conf, "read", ""));
-- 
2.43.0


From 8cd2151a329059ed712a60d5aabacfb097d29a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:43 +0000
Subject: [PATCH 45/64] fix: python: state freed twice, or leaked, when it
 can't be wrapped

---
 python/flame/modmachine.cpp | 12 ++++--------
 python/flame/modstate.cpp   |  9 +++------
 2 files changed, 7 insertions(+), 14 deletions(-)

diff --git a/python/flame/modmachine.cpp b/python/flame/modmachine.cpp
index 9390cba..adb03a4 100644
--- a/python/flame/modmachine.cpp
+++ b/python/flame/modmachine.cpp
@@ -120,10 +120,7 @@ PyObject *PyMachine_allocState(PyObject *raw, PyObject *args, PyObject *kws)
         } else {
             return PyErr_Format(PyExc_ValueError, "allocState() needs config=None or {}");
         }
-        std::auto_ptr<StateBase> state(machine->machine->allocState(C));
-        PyObject *ret = wrapstate(state.get());
-        state.release();
-        return ret;
+        return wrapstate(machine->machine->allocState(C));
     } CATCH()
 }
 
@@ -137,11 +134,10 @@ struct PyStoreObserver : public Observer
     virtual void view(const ElementVoid* elem, const StateBase* state)
     {
         PyRef<> tuple(PyTuple_New(2));
-        std::auto_ptr<StateBase> tmpstate(state->clone());
-        PyRef<> statecopy(wrapstate(tmpstate.get()));
-        tmpstate.release();
+        PyRef<> statecopy(wrapstate(state->clone()));
+        PyRef<> index(PyInt_FromSize_t(elem->index));
 
-        PyTuple_SET_ITEM(tuple.py(), 0, PyInt_FromSize_t(elem->index));
+        PyTuple_SET_ITEM(tuple.py(), 0, index.release());
         PyTuple_SET_ITEM(tuple.py(), 1, statecopy.release());
         if(PyList_Append(list.py(), tuple.py()))
             throw std::runtime_error(""); // a py exception is active
diff --git a/python/flame/modstate.cpp b/python/flame/modstate.cpp
index 5a071f2..1ebcc25 100644
--- a/python/flame/modstate.cpp
+++ b/python/flame/modstate.cpp
@@ -291,11 +291,7 @@ static
 PyObject* PyState_clone(PyObject *raw, PyObject *unused)
 {
     TRY {
-        std::auto_ptr<StateBase> newstate(state->state->clone());
-
-        PyObject *ret = wrapstate(newstate.get());
-        newstate.release();
-        return ret;
+        return wrapstate(state->state->clone());
     } CATCH()
 }
 
@@ -342,9 +338,10 @@ PyObject* wrapstate(StateBase* b)
 {
     try {
 
+        std::auto_ptr<StateBase> owned(b);
         PyRef<PyState> state(PyStateType.tp_alloc(&PyStateType, 0));
 
-        state->state = b;
+        state->state = owned.release();
         state->attrs = state->weak = state->dict = 0;
 
         state->attrs = PyDict_New();
-- 
2.43.0


From 09364c5fb491335302aeb06bbb7bb93ee077265c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:43 +0000
Subject: [PATCH 46/64] fix: python: propagate() ignores an invalid max, and
 truncates a large one

---
 python/flame/modmachine.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/flame/modmachine.cpp b/python/flame/modmachine.cpp
index adb03a4..6746f60 100644
--- a/python/flame/modmachine.cpp
+++ b/python/flame/modmachine.cpp
@@ -176,7 +176,14 @@ PyObject *PyMachine_propagate(PyObject *raw, PyObject *args, PyObject *kws)
         if(!PyArg_ParseTupleAndKeywords(args, kws, "O|kOO", (char**)pnames, &state, &start, &pymax, &toobserv))
             return NULL;
 
-        if (pymax!=Py_None) max = (int) PyLong_AsLong(pymax);
+        if (pymax!=Py_None) {
+            long val = PyLong_AsLong(pymax);
+            if(val==-1 && PyErr_Occurred())
+                return NULL;
+            if(val>INT_MAX || val<INT_MIN)
+                return PyErr_Format(PyExc_OverflowError, "max is out of range");
+            max = (int) val;
+        }
 
         PyStoreObserver observer;
         PyScopedObserver observing(machine->machine);
-- 
2.43.0


From 5013025e7f131d4c271f66bf30798cc1b68c32a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:43 +0000
Subject: [PATCH 47/64] fix: python: propagate() ignores exceptions from, and
 use of the Machine by, the observe iterator

---
 python/flame/modmachine.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/python/flame/modmachine.cpp b/python/flame/modmachine.cpp
index 6746f60..d6dfe08 100644
--- a/python/flame/modmachine.cpp
+++ b/python/flame/modmachine.cpp
@@ -186,7 +186,7 @@ PyObject *PyMachine_propagate(PyObject *raw, PyObject *args, PyObject *kws)
         }
 
         PyStoreObserver observer;
-        PyScopedObserver observing(machine->machine);
+        std::vector<size_t> indices;
 
         if(toobserv!=Py_None) {
             PyRef<> iter(PyObject_GetIter(toobserv)), item;
@@ -195,11 +195,17 @@ PyObject *PyMachine_propagate(PyObject *raw, PyObject *args, PyObject *kws)
                 Py_ssize_t num = PyNumber_AsSsize_t(item.py(), PyExc_ValueError);
                 if(PyErr_Occurred())
                     throw std::runtime_error(""); // caller will get active python exception
-                observing.observe(num, &observer);
-
+                indices.push_back(num);
             }
+            if(PyErr_Occurred())
+                throw std::runtime_error(""); // caller will get active python exception
         }
 
+        // iterating may have used this Machine, so only start observing now
+        PyScopedObserver observing(machine->machine);
+        for(size_t i=0; i<indices.size(); i++)
+            observing.observe(indices[i], &observer);
+
         machine->machine->propagate(unwrapstate(state), start, max);
         if(toobserv) {
             return observer.list.release();
-- 
2.43.0


From 3c1aa0fd43668b8186e3653ed9926e8a495fb214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:43 +0000
Subject: [PATCH 48/64] fix: python: exception from the truth value of inherit=
 or replace= ignored

---
 python/flame/modmachine.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/python/flame/modmachine.cpp b/python/flame/modmachine.cpp
index d6dfe08..372ad52 100644
--- a/python/flame/modmachine.cpp
+++ b/python/flame/modmachine.cpp
@@ -111,7 +111,10 @@ PyObject *PyMachine_allocState(PyObject *raw, PyObject *args, PyObject *kws)
         if(d==Py_None) {
             C = machine->machine->conf();
         } else if(PyDict_Check(d)) {
-            if(PyObject_IsTrue(W)) {
+            int inherit = PyObject_IsTrue(W);
+            if(inherit<0)
+                return NULL;
+            if(inherit) {
                 C = machine->machine->conf();
                 C.push_scope();
             }
@@ -230,8 +233,12 @@ PyObject *PyMachine_reconfigure(PyObject *raw, PyObject *args, PyObject *kws)
         if(idx>=machine->machine->size())
             return PyErr_Format(PyExc_ValueError, "invalid element index %lu", idx);
 
+        int isreplace = PyObject_IsTrue(replace);
+        if(isreplace<0)
+            return NULL;
+
         Config newconf;
-        if(!PyObject_IsTrue(replace))
+        if(!isreplace)
             newconf = (*machine->machine)[idx]->conf();
 
         PyRef<> list(PyMapping_Items(conf));
-- 
2.43.0


From cdcdd4a8100a610dd0abe19573524a51e27514db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:43 +0000
Subject: [PATCH 49/64] fix: python: deleting an attribute of a State crashes

---
 python/flame/modstate.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/flame/modstate.cpp b/python/flame/modstate.cpp
index 1ebcc25..8f89bd2 100644
--- a/python/flame/modstate.cpp
+++ b/python/flame/modstate.cpp
@@ -139,6 +139,10 @@ int PyState_setattro(PyObject *raw, PyObject *attr, PyObject *val)
         PyObject *idx = PyDict_GetItem(state->attrs, attr);
         if(!idx)
             return PyObject_GenericSetAttr(raw, attr, val);
+        if(!val) {
+            PyErr_Format(PyExc_AttributeError, "Can't delete attribute");
+            return -1;
+        }
         int i = PyInt_AsLong(idx);
 
         StateBase::ArrayInfo info;
-- 
2.43.0


From 24323e3fac30025456fd6cdf7e825d5abf2c09fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:43 +0000
Subject: [PATCH 50/64] fix: python: refused assignment to a scalar of a State
 changes its value

---
 python/flame/modstate.cpp | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/python/flame/modstate.cpp b/python/flame/modstate.cpp
index 8f89bd2..ff731b7 100644
--- a/python/flame/modstate.cpp
+++ b/python/flame/modstate.cpp
@@ -157,27 +157,36 @@ int PyState_setattro(PyObject *raw, PyObject *attr, PyObject *val)
 
             switch(info.type) {
             case StateBase::ArrayInfo::Double: {
-                double *dest = (double*)info.ptr;
+                double newval = 0;
                 if(PyFloat_Check(val))
-                    *dest = PyFloat_AsDouble(val);
+                    newval = PyFloat_AsDouble(val);
                 else if(PyLong_Check(val))
-                    *dest = PyLong_AsDouble(val);
+                    newval = PyLong_AsDouble(val);
                 else if(PyInt_Check(val))
-                    *dest = PyInt_AsLong(val);
+                    newval = PyInt_AsLong(val);
                 else
                     PyErr_Format(PyExc_ValueError, "Can't assign to double field");
+                if(!PyErr_Occurred())
+                    *(double*)info.ptr = newval;
             }
                 break;
             case StateBase::ArrayInfo::Sizet: {
-                size_t *dest = (size_t*)info.ptr;
-                if(PyFloat_Check(val))
-                    *dest = PyFloat_AsDouble(val);
-                else if(PyLong_Check(val))
-                    *dest = PyLong_AsUnsignedLongLong(val);
+                size_t newval = 0;
+                if(PyFloat_Check(val)) {
+                    double dval = PyFloat_AsDouble(val);
+                    // SIZE_MAX is rounded up when converted to double
+                    if(dval>-1.0 && dval<(double)SIZE_MAX)
+                        newval = dval;
+                    else
+                        PyErr_Format(PyExc_OverflowError, "Can't assign negative or too large value to integer field");
+                } else if(PyLong_Check(val))
+                    newval = PyLong_AsSize_t(val);
                 else if(PyInt_Check(val))
-                    *dest = PyInt_AsLong(val);
+                    newval = PyInt_AsLong(val);
                 else
                     PyErr_Format(PyExc_ValueError, "Can't assign to double field");
+                if(!PyErr_Occurred())
+                    *(size_t*)info.ptr = newval;
             }
                 break;
             default:
-- 
2.43.0


From eba331ff445aadf5b72e801a8f4a125d84c55c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:43 +0000
Subject: [PATCH 51/64] fix: python: assigning to an array of a State which
 changes meanwhile writes to freed memory

---
 python/flame/modstate.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/flame/modstate.cpp b/python/flame/modstate.cpp
index ff731b7..f7325eb 100644
--- a/python/flame/modstate.cpp
+++ b/python/flame/modstate.cpp
@@ -210,6 +210,12 @@ int PyState_setattro(PyObject *raw, PyObject *attr, PyObject *val)
         //  means assignment with wrong cardinality
         PyRef<PyArrayObject> arr(PyArray_FromObject(val, pytype, info.ndim, info.ndim));
 
+        // the conversion may run python code which changes this State
+        if(!state->state->getArray(i, info)) {
+            PyErr_Format(PyExc_RuntimeError, "invalid attribute name (sub-class forgot %d)", i);
+            return -1;
+        }
+
         if(info.ndim!=(size_t)PyArray_NDIM(arr.py())) {
             PyErr_Format(PyExc_ValueError, "cardinality don't match");
             return -1;
-- 
2.43.0


From f5fa0f91bb53d7f209a2aff2c4c7b2786f537d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:43 +0000
Subject: [PATCH 52/64] fix: python: collecting garbage while a State is being
 freed frees it twice

---
 python/flame/modstate.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/flame/modstate.cpp b/python/flame/modstate.cpp
index f7325eb..d0bda1a 100644
--- a/python/flame/modstate.cpp
+++ b/python/flame/modstate.cpp
@@ -50,6 +50,8 @@ static
 void PyState_free(PyObject *raw)
 {
     TRY {
+        PyObject_GC_UnTrack(raw);
+
         std::auto_ptr<StateBase> S(state->state);
         state->state = NULL;
 
-- 
2.43.0


From fe00e9fca59313e7f2437dcf1c828188d0266c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:43 +0000
Subject: [PATCH 53/64] fix: propagating a state of another simulation type
 corrupts memory

---
 src/chg_stripper.cpp  | 2 +-
 src/flame/linear.h    | 2 +-
 src/flame/rf_cavity.h | 2 +-
 src/linear.cpp        | 2 +-
 src/moment.cpp        | 8 ++++----
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/chg_stripper.cpp b/src/chg_stripper.cpp
index 6c735ca..c67f32f 100644
--- a/src/chg_stripper.cpp
+++ b/src/chg_stripper.cpp
@@ -185,7 +185,7 @@ void ElementStripper::Stripper_GetMat(const Config &conf,
 
 void ElementStripper::advance(StateBase &s)
 {
-    state_t& ST = static_cast<state_t&>(s);
+    state_t& ST = dynamic_cast<state_t&>(s);
 
     ST.recalc();
     ST.calc_rms(); // paranoia in case someone (python) has made moment0_env inconsistent
diff --git a/src/flame/linear.h b/src/flame/linear.h
index cd33adf..53ab38e 100644
--- a/src/flame/linear.h
+++ b/src/flame/linear.h
@@ -28,7 +28,7 @@ struct LinearElementBase : public ElementVoid
 
     virtual void advance(StateBase& s)
     {
-        State& ST = static_cast<State&>(s);
+        State& ST = dynamic_cast<State&>(s);
         advanceT(ST);
     }
 
diff --git a/src/flame/rf_cavity.h b/src/flame/rf_cavity.h
index 4070427..0f09f77 100644
--- a/src/flame/rf_cavity.h
+++ b/src/flame/rf_cavity.h
@@ -168,7 +168,7 @@ struct ElementRFCavity : public MomentElementBase
 
     virtual void advance(StateBase& s)
     {
-        state_t&  ST = static_cast<state_t&>(s);
+        state_t&  ST = dynamic_cast<state_t&>(s);
         using namespace boost::numeric::ublas;
 
         double x0[2], x2[2], s0[2];
diff --git a/src/linear.cpp b/src/linear.cpp
index 33bd35a..86717ee 100644
--- a/src/linear.cpp
+++ b/src/linear.cpp
@@ -176,7 +176,7 @@ struct ElementSource : public Base
 
     virtual void advance(StateBase& s)
     {
-        state_t& ST = static_cast<state_t&>(s);
+        state_t& ST = dynamic_cast<state_t&>(s);
         // Replace state with our initial values
         ST.assign(istate);
     }
diff --git a/src/moment.cpp b/src/moment.cpp
index f04308a..be43ad8 100644
--- a/src/moment.cpp
+++ b/src/moment.cpp
@@ -664,7 +664,7 @@ unsigned MomentElementBase::get_flag(const Config& c, const std::string& name, c
 
 void MomentElementBase::advance(StateBase& s)
 {
-    state_t&  ST = static_cast<state_t&>(s);
+    state_t&  ST = dynamic_cast<state_t&>(s);
     using namespace boost::numeric::ublas;
 
     // IonEk is Es + E_state; the latter is set by user.
@@ -788,7 +788,7 @@ struct ElementSource : public MomentElementBase
 
     virtual void advance(StateBase& s)
     {
-        state_t& ST = static_cast<state_t&>(s);
+        state_t& ST = dynamic_cast<state_t&>(s);
         if (!ST.retreat)
             // Replace state with our initial values
             ST.assign(istate);
@@ -949,7 +949,7 @@ struct ElementSBend : public MomentElementBase
 
     virtual void advance(StateBase& s)
     {
-        state_t&  ST = static_cast<state_t&>(s);
+        state_t&  ST = dynamic_cast<state_t&>(s);
         using namespace boost::numeric::ublas;
 
         // IonEk is Es + E_state; the latter is set by user.
@@ -1152,7 +1152,7 @@ struct ElementSext : public MomentElementBase
         const bool   thinlens = conf().get<double>("thinlens", 0.0) == 1.0,
                      dstkick = conf().get<double>("dstkick", 1.0) == 1.0;
 
-        state_t&  ST = static_cast<state_t&>(s);
+        state_t&  ST = dynamic_cast<state_t&>(s);
         using namespace boost::numeric::ublas;
 
         ST.recalc();
-- 
2.43.0


From 6b8556098b488aa7c169a2c00250bd2a6f0bd1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:43 +0000
Subject: [PATCH 54/64] fix: python: lattice given as str silently truncated at
 a NUL character

---
 python/flame/modconfig.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/flame/modconfig.cpp b/python/flame/modconfig.cpp
index 12becd4..b0a388b 100644
--- a/python/flame/modconfig.cpp
+++ b/python/flame/modconfig.cpp
@@ -260,7 +260,7 @@ Config* PyGLPSParse2Config(PyObject *, PyObject *args, PyObject *kws)
         PyCString buf;
         const char *cbuf = buf.c_str(conf);
 
-        C.reset(parser.parse_byte(cbuf, strlen(cbuf), path));
+        C.reset(parser.parse_byte(cbuf, PyBytes_Size(buf.pystr.py()), path));
 #endif
 
     } else {
-- 
2.43.0


From 186aa217bab6815f3055ee25a1d9a88a025f6f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:55 +0000
Subject: [PATCH 55/64] fix: vaccel worker survives lack of memory for the
 message of a failed simulation

---
 vaccel/flame.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vaccel/flame.cpp b/vaccel/flame.cpp
index 06e42e1..7f16f4c 100644
--- a/vaccel/flame.cpp
+++ b/vaccel/flame.cpp
@@ -58,8 +58,12 @@ void Sim::run()
 
             valid = true;
         }catch(std::exception& e){
-            last_msg = e.what();
             valid = false;
+            try {
+                last_msg = e.what();
+            }catch(std::exception&){
+                last_msg.clear(); // no memory to keep the message
+            }
         }
 
         epicsTimeGetCurrent(&last_run);
-- 
2.43.0


From 3d0f379460a8475df413ff759037ab19784b3071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:55 +0000
Subject: [PATCH 56/64] fix: flamePrepare without a lattice file name does not
 crash the server

---
 vaccel/flame.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vaccel/flame.cpp b/vaccel/flame.cpp
index 7f16f4c..3afc551 100644
--- a/vaccel/flame.cpp
+++ b/vaccel/flame.cpp
@@ -99,7 +99,7 @@ bool Sim::test_debug(unsigned lvl)
  */
 void flamePrepare(const char *name, const char *lattice)
 {
-    if(!name) return;
+    if(!name || !lattice) return;
     try {
         Guard G(SimGlobal.lock);
 
-- 
2.43.0


From 62583f7b8672a239890b19bf2044f533b855bfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:09 +0000
Subject: [PATCH 57/64] fix: parse_file("-") reads standard input as documented

---
 src/config.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config.cpp b/src/config.cpp
index a4604ff..a76d298 100644
--- a/src/config.cpp
+++ b/src/config.cpp
@@ -365,7 +365,7 @@ Config*
 GLPSParser::parse_file(const char *fname, const bool have_lattice)
 {
     boost::filesystem::path fpath;
-    if(fname) {
+    if(fname && strcmp(fname,"-")!=0) {
         fpath = boost::filesystem::canonical(fname).parent_path();
     } else {
         fpath = boost::filesystem::current_path();
-- 
2.43.0


From 8ea81b05d69eb06dccd3300fbbb6c7ee3a0c0bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:09 +0000
Subject: [PATCH 58/64] fix: ioc generator counts element instances by element
 name

---
 python/flame/ioc.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/flame/ioc.py b/python/flame/ioc.py
index 515973a..ff65efd 100644
--- a/python/flame/ioc.py
+++ b/python/flame/ioc.py
@@ -30,6 +30,7 @@ class Generator(object):
 
         stype = self._D['sim_type']
         outnames = set()
+        ninst = defaultdict(int) # element name -> instances so far
 
         nmarkers = 0
 
@@ -41,6 +42,11 @@ class Generator(object):
             ename = elem['name']
             rname = self._M(elem)
 
+            inst = ninst[ename]
+            ninst[ename] += 1
+            if inst>0:
+                ename = '%s[%d]'%(ename,inst)
+
             if etype=='marker':
                 nmarkers += 1
 
@@ -49,7 +55,6 @@ class Generator(object):
                 while '%s%d'%(rname,N) in outnames:
                     N += 1
                 rname = '%s%d'%(rname,N)
-                ename = '%s[%d]'%(ename,N)
             outnames.add(rname)
 
             _log.debug("Inspect %(name)s : %(type)s"%elem)
-- 
2.43.0


From 17c9f5a10a55f0c23c0e344f6bf94b19b7c37120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:18 +0000
Subject: [PATCH 59/64] fix: Vector states print their value

VectorState::show() lacked the level argument, so it did not override
StateBase::show() and nothing was printed.
---
 src/flame/state/vector.h | 2 +-
 src/linear.cpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flame/state/vector.h b/src/flame/state/vector.h
index e5e3383..f79b9f8 100644
--- a/src/flame/state/vector.h
+++ b/src/flame/state/vector.h
@@ -26,7 +26,7 @@ struct VectorState : public StateBase
                     boost::numeric::ublas::bounded_array<double, maxsize>
     > value_t;
 
-    virtual void show(std::ostream& strm) const;
+    virtual void show(std::ostream& strm, int level) const;
 
     value_t state;
 
diff --git a/src/linear.cpp b/src/linear.cpp
index 86717ee..6015a66 100644
--- a/src/linear.cpp
+++ b/src/linear.cpp
@@ -101,7 +101,7 @@ void VectorState::assign(const StateBase& other)
     StateBase::assign(other);
 }
 
-void VectorState::show(std::ostream& strm) const
+void VectorState::show(std::ostream& strm, int level) const
 {
     strm<<"State: "<<state<<"\n";
 }
-- 
2.43.0


From a9abab8775a9dae577c31b09466fc33ef7d27d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:18 +0000
Subject: [PATCH 60/64] fix: failed MomentState::assign() does not leave
 inconsistent arrays

Reserve everything first, so that a failed allocation can not leave
real, moment0, moment1 and transmat with different lengths.
---
 src/moment.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/moment.cpp b/src/moment.cpp
index be43ad8..f7e0884 100644
--- a/src/moment.cpp
+++ b/src/moment.cpp
@@ -255,6 +255,11 @@ void MomentState::assign(const StateBase& other)
     const MomentState *O = dynamic_cast<const MomentState*>(&other);
     if(!O)
         throw std::invalid_argument("Can't assign State: incompatible types");
+    // after this nothing can fail, so we are never left with some of the charge states
+    real.reserve(O->real.size());
+    moment0.reserve(O->moment0.size());
+    moment1.reserve(O->moment1.size());
+    transmat.reserve(O->transmat.size());
     ref     = O->ref;
     real    = O->real;
     moment0 = O->moment0;
-- 
2.43.0


From 7b890fe164dea41f125015e60ae6490e0b180ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:18 +0000
Subject: [PATCH 61/64] fix: stripper out of memory does not leave inconsistent
 arrays

---
 src/chg_stripper.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/chg_stripper.cpp b/src/chg_stripper.cpp
index c67f32f..e45b6f4 100644
--- a/src/chg_stripper.cpp
+++ b/src/chg_stripper.cpp
@@ -156,6 +156,12 @@ void ElementStripper::Stripper_GetMat(const Config &conf,
 
     s = StatePtr->pos;
 
+    // don't leave some of these resized if one fails
+    ST.real.reserve(n);
+    ST.moment0.reserve(n);
+    ST.moment1.reserve(n);
+    ST.transmat.reserve(n);
+
     ST.real.resize(n);
     ST.moment0.resize(n);
     ST.moment1.resize(n);
-- 
2.43.0


From bb5c1af33ab5b7b6afa569d2b9579726169e6f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:18 +0000
Subject: [PATCH 62/64] fix: stripper refuses too short parameter lists

instead of reading beyond the end of Stripper_Para and Stripper_E0Para,
or leaving a state without charge states.
---
 src/chg_stripper.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/chg_stripper.cpp b/src/chg_stripper.cpp
index e45b6f4..6f1d309 100644
--- a/src/chg_stripper.cpp
+++ b/src/chg_stripper.cpp
@@ -87,6 +87,11 @@ void ElementStripper::Stripper_GetMat(const Config &conf,
     Stripper_Para = conf.get<std::vector<double> >("Stripper_Para", p1_default);
     Stripper_E0Para = conf.get<std::vector<double> >("Stripper_E0Para", p2_default);
 
+    if(ChgState.empty())
+        throw std::runtime_error("charge stripper requires at least one value in IonChargeStates[]");
+    if(Stripper_Para.size()<3 || Stripper_E0Para.size()<3)
+        throw std::runtime_error("charge stripper requires that Stripper_Para[] and Stripper_E0Para[] have 3 values");
+
     n = ChgState.size();
 
     if(chrgmdl=="off" )
-- 
2.43.0


From fea13541bf3ad6dbd8a423bfa27b0e6a85200425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:18 +0000
Subject: [PATCH 63/64] fix: refuse incomplete lines and extra gaps in
 thinlenlon files

An incomplete line left length and aperture uninitialised, and more than
two gaps read beyond the end of the tables of the two gap model.
---
 src/rf_cavity.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index 307fb58..73a0743 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -773,7 +773,7 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
             std::ifstream fstrm(cavfile.c_str());
 
             std::string rawline;
-            unsigned line=0;
+            unsigned line=0, ngaps=0;
             while(std::getline(fstrm, rawline)) {
                 line++;
 
@@ -794,9 +794,13 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
                 else
                     params.E0 = 0.0;
 
-                if(lstrm.fail() && !lstrm.eof()) {
+                if(lstrm.fail()) {
                     throw std::runtime_error(SB()<<"Error parsing line '"<<line<<"' in '"<<cavfile<<"'");
                 }
+                // the cavity model has two accelerating gaps
+                if(params.type=="AccGap" && ++ngaps>2) {
+                    throw std::runtime_error(SB()<<"More than two 'AccGap' (line '"<<line<<"') in '"<<cavfile<<"'");
+                }
                 lattice.push_back(params);
             }
 
-- 
2.43.0


From 9e151b5b25532b73cb61c2b71fdf2f1792fba6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:18 +0000
Subject: [PATCH 64/64] fix: refuse too short field maps and limits of RF
 cavities

instead of reading outside of the field map, SyncFit/attr, EnergyLimit
and NormLimit tables.
---
 src/rf_cavity.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index 73a0743..36a1209 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -639,6 +639,8 @@ double GetCavPhase(const int cavi, const Particle& ref, const double IonFys, con
         Fyc = 5.428*pow(IonEk, -0.5008) + 1.6;
         break;
     case 0:
+        if(P.size()<3)
+            throw std::runtime_error("*** GetCavPhase: no 'AccGap' which defines the synchronous phase");
         Fyc = P[0]*pow(IonEk,P[1])- P[2];
         break;
     default:
@@ -754,8 +756,8 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
         try{
             numeric_table_cache::table_pointer ent = cache->fetch(fldmap);
             CavData = *ent;
-            if(CavData.table.size1()==0 || CavData.table.size2()<2)
-                throw std::runtime_error("field map needs 2+ columns");
+            if(CavData.table.size1()<2 || CavData.table.size2()<2)
+                throw std::runtime_error("field map needs 2+ rows and columns");
         }catch(std::exception& e){
             throw std::runtime_error(SB()<<"Error parsing '"<<fldmap<<"' : "<<e.what());
         }
@@ -877,6 +879,7 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
         bool checker = conf->tryGet<std::vector<double> >("Ez", Ez);
         if (!checker) throw std::runtime_error(SB()<<"'Ez' is missing in RF cavity file.\n");
         CavData.readvec(Ez,2);
+        if (CavData.table.size1()<2) throw std::runtime_error(SB()<<"'Ez' is too short in '"<<DataFile<<"'");
         conf->tryGet<double>("Rm",cRm);
 
         // Get extra parameters for complex synchronous phase definition
@@ -884,6 +887,8 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
         have_SynComplex = conf->tryGet<std::vector<double> >("SyncFit", SynComplex);
         have_EkLim = conf->tryGet<std::vector<double> >("EnergyLimit", EkLim);
         have_NrLim = conf->tryGet<std::vector<double> >("NormLimit", NrLim);
+        if ((have_EkLim && EkLim.size()<2) || (have_NrLim && NrLim.size()<2))
+            throw std::runtime_error(SB()<<"'EnergyLimit' and 'NormLimit' need 2 values in '"<<DataFile<<"'");
     }
 }
 
-- 
2.43.0

