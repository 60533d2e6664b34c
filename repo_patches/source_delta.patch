From bb9aa58b3368545b46432b20d6be8153c8d146dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:49 +0000
Subject: [PATCH 01/23] fix: adding a mixin by name with a function op in
 mutate does not compile

---
 code/dynamix/mutate_ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/dynamix/mutate_ops.hpp b/code/dynamix/mutate_ops.hpp
index c30c5d0..d00fe95 100644
--- a/code/dynamix/mutate_ops.hpp
+++ b/code/dynamix/mutate_ops.hpp
@@ -58,7 +58,7 @@ struct add_mixin_op_with_func_by_name final : public mutate_op_by_name, public o
         : mutate_op_by_name(name)
         , object_mutate_op_with_func<ConstructNew_Func>(std::forward<ConstructNew_Func>(func))
     {}
-    void apply_to_type_mutation(type_mutation& mut) { this->info_to_add = &mut.add(name); }
+    void apply_to_type_mutation(type_mutation& mut) { this->affected_info = &mut.add(name); }
 };
 
 template <typename ConstructNew_Func>
-- 
2.43.0


From addde25e3431f525b4005384efff8b8d76df7be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:48 +0000
Subject: [PATCH 02/23] fix: mutations to the empty type never complete and
 leave the object with a buffer

---
 code/dynamix/object_mutation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/code/dynamix/object_mutation.cpp b/code/dynamix/object_mutation.cpp
index e978afe..e84a629 100644
--- a/code/dynamix/object_mutation.cpp
+++ b/code/dynamix/object_mutation.cpp
@@ -87,6 +87,12 @@ void object_mutation::deallocate_external_mixin(void* ptr, const mixin_info& inf
 void object_mutation::allocate_mixin_data() {
     assert(m_allocated_upto == 0);
 
+    if (m_target_type.num_mixins() == 0) {
+        // the target is an empty type: empty objects have no mixin data and there is nothing to update
+        m_complete = true;
+        return;
+    }
+
     if (&m_target_type == m_old_type) {
         // tag: same_type_shortcut
         // we've somehow ended-up mutating the object with the same type
-- 
2.43.0


From 00b5d12810a97c127a3c699c92596841b0d07574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:27 +0000
Subject: [PATCH 03/23] fix: a query with dependency mixins fails as cyclic
 when there are no mutation rules

---
 code/dynamix/domain.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/dynamix/domain.cpp b/code/dynamix/domain.cpp
index d17587e..7f76c3a 100644
--- a/code/dynamix/domain.cpp
+++ b/code/dynamix/domain.cpp
@@ -474,7 +474,7 @@ public:
                 if (i == 0) return last_result; // first application changed nothing
                 return original_query;
             }
-            if (i == max_depenency_depth || i == int(rules.size())) {
+            if (!rules.empty() && (i == max_depenency_depth || i == int(rules.size()))) {
                 // again: this is not necessarily a real cycle but we treat it as such
                 throw_exception::cyclic_rule_deps(mutation);
             }
-- 
2.43.0


From a1af718a39a741e46b2248dd3315bf95ded9a118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:56 +0000
Subject: [PATCH 04/23] fix: unregistering another domain's mixin drops own
 types and queries before it is refused

---
 code/dynamix/domain.cpp          | 14 ++++++++------
 code/dynamix/throw_exception.cpp |  2 +-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/code/dynamix/domain.cpp b/code/dynamix/domain.cpp
index 7f76c3a..9cd342b 100644
--- a/code/dynamix/domain.cpp
+++ b/code/dynamix/domain.cpp
@@ -285,8 +285,15 @@ public:
     }
 
     void unregister_mixin(mixin_info& info) {
+        auto treg = m_type_registry.unique_lock();
+        auto reg = m_element_registry.unique_lock();
+        auto& sparse_mixins = reg->sparse_mixins;
+
+        // mixin is not our own?
+        // check this first: the types and queries below are found by id, which may be the one of our own mixin
+        if (info.iid() >= sparse_mixins.size() || sparse_mixins[info.iid()] != &info) throw_exception::unreg_foreign(m_domain, info);
+
         {
-            auto treg = m_type_registry.unique_lock();
             // since this mixin is no longer valid
             // remove all queries which contain it either as key or as value
             auto& queries = treg->type_queries;
@@ -322,11 +329,6 @@ public:
             }
         }
 
-        auto reg = m_element_registry.unique_lock();
-        auto& sparse_mixins = reg->sparse_mixins;
-
-        // mixin is not our own?
-        if (info.iid() >= sparse_mixins.size() || sparse_mixins[info.iid()] != &info) throw_exception::unreg_foreign(m_domain, info);
         sparse_mixins[info.iid()] = nullptr; // free slot
 
         // invalidate info
diff --git a/code/dynamix/throw_exception.cpp b/code/dynamix/throw_exception.cpp
index e35c019..43fca36 100644
--- a/code/dynamix/throw_exception.cpp
+++ b/code/dynamix/throw_exception.cpp
@@ -131,7 +131,7 @@ void unreg_foreign(const domain& dom, const feature_info& info) {
 }
 void unreg_foreign(const domain& dom, const mixin_info& info) {
     e<domain_error> out(dom);
-    out << "unregister foreign feature " << info << ", id = " << info.iid() << ", domain = ";
+    out << "unregister foreign mixin " << info << ", id = " << info.iid() << ", domain = ";
     if (info.dom) {
         out << *domain::from_c_handle(info.dom);
     }
-- 
2.43.0


From 94da9ec15c9698fcc8f7331ece766105f07fea10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:55 +0000
Subject: [PATCH 05/23] fix: exceptions leave dnmx_create_domain,
 dnmx_unregister_*, and dnmx_object_reset_type

---
 code/dynamix/domain-c.cpp | 23 +++++++++++++++++++----
 code/dynamix/object-c.cpp | 12 ++++++------
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/code/dynamix/domain-c.cpp b/code/dynamix/domain-c.cpp
index eb801d1..edb4d59 100644
--- a/code/dynamix/domain-c.cpp
+++ b/code/dynamix/domain-c.cpp
@@ -15,8 +15,13 @@ extern "C" {
 #define self domain::from_c_handle(hd)
 
 dnmx_domain_handle dnmx_create_domain(dnmx_sv name, dnmx_domain_settings settings, uintptr_t user_data, void* context) {
-    auto new_dom = new dynamix::domain(name.to_std(), settings, user_data, context);
-    return new_dom->to_c_hanlde();
+    try {
+        auto new_dom = new dynamix::domain(name.to_std(), settings, user_data, context);
+        return new_dom->to_c_hanlde();
+    }
+    catch (std::exception&) {
+        return nullptr;
+    }
 }
 void dnmx_destroy_domain(dnmx_domain_handle hd) {
     delete self;
@@ -39,7 +44,12 @@ dnmx_error_return_t dnmx_register_feature(dnmx_domain_handle hd, dnmx_feature_in
     }
 }
 void dnmx_unregister_feature(dnmx_domain_handle hd, dnmx_feature_info* info) {
-    self->unregister_feature(*info);
+    try {
+        self->unregister_feature(*info);
+    }
+    catch (std::exception&) {
+        // foreign feature: nothing is unregistered
+    }
 }
 
 dnmx_error_return_t dnmx_register_mixin(dnmx_domain_handle hd, dnmx_mixin_info* info) {
@@ -52,7 +62,12 @@ dnmx_error_return_t dnmx_register_mixin(dnmx_domain_handle hd, dnmx_mixin_info*
     }
 }
 void dnmx_unregister_mixin(dnmx_domain_handle hd, dnmx_mixin_info* info) {
-    self->unregister_mixin(*info);
+    try {
+        self->unregister_mixin(*info);
+    }
+    catch (std::exception&) {
+        // foreign mixin: nothing is unregistered
+    }
 }
 
 const dnmx_feature_info* dnmx_get_feature_info_by_id(dnmx_domain_handle hd, dnmx_feature_id id) {
diff --git a/code/dynamix/object-c.cpp b/code/dynamix/object-c.cpp
index 2fc40c0..629b587 100644
--- a/code/dynamix/object-c.cpp
+++ b/code/dynamix/object-c.cpp
@@ -105,16 +105,16 @@ bool dnmx_object_clear(dnmx_object_handle ho) {
     return true;
 }
 dnmx_error_return_t dnmx_object_reset_type(dnmx_object_handle ho, dnmx_type_handle ht) {
-    if (ht) {
-        try {
+    try {
+        if (ht) {
             self->reset_type(*type::from_c_handle(ht));
         }
-        catch (std::exception&) {
-            return -1;
+        else {
+            self->clear();
         }
     }
-    else {
-        self->clear();
+    catch (std::exception&) {
+        return -1;
     }
 
     return dnmx_result_success;
-- 
2.43.0


From d87098ddac3dc8c67073216809199c4beb45f3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:55 +0000
Subject: [PATCH 06/23] fix: dnmx_object_compare returns an indeterminate
 result on error

---
 code/dynamix/object-c.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/dynamix/object-c.cpp b/code/dynamix/object-c.cpp
index 629b587..8659d7e 100644
--- a/code/dynamix/object-c.cpp
+++ b/code/dynamix/object-c.cpp
@@ -137,7 +137,7 @@ bool dnmx_object_equals(dnmx_const_object_handle ho, dnmx_const_object_handle b)
 }
 
 dnmx_int_result dnmx_object_compare(dnmx_const_object_handle ho, dnmx_const_object_handle b) {
-    dnmx_int_result ret;
+    dnmx_int_result ret = {};
     try {
         ret.result = self->compare(*object::from_c_handle(b));
         ret.error = dnmx_result_success;
-- 
2.43.0


From 35cb0f69db971a810730cecf002cde9dbb08a9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:55 +0000
Subject: [PATCH 07/23] fix: dnmx_object_implements_strong is declared but not
 defined

---
 code/dynamix/object-c.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/code/dynamix/object-c.cpp b/code/dynamix/object-c.cpp
index 8659d7e..94477c9 100644
--- a/code/dynamix/object-c.cpp
+++ b/code/dynamix/object-c.cpp
@@ -80,6 +80,13 @@ bool dnmx_object_has_by_name(dnmx_const_object_handle ho, dnmx_sv name) {
     return self->has(name.to_std());
 }
 
+bool dnmx_object_implements_strong(dnmx_const_object_handle ho, const dnmx_feature_info* info) {
+    return self->get_type().implements_strong(*info);
+}
+bool dnmx_object_implements_strong_by_name(dnmx_const_object_handle ho, dnmx_sv name) {
+    return self->get_type().implements_strong(name.to_std());
+}
+
 const void* dnmx_object_get(dnmx_const_object_handle ho, const dnmx_mixin_info* info) {
     return self->get(*info);
 }
-- 
2.43.0


From ad847749dddcb337cfe3363df2d5dd11d215d410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:47 +0000
Subject: [PATCH 08/23] fix: mutations are rolled back when performed during
 stack unwinding of an unrelated exception

---
 code/dynamix/mutate.hpp          | 5 ++++-
 code/dynamix/object_mutation.cpp | 2 +-
 code/dynamix/object_mutation.hpp | 6 ++++++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/code/dynamix/mutate.hpp b/code/dynamix/mutate.hpp
index fea31fb..9fcc55f 100644
--- a/code/dynamix/mutate.hpp
+++ b/code/dynamix/mutate.hpp
@@ -6,6 +6,8 @@
 #include "mutate_to.hpp"
 #include "domain.hpp"
 
+#include <exception>
+
 namespace dynamix {
 // regular mutate with ops as arguments
 template <typename... Ops>
@@ -25,13 +27,14 @@ class gradual_mutation {
     type_mutation m_type_mut;
     object& m_obj;
     bool m_applied = false;
+    const int m_num_uncaught_exceptions = std::uncaught_exceptions(); // in flight when the mutation started
 public:
     gradual_mutation(object& obj)
         : m_type_mut(obj.get_type())
         , m_obj(obj)
     {}
     ~gradual_mutation() noexcept(false) {
-        if (std::uncaught_exceptions()) return;
+        if (std::uncaught_exceptions() > m_num_uncaught_exceptions) return;
         if (m_applied) return;
         apply();
     }
diff --git a/code/dynamix/object_mutation.cpp b/code/dynamix/object_mutation.cpp
index e84a629..6cb73a4 100644
--- a/code/dynamix/object_mutation.cpp
+++ b/code/dynamix/object_mutation.cpp
@@ -48,7 +48,7 @@ object_mutation::object_mutation(std::nullptr_t, object& obj) noexcept
 object_mutation::~object_mutation() noexcept(false) {
     if (m_moved_out_from) return;
 
-    if (std::uncaught_exceptions()) {
+    if (std::uncaught_exceptions() > m_num_uncaught_exceptions) {
         rollback();
         return;
     }
diff --git a/code/dynamix/object_mutation.hpp b/code/dynamix/object_mutation.hpp
index 2ae8e55..24db6ad 100644
--- a/code/dynamix/object_mutation.hpp
+++ b/code/dynamix/object_mutation.hpp
@@ -9,6 +9,8 @@
 #include "globals.hpp"
 #include "object_mutation_funcs.hpp"
 
+#include <exception>
+
 namespace dynamix {
 class object;
 
@@ -159,6 +161,10 @@ private:
 
     bool m_complete = false;
 
+    // exceptions in flight when the mutation started
+    // only more than these mean that the mutation itself is being aborted
+    const int m_num_uncaught_exceptions = std::uncaught_exceptions();
+
     // rust-style bool to help us support moving mutations
     bool m_moved_out_from = false;
 };
-- 
2.43.0


From f2ff6abd56c9d559408f94bce8eca8cbab077524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:47 +0000
Subject: [PATCH 09/23] fix: mutate_to with a constructor override by an
 unknown name dereferences null

---
 code/dynamix/mutate_to.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/dynamix/mutate_to.hpp b/code/dynamix/mutate_to.hpp
index 09481eb..19b0f35 100644
--- a/code/dynamix/mutate_to.hpp
+++ b/code/dynamix/mutate_to.hpp
@@ -33,6 +33,7 @@ void mutate_to(object& obj, const type& type, Ops&&... ops) {
     obj_mutates_end = std::remove_if(obj_mutates, obj_mutates_end, [&type](object_mutate_op* op) {
         if (!op) return true; // null (non add-mixin op)
         if (!op->overrides_init()) return true; // valid op, which doesn't override init, so we don't need it
+        if (!op->affected_info) return true; // unknown mixin name
         auto index = type.index_of(op->affected_info->id);
         if (index == invalid_mixin_index) return true; // mixin which was removed by rules
         op->mixin_index = index; // assign index
-- 
2.43.0


From 800f9aaf1518c7593bea9ad123168b9367ad423e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:47 +0000
Subject: [PATCH 10/23] fix: several constructor overrides for a mixin in
 mutate_to are applied to the mixins after it

---
 code/dynamix/mutate_to.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/code/dynamix/mutate_to.hpp b/code/dynamix/mutate_to.hpp
index 19b0f35..f12f470 100644
--- a/code/dynamix/mutate_to.hpp
+++ b/code/dynamix/mutate_to.hpp
@@ -41,10 +41,15 @@ void mutate_to(object& obj, const type& type, Ops&&... ops) {
     });
 
     // sort by index
-    std::sort(obj_mutates, obj_mutates_end, [](const object_mutate_op* a, const object_mutate_op* b) {
+    std::stable_sort(obj_mutates, obj_mutates_end, [](const object_mutate_op* a, const object_mutate_op* b) {
         return a->mixin_index < b->mixin_index;
     });
 
+    // if there are several ops for the same mixin, the first one wins
+    obj_mutates_end = std::unique(obj_mutates, obj_mutates_end, [](const object_mutate_op* a, const object_mutate_op* b) {
+        return a->mixin_index == b->mixin_index;
+    });
+
     // when overriding ops are sorted, we can do a piecewise mutation
     object_mutation obj_mut(obj, type);
     for (auto i = obj_mutates; i != obj_mutates_end; ++i) {
-- 
2.43.0


From f8a3b2ca8cad6dcdef82cdaedc26edfa5961f4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:47 +0000
Subject: [PATCH 11/23] fix: an object which was moved out from stays sealed

---
 code/dynamix/object.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/dynamix/object.cpp b/code/dynamix/object.cpp
index df3c647..c98a975 100644
--- a/code/dynamix/object.cpp
+++ b/code/dynamix/object.cpp
@@ -313,6 +313,7 @@ void object::usurp(object& other) noexcept {
     // clear other object
     other.m_type = &get_domain().get_empty_type();
     other.m_mixin_data = nullptr;
+    other.m_sealed = false;
 }
 
 }
-- 
2.43.0


From 9605dbff9291c566cf1c263e3615e810fe64fbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:47 +0000
Subject: [PATCH 12/23] fix: registering a type class in a freed slot writes to
 a dangling local and loses the class

---
 code/dynamix/domain.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/dynamix/domain.cpp b/code/dynamix/domain.cpp
index 9cd342b..a668cc2 100644
--- a/code/dynamix/domain.cpp
+++ b/code/dynamix/domain.cpp
@@ -345,7 +345,7 @@ public:
         // search in reverse order while also checking for name clashes
         const type_class** free_slot = nullptr;
         for (auto i = reg->sparse_type_classes.rbegin(); i != reg->sparse_type_classes.rend(); ++i) {
-            auto tc = *i;
+            auto& tc = *i;
             if (tc) {
                 if (tc->name == new_tc.name) throw_exception::duplicate_name(m_domain, new_tc);
             }
-- 
2.43.0


From c0fd1301eb98a0be2faa1c0a1a089f0a971907d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:36 +0000
Subject: [PATCH 13/23] fix: a failed allocation in the copy of a type's mixins
 terminates the program

---
 code/dynamix/type_mutation.cpp | 2 +-
 code/dynamix/type_mutation.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/dynamix/type_mutation.cpp b/code/dynamix/type_mutation.cpp
index 7cf6ccd..e66f4aa 100644
--- a/code/dynamix/type_mutation.cpp
+++ b/code/dynamix/type_mutation.cpp
@@ -22,7 +22,7 @@ type_mutation::type_mutation(domain& d, const allocator& alloc) noexcept
     , mixins(alloc)
 {}
 
-type_mutation::type_mutation(const type& base, const allocator& alloc) noexcept
+type_mutation::type_mutation(const type& base, const allocator& alloc)
     : type_mutation(base.dom, alloc)
 {
     mixins.assign(base.mixins.begin(), base.mixins.end());
diff --git a/code/dynamix/type_mutation.hpp b/code/dynamix/type_mutation.hpp
index c82d647..5c78418 100644
--- a/code/dynamix/type_mutation.hpp
+++ b/code/dynamix/type_mutation.hpp
@@ -30,7 +30,7 @@ public:
 
     // start a mutation with a specific base
     // optionally provide an allocator for the type template
-    explicit type_mutation(const type& base, const allocator& alloc = {}) noexcept;
+    explicit type_mutation(const type& base, const allocator& alloc = {});
 
     // add mixin
     void add(const mixin_info& info) { mixins.push_back(&info); }
-- 
2.43.0


From 9de66beaf0b6ded9450a1b89e476b17ddb11394f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:32 +0000
Subject: [PATCH 14/23] fix: comparison of views with the same beginning
 ignores their length

---
 code/dnmx/bits/sv.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/dnmx/bits/sv.h b/code/dnmx/bits/sv.h
index 6d5d449..66faaaa 100644
--- a/code/dnmx/bits/sv.h
+++ b/code/dnmx/bits/sv.h
@@ -80,11 +80,11 @@ static inline bool dnmx_sv_is_empty(dnmx_sv sv) { return sv.begin == sv.end; }
 static inline size_t dnmx_sv_len(dnmx_sv sv) { return sv.end - sv.begin; }
 
 static inline int dnmx_sv_cmp(dnmx_sv a, dnmx_sv b) {
-    // avoid memcmp with null
-    if (a.begin == b.begin) return 0;
     size_t alen = dnmx_sv_len(a);
-    if (!b.begin) return !!alen;
     size_t blen = dnmx_sv_len(b);
+    // avoid memcmp with null
+    if (a.begin == b.begin) return (alen > blen) - (alen < blen);
+    if (!b.begin) return !!alen;
     if (!a.begin) return -!!blen;
 
     if (alen == blen) {
-- 
2.43.0


From 85d162c3d82ac98d7b0e688c6f066758b9931542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:15 +0000
Subject: [PATCH 15/23] fix: mixin_info_data::register_in leaves the mutation
 rules when the mixin is refused

---
 code/dynamix/mixin_info_data.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/code/dynamix/mixin_info_data.cpp b/code/dynamix/mixin_info_data.cpp
index 7b7729a..6cd51f6 100644
--- a/code/dynamix/mixin_info_data.cpp
+++ b/code/dynamix/mixin_info_data.cpp
@@ -7,10 +7,21 @@
 namespace dynamix::util {
 
 void mixin_info_data::register_in(domain& dom) {
-    for (auto* r : mutation_rule_infos) {
-        dom.add_mutation_rule(*r);
+    size_t num_added = 0;
+    try {
+        for (auto* r : mutation_rule_infos) {
+            dom.add_mutation_rule(*r);
+            ++num_added;
+        }
+        dom.register_mixin(info);
+    }
+    catch (...) {
+        // don't leave the rules of a mixin which couldn't be registered
+        for (size_t i = 0; i < num_added; ++i) {
+            dom.remove_mutation_rule(*mutation_rule_infos[i]);
+        }
+        throw;
     }
-    dom.register_mixin(info);
 }
 
 void mixin_info_data::unregister_from(domain& dom) noexcept {
-- 
2.43.0


From ad9b1ffea137b6d3fe4adb3b78a752f8eac2e10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:26 +0000
Subject: [PATCH 16/23] fix: exceptions of user callbacks not derived from
 std::exception leave C functions

---
 code/dynamix/domain-c.cpp        | 18 +++++++++---------
 code/dynamix/mutate-c.cpp        |  4 ++--
 code/dynamix/object-c.cpp        | 14 +++++++-------
 code/dynamix/type-c.cpp          |  2 +-
 code/dynamix/type_mutation-c.cpp | 14 +++++++-------
 5 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/code/dynamix/domain-c.cpp b/code/dynamix/domain-c.cpp
index edb4d59..56ffbf7 100644
--- a/code/dynamix/domain-c.cpp
+++ b/code/dynamix/domain-c.cpp
@@ -19,7 +19,7 @@ dnmx_domain_handle dnmx_create_domain(dnmx_sv name, dnmx_domain_settings setting
         auto new_dom = new dynamix::domain(name.to_std(), settings, user_data, context);
         return new_dom->to_c_hanlde();
     }
-    catch (std::exception&) {
+    catch (...) {
         return nullptr;
     }
 }
@@ -39,7 +39,7 @@ dnmx_error_return_t dnmx_register_feature(dnmx_domain_handle hd, dnmx_feature_in
         self->register_feature(*info);
         return dnmx_result_success;
     }
-    catch (std::exception&) {
+    catch (...) {
         return -1;
     }
 }
@@ -47,7 +47,7 @@ void dnmx_unregister_feature(dnmx_domain_handle hd, dnmx_feature_info* info) {
     try {
         self->unregister_feature(*info);
     }
-    catch (std::exception&) {
+    catch (...) {
         // foreign feature: nothing is unregistered
     }
 }
@@ -57,7 +57,7 @@ dnmx_error_return_t dnmx_register_mixin(dnmx_domain_handle hd, dnmx_mixin_info*
         self->register_mixin(*info);
         return dnmx_result_success;
     }
-    catch (std::exception&) {
+    catch (...) {
         return -1;
     }
 }
@@ -65,7 +65,7 @@ void dnmx_unregister_mixin(dnmx_domain_handle hd, dnmx_mixin_info* info) {
     try {
         self->unregister_mixin(*info);
     }
-    catch (std::exception&) {
+    catch (...) {
         // foreign mixin: nothing is unregistered
     }
 }
@@ -91,7 +91,7 @@ dnmx_error_return_t dnmx_register_type_class(dnmx_domain_handle hd, const dnmx_t
         self->register_type_class(*tc);
         return dnmx_result_success;
     }
-    catch (std::exception&) {
+    catch (...) {
         return -1;
     }
 }
@@ -109,7 +109,7 @@ dnmx_error_return_t dnmx_add_mutation_rule(dnmx_domain_handle hd, const dnmx_mut
         self->add_mutation_rule(*info);
         return 0;
     }
-    catch (std::exception&) {
+    catch (...) {
         return -1;
     }
 }
@@ -121,7 +121,7 @@ dnmx_type_handle dnmx_get_type_from_infos(dnmx_domain_handle hd, const dnmx_mixi
     try {
         return &self->get_type({mixins, num_mixins});
     }
-    catch (std::exception&) {
+    catch (...) {
         return nullptr;
     }
 }
@@ -132,7 +132,7 @@ dnmx_type_handle dnmx_get_type(dnmx_domain_handle hd, dnmx_type_mutation_handle*
         *hmut = nullptr;
         return &self->get_type(std::move(*pmut));
     }
-    catch (std::exception&) {
+    catch (...) {
         return nullptr;
     }
 }
diff --git a/code/dynamix/mutate-c.cpp b/code/dynamix/mutate-c.cpp
index 94ef437..5c1cf75 100644
--- a/code/dynamix/mutate-c.cpp
+++ b/code/dynamix/mutate-c.cpp
@@ -62,7 +62,7 @@ dnmx_error_return_t dnmx_mutate_to(dnmx_object_handle obj, dnmx_type_handle ht,
 
         return result_success;
     }
-    catch (std::exception&) {
+    catch (...) {
         return -1;
     }
 }
@@ -120,7 +120,7 @@ DYNAMIX_API dnmx_error_return_t dnmx_mutate(dnmx_object_handle ho, const dnmx_mu
 
         return result_success;
     }
-    catch (std::exception&) {
+    catch (...) {
         return -1;
     }
 }
diff --git a/code/dynamix/object-c.cpp b/code/dynamix/object-c.cpp
index 94477c9..afc0a16 100644
--- a/code/dynamix/object-c.cpp
+++ b/code/dynamix/object-c.cpp
@@ -17,7 +17,7 @@ dnmx_object_handle dnmx_create_object_empty(dnmx_domain_handle hd) {
         auto obj = new object(*domain::from_c_handle(hd));
         return obj->to_c_hanlde();
     }
-    catch (std::exception&) {
+    catch (...) {
         return nullptr;
     }
 }
@@ -26,7 +26,7 @@ dnmx_object_handle dnmx_create_object_default(dnmx_type_handle ht) {
         auto obj = new object(*type::from_c_handle(ht));
         return obj->to_c_hanlde();
     }
-    catch (std::exception&) {
+    catch (...) {
         return nullptr;
     }
 }
@@ -35,7 +35,7 @@ dnmx_object_handle dnmx_create_object_copy(dnmx_const_object_handle ho) {
         auto obj = new object(object::from_c_handle(ho)->copy());
         return obj->to_c_hanlde();
     }
-    catch (std::exception&) {
+    catch (...) {
         return nullptr;
     }
 }
@@ -44,7 +44,7 @@ dnmx_object_handle dnmx_create_object_usurp(dnmx_object_handle ho) {
         auto obj = new object(std::move(*object::from_c_handle(ho)));
         return obj->to_c_hanlde();
     }
-    catch (std::exception&) {
+    catch (...) {
         return nullptr;
     }
 }
@@ -57,7 +57,7 @@ dnmx_error_return_t dnmx_object_copy_from(dnmx_object_handle ho, dnmx_const_obje
         self->copy_from(*object::from_c_handle(source));
         return dnmx_result_success;
     }
-    catch (std::exception&) {
+    catch (...) {
         return -1;
     }
 }
@@ -120,7 +120,7 @@ dnmx_error_return_t dnmx_object_reset_type(dnmx_object_handle ho, dnmx_type_hand
             self->clear();
         }
     }
-    catch (std::exception&) {
+    catch (...) {
         return -1;
     }
 
@@ -149,7 +149,7 @@ dnmx_int_result dnmx_object_compare(dnmx_const_object_handle ho, dnmx_const_obje
         ret.result = self->compare(*object::from_c_handle(b));
         ret.error = dnmx_result_success;
     }
-    catch (std::exception&) {
+    catch (...) {
         ret.error = -1;
     }
     return ret;
diff --git a/code/dynamix/type-c.cpp b/code/dynamix/type-c.cpp
index 2c937a7..8d34112 100644
--- a/code/dynamix/type-c.cpp
+++ b/code/dynamix/type-c.cpp
@@ -55,7 +55,7 @@ bool dnmx_type_is_of_name(dnmx_type_handle ht, dnmx_sv name) {
     try {
         return self->is_of(name.to_std());
     }
-    catch (std::exception&) {
+    catch (...) {
         return false;
     }
 }
diff --git a/code/dynamix/type_mutation-c.cpp b/code/dynamix/type_mutation-c.cpp
index 588bdd0..d5862a0 100644
--- a/code/dynamix/type_mutation-c.cpp
+++ b/code/dynamix/type_mutation-c.cpp
@@ -17,7 +17,7 @@ dnmx_type_mutation_handle dnmx_create_type_mutation_empty(dnmx_domain_handle hd)
         auto mut = new type_mutation(*domain::from_c_handle(hd));
         return mut->to_c_hanlde();
     }
-    catch (std::exception&) {
+    catch (...) {
         return nullptr;
     }
 }
@@ -27,7 +27,7 @@ dnmx_type_mutation_handle dnmx_create_type_mutation_from_type(dnmx_type_handle h
         auto mut = new type_mutation(*type::from_c_handle(ht));
         return mut->to_c_hanlde();
     }
-    catch (std::exception&) {
+    catch (...) {
         return nullptr;
     }
 }
@@ -61,7 +61,7 @@ bool dnmx_type_mutation_add(dnmx_type_mutation_handle hmut, const dnmx_mixin_inf
         self->add(*info);
         return true;
     }
-    catch (std::exception&) {
+    catch (...) {
         return false;
     }
 }
@@ -69,7 +69,7 @@ bool dnmx_type_mutation_add_if_lacking(dnmx_type_mutation_handle hmut, const dnm
     try {
         return self->add_if_lacking(*info);
     }
-    catch (std::exception&) {
+    catch (...) {
         return false;
     }
 }
@@ -84,7 +84,7 @@ bool dnmx_type_mutation_to_back(dnmx_type_mutation_handle hmut, const dnmx_mixin
         self->to_back(*info);
         return true;
     }
-    catch (std::exception&) {
+    catch (...) {
         return false;
     }
 }
@@ -92,7 +92,7 @@ const dnmx_mixin_info* dnmx_type_mutation_to_back_by_name(dnmx_type_mutation_han
     try {
         return &self->to_back(name.to_std());
     }
-    catch (std::exception&) {
+    catch (...) {
         return nullptr;
     }
 }
@@ -111,7 +111,7 @@ bool dnmx_type_mutation_set_mixins(dnmx_type_mutation_handle hmut, const dnmx_mi
         self->mixins.assign(mixins, mixins + num_mixins);
         return true;
     }
-    catch (std::exception&) {
+    catch (...) {
         return false;
     }
 }
-- 
2.43.0


From 4c5c6e2e3f0fa672729110137ce33a5b101f6189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:48 +0000
Subject: [PATCH 17/23] fix: the compat default resource truncates sizes of 4
 GiB and above, and wraps near the maximum

---
 code/dynamix/compat/pmr/memory_resource.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/code/dynamix/compat/pmr/memory_resource.cpp b/code/dynamix/compat/pmr/memory_resource.cpp
index a70b082..c8c7352 100644
--- a/code/dynamix/compat/pmr/memory_resource.cpp
+++ b/code/dynamix/compat/pmr/memory_resource.cpp
@@ -3,7 +3,7 @@
 //
 #include "memory_resource.hpp"
 #if !DYNAMIX_HAS_PMR // no else (using std::pmr)
-#include "../../alloc_util.hpp"
+#include "../../size.hpp"
 #include <cstdlib>
 #include <new>
 
@@ -22,7 +22,9 @@ class default_resource final : public memory_resource {
         if (alignment < sizeof_ptr) alignment = sizeof_ptr;
 #endif
         // aligned_alloc requires size to be a multiple of alignment
-        auto size = dynamix::util::next_multiple(bytes, alignment);
+        // not util::next_multiple: it works with byte_size_t and would truncate a large size
+        const std::size_t size = (bytes + alignment - 1) / alignment * alignment;
+        if (size < bytes) throw std::bad_alloc{}; // size overflow
         void* ret = aligned_alloc(alignment, size);
 #endif
         if (!ret) throw std::bad_alloc{};
-- 
2.43.0


From 62a62c00a1d030b2f49ee1dde5b9698543af7f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:54 +0000
Subject: [PATCH 18/23] fix: rules are not applied again when the first pass
 restores the dependencies of the query

---
 code/dynamix/domain.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/code/dynamix/domain.cpp b/code/dynamix/domain.cpp
index a668cc2..ae9a724 100644
--- a/code/dynamix/domain.cpp
+++ b/code/dynamix/domain.cpp
@@ -458,11 +458,13 @@ public:
         type_query last_result(m_allocator); // store last rule application result here
 
         auto& nt_mixins = mutation.mixins;
-        last_result = nt_mixins;
+        original_query = nt_mixins;
 
         // first erase all deps from mixins
         itlib::erase_all_if(nt_mixins, [](const mixin_info* m) { return m->dependency; });
 
+        last_result = nt_mixins;
+
         for (int i = 0; ; ++i) {
             // apply rules
             for (auto& r : rules) {
@@ -473,17 +475,12 @@ public:
             }
             if (last_result == nt_mixins) {
                 // rules changed nothing, so no need to apply them again
-                if (i == 0) return last_result; // first application changed nothing
                 return original_query;
             }
-            if (!rules.empty() && (i == max_depenency_depth || i == int(rules.size()))) {
+            if (i == max_depenency_depth || i == int(rules.size())) {
                 // again: this is not necessarily a real cycle but we treat it as such
                 throw_exception::cyclic_rule_deps(mutation);
             }
-            if (i == 0) {
-                // first time running the loop and rules made changes, store original query to return
-                original_query.swap(last_result);
-            }
             last_result = nt_mixins;
         }
     }
-- 
2.43.0


From 588e0feabc2d867e6d2bc20633aa7911aa678fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:56 +0000
Subject: [PATCH 19/23] fix: dnmx_create_mixin_allocator returns null when it
 cannot allocate

---
 code/dynamix/mixin_allocator-c.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/code/dynamix/mixin_allocator-c.cpp b/code/dynamix/mixin_allocator-c.cpp
index 5eeb4fe..d190412 100644
--- a/code/dynamix/mixin_allocator-c.cpp
+++ b/code/dynamix/mixin_allocator-c.cpp
@@ -34,8 +34,13 @@ using namespace dynamix;
 
 extern "C" {
 dnmx_mixin_allocator_handle dnmx_create_mixin_allocator(dnmx_alloc_mixin_func alloc, dnmx_dealloc_mixin_func dealloc) {
-    auto ret = new c_mixin_allocator(alloc, dealloc);
-    return ret->to_c_hanlde();
+    try {
+        auto ret = new c_mixin_allocator(alloc, dealloc);
+        return ret->to_c_hanlde();
+    }
+    catch (...) {
+        return nullptr;
+    }
 }
 void dnmx_destroy_mixin_allocator(dnmx_mixin_allocator_handle ha) {
     delete mixin_allocator::from_c_handle(ha);
-- 
2.43.0


From 71a76c3caf2a1273f9f7976df1270b818a38e2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:45 +0000
Subject: [PATCH 20/23] fix: v1 substitute_mixin does not add its target twice

---
 v1compat/code/dynamix/v1compat/common_mutation_rules.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v1compat/code/dynamix/v1compat/common_mutation_rules.hpp b/v1compat/code/dynamix/v1compat/common_mutation_rules.hpp
index c2bfe67..5bdc05e 100644
--- a/v1compat/code/dynamix/v1compat/common_mutation_rules.hpp
+++ b/v1compat/code/dynamix/v1compat/common_mutation_rules.hpp
@@ -68,7 +68,7 @@ class substitute_mixin : public mutation_rule {
     virtual void apply_to(type_mutation& mut) override {
         if (mut.has<SourceMixin>()) {
             mut.remove<SourceMixin>();
-            mut.add<TargetMixin>();
+            mut.add_if_lacking<TargetMixin>();
         }
     }
 };
-- 
2.43.0


From 841bb2a01bddc3815317a387f4e07248da5e3182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:42 +0000
Subject: [PATCH 21/23] fix: a type request does not store what a concurrent
 rule change or type removal made obsolete

---
 code/dynamix/domain.cpp | 87 ++++++++++++++++++++++++++---------------
 1 file changed, 56 insertions(+), 31 deletions(-)

diff --git a/code/dynamix/domain.cpp b/code/dynamix/domain.cpp
index ae9a724..d3bc60f 100644
--- a/code/dynamix/domain.cpp
+++ b/code/dynamix/domain.cpp
@@ -166,6 +166,11 @@ public:
         // stored type queries
         // with them we avoid applying mutation rules for the same type query
         type_query_map type_queries;
+
+        // changed every time when the rules change or when types are removed
+        // a type request which doesn't hold the lock all the time uses it to check
+        // whether what it found with the previous lock is still valid
+        uint64_t generation = 0;
     };
     data_mutex<type_registry> m_type_registry;
 
@@ -296,6 +301,7 @@ public:
         {
             // since this mixin is no longer valid
             // remove all queries which contain it either as key or as value
+            ++treg->generation;
             auto& queries = treg->type_queries;
             for (auto iq = queries.begin(); iq != queries.end(); ) {
                 if (iq->second->has(info.id)) {
@@ -416,6 +422,7 @@ public:
         // first time registered
         // we need to invalidate stored type queries
         // we can't tell which ones the rule affects, so we have to invalidate them all
+        ++reg->generation;
         reg->type_queries.clear();
     }
     void remove_mutation_rule(const mutation_rule_info& info) noexcept {
@@ -429,6 +436,7 @@ public:
         // refs are zero, so remove rule and invalidate stored type queries
         reg->mutation_rules.erase(f);
         // we can't tell which ones the rule affects, so we have to invalidate them all
+        ++reg->generation;
         reg->type_queries.clear();
     }
 
@@ -489,44 +497,57 @@ public:
         if (&mutation.dom != &m_domain) throw_exception::foreign_mutation(m_domain, mutation);
 
         type_query original_query(m_allocator); // prepare original query with our allocator
-        const type* found = nullptr;
 
-        {
-            // search for stored query for this combo
-            auto reg = m_type_registry.shared_lock();
+        while (true) {
+            const type* found = nullptr;
+            uint64_t generation;
+
             {
-                auto f = reg->type_queries.find(mutation.mixins);
-                if (f != reg->type_queries.end()) return *f->second;
-            }
+                // search for stored query for this combo
+                auto reg = m_type_registry.shared_lock();
+                {
+                    auto f = reg->type_queries.find(mutation.mixins);
+                    if (f != reg->type_queries.end()) return *f->second;
+                }
 
-            // query is not available, so we need to apply mutation rules
-            // we can do it while holding the shared lock
-            original_query = apply_mutation_rules_l(mutation, reg->mutation_rules);
+                generation = reg->generation;
 
-            // now look for exact type
-            if (mutation.mixins.empty()) {
-                found = &m_empty_type;
-            }
-            else {
-                auto f = reg->types.find(mutation.mixins);
-                if (f != reg->types.end()) found = f->get();
+                // query is not available, so we need to apply mutation rules
+                // we can do it while holding the shared lock
+                original_query = apply_mutation_rules_l(mutation, reg->mutation_rules);
+
+                // now look for exact type
+                if (mutation.mixins.empty()) {
+                    found = &m_empty_type;
+                }
+                else {
+                    auto f = reg->types.find(mutation.mixins);
+                    if (f != reg->types.end()) found = f->get();
+                }
             }
-        }
 
-        if (found) {
-            // we found a type with this mutation, but don't have the query stored
-            // store the query only and return the type
+            if (found) {
+                // we found a type with this mutation, but don't have the query stored
+                // store the query only and return the type
 
-            // it may be the case here that another thread waits to do the exact same thing
-            // but the code below is safe
-            // worst (and extremely rare) case we wasted cpu applying the same rules twice
+                // it may be the case here that another thread waits to do the exact same thing
+                // but the code below is safe
+                // worst (and extremely rare) case we wasted cpu applying the same rules twice
 
-            auto reg = m_type_registry.unique_lock();
-            reg->type_queries[std::move(original_query)] = found;
-            return *found;
-        }
+                auto reg = m_type_registry.unique_lock();
+                if (reg->generation == generation) {
+                    reg->type_queries[std::move(original_query)] = found;
+                    return *found;
+                }
+            }
+            else if (auto created = create_type(mutation, original_query, generation)) {
+                return *created;
+            }
 
-        return create_type(mutation, std::move(original_query));
+            // while we weren't holding the lock, another thread changed the rules or removed types
+            // so our result may be obsolete or the type we found may be gone: start over
+            mutation.mixins.assign(original_query.begin(), original_query.end());
+        }
     }
 
     const type& get_type(itlib::span<const mixin_info* const> mixins) {
@@ -685,7 +706,9 @@ public:
     };
 
     // create type for a given mutation requested by a given query
-    const type& create_type(type_mutation& mutation, type_query&& query) {
+    // return null if the registry is not of the given generation when the type is to be added
+    // (the query is only consumed on success)
+    const type* create_type(type_mutation& mutation, type_query& query, const uint64_t generation) {
         mixin_info_span mixins(mutation.mixins);
 
         // first check validity
@@ -815,6 +838,7 @@ public:
 
         // finally add new type to types and return it
         auto reg = m_type_registry.unique_lock();
+        if (reg->generation != generation) return nullptr;
         auto res = reg->types.emplace(std::move(new_type));
 
         // note that the type may already be added
@@ -831,11 +855,12 @@ public:
 
         const type* reg_type = res.first->get();
         reg->type_queries[std::move(query)] = reg_type;
-        return *reg_type;
+        return reg_type;
     }
 
     void garbage_collect_types() noexcept {
         auto l = m_type_registry.unique_lock();
+        ++l->generation;
         auto& types = l->types;
         auto& queries = l->type_queries;
         for (auto it = types.begin(); it != types.end(); ) {
-- 
2.43.0


From 7ea754e1a6f376373e90112d794c88c1c04e5d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:30 +0000
Subject: [PATCH 22/23] fix: destroying the last object of a type happens
 before the type is collected

---
 code/dynamix/type.cpp | 6 ++++--
 code/dynamix/type.hpp | 7 ++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/code/dynamix/type.cpp b/code/dynamix/type.cpp
index 5a1dcb9..e215c33 100644
--- a/code/dynamix/type.cpp
+++ b/code/dynamix/type.cpp
@@ -135,13 +135,15 @@ bool type::comparable() const noexcept {
 
 byte_t* type::allocate_object_buffer(allocator& alloc) const {
     auto ret = alloc.allocate_bytes(object_buffer_size, object_buffer_alignment);
-    ++m_num_objects;
+    m_num_objects.fetch_add(1, std::memory_order_relaxed);
     return static_cast<byte_t*>(ret);
 }
 
 void type::deallocate_object_buffer(allocator& alloc, void* ptr) const noexcept {
     alloc.deallocate_bytes(ptr, object_buffer_size, object_buffer_alignment);
-    --m_num_objects;
+    // release: the type may be destroyed once the object is no longer counted
+    // so every use of the type by it must happen before that
+    m_num_objects.fetch_sub(1, std::memory_order_release);
 }
 
 }
diff --git a/code/dynamix/type.hpp b/code/dynamix/type.hpp
index 751d8e7..fdca0b0 100644
--- a/code/dynamix/type.hpp
+++ b/code/dynamix/type.hpp
@@ -18,8 +18,8 @@
 #include "globals.hpp"
 
 #include <itlib/span.hpp>
-#include <itlib/atomic.hpp>
 
+#include <atomic>
 #include <cstdint>
 #include <string_view>
 
@@ -62,7 +62,8 @@ public:
 
     // number of objects of this type
     // more precisely this is the number of active (living-allocated) object buffers
-    size_t num_objects() const noexcept { return m_num_objects.load(); }
+    // acquire: whoever sees zero may destroy the type
+    size_t num_objects() const noexcept { return m_num_objects.load(std::memory_order_acquire); }
 
     mixin_index_t num_mixins() const noexcept {
         return mixin_index_t(mixins.size());
@@ -171,7 +172,7 @@ public:
     // this is the buffer size (it's used when deallocating)
     byte_size_t buf_size;
 private:
-    mutable itlib::atomic_relaxed_counter<size_t> m_num_objects = {};
+    mutable std::atomic<size_t> m_num_objects = {};
 };
 
 }
-- 
2.43.0


From bea3047c7a2b8d47fdbb40987138c6e1fdf5992a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:38 +0000
Subject: [PATCH 23/23] fix: nothing reorders types after they are
 canonicalized

A mutation rule with the maximal order priority and a name past
"canonicalize types" was applied after the canonical sort, so types of
a domain which canonicalizes types could be left in another order.
---
 code/dynamix/domain.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/dynamix/domain.cpp b/code/dynamix/domain.cpp
index d3bc60f..0c5dd25 100644
--- a/code/dynamix/domain.cpp
+++ b/code/dynamix/domain.cpp
@@ -112,6 +112,10 @@ public:
     struct rule_compare {
         bool operator()(const mutation_rule_info* a, const mutation_rule_info* b) const {
             if (a->order_priority != b->order_priority) return a->order_priority < b->order_priority;
+            // nothing can be applied after types are canonicalized
+            const bool a_canonicalizes = a->apply == sort_by_canonical_order;
+            const bool b_canonicalizes = b->apply == sort_by_canonical_order;
+            if (a_canonicalizes != b_canonicalizes) return b_canonicalizes;
             auto name_cmp = dnmx_sv_cmp(a->name, b->name);
             if (name_cmp != 0) return name_cmp < 0;
             return a < b;
-- 
2.43.0

