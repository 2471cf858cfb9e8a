From 739329d56831f9fed332e5b88adf7466edd834be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 01/20] fix: initialise mark and hash key of the terminal nodes

---
 src/bdd_node.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bdd_node.cpp b/src/bdd_node.cpp
index 7518bc8..f9c333e 100644
--- a/src/bdd_node.cpp
+++ b/src/bdd_node.cpp
@@ -118,6 +118,8 @@ namespace BDD {
         this->bdd_mgr_2 = mgr;
         this->xref = 1;
         this->index = botsink_index;
+        this->hash_key = 0;
+        this->marked_ = 0;
     }
 
     bool node::is_botsink() const
@@ -132,7 +134,8 @@ namespace BDD {
         this->bdd_mgr_2 = mgr;
         this->xref = 1;
         this->index = topsink_index;
-
+        this->hash_key = 1;
+        this->marked_ = 0;
     }
 
     bool node::is_topsink() const
-- 
2.43.0


From a2afb8f96b9bf59384481af2fbca7b64355141fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 02/20] fix: breadth-first traversal of a terminal dereferenced
 the manager as a node

---
 src/bdd_node.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bdd_node.cpp b/src/bdd_node.cpp
index f9c333e..4e405d4 100644
--- a/src/bdd_node.cpp
+++ b/src/bdd_node.cpp
@@ -85,6 +85,9 @@ namespace BDD {
         std::vector<node*> nodes;
         std::deque<node*> dq;
 
+        if(is_terminal())
+            return nodes;
+
         dq.push_back(this);
         this->marked_ = 1;
         while(!dq.empty())
-- 
2.43.0


From b4d2baa9bc0d9f580da725c9aa6d5afc136c3a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 03/20] fix: xor shared the computed table entries of or

---
 include/bdd_memo_cache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bdd_memo_cache.h b/include/bdd_memo_cache.h
index cfa6b39..d5e7f4a 100644
--- a/include/bdd_memo_cache.h
+++ b/include/bdd_memo_cache.h
@@ -25,7 +25,7 @@ namespace BDD {
 
         template<typename T>
         constexpr static node* xor_symb_impl() { return static_cast<T*>(nullptr) + 3; }
-        constexpr static node* xor_symb() { return or_symb_impl<node>(); }
+        constexpr static node* xor_symb() { return xor_symb_impl<node>(); }
 
         bool operator==(const memo_struct& m) const;
         bool operator!=(const memo_struct& m) const;
-- 
2.43.0


From bdc4963ea00a21aa6e2021cc9568f248d7f5b7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 04/20] fix: xor_rec split on the lower of the two variables

---
 src/bdd_mgr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bdd_mgr.cpp b/src/bdd_mgr.cpp
index af87c96..85c3d85 100644
--- a/src/bdd_mgr.cpp
+++ b/src/bdd_mgr.cpp
@@ -242,7 +242,7 @@ namespace BDD {
         var& vf = vars[f.variable()];
         assert(g.variable() < nr_variables());
         var& vg = vars[g.variable()];
-        var& v = *std::max(&vg,&vf);
+        var& v = *std::min(&vg,&vf);
 
         node_ref r0 = xor_rec(&v == &vf ? f.low() : f, &v == &vg ? g.low() : g);
         assert(r0.ref != nullptr);
-- 
2.43.0


From f692cb0f7890b395ea8c55471f3ee14559a3f7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 05/20] fix: ite_rec took branches of a terminal when the
 condition has the last variable

---
 src/bdd_mgr.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bdd_mgr.cpp b/src/bdd_mgr.cpp
index 85c3d85..50f6769 100644
--- a/src/bdd_mgr.cpp
+++ b/src/bdd_mgr.cpp
@@ -287,15 +287,15 @@ namespace BDD {
 
         node_ref r0 = ite_rec(
                 (&vf == &v ? f.low() : f),
-                (&vg == &v ? g.low() : g),
-                (&vh == &v ? h.low() : h)
+                (&vg == &v && !g.is_terminal() ? g.low() : g),
+                (&vh == &v && !h.is_terminal() ? h.low() : h)
                 );
         assert(r0.ref != nullptr);
 
         node_ref r1 = ite_rec(
                 (&vf == &v ? f.high() : f),
-                (&vg == &v ? g.high() : g),
-                (&vh == &v ? h.high() : h)
+                (&vg == &v && !g.is_terminal() ? g.high() : g),
+                (&vh == &v && !h.is_terminal() ? h.high() : h)
                 );
         assert(r1.ref != nullptr);
 
-- 
2.43.0


From bd358990f847e375ba88fb6c3867a093d3eefec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 06/20] fix: at_most with a bound above the number of operands
 is true

---
 include/bdd_mgr.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/bdd_mgr.h b/include/bdd_mgr.h
index cbc72b6..15afac5 100644
--- a/include/bdd_mgr.h
+++ b/include/bdd_mgr.h
@@ -345,11 +345,9 @@ namespace BDD {
             assert(std::distance(begin, end) > 0);
             const size_t n = std::distance(begin, end);
 
-            if(n < b)
-                return node_cache_.botsink();
-
-            if(n == 1 && b == 1)
+            if(n <= b)
                 return node_cache_.topsink();
+
             if(n == 1 && b == 0)
                 return negate(*begin);
             if(b == 0)
-- 
2.43.0


From 7bb631903a2343d82397f0ccd87d4c5041a48930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 07/20] fix: removing dead nodes corrupted the unique tables

---
 src/bdd_var.cpp | 78 ++++++++++++-------------------------------------
 1 file changed, 18 insertions(+), 60 deletions(-)

diff --git a/src/bdd_var.cpp b/src/bdd_var.cpp
index d0d52f3..99f5e4b 100644
--- a/src/bdd_var.cpp
+++ b/src/bdd_var.cpp
@@ -204,76 +204,34 @@ namespace BDD {
 
     void var_struct::remove_dead_nodes()
     {
+        std::vector<node*> alive;
         for(std::size_t k = 0; k < hash_table_size(); ++k)
         {
             node* p = fetch_node(k);
-            if(p != nullptr && p->dead())
-            {
+            if(p == nullptr)
+                continue;
+            store_node(k, nullptr);
+            if(p->dead())
                 bdd_mgr_.get_node_cache().free_node(p);
-                store_node(k, nullptr);
-                free++;
-                // move nodes that follow this one back if hash value indicates so
-                size_t first_free_slot = k;
-                for(size_t j = k+1;; ++j)
-                {
-                    const size_t jj = j & mask;
-                    node* p = fetch_node(jj);
-                    if(p == nullptr)
-                    {
-                        k = j;
-                        break;
-                    }
-                    if(p->dead())
-                    {
-                        store_node(jj, nullptr);
-                        free++;
-                    }
-                    else
-                    {
-                        // shift one place up if hash code says so
-                        // TODO: can be made faster.
-                        store_node(next_free_slot(hash_code(p)), p);
-                    }
-                }
-            }
+            else
+                alive.push_back(p);
         }
 
         // reduce nr of pages if unique table too sparsely populated
-        if(mask > 63 && occupied_rate() <= min_unique_table_fill)
+        size_t new_mask = mask;
+        while(new_mask > 63 && alive.size() <= min_unique_table_fill * (new_mask+1))
+            new_mask /= 2;
+        if(new_mask != mask)
         {
-            const size_t new_mask = [&]() {
-                size_t n = (mask+1)/2 - 1;
-                while(n >= 63 && occupied_rate(n) >= min_unique_table_fill)
-                    n /= (mask+1)/2 - 1;
-                return n;
-            }();
-
-            node** new_base = new_page(new_mask);
-
-            for(std::size_t k = 0; k <= mask; ++k)
-            {
-                node* p = fetch_node(k);
-                if(p != nullptr)
-                {
-                    const size_t next_free_slot = [&]() {
-                        for(size_t l=k;; l++)
-                        {
-                            l = l & new_mask;
-                            if(new_base[k] == nullptr)
-                                return l;
-                        }
-                        assert(false);
-                        return size_t(0);
-                    }();
-
-                    new_base[next_free_slot] = p;
-                } 
-            }
-
-            free_page(base, mask);
-            base = new_base;
+            free_page();
             mask = new_mask;
+            base = new_page(mask);
         }
+
+        // put nodes back, removed ones may have interrupted their probe sequences
+        for(node* p : alive)
+            store_node(next_free_slot(base_index(hash_code(p))), p);
+        free = hash_table_size() - alive.size();
     }
 
     node* var_struct::unique_find(const size_t index, node* l, node* h)
-- 
2.43.0


From 4f62a39bf3562d9aec0c75b9b50ca186dbfd40e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 08/20] fix: garbage collection left computed table entries of
 freed nodes

---
 src/bdd_memo_cache.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/bdd_memo_cache.cpp b/src/bdd_memo_cache.cpp
index ab090f6..da72249 100644
--- a/src/bdd_memo_cache.cpp
+++ b/src/bdd_memo_cache.cpp
@@ -148,11 +148,9 @@ namespace BDD {
     {
         if(r == nullptr)
             return true; // TODO: or false?
-        if(r->xref < 0)
+        if(r->dead() || f->dead() || g->dead())
             return true;
-        if(f->xref < 0)
-            return true;
-        if(h != nullptr && g->xref < 0)
+        if(h != and_symb() && h != or_symb() && h != xor_symb() && h->dead())
             return true;
         return false;
     }
-- 
2.43.0


From c8614cde1fc54423b6401e06350645a158980133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 09/20] fix: growing a unique table to its maximal size left it
 with a wrong mask

---
 src/bdd_var.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bdd_var.cpp b/src/bdd_var.cpp
index 99f5e4b..932cf20 100644
--- a/src/bdd_var.cpp
+++ b/src/bdd_var.cpp
@@ -52,7 +52,7 @@ namespace BDD {
             case 131071:return reinterpret_cast<node**>(cache.cache_262144.reserve_page());
             case 262143:return reinterpret_cast<node**>(cache.cache_262144.reserve_page());
             case 524287:return reinterpret_cast<node**>(cache.cache_524288.reserve_page());
-            case 1048575: throw std::runtime_error("Cannot increase unique table page cache size.");;
+            case 1048575: return reinterpret_cast<node**>(cache.cache_1048576.reserve_page());
             default: assert(false);
         } 
     }
-- 
2.43.0


From 624810c4ea499ea517ac0d71ad9b42d093263ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 10/20] fix: conjunction in a collection with a constant result

---
 src/bdd_collection.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index d9c08ec..724b840 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -29,11 +29,17 @@ namespace BDD {
 
         if(root_idx != std::numeric_limits<size_t>::max())
         {
-            assert(stack.size() > 2);
             const size_t offset = bdd_delimiters.back();
+            if(root_idx == 0) // the root comes last on the stack
+                std::swap(stack[0], stack[1]);
             for(ptrdiff_t s = stack.size()-1; s>=0; --s)
             {
                 const bdd_instruction bdd_stack = stack[s];
+                if(bdd_stack.is_terminal())
+                {
+                    bdd_instructions.push_back(bdd_stack);
+                    continue;
+                }
                 const size_t lo = offset + stack.size() - bdd_stack.lo - 1;
                 const size_t hi = offset + stack.size() - bdd_stack.hi - 1;
                 bdd_instructions.push_back({lo, hi, stack[s].index});
@@ -131,11 +137,17 @@ namespace BDD {
 
             if(root_idx != std::numeric_limits<size_t>::max())
             {
-                assert(stack.size() > 2);
                 const size_t offset = bdd_delimiters.back();
+                if(root_idx == 0) // the root comes last on the stack
+                    std::swap(stack[0], stack[1]);
                 for(ptrdiff_t s = stack.size()-1; s>=0; --s)
                 {
                     const bdd_instruction bdd_stack = stack[s];
+                    if(bdd_stack.is_terminal())
+                    {
+                        bdd_instructions.push_back(bdd_stack);
+                        continue;
+                    }
                     const size_t lo = offset + stack.size() - bdd_stack.lo - 1;
                     const size_t hi = offset + stack.size() - bdd_stack.hi - 1;
                     bdd_instructions.push_back({lo, hi, stack[s].index});
-- 
2.43.0


From 855ff8331eaaff381ba2e66748345d92ec59983e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 11/20] fix: terminal views of BDDs whose true terminal
 precedes the false one

---
 src/bdd_collection.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index 724b840..4ac60aa 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -653,15 +653,18 @@ namespace BDD {
 
     bdd_collection_node bdd_collection_entry::botsink() const
     {
+        // the terminals are the last two instructions, in either order
         bdd_collection_node node(bdd_col.bdd_delimiters[bdd_nr+1]-2, *this);
-        assert(node.is_botsink());
+        if(!node.is_botsink())
+            return bdd_collection_node(bdd_col.bdd_delimiters[bdd_nr+1]-1, *this);
         return node;
     }
 
     bdd_collection_node bdd_collection_entry::topsink() const
     {
         bdd_collection_node node(bdd_col.bdd_delimiters[bdd_nr+1]-1, *this);
-        assert(node.is_topsink());
+        if(!node.is_topsink())
+            return bdd_collection_node(bdd_col.bdd_delimiters[bdd_nr+1]-2, *this);
         return node;
     }
 
-- 
2.43.0


From 050fef32c98cc6dba4d1a791edf4700a884d4fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 12/20] fix: adding a constant BDD to a collection and
 exporting it

---
 src/bdd_collection.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index 4ac60aa..cbc77f9 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -305,14 +305,17 @@ namespace BDD {
         }
 
         // TODO: not most efficient, record top and botsink above
-        node_ref_hash.insert({nodes.back().botsink(), bdd_instructions.size()});
+        node_ref_hash.insert({root.botsink(), bdd_instructions.size()});
         bdd_instructions.push_back(bdd_instruction::botsink());
         assert(bdd_instructions.back().is_botsink());
 
-        node_ref_hash.insert({nodes.back().topsink(), bdd_instructions.size()});
+        node_ref_hash.insert({root.topsink(), bdd_instructions.size()});
         bdd_instructions.push_back(bdd_instruction::topsink());
         assert(bdd_instructions.back().is_topsink());
 
+        if(root.is_topsink()) // the root comes first
+            std::swap(bdd_instructions[bdd_instructions.size()-2], bdd_instructions.back());
+
         const size_t offset = bdd_delimiters.back();
         for(size_t i=0; i<nodes.size(); ++i)
         {
@@ -336,7 +339,8 @@ namespace BDD {
     node_ref bdd_collection::export_bdd(bdd_mgr& mgr, const size_t bdd_nr) const
     {
         assert(bdd_nr < nr_bdds());
-        assert(nr_bdd_nodes(bdd_nr) > 2);
+        if(nr_bdd_nodes(bdd_nr) == 2) // constant
+            return bdd_instructions[bdd_delimiters[bdd_nr]].is_topsink() ? mgr.topsink() : mgr.botsink();
         // TODO: use vector and shift indices by offset
         std::unordered_map<size_t, node_ref> bdd_instr_hash;
         assert(bdd_instructions[bdd_delimiters[bdd_nr+1]-2].is_terminal());
-- 
2.43.0


From f15f0c0a69045ba4bb059d445780c593741f2003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 13/20] fix: support of a constant BDD in a collection

---
 src/bdd_collection.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index cbc77f9..91c3493 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -551,7 +551,6 @@ namespace BDD {
             vars.push_back(bdd_instructions[i].index);
         }
 
-        assert(vars.size() > 0);
         std::sort(vars.begin(), vars.end());
         vars.erase( std::unique(vars.begin(), vars.end() ), vars.end());
         return vars;
-- 
2.43.0


From 6bfc755005ebc5747839c338220a3715db920576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 14/20] fix: BDDs of collections with more than 1000
 instructions can be added to a manager

---
 src/bdd_mgr.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bdd_mgr.cpp b/src/bdd_mgr.cpp
index 50f6769..49380bc 100644
--- a/src/bdd_mgr.cpp
+++ b/src/bdd_mgr.cpp
@@ -412,7 +412,6 @@ namespace BDD {
             }
             else
             { 
-                assert(bdd_col.offset(bdd) < 1000); // TODO: remove
                 assert(bdd_map.count(bdd.lo) > 0);
                 node_ref lo = bdd_map.find(bdd.lo)->second;
 
-- 
2.43.0


From 59f2b9a3ca0b468d0c2caba5968d1f03afa51830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 15/20] fix: remove read past the end of the indices and
 rejected constants

---
 include/bdd_collection.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index 7d6ff09..8828bb6 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -265,7 +265,7 @@ namespace BDD {
             auto bdd_it = bdd_it_begin;
             for(size_t bdd_nr=*bdd_it; bdd_nr<nr_bdds(); ++bdd_nr)
             {
-                if(bdd_nr == *bdd_it) // skip bdd
+                if(bdd_it != bdd_it_end && bdd_nr == *bdd_it) // skip bdd
                 {
                     ++bdd_it;
                 }
@@ -286,7 +286,7 @@ namespace BDD {
                             new_bdd_instructions.push_back(bdd_instr);
                     }
                     new_bdd_delimiters.push_back(new_bdd_instructions.size());
-                    assert(new_bdd_delimiters.back() - new_bdd_delimiters[ new_bdd_delimiters.size()-2 ] > 2);
+                    assert(new_bdd_delimiters.back() - new_bdd_delimiters[ new_bdd_delimiters.size()-2 ] >= 2);
                 }
             }
             assert(bdd_it == bdd_it_end);
-- 
2.43.0


From 4021c8c78dd37cf662719b13037367ad3dc57205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 16/20] fix: graph export of a constant BDD

---
 include/bdd_collection.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index 8828bb6..07920e0 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -482,7 +482,7 @@ namespace BDD {
             for(auto [x,y] : cluster_nodes)
                 cluster_nodes2.push_back({x,y});
             std::sort(cluster_nodes2.begin(), cluster_nodes2.end(), [](const auto a, const auto b) { return a[0] < b[0]; });
-            for(size_t c=0; c<cluster_nodes2.size()-1; ++c)
+            for(size_t c=0; c+1<cluster_nodes2.size(); ++c)
                 s << cluster_nodes2[c][1] << " -> " << cluster_nodes2[c+1][1] << " [style=invis];\n";
 
             for(size_t i=bdd_delimiters[bdd_nr]; i<bdd_delimiters[bdd_nr+1]; ++i)
-- 
2.43.0


From 9e5b3983dad9b2d7169dedd1478ef06e7ebece64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 17/20] fix: rebasing a constant BDD with a sequence of
 variables

---
 include/bdd_mgr.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/bdd_mgr.h b/include/bdd_mgr.h
index 15afac5..cbe43fe 100644
--- a/include/bdd_mgr.h
+++ b/include/bdd_mgr.h
@@ -129,10 +129,13 @@ namespace BDD {
     node_ref bdd_mgr::rebase(node_ref p, ITERATOR var_map_begin, ITERATOR var_map_end)
     {
         const size_t nr_vars = std::distance(var_map_begin, var_map_end);
-        assert(p.variables().back() <= nr_vars);
-        const size_t last_var = *std::max_element(var_map_begin, var_map_end);
-        for(size_t i=nr_variables(); i<=last_var; ++i)
-            add_variable();
+        assert(p.is_terminal() || p.variables().back() < nr_vars);
+        if(nr_vars > 0)
+        {
+            const size_t last_var = *std::max_element(var_map_begin, var_map_end);
+            for(size_t i=nr_variables(); i<=last_var; ++i)
+                add_variable();
+        }
 
         const auto postorder = p.address()->nodes_postorder();
         std::unordered_map<node*, node*> node_map;
-- 
2.43.0


From 35c47531ccd80d29b4af28e8d48d380d0842558e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 18/20] fix: reduction of a BDD in a collection after rerouting
 arcs

---
 src/bdd_collection.cpp | 91 +++++++++++++++++-------------------------
 1 file changed, 37 insertions(+), 54 deletions(-)

diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index 91c3493..7d6a4da 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -468,72 +468,55 @@ namespace BDD {
         assert(nr_bdds() > 0);
         const size_t bdd_nr = nr_bdds() - 1;
 
-        std::vector<char> remove(nr_bdd_nodes(bdd_nr), false);
-        
-        // remove nodes with identical lo and hi arcs
-        for(std::ptrdiff_t idx=bdd_delimiters[bdd_nr+1]-3; idx>=bdd_delimiters[bdd_nr]; --idx)
-        {
-            bdd_instruction& instr = bdd_instructions[idx];
-            bdd_instruction& lo = bdd_instructions[instr.lo];
-            bdd_instruction& hi = bdd_instructions[instr.hi];
-            if(!lo.is_terminal() && lo.lo == lo.hi)
-                instr.lo = bdd_instructions[lo.lo].lo;
-            if(!hi.is_terminal() && hi.lo == hi.hi)
-                instr.hi = bdd_instructions[hi.hi].hi;
-            if(instr.lo == instr.hi)
-            {
-                std::cout << "remove instr due to same lo and hi\n";
-                remove[idx - bdd_delimiters[bdd_nr]] = true;
-            }
-        }
-
-        // remove isomorphic subgraphs
+        const size_t begin = bdd_delimiters[bdd_nr];
+        const size_t end = bdd_delimiters[bdd_nr+1];
+
+        // go bottom up and find for each instruction the one that represents it:
+        // skip nodes with identical lo and hi arcs and join isomorphic subgraphs
+        std::vector<size_t> representative(end - begin);
+        representative[end-1 - begin] = end-1;
+        representative[end-2 - begin] = end-2;
         std::unordered_map<bdd_instruction, size_t, bdd_instruction_hasher> bdd_map;
-        bdd_map.insert({bdd_instructions[bdd_delimiters[bdd_nr+1]-1], bdd_delimiters[bdd_nr+1]-1});
-        bdd_map.insert({bdd_instructions[bdd_delimiters[bdd_nr+1]-2], bdd_delimiters[bdd_nr+1]-2});
-        for(std::ptrdiff_t idx=bdd_delimiters[bdd_nr+1]-3; idx>=bdd_delimiters[bdd_nr]; --idx)
+        for(std::ptrdiff_t idx=ptrdiff_t(end)-3; idx>=ptrdiff_t(begin); --idx)
         {
-            if(remove[idx - bdd_delimiters[bdd_nr]])
-                continue;
             bdd_instruction& instr = bdd_instructions[idx];
-            auto it = bdd_map.find(instr);
-            if(it == bdd_map.end())
-                bdd_map.insert({instr, idx});
+            instr.lo = representative[instr.lo - begin];
+            instr.hi = representative[instr.hi - begin];
+            if(instr.lo == instr.hi)
+                representative[idx - begin] = instr.lo;
             else
-            {
-                remove[idx - bdd_delimiters[bdd_nr]] = true;
-                std::cout << "remove due to isomorphic subgraphs\n";
-            }
-            assert(bdd_map.count(bdd_instructions[instr.lo]) > 0);
-            assert(bdd_map.count(bdd_instructions[instr.hi]) > 0);
-            instr.lo = bdd_map.find(bdd_instructions[instr.lo])->second;
-            instr.hi = bdd_map.find(bdd_instructions[instr.hi])->second;
+                representative[idx - begin] = bdd_map.insert({instr, idx}).first->second;
         }
 
-        // compactify: remove unused instructions and move remaining ones to contiguous placement
-        const size_t nr_remaining_instructions = std::count(remove.begin(), remove.end(), false);
+        // compactify: keep instructions reachable from the root and move them to contiguous placement
+        const size_t root = representative[0];
+        std::vector<char> reachable(end - begin, false);
+        reachable[root - begin] = true;
         std::vector<bdd_instruction> new_bdd_instructions;
-        new_bdd_instructions.reserve(nr_remaining_instructions);
-        std::vector<size_t> address_delta;
-        // TODO: counted correctly?
-        address_delta.reserve(nr_bdd_nodes(bdd_nr));
-        address_delta.push_back(0);
-        std::partial_sum(remove.begin(), remove.end()-1, std::back_inserter(address_delta));
-            
-        for(size_t idx=bdd_delimiters[bdd_nr]; idx<bdd_delimiters[bdd_nr+1]-2; ++idx)
+        std::vector<size_t> new_index(end - begin);
+        for(size_t idx=root; idx<end-2; ++idx)
         {
-            if(remove[idx - bdd_delimiters[bdd_nr]])
+            if(!reachable[idx - begin])
                 continue;
-            bdd_instruction instr = bdd_instructions[idx];
-            instr.lo -= address_delta[instr.lo-bdd_delimiters[bdd_nr]];
-            instr.hi -= address_delta[instr.hi-bdd_delimiters[bdd_nr]]; 
+            const bdd_instruction& instr = bdd_instructions[idx];
+            reachable[instr.lo - begin] = true;
+            reachable[instr.hi - begin] = true;
+            new_index[idx - begin] = begin + new_bdd_instructions.size();
             new_bdd_instructions.push_back(instr);
         }
-        new_bdd_instructions.push_back(bdd_instructions[bdd_delimiters[bdd_nr+1]-2]);
-        new_bdd_instructions.push_back(bdd_instructions[bdd_delimiters[bdd_nr+1]-1]);
-        std::cout << "new bdd has " << new_bdd_instructions.size() << " nodes\n";
+        if(root == end-1) // the root comes first
+            std::swap(bdd_instructions[end-2], bdd_instructions[end-1]);
+        new_index[end-2 - begin] = begin + new_bdd_instructions.size();
+        new_index[end-1 - begin] = begin + new_bdd_instructions.size() + 1;
+        for(bdd_instruction& instr : new_bdd_instructions)
+        {
+            instr.lo = new_index[instr.lo - begin];
+            instr.hi = new_index[instr.hi - begin];
+        }
+        new_bdd_instructions.push_back(bdd_instructions[end-2]);
+        new_bdd_instructions.push_back(bdd_instructions[end-1]);
 
-        bdd_instructions.resize(bdd_delimiters[bdd_nr]);
+        bdd_instructions.resize(begin);
         for(const auto instr : new_bdd_instructions)
             bdd_instructions.push_back(instr);
         bdd_delimiters.back() = bdd_instructions.size(); 
-- 
2.43.0


From 26dce6869e812c0a6c7ba029695a168d818983e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 19/20] fix: node views of a collection kept a reference to a
 temporary entry

---
 include/bdd_collection.h | 57 ++++++++++++++++++++--------------------
 src/bdd_collection.cpp   |  2 +-
 2 files changed, 30 insertions(+), 29 deletions(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index 07920e0..6f8f0a4 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -54,7 +54,34 @@ namespace BDD {
         } 
     };
 
-    class bdd_collection_entry;
+    class bdd_collection;
+    class bdd_collection_node;
+
+    // convenience class to make bdd_collection bdds behave similary to node_ref
+    class bdd_collection_entry 
+    {
+        friend class bdd_collection_node;
+        public:
+            bdd_collection_entry(const size_t _bdd_nr, bdd_collection& _bdd_col);
+            std::vector<size_t> variables();
+            bdd_collection_entry operator&(bdd_collection_entry& o);
+            bdd_collection_node operator[](const size_t i) const;
+            size_t nr_nodes() const;
+            size_t nr_nodes(const size_t variable) const;
+            template<typename ITERATOR>
+                void rebase(ITERATOR var_map_begin, ITERATOR var_map_end);
+            template<typename VAR_MAP>
+                void rebase(const VAR_MAP& var_map);
+
+            bdd_collection_node root_node() const;
+            bdd_collection_node first_node_postorder() const;
+            bdd_collection_node botsink() const;
+            bdd_collection_node topsink() const;
+
+        private:
+            const size_t bdd_nr;
+            bdd_collection& bdd_col;
+    };
 
     // convenience class for wrapping bdd node
     class bdd_collection_node
@@ -85,33 +112,7 @@ namespace BDD {
 
         private:
             size_t i; 
-            const bdd_collection_entry& bce;
-    };
-
-    // convenience class to make bdd_collection bdds behave similary to node_ref
-    class bdd_collection_entry 
-    {
-        friend class bdd_collection_node;
-        public:
-            bdd_collection_entry(const size_t _bdd_nr, bdd_collection& _bdd_col);
-            std::vector<size_t> variables();
-            bdd_collection_entry operator&(bdd_collection_entry& o);
-            bdd_collection_node operator[](const size_t i) const;
-            size_t nr_nodes() const;
-            size_t nr_nodes(const size_t variable) const;
-            template<typename ITERATOR>
-                void rebase(ITERATOR var_map_begin, ITERATOR var_map_end);
-            template<typename VAR_MAP>
-                void rebase(const VAR_MAP& var_map);
-
-            bdd_collection_node root_node() const;
-            bdd_collection_node first_node_postorder() const;
-            bdd_collection_node botsink() const;
-            bdd_collection_node topsink() const;
-
-        private:
-            const size_t bdd_nr;
-            bdd_collection& bdd_col;
+            const bdd_collection_entry bce;
     };
 
     class bdd_collection {
diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index 7d6a4da..ad10870 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -761,7 +761,7 @@ namespace BDD {
 
     bdd_collection_node bdd_collection_node::operator=(const bdd_collection_node& o)
     {
-        assert(&bce == &o.bce);
+        assert(&bce.bdd_col == &o.bce.bdd_col && bce.bdd_nr == o.bce.bdd_nr);
         i = o.i;
         return *this;
     }
-- 
2.43.0


From 59262348574b671759e98b87521ce4a83c866b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 20/20] fix: building a BDD node by node in a collection

---
 include/bdd_collection.h |  2 ++
 src/bdd_collection.cpp   | 18 +++++++++++++-----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index 6f8f0a4..47d3e26 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -79,6 +79,8 @@ namespace BDD {
             bdd_collection_node topsink() const;
 
         private:
+            bool is_open() const;
+
             const size_t bdd_nr;
             bdd_collection& bdd_col;
     };
diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index ad10870..28d6142 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -557,6 +557,7 @@ namespace BDD {
         instr.lo = bdd_instruction::temp_undefined_index;
         instr.hi = bdd_instruction::temp_undefined_index;
         bdd_instructions.push_back(instr);
+        bdd_delimiters.back() = bdd_instructions.size();
         return bdd_collection_node(bdd_instructions.size()-1, bdd_collection_entry(bdd_delimiters.size()-2, *this));
     }
 
@@ -567,7 +568,7 @@ namespace BDD {
         bdd_instructions.push_back(bdd_instruction::botsink());
 
         // go over previous bdd instructions and reroute topsink and botsink entries to correct entries
-        for(size_t idx=bdd_delimiters[bdd_delimiters.size()-2]; idx<bdd_delimiters[bdd_delimiters.size()-1]-2; ++idx)
+        for(size_t idx=bdd_delimiters[bdd_delimiters.size()-2]; idx<bdd_instructions.size()-2; ++idx)
         {
             auto& instr = bdd_instructions[idx];
 
@@ -637,6 +638,13 @@ namespace BDD {
         return bdd_collection_node(bdd_col.bdd_delimiters[bdd_nr+1]-3, *this);
     }
 
+    // has the bdd not been closed yet, i.e. are its terminals still missing?
+    bool bdd_collection_entry::is_open() const
+    {
+        const bdd_instruction& last = bdd_col.bdd_instructions[bdd_col.bdd_delimiters[bdd_nr+1]-1];
+        return !last.is_botsink() && !last.is_topsink();
+    }
+
     bdd_collection_node bdd_collection_entry::botsink() const
     {
         // the terminals are the last two instructions, in either order
@@ -720,25 +728,25 @@ namespace BDD {
     void bdd_collection_node::set_lo_to_0_terminal()
     {
         auto& instr = bce.bdd_col.bdd_instructions[i];
-        instr.lo = bce.botsink().i;
+        instr.lo = bce.is_open() ? bdd_instruction::temp_botsink_index : bce.botsink().i;
     }
 
     void bdd_collection_node::set_lo_to_1_terminal()
     {
         auto& instr = bce.bdd_col.bdd_instructions[i];
-        instr.lo = bce.topsink().i;
+        instr.lo = bce.is_open() ? bdd_instruction::temp_topsink_index : bce.topsink().i;
     }
 
     void bdd_collection_node::set_hi_to_0_terminal()
     {
         auto& instr = bce.bdd_col.bdd_instructions[i];
-        instr.hi = bce.botsink().i;
+        instr.hi = bce.is_open() ? bdd_instruction::temp_botsink_index : bce.botsink().i;
     }
 
     void bdd_collection_node::set_hi_to_1_terminal()
     {
         auto& instr = bce.bdd_col.bdd_instructions[i];
-        instr.hi = bce.topsink().i;
+        instr.hi = bce.is_open() ? bdd_instruction::temp_topsink_index : bce.topsink().i;
     }
 
     bdd_collection_node bdd_collection_node::next_postorder() const
-- 
2.43.0

