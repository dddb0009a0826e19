From e1f7c729adcefeece56138b118cedc9fa8eadbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 01/44] fix: klut_network(storage) must not re-initialise a
 storage that is in use

---
 include/database/network/klut_network.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/database/network/klut_network.hpp b/include/database/network/klut_network.hpp
index 01071d6..07ae47e 100755
--- a/include/database/network/klut_network.hpp
+++ b/include/database/network/klut_network.hpp
@@ -78,7 +78,11 @@ public:
       : _storage( storage ),
         _events( std::make_shared<decltype( _events )::element_type>() )
   {
-    _init();
+    /* only a fresh storage still lacks the second constant node */
+    if ( _storage->nodes.size() < 2u )
+    {
+      _init();
+    }
   }
 
 private:
-- 
2.43.0


From dcc23efc58162d1b738d5bd1ef79df9ed3ea532e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 02/44] fix: depth_view::create_po on an output driven by an
 input added after construction

---
 include/database/views/depth_view.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/database/views/depth_view.hpp b/include/database/views/depth_view.hpp
index be6400d..f9451b7 100644
--- a/include/database/views/depth_view.hpp
+++ b/include/database/views/depth_view.hpp
@@ -184,6 +184,7 @@ public:
   uint32_t create_po( signal const& f, std::string const& name = std::string() )
   {
     auto po = Ntk::create_po( f, name );
+    _levels.resize(); /* nodes without an on_add event (inputs) may be newer than the map */
     _depth = std::max( _depth, _levels[f] );
     return po;
   }
-- 
2.43.0


From bd435b6b7a16900f436750211c87be9403de6c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 03/44] fix: LUT networks of circuits whose gates are all
 dangling

---
 .../operations/algorithms/network_to_klut.hpp | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/operations/algorithms/network_to_klut.hpp b/include/operations/algorithms/network_to_klut.hpp
index fc90b82..9408237 100644
--- a/include/operations/algorithms/network_to_klut.hpp
+++ b/include/operations/algorithms/network_to_klut.hpp
@@ -378,12 +378,27 @@ class collapse_mapped_choice_impl
     NtkSource const& ntk;
 };  // end class collapse_mapped_choice_impl
 
+/* Every gate that drives an output is the root of a cell (dangling gates need none). */
+template<class NtkSource>
+bool has_mapped_outputs( NtkSource const& ntk )
+{
+  bool mapped = true;
+  ntk.foreach_po( [&]( auto const& f ) {
+    const auto n = ntk.get_node( f );
+    if ( !ntk.is_constant( n ) && !ntk.is_pi( n ) && !ntk.is_cell_root( n ) )
+    {
+      mapped = false;
+    }
+  } );
+  return mapped;
+}
+
 };  // end namespace detail
 
 template<class NtkDest, class NtkSource>
 std::optional<NtkDest> network_to_klut( NtkSource const& ntk )
 {
-  if ( !ntk.has_mapping() && ntk.num_gates() > 0 )
+  if ( !detail::has_mapped_outputs( ntk ) )
   {
     return std::nullopt;
   }
@@ -399,7 +414,7 @@ std::optional<NtkDest> network_to_klut( NtkSource const& ntk )
 template<class NtkDest, class NtkSource>
 bool network_to_klut( NtkDest& dest, NtkSource const& ntk )
 {
-  if ( !ntk.has_mapping() && ntk.num_gates() > 0 )
+  if ( !detail::has_mapped_outputs( ntk ) )
   {
     return false;
   }
@@ -415,7 +430,7 @@ bool network_to_klut( NtkDest& dest, NtkSource const& ntk )
 template<class NtkDest, class NtkSource>
 std::optional<NtkDest> choice_to_klut( NtkSource const& ntk )
 {
-  if ( !ntk.has_mapping() && ntk.num_gates() > 0 )
+  if ( !detail::has_mapped_outputs( ntk ) )
   {
     return std::nullopt;
   }
@@ -431,7 +446,7 @@ std::optional<NtkDest> choice_to_klut( NtkSource const& ntk )
 template<class NtkDest, class NtkSource>
 bool choice_to_klut( NtkDest& dest, NtkSource const& ntk )
 {
-  if ( !ntk.has_mapping() && ntk.num_gates() > 0 )
+  if ( !detail::has_mapped_outputs( ntk ) )
   {
     return false;
   }
-- 
2.43.0


From be401820919dbb27a18eb920c8fec45fcb4b8efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 04/44] fix: refactor crashed on networks with dangling nodes

---
 include/operations/optimization/refactor.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/operations/optimization/refactor.hpp b/include/operations/optimization/refactor.hpp
index 2a45a3f..0262c88 100644
--- a/include/operations/optimization/refactor.hpp
+++ b/include/operations/optimization/refactor.hpp
@@ -596,7 +596,9 @@ Ntk refactor(Ntk &ntk, refactor_params const &params)
 {
   RefactoringFn refactoring_fn;
   NodeCostFn cost_fn;
-  const auto dest = detail::refactor_impl<Ntk, RefactoringFn, NodeCostFn>{ntk,
+  // the depth and fanout tables only know nodes in the cones of the outputs
+  Ntk work = cleanup_dangling<Ntk>(ntk);
+  const auto dest = detail::refactor_impl<Ntk, RefactoringFn, NodeCostFn>{work,
                                                                           refactoring_fn,
                                                                           params,
                                                                           cost_fn}
-- 
2.43.0


From 991ac4a715ac139f7490f8f7a38eeba6565d460b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 05/44] fix: refactor with a leaf limit below two aborted

---
 include/operations/optimization/refactor.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/operations/optimization/refactor.hpp b/include/operations/optimization/refactor.hpp
index 0262c88..d1e737d 100644
--- a/include/operations/optimization/refactor.hpp
+++ b/include/operations/optimization/refactor.hpp
@@ -220,7 +220,8 @@ namespace detail
 
       while (one_level_build_cut())
         ;
-      assert(_leaves_nodes.size() <= _params.max_leaves_num);
+      // the two fanins of the root are leaves even if the limit is smaller
+      assert(_leaves_nodes.size() <= std::max<size_t>(2u, _params.max_leaves_num));
     }
 
     /**
@@ -279,7 +280,7 @@ namespace detail
         _leaves_nodes.push_back( _ntk.get_node( s ) );
       } });
 
-      assert(_leaves_nodes.size() <= _params.max_leaves_num);
+      assert(_leaves_nodes.size() <= std::max<size_t>(2u, _params.max_leaves_num));
       return true;
     }
 
-- 
2.43.0


From 640c439707fd87e0e0a299d383ad23ee4d95a384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 06/44] fix: cut limits of 12 and more exceeded the
 compile-time capacity

---
 include/database/cut/cut_enumeration.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/database/cut/cut_enumeration.hpp b/include/database/cut/cut_enumeration.hpp
index b6e11c9..0796b64 100755
--- a/include/database/cut/cut_enumeration.hpp
+++ b/include/database/cut/cut_enumeration.hpp
@@ -155,7 +155,7 @@ template<typename Ntk, bool ComputeTruth, typename CutData>
 struct network_cuts
 {
 public:
-  static constexpr uint32_t max_cut_num = 12;
+  static constexpr uint32_t max_cut_num = 26;  // cut_limit may be up to 25 (default), the commands accept up to 20
   using cut_t     = cut_type<ComputeTruth, CutData>;
   using cut_set_t = cut_set<cut_t, max_cut_num>;
 
-- 
2.43.0


From d064a343f1ddf047c94e45660a20833eb8aa0c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:40 +0000
Subject: [PATCH 07/44] fix: command options kept their values from earlier
 invocations

A variable bound to a command option was only written when the option was
given, so 'print_stats -t 1' changed what a later plain 'print_stats'
prints and one refused 'map_fpga -P 3' made every later 'map_fpga' fail.
Restore the initial values before parsing.
---
 libs/alice/include/alice/command.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/libs/alice/include/alice/command.hpp b/libs/alice/include/alice/command.hpp
index 96bf1d7..c152a7c 100644
--- a/libs/alice/include/alice/command.hpp
+++ b/libs/alice/include/alice/command.hpp
@@ -403,6 +403,7 @@ public:
   */
   inline auto add_flag( const std::string& name, bool& value, const std::string& description )
   {
+    bind_default( value );
     return opts.add_flag( name, value, description );
   }
 
@@ -425,6 +426,7 @@ public:
   template<typename T>
   inline auto add_option( const std::string& name, T& value, const std::string& description, bool defaulted = false )
   {
+    bind_default( value );
     return opts.add_option( name, value, description, defaulted );
   }
 
@@ -549,6 +551,12 @@ protected:
   {
     opts.reset();
 
+    /* options not given in this invocation take their default values */
+    for ( auto const& restore : default_restorers )
+    {
+      restore();
+    }
+
     /* copy arguments (seems important to get the right grouping of arguments) */
     std::vector<std::string> _args( args.size() - 1 );
     std::transform( args.rbegin(), args.rend() - 1, _args.begin(), []( const auto& s ) {
@@ -601,8 +609,17 @@ public:
   environment::ptr env;
   CLI::App opts;
 
+private:
+  /* remembers the initial value of a variable bound to an option */
+  template<typename T>
+  void bind_default( T& value )
+  {
+    default_restorers.emplace_back( [&value, initial = value]() { value = initial; } );
+  }
+
 private:
   std::string scaption;
+  std::vector<std::function<void()>> default_restorers;
   std::vector<std::any> options;
   std::unordered_map<std::string, unsigned> option_index;
 
-- 
2.43.0


From f53de4f09b478317b4db4431cc2981dbf3d62080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:55 +0000
Subject: [PATCH 08/44] fix: history slots must be independent copies with a
 consistent count

- a recorded AIG shared its storage with the current AIG, which rewrite
  modifies in place;
- the sixth 'history -a' overwrote the current AIG's slot and made every
  later history command return early;
- 'history -c' left the cleared AIGs in place and read_aiger did not start
  an empty history.
---
 cli/cache.hpp                 |  6 ++++++
 cli/command/history.hpp       | 38 +++++++++++++++++------------------
 cli/command/io/read_aiger.hpp |  1 +
 3 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/cli/cache.hpp b/cli/cache.hpp
index 222c5b2..5ae57ef 100644
--- a/cli/cache.hpp
+++ b/cli/cache.hpp
@@ -18,6 +18,12 @@ ALICE_DESCRIBE_STORE(iFPGA::aig_network, element) {
     return fmt::format("{} nodes", element.size());
 }
 
+// the number of history AIGs, which are the first entries of the AIG store
+inline int& history_size() {
+    static int size = 0;
+    return size;
+}
+
 // add klut network cache to the command environment
 ALICE_ADD_STORE(iFPGA::klut_network, "lut", "l", "LUT", "LUTs")
 ALICE_PRINT_STORE(iFPGA::klut_network, os, element) {
diff --git a/cli/command/history.hpp b/cli/command/history.hpp
index 2fde652..f4cd8c4 100644
--- a/cli/command/history.hpp
+++ b/cli/command/history.hpp
@@ -24,45 +24,43 @@ protected:
             return;
         }
 
-        if (cadd && history_index + 1 <= max_size) {
-            iFPGA::aig_network aig = store<iFPGA::aig_network>().current()._storage;
-            store<iFPGA::aig_network>()[++history_index] = aig;
-        }
+        auto& aigs = store<iFPGA::aig_network>();
+        // the current AIG is optimized in place, so that the history needs its own copy
+        const auto snapshot = [&]() {
+            return iFPGA::aig_network( std::make_shared<iFPGA::aig_storage>( *aigs.current()._storage ) );
+        };
 
-        if (history_index + 1 > max_size) {
-            printf("WARN: the max history size is %d, please refer to the command \"history -h\"\n", max_size);
-            return;
+        if (cadd) {
+            if (history_size() < max_size) {
+                aigs[history_size()++] = snapshot();
+            } else {
+                printf("WARN: the max history size is %d, please refer to the command \"history -h\"\n", max_size);
+            }
         }
 
         // using current AIG to replace the indexed history AIG
         if (index_replace == -1) {
             // do nothing
-        } else if (index_replace > history_index || index_replace < -1) {
+        } else if (index_replace >= history_size() || index_replace < -1) {
             printf("WARN: the replace index is out of range, please refer to the command \"history -h\"\n");
         } else {
-            iFPGA::aig_network aig = store<iFPGA::aig_network>().current()._storage;
-            store<iFPGA::aig_network>()[index_replace] = aig; // replace the AIG file
+            aigs[index_replace] = snapshot(); // replace the AIG file
         }
 
         if (cclear) {
-            history_index = -1;
+            for (int i = 0; i < history_size(); ++i) {
+                aigs[i] = iFPGA::aig_network();
+            }
+            history_size() = 0;
         }
 
         if (csize) {
-            printf("INFO: the history size is %d\n", history_index+1 ); // current aig are the latest version of optimized AIG, and the previous indexed AIGs are the history AIGs.
+            printf("INFO: the history size is %d\n", history_size() ); // current aig are the latest version of optimized AIG, and the previous indexed AIGs are the history AIGs.
         }
-        
-        cclear = false;
-        csize = false;
-        cadd = false;
-        index_replace = -1;
-        
-        return;
     }
 
 private:
     int max_size = 5;          // the history AIGs are indexed with {0,1,2,3,4}
-    int history_index = -1;    
     bool cclear = false;
     bool csize = false;
     bool cadd = false;
diff --git a/cli/command/io/read_aiger.hpp b/cli/command/io/read_aiger.hpp
index 52f86ac..3d92ac4 100644
--- a/cli/command/io/read_aiger.hpp
+++ b/cli/command/io/read_aiger.hpp
@@ -24,6 +24,7 @@ protected:
             store<iFPGA::klut_network>().clear();
             store<iFPGA::write_verilog_params>().clear();
         }
+        history_size() = 0;
         // the history AIGs indexed with {0,1,2,3,4}
         store<iFPGA::aig_network>().extend();
         store<iFPGA::aig_network>().extend();
-- 
2.43.0


From eef0071b6be71043c7d87186e6f774fb34e9a32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:58 +0000
Subject: [PATCH 09/44] fix: choice mapping without usable history and
 write_aiger without AIG aborted

map_fpga -t 1 asserted when no history AIG with gates was recorded, as its
guard counts the always present store slots; write_aiger went on after its
warning.
---
 cli/command/io/write_aiger.hpp |  1 +
 cli/command/map_fpga.hpp       | 25 +++++++++++++++----------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/cli/command/io/write_aiger.hpp b/cli/command/io/write_aiger.hpp
index 574a20f..cf6d183 100644
--- a/cli/command/io/write_aiger.hpp
+++ b/cli/command/io/write_aiger.hpp
@@ -18,6 +18,7 @@ protected:
     void execute() {
         if( store<iFPGA::aig_network>().empty() ) {    // clear the previous store
             printf("WARN: there is no any stored AIG file, please refer to the command \"read_aiger\"\n");
+            return;
         }
         iFPGA::write_aiger( store<iFPGA::aig_network>().current(), filename);
     }
diff --git a/cli/command/map_fpga.hpp b/cli/command/map_fpga.hpp
index 6e9b3a2..5e9ed13 100644
--- a/cli/command/map_fpga.hpp
+++ b/cli/command/map_fpga.hpp
@@ -74,22 +74,27 @@ protected:
         param_mapping.uAreaIters = iAreaIter;
         param_mapping.verbose = verbose;
         
-        if(type == 1 && store<iFPGA::aig_network>().size() < 2) {
-            printf("WARN: there is no another history AIG files, please refer to the command \"history\"\n");
-            type = 0;
+        // the history AIGs to take choices from, the latest one first
+        std::vector<iFPGA::aig_network> histories;
+        if(type == 1) {
+            for(int i = history_size() - 1; i >= 0; i--) {
+                iFPGA::aig_network aig = store<iFPGA::aig_network>()[i];
+                if(aig.num_gates() > 0) {
+                    histories.push_back(aig);
+                }
+            }
+            if(histories.empty()) {
+                printf("WARN: there is no another history AIG files, please refer to the command \"history\"\n");
+            }
         }
 
-        if(type == 1) { // mapping with choice
+        if(!histories.empty()) { // mapping with choice
 
-            int i = 0;
             iFPGA::choice_miter cm;
             iFPGA::choice_params params_choice;
 
-            for(i = store<iFPGA::aig_network>().size() - 2; i >= 0; i--) {
-                iFPGA::aig_network aig = store<iFPGA::aig_network>()[i]._storage;
-                if(aig.num_gates() > 0) {
-                    cm.add_aig( std::make_shared<iFPGA::aig_network>(aig) );
-                }
+            for(auto const& aig : histories) {
+                cm.add_aig( std::make_shared<iFPGA::aig_network>(aig) );
             }
         
             iFPGA::choice_computation cc(params_choice, cm.merge_aigs_to_miter());
-- 
2.43.0


From a837982565670c8d47a077e047d46a70437505dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:29 +0000
Subject: [PATCH 10/44] fix: choice mapping picked the trivial cut as a node's
 own best cut

perform_mapping_and_choice inserted the cuts of equivalent nodes into cut sets
that still held the unit cut, which could become the best cut (a LUT feeding
itself); cut_set::remove also lost the slot it freed.
---
 include/database/cut/cut_set.hpp               | 1 +
 include/operations/algorithms/klut_mapping.hpp | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/include/database/cut/cut_set.hpp b/include/database/cut/cut_set.hpp
index 5f680c9..28356d7 100644
--- a/include/database/cut/cut_set.hpp
+++ b/include/database/cut/cut_set.hpp
@@ -213,6 +213,7 @@ public:
     {
       _pcuts[i] = _pcuts[i + 1];
     }
+    _pcuts[size() - 1] = bad;   // keep the slot usable for later insertions
     _pcend--;
     _pend--;
     _length--;
diff --git a/include/operations/algorithms/klut_mapping.hpp b/include/operations/algorithms/klut_mapping.hpp
index ee87933..6675423 100644
--- a/include/operations/algorithms/klut_mapping.hpp
+++ b/include/operations/algorithms/klut_mapping.hpp
@@ -383,6 +383,13 @@ class klut_mapping_impl
       }
 
       auto& cuts_repr = _cut_network.cuts(n);
+      // the trival cut is not sorted by cost and must not become the best cut of the node itself
+      for( uint32_t i = cuts_repr.size(); i-- > 0u; )
+      {
+        if( cuts_repr[i].size() < 2 )
+          cuts_repr.remove(i);
+      }
+
       auto next_choice_node = _ntk.get_equiv_node(n);
 
       while(next_choice_node != AIG_NULL)
-- 
2.43.0


From acf6dab30423cb53012b596fa029abffd15632f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 11/44] fix: rewrite and refactor corrupted circuits with
 redundant structure

rewrite: skip a replacement whose new structure contains the replaced node (a
cycle), and never leave a gate with two equal fanins (it is taken for an input).
storage: erase exactly the hash entry of the given node; with equal nodes the
wrong entry was removed and a dead node stayed reachable.
---
 include/database/network/aig_network.hpp     |  4 +--
 include/database/network/details/storage.hpp | 13 +++++---
 include/operations/optimization/rewrite.hpp  | 35 ++++++++++++++++++++
 3 files changed, 46 insertions(+), 6 deletions(-)

diff --git a/include/database/network/aig_network.hpp b/include/database/network/aig_network.hpp
index dd47e56..f8ad313 100755
--- a/include/database/network/aig_network.hpp
+++ b/include/database/network/aig_network.hpp
@@ -517,7 +517,7 @@ public:
     const auto old_child1 = signal{node.children[1]};
 
     // erase old node in hash table
-    _storage->hash_erase(node);
+    _storage->hash_erase(n);
 
     // insert updated node into hash table
     node.children[0] = child0;
@@ -565,7 +565,7 @@ public:
     /* delete the node (ignoring it's current fanout_size) */
     auto& nobj = _storage->nodes[n];
     nobj.data[0].h1 = UINT32_C( 0x80000000 ); /* fanout size 0, but dead */
-    _storage->hash_erase(nobj);
+    _storage->hash_erase(n);
 
     for ( auto const& fn : _events->on_delete )
     {
diff --git a/include/database/network/details/storage.hpp b/include/database/network/details/storage.hpp
index 06a1f14..27ac5cf 100755
--- a/include/database/network/details/storage.hpp
+++ b/include/database/network/details/storage.hpp
@@ -104,16 +104,21 @@ struct storage
     ++num_entries;
   }
 
-  void hash_erase(node_type n)
+  /* erases the entry of the node at `index`; another node may have equal children */
+  void hash_erase(uint64_t index)
   {
-    uint64_t key = abc_hash(n, hash.size());
+    uint64_t key = abc_hash(nodes[index], hash.size());
     uint64_t cur = hash[key], pre = hash[key];
-    while(!(n == nodes[cur]) && nodes[cur].next != 0)
+    while(cur != index && cur != 0)
     {
       pre = cur;
       cur = nodes[cur].next;
     }
-    assert(n == nodes[cur]);
+    assert(cur == index);
+    if(cur == 0)
+    {
+      return;
+    }
     if(cur == hash[key])
     {
       hash[key] = nodes[cur].next;
diff --git a/include/operations/optimization/rewrite.hpp b/include/operations/optimization/rewrite.hpp
index db6f73b..57fa40e 100644
--- a/include/operations/optimization/rewrite.hpp
+++ b/include/operations/optimization/rewrite.hpp
@@ -144,6 +144,9 @@ class rewrite_impl
       // printf("processing at [%d/%d]\n", ++i, size);
       if(cand.first == _ntk.get_node(cand.second))
         continue;
+      // the new structure may share nodes with the fanout cone of the replaced node
+      if(is_in_cone(_ntk.get_node(cand.second), cand.first))
+        continue;
       local_replacement(cand.first, cand.second);
     }
 
@@ -291,6 +294,32 @@ class rewrite_impl
     return res;
   }
 
+  /**
+   * @brief check whether a node is in the transitive fanin cone of the root
+   * @param root
+   * @param n
+  */
+  bool is_in_cone(node_t const& root, node_t const& n) {
+    _marks.resize(_ntk.size(), 0u);
+    ++_mark;
+    std::vector<node_t> stack{root};
+    _marks[root] = _mark;
+    while(!stack.empty()) {
+      auto cur = stack.back();
+      stack.pop_back();
+      if(cur == n)
+        return true;
+      _ntk.foreach_fanin(cur, [&](auto const& sc){
+        auto nc = _ntk.get_node(sc);
+        if(_marks[nc] != _mark) {
+          _marks[nc] = _mark;
+          stack.push_back(nc);
+        }
+      });
+    }
+    return false;
+  }
+
   /**
    * @brief perform the local placement
    * @param old_n
@@ -328,6 +357,10 @@ class rewrite_impl
         if(_ntk.get_node(sc1) == old_n) {
           _ntk.set_child1(nfo, signal_t(new_n, _ntk.is_complemented(new_s)^_ntk.is_complemented(sc1)));
         }
+        // a node with two equal fanins would be taken for an input
+        if(nfo != old_n && _ntk.get_child0(nfo) == _ntk.get_child1(nfo)) {
+          _ntk.set_child0(nfo, _ntk.get_constant(true));
+        }
       }
     }
   }
@@ -340,6 +373,8 @@ class rewrite_impl
   std::unordered_map<node_t, std::vector<signal_t>> _fanouts;
   std::unordered_map<node_t, int> _depth_arrive;
   std::unordered_map<node_t, int> _depth_require;
+  std::vector<uint32_t> _marks;
+  uint32_t _mark{ 0u };
 };  // end class rewrite_impl
 
 };  // end namespace detail
-- 
2.43.0


From 9dcbf799c5439cdb65c7a7974bae4a01933a785d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:36 +0000
Subject: [PATCH 12/44] fix: rewrite needed exponential time on deep circuits

The required depths were computed by an unmemoised recursion and the arrival
update ran through the leaves of the cut when the new structure is a leaf.
---
 include/operations/optimization/rewrite.hpp | 46 ++++++++++-----------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/include/operations/optimization/rewrite.hpp b/include/operations/optimization/rewrite.hpp
index 57fa40e..f6a67e8 100644
--- a/include/operations/optimization/rewrite.hpp
+++ b/include/operations/optimization/rewrite.hpp
@@ -23,6 +23,7 @@
 #include "cut/cut_enumeration.hpp"
 #include "cut/rewrite_cut_enumeration.hpp"
 #include "detail/node_rewriting.hpp"
+#include "views/topo_view.hpp"
 #include "utils/ifpga_namespaces.hpp"
 
 #include <vector>
@@ -209,25 +210,27 @@ class rewrite_impl
 
     _ntk.foreach_po([&](auto const& po){
       _depth_require[_ntk.get_node(po)] = depth_max;
-      compute_require_depth_rec( _ntk.get_node(po) );
     });
+    compute_require_depth();
   }
 
   /**
-   * @brief recursively compute the require depth
-   * @param n root node for the cone
-  */
-  void compute_require_depth_rec(node_t n) {
-    if(_ntk.is_pi(n) || _ntk.is_constant(n)) {
-      return;
-    }
-    _ntk.foreach_fanin(n, [&](auto const& sc) {
-      auto nc = _ntk.get_node(sc);
-      if(_depth_require[nc] > _depth_require[n] - 1) {
-        _depth_require[nc] = _depth_require[n] - 1;
-        compute_require_depth_rec(nc);
-      }
+   * @brief propagate the require depth from the outputs, every node is visited once
+   */
+  void compute_require_depth() {
+    std::vector<node_t> topo_order;
+    topo_view<Ntk>(_ntk).foreach_node([&](auto const& n){
+      topo_order.emplace_back(n);
     });
+    for(auto it = topo_order.rbegin(); it != topo_order.rend(); ++it) {
+      auto n = *it;
+      if(_ntk.is_pi(n) || _ntk.is_constant(n))
+        continue;
+      _ntk.foreach_fanin(n, [&](auto const& sc) {
+        auto nc = _ntk.get_node(sc);
+        _depth_require[nc] = std::min(_depth_require[nc], _depth_require[n] - 1);
+      });
+    }
   }
 
   /**
@@ -237,18 +240,15 @@ class rewrite_impl
    * @return depth for n
   */
   int update_arrive_depth(node_t const& n, std::vector<node_t> const& leaves) {
+    // the cone ends at the leaves
+    if(std::find(leaves.begin(), leaves.end(), n) != leaves.end()) {
+      return _depth_arrive[n];
+    }
     int res = 0;
     _ntk.foreach_fanin(n, [&](auto const& sc){
-      auto nc = _ntk.get_node(sc);
-      if(std::find(leaves.begin(), leaves.end(), nc) != leaves.end()) {
-        res = std::max(res, _depth_arrive[nc] + 1);
-        _depth_arrive[n] = std::max(_depth_arrive[n], _depth_arrive[nc] + 1);
-      }
-      else {
-        res = std::max(res, update_arrive_depth(nc, leaves) + 1);
-        _depth_arrive[n] = std::max(_depth_arrive[n], update_arrive_depth(nc, leaves) + 1);
-      }
+      res = std::max(res, update_arrive_depth(_ntk.get_node(sc), leaves) + 1);
     });
+    _depth_arrive[n] = std::max(_depth_arrive[n], res);
     return res;
   }
 
-- 
2.43.0


From 5ed3ea6126cc01c0b24c02d102287a0b5232b277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:59 +0000
Subject: [PATCH 13/44] fix: klut_network simulation order and input
 bookkeeping

compute() over Booleans took the first fanin as the most significant variable,
unlike the truth table version and the gate functions; is_ci/is_pi lived in the
application value and the index queries read fanins that inputs do not have.
---
 include/database/network/klut_network.hpp | 29 ++++++++++-------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/include/database/network/klut_network.hpp b/include/database/network/klut_network.hpp
index 07ae47e..a32ed94 100755
--- a/include/database/network/klut_network.hpp
+++ b/include/database/network/klut_network.hpp
@@ -26,6 +26,7 @@
 #include "utils/truth_table_cache.hpp"
 #include "kitty/dynamic_truth_table.hpp"
 #include "kitty/constructors.hpp"
+#include <algorithm>
 
 iFPGA_NAMESPACE_HEADER_START
 
@@ -162,8 +163,6 @@ public:
     _storage->inputs.emplace_back( index );
     _storage->nodes[index].data[1].h1 = 2;
     ++_storage->data.num_pis;
-
-    _storage->nodes[index_to_node(index)].data[0].h2 = 1;
     return index;
   }
 
@@ -188,8 +187,6 @@ public:
     _storage->nodes.emplace_back();
     _storage->inputs.emplace_back( index );
     _storage->nodes[index].data[1].h1 = 2;
-
-    _storage->nodes[index_to_node(index)].data[0].h2 = 3;
     return index;
   }
 
@@ -224,13 +221,13 @@ public:
 
   bool is_ci( node const& n ) const
   {
-    return _storage->nodes[n].data[0].h2 == 1 ||
-           _storage->nodes[n].data[0].h2 == 3;
+    /* only inputs and constants have no fanin; values are free for the applications */
+    return n > 1 && _storage->nodes[n].children.empty();
   }
 
   bool is_pi( node const& n ) const
   {
-    return _storage->nodes[n].data[0].h2 == 1;
+    return is_ci( n ) && !is_ro( n );
   }
 
   bool is_ro( node const& n ) const
@@ -551,8 +548,8 @@ signal create_maj( signal a, signal b, signal c )
 
   uint32_t ci_index( node const& n ) const
   {
-    assert( _storage->nodes[n].children[0].data == _storage->nodes[n].children[1].data );
-    return static_cast<uint32_t>( _storage->nodes[n].children[0].data );
+    assert( is_ci( n ) );
+    return static_cast<uint32_t>( std::find( _storage->inputs.begin(), _storage->inputs.end(), n ) - _storage->inputs.begin() );
   }
 
   uint32_t co_index( signal const& s ) const
@@ -571,8 +568,7 @@ signal create_maj( signal a, signal b, signal c )
 
   uint32_t pi_index( node const& n ) const
   {
-    assert( _storage->nodes[n].children[0].data == _storage->nodes[n].children[1].data );
-    return static_cast<uint32_t>( _storage->nodes[n].children[0].data );
+    return ci_index( n );
   }
 
   uint32_t po_index( signal const& s ) const
@@ -591,8 +587,7 @@ signal create_maj( signal a, signal b, signal c )
 
   uint32_t ro_index( node const& n ) const
   {
-    assert( _storage->nodes[n].children[0].data == _storage->nodes[n].children[1].data );
-    return static_cast<uint32_t>( _storage->nodes[n].children[0].data - _storage->data.num_pis );
+    return ci_index( n ) - _storage->data.num_pis;
   }
 
   uint32_t ri_index( signal const& s ) const
@@ -611,7 +606,7 @@ signal create_maj( signal a, signal b, signal c )
 
   signal ro_to_ri( signal const& s ) const
   {
-    return ( _storage->outputs.begin() + _storage->data.num_pos + _storage->nodes[s].children[0].data - _storage->data.num_pis )->index;
+    return ( _storage->outputs.begin() + _storage->data.num_pos + ro_index( s ) )->index;
   }
 
   node ri_to_ro( signal const& s ) const
@@ -737,11 +732,11 @@ signal create_maj( signal a, signal b, signal c )
   iterates_over_t<Iterator, bool>
   compute( node const& n, Iterator begin, Iterator end ) const
   {
-    uint32_t index{0};
+    /* the first fanin is the first variable of the function */
+    uint32_t index{0}, pos{0};
     while ( begin != end )
     {
-      index <<= 1;
-      index ^= *begin++ ? 1 : 0;
+      index |= ( *begin++ ? 1u : 0u ) << pos++;
     }
     return kitty::get_bit( _storage->data.cache[_storage->nodes[n].data[1].h1], index );
   }
-- 
2.43.0


From 69a7268a67665b6ffde920cf932bd9e3356893b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:59 +0000
Subject: [PATCH 14/44] fix: read_aiger aborted on unreadable files and mixed
 up partial port names

The previous circuit was dropped before the file was known to be readable, and
the names were looked up by signal, so unnamed ports or ports sharing a signal
shifted the names of the others.
---
 cli/command/io/read_aiger.hpp    |  10 ++-
 include/operations/io/reader.hpp | 114 +++++++++++++++++++------------
 2 files changed, 80 insertions(+), 44 deletions(-)

diff --git a/cli/command/io/read_aiger.hpp b/cli/command/io/read_aiger.hpp
index 3d92ac4..176965b 100644
--- a/cli/command/io/read_aiger.hpp
+++ b/cli/command/io/read_aiger.hpp
@@ -19,6 +19,13 @@ public:
 
 protected:
     void execute() {
+        iFPGA::aig_network aig;
+        iFPGA::write_verilog_params ports;
+        iFPGA::Reader<iFPGA::aig_network> reader(filename, aig, ports);
+        if( !reader.isSuccess() ) {     // keep the previous store
+            printf("WARN: can not read the AIG file \"%s\", please refer to the command \"read_aiger -h\"\n", filename.c_str());
+            return;
+        }
         if( !store<iFPGA::aig_network>().empty() ) {    // clear the previous store
             store<iFPGA::aig_network>().clear();
             store<iFPGA::klut_network>().clear();
@@ -34,7 +41,8 @@ protected:
         // current AIG
         store<iFPGA::aig_network>().extend();
         store<iFPGA::write_verilog_params>().extend();
-        iFPGA::Reader<iFPGA::aig_network> reader(filename, store<iFPGA::aig_network>().current(), store<iFPGA::write_verilog_params>().current());
+        store<iFPGA::aig_network>().current() = aig;
+        store<iFPGA::write_verilog_params>().current() = ports;
     }
 private:
     std::string filename;
diff --git a/include/operations/io/reader.hpp b/include/operations/io/reader.hpp
index 61a2d2d..c850ccc 100755
--- a/include/operations/io/reader.hpp
+++ b/include/operations/io/reader.hpp
@@ -22,6 +22,9 @@
 #include <sstream>
 #include <cctype>
 #include <algorithm>
+#include <map>
+#include <set>
+#include <fmt/format.h>
 
 #include "utils/ifpga_namespaces.hpp"
 #include "network/aig_network.hpp"
@@ -65,8 +68,12 @@ std::string to_escaped_identifier(const std::string& name)
 template<typename Ntk>
 class aig_reader : public aiger_reader<Ntk> 
 {
+public:
+  using port_names = std::map<uint32_t, std::string>; // port index -> name
+
 private:
-  mutable write_verilog_params _port_infos;
+  mutable port_names _input_names;
+  mutable port_names _output_names;
 public:
   explicit aig_reader( Ntk& ntk, NameMap<Ntk>* names = nullptr ) 
     :aiger_reader<Ntk>::aiger_reader(ntk, names) 
@@ -79,7 +86,7 @@ public:
     // keep base class manipulation
     this->aiger_reader<Ntk>::on_input_name(index, name);
     // store port name
-    _port_infos.input_names.emplace_back(std::make_pair(to_escaped_identifier(name), 0));
+    _input_names[index] = name;
   }
   
   void on_output_name(unsigned index, const std::string& name) const override
@@ -87,16 +94,14 @@ public:
     // keep base class manipulation
     this->aiger_reader<Ntk>::on_output_name(index, name);
     // store port name
-    _port_infos.output_names.emplace_back(std::make_pair(to_escaped_identifier(name), 0));
+    _output_names[index] = name;
   }
   
   /**
-   * @brief return port names for write verilog
+   * @brief return the names of the named inputs and outputs
    */
-  const write_verilog_params& get_params() const
-  { 
-    return _port_infos;
-  }
+  const port_names& get_input_names() const { return _input_names; }
+  const port_names& get_output_names() const { return _output_names; }
 }; 
 
 
@@ -117,48 +122,36 @@ public:
   Reader( std::string path_in , Ntk& aig ,write_verilog_params& portnames,FileType type = FileType::aag)
     : _path_in(path_in) , _type(type) , _state(false)
   {
-    assert( isFileExist(path_in) );
-
-    /// way1: use NameMap
-    NameMap<Ntk> nameMap;
-    auto const result = lorina::read_aiger( path_in , aiger_reader<Ntk>{_aig, &nameMap});
+    if( !isFileExist(path_in) )
+    {
+      std::cerr<< "\tERROR: the aig file does not exist, path from: "<< path_in << std::endl;
+      return;
+    }
 
-    /// way2: use inherited class 
-    //aig_reader<iFPGA_NAMESPACE::aig_network> reader(_aig);
-    //auto const result = lorina::read_aiger( path_in , reader );
+    typename aig_reader<Ntk>::port_names input_names, output_names;
+    lorina::return_code result;
+    {
+      aig_reader<Ntk> reader(_aig); // the outputs are created by its destructor
+      try
+      {
+        result = lorina::read_aiger( path_in , reader );
+      }
+      catch( std::exception const& ) // e.g. a directory
+      {
+        result = lorina::return_code::parse_error;
+      }
+      input_names = reader.get_input_names();
+      output_names = reader.get_output_names();
+    }
 
     if( result == lorina::return_code::success )
     {
       // std::cout<< "\tINFO: read the aig file SUCCESS, path from: "<< path_in << std::endl;
       _state = true;
       aig = _aig;
-      /// Network + NameMap -> write_verilog_params
-      {
-        using signal = typename Ntk::signal;
-        std::map<uint64_t, uint32_t> signalCount; // for one signal has multiple names
-        for(auto input: aig._storage->inputs)
-        {
-          signal s = signal{input, 0};
-          auto names = nameMap[s];
-          if(!names.empty())
-          {
-            auto name = names[signalCount[s.data]++];
-            if(!name.empty())
-              portnames.input_names.emplace_back(std::make_pair(to_escaped_identifier(name), 0));
-          }
-        }
-        for(auto output : aig._storage->outputs)
-        {
-          signal s = signal{output.index, output.weight};
-          auto names = nameMap[s];
-          if(!names.empty())
-          {
-            auto name = names[signalCount[s.data]++];
-            if(!name.empty())
-              portnames.output_names.emplace_back(std::make_pair(to_escaped_identifier(name), 0));
-          }
-        }
-      }
+      /// port names -> write_verilog_params
+      portnames.input_names = complete_names(input_names, aig.num_pis(), "_i{}_");
+      portnames.output_names = complete_names(output_names, aig.num_pos(), "_o{}_");
     }
     else
     {
@@ -185,6 +178,41 @@ public:
     return _aig; 
   }
 
+private:
+  /**
+   * @brief one name for each port if there are any names, in the order of the ports
+   */
+  static std::vector<std::pair<std::string, uint32_t>> complete_names(
+    const typename aig_reader<Ntk>::port_names& names, uint32_t size, const char* pattern)
+  {
+    std::vector<std::pair<std::string, uint32_t>> res;
+    std::set<std::string> used;
+    for(auto const& [index, name] : names)
+    {
+      used.insert(name);
+    }
+    used.erase("");
+    if(used.empty())
+    {
+      return res;
+    }
+    for(uint32_t i = 0u; i < size; ++i)
+    {
+      auto it = names.find(i);
+      std::string name = it == names.end() ? "" : it->second;
+      if(name.empty())
+      {
+        name = fmt::format(pattern, i);
+        while(!used.insert(name).second)
+        {
+          name += "_";
+        }
+      }
+      res.emplace_back(to_escaped_identifier(name), 0);
+    }
+    return res;
+  }
+
 private:
   std::string                   _path_in;           // the logic synthesis file's path
   int                           _type;              // the reader file's type
-- 
2.43.0


From cfd3e9b0f76c30807255d68fd9b473e021dac33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 15/44] fix: write_fpga port list of a circuit without inputs
 started with a comma

---
 include/operations/io/detail/writer_lut.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/operations/io/detail/writer_lut.hpp b/include/operations/io/detail/writer_lut.hpp
index 9cb953a..d23fc71 100644
--- a/include/operations/io/detail/writer_lut.hpp
+++ b/include/operations/io/detail/writer_lut.hpp
@@ -155,7 +155,13 @@ void write_lut( Ntk const& ntk, std::ostream& os, write_verilog_params const& ps
   }
   for (auto po : vec_pos)
   {
-    os << fmt::format( ", {}", po );
+    if(first)
+    {
+      first = false;
+      os << po;
+    }
+    else
+      os << fmt::format( ", {}", po );
   }
   os << ");\n";
   for(auto pi : vec_pis)
-- 
2.43.0


From da6fe1b5bcb38e02d673b57993919ffc0f1088fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 16/44] fix: depth_view left its event handler behind in the
 network when destroyed or copied

---
 include/database/views/depth_view.hpp | 42 ++++++++++++++++++++++-----
 include/utils/node_map.hpp            |  7 +++++
 2 files changed, 42 insertions(+), 7 deletions(-)

diff --git a/include/database/views/depth_view.hpp b/include/database/views/depth_view.hpp
index f9451b7..a3efae2 100644
--- a/include/database/views/depth_view.hpp
+++ b/include/database/views/depth_view.hpp
@@ -17,6 +17,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cstdint>
 #include <vector>
 
@@ -109,7 +110,7 @@ public:
     static_assert( has_foreach_po_v<Ntk>, "Ntk does not implement the foreach_po method" );
     static_assert( has_foreach_fanin_v<Ntk>, "Ntk does not implement the foreach_fanin method" );
 
-    Ntk::events().on_add.push_back( [this]( auto const& n ) { on_add( n ); } );
+    _handlers->on_add.push_back( add_handler{ this } );
   }
 
   /*! \brief Standard constructor.
@@ -120,8 +121,8 @@ public:
   explicit depth_view( Ntk const& ntk, NodeCostFn const& cost_fn = {}, depth_view_params const& ps = {} )
       : Ntk( ntk ),
         _ps( ps ),
-        _levels( ntk ),
-        _crit_path( ntk ),
+        _levels( *this ),
+        _crit_path( *this ),
         _cost_fn( cost_fn )
   {
     static_assert( is_network_type_v<Ntk>, "Ntk is not a network type" );
@@ -135,12 +136,32 @@ public:
 
     update_levels();
 
-    Ntk::events().on_add.push_back( [this]( auto const& n ) { on_add( n ); } );
+    _handlers->on_add.push_back( add_handler{ this } );
+  }
+
+  depth_view( depth_view const& other )
+      : Ntk( other ),
+        _ps( other._ps ),
+        _levels( *this, other._levels ),
+        _crit_path( *this, other._crit_path ),
+        _depth( other._depth ),
+        _cost_fn( other._cost_fn )
+  {
+    _handlers->on_add.push_back( add_handler{ this } );
   }
 
-  // We should add these or make sure that members are properly copied
-  //depth_view( depth_view<Ntk> const& ) = delete;
-  //depth_view<Ntk> operator=( depth_view<Ntk> const& ) = delete;
+  depth_view& operator=( depth_view const& ) = delete;
+
+  /* the events are shared with the network, which may outlive the view */
+  ~depth_view()
+  {
+    auto& handlers = _handlers->on_add;
+    handlers.erase( std::remove_if( handlers.begin(), handlers.end(), [this]( auto const& fn ) {
+                      auto const* handler = fn.template target<add_handler>();
+                      return handler != nullptr && handler->view == this;
+                    } ),
+                    handlers.end() );
+  }
 
   uint32_t depth() const
   {
@@ -190,6 +211,12 @@ public:
   }
 
 private:
+  struct add_handler
+  {
+    depth_view* view;
+    void operator()( node const& n ) const { view->on_add( n ); }
+  };
+
   uint32_t compute_levels( node const& n )
   {
     if ( this->visited( n ) == this->trav_id() )
@@ -275,6 +302,7 @@ private:
     _levels[n] = level + _cost_fn( *this, n );
   }
 
+  decltype( Ntk::_events ) _handlers = Ntk::_events; /* where the view is registered */
   depth_view_params _ps;
   node_map<uint32_t, Ntk> _levels;
   node_map<uint32_t, Ntk> _crit_path;
diff --git a/include/utils/node_map.hpp b/include/utils/node_map.hpp
index 48ba113..14d09d0 100644
--- a/include/utils/node_map.hpp
+++ b/include/utils/node_map.hpp
@@ -106,6 +106,13 @@ public:
     static_assert( has_node_to_index_v<Ntk>, "Ntk does not implement the node_to_index method" );
   }
 
+  /*! \brief Copies the values of another map for the network `ntk`. */
+  node_map( Ntk const& ntk, node_map const& other )
+      : ntk( ntk ),
+        data( std::make_shared<std::vector<T>>( *other.data ) )
+  {
+  }
+
   /*! \brief Mutable access to value by node. */
   reference operator[]( node const& n )
   {
-- 
2.43.0


From 241a8740727a4fd1f09fe47da521f9290c03cbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 17/44] fix: circuit_validator kept a reference to its
 temporary default parameters

---
 include/operations/algorithms/circuit_validator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/operations/algorithms/circuit_validator.hpp b/include/operations/algorithms/circuit_validator.hpp
index 39e6b66..85019b8 100644
--- a/include/operations/algorithms/circuit_validator.hpp
+++ b/include/operations/algorithms/circuit_validator.hpp
@@ -680,7 +680,7 @@ private:
 private:
   Ntk const& ntk;
 
-  validator_params const& ps;
+  validator_params const ps;
 
   node_map<bill::lit_type, Ntk> literals;
   unordered_node_map<bool, Ntk> constructed;
-- 
2.43.0


From fb8662027c04863186ccf83f357830785f77899a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 18/44] fix: circuit_validator left its event handler behind in
 the network when destroyed

---
 .../algorithms/circuit_validator.hpp          | 31 ++++++++++++++++---
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/include/operations/algorithms/circuit_validator.hpp b/include/operations/algorithms/circuit_validator.hpp
index 85019b8..af99b79 100644
--- a/include/operations/algorithms/circuit_validator.hpp
+++ b/include/operations/algorithms/circuit_validator.hpp
@@ -17,6 +17,8 @@
 
 #pragma once
 
+#include <algorithm>
+
 #include "utils/node_map.hpp"
 #include "cnf.hpp"
 #include <bill/sat/interface/abc_bsat2.hpp>
@@ -79,7 +81,7 @@ public:
   };
 
   explicit circuit_validator( Ntk const& ntk, validator_params const& ps = {} )
-      : ntk( ntk ), ps( ps ), literals( ntk ), constructed( ntk ), num_invoke( 0u ), cex( ntk.num_pis() )
+      : ntk( ntk ), events( ntk._events ), ps( ps ), literals( ntk ), constructed( ntk ), num_invoke( 0u ), cex( ntk.num_pis() )
   {
     static_assert( is_network_type_v<Ntk>, "Ntk is not a network type" );
     static_assert( has_foreach_fanin_v<Ntk>, "Ntk does not implement the foreach_fanin method" );
@@ -119,10 +121,7 @@ public:
       static_assert( has_foreach_fanout_v<Ntk>, "Ntk does not implement the foreach_fanout method" );
     }
 
-    ntk._events->on_add.emplace_back( [&]( const auto& n ) {
-      (void)n;
-      literals.resize();
-    });
+    events->on_add.emplace_back( add_handler{ this } );
 
     /* constants are mapped to var 0 */
     literals[ntk.get_constant( false )] = bill::lit_type( 0, bill::lit_type::polarities::positive );
@@ -139,6 +138,20 @@ public:
     restart();
   }
 
+  circuit_validator( circuit_validator const& ) = delete;
+  circuit_validator& operator=( circuit_validator const& ) = delete;
+
+  /* the events belong to the network, which may outlive the validator */
+  ~circuit_validator()
+  {
+    auto& handlers = events->on_add;
+    handlers.erase( std::remove_if( handlers.begin(), handlers.end(), [this]( auto const& fn ) {
+                      auto const* handler = fn.template target<add_handler>();
+                      return handler != nullptr && handler->validator == this;
+                    } ),
+                    handlers.end() );
+  }
+
   /*! \brief Validate functional equivalence of signals `f` and `d`. */
   std::optional<bool> validate( signal const& f, signal const& d )
   {
@@ -678,8 +691,16 @@ private:
   }
 
 private:
+  struct add_handler
+  {
+    circuit_validator* validator;
+    void operator()( node const& ) const { validator->literals.resize(); }
+  };
+
   Ntk const& ntk;
 
+  decltype( Ntk::_events ) events;
+
   validator_params const ps;
 
   node_map<bill::lit_type, Ntk> literals;
-- 
2.43.0


From a1db8ce09fd8f64fa28166f375125bd791acfc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:28 +0000
Subject: [PATCH 19/44] fix: substitute_node could replace a node by one that
 was removed in the meantime

---
 include/database/network/aig_network.hpp | 31 +++++++++++++++++++-----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/include/database/network/aig_network.hpp b/include/database/network/aig_network.hpp
index f8ad313..4ea7c87 100755
--- a/include/database/network/aig_network.hpp
+++ b/include/database/network/aig_network.hpp
@@ -594,13 +594,15 @@ public:
 
   void substitute_node( node const& old_node, signal const& new_signal )
   {
-    std::stack<std::pair<node, signal>> to_substitute;
-    to_substitute.push( {old_node, new_signal} );
+    /* every pending substitute is referenced, such that it is not removed before its turn */
+    std::vector<std::pair<node, signal>> to_substitute;
+    to_substitute.emplace_back( old_node, new_signal );
+    incr_fanout_size( new_signal.index );
 
     while ( !to_substitute.empty() )
     {
-      const auto [_old, _new] = to_substitute.top();
-      to_substitute.pop();
+      const auto [_old, _new] = to_substitute.back();
+      to_substitute.pop_back();
 
       for ( auto idx = 1u; idx < _storage->nodes.size(); ++idx )
       {
@@ -609,18 +611,35 @@ public:
 
         if ( const auto repl = replace_in_node( idx, _old, _new ); repl )
         {
-          to_substitute.push( *repl );
+          to_substitute.push_back( *repl );
+          incr_fanout_size( repl->second.index );
         }
       }
 
       /* check outputs */
       replace_in_outputs( _old, _new );
 
-      /* recursively reset old node */
       if ( _old != _new.index )
       {
+        /* check pending substitutes */
+        for ( auto& pending : to_substitute )
+        {
+          if ( pending.second.index == _old )
+          {
+            pending.second = signal( _new.index, _new.complement ^ pending.second.complement );
+            incr_fanout_size( _new.index );
+          }
+        }
+
+        /* recursively reset old node */
         take_out_node( _old );
       }
+
+      /* release the substitute; it goes if it was only kept for this */
+      if ( decr_fanout_size( _new.index ) == 0 && _new.index != new_signal.index )
+      {
+        take_out_node( _new.index );
+      }
     }
   }
 
-- 
2.43.0


From 840262a2589e859945fb15ff131c175dc6860dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:56 +0000
Subject: [PATCH 20/44] fix: substitute_nodes modified its list of
 substitutions while iterating over it

---
 include/database/network/aig_network.hpp | 49 ++++++++++++------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/include/database/network/aig_network.hpp b/include/database/network/aig_network.hpp
index 4ea7c87..146a4b8 100755
--- a/include/database/network/aig_network.hpp
+++ b/include/database/network/aig_network.hpp
@@ -647,30 +647,31 @@ public:
   {
     auto clean_substitutions = [&]( node const& n )
     {
-      substitutions.erase( std::remove_if( std::begin( substitutions ), std::end( substitutions ),
-                                           [&]( auto const& s ){
-                                             if ( s.first == n )
-                                             {
-                                               node const nn = get_node( s.second );
-                                               if ( is_dead( nn ) )
-                                                 return true;
-
-                                               /* deref fanout_size of the node */
-                                               if ( fanout_size( nn ) > 0 )
-                                               {
-                                                 decr_fanout_size( nn );
-                                               }
-                                               /* remove the node if it's fanout_size becomes 0 */
-                                               if ( fanout_size( nn ) == 0 )
-                                               {
-                                                 take_out_node( nn );
-                                               }
-                                               /* remove substitution from list */
-                                               return true;
-                                             }
-                                             return false; /* keep */
-                                           } ),
-                           std::end( substitutions ) );
+      /* taking out a node calls this function again: leave no iterator pending */
+      while ( true )
+      {
+        auto const it = std::find_if( std::begin( substitutions ), std::end( substitutions ),
+                                      [&]( auto const& s ){ return s.first == n; } );
+        if ( it == std::end( substitutions ) )
+          break;
+
+        /* remove substitution from list */
+        node const nn = get_node( it->second );
+        substitutions.erase( it );
+        if ( is_dead( nn ) )
+          continue;
+
+        /* deref fanout_size of the node */
+        if ( fanout_size( nn ) > 0 )
+        {
+          decr_fanout_size( nn );
+        }
+        /* remove the node if it's fanout_size becomes 0 */
+        if ( fanout_size( nn ) == 0 )
+        {
+          take_out_node( nn );
+        }
+      }
     };
 
     /* register event to delete substitutions if their right-hand side
-- 
2.43.0


From 1e380bc3138f50c6bd4b69beabe356ad9d77dd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:24 +0000
Subject: [PATCH 21/44] fix: equivalence_checking used solver variables that
 did not exist

A miter whose output or inputs occur in no clause made the solver read
and write outside its arrays.
---
 include/operations/algorithms/equivalence_checking.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/operations/algorithms/equivalence_checking.hpp b/include/operations/algorithms/equivalence_checking.hpp
index 96d91cc..be8f137 100644
--- a/include/operations/algorithms/equivalence_checking.hpp
+++ b/include/operations/algorithms/equivalence_checking.hpp
@@ -86,6 +86,8 @@ public:
     stopwatch<> t( st_.time_total );
 
     percy::bsat_wrapper solver;
+    /* the constant, inputs, or the output may not occur in any clause */
+    solver.set_nr_vars( miter_.num_pis() + miter_.num_gates() + 1 );
     int output = generate_cnf( miter_, [&]( auto const& clause ) {
       solver.add_clause( clause );
     } )[0];
-- 
2.43.0


From 0bcc82b534b6d103785eef395ce8f5956395f718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:24 +0000
Subject: [PATCH 22/44] fix: generate_pattern left its blocking clauses behind
 in the solver

The solver's rollback only removes clauses with variables added after
the bookmark, so short blocking clauses over old variables stayed and
later answers were wrong.
---
 include/operations/algorithms/circuit_validator.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/operations/algorithms/circuit_validator.hpp b/include/operations/algorithms/circuit_validator.hpp
index af99b79..413baf1 100644
--- a/include/operations/algorithms/circuit_validator.hpp
+++ b/include/operations/algorithms/circuit_validator.hpp
@@ -327,12 +327,14 @@ public:
 
     push();
 
+    /* a rollback only removes what depends on variables added after the push */
+    auto const block = bill::lit_type( solver.add_variable(), bill::lit_type::polarities::positive );
     for ( auto const& pattern : block_patterns )
     {
-      block_pattern( pattern );
+      block_pattern( pattern, block );
     }
 
-    std::vector<bill::lit_type> assumptions( {lit_not_cond( literals[root], !value )} );
+    std::vector<bill::lit_type> assumptions( {lit_not_cond( literals[root], !value ), block} );
     if constexpr ( use_odc )
     {
       if ( ps.odc_levels != 0 )
@@ -354,7 +356,7 @@ public:
       else /* SAT */
       {
         generated.emplace_back( cex );
-        block_pattern( cex );
+        block_pattern( cex, block );
       }
     }
 
@@ -581,10 +583,10 @@ private:
     return res;
   }
 
-  void block_pattern( std::vector<bool> const& pattern )
+  void block_pattern( std::vector<bool> const& pattern, bill::lit_type const& block )
   {
     assert( pattern.size() == ntk.num_pis() );
-    std::vector<bill::lit_type> clause;
+    std::vector<bill::lit_type> clause( {~block} );
     ntk.foreach_pi( [&]( auto const& n, auto i ) {
       clause.emplace_back( lit_not_cond( literals[n] , pattern[i] ) );
     } );
-- 
2.43.0


From 5351edba95558ba490012a87ff179686bae34431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:04 +0000
Subject: [PATCH 23/44] fix: a cut set accepts the empty cut

Enumeration with minimized truth tables finds the empty cut for a node whose
function is constant; inserting it aborted on an assertion although every
operation of the set handles it.
---
 include/database/cut/cut_set.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/database/cut/cut_set.hpp b/include/database/cut/cut_set.hpp
index 28356d7..9761530 100644
--- a/include/database/cut/cut_set.hpp
+++ b/include/database/cut/cut_set.hpp
@@ -141,7 +141,6 @@ public:
    */
   void insert(CutType const& cut)
   {
-    assert(cut.size());
     _pcend = _pend = std::stable_partition( _pcuts.begin(), _pend, [&cut]( auto const* other ) { return !cut.dominates( *other ); } );
     auto ipos = std::lower_bound( _pcuts.begin(), _pend, &cut, []( auto a, auto b ) { return *a < *b; } );
 
-- 
2.43.0


From 32ec2ebae5481f89074fb24ccd8f4c145eea7288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:04 +0000
Subject: [PATCH 24/44] fix: a node whose cuts were all dropped by the limit
 keeps its trivial cut

With cut_limit 2 the set can be empty when the trivial cut is considered; the
test then looked at a stale cut and could leave the node without any cut.
---
 include/database/cut/cut_enumeration.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/database/cut/cut_enumeration.hpp b/include/database/cut/cut_enumeration.hpp
index 0796b64..4d58693 100755
--- a/include/database/cut/cut_enumeration.hpp
+++ b/include/database/cut/cut_enumeration.hpp
@@ -436,7 +436,7 @@ public:
 
     cuts._total_cuts += rcuts.size();
     /* add trival cut ,and it directlt add at the end of cuts */ 
-    if ( rcuts.size() > 1 || ( *rcuts.begin() )->size() > 1 )
+    if ( rcuts.size() != 1 || ( *rcuts.begin() )->size() > 1 )
     {
       cuts.add_unit_cut( index );
     }
-- 
2.43.0


From 7067fb533d97145e3e7a3f897c01d39615f56bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:11 +0000
Subject: [PATCH 25/44] fix: choice_miter::clear also drops the merged network

After clear() the next merge was built on top of the previous one: wrong
number of inputs and outputs.
---
 include/operations/algorithms/choice_miter.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/operations/algorithms/choice_miter.hpp b/include/operations/algorithms/choice_miter.hpp
index 0ae46ca..e9f7e13 100644
--- a/include/operations/algorithms/choice_miter.hpp
+++ b/include/operations/algorithms/choice_miter.hpp
@@ -144,6 +144,7 @@ public:
     void clear()
     {
         _aigs.clear();
+        _aig_new = aig_network();
     }
 private:
     /**
-- 
2.43.0


From 80ac6c39fae64282fdea5c210852ff0464294320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:45 +0000
Subject: [PATCH 26/44] fix: SOP balancing builds false for an empty
 disjunction

---
 include/operations/optimization/balancing/sop_balancing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/operations/optimization/balancing/sop_balancing.hpp b/include/operations/optimization/balancing/sop_balancing.hpp
index 62c6256..a9ff7ab 100644
--- a/include/operations/optimization/balancing/sop_balancing.hpp
+++ b/include/operations/optimization/balancing/sop_balancing.hpp
@@ -91,7 +91,7 @@ private:
   {
     if ( queue.empty() )
     {
-      return {dest.get_constant( true ), 0u};
+      return {dest.get_constant( _and ), 0u};  // the empty conjunction is true, the empty disjunction false
     }
 
     while ( queue.size() > 1u )
-- 
2.43.0


From 173b89aa2b96ca2fbfa1ce909ea9c0b360c4f0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:45 +0000
Subject: [PATCH 27/44] fix: cut_set::limit keeps as many cuts as it is told to

---
 include/database/cut/cut_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/database/cut/cut_set.hpp b/include/database/cut/cut_set.hpp
index 9761530..0f83d7c 100644
--- a/include/database/cut/cut_set.hpp
+++ b/include/database/cut/cut_set.hpp
@@ -197,7 +197,7 @@ public:
   {
     if ( std::distance( _pcuts.begin(), _pend ) > static_cast<long>( size ) )
     {
-      _pcend = _pend = _pcuts.begin() + size - 1;
+      _pcend = _pend = _pcuts.begin() + size;
       _length = size;
     }
   }
-- 
2.43.0


From e51423a1f36fa7ba24539c34dfeb4e05e86645e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:45 +0000
Subject: [PATCH 28/44] fix: balancing considers one-leaf cuts other than the
 trivial one

---
 include/operations/optimization/balancing.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/operations/optimization/balancing.hpp b/include/operations/optimization/balancing.hpp
index d2f18ac..a847001 100644
--- a/include/operations/optimization/balancing.hpp
+++ b/include/operations/optimization/balancing.hpp
@@ -163,7 +163,8 @@ struct balancing_impl
       uint32_t best_size{};
       for ( auto& cut : cuts.cuts( ntk_.node_to_index( n ) ) )
       {
-        if ( cut->size() == 1u || kitty::is_const0( cuts.truth_table( *cut ) ) )
+        // only the trivial cut is useless: a minimized cut may consist of one other leaf
+        if ( ( cut->size() == 1u && *cut->begin() == ntk_.node_to_index( n ) ) || kitty::is_const0( cuts.truth_table( *cut ) ) )
         {
           continue;
         }
-- 
2.43.0


From 3637929d4fac49dfae6bc645adfb0d0e9fd7e546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:45 +0000
Subject: [PATCH 29/44] fix: the flow optimises copies of the loaded network

Networks share their storage, so rewriting the compressed variant rewrote
the loaded network in place: it was merged half-substituted (reads beyond
the node table in the choice miter) and was the reference of the formal
verification.
---
 include/flow/flow_manager.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/flow/flow_manager.hpp b/include/flow/flow_manager.hpp
index 218ebec..1393463 100644
--- a/include/flow/flow_manager.hpp
+++ b/include/flow/flow_manager.hpp
@@ -161,7 +161,8 @@ private:
    */
   iFPGA_NAMESPACE::aig_network dch_compress(iFPGA_NAMESPACE::aig_network const &aig)
   {
-    iFPGA_NAMESPACE::aig_network caig(aig);
+    // networks share their storage: keep the given one as it is
+    iFPGA_NAMESPACE::aig_network caig = iFPGA_NAMESPACE::cleanup_dangling(aig);
     iFPGA_NAMESPACE::rewrite_params ps_rewrite;
     iFPGA_NAMESPACE::refactor_params ps_refactor;
     ps_rewrite.b_preserve_depth = true;
@@ -183,7 +184,8 @@ private:
    */
   iFPGA_NAMESPACE::aig_network dch_compress2(iFPGA_NAMESPACE::aig_network const &aig)
   {
-    iFPGA_NAMESPACE::aig_network caig(aig);
+    // networks share their storage: keep the given one as it is
+    iFPGA_NAMESPACE::aig_network caig = iFPGA_NAMESPACE::cleanup_dangling(aig);
     iFPGA_NAMESPACE::rewrite_params ps_rewrite;
     iFPGA_NAMESPACE::refactor_params ps_refactor;
     ps_rewrite.b_preserve_depth = false;
-- 
2.43.0


From 7b0ee68ebaded7dff91bae8420bf458e32c84593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:42 +0000
Subject: [PATCH 30/44] fix: EngineIMAP.map_fpga runs as many local area
 iterations by default as documented, and as the recorded 'map_fpga' runs

---
 ai_infra/imap_engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ai_infra/imap_engine.py b/ai_infra/imap_engine.py
index 6cbef07..ba0b0b2 100644
--- a/ai_infra/imap_engine.py
+++ b/ai_infra/imap_engine.py
@@ -118,7 +118,7 @@ class EngineIMAP():
         """
         imap.history(clear = clear, size = size, add = add, replace = replace)
 
-    def map_fpga(self, priority_size = 10, cut_size = 6, global_area_iterations = 1, local_area_iterations = 1, type = 0, verbose = False):
+    def map_fpga(self, priority_size = 10, cut_size = 6, global_area_iterations = 1, local_area_iterations = 2, type = 0, verbose = False):
         """ Technology mapping for FPGA
 
         Args:
-- 
2.43.0


From 005c50e5a98401c274f85a77b133431280335ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:02 +0000
Subject: [PATCH 31/44] fix: compress and compress2 report the area and level
 of the circuit read as the values before

---
 examples/compress.cpp  | 3 ++-
 examples/compress2.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/examples/compress.cpp b/examples/compress.cpp
index b34e3c5..720b23e 100644
--- a/examples/compress.cpp
+++ b/examples/compress.cpp
@@ -42,7 +42,8 @@ int main(int argc, char **argv)
     iFPGA_NAMESPACE::Reader reader(file, aig, ports);
 
     iFPGA_NAMESPACE::tic_toc t;
-    iFPGA_NAMESPACE::aig_network caig(aig);
+    // rewriting works in place, so that the statistics below need their own copy of the network
+    iFPGA_NAMESPACE::aig_network caig(std::make_shared<iFPGA_NAMESPACE::aig_storage>(*aig._storage));
     iFPGA_NAMESPACE::rewrite_params  ps_rewrite;
     iFPGA_NAMESPACE::refactor_params ps_refactor;
     // compress flow: "rw -l; rf -l; b -l; rwz -l;"
diff --git a/examples/compress2.cpp b/examples/compress2.cpp
index 0cb8bce..f0a4c7a 100644
--- a/examples/compress2.cpp
+++ b/examples/compress2.cpp
@@ -42,7 +42,8 @@ int main(int argc, char **argv)
     iFPGA_NAMESPACE::Reader reader(file, aig, ports);
 
     iFPGA_NAMESPACE::tic_toc t;
-    iFPGA_NAMESPACE::aig_network caig(aig);
+    // rewriting works in place, so that the statistics below need their own copy of the network
+    iFPGA_NAMESPACE::aig_network caig(std::make_shared<iFPGA_NAMESPACE::aig_storage>(*aig._storage));
     iFPGA_NAMESPACE::rewrite_params ps_rewrite;
     iFPGA_NAMESPACE::refactor_params ps_refactor;
     // compress2 flow: "rw ; rf -l; b -l; rw -l; rwz -l;  b -l; rfz -l; rwz -l; b -l"
-- 
2.43.0


From ddb16a4cbe3f948654e7fed1137fe28a07f14206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:02 +0000
Subject: [PATCH 32/44] fix: compress and compress2 take the file as the
 documented only argument

---
 examples/compress.cpp  | 2 +-
 examples/compress2.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/examples/compress.cpp b/examples/compress.cpp
index 720b23e..e2c2656 100644
--- a/examples/compress.cpp
+++ b/examples/compress.cpp
@@ -35,7 +35,7 @@ int main(int argc, char **argv)
      */
     assert(argc > 1);
     //uint iteration = std::atoi(argv[1]);
-    std::string file = std::string(argv[2]);
+    std::string file = std::string(argv[argc - 1]);
 
     iFPGA_NAMESPACE::write_verilog_params ports;
     iFPGA_NAMESPACE::aig_network aig;
diff --git a/examples/compress2.cpp b/examples/compress2.cpp
index f0a4c7a..d412479 100644
--- a/examples/compress2.cpp
+++ b/examples/compress2.cpp
@@ -35,7 +35,7 @@ int main(int argc, char **argv)
      */
     assert(argc > 1);
     //uint iteration = std::atoi(argv[1]);
-    std::string file = std::string(argv[2]);
+    std::string file = std::string(argv[argc - 1]);
 
     iFPGA_NAMESPACE::write_verilog_params ports;
     iFPGA_NAMESPACE::aig_network aig;
-- 
2.43.0


From b972bc798a6e12eef4f6d2a38f633a6433e3014f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:00 +0000
Subject: [PATCH 33/44] fix: mapping a view again replaces its previous mapping

---
 include/operations/algorithms/klut_mapping.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/operations/algorithms/klut_mapping.hpp b/include/operations/algorithms/klut_mapping.hpp
index 6675423..b62d8b5 100644
--- a/include/operations/algorithms/klut_mapping.hpp
+++ b/include/operations/algorithms/klut_mapping.hpp
@@ -590,6 +590,7 @@ class klut_mapping_impl
       float tmp_area  = 0.0f;
       float tmp_delay = 0.0f;
 
+      _ntk.clear_mapping();                                      // cells of a previous mapping do not belong to this one
       clear_refs();
       _ntk.foreach_po( [&]( auto s){
         const auto n = _ntk.get_node(s);
-- 
2.43.0


From 7e2e5a9b8a1611943598f1d6b783414c85ea1dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:11 +0000
Subject: [PATCH 34/44] fix: a contradictory clause set does not abort the
 check of a mapped graph

---
 .../detail/checker_4_mapped_graph.hpp         | 30 ++++++++-----------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/include/operations/algorithms/detail/checker_4_mapped_graph.hpp b/include/operations/algorithms/detail/checker_4_mapped_graph.hpp
index 069e427..cd29b5c 100644
--- a/include/operations/algorithms/detail/checker_4_mapped_graph.hpp
+++ b/include/operations/algorithms/detail/checker_4_mapped_graph.hpp
@@ -184,6 +184,7 @@ private:
     void recycle_sat()
     {       
         _solver.restart();
+        _contradictory = false;
 
         _sat_vars_map.assign(_ntk.size(), 0u);
         _current_sat_var = 1u;
@@ -376,7 +377,7 @@ private:
                     lits.push_back(make_lit(vars_root, true));
                 }
             }
-            _solver.add_clause(lits);
+            _contradictory |= !_solver.add_clause(lits);
         }
         return vars_root;
     }
@@ -467,9 +468,9 @@ private:
         lits3[1] = make_lit(var_child1, true ^ child1.complement);
         lits3[2] = make_lit(var_node, false);
 
-        _solver.add_clause(lits1);
-        _solver.add_clause(lits2);
-        _solver.add_clause(lits3);
+        _contradictory |= !_solver.add_clause(lits1);
+        _contradictory |= !_solver.add_clause(lits2);
+        _contradictory |= !_solver.add_clause(lits3);
 
         return var_node;
     }
@@ -487,14 +488,10 @@ private:
         std::vector<uint32_t> lits(2, 0);
         lits[0] = make_lit(var1, false);
         lits[1] = make_lit(var2, false);
-        int rett = _solver.add_clause(lits);
-        assert(rett);
-        (void)rett;
+        _contradictory |= !_solver.add_clause(lits);
         lits[0] = make_lit(var1, true);
         lits[1] = make_lit(var2, true);
-        rett = _solver.add_clause(lits);
-        assert(rett);
-        (void)rett;
+        _contradictory |= !_solver.add_clause(lits);
     }
 
     /**
@@ -509,14 +506,10 @@ private:
         std::vector<uint32_t> lits(2, 0);
         lits[0] = make_lit(var1, true );
         lits[1] = make_lit(var2, false);
-        int rett = _solver.add_clause(lits);
-        assert(rett);
-        (void)rett;
+        _contradictory |= !_solver.add_clause(lits);
         lits[0] = make_lit(var1, false);
         lits[1] = make_lit(var2, true);
-        rett = _solver.add_clause(lits);
-        assert(rett);
-        (void)rett;
+        _contradictory |= !_solver.add_clause(lits);
     }
 
 
@@ -547,7 +540,7 @@ private:
 
         // add xor to check
         add_compl_equal_to_solver(gold_var, gate_var);
-        auto ret = _solver.solve(_ps_sat.max_conflit_limit);
+        auto ret = _contradictory ? percy::failure : _solver.solve(_ps_sat.max_conflit_limit);
 
         if(ret == percy::failure)
         {
@@ -617,7 +610,7 @@ private:
             }
         }
 
-        auto ret = _solver.solve(_ps_sat.max_conflit_limit);
+        auto ret = _contradictory ? percy::failure : _solver.solve(_ps_sat.max_conflit_limit);
         if (ret == percy::failure)
         {
             return 1;
@@ -792,6 +785,7 @@ private:
     std::map< node, std::set<node> > _fanouts;
     std::map< node, node >           _choice_repr_map;
     percy::bsat_wrapper     _solver;
+    bool                    _contradictory{false};  // a clause contradicts the ones before: there is nothing left to solve
 
     std::vector<uint32_t>   _sat_vars_map;
     uint32_t                _constant_max_sat_var;
-- 
2.43.0


From 2b4ff9697dee76a716912f6b4b67ac06149448fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:11 +0000
Subject: [PATCH 35/44] fix: the parallel check of a mapped graph collects the
 whole cone of a cell

---
 .../detail/checker_4_mapped_graph_parallel.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/operations/algorithms/detail/checker_4_mapped_graph_parallel.hpp b/include/operations/algorithms/detail/checker_4_mapped_graph_parallel.hpp
index 7b5ff23..c1f8662 100644
--- a/include/operations/algorithms/detail/checker_4_mapped_graph_parallel.hpp
+++ b/include/operations/algorithms/detail/checker_4_mapped_graph_parallel.hpp
@@ -780,19 +780,23 @@ private:
             }
             candidates.insert(n);
 
-            if (n == root)
+            if (n == root) // other nodes of the cone may still be waiting in the queue
             {
-                break;
+                continue;
             }
 
-            if (is_choice(n)) // push its representative node
+            // several threads collect cones at once: look the maps up without inserting
+            if (auto repr = _choice_repr_map.find(n); repr != _choice_repr_map.end()) // push its representative node
             {
-                que.push(_choice_repr_map[n]);
-                n = _choice_repr_map[n];
+                n = repr->second;
+                que.push(n);
             }
-            for (auto fo : _fanouts[n])
+            if (auto fanouts = _fanouts.find(n); fanouts != _fanouts.end())
             {
-                que.push(fo);
+                for (auto fo : fanouts->second)
+                {
+                    que.push(fo);
+                }
             }
         }
 
-- 
2.43.0


From 3188aa7d2faba6d7d92680f71f7d0f4562c7c528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:30 +0000
Subject: [PATCH 36/44] Revert "fix: compress and compress2 take the file as
 the documented only argument"

This reverts commit ddb16a4cbe3f948654e7fed1137fe28a07f14206.
---
 examples/compress.cpp  | 2 +-
 examples/compress2.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/examples/compress.cpp b/examples/compress.cpp
index e2c2656..720b23e 100644
--- a/examples/compress.cpp
+++ b/examples/compress.cpp
@@ -35,7 +35,7 @@ int main(int argc, char **argv)
      */
     assert(argc > 1);
     //uint iteration = std::atoi(argv[1]);
-    std::string file = std::string(argv[argc - 1]);
+    std::string file = std::string(argv[2]);
 
     iFPGA_NAMESPACE::write_verilog_params ports;
     iFPGA_NAMESPACE::aig_network aig;
diff --git a/examples/compress2.cpp b/examples/compress2.cpp
index d412479..f0a4c7a 100644
--- a/examples/compress2.cpp
+++ b/examples/compress2.cpp
@@ -35,7 +35,7 @@ int main(int argc, char **argv)
      */
     assert(argc > 1);
     //uint iteration = std::atoi(argv[1]);
-    std::string file = std::string(argv[argc - 1]);
+    std::string file = std::string(argv[2]);
 
     iFPGA_NAMESPACE::write_verilog_params ports;
     iFPGA_NAMESPACE::aig_network aig;
-- 
2.43.0


From 43496b129ff9cd8a9dd342f760ff0392fcb3eed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:30 +0000
Subject: [PATCH 37/44] Revert "fix: compress and compress2 report the area and
 level of the circuit read as the values before"

This reverts commit 005c50e5a98401c274f85a77b133431280335ae8.
---
 examples/compress.cpp  | 3 +--
 examples/compress2.cpp | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/examples/compress.cpp b/examples/compress.cpp
index 720b23e..b34e3c5 100644
--- a/examples/compress.cpp
+++ b/examples/compress.cpp
@@ -42,8 +42,7 @@ int main(int argc, char **argv)
     iFPGA_NAMESPACE::Reader reader(file, aig, ports);
 
     iFPGA_NAMESPACE::tic_toc t;
-    // rewriting works in place, so that the statistics below need their own copy of the network
-    iFPGA_NAMESPACE::aig_network caig(std::make_shared<iFPGA_NAMESPACE::aig_storage>(*aig._storage));
+    iFPGA_NAMESPACE::aig_network caig(aig);
     iFPGA_NAMESPACE::rewrite_params  ps_rewrite;
     iFPGA_NAMESPACE::refactor_params ps_refactor;
     // compress flow: "rw -l; rf -l; b -l; rwz -l;"
diff --git a/examples/compress2.cpp b/examples/compress2.cpp
index f0a4c7a..0cb8bce 100644
--- a/examples/compress2.cpp
+++ b/examples/compress2.cpp
@@ -42,8 +42,7 @@ int main(int argc, char **argv)
     iFPGA_NAMESPACE::Reader reader(file, aig, ports);
 
     iFPGA_NAMESPACE::tic_toc t;
-    // rewriting works in place, so that the statistics below need their own copy of the network
-    iFPGA_NAMESPACE::aig_network caig(std::make_shared<iFPGA_NAMESPACE::aig_storage>(*aig._storage));
+    iFPGA_NAMESPACE::aig_network caig(aig);
     iFPGA_NAMESPACE::rewrite_params ps_rewrite;
     iFPGA_NAMESPACE::refactor_params ps_refactor;
     // compress2 flow: "rw ; rf -l; b -l; rw -l; rwz -l;  b -l; rfz -l; rwz -l; b -l"
-- 
2.43.0


From f002dc3bffd928bf7ed9b84b92c24e8f233781b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:18 +0000
Subject: [PATCH 38/44] fix: foreach_register accepts callbacks that return
 whether to go on

---
 include/database/network/aig_network.hpp  | 4 ++--
 include/database/network/klut_network.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/database/network/aig_network.hpp b/include/database/network/aig_network.hpp
index 146a4b8..90cb25b 100755
--- a/include/database/network/aig_network.hpp
+++ b/include/database/network/aig_network.hpp
@@ -1069,7 +1069,7 @@ public:
     {
       while ( ro != _storage->inputs.end() && ri != _storage->outputs.end() )
       {
-        if ( !fn( std::make_pair(ri++, ro++) ) )
+        if ( !fn( std::make_pair( *ri++, *ro++ ) ) )
           return;
       }
     }
@@ -1078,7 +1078,7 @@ public:
       uint32_t index{0};
       while ( ro != _storage->inputs.end() && ri != _storage->outputs.end() )
       {
-        if ( !fn( std::make_pair(ri++, ro++), index++ ) )
+        if ( !fn( std::make_pair( *ri++, *ro++ ), index++ ) )
           return;
       }
     }
diff --git a/include/database/network/klut_network.hpp b/include/database/network/klut_network.hpp
index a32ed94..0c99775 100755
--- a/include/database/network/klut_network.hpp
+++ b/include/database/network/klut_network.hpp
@@ -677,7 +677,7 @@ signal create_maj( signal a, signal b, signal c )
     {
       while ( ro != _storage->inputs.end() && ri != _storage->outputs.end() )
       {
-        if ( !fn( std::make_pair( ( ri++ )->index, ro++ ) ) )
+        if ( !fn( std::make_pair( ( ri++ )->index, *ro++ ) ) )
           return;
       }
     }
@@ -686,7 +686,7 @@ signal create_maj( signal a, signal b, signal c )
       uint32_t index{0};
       while ( ro != _storage->inputs.end() && ri != _storage->outputs.end() )
       {
-        if ( !fn( std::make_pair( ( ri++ )->index, ro++ ), index++ ) )
+        if ( !fn( std::make_pair( ( ri++ )->index, *ro++ ), index++ ) )
           return;
       }
     }
-- 
2.43.0


From 3623b97de3c9fc6fde6d13b9ef8307e27422a3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:18 +0000
Subject: [PATCH 39/44] fix: unordered node maps of networks whose signals are
 their nodes

---
 include/utils/node_map.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/utils/node_map.hpp b/include/utils/node_map.hpp
index 14d09d0..b5e667e 100644
--- a/include/utils/node_map.hpp
+++ b/include/utils/node_map.hpp
@@ -223,7 +223,12 @@ public:
     return data->find( ntk.node_to_index( n ) ) != data->end();
   }
 
-  /*! \brief Check if a key is already defined. */
+  /*! \brief Check if a key is already defined.
+   *
+   * If the node and signal type are the same in the network implementation,
+   * this method is disabled.
+   */
+  template<typename _Ntk = Ntk, typename = std::enable_if_t<!std::is_same_v<typename _Ntk::signal, typename _Ntk::node>>>
   bool has( signal const& f ) const
   {
     return data->find( ntk.node_to_index( ntk.get_node( f ) ) ) != data->end();
-- 
2.43.0


From f2ebe3022f3a308688abeb0024f696878c0e2561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:18 +0000
Subject: [PATCH 40/44] fix: reference counting of cones stops at register
 outputs

---
 include/operations/algorithms/ref_deref.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/operations/algorithms/ref_deref.hpp b/include/operations/algorithms/ref_deref.hpp
index d3d1b49..458c4c7 100644
--- a/include/operations/algorithms/ref_deref.hpp
+++ b/include/operations/algorithms/ref_deref.hpp
@@ -59,14 +59,14 @@ uint32_t ref_node_recursive_cond(Ntk const& ntk, node<Ntk> const& n, TermConditi
 template<typename Ntk, typename NodeCostFn = unit_cost<Ntk>>
 uint32_t deref_node_recursive(Ntk const& ntk, node<Ntk> const& n)
 {
-  const auto term_fn = [&](const auto& n){ return ntk.is_constant(n) || ntk.is_pi(n); };
+  const auto term_fn = [&](const auto& n){ return ntk.is_constant(n) || ntk.is_ci(n); };
   return deref_node_recursive_cond<Ntk, NodeCostFn, decltype(term_fn)>(ntk, n, term_fn);
 }
 
 template<typename Ntk, typename NodeCostFn = unit_cost<Ntk>>
 uint32_t ref_node_recursive(Ntk const& ntk, node<Ntk> const& n)
 {
-  const auto term_fn = [&](const auto& n){ return ntk.is_constant(n) || ntk.is_pi(n); };
+  const auto term_fn = [&](const auto& n){ return ntk.is_constant(n) || ntk.is_ci(n); };
   return ref_node_recursive_cond<Ntk, NodeCostFn, decltype(term_fn)>(ntk, n, term_fn);
 }
 
-- 
2.43.0


From af6332859c7073a0f353fbcab69dd0e4b46a25c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:18 +0000
Subject: [PATCH 41/44] fix: an output added to a depth_view counts its
 complement like the others

---
 include/database/views/depth_view.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/database/views/depth_view.hpp b/include/database/views/depth_view.hpp
index a3efae2..9fe1e0f 100644
--- a/include/database/views/depth_view.hpp
+++ b/include/database/views/depth_view.hpp
@@ -206,7 +206,12 @@ public:
   {
     auto po = Ntk::create_po( f, name );
     _levels.resize(); /* nodes without an on_add event (inputs) may be newer than the map */
-    _depth = std::max( _depth, _levels[f] );
+    auto clevel = _levels[f];
+    if ( _ps.count_complements && this->is_complemented( f ) )
+    {
+      clevel++;
+    }
+    _depth = std::max( _depth, clevel );
     return po;
   }
 
-- 
2.43.0


From e2e193fdfda336f1e6ec190dde1be5f031e524f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:06 +0000
Subject: [PATCH 42/44] fix: updating a topo_view replaces its order instead of
 appending to it

---
 include/database/views/topo_view.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/database/views/topo_view.hpp b/include/database/views/topo_view.hpp
index 38378d0..3f37fe5 100644
--- a/include/database/views/topo_view.hpp
+++ b/include/database/views/topo_view.hpp
@@ -198,6 +198,7 @@ public:
   {
     this->incr_trav_id();
     this->incr_trav_id();
+    topo_order.clear();
     topo_order.reserve( this->size() );
 
     /* constants and PIs */
-- 
2.43.0


From f11f10a44984e803f86cf22c95f91c49b4803187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:06 +0000
Subject: [PATCH 43/44] fix: a topo_view does not count register outputs as
 gates

---
 include/database/views/topo_view.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/database/views/topo_view.hpp b/include/database/views/topo_view.hpp
index 3f37fe5..e381a01 100644
--- a/include/database/views/topo_view.hpp
+++ b/include/database/views/topo_view.hpp
@@ -135,7 +135,7 @@ public:
   /*! \brief Reimplementation of `num_gates`. */
   auto num_gates() const
   {
-    uint32_t const offset = 1u + this->num_pis() + ( this->get_node( this->get_constant( true ) ) != this->get_node( this->get_constant( false ) ) ); 
+    uint32_t const offset = 1u + this->num_cis() + ( this->get_node( this->get_constant( true ) ) != this->get_node( this->get_constant( false ) ) ); 
     return static_cast<uint32_t>( topo_order.size() - offset );
   }
 
@@ -164,7 +164,7 @@ public:
   template<typename Fn>
   void foreach_gate( Fn&& fn ) const
   {
-    uint32_t const offset = 1u + this->num_pis() + ( this->get_node( this->get_constant( true ) ) != this->get_node( this->get_constant( false ) ) ); 
+    uint32_t const offset = 1u + this->num_cis() + ( this->get_node( this->get_constant( true ) ) != this->get_node( this->get_constant( false ) ) ); 
     detail::foreach_element( topo_order.begin() + offset,
                              topo_order.end(),
                              fn );
-- 
2.43.0


From 52c6f45f9fc193f3bbb05b20fa5af7518f39a21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:06 +0000
Subject: [PATCH 44/44] fix: a depth_view gives register outputs level zero

---
 include/database/views/depth_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/database/views/depth_view.hpp b/include/database/views/depth_view.hpp
index 9fe1e0f..7f6f885 100644
--- a/include/database/views/depth_view.hpp
+++ b/include/database/views/depth_view.hpp
@@ -230,7 +230,7 @@ private:
     }
     this->set_visited( n, this->trav_id() );
 
-    if ( this->is_constant( n ) || this->is_pi( n ) )
+    if ( this->is_constant( n ) || this->is_ci( n ) )
     {
       return _levels[n] = 0;
     }
-- 
2.43.0

