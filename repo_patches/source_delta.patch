From fdd68d92065796689f4e68f988c34fc41504a68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:08 +0000
Subject: [PATCH 1/8] fix: reject negative cell indices in ConnectivityGraph

Only the upper bound of the cell range was checked, so a negative index
(or a negative number of cells) was accepted and later used to address
memory outside the arrays of the flow diagnostics kernels.
---
 opm/flowdiagnostics/ConnectivityGraph.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/opm/flowdiagnostics/ConnectivityGraph.cpp b/opm/flowdiagnostics/ConnectivityGraph.cpp
index 255f23f..b49850c 100644
--- a/opm/flowdiagnostics/ConnectivityGraph.cpp
+++ b/opm/flowdiagnostics/ConnectivityGraph.cpp
@@ -44,12 +44,17 @@ ConnectivityGraph::ConnectivityGraph(const int        num_cells,
         throw std::logic_error("Neighbourship must be N-by-2");
     }
 
-    if ((! connCells_.empty()) &&
-        (*std::max_element(connCells_.begin(),
-                           connCells_.end())
-         >= num_cells))
-    {
-        throw std::logic_error("Cell indices must be in range");
+    if (num_cells < 0) {
+        throw std::logic_error("Number of cells must be non-negative");
+    }
+
+    if (! connCells_.empty()) {
+        const auto range = std::minmax_element(connCells_.begin(),
+                                               connCells_.end());
+
+        if ((*range.first < 0) || (*range.second >= num_cells)) {
+            throw std::logic_error("Cell indices must be in range");
+        }
     }
 }
 
-- 
2.43.0


From efd4a23f3c901fb2578fb88200c6e29e85d6fbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:08 +0000
Subject: [PATCH 2/8] fix: reject out-of-range cells in
 Toolbox::assignInflowFlux

A source or sink in a cell which is not in the model was accepted and
made the subsequent diagnostics calculation write outside its arrays.
---
 opm/flowdiagnostics/Toolbox.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/opm/flowdiagnostics/Toolbox.cpp b/opm/flowdiagnostics/Toolbox.cpp
index 8cc2745..d5fa674 100644
--- a/opm/flowdiagnostics/Toolbox.cpp
+++ b/opm/flowdiagnostics/Toolbox.cpp
@@ -113,6 +113,17 @@ Toolbox::Impl::assignConnectionFlux(const ConnectionValues& flux)
 void
 Toolbox::Impl::assignInflowFlux(const std::map<CellSetID, CellSetValues>& inflow_flux)
 {
+    for (const auto& inflow_set : inflow_flux) {
+        for (const auto& data : inflow_set.second) {
+            if ((data.first < 0) ||
+                (static_cast<ConnectivityGraph::SizeType>(data.first) >= g_.numCells()))
+            {
+                throw std::logic_error("Cell index out of range in "
+                                       "input inflow flux");
+            }
+        }
+    }
+
     only_inflow_flux_.clear();
     only_outflow_flux_.clear();
     inj_flux_by_id_.clear();
-- 
2.43.0


From d9a5700dd6ab1d8524338dcf96440557fc78f85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:08 +0000
Subject: [PATCH 3/8] fix: make compressed AssembledConnections objects
 reusable

Method compress() is documented to start a new graph, but the largest
row and column IDs as well as the connection weights of the previous
graph were kept.  The next call to compress() would then reject a valid
(smaller) graph, or create one with too many rows or stale weights.
---
 opm/utility/graph/AssembledConnections.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opm/utility/graph/AssembledConnections.cpp b/opm/utility/graph/AssembledConnections.cpp
index 6747b21..0f530f3 100644
--- a/opm/utility/graph/AssembledConnections.cpp
+++ b/opm/utility/graph/AssembledConnections.cpp
@@ -63,6 +63,9 @@ Opm::AssembledConnections::Connections::clear()
     WeightVector().swap(v_);
     EntityVector().swap(j_);
     EntityVector().swap(i_);
+
+    max_i_ = -1;
+    max_j_ = -1;
 }
 
 bool
@@ -146,6 +149,8 @@ CSR::create(const Connections& conns, const Offset numrows)
     // Must be called *after* sort().
     this->condenseDuplicates();
 
+    this->sa_.clear();
+
     if (conns.isWeighted()) {
         this->accumulateConnWeights(conns.v());
     }
-- 
2.43.0


From 5b2dfef5f290e01ed1a95495ce05c2a5a31d4b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:08 +0000
Subject: [PATCH 4/8] fix: restore stream format in AssembledConnections output

The output operator left its 'scientific' flag set on the caller's
stream, and combined it with the caller's own floating-point format.
---
 opm/utility/graph/AssembledConnections.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opm/utility/graph/AssembledConnections.cpp b/opm/utility/graph/AssembledConnections.cpp
index 0f530f3..fe4f48c 100644
--- a/opm/utility/graph/AssembledConnections.cpp
+++ b/opm/utility/graph/AssembledConnections.cpp
@@ -473,7 +473,8 @@ Opm::operator<<(std::ostream& os, const Opm::AssembledConnections& ac)
 {
     // Set output stream format, store original settings.
     const auto oprec = os.precision(16);
-    const auto oflags = os.setf(std::ios_base::scientific);
+    const auto oflags = os.setf(std::ios_base::scientific,
+                                std::ios_base::floatfield);
 
     // Write connections cell-by-cell.
     const int num_cells = ac.numRows();
@@ -486,7 +487,7 @@ Opm::operator<<(std::ostream& os, const Opm::AssembledConnections& ac)
 
     // Restore original stream settings.
     os.precision(oprec);
-    os.setf(oflags);
+    os.flags(oflags);
 
     return os;
 }
-- 
2.43.0


From a5b094adc6721b4baaedf84c942b7e8a2b8c0e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:09 +0000
Subject: [PATCH 5/8] fix: do not form wrapped-around pointer for graph with no
 vertices

---
 opm/utility/graph/tarjan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/utility/graph/tarjan.c b/opm/utility/graph/tarjan.c
index 9c3ed72..654e02a 100644
--- a/opm/utility/graph/tarjan.c
+++ b/opm/utility/graph/tarjan.c
@@ -58,7 +58,7 @@ initialise_stacks(const size_t nvert, struct TarjanSCCResult *scc)
     /* Vertex and component stacks grow from high end downwards */
 
     scc->vstack = scc->vstart = scc->start + (nvert + 0);
-    scc->cstack = scc->cstart = scc->vert  + (nvert - 1);
+    scc->cstack = scc->cstart = scc->vert  + ((nvert > 0) ? nvert - 1 : 0);
 }
 
 static void
-- 
2.43.0


From 2ed5247495089a696d77f81f2c98e28d4dfaadca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:09 +0000
Subject: [PATCH 6/8] fix: keep ConnectionValues consistent if copy assignment
 fails

If allocating the values failed then the object would be left with the
new sizes but the old values, and subsequent in-range accesses would
read outside the values.
---
 opm/flowdiagnostics/ConnectionValues.cpp | 4 ++--
 opm/flowdiagnostics/ConnectionValues.hpp | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/opm/flowdiagnostics/ConnectionValues.cpp b/opm/flowdiagnostics/ConnectionValues.cpp
index 3a08a6f..6e38897 100644
--- a/opm/flowdiagnostics/ConnectionValues.cpp
+++ b/opm/flowdiagnostics/ConnectionValues.cpp
@@ -36,9 +36,9 @@ namespace FlowDiagnostics
 ConnectionValues::
 ConnectionValues(const NumConnections& nconn,
                  const NumPhases&      nphase)
-    : nconn_ (nconn)
+    : data_  (nconn.total * nphase.total, 0.0)
+    , nconn_ (nconn)
     , nphase_(nphase)
-    , data_  (nconn_.total * nphase_.total, 0.0)
 {}
 
 std::vector<double>::size_type
diff --git a/opm/flowdiagnostics/ConnectionValues.hpp b/opm/flowdiagnostics/ConnectionValues.hpp
index ae4d3a6..ec06554 100644
--- a/opm/flowdiagnostics/ConnectionValues.hpp
+++ b/opm/flowdiagnostics/ConnectionValues.hpp
@@ -66,10 +66,12 @@ namespace FlowDiagnostics
                            const PhaseID& phase);
 
     private:
+        // Note: 'data_' is first in order that a failed copy assignment
+        // does not change the number of connections or phases.
+        std::vector<double> data_;
+
         NumConnections      nconn_;
         NumPhases           nphase_;
-
-        std::vector<double> data_;
     };
 
 } // namespace FlowDiagnostics
-- 
2.43.0


From 7afe04e0db53238dcf7001e0109336d1c5fb1b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:09 +0000
Subject: [PATCH 7/8] fix: detect size overflow in ConnectionValues

The product of the number of connections and the number of phases could
wrap around, whence accesses within the nominal range would be outside
the allocated values.
---
 opm/flowdiagnostics/ConnectionValues.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/opm/flowdiagnostics/ConnectionValues.cpp b/opm/flowdiagnostics/ConnectionValues.cpp
index 6e38897..84e50f0 100644
--- a/opm/flowdiagnostics/ConnectionValues.cpp
+++ b/opm/flowdiagnostics/ConnectionValues.cpp
@@ -32,11 +32,25 @@ namespace Opm
 namespace FlowDiagnostics
 {
 
+namespace {
+    std::vector<double>::size_type
+    numValues(const ConnectionValues::NumConnections& nconn,
+              const ConnectionValues::NumPhases&      nphase)
+    {
+        if ((nphase.total > 0) &&
+            (nconn.total > std::vector<double>().max_size() / nphase.total))
+        {
+            throw std::length_error("Too many (Connection,Phase) pairs");
+        }
+
+        return nconn.total * nphase.total;
+    }
+} // Anonymous namespace
 
 ConnectionValues::
 ConnectionValues(const NumConnections& nconn,
                  const NumPhases&      nphase)
-    : data_  (nconn.total * nphase.total, 0.0)
+    : data_  (numValues(nconn, nphase), 0.0)
     , nconn_ (nconn)
     , nphase_(nphase)
 {}
-- 
2.43.0


From 8a2b61fa45ee36d535b9920bdf45d1b191a8d8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:09 +0000
Subject: [PATCH 8/8] fix: handle failure to allocate topological ordering

Both the workspace and the result of Tarjan's algorithm are NULL if the
memory for these is not available, but the solver would use them
unconditionally and thus crash instead of report the failure.
---
 opm/flowdiagnostics/TracerTofSolver.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/opm/flowdiagnostics/TracerTofSolver.cpp b/opm/flowdiagnostics/TracerTofSolver.cpp
index e787d7f..81d59e2 100644
--- a/opm/flowdiagnostics/TracerTofSolver.cpp
+++ b/opm/flowdiagnostics/TracerTofSolver.cpp
@@ -29,6 +29,7 @@
 #include <cmath>
 #include <limits>
 #include <memory>
+#include <new>
 #include <stdexcept>
 
 namespace Opm
@@ -213,6 +214,9 @@ namespace FlowDiagnostics
         struct Deleter { void operator()(TarjanSCCResult* x) { destroy_tarjan_sccresult(x); } };
         std::unique_ptr<TarjanSCCResult, Deleter>
             result(tarjan(num_cells, g_.startPointers().data(), g_.neighbourhood().data()));
+        if (!result) {
+            throw std::bad_alloc();
+        }
 
         // Must reverse ordering, since Tarjan computes reverse ordering.
         const int ok = tarjan_reverse_sccresult(result.get());
@@ -254,8 +258,14 @@ namespace FlowDiagnostics
         {
             struct WorkspaceDeleter { void operator()(TarjanWorkSpace* x) { destroy_tarjan_workspace(x); } };
             std::unique_ptr<TarjanWorkSpace, WorkspaceDeleter> ws(create_tarjan_workspace(num_cells));
+            if (!ws) {
+                throw std::bad_alloc();
+            }
             result.reset(tarjan_reachable_sccs(num_cells, g_.startPointers().data(), g_.neighbourhood().data(),
                                                startcells.size(), startcells.data(), ws.get()));
+            if (!result) {
+                throw std::bad_alloc();
+            }
         }
 
         // Must reverse ordering, since Tarjan computes reverse ordering.
-- 
2.43.0

