From 5bbc0a65d78d25f427a6f751f565fc0201fa79eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:08 +0000
Subject: [PATCH 01/37] fix: count whole phase cycles of tasks without channels
 in the repetition vector

A multi-phase task with no channel did not contribute its number of phases to
the rate period, so Ni was 1 instead of the number of phases.
---
 src/libkiter/models/repetition_vector.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libkiter/models/repetition_vector.cpp b/src/libkiter/models/repetition_vector.cpp
index aee55d7..0dc6034 100644
--- a/src/libkiter/models/repetition_vector.cpp
+++ b/src/libkiter/models/repetition_vector.cpp
@@ -170,6 +170,10 @@ bool computeRepetitionVector(models::Dataflow *from) {
     	ratePeriod = std::lcm(ratePeriod,from->getEdgeInPhasesCount(c));
     	ratePeriod = std::lcm(ratePeriod,from->getEdgeOutPhasesCount(c));
     }}
+    // Tasks without any channel still execute whole cycles of phases
+    {ForEachVertex(from,v) {
+    	ratePeriod = std::lcm(ratePeriod,from->getPhasesQuantity(v));
+    }}
     VERBOSE_ASSERT(ratePeriod > 0 , TXT_NEVER_HAPPEND);
     VERBOSE_INFO("Rate Period = " << ratePeriod);
 
-- 
2.43.0


From a91714a55f693ee00ba4be9c98577fd678acacc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:59 +0000
Subject: [PATCH 02/37] Revert "fix: count whole phase cycles of tasks without
 channels in the repetition vector"

This reverts commit 5bbc0a65d78d25f427a6f751f565fc0201fa79eb.
---
 src/libkiter/models/repetition_vector.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/libkiter/models/repetition_vector.cpp b/src/libkiter/models/repetition_vector.cpp
index 0dc6034..aee55d7 100644
--- a/src/libkiter/models/repetition_vector.cpp
+++ b/src/libkiter/models/repetition_vector.cpp
@@ -170,10 +170,6 @@ bool computeRepetitionVector(models::Dataflow *from) {
     	ratePeriod = std::lcm(ratePeriod,from->getEdgeInPhasesCount(c));
     	ratePeriod = std::lcm(ratePeriod,from->getEdgeOutPhasesCount(c));
     }}
-    // Tasks without any channel still execute whole cycles of phases
-    {ForEachVertex(from,v) {
-    	ratePeriod = std::lcm(ratePeriod,from->getPhasesQuantity(v));
-    }}
     VERBOSE_ASSERT(ratePeriod > 0 , TXT_NEVER_HAPPEND);
     VERBOSE_INFO("Rate Period = " << ratePeriod);
 
-- 
2.43.0


From 8e6f7518989ea581080de6b480b58836182cf281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:23 +0000
Subject: [PATCH 03/37] fix: cycle ratio equal to the initial bound reported as
 infinite

When the optimum ratio reaches the initial bound (single task of duration 1,
circuit without tokens) the solver answered that there is no cycle. The bound is
now strict, and no cycle means that the ratio never left it.
---
 src/libkiter/commons/howard_cycle_ratio.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/libkiter/commons/howard_cycle_ratio.hpp b/src/libkiter/commons/howard_cycle_ratio.hpp
index 8bf9fb5..aac5165 100644
--- a/src/libkiter/commons/howard_cycle_ratio.hpp
+++ b/src/libkiter/commons/howard_cycle_ratio.hpp
@@ -188,9 +188,8 @@ namespace boost {
         	VERBOSE_INFO("HOWARD FINSH at iteration " << k << " / " << MAX_ITERATION);
         }
 
-        const float_t eps_ =  -FloatTraits::epsilon() * cmp_props_t::multiplier;
-
-        if (m_cmp(mcr, mcr_bound() + eps_))
+        // every cycle is strictly better than the bound
+        if (! m_cmp(mcr_bound(), mcr))
           {
         	VERBOSE_ERROR("UNKNOWN HOWARD ERROR : mcr = " << mcr << " bound = " << m_bound  << " first bound = " << mcr_bound());
         	//VERBOSE_FAILURE();
@@ -209,7 +208,8 @@ namespace boost {
 
     private:
       /*!
-       * \return lower/upper bound for the maximal/minimal cycle ratio
+       * \return strict lower/upper bound for the maximal/minimal cycle ratio
+       * (reaching the bound means that there is no cycle)
        */
       float_t mcr_bound()
       {
@@ -231,7 +231,7 @@ namespace boost {
               }
           }
 
-        return  cmp_props_t::multiplier * (s / cz);
+        return  cmp_props_t::multiplier * (s / cz + 1);
       }
 
 
-- 
2.43.0


From 09cd2022898f29024fcaf8065d349fbcecf15601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:23 +0000
Subject: [PATCH 04/37] fix: cycle ratio solver stopping before the optimum

Distances were computed with the ratio of each policy cycle while the policy is
improved with the best one, so edges of negative weight improved it forever;
rounding noise also changed the policy; and the search stopped silently after
100 iterations with a ratio that is not the optimum.
---
 src/libkiter/commons/howard_cycle_ratio.hpp | 44 ++++++++++++++++-----
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/src/libkiter/commons/howard_cycle_ratio.hpp b/src/libkiter/commons/howard_cycle_ratio.hpp
index aac5165..797291e 100644
--- a/src/libkiter/commons/howard_cycle_ratio.hpp
+++ b/src/libkiter/commons/howard_cycle_ratio.hpp
@@ -172,20 +172,23 @@ namespace boost {
       float_t ocr_howard()
       {
         construct_policy_graph();
-        int k = 0;
+        // Without a better ratio, the distances are settled after one iteration per vertex.
+        // More iterations would only come from the lack of precision.
+        const vn_t max_iteration = m_V + MAX_ITERATION;
+        vn_t k = 0;
         float_t mcr = 0;
         do
           {
             mcr = policy_mcr();
-            ++k;
+            k = m_cmp(m_bound, mcr) ? 0 : k + 1;
             m_bound = mcr;
           }
-        while (try_improve_policy(mcr) && k < MAX_ITERATION); //To avoid infinite loop
+        while (try_improve_policy(mcr) && k < max_iteration); //To avoid infinite loop
 
-        if ( k >= MAX_ITERATION) {
+        if ( k >= max_iteration) {
         	VERBOSE_INFO("MCRP : Precision is out" );
         } else {
-        	VERBOSE_INFO("HOWARD FINSH at iteration " << k << " / " << MAX_ITERATION);
+        	VERBOSE_INFO("HOWARD FINSH at iteration " << k << " / " << max_iteration);
         }
 
         // every cycle is strictly better than the bound
@@ -375,6 +378,7 @@ namespace boost {
         boost::tie(uv_itr, vie) = vertices(m_g);
         float_t mcr = m_bound;
         this->m_cr  = m_bound;
+        std::vector<vertex_t> cycle_vertices;
         while ( (uv_itr = std::find_if(uv_itr, vie,
                                        boost::bind(std::equal_to<my_color_type>(),
                                                    my_white,
@@ -388,13 +392,20 @@ namespace boost {
             VERBOSE_HOWARD(" =>  find cycle =" << gv);
             float_t cr = cycle_ratio(gv) ;
             VERBOSE_HOWARD(" =>  new CR =" << cr);
-            mcr_bfv(gv, cr, vcm_);
+            mcr_bfv(gv, m_bound, vcm_); // discovers the vertices that reach this cycle
+            cycle_vertices.push_back(gv);
             if ( m_cmp(mcr, cr) )  {
             	VERBOSE_HOWARD(" =>  Update MCR " << mcr << "->" << cr);
             	mcr = cr;
             }
             ++uv_itr;
           }
+        // The distances have to be computed with the ratio used to improve the policy. With the
+        // ratio of their own cycle, edges of negative weight seem to improve the policy forever.
+        for (vertex_t gv : cycle_vertices)
+          {
+            mcr_bfv(gv, mcr, vcm_);
+          }
         VERBOSE_HOWARD("policy_mcr() : End, mcr =" << mcr);
         return mcr;
       }
@@ -412,6 +423,15 @@ namespace boost {
         m_inel[t].push_back(s); ///Maintain in_edge list
       }
 
+      /*!
+       * Smallest change of the distance d that is not rounding noise. Noise must not change
+       * the policy, otherwise it can cycle without ever reaching the optimum.
+       */
+      float_t improve_epsilon(float_t d)
+      {
+        return FloatTraits::epsilon() * EPSILON_IMPROVE_RATIO * std::max<float_t>(1, std::abs(d));
+      }
+
       /*!
           * A negative cycle detector.
           */
@@ -430,7 +450,7 @@ namespace boost {
                        vertex_t t = target(*oei, m_g);
                        //Current distance from *vi to some vertex
                        float_t dis_ = m_ew1m[*oei] - m_ew2m[*oei] * cr + m_dm[t];
-                       if ( m_cmp(m_dm[*vi] - eps_ * EPSILON_IMPROVE_RATIO , dis_) )
+                       if ( m_cmp(m_dm[*vi] - improve_epsilon(m_dm[*vi]) , dis_) )
                          {
                     	   //VERBOSE_ERROR("Successfull compared " << m_dm[*vi] << " and " << dis_);
                            improve_policy(*vi, *oei);
@@ -469,11 +489,15 @@ namespace boost {
                     vertex_t t = target(*oei, m_g);
                     //Current distance from *vi to some vertex
                     float_t dis_ = m_ew1m[*oei] - m_ew2m[*oei] * cr + m_dm[t];
-                    if ( m_cmp(m_dm[*vi] - eps_* EPSILON_IMPROVE_RATIO , dis_) )
+                    if ( m_cmp(m_dm[*vi] - improve_epsilon(m_dm[*vi]) , dis_) )
                       {
-                        improve_policy(*vi, *oei);
+                        // without a new edge this is only a propagation, or rounding noise on a cycle
+                        if (m_policy[*vi] != *oei)
+                          {
+                            improve_policy(*vi, *oei);
+                            improved = true;
+                          }
                         m_dm[*vi] = dis_;
-                        improved = true;
                       }
                   }
               }
-- 
2.43.0


From 1d130fb2b9ea10da4a70e42c6fe916d666401e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:23 +0000
Subject: [PATCH 05/37] fix: throughput of unbounded (reentrancy 0) tasks is
 too optimistic

The precedence constraints of the K-periodic event graph assume that the
executions of a task start in order, but this order was only enforced inside a
window of K executions when the reentrancy is 0.
---
 src/libkiter/algorithms/throughput/kperiodic.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libkiter/algorithms/throughput/kperiodic.cpp b/src/libkiter/algorithms/throughput/kperiodic.cpp
index 043becb..c895b66 100644
--- a/src/libkiter/algorithms/throughput/kperiodic.cpp
+++ b/src/libkiter/algorithms/throughput/kperiodic.cpp
@@ -660,7 +660,8 @@ void algorithms::generateKperiodicSelfloop (const models::Dataflow * const dataf
 		lti = timefactor * dataflow->getVertexDuration(t,p);
 	}
 
-	if (dataflow->getReentrancyFactor(t) > 0) // consider only a factor 1
+	// A positive factor is considered to be 1. Without reentrancy limit (0) the executions of the
+	// task may overlap but they still start in order: precedence constraints rely on that order.
 	{
 
 		// constraintes last_k --> 1
-- 
2.43.0


From 70ba78332a550f53f47849f68e6ec91018b315b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:36 +0000
Subject: [PATCH 06/37] fix: self-timed execution used production rates for the
 consumption of self-loops

---
 src/libkiter/algorithms/throughput/actor.cpp  | 56 ++++++++++++-------
 src/libkiter/algorithms/throughput/actor.h    |  5 ++
 .../throughput/symbolic_execution.cpp         |  8 +--
 3 files changed, 45 insertions(+), 24 deletions(-)

diff --git a/src/libkiter/algorithms/throughput/actor.cpp b/src/libkiter/algorithms/throughput/actor.cpp
index 10906d0..34923cb 100644
--- a/src/libkiter/algorithms/throughput/actor.cpp
+++ b/src/libkiter/algorithms/throughput/actor.cpp
@@ -113,6 +113,22 @@ TOKEN_UNIT Actor::getExecRate(Edge e, PHASE_INDEX p) {
   }
 }
 
+TOKEN_UNIT Actor::getConsRate(Edge e, PHASE_INDEX p) {
+  return this->consExecRate.at(e).at(p);
+}
+
+TOKEN_UNIT Actor::getConsRate(Edge e) {
+  return this->getConsRate(e, (this->getNumExecutions() % getPhaseCount(e)) + 1);
+}
+
+TOKEN_UNIT Actor::getProdRate(Edge e, PHASE_INDEX p) {
+  return this->prodExecRate.at(e).at(p);
+}
+
+TOKEN_UNIT Actor::getProdRate(Edge e) {
+  return this->getProdRate(e, (this->getNumExecutions() % getPhaseCount(e)) + 1);
+}
+
 EXEC_COUNT Actor::getNumExecutions() {
   return this->numExecs;
 }
@@ -125,19 +141,19 @@ bool Actor::isReadyForExec(State s) {
   bool isExecutable = true;
   for (auto const &e : this->consPhaseCount) {
     VERBOSE_DEBUG("\tTokens in channel (current/required): "
-                  << s.getTokens(e.first) << "/" << this->getExecRate(e.first)
+                  << s.getTokens(e.first) << "/" << this->getConsRate(e.first)
                   << std::endl);
-    if (s.getTokens(e.first) < this->getExecRate(e.first) || this->isExecuting) {
+    if (s.getTokens(e.first) < this->getConsRate(e.first) || this->isExecuting) {
       isExecutable = false;
     }
   }
   if (s.hasBoundedBuffers()) {
     for (auto const &e : this->prodPhaseCount) {
       VERBOSE_DEBUG("\tSpace in channel (current/required): "
-                    << s.getBufferSpace(e.first) << "/" << this->getExecRate(e.first)
+                    << s.getBufferSpace(e.first) << "/" << this->getProdRate(e.first)
                     << std::endl);
       // if (s.getBufferSize(e.first) - s.getTokens(e.first) < this->getExecRate(e.first)) {
-      if (s.getBufferSpace(e.first) < this->getExecRate(e.first) || this->isExecuting) {
+      if (s.getBufferSpace(e.first) < this->getProdRate(e.first) || this->isExecuting) {
         isExecutable = false;
       }
     }
@@ -163,14 +179,14 @@ bool Actor::isReadyToEndExec(State s) {
 // Begin actor's execution, consuming tokens from input channels
 void Actor::execStart(models::Dataflow* const dataflow, State &s) {
   {ForInputEdges(dataflow, this->actor, e) {
-      s.setTokens(e, s.getTokens(e) - this->getExecRate(e));
+      s.setTokens(e, s.getTokens(e) - this->getConsRate(e));
     }}
   if (s.hasBoundedBuffers()) { // for bounded buffers, need to 'reserve' space for tokens about to be produced
     {ForOutputEdges(dataflow, this->actor, e) {
         VERBOSE_DEBUG("Consuming space in Channel " << dataflow->getEdgeId(e)
-                      << ": " << s.getBufferSpace(e) << "-" << this->getExecRate(e)
-                      << "=" << s.getBufferSpace(e) - this->getExecRate(e));
-        s.setBufferSpace(e, s.getBufferSpace(e) - this->getExecRate(e));
+                      << ": " << s.getBufferSpace(e) << "-" << this->getProdRate(e)
+                      << "=" << s.getBufferSpace(e) - this->getProdRate(e));
+        s.setBufferSpace(e, s.getBufferSpace(e) - this->getProdRate(e));
       }}
   }
   std::pair<TIME_UNIT, PHASE_INDEX> newExec(dataflow->getVertexDuration(this->actor,
@@ -189,15 +205,15 @@ void Actor::execEnd(models::Dataflow* const dataflow, State &s) {
   {ForOutputEdges(dataflow, this->actor, e) {
       VERBOSE_INFO("ending execution for phase "
                 << currentPhase << ", producing "
-                << this->getExecRate(e, currentPhase) << " tokens");
-      s.setTokens(e, s.getTokens(e) + this->getExecRate(e, currentPhase));
+                << this->getProdRate(e, currentPhase) << " tokens");
+      s.setTokens(e, s.getTokens(e) + this->getProdRate(e, currentPhase));
     }}
   if (s.hasBoundedBuffers()) { // free up spaces after tokens that have been consumed
     {ForInputEdges(dataflow, this->actor, e) {
         VERBOSE_DEBUG("Producing space in Channel " << dataflow->getEdgeId(e)
-                      << ": " << s.getBufferSpace(e) << "+" << this->getExecRate(e, currentPhase)
-                      << "=" << s.getBufferSpace(e) + this->getExecRate(e, currentPhase));
-        s.setBufferSpace(e, s.getBufferSpace(e) + this->getExecRate(e, currentPhase));
+                      << ": " << s.getBufferSpace(e) << "+" << this->getConsRate(e, currentPhase)
+                      << "=" << s.getBufferSpace(e) + this->getConsRate(e, currentPhase));
+        s.setBufferSpace(e, s.getBufferSpace(e) + this->getConsRate(e, currentPhase));
       }}
   }
   s.removeFrontExec(this->actor);
@@ -227,7 +243,7 @@ void Actor::execEndWithMod(models::Dataflow* const dataflow, State &s, std::dequ
       // for (int i = 0; i < this->getExecRate(e, currentPhase); i++){
       // (*buffer).push_back({end_time+(correct_slot*i), {dataflow->getEdgeId(e), 1}});
       // }
-      (*buffer).push_back({end_time, {dataflow->getEdgeId(e), this->getExecRate(e, currentPhase)}});
+      (*buffer).push_back({end_time, {dataflow->getEdgeId(e), this->getProdRate(e, currentPhase)}});
     }}
   s.removeFrontExec(this->actor);
   this->isExecuting = false;
@@ -243,9 +259,9 @@ void Actor::computeCausalDeps(models::Dataflow* const dataflow, State &prevState
     VERBOSE_DEBUG("\t\tChannel " << dataflow->getEdgeId(e.first) << " ("
                   << sourceId << "->" << targetId << "):" << std::endl);
     VERBOSE_DEBUG("\t\t " << prevState.getTokens(e.first) << " tokens available previously, "
-                  << this->getExecRate(e.first) << " required (p "
+                  << this->getConsRate(e.first) << " required (p "
                   << this->getPhase(e.first) << ")" << std::endl);
-    if (prevState.getTokens(e.first) < this->getExecRate(e.first)) {
+    if (prevState.getTokens(e.first) < this->getConsRate(e.first)) {
       VERBOSE_DEBUG("\t\t\tCausal dep between " << targetId << " and "
                     << sourceId << std::endl);
       absDepGraph.addCausalDep(targetId, sourceId);
@@ -259,9 +275,9 @@ void Actor::computeCausalDeps(models::Dataflow* const dataflow, State &prevState
     VERBOSE_DEBUG("\t\tChannel " << dataflow->getEdgeId(e.first) << " ("
                   << sourceId << "->" << targetId << "):" << std::endl);
     VERBOSE_DEBUG("\t\t " << prevState.getBufferSpace(e.first)
-                  << " spaces available previously, " << this->getExecRate(e.first)
+                  << " spaces available previously, " << this->getProdRate(e.first)
                   << " required (p " << this->getPhase(e.first) << ")" << std::endl);
-    if (prevState.getBufferSpace(e.first) < this->getExecRate(e.first)) {
+    if (prevState.getBufferSpace(e.first) < this->getProdRate(e.first)) {
       VERBOSE_DEBUG("\t\t\tCausal dep between " << sourceId << " and "
                     << targetId << std::endl);
       absDepGraph.addCausalDep(sourceId, targetId);
@@ -278,12 +294,12 @@ std::string Actor::printStatus(models::Dataflow* const dataflow) {
                << std::endl;
   {ForInputEdges(dataflow, this->actor, e) {
       outputStream << "\tTokens consumed from Channel "
-                   << dataflow->getEdgeName(e) << ": " << this->getExecRate(e)
+                   << dataflow->getEdgeName(e) << ": " << this->getConsRate(e)
                    << std::endl;
     }}
   {ForOutputEdges(dataflow, this->actor, e) {
       outputStream << "\tTokens produced into Channel "
-                   << dataflow->getEdgeName(e) << ": " << this->getExecRate(e)
+                   << dataflow->getEdgeName(e) << ": " << this->getProdRate(e)
                    << std::endl;
     }}
   return outputStream.str();
diff --git a/src/libkiter/algorithms/throughput/actor.h b/src/libkiter/algorithms/throughput/actor.h
index a8cdba6..253273f 100644
--- a/src/libkiter/algorithms/throughput/actor.h
+++ b/src/libkiter/algorithms/throughput/actor.h
@@ -31,6 +31,11 @@ class Actor {
   void setId(ARRAY_INDEX newId);
   TOKEN_UNIT getExecRate(Edge e);
   TOKEN_UNIT getExecRate(Edge e, PHASE_INDEX p);
+  // a self-loop is both an input and an output: its two rates may differ
+  TOKEN_UNIT getConsRate(Edge e);
+  TOKEN_UNIT getConsRate(Edge e, PHASE_INDEX p);
+  TOKEN_UNIT getProdRate(Edge e);
+  TOKEN_UNIT getProdRate(Edge e, PHASE_INDEX p);
   EXEC_COUNT getNumExecutions();
   bool isReadyForExec(State s);
   bool isReadyToEndExec(State s);
diff --git a/src/libkiter/algorithms/throughput/symbolic_execution.cpp b/src/libkiter/algorithms/throughput/symbolic_execution.cpp
index 894e3af..3bcfaeb 100644
--- a/src/libkiter/algorithms/throughput/symbolic_execution.cpp
+++ b/src/libkiter/algorithms/throughput/symbolic_execution.cpp
@@ -528,18 +528,18 @@ std::set<Edge> algorithms::computeDeadlockStorageDeps(models::Dataflow* const da
                     << sourceId << "->" << targetId
                     << "):" << std::endl);
       VERBOSE_DEBUG("\t\t " << s.getTokens(e) << " tokens available, "
-                    << actorMap[targetId].getExecRate(e) << " required (p "
+                    << actorMap[targetId].getConsRate(e) << " required (p "
                     << actorMap[targetId].getPhase(e) << ")" << std::endl);
       VERBOSE_DEBUG("\t\t " << s.getBufferSpace(e) << " spaces available, "
-                    << actorMap[sourceId].getExecRate(e) << " required (p "
+                    << actorMap[sourceId].getProdRate(e) << " required (p "
                     << actorMap[sourceId].getPhase(e) << ")" << std::endl);
-      if (s.getTokens(e) < actorMap[targetId].getExecRate(e)) {
+      if (s.getTokens(e) < actorMap[targetId].getConsRate(e)) {
         VERBOSE_DEBUG("\t\t\tCausal dep between " << targetId << " and "
                       << sourceId << std::endl);
         absDepGraph.addCausalDep(targetId, sourceId);
       }
 
-      if (s.getBufferSpace(e) < actorMap[sourceId].getExecRate(e)) {
+      if (s.getBufferSpace(e) < actorMap[sourceId].getProdRate(e)) {
         VERBOSE_DEBUG("\t\t\tCausal dep between " << sourceId << " and "
                       << targetId << std::endl);
         absDepGraph.addCausalDep(sourceId, targetId);
-- 
2.43.0


From b3d75291c54288346f612c1bcdb94b703fa9ebf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:13 +0000
Subject: [PATCH 07/37] fix: self-timed execution of a single task without
 channels never ended

---
 src/libkiter/algorithms/throughput/symbolic_execution.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libkiter/algorithms/throughput/symbolic_execution.cpp b/src/libkiter/algorithms/throughput/symbolic_execution.cpp
index 3bcfaeb..a2a7e4e 100644
--- a/src/libkiter/algorithms/throughput/symbolic_execution.cpp
+++ b/src/libkiter/algorithms/throughput/symbolic_execution.cpp
@@ -40,7 +40,7 @@ TIME_UNIT algorithms::compute_asap_throughput(models::Dataflow* const dataflow,
 
   // generate SCCs if any
   sccMap = computeSCCKosaraju(dataflow);
-  if (sccMap.size() > 1) { // if the original graph isn't one SCC, need to break into SCC subgraphs
+  if (sccMap.size() > 1 || dataflow->getEdgesCount() == 0) { // if the original graph isn't one SCC, need to break into SCC subgraphs (a task without channels is a component of its own)
     sccDataflows = generateSCCs(dataflow, sccMap);
     VERBOSE_INFO("Strongly connected components:");
     for (auto g : sccDataflows) {
@@ -742,7 +742,7 @@ void algorithms::scheduling::ASAPScheduling(models::Dataflow* const dataflow,
 
   // generate SCCs if any
   sccMap = computeSCCKosaraju(dataflow);
-  if (sccMap.size() > 1) { // if the original graph isn't one SCC, need to break into SCC subgraphs
+  if (sccMap.size() > 1 || dataflow->getEdgesCount() == 0) { // if the original graph isn't one SCC, need to break into SCC subgraphs (a task without channels is a component of its own)
     sccDataflows = generateSCCs(dataflow, sccMap);
     VERBOSE_INFO("Strongly connected components:");
     for (auto g : sccDataflows) {
-- 
2.43.0


From d4a22522f1f8a0a351f8e8d85730ff9b1114edf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:41 +0000
Subject: [PATCH 08/37] fix: LP schedules listed phases out of order with the
 period of one phase

---
 .../algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp b/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp
index 2075db0..763d07f 100644
--- a/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp
+++ b/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp
@@ -254,7 +254,7 @@ models::Scheduling collect_lp_results (const commons::GLPSol &g, const models::D
         ARRAY_INDEX vid   = dataflow->getVertexId(t);
     	const EXEC_COUNT periodicity_factor = kvector.at(t);
 
-		res_schedule[dataflow->getVertexId(t)].periodic_starts.first = OMEGA / (TIME_UNIT) ( (TIME_UNIT) dataflow->getNi(t) / (TIME_UNIT) periodicity_factor );
+		res_schedule[dataflow->getVertexId(t)].periodic_starts.first = OMEGA * (TIME_UNIT) ( periodicity_factor * dataflow->getPhasesQuantity(t) ) / (TIME_UNIT) dataflow->getNi(t);
 
 		// Collect init starting times
 		for(EXEC_COUNT a = 1; a <= dataflow->getInitPhasesQuantity(t) ; a++) {
@@ -264,8 +264,8 @@ models::Scheduling collect_lp_results (const commons::GLPSol &g, const models::D
 		}
 
 		// Collect periodic starting times
-		for(EXEC_COUNT a = 1; a <= dataflow->getPhasesQuantity(t) ; a++) {
-			for(EXEC_COUNT k = 1; k <= periodicity_factor ; k++) {
+		for(EXEC_COUNT k = 1; k <= periodicity_factor ; k++) {
+			for(EXEC_COUNT a = 1; a <= dataflow->getPhasesQuantity(t) ; a++) {
 				auto starting_time_col_str = START_COL_STR(vname,a,k);
 				auto starting_time = g.getValue(starting_time_col_str);
 				res_schedule[vid].periodic_starts.second.push_back(starting_time);
-- 
2.43.0


From f91c9c1d9857fbb4cb3286f2b9239eb17df68899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:56 +0000
Subject: [PATCH 09/37] fix: ASAP schedule split initial and periodic starts at
 the wrong recurrent state

---
 .../algorithms/throughput/symbolic_execution.cpp    | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/libkiter/algorithms/throughput/symbolic_execution.cpp b/src/libkiter/algorithms/throughput/symbolic_execution.cpp
index a2a7e4e..c5046e2 100644
--- a/src/libkiter/algorithms/throughput/symbolic_execution.cpp
+++ b/src/libkiter/algorithms/throughput/symbolic_execution.cpp
@@ -594,7 +594,10 @@ std::pair<TIME_UNIT, scheduling_t> algorithms::computeComponentThroughputSchedul
   }}
 
   TIME_UNIT curr_step = 0;
-  std::map<ARRAY_INDEX, std::vector<std::vector<TIME_UNIT>>> starts; //{task idx : [[state 0 starts], [state 1 ...]]}
+  std::map<ARRAY_INDEX, std::vector<std::vector<TIME_UNIT>>> starts; //{task idx : [[starts before state 0], [starts from state 0 to state 1], ...]}
+  {ForEachTask(dataflow, t){
+    starts[dataflow->getVertexId(t)].push_back({});
+  }}
   std::map<ARRAY_INDEX, std::vector<TIME_UNIT>> state_start = {};  //{task idx : [ starts]},
 
   // initialise actors
@@ -685,7 +688,7 @@ std::pair<TIME_UNIT, scheduling_t> algorithms::computeComponentThroughputSchedul
                 static_task_schedule_t initials;
                 periodic_task_schedule_t periodics;
                 for(std::size_t i = 0; i < starts[dataflow->getVertexId(task)].size(); ++i){
-                  if (i < periodic_state_idx){ //initials
+                  if (i <= periodic_state_idx){ //initials
                     initials.insert(initials.end(),starts[dataflow->getVertexId(task)][i].begin(),starts[dataflow->getVertexId(task)][i].end());
                     continue;
                   } 
@@ -704,11 +707,7 @@ std::pair<TIME_UNIT, scheduling_t> algorithms::computeComponentThroughputSchedul
             }
 
           } else {
-            if (starts[dataflow->getVertexId(t)].size() == 0){
-              starts[dataflow->getVertexId(t)].push_back({curr_step}); //push into current state's task start list
-            } else {
-              starts[dataflow->getVertexId(t)].back().push_back(curr_step);
-            }
+            starts[dataflow->getVertexId(t)].back().push_back(curr_step); //push into current state's task start list
           }
         }
       }}
-- 
2.43.0


From 87b3d544dc5ab2c875aed6d89fee8a724bdc4507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:15 +0000
Subject: [PATCH 10/37] fix: fractional durations lost digits when written as
 SDF3 XML

---
 src/libkiter/printers/SDF3Wrapper.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/libkiter/printers/SDF3Wrapper.cpp b/src/libkiter/printers/SDF3Wrapper.cpp
index 4dd1997..b42aca5 100644
--- a/src/libkiter/printers/SDF3Wrapper.cpp
+++ b/src/libkiter/printers/SDF3Wrapper.cpp
@@ -20,6 +20,8 @@
 #include <iostream>
 #include <cstring>
 #include <fstream>
+#include <iomanip>
+#include <limits>
 
 using std::vector;
 
@@ -50,7 +52,14 @@ std::string vectorAsStr(const std::vector<TIME_UNIT>& t)
 			if ((std::floor(v)==std::ceil(v))) {
 				s << (unsigned long) (v) ;
 			} else {
-				s << commons::toString(v);
+				// shortest text that reads back as the same duration
+				std::string text = commons::toString(v);
+				for (int precision = 7 ; (commons::fromString<TIME_UNIT>(text) != v) and (precision <= std::numeric_limits<TIME_UNIT>::max_digits10) ; precision++) {
+					std::ostringstream precise;
+					precise << std::setprecision(precision) << v;
+					text = precise.str();
+				}
+				s << text;
 			}
 		}
 		return s.str();
-- 
2.43.0


From c911e3aaf57e8972beda175f7674e609ffec8716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:23 +0000
Subject: [PATCH 11/37] fix: total duration of a task dropped the fractional
 part of its phases

---
 src/libkiter/models/Dataflow.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libkiter/models/Dataflow.h b/src/libkiter/models/Dataflow.h
index 277a6b6..b501514 100644
--- a/src/libkiter/models/Dataflow.h
+++ b/src/libkiter/models/Dataflow.h
@@ -868,7 +868,7 @@ public :
       inline  TIME_UNIT          getVertexTotalDuration    (const Vertex t)  const   {
     	  VERBOSE_ASSERT(boost::get(get(boost::vertex_phaseduration, this->getG()), t.v).size() > 0, "I take too much coffee, and this task " << getVertexName(t) <<  " - " << getVertexId(t) <<  " has no duration.");
     	  auto phasesDurations =  boost::get(get(boost::vertex_phaseduration, this->getG()), t.v);
-    	  return std::accumulate(phasesDurations.begin(), phasesDurations.end(), 0);
+    	  return std::accumulate(phasesDurations.begin(), phasesDurations.end(), (TIME_UNIT) 0);
       }
 
 
-- 
2.43.0


From 39f98736631bce31135f8b2f5c0339ab96d0c4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:23 +0000
Subject: [PATCH 12/37] fix: cached rate gcd of a channel survived edits of the
 graph

---
 src/libkiter/models/Dataflow.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libkiter/models/Dataflow.h b/src/libkiter/models/Dataflow.h
index b501514..80f16e7 100644
--- a/src/libkiter/models/Dataflow.h
+++ b/src/libkiter/models/Dataflow.h
@@ -311,7 +311,7 @@ public :
 	void set_normalize() {normalizationisdone = true;}
 	void set_repetition_vector() {repetitionvectorisdone = true;}
 
-	void reset_computation() {repetitionvectorisdone = false; normalizationisdone = false; readonly = false; }
+	void reset_computation() {channelGCDA.clear(); repetitionvectorisdone = false; normalizationisdone = false; readonly = false; }
 
 	bool is_read_only() const {return readonly;}
 	bool is_normalized() const {return normalizationisdone ;}
-- 
2.43.0


From f3ade522fac7251cd84f11d6db50693b9ac72e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:23 +0000
Subject: [PATCH 13/37] fix: total rates of a channel above 2^31 overflowed

---
 src/libkiter/models/Dataflow.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libkiter/models/Dataflow.h b/src/libkiter/models/Dataflow.h
index 80f16e7..22fa227 100644
--- a/src/libkiter/models/Dataflow.h
+++ b/src/libkiter/models/Dataflow.h
@@ -740,7 +740,7 @@ public :
     	reset_computation();
         VERBOSE_DATAFLOW_DEBUG(" - Add outputs for " << this->getEdgeName(c) << " coded " << c << " = " << l.size() << " states = " <<  commons::join(l.begin(),l.end(),std::string(",")));
     	boost::put(boost::edge_outputs, this->getG(), c.e, l);
-    	TOKEN_UNIT total =std::accumulate(l.begin(),l.end(),0);
+    	TOKEN_UNIT total =std::accumulate(l.begin(),l.end(),(TOKEN_UNIT) 0);
     	boost::put(boost::edge_total_output, this->getG(), c.e, total);
     	EXEC_COUNT q = this->getPhasesQuantity(this->getEdgeTarget(c));
     	VERBOSE_DATAFLOW_DEBUG("   -   Edge from " << this->getVertexName(this->getEdgeSource(c)) << " to " << this->getVertexName(this->getEdgeTarget(c)));
@@ -793,7 +793,7 @@ public :
        	reset_computation();
            VERBOSE_DATAFLOW_DEBUG(" - Add inputs for " << c << " = " << l.size() << " states = " <<  commons::join(l.begin(),l.end(),std::string(",")));
        	boost::put(boost::edge_inputs, this->getG(), c.e, l);
-       	TOKEN_UNIT total =std::accumulate(l.begin(),l.end(),0);
+       	TOKEN_UNIT total =std::accumulate(l.begin(),l.end(),(TOKEN_UNIT) 0);
        	boost::put(boost::edge_total_input, this->getG(), c.e, total);
        	EXEC_COUNT q = this->getPhasesQuantity(this->getEdgeSource(c));
        	VERBOSE_DATAFLOW_DEBUG(" - EdgeSource is " << this->getVertexName(this->getEdgeSource(c)) << " with " << q << " states");
-- 
2.43.0


From 87b82d877b2953b5adad8064a0d12dd4ae00b6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:20 +0000
Subject: [PATCH 14/37] fix: value joining two existing groups was not added to
 the merged group

---
 src/libkiter/commons/GroupList.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libkiter/commons/GroupList.h b/src/libkiter/commons/GroupList.h
index 7d36335..6a983f0 100644
--- a/src/libkiter/commons/GroupList.h
+++ b/src/libkiter/commons/GroupList.h
@@ -57,6 +57,7 @@ public:
 			for (auto v : *_values[r]) {
 				nvec->insert(v);
 			}
+			nvec->insert(v);
 
 			_bags.erase(_values[r]);
 			delete _values[r];
-- 
2.43.0


From c4473c55074e5005c8867c16506bc91e4510e53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:20 +0000
Subject: [PATCH 15/37] fix: fibo returned powers of two

---
 src/libkiter/commons/commons.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libkiter/commons/commons.cpp b/src/libkiter/commons/commons.cpp
index f072a73..1446f27 100644
--- a/src/libkiter/commons/commons.cpp
+++ b/src/libkiter/commons/commons.cpp
@@ -170,7 +170,7 @@ bool is_readable( const std::string & file )
      int fib_n  = 0;
      int fib_np = 1;
      for (int i = 0; i < index ; i++){
-          int swap = fib_np;
+          int swap = fib_n;
           fib_n = fib_np;
           fib_np = swap + fib_np;
      }
-- 
2.43.0


From 1a9ad5f3e3952dbab97a499ed8d5a56590c90739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:11 +0000
Subject: [PATCH 16/37] fix: buffer sizing refused the default period and
 reported size 0 when there is no solution

SPeriodicSizing and PeriodicSizing compared the default period 0 with the
minimal one before setting it; an infeasible linear program was returned as a
valid solution of size 0 (AddVBuffers then added negative tokens).
---
 .../algorithms/buffersizing/periodic.cpp      |  6 ++--
 .../buffersizing/periodic_fixed.cpp           | 28 +++++++++++--------
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/libkiter/algorithms/buffersizing/periodic.cpp b/src/libkiter/algorithms/buffersizing/periodic.cpp
index 853fcbb..0590957 100644
--- a/src/libkiter/algorithms/buffersizing/periodic.cpp
+++ b/src/libkiter/algorithms/buffersizing/periodic.cpp
@@ -34,11 +34,11 @@ void algorithms::compute_csdf_1periodic_memory   (models::Dataflow* const  dataf
 	  	TIME_UNIT MIN_PERIOD = 1 / result.throughput;
 
 	  	if (MIN_PERIOD) {
-	  	   	VERBOSE_ASSERT (MIN_PERIOD <= period, "The period must be possible");
 	  	   	if (period == 0) {
 	  	   	period = MIN_PERIOD;
 	  	   		VERBOSE_WARNING("PERIOD set to " << period);
 	  	   	}
+	  	   	VERBOSE_ASSERT (MIN_PERIOD <= period * (1 + 1e-9), "The period must be possible"); // 1/(1/P) may be above P
 	  	} else {
 	  		VERBOSE_ERROR ("Cannot compute the maximum period...");
 	  	}
@@ -284,7 +284,7 @@ BufferSizingResult algorithms::periodic_memory_sizing_csdf   (models::Dataflow*
 	// bool sol = g.solve(ilp_params);
 	if (gen_only)  {
 		g.writeMPSProblem();
-		return BufferSizingResult(false);
+		return BufferSizingResult();
 	}
 	bool sol = g.solveWith();
 
@@ -388,7 +388,7 @@ BufferSizingResult algorithms::periodic_memory_sizing_csdf   (models::Dataflow*
 		return total_buffer_size;
 	} else {
 		VERBOSE_ERROR("No feasible solution");
-		return 0;
+		return BufferSizingResult();
 	}
 
 
diff --git a/src/libkiter/algorithms/buffersizing/periodic_fixed.cpp b/src/libkiter/algorithms/buffersizing/periodic_fixed.cpp
index 0e757bb..84a6150 100644
--- a/src/libkiter/algorithms/buffersizing/periodic_fixed.cpp
+++ b/src/libkiter/algorithms/buffersizing/periodic_fixed.cpp
@@ -70,8 +70,6 @@ BufferSizingResult algorithms::speriodic_memory_sizing_csdf (models::Dataflow* c
 }
 
 void algorithms::compute_strictly_periodic_memory (models::Dataflow* const dataflow, parameters_list_t params) {
-        std::map<Vertex,std::vector<TIME_UNIT> > offsets;
-
         VERBOSE_ASSERT(computeRepetitionVector(dataflow),"inconsistent graph");
 
 
@@ -87,11 +85,11 @@ void algorithms::compute_strictly_periodic_memory (models::Dataflow* const dataf
         TIME_UNIT MIN_PERIOD = 1 / result.throughput;
 
         if (MIN_PERIOD) {
-            VERBOSE_ASSERT (MIN_PERIOD <= period, "The period must be possible");
             if (period == 0) {
             period = MIN_PERIOD;
                 VERBOSE_WARNING("PERIOD set to " << period);
             }
+            VERBOSE_ASSERT (MIN_PERIOD <= period * (1 + 1e-9), "The period must be possible"); // 1/(1/P) may be above P
         } else {
             VERBOSE_ERROR ("Cannot compute the maximum period...");
         }
@@ -101,9 +99,12 @@ void algorithms::compute_strictly_periodic_memory (models::Dataflow* const dataf
         VERBOSE_ASSERT (period > 0, "The period must be defined");
         VERBOSE_ASSERT (period != std::numeric_limits<TIME_UNIT>::infinity(), "The period must be defined");
 
-        generateStrictlyPeriodicOffsets(dataflow,period,offsets);
-        checkOffsets(dataflow,period,offsets);
-        auto total_buffer_size = compute_periodic_fixed_memory(dataflow, offsets,period, solve_ilp, gen_only).total_size();
+        BufferSizingResult sizing_res = speriodic_memory_sizing_csdf(dataflow, period, solve_ilp, gen_only);
+        if (!sizing_res.is_valid()) {
+            std::cout << "No solution" << std::endl;
+            return;
+        }
+        auto total_buffer_size = sizing_res.total_size();
         std::cout << "Total buffer size : " << total_buffer_size
                     << " + 2 * " << dataflow->getVerticesCount() << " = "
                     << total_buffer_size + 2 * dataflow->getVerticesCount() << std::endl ;
@@ -111,7 +112,6 @@ void algorithms::compute_strictly_periodic_memory (models::Dataflow* const dataf
 }
 
    void algorithms::add_vbuffers (models::Dataflow* const  dataflow, parameters_list_t params) {
-        std::map<Vertex,std::vector<TIME_UNIT> > offsets;
         std::set<ARRAY_INDEX> vbuffers;
 
         VERBOSE_ASSERT(computeRepetitionVector(dataflow),"inconsistent graph");
@@ -121,9 +121,8 @@ void algorithms::compute_strictly_periodic_memory (models::Dataflow* const dataf
         VERBOSE_ASSERT (period != std::numeric_limits<TIME_UNIT>::infinity(), "The period must be defined");
         bool      solve_ilp = commons::get_parameter<bool>(params, "ILP", false) ;
         bool      gen_only  = commons::get_parameter<bool>(params, "GENONLY", false) ;
-        generateStrictlyPeriodicOffsets(dataflow,period,offsets);
-        checkOffsets(dataflow,period,offsets);
-        BufferSizingResult buf_res = compute_periodic_fixed_memory(dataflow, offsets,period, solve_ilp, gen_only);
+        BufferSizingResult buf_res = speriodic_memory_sizing_csdf(dataflow, period, solve_ilp, gen_only);
+        VERBOSE_ASSERT (buf_res.is_valid(), "There is no strictly periodic solution for this period");
         dataflow->reset_computation();
 
         std::vector<ARRAY_INDEX> id_list; // no known way of getting a static edge list
@@ -186,7 +185,12 @@ void algorithms::compute_fixed_offset_buffer_sizing (models::Dataflow* const dat
     }
 
     checkOffsets(dataflow,period,offsets);
-    auto total_buffer_size = compute_periodic_fixed_memory(dataflow, offsets,period, solve_ilp, gen_only).total_size();
+    BufferSizingResult sizing_res = compute_periodic_fixed_memory(dataflow, offsets,period, solve_ilp, gen_only);
+    if (!sizing_res.is_valid()) {
+        std::cout << "No solution" << std::endl;
+        return;
+    }
+    auto total_buffer_size = sizing_res.total_size();
 
     std::cout << "Total buffer size : " << total_buffer_size
                 << " + 2 * " << dataflow->getVerticesCount() << " = "
@@ -944,7 +948,7 @@ bool algorithms::generateMinMaxOffsets(models::Dataflow * dataflow, TIME_UNIT OM
 
        if (gen_only)  {
        	g.writeMPSProblem();
-       	return 0;
+       	return BufferSizingResult();
        }
 
 
-- 
2.43.0


From a201b1af9a404785f1a033b1002744ceefe01d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:11 +0000
Subject: [PATCH 17/37] fix: minimal size of multi-phase channels was
 over-estimated in the buffer DSE

The p + c - gcd(p, c) bound only holds for single-phase channels; Pareto
points with smaller multi-phase buffers were never explored.
---
 src/libkiter/algorithms/dse/buffer_sizing.cpp | 36 +++++++++----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/libkiter/algorithms/dse/buffer_sizing.cpp b/src/libkiter/algorithms/dse/buffer_sizing.cpp
index aca9037..ed2bee4 100644
--- a/src/libkiter/algorithms/dse/buffer_sizing.cpp
+++ b/src/libkiter/algorithms/dse/buffer_sizing.cpp
@@ -855,36 +855,36 @@ void findMinimumChannelSz(models::Dataflow *dataflow,
   VERBOSE_DSE("Calculating minimal channel sizes (for postive throughput)..." << std::endl);
 
   {ForEachEdge(dataflow, c) {
-      // initialise channel size to maximum int size
       minChannelSizes[c].first = dataflow->getPreload(c); // set initial tokens according to dataflow graph TODO look into why I didn't originally do this
-      minChannelSizes[c].second = INT_MAX; // NOTE (should use ULONG_MAX but it's a really large value)
-      TOKEN_UNIT ratePeriod = (TOKEN_UNIT) std::gcd(dataflow->getEdgeInPhasesCount(c),
-                                                            dataflow->getEdgeOutPhasesCount(c));
-
-      for (TOKEN_UNIT i = 0; i < ratePeriod; i++) {
+      TOKEN_UNIT tokensInitial = dataflow->getPreload(c);
+      TOKEN_UNIT lowerBound = 0;
+      if (dataflow->getEdgeInPhasesCount(c) == 1 && dataflow->getEdgeOutPhasesCount(c) == 1) {
         // might want to change variables to p, c, and t for legibility
-        TOKEN_UNIT tokensProduced = dataflow->getEdgeInVector(c)[i % dataflow->getEdgeInPhasesCount(c)];
-        TOKEN_UNIT tokensConsumed = dataflow->getEdgeOutVector(c)[i % dataflow->getEdgeOutPhasesCount(c)];
-        TOKEN_UNIT tokensInitial = dataflow->getPreload(c);
+        TOKEN_UNIT tokensProduced = dataflow->getEdgeInVector(c)[0];
+        TOKEN_UNIT tokensConsumed = dataflow->getEdgeOutVector(c)[0];
         VERBOSE_DSE("p, c, t: " << tokensProduced << ", "
                     << tokensConsumed << ", " << tokensInitial << std::endl);
-        TOKEN_UNIT lowerBound;
 
         if (std::gcd(tokensProduced, tokensConsumed)) {
           lowerBound = tokensProduced + tokensConsumed -
             std::gcd(tokensProduced, tokensConsumed) +
             tokensInitial % std::gcd(tokensProduced, tokensConsumed);
-        } else {
-          lowerBound = tokensProduced + tokensConsumed -
-            std::gcd(tokensProduced, tokensConsumed);
         }
-        lowerBound = (lowerBound > tokensInitial ? lowerBound : tokensInitial);
-
-        // take the lowest bound amongst phases of prod/cons
-        if (lowerBound < minChannelSizes[c].second) {
-          minChannelSizes[c].second = lowerBound;
+      } else {
+        // several phases: the p + c - gcd(p, c) bound does not hold, only that
+        // every single phase must have room for the tokens it moves
+        TOKEN_UNIT step = 0;
+        for (TOKEN_UNIT rate : dataflow->getEdgeInVector(c)) {
+          step = std::gcd(step, rate);
+          lowerBound = std::max(lowerBound, rate);
+        }
+        for (TOKEN_UNIT rate : dataflow->getEdgeOutVector(c)) {
+          step = std::gcd(step, rate);
+          lowerBound = std::max(lowerBound, rate);
         }
+        if (step) lowerBound += tokensInitial % step;
       }
+      minChannelSizes[c].second = std::max(lowerBound, tokensInitial);
       VERBOSE_DSE("Minimum channel size for " << dataflow->getEdgeName(c)
                   << ": " << minChannelSizes[c].second << std::endl);
     }}
-- 
2.43.0


From e12fee3761f17dcbefab68afed568ea5d03e56c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:11 +0000
Subject: [PATCH 18/37] fix: buffer DSE never ended when the throughput target
 is below the first point found

---
 src/libkiter/algorithms/dse/buffer_sizing.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libkiter/algorithms/dse/buffer_sizing.cpp b/src/libkiter/algorithms/dse/buffer_sizing.cpp
index ed2bee4..ba80a4e 100644
--- a/src/libkiter/algorithms/dse/buffer_sizing.cpp
+++ b/src/libkiter/algorithms/dse/buffer_sizing.cpp
@@ -405,7 +405,8 @@ bool StorageDistributionSet::isSearchComplete(StorageDistributionSet checklist,
               << std::endl);
   VERBOSE_DSE("\tHow many SDs left in checklist? " << checklist.getSize()
               << std::endl);
-  return ((commons::AreSame(this->p_max.second, target_thr) &&
+  return (((this->p_max.second > target_thr ||
+            commons::AreSame(this->p_max.second, target_thr)) &&
           (!checklist.hasDistribution(this->p_max.first))) ||
           (checklist.getSize() <= 0)); // also end when we're out of distributions to check
 }
-- 
2.43.0


From 83777ce58708e37108ccc31e62732b8bbe956977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:49 +0000
Subject: [PATCH 19/37] fix: SingleOutput lost the initial tokens of the
 channels it redirects

---
 src/libkiter/algorithms/transformation/singleOutput.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libkiter/algorithms/transformation/singleOutput.cpp b/src/libkiter/algorithms/transformation/singleOutput.cpp
index f6b1ab8..22ddb4e 100644
--- a/src/libkiter/algorithms/transformation/singleOutput.cpp
+++ b/src/libkiter/algorithms/transformation/singleOutput.cpp
@@ -57,9 +57,11 @@ void algorithms::transformation::singleOutput    (models::Dataflow* const datafl
 		Edge nc1 = dataflow->addEdge(newDup,  dataflow->getEdgeTarget(c1));
 		dataflow->setEdgeInPhases(nc1, {1});
 		dataflow->setEdgeOutPhases(nc1, {1});
+		dataflow->setPreload(nc1, dataflow->getPreload(c1));
 		Edge nc2 = dataflow->addEdge(newDup,  dataflow->getEdgeTarget(c2));
 		dataflow->setEdgeInPhases(nc2, {1});
 		dataflow->setEdgeOutPhases(nc2, {1});
+		dataflow->setPreload(nc2, dataflow->getPreload(c2));
 
 
 		// remote the two buffer
-- 
2.43.0


From f3afb2e8c17b393f78947c69dbad1dd7cd8346da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:49 +0000
Subject: [PATCH 20/37] fix: merging could keep a wrong periodic pattern and
 lost token sizes

The periodic phases of a merged task were any suffix of the execution sequence
with proportional counts: phases of multi-phase tasks were cut and the order
could deadlock. Use the pattern the schedule really repeats.
---
 .../algorithms/transformation/merging.cpp     | 147 ++++++------------
 1 file changed, 49 insertions(+), 98 deletions(-)

diff --git a/src/libkiter/algorithms/transformation/merging.cpp b/src/libkiter/algorithms/transformation/merging.cpp
index 1e883e1..5dbef05 100644
--- a/src/libkiter/algorithms/transformation/merging.cpp
+++ b/src/libkiter/algorithms/transformation/merging.cpp
@@ -205,6 +205,7 @@ struct edge_infos {
 	std::vector<TOKEN_UNIT> out_ini_vector;
 
 	TOKEN_UNIT preload;
+	TOKEN_UNIT token_size;
 
 	EDGE_TYPE type;
 
@@ -218,6 +219,7 @@ struct edge_infos {
 		out_per_vector(to->getEdgeOutVector(e)),
 		out_ini_vector(to->getEdgeInitOutVector(e)),
 		preload(to->getPreload(e)),
+		token_size(to->getTokenSize(e)),
 		type(to->getEdgeType(e)) {
 
 	}
@@ -308,7 +310,6 @@ bool algorithms::transformation::mergeCSDFFromSchedule (models::Dataflow* to, st
 	// For each edge we need to store , input vector, output vector, initial marking, gcd
 	VERBOSE_INFO("Store what to merge");
 
-	EXEC_COUNT gcd_value = 0;
 	std::map<ARRAY_INDEX, vertex_infos> original_tasks;
 	std::map<ARRAY_INDEX, std::vector<edge_infos>> input_edges;
 	std::map<ARRAY_INDEX,  std::vector<edge_infos>> output_edges;
@@ -317,9 +318,6 @@ bool algorithms::transformation::mergeCSDFFromSchedule (models::Dataflow* to, st
 	for (auto vid : mergeNodes) {
 		Vertex v = to->getVertexById(vid);
 
-		EXEC_COUNT ni = to->getNi(v);
-		gcd_value = std::gcd (gcd_value , ni) ;
-
 		for (auto it : to->in_edges(v)) {
 			edge_infos ne(to, *it);
 			input_edges[vid].push_back(ne);
@@ -335,7 +333,6 @@ bool algorithms::transformation::mergeCSDFFromSchedule (models::Dataflow* to, st
 
 
 	VERBOSE_DEBUG("Check what is stored");
-	VERBOSE_DEBUG("gcd_value = " << gcd_value);
 	for (auto it : original_tasks) {
 		ARRAY_INDEX vid = it.first;
 		vertex_infos infos = it.second;
@@ -363,21 +360,34 @@ bool algorithms::transformation::mergeCSDFFromSchedule (models::Dataflow* to, st
 	}
 
 
+	// Once every task has started, the schedule repeats itself after pattern_iterations iterations
+	// of the graph, i.e. after pattern_size executions of the tasks to merge.
+	TIME_UNIT  last_start         = 0;
+	EXEC_COUNT pattern_iterations = 1;
+	for (auto it : original_tasks) {
+		EXEC_COUNT task_pattern = it.second.starts.size() - it.second.init_phases;
+		last_start = std::max(last_start, it.second.starts[it.second.init_phases]);
+		pattern_iterations = std::lcm(pattern_iterations, task_pattern / std::gcd(task_pattern, it.second.ni));
+	}
+	EXEC_COUNT pattern_size = 0;
+	for (auto it : original_tasks) {
+		pattern_size += it.second.ni * pattern_iterations;
+	}
+
 	std::vector < task_execution_t > execution_sequence;
+	const TIME_UNIT same_time = omega * 1e-12; // start times closer than this are the same one
 
-	bool dontstop = true;
-	while(dontstop) {
-		dontstop = false;
+	ARRAY_INDEX init_phase_count = 0;
+	while((EXEC_COUNT) execution_sequence.size() < init_phase_count + pattern_size) {
 
 		// Pick the next candidate
 		ARRAY_INDEX next_id   = -1;
 		TIME_UNIT   next_time = std::numeric_limits<TIME_UNIT>::infinity() ;
 		for (auto it : original_tasks) {
 			ARRAY_INDEX vid = it.first;
-			vertex_infos infos = it.second;
-			TIME_UNIT task_execution_time = get_next_execution_time (infos, execution_count[vid] );
+			TIME_UNIT task_execution_time = get_next_execution_time (it.second, execution_count[vid] );
 			VERBOSE_DEBUG("  - Scheduling of task " << vid << " execution count = " << execution_count[vid] << " next execution is " << task_execution_time);
-			if (task_execution_time <= next_time) {
+			if (task_execution_time <= next_time + same_time) {
 					next_time = task_execution_time;
 					next_id = vid;
 					VERBOSE_DEBUG("  - New next task!");
@@ -387,21 +397,8 @@ bool algorithms::transformation::mergeCSDFFromSchedule (models::Dataflow* to, st
 		// Execute candidate
 		execution_sequence.push_back(  task_execution_t(next_id, execution_count[next_id], next_time) );
 		execution_count[next_id] ++ ;
-
-		// Stopping condition
-		// NOTE: In theory a valid one should be similar to Symbolic Execution (reach previously seen state)
-		//       I did not implement that yet, it will have to be done until a better solution emerge.
-		//       Currently the solution used is not bullet proof!
-
-		for (auto it : original_tasks) {
-			ARRAY_INDEX vid = it.first;
-			vertex_infos infos = it.second;
-			EXEC_COUNT threshold = infos.init_phases + (infos.periodic_phases * infos.ni);
-			if (execution_count[vid] < threshold) {
-				dontstop = true;
-				VERBOSE_DEBUG("  - We will continue because " << vid << " needs " << threshold << " and only has " << execution_count[vid]);
-				break;
-			}
+		if (next_time + same_time < last_start) {
+			init_phase_count = execution_sequence.size();
 		}
 	}
 
@@ -420,89 +417,41 @@ bool algorithms::transformation::mergeCSDFFromSchedule (models::Dataflow* to, st
 	}
 
 
-	VERBOSE_INFO("Check there is a valid init phase count");
-
-	VERBOSE_ASSERT(execution_sequence.size()  > 0, "This should never happen");
-
-	ARRAY_INDEX init_phase_count = execution_sequence.size() - 1 ;
-	bool need_to_continue = true;
-	while (init_phase_count >= 0 and need_to_continue) {
-		VERBOSE_DEBUG("Check init phase count = " << init_phase_count);
-
-		need_to_continue = false;
+	VERBOSE_INFO("Check the periodic pattern");
 
-		std::map<ARRAY_INDEX,EXEC_COUNT> task_periodic_execution_count;
-		for (auto exec_pair : std::vector< task_execution_t > (execution_sequence.begin() + init_phase_count , execution_sequence.end() ) ) {
-			task_periodic_execution_count[exec_pair.task_id] ++ ;
-		}
+	std::map<ARRAY_INDEX,EXEC_COUNT> pattern_executions;
+	for (size_t idx = init_phase_count ; idx < execution_sequence.size() ; idx++ ) {
+		pattern_executions[execution_sequence[idx].task_id] ++ ;
+	}
+	for (auto it : original_tasks) {
+		VERBOSE_ASSERT(pattern_executions[it.first] == it.second.ni * pattern_iterations , "The schedule is not periodic.");
+	}
 
+	// Optimising when we can to reduce the periodic phases : they may repeat a shorter pattern,
+	// as long as it holds complete executions of every task
+	EXEC_COUNT period_size = pattern_size;
+	for (EXEC_COUNT size = 1 ; size < pattern_size ; size++ ) {
+		if (pattern_size % size != 0) continue;
+		bool valid = true;
 		for (auto it : original_tasks) {
-			ARRAY_INDEX tid = it.first;
-			vertex_infos infos = it.second;
-			EXEC_COUNT ratio =   (infos.ni)/gcd_value;
-			VERBOSE_DEBUG("    In the current periodic pattern the task " << tid << " is executed " << task_periodic_execution_count[tid] << " with expected ratio " << ratio );
-
+			EXEC_COUNT repeat = pattern_size / size;
+			if (pattern_executions[it.first] % (repeat * it.second.periodic_phases) != 0) valid = false;
 		}
-
-		EXEC_COUNT factor = 0;
-		for (auto it : original_tasks) {
-			ARRAY_INDEX tid = it.first;
-			vertex_infos infos = it.second;
-			EXEC_COUNT ratio =   (infos.ni)/gcd_value;
-			if (task_periodic_execution_count[tid] == 0) {
-				need_to_continue = true;
-				VERBOSE_DEBUG("  Every task need to be executed, task " << tid  << " is not.");
-
-			}
-			if (task_periodic_execution_count[tid] %  ratio  != 0) {
-				need_to_continue = true;
-				VERBOSE_DEBUG("  In the current periodic pattern the task " << tid << " is executed " << task_periodic_execution_count[tid] << " not divisible by ratio " << ratio );
-
-			}
-
-			if (factor == 0) {
-				factor = task_periodic_execution_count[tid] / ratio;
-			}
-			if (task_periodic_execution_count[tid] !=  ratio * factor) {
-							need_to_continue = true;
-							VERBOSE_DEBUG("  In the current periodic pattern the task " << tid << " is executed " << task_periodic_execution_count[tid] << " not equal to expected " << factor * ratio );
-
-			}
-
+		for (size_t idx = init_phase_count ; valid and idx + size < execution_sequence.size() ; idx++ ) {
+			if (not (execution_sequence[idx] == execution_sequence[idx + size])) valid = false;
 		}
-		if (need_to_continue) {
-			init_phase_count--;
+		if (valid) {
+			period_size = size;
+			break;
 		}
 	}
 
-	VERBOSE_ASSERT(init_phase_count >= 0 , "Problem detected.");
-
 	// Optimising when we can to reduce the init phase
 	VERBOSE_INFO("Check if we can reduce the inint phase");
-
-	std::vector<task_execution_t> periodic_sequence (execution_sequence.begin() + init_phase_count , execution_sequence.end() );
-	std::vector<task_execution_t> init_sequence (execution_sequence.begin() , execution_sequence.begin() + init_phase_count  );
-
-	EXEC_COUNT new_init_end;
-	for (ARRAY_INDEX init_end = init_phase_count ;init_end >= 0; init_end -= periodic_sequence.size()) {
-		VERBOSE_DEBUG("test new init_end = " << init_end);
-		std::vector<task_execution_t> maybe_periodic_sequence (execution_sequence.begin() + init_end,  execution_sequence.begin() + init_end + periodic_sequence.size()  );
-
-		VERBOSE_DEBUG("maybe_periodic_sequence = " << commons::toString(maybe_periodic_sequence));
-		VERBOSE_DEBUG("periodic_sequence = " << commons::toString(periodic_sequence));
-		VERBOSE_DEBUG("Test result  = " << (maybe_periodic_sequence == periodic_sequence));
-
-		if (maybe_periodic_sequence == periodic_sequence) {
-			VERBOSE_DEBUG("WORKED");
-			new_init_end = init_end;
-
-		} else {
-			VERBOSE_DEBUG("FAILED");
-		}
+	while (init_phase_count > 0 and execution_sequence[init_phase_count - 1] == execution_sequence[init_phase_count - 1 + period_size]) {
+		init_phase_count--;
 	}
-
-	init_phase_count = new_init_end;
-	execution_sequence = std::vector<task_execution_t>(execution_sequence.begin() , execution_sequence.begin() + init_phase_count + periodic_sequence.size()) ;
+	execution_sequence = std::vector<task_execution_t>(execution_sequence.begin() , execution_sequence.begin() + init_phase_count + period_size) ;
 
 	ARRAY_INDEX periodic_phase_count = execution_sequence.size() - init_phase_count;
 
@@ -627,6 +576,7 @@ bool algorithms::transformation::mergeCSDFFromSchedule (models::Dataflow* to, st
 			//to->setEdgeName(new_edge, "merged_" + commons::toString(to->getEdgeId(new_edge)));
 			to->setEdgeType(new_edge,infos.type);
 			to->setPreload(new_edge, infos.preload);
+			to->setTokenSize(new_edge, infos.token_size);
 			to->setEdgeInPhases(new_edge, infos.in_per_vector);
 			to->setEdgeInInitPhases(new_edge, infos.in_ini_vector);
 
@@ -669,6 +619,7 @@ bool algorithms::transformation::mergeCSDFFromSchedule (models::Dataflow* to, st
 			//to->setEdgeName(new_edge, "merged_" + commons::toString(to->getEdgeId(new_edge)));
 			to->setEdgeType(new_edge,infos.type);
 			to->setPreload(new_edge, infos.preload);
+			to->setTokenSize(new_edge, infos.token_size);
 
 			to->setEdgeOutPhases(new_edge, infos.out_per_vector);
 			to->setEdgeOutInitPhases(new_edge, infos.out_ini_vector);
-- 
2.43.0


From 37492d9784e704ee6dff4c74f02fb870e49eab18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:30 +0000
Subject: [PATCH 21/37] fix: CycleCount kept the cycles of previous runs,
 missed ids with gaps and listed some self-loops

---
 src/libkiter/algorithms/analysis/cycle_detection.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libkiter/algorithms/analysis/cycle_detection.cpp b/src/libkiter/algorithms/analysis/cycle_detection.cpp
index a819f21..72e3f24 100644
--- a/src/libkiter/algorithms/analysis/cycle_detection.cpp
+++ b/src/libkiter/algorithms/analysis/cycle_detection.cpp
@@ -47,9 +47,10 @@ void algorithms::cycle_detection       (models::Dataflow* const  dataflow, param
 
 void algorithms::find_simple_cycles(models::Dataflow* const  dataflow, parameters_list_t) {
   ARRAY_INDEX start_id = 1; // NOTE probably better to check first vertex in dataflow graph rather than assume value of start ID (dataflow->getFirstVertex()?)
+  simple_cycles.clear(); // cycles of a previous run
   VERBOSE_DEBUG("original graph:" << std::endl);
   VERBOSE_DEBUG(print_status(dataflow) << std::endl);
-  while (start_id <= dataflow->getVerticesCount()) {
+  while (true) { // until no cycle is left (vertex IDs may have gaps)
     models::Dataflow* subgraph = generate_subgraph(dataflow, start_id); // subgraph excludes all vertices less than the specified starting ID
     std::map<int, std::vector<ARRAY_INDEX>> scc_map = algorithms::computeSCCKosaraju(subgraph);
     // find the SCC that contains the vertex with the smallest ID
@@ -167,7 +168,9 @@ bool algorithms::find_simple_cycles_scc(models::Dataflow* const scc,
       ARRAY_INDEX neighbour_id = scc->getVertexId(scc->getEdgeTarget(e));
       VERBOSE_DEBUG("current_id: " << current_id << std::endl);
       VERBOSE_DEBUG("neighbour_id: " << neighbour_id << std::endl);
-      if (neighbour_id == start_id) { // cycle found
+      if (neighbour_id == current_id) { // a selfloop is not a cycle between actors (see find_smallest_index)
+        continue;
+      } else if (neighbour_id == start_id) { // cycle found
         VERBOSE_DEBUG("\tcurrent id == neighbour id; cycle found!" << std::endl);
         dfs_stack.push_back(start_id);
         std::vector<ARRAY_INDEX> cycle(dfs_stack);
-- 
2.43.0


From 315a3acebee4f2cb91aa7d3ec614ddc733ab0a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:56 +0000
Subject: [PATCH 22/37] fix: moduloMapping placed tasks on routers instead of
 cores

---
 src/libkiter/algorithms/mapping/moduloMapping.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libkiter/algorithms/mapping/moduloMapping.cpp b/src/libkiter/algorithms/mapping/moduloMapping.cpp
index 4809eef..b47d654 100644
--- a/src/libkiter/algorithms/mapping/moduloMapping.cpp
+++ b/src/libkiter/algorithms/mapping/moduloMapping.cpp
@@ -18,7 +18,7 @@ void algorithms::mapping::moduloMapping (models::Dataflow* const  dataflow, para
 		if (params.find(dataflow->getVertexName(t)) != params.end()) {
 			dataflow->setMapping(t, commons::fromString<node_id_t> (params[dataflow->getVertexName(t)]));
 		} else {
-			node_id_t modulo_id = (dataflow->getVertexId(t) - 1) % dataflow->getNoC().size();
+			node_id_t modulo_id = dataflow->getNoC().size() + (dataflow->getVertexId(t) - 1) % dataflow->getNoC().size();
 			dataflow->setMapping(t, modulo_id);
 		}
 	}
-- 
2.43.0


From d6aab143700364bf818c623a1f9e26a133622428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:56 +0000
Subject: [PATCH 23/37] fix: link utilisation of the NoC was too small for the
 link ids and never reset

---
 src/libkiter/models/NoCGraph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libkiter/models/NoCGraph.h b/src/libkiter/models/NoCGraph.h
index 394a173..b33ab14 100644
--- a/src/libkiter/models/NoCGraph.h
+++ b/src/libkiter/models/NoCGraph.h
@@ -72,7 +72,7 @@ class NoCGraph
 	//std::map<int, int> getLinkUtil() { return linkUtil; }
 	std::vector<int> getLinkUtil() { return linkUtil; }
 
-	void clear() { linkUtil.resize(V*V, 0); }//linkUtil.clear(); }
+	void clear() { linkUtil.assign(getMapIndex(V, 0), 0); }//linkUtil.clear(); }
 	void addEdge(int u, int v); 
 	void printAllPaths(int s, int d, int length);
         //void setLinkUtil(std::map<int, int> u) { linkUtil = u; }
-- 
2.43.0


From c863405408eaf0193615889eee2afbf55abcef50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:49 +0000
Subject: [PATCH 24/37] fix: K-periodic constraints assumed initial phases are
 multiples of the periodic rates

---
 src/libkiter/algorithms/throughput/kperiodic.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libkiter/algorithms/throughput/kperiodic.cpp b/src/libkiter/algorithms/throughput/kperiodic.cpp
index c895b66..062d46e 100644
--- a/src/libkiter/algorithms/throughput/kperiodic.cpp
+++ b/src/libkiter/algorithms/throughput/kperiodic.cpp
@@ -537,13 +537,17 @@ void algorithms::generateKPeriodicConstraint(const models::Dataflow * const data
 	const EXEC_COUNT  maxki        = kValues->at(source) ;
 	const EXEC_COUNT  maxkj        = kValues->at(target) ;
 
-	TOKEN_UNIT mop     =  commons::floor(dataflow->getPreload(c),dataflow->getFineGCD(c));
+	// initial phases may not be multiple of the periodic ones
+	TOKEN_UNIT stepa   =  dataflow->getFineGCD(c);
+	for (EXEC_COUNT p = 1 - source_init_phase_count; p <= 0 ; p++ ) stepa = std::gcd(stepa, dataflow->getEdgeInPhase(c,p));
+	for (EXEC_COUNT p = 1 - target_init_phase_count; p <= 0 ; p++ ) stepa = std::gcd(stepa, dataflow->getEdgeOutPhase(c,p));
+
+	TOKEN_UNIT mop     =  commons::floor(dataflow->getPreload(c),stepa);
 
 	const TOKEN_UNIT  Wc        =  dataflow->getEdgeIn(c) * maxki;
 	const TOKEN_UNIT  Rc        =  dataflow->getEdgeOut(c) * maxkj;
 
 	const TOKEN_UNIT  gcdz       = std::gcd<TOKEN_UNIT>((Wc),(Rc));
-	const TOKEN_UNIT  stepa      = dataflow->getFineGCD(c);
 
 	TOKEN_UNIT normdapkm1 = 0;
 	TOKEN_UNIT normdapk   = 0;
-- 
2.43.0


From 39438b6fb0f3c7f09ca13669219be20aec342bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:49 +0000
Subject: [PATCH 25/37] fix: the random generator and K-periodic updates
 depended on memory addresses

---
 .../algorithms/throughput/kperiodic.cpp        | 18 ++++++++++++------
 src/libkiter/generators/RandomGenerator.cpp    |  6 +++++-
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/libkiter/algorithms/throughput/kperiodic.cpp b/src/libkiter/algorithms/throughput/kperiodic.cpp
index 062d46e..1b3e12d 100644
--- a/src/libkiter/algorithms/throughput/kperiodic.cpp
+++ b/src/libkiter/algorithms/throughput/kperiodic.cpp
@@ -414,11 +414,17 @@ models::EventGraph* algorithms::updateEventGraph(const models::Dataflow * const
 	}
 
 
+	// The set is sorted by address, visit the channels by id so that the result does not depend on it
+	std::vector<Edge> circuit (cc->begin(), cc->end());
+	std::sort(circuit.begin(), circuit.end(), [dataflow] (const Edge& a, const Edge& b) {
+		return dataflow->getEdgeId(a) < dataflow->getEdgeId(b);
+	});
+
 	VERBOSE_INFO("Update event graph - Step 1 - Delete edges and add task");
 	// STEP 1
 	//remove all connected edges
 	EXEC_COUNT current = 0;
-	for (critical_circuit_t::iterator it = cc->begin() ; it != cc->end(); it++ ) {
+	for (std::vector<Edge>::iterator it = circuit.begin() ; it != circuit.end(); it++ ) {
 		current ++ ;
 
 		Vertex source = dataflow->getEdgeSource(*it);
@@ -446,7 +452,7 @@ models::EventGraph* algorithms::updateEventGraph(const models::Dataflow * const
 
 	current = 0;
 
-	for (critical_circuit_t::iterator it = cc->begin(); it != cc->end(); it++ ) {
+	for (std::vector<Edge>::iterator it = circuit.begin(); it != circuit.end(); it++ ) {
 
 		current ++ ;
 		Vertex t = dataflow->getEdgeSource(*it);
@@ -468,12 +474,12 @@ models::EventGraph* algorithms::updateEventGraph(const models::Dataflow * const
 	// add all edges
 
 	current = 0;
-	for (critical_circuit_t::iterator it = cc->begin() ; it != cc->end() ; it++) {
+	for (std::vector<Edge>::iterator it = circuit.begin() ; it != circuit.end() ; it++) {
 
 		current ++ ;
-		critical_circuit_t::iterator it_previous = it;
-		if (it == cc->begin())  {
-			it_previous = cc->end();
+		std::vector<Edge>::iterator it_previous = it;
+		if (it == circuit.begin())  {
+			it_previous = circuit.end();
 		}
 		it_previous--;
 		Edge current = *it;
diff --git a/src/libkiter/generators/RandomGenerator.cpp b/src/libkiter/generators/RandomGenerator.cpp
index 790602d..681a198 100644
--- a/src/libkiter/generators/RandomGenerator.cpp
+++ b/src/libkiter/generators/RandomGenerator.cpp
@@ -9,6 +9,7 @@
 #include "RandomGenerator.h"
 #include <algorithms/schedulings.h>
 #include <algorithms/normalization.h>
+#include <algorithm>
 #include <random>
 
 models::Dataflow*  generators::generate_random_sdf(parameters_list_t   param_list) {
@@ -55,7 +56,10 @@ static bool set_initial_marking (models::Dataflow * dataflow) {
 		if (scheduling_result.getGraphThroughput() <= 0) {
 			critical_circuit_t critical_edges = scheduling_result.getCriticalEdges();
 			VERBOSE_ASSERT(critical_edges.size(), "Scheduling does not provide a valid result");
-			Edge e = *critical_edges.begin();
+			// The set is sorted by address, pick by id so that a seed always gives the same graph
+			Edge e = *std::min_element(critical_edges.begin(), critical_edges.end(), [dataflow] (const Edge& a, const Edge& b) {
+				return dataflow->getEdgeId(a) < dataflow->getEdgeId(b);
+			});
 			TOKEN_UNIT current_size = dataflow->getPreload(e);
 			dataflow->reset_computation();
 			dataflow->setPreload(e, current_size + dataflow->getFineGCD(e)) ;
-- 
2.43.0


From d4855893b17dd8f3b4fe36a74d47922676529cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:49 +0000
Subject: [PATCH 26/37] fix: rounding hid deadlocks from the random generator

---
 src/libkiter/generators/RandomGenerator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libkiter/generators/RandomGenerator.cpp b/src/libkiter/generators/RandomGenerator.cpp
index 681a198..e6889f8 100644
--- a/src/libkiter/generators/RandomGenerator.cpp
+++ b/src/libkiter/generators/RandomGenerator.cpp
@@ -53,7 +53,8 @@ static bool set_initial_marking (models::Dataflow * dataflow) {
 		models::Scheduling scheduling_result = algorithms::scheduling::CSDF_KPeriodicScheduling(dataflow);
 		VERBOSE_INFO("Period = " << scheduling_result.getGraphPeriod());
 
-		if (scheduling_result.getGraphThroughput() <= 0) {
+		// a deadlock may give a tiny positive throughput because of roundings
+		if (scheduling_result.getGraphThroughput() <= 1e-15) {
 			critical_circuit_t critical_edges = scheduling_result.getCriticalEdges();
 			VERBOSE_ASSERT(critical_edges.size(), "Scheduling does not provide a valid result");
 			// The set is sorted by address, pick by id so that a seed always gives the same graph
-- 
2.43.0


From 233ea4d0ca0e7a4a506daa29a068a9eb02fd88b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:49 +0000
Subject: [PATCH 27/37] fix: number format set by an algorithm leaked to the
 next ones of the command line

---
 src/kiter/main.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kiter/main.cpp b/src/kiter/main.cpp
index 8fc7607..5a29849 100644
--- a/src/kiter/main.cpp
+++ b/src/kiter/main.cpp
@@ -164,6 +164,7 @@ int main (int argc, char **argv)
 			VERBOSE_INFO ("Run " << transformation->name);
 			tock();
 			(*it).second.insert(parameters.begin(),parameters.end());
+			std::cout.copyfmt(std::ios(nullptr)); // the number format set by an algorithm must not apply to the next one
 			transformation->fun(csdf,(*it).second);
 			double duration = tock();
 			VERBOSE_INFO (transformation->name << " duration=" << duration);
-- 
2.43.0


From db6f1603fec24cc4e9216a779e7428c017c9a56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:49 +0000
Subject: [PATCH 28/37] fix: PrintKiter rounded durations and its function did
 not return the graph

---
 src/libkiter/printers/stdout.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/libkiter/printers/stdout.cpp b/src/libkiter/printers/stdout.cpp
index 94428d7..416db3b 100644
--- a/src/libkiter/printers/stdout.cpp
+++ b/src/libkiter/printers/stdout.cpp
@@ -10,6 +10,16 @@
 #include <commons/commons.h>
 #include <printers/SDF3Wrapper.h>
 
+#include <limits>
+
+// C++ literal of a duration, without loss of digits
+static std::string duration_literal (TIME_UNIT duration) {
+		std::ostringstream literal;
+		literal << std::setprecision(std::numeric_limits<TIME_UNIT>::max_digits10) << duration;
+		if (!commons::isInteger(duration)) literal << "L";
+		return literal.str();
+}
+
 std::string add_block ( std::string name , TIME_UNIT start, TIME_UNIT duration, double node_height,  double current_task_y_pos, double line_width =  0.1 , bool fill = false) {
 		std::ostringstream returnStream;
 		returnStream<< "\"" << name << 0  << "\""
@@ -151,7 +161,7 @@ std::string  printers::generate_kiter (const models::Dataflow* const  dataflow,
 		  std::string init_duration_string = "";
 		  for (PHASE_INDEX phase = 1 ; phase <= init_phase_count ; phase++) {
 			  if (phase > 1)  init_duration_string += ",";
-			  init_duration_string += commons::toString<TIME_UNIT>(dataflow->getVertexInitDuration(t,phase));
+			  init_duration_string += duration_literal(dataflow->getVertexInitDuration(t,phase));
 		  }
 		  init_duration_string = "{" + init_duration_string + "}";
 		  returnStream << " new_graph->setVertexInitDuration(new_vertex," << init_duration_string << ");" << std::endl;
@@ -159,7 +169,7 @@ std::string  printers::generate_kiter (const models::Dataflow* const  dataflow,
 		  std::string duration_string = "";
 		  for (PHASE_INDEX phase = 1 ; phase <= phase_count ; phase++) {
 			  if (phase > 1)  duration_string += ",";
-			  duration_string += commons::toString<TIME_UNIT>(dataflow->getVertexDuration(t,phase));
+			  duration_string += duration_literal(dataflow->getVertexDuration(t,phase));
 		  }
 		  duration_string = "{" + duration_string + "}";
 
@@ -243,7 +253,7 @@ std::string  printers::generate_kiter (const models::Dataflow* const  dataflow,
 		  returnStream << "}" << std::endl;
 
 	    }}
-	  returnStream << std::endl;
+	  returnStream << "return new_graph;" << std::endl;
 	  returnStream << "}"   << std::endl;
 	  return returnStream.str();
 
-- 
2.43.0


From 0fabb9913cff8d36d143d8fab705bb6e00061893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:43 +0000
Subject: [PATCH 29/37] fix: communication model lost the production rate of
 channels without a route

---
 src/libkiter/algorithms/mapping/modelCommunications.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libkiter/algorithms/mapping/modelCommunications.cpp b/src/libkiter/algorithms/mapping/modelCommunications.cpp
index 1c731d3..0847fa2 100644
--- a/src/libkiter/algorithms/mapping/modelCommunications.cpp
+++ b/src/libkiter/algorithms/mapping/modelCommunications.cpp
@@ -159,7 +159,7 @@ static std::vector<Vertex> addPathNode(models::Dataflow* d, Edge c, route_t list
 	auto e2 = d->addEdge(source_vtx, target_vtx);
 	d->setEdgeName(e2, "final_" + commons::toString(d->getEdgeId(e2)));
 	d->setEdgeOutPhases(e2,{outrate});
-	d->setEdgeInPhases(e2,{1});
+	d->setEdgeInPhases(e2,{flag ? inrate : 1}); // without any link the source writes to the final buffer itself
 	d->setPreload(e2,preload);  // preload is M0
 	return new_vertices;
 }
-- 
2.43.0


From 161d87e158ea67460b166b7794e0b5d83f3af1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:43 +0000
Subject: [PATCH 30/37] fix: TDMA schedules computed wrong distances on
 non-square meshes

---
 src/libkiter/algorithms/scheduling/TDMAScheduler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libkiter/algorithms/scheduling/TDMAScheduler.cpp b/src/libkiter/algorithms/scheduling/TDMAScheduler.cpp
index 84ebc06..f67ea83 100644
--- a/src/libkiter/algorithms/scheduling/TDMAScheduler.cpp
+++ b/src/libkiter/algorithms/scheduling/TDMAScheduler.cpp
@@ -19,8 +19,8 @@
 
 	long getDistance(long src, long des, long rows, long cols)
 	{
-		long s_r = src / rows, s_c = src % cols;
-		long d_r = des / rows, d_c = des % cols;
+		long s_r = src / cols, s_c = src % cols;
+		long d_r = des / cols, d_c = des % cols;
 
 		return abs(s_r-d_r) + abs(s_c-d_c) + 1;
 	}
-- 
2.43.0


From d96a21a67667c6669becfab5ce0808c351f8dd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:43 +0000
Subject: [PATCH 31/37] fix: untimed execution looped on deadlocks, mixed
 phases, and never ended traces with some packet sizes

---
 .../algorithms/symbolic_execution.cpp         | 26 +++++++++++++------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/libkiter/algorithms/symbolic_execution.cpp b/src/libkiter/algorithms/symbolic_execution.cpp
index 720d7a3..a813b38 100644
--- a/src/libkiter/algorithms/symbolic_execution.cpp
+++ b/src/libkiter/algorithms/symbolic_execution.cpp
@@ -113,6 +113,8 @@ void algorithms::symbolic_execution_with_packets (models::Dataflow* const graph,
 
 	while (total > 0) {
 
+		const EXEC_COUNT total_before = total;
+
 		for (Vertex t : graph->vertices()) {
 
 			ARRAY_INDEX vId = graph->getVertexId(t);
@@ -164,21 +166,21 @@ void algorithms::symbolic_execution_with_packets (models::Dataflow* const graph,
 
 
 						TOKEN_UNIT datatotransfert = graph->getEdgeIn(outE);
-						if (psize == 0) psize = datatotransfert;
+						const TOKEN_UNIT packet_size = (psize == 0) ? datatotransfert : psize;
 
-						VERBOSE_DEBUG(" - Produce " << datatotransfert << " by packet of " << psize);
+						VERBOSE_DEBUG(" - Produce " << datatotransfert << " by packet of " << packet_size);
 
 
 						ARRAY_INDEX previous = compute_pid;
 
-						while (datatotransfert) {
+						while (datatotransfert > 0) {
 							packet_ids[outE] = packet_count++;
 							ARRAY_INDEX pid = packet_ids[outE] ;
 							std::vector <ARRAY_INDEX> subdeps = deps ;
 							subdeps.push_back(previous);
 							print_packet_line ( src,  dst,  0,  pid, subdeps ) ;
 							previous = pid;
-							datatotransfert -= psize;
+							datatotransfert -= packet_size;
 						}
 					}}
 
@@ -187,6 +189,8 @@ void algorithms::symbolic_execution_with_packets (models::Dataflow* const graph,
 
 		}
 
+		VERBOSE_ASSERT(total < total_before, "Symbolic execution failed, the graph deadlocks.");
+
 	}
 
     VERBOSE_INFO("End of symbolic execution.");
@@ -201,9 +205,11 @@ bool algorithms::symbolic_execution (models::Dataflow* const from) {
 	// Store task to execute by number of execution.
 	EXEC_COUNT total = 0 ;
 	std::vector < EXEC_COUNT >  remained_execution (from->getMaxVertexId());
+	std::vector < PHASE_INDEX > next_phase (from->getMaxVertexId());
 	{ForEachVertex(from,t) {
-		EXEC_COUNT Ni =  from->getNi(t) ;
+		EXEC_COUNT Ni =  from->getNi(t) + from->getInitPhasesQuantity(t) ;
 		remained_execution[from->getVertexId(t)] = Ni ;
+		next_phase[from->getVertexId(t)] = 1 - from->getInitPhasesQuantity(t) ;
 		total += Ni ;
 	}}
 
@@ -217,15 +223,17 @@ bool algorithms::symbolic_execution (models::Dataflow* const from) {
 	// Loop over to execute everyone. Unoptimized, could be much faster if tasks were stacked, and sum of dependences stored.
     // This does not model timings, useless for throughput
 	while (total > 0) {
+		const EXEC_COUNT total_before = total;
 		{ForEachVertex(from,t) {
 			ARRAY_INDEX vId = from->getVertexId(t);
+			const PHASE_INDEX phase = next_phase[vId];
 			bool can_execute = false;
 			if ( remained_execution [vId] > 0) {
 				can_execute = true;
 				//VERBOSE_DEBUG("Need to execute " << vId);
 				{ForInputEdges(from,t,inE)	{
 					TOKEN_UNIT inCount  = buffer_content[from->getEdgeId(inE)];
-					TOKEN_UNIT reqCount = from->getEdgeOut(inE);
+					TOKEN_UNIT reqCount = from->getEdgeOutPhase(inE, phase);
 					if (!(inCount >= reqCount)) {
 						can_execute = false;
 						//VERBOSE_DEBUG("Cannot execute " << vId);
@@ -237,19 +245,21 @@ bool algorithms::symbolic_execution (models::Dataflow* const from) {
 					VERBOSE_DEBUG("Execute " << vId);
 					remained_execution[from->getVertexId(t)] -= 1 ;
 					total -= 1;
+					next_phase[vId] = phase < from->getPhasesQuantity(t) ? phase + 1 : 1;
 
 					{ForInputEdges(from,t,inE)	{
-						buffer_content[from->getEdgeId(inE)] -= from->getEdgeOut(inE);
+						buffer_content[from->getEdgeId(inE)] -= from->getEdgeOutPhase(inE, phase);
 					}}
 
 					{ForOutputEdges(from,t,outE)	{
-						buffer_content[from->getEdgeId(outE)] += from->getEdgeIn(outE);
+						buffer_content[from->getEdgeId(outE)] += from->getEdgeInPhase(outE, phase);
 					}}
 
 				}
 			}
 
 		}}
+		if (total == total_before) break; // nothing can be executed anymore
 	}
 
     VERBOSE_INFO("End of symbolic execution.");
-- 
2.43.0


From 92cbd5183cc6a58d44f71740bcaf917bdbb5e900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:47 +0000
Subject: [PATCH 32/37] fix: self-timed execution recognises recurrent states
 despite the rounding of fractional durations

---
 src/libkiter/algorithms/throughput/state.cpp | 29 ++++++++++++++++++--
 src/libkiter/algorithms/throughput/state.h   |  1 +
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/libkiter/algorithms/throughput/state.cpp b/src/libkiter/algorithms/throughput/state.cpp
index 51b3ab1..7c28679 100644
--- a/src/libkiter/algorithms/throughput/state.cpp
+++ b/src/libkiter/algorithms/throughput/state.cpp
@@ -8,6 +8,21 @@
 #include "state.h"
 #include <models/Dataflow.h>
 #include <algorithm>
+#include <cmath>
+
+// Durations may be fractional (e.g. 0.1): the remaining execution times are then subject to
+// rounding errors, which are much smaller than these fractions of the longest phase duration.
+static const TIME_UNIT NO_TIME_LEFT = 1e-15;
+static const TIME_UNIT SAME_TIME = 1e-12;
+
+static TIME_UNIT getLongestPhase(models::Dataflow* const dataflow) {
+  TIME_UNIT longest = 0;
+  {ForEachTask(dataflow, t) {
+      for (auto duration : dataflow->getVertexPhaseDuration(t)) longest = std::max(longest, duration);
+      for (auto duration : dataflow->getVertexInitPhaseDuration(t)) longest = std::max(longest, duration);
+    }}
+  return longest;
+}
 
 State::State()
   :executingActors(),
@@ -29,6 +44,7 @@ State::State(models::Dataflow* const dataflow,
       actors.push_back(t);
     }}
   timeElapsed = 0;
+  longestPhase = getLongestPhase(dataflow);
   isBounded = false; // if no buffer sizes specified, assume unbounded buffers
 }
 
@@ -46,6 +62,7 @@ State::State(models::Dataflow* const dataflow,
       actors.push_back(t);
     }}
   timeElapsed = 0;
+  longestPhase = getLongestPhase(dataflow);
   isBounded = true;
 }
 
@@ -62,6 +79,7 @@ State::State(models::Dataflow* const dataflow,
       actors.push_back(t);
     }}
   timeElapsed = 0;
+  longestPhase = getLongestPhase(dataflow);
   isBounded = true;
 }
 
@@ -131,6 +149,7 @@ void State::addExecution(Vertex a, std::pair<TIME_UNIT, PHASE_INDEX> newExec) {
 void State::advanceRemExecTime(Vertex a, TIME_UNIT timeStep) {
   for (auto &it : this->executingActors[a]) {
     it.first = it.first - timeStep;
+    if (it.first < this->longestPhase * NO_TIME_LEFT) it.first = 0;
   }
 }
 
@@ -203,7 +222,8 @@ bool State::hasBoundedBuffers() {
 }
 
 bool State::operator==(const State& s) const {
-  if (this->getTimeElapsed() != s.getTimeElapsed()) {
+  const TIME_UNIT sameTime = this->longestPhase * SAME_TIME;
+  if (std::abs(this->getTimeElapsed() - s.getTimeElapsed()) > sameTime) {
     return false;
   }
   for (auto it = this->actorPhases.begin(); it != this->actorPhases.end(); it++) {
@@ -217,7 +237,12 @@ bool State::operator==(const State& s) const {
     }
   }
   for (auto it = this->executingActors.begin(); it != this->executingActors.end(); it++) {
-    if (this->getRemExecTime(it->first) != s.getRemExecTime(it->first)) {
+    const auto remTime = this->getRemExecTime(it->first);
+    const auto otherRemTime = s.getRemExecTime(it->first);
+    if (!std::equal(remTime.begin(), remTime.end(), otherRemTime.begin(), otherRemTime.end(),
+                    [sameTime] (const std::pair<TIME_UNIT, PHASE_INDEX> &a, const std::pair<TIME_UNIT, PHASE_INDEX> &b) {
+                      return std::abs(a.first - b.first) <= sameTime && a.second == b.second;
+                    })) {
       return false;
     }
   }
diff --git a/src/libkiter/algorithms/throughput/state.h b/src/libkiter/algorithms/throughput/state.h
index 5ceb648..70ec7e5 100644
--- a/src/libkiter/algorithms/throughput/state.h
+++ b/src/libkiter/algorithms/throughput/state.h
@@ -61,6 +61,7 @@ class State {
   std::map<Edge, TOKEN_UNIT> bufferSpaces; // track how many more tokens can be stored for each channel
   std::vector<Vertex> actors; // store actors in state
   TIME_UNIT timeElapsed; // track time elapsed given state
+  TIME_UNIT longestPhase{0}; // scale of the rounding errors made when durations are not integers
   bool isBounded; // whether the graph is modelled with bounded buffers --- needs to be used when computing storage dependencies for throughput-buffersizing tradeoff analysis
 
 };
-- 
2.43.0


From ead09792d07190165f810fa21e5cf669bc3ca5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:40 +0000
Subject: [PATCH 33/37] fix: schedule charts crashed on zero durations and
 overlaps, and drifted on fractional start times

---
 src/libkiter/models/Scheduling.cpp | 111 +++++++----------------------
 1 file changed, 27 insertions(+), 84 deletions(-)

diff --git a/src/libkiter/models/Scheduling.cpp b/src/libkiter/models/Scheduling.cpp
index dadf50f..fc687e4 100644
--- a/src/libkiter/models/Scheduling.cpp
+++ b/src/libkiter/models/Scheduling.cpp
@@ -8,6 +8,8 @@
 #include "Scheduling.h"
 #include <models/Dataflow.h>
 #include <numeric>
+#include <algorithm>
+#include <cmath>
 
 void models::Scheduling::verbose_print() const {
 
@@ -53,97 +55,38 @@ std::string models::Scheduling::asText () const{
 
 std::string models::Scheduling::asASCIINewNew (int line_size) const{
 
-
+	// One character per time unit: '@' when an execution starts, '#' while one is running.
 	std::ostringstream returnStream;
-	int idx = 0;
 
 	for (auto item : this->getTaskSchedule()) {
 		ARRAY_INDEX tid = item.first;
 		Vertex v = _dataflow->getVertexById(item.first);
-		std::vector<TIME_UNIT> &starts = item.second.initial_starts;// initial starts
-		std::vector<TIME_UNIT> &pedstarts = item.second.periodic_starts.second; //periodic starts
-		TIME_UNIT period = item.second.periodic_starts.first;
-		std::string start_str;
-		std::string period_str;
-		TIME_UNIT prev = -1;
-		std::vector<TIME_UNIT> phases = _dataflow->getVertexPhaseDuration(v);
-		int phase_count = phases.size();
-
-		std::string line = "";
-		int linesize = line_size;
-		// add to string 1) initial starts 2) trailing spaces (before periodic starts)
-		int exec_idx = 0;
-		for (TIME_UNIT i: starts) {
-			std::string add_space(i-prev-1, ' ');
-			start_str += add_space;
-			std::string exec(phases[exec_idx % phase_count]-1, '#');
-			start_str += '@';
-			start_str += exec;
-			prev = i+exec.size();
-			++exec_idx;
-		}
-		std::string leading_space(pedstarts[0]-prev-1, ' ');
-		start_str += leading_space; 
-		if (start_str.length() <= linesize) {
-			line += start_str;
-			linesize -= start_str.length();
-		}
-		else {
-			line += (start_str.substr(0,linesize));
-			linesize = 0;
-		}
-
-		// create period string without leading spaces so to use for both first and subsequent periods
-		if (!pedstarts.empty()){
-			prev = pedstarts[0]-1;
-			for (TIME_UNIT i: pedstarts) {
-				std::string add_space(i-prev-1, ' ');
-				period_str += add_space;
-				std::string exec(phases[exec_idx % phase_count]-1, '#');
-				period_str += '@';
-				period_str += exec;
-				prev = i+exec.size();
-				++exec_idx ;
-			}
-			// add trailing spaces after period starts (before next period)
-			std::string trailing_space((period+pedstarts[0])-prev-1, ' ');
-			period_str += trailing_space;
-			// need to complete the period for all phases (by looking ahead)
-			if(phase_count > pedstarts.size()){
-				prev = pedstarts[0]-1;
-				int phase_idx = 0;
-				while (exec_idx % phase_count != 0){
-					TIME_UNIT i = pedstarts[phase_idx % pedstarts.size()];
-					std::string exec(phases[exec_idx % phase_count]-1, '#');
-					period_str += '@';
-					period_str += exec;
-					if (i == pedstarts.back()){
-						std::string trailing_space((period+pedstarts[0])-(i+exec.size())-1, ' ');
-						period_str += trailing_space;
-					} else {
-						std::string add_space(pedstarts[phase_idx % pedstarts.size()]-i, ' ');
-						period_str += add_space;
-					}
-					
-					prev = i+exec.size();
-					++phase_idx;
-					++exec_idx;
-				}
-			}
-			// continuously add period_str to line
-			while (linesize > 0){
-				if (linesize >= period_str.length()){
-					line += period_str;
-					linesize -= period_str.length();
-				} else {
-					line += (period_str.substr(0,linesize));
-					linesize = 0;
-				}
+		const std::vector<TIME_UNIT> &starts = item.second.initial_starts;// initial starts
+		const std::vector<TIME_UNIT> &pedstarts = item.second.periodic_starts.second; //periodic starts
+		const TIME_UNIT period = item.second.periodic_starts.first;
+		const std::vector<TIME_UNIT> phases = _dataflow->getVertexPhaseDuration(v);
+
+		std::string line (line_size > 0 ? line_size : 0, ' ');
+		size_t exec_idx = 0;
+
+		const TIME_UNIT epsilon = 1e-6; // 9.9999999 is meant to be 10
+		auto add_execution = [&] (TIME_UNIT start) {
+			const TIME_UNIT first = std::floor(start + epsilon);
+			const TIME_UNIT end = std::min(std::ceil(start + phases[exec_idx++ % phases.size()] - epsilon), (TIME_UNIT) line_size);
+			for (TIME_UNIT t = std::max(first + 1, (TIME_UNIT) 0) ; t < end ; t++)
+				if (line[(size_t) t] == ' ') line[(size_t) t] = '#';
+			if (first >= 0 and first < line_size) line[(size_t) first] = '@';
+		};
+
+		for (TIME_UNIT start : starts) add_execution(start);
+
+		if (not pedstarts.empty()) {
+			const TIME_UNIT first_start = *std::min_element(pedstarts.begin(), pedstarts.end());
+			for (EXEC_COUNT iteration = 0 ; first_start + period * iteration < line_size ; iteration++) {
+				for (TIME_UNIT start : pedstarts) add_execution(start + period * iteration);
+				if (not (period > epsilon)) break;
 			}
 		}
-		
-		linesize = line_size;
-		++idx;
 
 		returnStream << std::setw(5) << tid << " |" << line << std::endl;
 	}
-- 
2.43.0


From 71ec9ecc08eaea963694206af3f3f4ef22ea11be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:40 +0000
Subject: [PATCH 34/37] fix: partial expansion constraints had the shift with
 the wrong sign

---
 src/libkiter/algorithms/experiments/ExpansionGraph.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libkiter/algorithms/experiments/ExpansionGraph.cpp b/src/libkiter/algorithms/experiments/ExpansionGraph.cpp
index 7a5246f..7060e71 100644
--- a/src/libkiter/algorithms/experiments/ExpansionGraph.cpp
+++ b/src/libkiter/algorithms/experiments/ExpansionGraph.cpp
@@ -226,14 +226,15 @@ void ExpansionGraph::generate_E3_Edges(models::Dataflow * const dataflow , const
 
 			TOKEN_UNIT x = ai;
 			TOKEN_UNIT y = aj;
-			double shift = ((double) ( Tx * x - Ty * y ) /  (double) gcdk);
+			const TOKEN_UNIT shiftgcdk = Ty * y - Tx * x;
+			double shift = (double) shiftgcdk /  (double) gcdk;
 
 			double fxy =  (double) f0 +  (double) shift;
 			double gxy =  (double) g0 +  (double) shift;
 
 
-			const TOKEN_UNIT pibmin =  (TOKEN_UNIT)   std::ceil(fxy);
-			const TOKEN_UNIT pibmax =  (TOKEN_UNIT)  std::floor(gxy);
+			const TOKEN_UNIT pibmin =  commons::ceil(f0gcdk + shiftgcdk, gcdk) / gcdk;
+			const TOKEN_UNIT pibmax =  commons::floor(g0gcdk + shiftgcdk, gcdk) / gcdk;
 
 			std::cout << ai << ", "
 					<< aj << ", "
-- 
2.43.0


From 65e9c67291e0972c65d43044f668c7d857a35f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:40 +0000
Subject: [PATCH 35/37] fix: storage exploration aborted after another analysis
 of the same graph

---
 src/libkiter/algorithms/dse/dse.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libkiter/algorithms/dse/dse.cpp b/src/libkiter/algorithms/dse/dse.cpp
index 7cfcc21..7e57b55 100644
--- a/src/libkiter/algorithms/dse/dse.cpp
+++ b/src/libkiter/algorithms/dse/dse.cpp
@@ -93,6 +93,7 @@ void algorithms::throughput_buffering_tradeoff_dse(models::Dataflow* const dataf
 
   // create new graph with modelled bounded channel quantities
   models::Dataflow* dataflow_prime = new models::Dataflow(*dataflow);
+  dataflow_prime->reset_computation(); // make graph writeable, an analysis may have been run on the original
   // add feedback channels in new graph to model bounded channel quantities
   if (modelBoundedBuffers) {
     {ForEachEdge(dataflow, c) {
-- 
2.43.0


From 8a1a3f9f3fc8e6f06eefd40e4d63e87d44767127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:40 +0000
Subject: [PATCH 36/37] fix: storage exploration and dependency listing
 followed the addresses of the channels

---
 src/libkiter/algorithms/dse/dse.cpp                   | 11 +++++++++--
 .../algorithms/throughput/symbolic_execution.cpp      |  6 +++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/libkiter/algorithms/dse/dse.cpp b/src/libkiter/algorithms/dse/dse.cpp
index 7e57b55..cdb5ac6 100644
--- a/src/libkiter/algorithms/dse/dse.cpp
+++ b/src/libkiter/algorithms/dse/dse.cpp
@@ -6,6 +6,7 @@
  *
  */
 
+#include <algorithm>
 #include <map>
 #include <vector>
 #include <printers/stdout.h>
@@ -375,8 +376,14 @@ void algorithms::throughput_buffering_tradeoff_dse(models::Dataflow* const dataf
     VERBOSE_DSE(std::endl);
 
     // Create new storage distributions for every storage dependency found; add new storage distributions to checklist
-    for (std::set<Edge>::iterator it = (result.critical_edges).begin();
-         it != (result.critical_edges).end(); it++) {
+    // the set is sorted by address: visit the channels by id so that the result does not depend on it
+    const models::Dataflow* const exploredGraph = modelBoundedBuffers ? dataflow_prime : dataflow;
+    std::vector<Edge> dependencies(result.critical_edges.begin(), result.critical_edges.end());
+    std::sort(dependencies.begin(), dependencies.end(), [exploredGraph](const Edge &a, const Edge &b) {
+      return exploredGraph->getEdgeId(a) < exploredGraph->getEdgeId(b);
+    });
+    for (std::vector<Edge>::iterator it = dependencies.begin();
+         it != dependencies.end(); it++) {
       StorageDistribution newDist(checkDist);
       // only increase channel quantity on "modelled" channels
       if (modelBoundedBuffers) {
diff --git a/src/libkiter/algorithms/throughput/symbolic_execution.cpp b/src/libkiter/algorithms/throughput/symbolic_execution.cpp
index c5046e2..9964261 100644
--- a/src/libkiter/algorithms/throughput/symbolic_execution.cpp
+++ b/src/libkiter/algorithms/throughput/symbolic_execution.cpp
@@ -163,7 +163,11 @@ void algorithms::compute_asap_throughput_and_cycles_debug(models::Dataflow* cons
   kperiodic_result_t result = compute_asap_throughput_and_cycles(dataflow, param_list, testSD);
   TIME_UNIT thr = result.throughput;
   std::cout << "Storage dependencies found in:" << std::endl;
-  for (auto const e : result.critical_edges) {
+  std::vector<Edge> dependencies(result.critical_edges.begin(), result.critical_edges.end());
+  std::sort(dependencies.begin(), dependencies.end(), [dataflow](const Edge &a, const Edge &b) {
+    return dataflow->getEdgeId(a) < dataflow->getEdgeId(b); // the set is sorted by address
+  });
+  for (auto const e : dependencies) {
     std::cout << "\tChannel " << dataflow->getEdgeId(e) << " (name: "
               << dataflow->getEdgeName(e) << ")" << std::endl;
   }
-- 
2.43.0


From 0d3c3be7006e9d4fb07b6f8391a61606ba4b216f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:35 +0000
Subject: [PATCH 37/37] fix: cycle ratio solver stopped before the optimum when
 some events have no successor

---
 src/libkiter/commons/howard_cycle_ratio.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libkiter/commons/howard_cycle_ratio.hpp b/src/libkiter/commons/howard_cycle_ratio.hpp
index 797291e..9d7ad32 100644
--- a/src/libkiter/commons/howard_cycle_ratio.hpp
+++ b/src/libkiter/commons/howard_cycle_ratio.hpp
@@ -292,7 +292,8 @@ namespace boost {
                   {
                     if (m_badv[*itr])
                       {
-                        m_dm[*itr] = m_dm[v] + m_bound - cr;
+                        // the sink loop is as good as the current bound, never better
+                        m_dm[*itr] = m_dm[v];
                       }
                     else
                       {
-- 
2.43.0

