From a930d81139f5096089e42a4346cea8e9892901ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:25 +0000
Subject: [PATCH 01/46] fix: Truncation and EliteReserved selection read the
 previous best fitness before erasing genes

---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index f22d2cc..930583f 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -56,6 +56,11 @@ class SOGASelector<SelectMethod::Truncation> {
     using GeneIt_t = typename this_t::GeneIt_t;
 
     std::list<Gene_t>& popRef = static_cast<this_t*>(this)->_population;
+
+    // A cache to store the best fitness value in the previous generator cause the best gene may be
+    // eliminated
+    const double previousBestFitness = static_cast<this_t*>(this)->bestFitness();
+
     std::vector<GeneIt_t> sortSpace;
     sortSpace.clear();
     sortSpace.reserve((popRef.size()));
@@ -72,7 +77,7 @@ class SOGASelector<SelectMethod::Truncation> {
       sortSpace.pop_back();
     }
 
-    static_cast<this_t*>(this)->updateFailTimesAndBestGene(sortSpace.front());
+    static_cast<this_t*>(this)->updateFailTimesAndBestGene(sortSpace.front(), previousBestFitness);
   }
 
  private:
@@ -834,6 +839,10 @@ class SOGASelector<SelectMethod::EliteReserved> {
     const int popSizeAfterSelect = int(static_cast<this_t*>(this)->_option.populationSize);
     const int eliminateNum = popSizeBeforeSelect - popSizeAfterSelect;
 
+    // A cache to store the best fitness value in the previous generator cause the best gene may be
+    // eliminated
+    const double previousBestFitness = static_cast<this_t*>(this)->bestFitness();
+
     if (eliminateNum <= 0) {
       static_cast<this_t*>(this)->updateFailTimesAndBestGene(
           static_cast<this_t*>(this)->findCurrentBestGene());
@@ -902,7 +911,7 @@ class SOGASelector<SelectMethod::EliteReserved> {
 
     static_cast<this_t*>(this)->applyErasement(eliminateSpace);
     static_cast<this_t*>(this)->updateFailTimesAndBestGene(
-        static_cast<this_t*>(this)->findCurrentBestGene());
+        static_cast<this_t*>(this)->findCurrentBestGene(), previousBestFitness);
   }
 };
 
-- 
2.43.0


From 0a0a1ed562521c28569be048f28fb303a9827cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:06 +0000
Subject: [PATCH 02/46] fix: StochasticUniversal selection keeps exactly
 populationSize genes

---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index 930583f..b3b885b 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -757,8 +757,14 @@ class SOGASelector<SelectMethod::StochasticUniversal> {
     }
 
     if (fitnessSum <= 0) {  //  unlikely
-      for (auto it = eliminateSpace.begin(); it != eliminateSpace.end();) {
-        if (randD() * static_cast<this_t*>(this)->_option.populationSize <= popSizeBeforeSelect) {
+      // All fitness values are equal. Select stochastically until exactly eliminateNum candidates
+      // are left to be eliminated.
+      auto it = eliminateSpace.begin();
+      while (int(eliminateSpace.size()) > eliminateNum) {
+        if (it == eliminateSpace.end()) {
+          it = eliminateSpace.begin();
+        }
+        if (randD() * popSizeBeforeSelect <= static_cast<this_t*>(this)->_option.populationSize) {
           it = eliminateSpace.erase(it);
         } else {
           ++it;
@@ -789,7 +795,7 @@ class SOGASelector<SelectMethod::StochasticUniversal> {
       for (auto it = eliminateSpace.begin(); it != eliminateSpace.end();) {
         fitnessCounter += it->second;
 
-        if (fitnessCounter >= pointerInterval) {
+        if (fitnessCounter >= pointerInterval && int(eliminateSpace.size()) > eliminateNum) {
           fitnessCounter -= pointerInterval;
           it = eliminateSpace.erase(it);
         } else {
-- 
2.43.0


From 6ccc3e4a20df1fbaa3ff70a0b8f16d3de149948a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:43 +0000
Subject: [PATCH 03/46] fix: OpenMP loops use a chunk of at least one and the
 current thread number

---
 HeuristicFlow/src/AOS/AOSBoxed.hpp     | 5 +++--
 HeuristicFlow/src/Genetic/GABase.hpp   | 4 ++--
 HeuristicFlow/src/Genetic/NSGABase.hpp | 4 ++--
 HeuristicFlow/src/PSO/PSO4Eigen.hpp    | 5 +++--
 HeuristicFlow/src/PSO/PSO4std.hpp      | 5 +++--
 HeuristicFlow/src/PSO/PSOAbstrcat.hpp  | 6 ++++--
 6 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/HeuristicFlow/src/AOS/AOSBoxed.hpp b/HeuristicFlow/src/AOS/AOSBoxed.hpp
index a7d158c..de9b261 100644
--- a/HeuristicFlow/src/AOS/AOSBoxed.hpp
+++ b/HeuristicFlow/src/AOS/AOSBoxed.hpp
@@ -20,6 +20,7 @@ This file is part of HeuristicFlow.
 #ifndef HEU_AOSBOXED_HPP
 #define HEU_AOSBOXED_HPP
 
+#include <algorithm>
 #include <list>
 #include "../../SimpleMatrix"
 
@@ -108,8 +109,8 @@ class AOSBoxed : public AOSParameterPack<Var_t, Fitness_t, Arg_t>,
       }
       tasks.emplace_back(&i);
     }
-    static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, tasks.size() / thN)
+    const int32_t thN = threadNum();
+#pragma omp parallel for schedule(dynamic, std::max<int>(1, int(tasks.size()) / thN))
     for (int i = 0; i < tasks.size(); i++) {
       Electron_t* ptr = tasks[i];
 
diff --git a/HeuristicFlow/src/Genetic/GABase.hpp b/HeuristicFlow/src/Genetic/GABase.hpp
index 185e586..257af55 100644
--- a/HeuristicFlow/src/Genetic/GABase.hpp
+++ b/HeuristicFlow/src/Genetic/GABase.hpp
@@ -221,8 +221,8 @@ class GABase : public GAAbstract<Var_t, Fitness_t, Args_t>,
       }
       tasks.emplace_back(&i);
     }
-    static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, tasks.size() / thN)
+    const int32_t thN = threadNum();
+#pragma omp parallel for schedule(dynamic, std::max<int>(1, int(tasks.size()) / thN))
     for (int i = 0; i < int(tasks.size()); i++) {
       Gene *ptr = tasks[i];
 
diff --git a/HeuristicFlow/src/Genetic/NSGABase.hpp b/HeuristicFlow/src/Genetic/NSGABase.hpp
index 23ac246..09dbfb9 100644
--- a/HeuristicFlow/src/Genetic/NSGABase.hpp
+++ b/HeuristicFlow/src/Genetic/NSGABase.hpp
@@ -105,8 +105,8 @@ class NSGABase
   void calculateDominatedNum() noexcept {
     const size_t popSizeBefore = sortSpace.size();
 #ifdef HEU_HAS_OPENMP
-    static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, popSizeBefore / thN)
+    const int32_t thN = threadNum();
+#pragma omp parallel for schedule(dynamic, std::max<int>(1, int(popSizeBefore) / thN))
     for (int ed = 0; ed < popSizeBefore; ed++) {
       sortSpace[ed]->dominated_by_num = 0;
       for (size_t er = 0; er < popSizeBefore; er++) {
diff --git a/HeuristicFlow/src/PSO/PSO4Eigen.hpp b/HeuristicFlow/src/PSO/PSO4Eigen.hpp
index 9f4394b..01c7451 100644
--- a/HeuristicFlow/src/PSO/PSO4Eigen.hpp
+++ b/HeuristicFlow/src/PSO/PSO4Eigen.hpp
@@ -19,6 +19,7 @@ This file is part of HeuristicFlow.
 #ifndef HEU_PSO4EIGEN_HPP
 #define HEU_PSO4EIGEN_HPP
 
+#include <algorithm>
 #include <array>
 #include <vector>
 #include <tuple>
@@ -84,8 +85,8 @@ class PSO4Eigen
    */
   void __impl_updatePopulation() noexcept {
 #ifdef HEU_HAS_OPENMP
-    static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, this->_population.size() / thN)
+    const int32_t thN = threadNum();
+#pragma omp parallel for schedule(dynamic, std::max<int>(1, int(this->_population.size()) / thN))
 #endif  //  HEU_HAS_OPENMP
     for (int idx = 0; idx < (int)this->_population.size(); idx++) {
       Particle_t& i = this->_population[idx];
diff --git a/HeuristicFlow/src/PSO/PSO4std.hpp b/HeuristicFlow/src/PSO/PSO4std.hpp
index 6fe808a..b6a8ac1 100644
--- a/HeuristicFlow/src/PSO/PSO4std.hpp
+++ b/HeuristicFlow/src/PSO/PSO4std.hpp
@@ -19,6 +19,7 @@ This file is part of HeuristicFlow.
 #ifndef HEU_PSO4STD_HPP
 #define HEU_PSO4STD_HPP
 
+#include <algorithm>
 #include <array>
 #include <vector>
 #include <tuple>
@@ -93,8 +94,8 @@ class PSO4std : public internal::PSOAbstract<Var_t, double, RecordOpt, Arg_t, BS
    */
   void __impl_updatePopulation() noexcept {
 #ifdef HEU_HAS_OPENMP
-    static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, this->_population.size() / thN)
+    const int32_t thN = threadNum();
+#pragma omp parallel for schedule(dynamic, std::max<int>(1, int(this->_population.size()) / thN))
 #endif  //  HEU_HAS_OPENMP
     for (int index = 0; index < this->_population.size(); index++) {
       Particle_t& i = this->_population[index];
diff --git a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
index a7ce3a1..aefed14 100644
--- a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
+++ b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
@@ -20,6 +20,8 @@ This file is part of HeuristicFlow.
 #ifndef HEU_PSOABSTRCAT_HPP
 #define HEU_PSOABSTRCAT_HPP
 
+#include <algorithm>
+
 #ifdef HEU_DO_OUTPUT
 #include <iostream>
 #endif
@@ -286,8 +288,8 @@ Var_t _velocityMax;
    */
   void __impl_computeAllFitness() noexcept {
 #ifdef HEU_HAS_OPENMP
-    static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, _population.size() / thN)
+    const int32_t thN = threadNum();
+#pragma omp parallel for schedule(dynamic, std::max<int>(1, int(_population.size()) / thN))
     for (int i = 0; i < _population.size(); i++) {
       Particle* ptr = &_population[i];
       PSOExecutor<Base_t::HasParameters>::doFitness(this, &ptr->position, &ptr->fitness);
-- 
2.43.0


From 82fe89d20a447a2ab71f9403e0bf10f2accfc4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:54 +0000
Subject: [PATCH 04/46] fix: one thread-number setting for the whole program,
 never zero

---
 HeuristicFlow/src/Global/Threading.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/HeuristicFlow/src/Global/Threading.hpp b/HeuristicFlow/src/Global/Threading.hpp
index 83ebca3..15abd23 100644
--- a/HeuristicFlow/src/Global/Threading.hpp
+++ b/HeuristicFlow/src/Global/Threading.hpp
@@ -24,6 +24,7 @@ This file is part of HeuristicFlow.
 #include <omp.h>
 #endif  //  EIGEN_HAS_OPENMP
 
+#include <algorithm>
 #include <thread>
 
 #include <assert.h>
@@ -34,22 +35,23 @@ This file is part of HeuristicFlow.
 
 namespace heu {
 
-int threadNum() noexcept;
+inline int threadNum() noexcept;
 inline void setThreadNum(int _thN) noexcept;
 
-namespace {
+namespace internal {
 
 class thNumWrapper {
   thNumWrapper() = delete;
   friend int ::heu::threadNum() noexcept;
   friend void ::heu::setThreadNum(int) noexcept;
   static inline int& internalThreadNum() noexcept {
-    static int thNum = std::thread::hardware_concurrency();
+    // hardware_concurrency() returns 0 when the value is not computable
+    static int thNum = std::max(1, int(std::thread::hardware_concurrency()));
     return thNum;
   }
 };
 
-}  // namespace
+}  // namespace internal
 
 /**
  * \ingroup HEU_GLOBAL
@@ -58,7 +60,7 @@ class thNumWrapper {
  *
  * \return int Number of threads that will be used.
  */
-inline int threadNum() noexcept { return thNumWrapper::internalThreadNum(); }
+inline int threadNum() noexcept { return internal::thNumWrapper::internalThreadNum(); }
 
 /**
  * \ingroup HEU_GLOBAL
@@ -69,7 +71,7 @@ inline int threadNum() noexcept { return thNumWrapper::internalThreadNum(); }
  */
 inline void setThreadNum(int _thN) noexcept {
   HEU_ASSERT(_thN > 0);
-  thNumWrapper::internalThreadNum() = _thN;
+  internal::thNumWrapper::internalThreadNum() = _thN;
 }
 
 // if HEU_NO_THREADS is defined, HEU_HAS_OPENMP won't be defined, preventing following algorithms to
-- 
2.43.0


From 2ef2b9ec8ff5d5208610f8f6f55de683000f4e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:28 +0000
Subject: [PATCH 05/46] fix: PSO draws random factors outside the parallel loop

---
 HeuristicFlow/src/PSO/PSO4Eigen.hpp |  8 +++++++-
 HeuristicFlow/src/PSO/PSO4std.hpp   | 10 ++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/HeuristicFlow/src/PSO/PSO4Eigen.hpp b/HeuristicFlow/src/PSO/PSO4Eigen.hpp
index 01c7451..1c90a1d 100644
--- a/HeuristicFlow/src/PSO/PSO4Eigen.hpp
+++ b/HeuristicFlow/src/PSO/PSO4Eigen.hpp
@@ -84,13 +84,19 @@ class PSO4Eigen
    *
    */
   void __impl_updatePopulation() noexcept {
+    // the global random engine is shared, so random factors are drawn before the parallel loop
+    std::vector<std::array<Scalar_t, 2>> factors(this->_population.size());
+    for (auto& f : factors) {
+      f[0] = randD();
+      f[1] = randD();
+    }
 #ifdef HEU_HAS_OPENMP
     const int32_t thN = threadNum();
 #pragma omp parallel for schedule(dynamic, std::max<int>(1, int(this->_population.size()) / thN))
 #endif  //  HEU_HAS_OPENMP
     for (int idx = 0; idx < (int)this->_population.size(); idx++) {
       Particle_t& i = this->_population[idx];
-      const Scalar_t lFP = randD(), lFG = randD();
+      const Scalar_t lFP = factors[idx][0], lFG = factors[idx][1];
       i.velocity = this->_option.inertiaFactor * i.velocity +
                    this->_option.learnFactorP * lFP * (i.pBest.position - i.position) +
                    this->_option.learnFactorG * lFG * (this->gBest.position - i.position);
diff --git a/HeuristicFlow/src/PSO/PSO4std.hpp b/HeuristicFlow/src/PSO/PSO4std.hpp
index b6a8ac1..d21bf41 100644
--- a/HeuristicFlow/src/PSO/PSO4std.hpp
+++ b/HeuristicFlow/src/PSO/PSO4std.hpp
@@ -93,14 +93,20 @@ class PSO4std : public internal::PSOAbstract<Var_t, double, RecordOpt, Arg_t, BS
    *
    */
   void __impl_updatePopulation() noexcept {
+    // the global random engine is shared, so random factors are drawn before the parallel loop
+    std::vector<std::array<double, 2>> factors(this->_population.size());
+    for (auto& f : factors) {
+      f[0] = randD();
+      f[1] = randD();
+    }
 #ifdef HEU_HAS_OPENMP
     const int32_t thN = threadNum();
 #pragma omp parallel for schedule(dynamic, std::max<int>(1, int(this->_population.size()) / thN))
 #endif  //  HEU_HAS_OPENMP
     for (int index = 0; index < this->_population.size(); index++) {
       Particle_t& i = this->_population[index];
-      const double rndP = randD();
-      const double rndG = randD();
+      const double rndP = factors[index][0];
+      const double rndG = factors[index][1];
       for (int idx = 0; idx < this->dimensions(); idx++) {
         i.velocity[idx] =
             this->_option.inertiaFactor * i.velocity[idx] +
-- 
2.43.0


From 722f55bb5c2d670a178fb7917be37daaec60ee4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:47 +0000
Subject: [PATCH 06/46] fix: PSO on std containers clamps through the box like
 PSO on Eigen types

---
 HeuristicFlow/src/PSO/PSO4std.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/HeuristicFlow/src/PSO/PSO4std.hpp b/HeuristicFlow/src/PSO/PSO4std.hpp
index d21bf41..db7132e 100644
--- a/HeuristicFlow/src/PSO/PSO4std.hpp
+++ b/HeuristicFlow/src/PSO/PSO4std.hpp
@@ -112,13 +112,12 @@ class PSO4std : public internal::PSOAbstract<Var_t, double, RecordOpt, Arg_t, BS
             this->_option.inertiaFactor * i.velocity[idx] +
             this->_option.learnFactorP * rndP * (i.pBest.position[idx] - i.position[idx]) +
             this->_option.learnFactorG * rndG * (this->gBest.position[idx] - i.position[idx]);
-        if (std::abs(i.velocity[idx]) > this->_velocityMax[idx]) {
-          i.velocity[idx] = sign(i.velocity[idx]) * this->_velocityMax[idx];
-        }
+      }
+      this->applyConstraint4Velocity(&i.velocity);
+      for (int idx = 0; idx < this->dimensions(); idx++) {
         i.position[idx] += i.velocity[idx];
-        i.position[idx] = std::max(i.position[idx], this->_posMin[idx]);
-        i.position[idx] = std::min(i.position[idx], this->_posMax[idx]);
       }
+      this->applyConstraint4Position(&i.position);
     }
   }
 
-- 
2.43.0


From 187779606f2ebfb759ecde2f010cfe59d262ce04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:47 +0000
Subject: [PATCH 07/46] fix: rectangular PSO boxes name existing members

---
 HeuristicFlow/src/PSO/BoxWithVelocity.hpp | 24 +++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/HeuristicFlow/src/PSO/BoxWithVelocity.hpp b/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
index e1c6100..bd7c192 100644
--- a/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
+++ b/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
@@ -107,7 +107,7 @@ class NonsquareBox4PSO {
   inline Scalar_t posMax(const int idx) const noexcept { return at(_posMaxV, idx); }
 
   inline void setRange(const Var_t& _min, const Var_t& _max) noexcept {
-    if constexpr (!array_traits<Var_t>::isSizeFixed) {
+    if constexpr (!array_traits<Var_t>::isFixedSize) {
       assert(_min.size() == _max.size());
     }
 
@@ -234,8 +234,8 @@ class NonSquareBoxDynamicDimResizer4Vec4PSO : public NonsquareBox4PSO<Var_t> {
       if (this->posMax().size() != __d) {
         this->posMax().resize(__d);
       }
-      if (this->velocityMax().size() != __d) {
-        this->velocityMax().resize(__d);
+      if (this->maxVelocity().size() != __d) {
+        this->maxVelocity().resize(__d);
       }
     } else if constexpr (array_traits<Var_t>::isColVector) {
       if (this->posMin().size() != __d) {
@@ -244,8 +244,8 @@ class NonSquareBoxDynamicDimResizer4Vec4PSO : public NonsquareBox4PSO<Var_t> {
       if (this->posMax().size() != __d) {
         this->posMax().resize(__d, 1);
       }
-      if (this->velocityMax().size() != __d) {
-        this->velocityMax().resize(__d, 1);
+      if (this->maxVelocity().size() != __d) {
+        this->maxVelocity().resize(__d, 1);
       }
     } else {
       if (this->posMin().size() != __d) {
@@ -254,8 +254,8 @@ class NonSquareBoxDynamicDimResizer4Vec4PSO : public NonsquareBox4PSO<Var_t> {
       if (this->posMax().size() != __d) {
         this->posMax().resize(1, __d);
       }
-      if (this->velocityMax().size() != __d) {
-        this->velocityMax().resize(1, __d);
+      if (this->maxVelocity().size() != __d) {
+        this->maxVelocity().resize(1, __d);
       }
     }
   }
@@ -267,11 +267,11 @@ class NonSquareBoxDynamicDimResizer4Mat4PSO : public NonsquareBox4PSO<Var_t> {
   inline void assert4Size() const noexcept {
     assert(this->posMin().rows() == this->posMax().rows());
 
-    assert(this->posMax().rows() == this->velocityMax().rows());
+    assert(this->posMax().rows() == this->maxVelocity().rows());
 
     assert(this->posMin().cols() == this->posMax().cols());
 
-    assert(this->posMax().cols() == this->velocityMax().cols());
+    assert(this->posMax().cols() == this->maxVelocity().cols());
   }
 
  public:
@@ -299,8 +299,8 @@ class NonSquareBoxDynamicDimResizer4Mat4PSO : public NonsquareBox4PSO<Var_t> {
       this->posMax().resize(_r, _c);
     }
 
-    if (this->velocityMax().rows() != _r || this->velocityMax().cols() != _c) {
-      this->velocityMax().resize(_r, _c);
+    if (this->maxVelocity().rows() != _r || this->maxVelocity().cols() != _c) {
+      this->maxVelocity().resize(_r, _c);
     }
   }
 };
@@ -314,7 +314,7 @@ class NonSquareBoxDynamicDim4PSO
   static_assert(!array_traits<Var_t>::isFixedSize);
   inline int dimensions() const noexcept {
     assert(this->posMin().size() == this->posMax().size());
-    assert(this->posMax().size() == this->velocityMax().size());
+    assert(this->posMax().size() == this->maxVelocity().size());
 
     return this->posMin().size();
   }
-- 
2.43.0


From b9e400f1ddcdcf3eb331eda340f24fc649cb870c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:47 +0000
Subject: [PATCH 08/46] fix: square PSO box reports its upper bound per
 dimension

---
 HeuristicFlow/src/PSO/BoxWithVelocity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/PSO/BoxWithVelocity.hpp b/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
index bd7c192..41c284b 100644
--- a/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
+++ b/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
@@ -44,7 +44,7 @@ class SquareBox4PSO {
 
   inline Scalar_t posMin(const int) const noexcept { return _posMinS; }
 
-  inline Scalar_t posMax(const int) const noexcept { return _posMinS; }
+  inline Scalar_t posMax(const int) const noexcept { return _posMaxS; }
 
   inline void setRange(const Scalar_t min, const Scalar_t max) noexcept {
     assert(min < max);
-- 
2.43.0


From 933ea8a478afa61dcdab82323160f6decad4454c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:16 +0000
Subject: [PATCH 09/46] fix: HeuristicFlow/Genetic compiles on its own

---
 HeuristicFlow/src/Genetic/GAOption.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/HeuristicFlow/src/Genetic/GAOption.hpp b/HeuristicFlow/src/Genetic/GAOption.hpp
index ea74421..39cbf49 100644
--- a/HeuristicFlow/src/Genetic/GAOption.hpp
+++ b/HeuristicFlow/src/Genetic/GAOption.hpp
@@ -22,6 +22,8 @@ This file is part of HeuristicFlow.
 
 #include <stdint.h>
 
+#include <cstddef>
+
 #include "InternalHeaderCheck.h"
 
 namespace heu {
-- 
2.43.0


From 4fbaf7a2b2ed62065200feb6b7d6d3a7d25dfd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:16 +0000
Subject: [PATCH 10/46] fix: AOS computes fitness without OpenMP

---
 HeuristicFlow/src/AOS/AOSBoxed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/AOS/AOSBoxed.hpp b/HeuristicFlow/src/AOS/AOSBoxed.hpp
index de9b261..fb5a475 100644
--- a/HeuristicFlow/src/AOS/AOSBoxed.hpp
+++ b/HeuristicFlow/src/AOS/AOSBoxed.hpp
@@ -124,7 +124,7 @@ class AOSBoxed : public AOSParameterPack<Var_t, Fitness_t, Arg_t>,
         continue;
       }
 
-      AOSExecutor<>::doFitness(this, &i.self, &i._Fitness);
+      AOSExecutor<>::doFitness(this, &i.state, &i.energy);
 
       i.isComputed = true;
     }
-- 
2.43.0


From f2bf916a1d4141f67233ac4cb30c1c1c4445bc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 11/46] fix: default PSO initialisation accepts matrix
 variables

---
 HeuristicFlow/src/PSO/PSOAbstrcat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
index aefed14..59345cd 100644
--- a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
+++ b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
@@ -330,7 +330,7 @@ Var_t _velocityMax;
         at(*pos, idx) = randD(s->posMin(), s->posMax());
 
       } else {
-        at(*pos, idx) = randD(s->posMin()[idx], s->posMax()[idx]);
+        at(*pos, idx) = randD(s->posMin(idx), s->posMax(idx));
       }
     }
   }
-- 
2.43.0


From dcce3916803912025bd8509a5d89c41ba6d612f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:57 +0000
Subject: [PATCH 12/46] fix: setDelta of rectangular continuous boxes accepts
 matrix variables

---
 HeuristicFlow/src/EAGlobal/BoxConstraint.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
index 551445a..e7a9e5c 100644
--- a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
+++ b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
@@ -539,8 +539,8 @@ class NonSquareBoxDeltaCore {
   inline Scalar_t delta(const int idx) const noexcept { return at(_deltaV, idx); }
 
   inline void setDelta(const Var_t& __delta) noexcept {
-    for (Scalar_t deltaElement : __delta) {
-      assert(deltaElement > 0);
+    for (int idx = 0; idx < int(__delta.size()); idx++) {
+      assert(at(__delta, idx) > 0);
     }
     _deltaV = __delta;
   }
-- 
2.43.0


From de17e413a4fe7072b3d05dcf3455c5f21d64bae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:57 +0000
Subject: [PATCH 13/46] fix: setDimensions of rectangular boxes of dynamic
 vectors compiles

---
 HeuristicFlow/src/EAGlobal/BoxConstraint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
index e7a9e5c..eb1dd77 100644
--- a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
+++ b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
@@ -308,7 +308,7 @@ class NonSquareBoxDynamicDimVec : public BoxBase<NonSquareBoxDynamicDimVec<Var>,
     return int(this->min().size());
   }
 
-  inline void setDimensions(const int dim) const noexcept {
+  inline void setDimensions(const int dim) noexcept {
     assert(dim > 0);
     this->min().resize(dim);
     this->max().resize(dim);
-- 
2.43.0


From f763cf56088844f223873a8b8df532602775e59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:09 +0000
Subject: [PATCH 14/46] fix: fixed continuous boxes mutate by their delta, not
 by one

---
 HeuristicFlow/src/EAGlobal/BoxConstraint.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
index eb1dd77..fda1929 100644
--- a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
+++ b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
@@ -645,6 +645,16 @@ class FixedContinousBox20 : public FixedDiscreteBox<Var, _minCT, _maxCT> {
   using Var_t = Var;
   using Scalar_t = typename array_traits<Var>::Scalar_t;
   inline constexpr Scalar_t delta(const int = 0) const noexcept { return _deltaCT; }
+
+  inline void applyDelta(Var_t* v) const noexcept {
+    assert(v->size() == this->dimensions());
+    const int idx = randIdx(this->dimensions());
+
+    at(*v, idx) += Scalar_t(randD(-1, 1)) * this->delta(idx);
+
+    at(*v, idx) = std::min(at(*v, idx), this->max(idx));
+    at(*v, idx) = std::max(at(*v, idx), this->min(idx));
+  }
 };
 
 #endif
@@ -661,6 +671,16 @@ class FixedContinousBox17 : public FixedDiscreteBox17<Var, _minCode, _maxCode> {
   static_assert(_deltaCT > 0);
 
   inline constexpr Scalar_t delta(const int = 0) const noexcept { return _deltaCT; }
+
+  inline void applyDelta(Var_t* v) const noexcept {
+    assert(v->size() == this->dimensions());
+    const int idx = randIdx(this->dimensions());
+
+    at(*v, idx) += Scalar_t(randD(-1, 1)) * this->delta(idx);
+
+    at(*v, idx) = std::min(at(*v, idx), this->max(idx));
+    at(*v, idx) = std::max(at(*v, idx), this->min(idx));
+  }
 };
 
 namespace {
-- 
2.43.0


From a8e0e8b220030dc47fb83d285c2a3e2f31fbc2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:20 +0000
Subject: [PATCH 15/46] fix: AOS on Eigen types finds the best electron of a
 layer by energy, not by address

---
 HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp b/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
index 099c765..77587a9 100644
--- a/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
+++ b/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
@@ -78,11 +78,11 @@ class AOS4Eigen : public AOSBoxed<Var_t, Fitness_t, Arg_t, Box_t, _iFun_, _fFun_
         layer.bindingState += layer.at(idx)->state;
         layer.bindingEnergy += layer.at(idx)->energy;
         if constexpr (fOpt == FitnessOption::FITNESS_LESS_BETTER) {
-          if (layer.at(idx) < layer.at(layer.layerBestIdx)) {
+          if (layer.at(idx)->energy < layer.layerBestEnergy()) {
             layer.layerBestIdx = idx;
           }
         } else {
-          if (layer.at(idx) > layer.at(layer.layerBestIdx)) {
+          if (layer.at(idx)->energy > layer.layerBestEnergy()) {
             layer.layerBestIdx = idx;
           }
         }
-- 
2.43.0


From cf056d1a4dc5ccb535a0b82c46c658dde27eb477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:20 +0000
Subject: [PATCH 16/46] fix: AOS on std containers sums the binding energy over
 the whole layer

---
 HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp b/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
index 77587a9..06e9413 100644
--- a/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
+++ b/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
@@ -196,6 +196,7 @@ class AOS4Std : public AOSBoxed<Var_t, Fitness_t, Arg_t, Box_t, _iFun_, _fFun_,
         for (int varIdx = 0; varIdx < varDim; varIdx++) {
           layer.bindingState[varIdx] += layer.at(idx)->state[varIdx];
         }
+        layer.bindingEnergy += layer.at(idx)->energy;
 
         if constexpr (fOpt == FitnessOption::FITNESS_LESS_BETTER) {
           if (layer.at(idx)->energy < layer.layerBestEnergy()) {
-- 
2.43.0


From 59502640ba0566e23b0f94444a2fc3f4db0f817d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:20 +0000
Subject: [PATCH 17/46] fix: AOS keeps pointing to a living best electron when
 energies tie

---
 HeuristicFlow/src/AOS/AOS.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/HeuristicFlow/src/AOS/AOS.hpp b/HeuristicFlow/src/AOS/AOS.hpp
index 99d5ddf..249ab72 100644
--- a/HeuristicFlow/src/AOS/AOS.hpp
+++ b/HeuristicFlow/src/AOS/AOS.hpp
@@ -84,6 +84,8 @@ class AOS : public internal::AOSBase<typename Box_t::Var_t, double, Arg_t, Box_t
       this->_electrons.erase(elecSortSpace.back());
       elecSortSpace.pop_back();
     }
+    // among equally good electrons, the one it pointed to may have been removed
+    this->_atomBestPtr = &*elecSortSpace.front();
 
     this->_layers.clear();
 
-- 
2.43.0


From 17d81ea9f3715c5c123f01678a4f7db3fffa7c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:20 +0000
Subject: [PATCH 18/46] fix: AOS never fills a layer past the last one

---
 HeuristicFlow/src/AOS/AOS.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/AOS/AOS.hpp b/HeuristicFlow/src/AOS/AOS.hpp
index 249ab72..41ef086 100644
--- a/HeuristicFlow/src/AOS/AOS.hpp
+++ b/HeuristicFlow/src/AOS/AOS.hpp
@@ -123,7 +123,8 @@ class AOS : public internal::AOSBase<typename Box_t::Var_t, double, Arg_t, Box_t
     int curLayerIdx = 0;
     this->_layers.front().reserve(numOfEachLayer[0]);
     for (int countedElectrons = 0; countedElectrons < this->_electrons.size(); countedElectrons++) {
-      if (countedElectrons >= numOfEachLayer[curLayerIdx]) {
+      // rounding may leave some electrons over, they belong to the last layer
+      if (countedElectrons >= numOfEachLayer[curLayerIdx] && curLayerIdx + 1 < tempLayerNum) {
         curLayerIdx++;
         this->_layers[curLayerIdx].reserve(numOfEachLayer[curLayerIdx] -
                                            numOfEachLayer[curLayerIdx - 1]);
-- 
2.43.0


From 7fa25f3e0ac712b9e657644f4201e216543bf641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:35 +0000
Subject: [PATCH 19/46] fix: SOGA selectMethod() missing for Truncation and
 StochasticUniversal, paretoFront of pairs

---
 HeuristicFlow/src/Genetic/MOGAAbstract.hpp  |  2 +-
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Genetic/MOGAAbstract.hpp b/HeuristicFlow/src/Genetic/MOGAAbstract.hpp
index 3691f3c..7eaba3d 100644
--- a/HeuristicFlow/src/Genetic/MOGAAbstract.hpp
+++ b/HeuristicFlow/src/Genetic/MOGAAbstract.hpp
@@ -101,7 +101,7 @@ class MOGAAbstract : public GABase<Var_t, Eigen::Array<double, ObjNum, 1>, rOpt,
     front.clear();
     front.reserve(_pfGenes.size());
     for (const Gene* i : _pfGenes) {
-      front.emplace_back(std::make_pair(&(i->self), &(i->fitness)));
+      front.emplace_back(std::make_pair(&(i->decision_variable), &(i->fitness)));
     }
   }
 
diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index b3b885b..07e40d7 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -48,6 +48,11 @@ template <>
 class SOGASelector<SelectMethod::Truncation> {
   friend class SOGAInheriter<SelectMethod::Truncation>;
 
+ public:
+  inline constexpr SelectMethod selectMethod() const noexcept {
+    return SelectMethod::Truncation;
+  }
+
  protected:
   template <class this_t>
   void __impl___impl_select() noexcept {
@@ -715,6 +720,11 @@ template <>
 class SOGASelector<SelectMethod::StochasticUniversal> {
   friend class SOGAInheriter<SelectMethod::StochasticUniversal>;
 
+ public:
+  inline constexpr SelectMethod selectMethod() const noexcept {
+    return SelectMethod::StochasticUniversal;
+  }
+
  protected:
   template <class this_t>
   void __impl___impl_select() noexcept {
-- 
2.43.0


From 6bb46d75ab7749969b3a178f5eeb91fbc93b7603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:11 +0000
Subject: [PATCH 20/46] fix: solvers with a run-time number of objectives did
 not compile

---
 HeuristicFlow/src/Genetic/MOGABase.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Genetic/MOGABase.hpp b/HeuristicFlow/src/Genetic/MOGABase.hpp
index 1d60c58..fa6e644 100644
--- a/HeuristicFlow/src/Genetic/MOGABase.hpp
+++ b/HeuristicFlow/src/Genetic/MOGABase.hpp
@@ -151,7 +151,7 @@ class MOGABase<Var_t, Eigen::Dynamic, fOpt, rOpt, Gene, Args_t, _iFun_, _fFun_,
  protected:
   inline void __impl_computeAllFitness() noexcept {
     for (Gene_t& g : this->_population) {
-      if (!g.isCalculated()) {
+      if (!g.is_fitness_computed) {
         g.fitness.resize(objectiveNum(), 1);
       }
     }
-- 
2.43.0


From 5c0dc1c7838d570ba46a8ce96b3319c3f4cdd5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:56 +0000
Subject: [PATCH 21/46] fix: PSO boxes of fixed-size matrices report their rows
 and columns

---
 HeuristicFlow/src/PSO/BoxWithVelocity.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/HeuristicFlow/src/PSO/BoxWithVelocity.hpp b/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
index 41c284b..f5d1b03 100644
--- a/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
+++ b/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
@@ -171,6 +171,8 @@ class SquareBoxConstDim4PSO : public SquareBox4PSO<Var_t> {
  public:
   static_assert(array_traits<Var_t>::isFixedSize);
 
+  inline constexpr int boxRows() const noexcept { return array_traits<Var_t>::rowsCT; }
+  inline constexpr int boxCols() const noexcept { return array_traits<Var_t>::colsCT; }
   inline constexpr int dimensions() const noexcept { return array_traits<Var_t>::sizeCT; }
 };
 
@@ -219,6 +221,8 @@ template <class Var_t>
 class NonSquareBoxConstDim4PSO : public NonsquareBox4PSO<Var_t> {
  public:
   static_assert(array_traits<Var_t>::isFixedSize);
+  inline constexpr int boxRows() const noexcept { return array_traits<Var_t>::rowsCT; }
+  inline constexpr int boxCols() const noexcept { return array_traits<Var_t>::colsCT; }
   inline constexpr int dimensions() const noexcept { return array_traits<Var_t>::sizeCT; }
 };
 
-- 
2.43.0


From 3f5812279145e3e474b6e5d61016fc233369d0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:46 +0000
Subject: [PATCH 22/46] fix: default swap crossover of std containers compiles

---
 HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
index f88c615..a9bf7f6 100644
--- a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
+++ b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
@@ -49,10 +49,10 @@ struct imp_GADefaults_DVO {
     const size_t N = p1->size();
     const size_t idx = randIdx(N);
 
-    c1->topRows(idx) = p1->topRows(idx);
-    c2->topRows(idx) = p2->topRows(idx);
-    c1->bottomRows(N - idx) = p2->bottomRows(N - idx);
-    c2->bottomRows(N - idx) = p1->bottomRows(N - idx);
+    for (size_t i = 0; i < N; i++) {
+      c1->operator[](i) = (i < idx ? p1 : p2)->operator[](i);
+      c2->operator[](i) = (i < idx ? p2 : p1)->operator[](i);
+    }
   }
 };
 
-- 
2.43.0


From 75f595ffba9fd0d90f4583c3d9c964a4cb4122d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:46 +0000
Subject: [PATCH 23/46] fix: cFunRandXs uses the probability it is given

---
 HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
index a9bf7f6..359b39e 100644
--- a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
+++ b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
@@ -446,7 +446,7 @@ struct GADefaults<Var_t, void> {
    */
   template <DivCode p = DivCode::DivCode_Half>
   inline static void cFunRandXs(const Var_t *p1, const Var_t *p2, Var_t *c1, Var_t *c2) noexcept {
-    Heu_PRIVATE_IMP_cFunX cFunRandNs(p1, p2, c1, c2);
+    Heu_PRIVATE_IMP_cFunX cFunRandNs<p>(p1, p2, c1, c2);
   }
 };
 
-- 
2.43.0


From f88f423996ca4e1714a34e8b013279cfd080b3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:46 +0000
Subject: [PATCH 24/46] fix: mFun_s names members that boxes have

---
 HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
index 359b39e..0dfa3bf 100644
--- a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
+++ b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
@@ -322,8 +322,9 @@ struct GADefaults {
   requires isBoxConstraint<Args_t>
 #endif  //  #if __cplusplus >= 202002L
   inline static void mFun_s(const Var_t *src, Var_t *v, const Args_t *box) noexcept {
-    static_assert(Args_t::isBox, "Default mFun requires Args_t to be a box constriant");
-    static_assert(Args_t::Encoding == EncodeType::Symbolic, "mFun_s requires symbolic box");
+    static_assert(isBoxConstraint_v<Args_t>, "Default mFun requires Args_t to be a box constriant");
+    static_assert(std::is_integral<typename Args_t::Scalar_t>::value,
+                  "mFun_s requires symbolic box");
     static_assert(std::is_same<typename Args_t::Var_t, Var_t>::value,
                   "Box and Var_t types must be same");
 
-- 
2.43.0


From d38719a6de913a5d25e3640003f13e59ddcb8b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:39 +0000
Subject: [PATCH 25/46] fix: DiscretBox tells its shape, as box constraints
 must

---
 HeuristicFlow/src/EAGlobal/BoxConstraint.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
index fda1929..257838f 100644
--- a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
+++ b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
@@ -442,6 +442,7 @@ template <class Var, BoxShape BS = BoxShape::SQUARE_BOX>
 class DiscretBox
     : public std::conditional_t<BS == BoxShape::SQUARE_BOX, SquareBox_t<Var>, NonSquareBox_t<Var>> {
  public:
+  static constexpr BoxShape Shape = BS;
   using Var_t = Var;
   using Scalar_t = typename array_traits<Var_t>::Scalar_t;
 
-- 
2.43.0


From 744a3dbba87955bb73991df5a4963e4875b13027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:39 +0000
Subject: [PATCH 26/46] fix: Goldstein-Price with args names the function that
 exists

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index 1f40756..bed28eb 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -33,7 +33,7 @@ template <typename Var_t, class Fitness_t = double, class Arg_t = void>
 struct SOFunctions2 {
   HEU_REPEAT_FUNCTIONS(SOFunctions2, ackley)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, beale)
-  HEU_REPEAT_FUNCTIONS(SOFunctions2, GoldSteinPrice)
+  HEU_REPEAT_FUNCTIONS(SOFunctions2, GoldsteinPrice)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, booth)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, bukin)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, matyas)
-- 
2.43.0


From 2ec4fc8402b5106de9bcc0c8bace9ea516af14bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:39 +0000
Subject: [PATCH 27/46] fix: Goldstein-Price, Ackley, holder table and Schaffer
 N.2 follow their definitions

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index bed28eb..676092e 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -66,7 +66,7 @@ struct SOFunctions2<Var_t, Fitness_t, void> {
     assert4Size(_x);
     auto x = _x->operator[](0), y = _x->operator[](1);
     *f = -20 * std::exp(-0.2 * std::sqrt(0.5 * (x * x + y * y))) -
-         std::exp(0.5 * (std::cos(M_2_PI * x) + std::cos(M_2_PI * y))) + 20 + M_E;
+         std::exp(0.5 * (std::cos(2 * M_PI * x) + std::cos(2 * M_PI * y))) + 20 + M_E;
   }
 
   inline static void beale(const Var_t *_x, Fitness_t *f) noexcept {
@@ -83,7 +83,7 @@ struct SOFunctions2<Var_t, Fitness_t, void> {
     const auto part1 =
         1 + square(1 + x + y) * (19 - 14 * x + 3 * x * x - 14 * y + 6 * x * y + 3 * y * y);
     const auto part2 =
-        30 + square(2 * x - 3 * y) * (18 - 32 * x + 12 * x + 47 * y - 36 * x * y + 27 * y * y);
+        30 + square(2 * x - 3 * y) * (18 - 32 * x + 12 * x * x + 48 * y - 36 * x * y + 27 * y * y);
     *f = part1 * part2;
   }
 
@@ -170,7 +170,7 @@ struct SOFunctions2<Var_t, Fitness_t, void> {
     *f = -std::abs(std::sin(x) * std::cos(y) *
                    std::exp(
 
-                       std::abs(1 - std::sqrt(x * x - y * y) / M_PI)
+                       std::abs(1 - std::sqrt(x * x + y * y) / M_PI)
 
                            ));
   }
@@ -188,7 +188,7 @@ struct SOFunctions2<Var_t, Fitness_t, void> {
     const auto x = _x->operator[](0);
     const auto y = _x->operator[](1);
 
-    *f = 0.5 + (square(std::sin(x * x - y * y) - 0.5)) / square(1 + 0.001 * (x * x + y * y));
+    *f = 0.5 + (square(std::sin(x * x - y * y)) - 0.5) / square(1 + 0.001 * (x * x + y * y));
   }
 
   inline static void schaffer4(const Var_t *_x, Fitness_t *f) noexcept {
-- 
2.43.0


From f77141b38546f3d3278f7d72ebe002c2e622897f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:39 +0000
Subject: [PATCH 28/46] fix: Rosenbrock and Styblinski-Tang follow their
 definitions for every container

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index 676092e..5d30e25 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -239,12 +239,12 @@ struct SOFunctionsX<Var_t, Fitness_t, void> {
   inline static void rosenbrock(const Var_t *x, Fitness_t *f) noexcept {
     if constexpr (array_traits<Var_t>::isEigenClass) {
       auto square_1_minus_x_top = (1 - x->topRows(x->size() - 1)).square().sum();
-      auto minusSquare = (x->topRows(x->size() - 1) - x->bottomRows(x->size() - 1)).square().sum();
+      auto minusSquare = (x->bottomRows(x->size() - 1) - x->topRows(x->size() - 1).square()).square().sum();
       *f = 100 * minusSquare + square_1_minus_x_top;
     } else {
       double val = 0;
       for (int idx = 0; idx < x->size() - 1; idx++) {
-        val += 100 * square(x->operator[](idx + 1) - x->operator[](idx)) +
+        val += 100 * square(x->operator[](idx + 1) - square(x->operator[](idx))) +
                square(1 - x->operator[](idx));
       }
       *f = val;
@@ -253,8 +253,8 @@ struct SOFunctionsX<Var_t, Fitness_t, void> {
 
   inline static void styblinskiTang(const Var_t *x, Fitness_t *f) noexcept {
     if constexpr (array_traits<Var_t>::isEigenClass) {
-      auto arr = x->array();
-      *f = (arr.pow(4) - 16 * arr.square() + 5 * arr).sum();
+      const auto &arr = x->array();
+      *f = (arr.square().square() - 16 * arr.square() + 5 * arr).sum() / 2;
     } else {
       double val = 0;
       for (auto xi : *x) {
-- 
2.43.0


From 2842052b6e6a425a3a7bb82d6bc44db831a63d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:04 +0000
Subject: [PATCH 29/46] fix: NchooseK overflowed for N > 20 although its value
 fits

---
 HeuristicFlow/src/Global/HeuMaths.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/Global/HeuMaths.hpp b/HeuristicFlow/src/Global/HeuMaths.hpp
index 532ebef..06802d7 100644
--- a/HeuristicFlow/src/Global/HeuMaths.hpp
+++ b/HeuristicFlow/src/Global/HeuMaths.hpp
@@ -85,8 +85,14 @@ template <typename num_t>
 inline num_t NchooseK(num_t N, num_t K) noexcept {
   if (K * 2 > N) {
     return NchooseK<num_t>(N, N - K);
-  } else
-    return fractorial<num_t>(N) / (fractorial<num_t>(K) * fractorial<num_t>(N - K));
+  } else {
+    // N! overflows long before the value of C^K_N does. The division in each step is exact.
+    num_t result = 1;
+    for (num_t i = 1; i <= K; i++) {
+      result = result * (N - K + i) / i;
+    }
+    return result;
+  }
 }
 /*
 namespace internal
-- 
2.43.0


From 69286833d4fbc573751698a1eee7a90de22137af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:33 +0000
Subject: [PATCH 30/46] fix: testFunctions inherited one empty base twice when
 no DTLZ problem applies

---
 HeuristicFlow/src/EAGlobal/TestFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/TestFunctions.hpp b/HeuristicFlow/src/EAGlobal/TestFunctions.hpp
index 0290afc..2aac73b 100644
--- a/HeuristicFlow/src/EAGlobal/TestFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/TestFunctions.hpp
@@ -62,7 +62,7 @@ struct MOFunctions
       public std::conditional<sizeMayMatchDTLZ1to7<Var_t, Fitness_t>::value,
                               DTLZ1to7<Var_t, Fitness_t, Arg_t>, emptyStruct5>::type,
       public std::conditional<sizeMayMatchDTLZ89<Var_t, Fitness_t>::value,
-                              DTLZ89<Var_t, Fitness_t, Arg_t>, emptyStruct5>::type {
+                              DTLZ89<Var_t, Fitness_t, Arg_t>, emptyStruct6>::type {
   static_assert((!array_traits<Fitness_t>::isFixedSize) || (array_traits<Fitness_t>::sizeCT >= 2),
                 "The size of Fitness_t must be greater than 1.");
 };
-- 
2.43.0


From f86e811cfeb2d89a49805c2ff50597d10053bb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:33 +0000
Subject: [PATCH 31/46] fix: Schaffer N.2 (two objectives) and Viennet follow
 their definitions

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 0e850ff..9c2cc9c 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -79,12 +79,12 @@ struct MOFunctions12<Var_t, Fitness_t, void> {
 
     if (x <= 1) {
       f->operator[](0) = -x;
-    } else if (x <= -3) {
+    } else if (x <= 3) {
       f->operator[](0) = x - 2;
     } else if (x <= 4) {
       f->operator[](0) = 4 - x;
     } else {
-      f->operator[](0) = 4 - x;
+      f->operator[](0) = x - 4;
     }
   }
 };
@@ -208,7 +208,7 @@ struct MOFunctions23<Var_t, Fitness_t, void> {
 
     const auto x2_plus_y2 = x * x + y * y;
     f->operator[](0) = x2_plus_y2 / 2 + std::sin(x2_plus_y2);
-    f->operator[](1) = square(2 * x - 2 * y + 4) / 8 + square(x - y + 1) / 27 + 15;
+    f->operator[](1) = square(3 * x - 2 * y + 4) / 8 + square(x - y + 1) / 27 + 15;
     f->operator[](2) = 1 / (x2_plus_y2 + 1) - 1.1 * std::exp(-x2_plus_y2);
   }
 };
-- 
2.43.0


From 61915674d8c96d8260ba32a93489400ec098813e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:33 +0000
Subject: [PATCH 32/46] fix: Binh-Korn, Chankong-Haimes, Poloni and Viennet
 size the fitness by its own type

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 9c2cc9c..4dd80b1 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -108,8 +108,8 @@ struct MOFunctions22<Var_t, Fitness_t, void> {
   }
 
   static inline void initializeFitnessSize(Fitness_t *f) noexcept {
-    if constexpr (!array_traits<Var_t>::isFixedSize) {
-      if constexpr (array_traits<Var_t>::isEigenClass) {
+    if constexpr (!array_traits<Fitness_t>::isFixedSize) {
+      if constexpr (array_traits<Fitness_t>::isEigenClass) {
         f->resize(2, 1);
       } else {
         f->resize(2);
@@ -190,8 +190,8 @@ struct MOFunctions23<Var_t, Fitness_t, void> {
   }
 
   static inline void initializeFitnessSize(Fitness_t *f) noexcept {
-    if constexpr (!array_traits<Var_t>::isFixedSize) {
-      if constexpr (array_traits<Var_t>::isEigenClass) {
+    if constexpr (!array_traits<Fitness_t>::isFixedSize) {
+      if constexpr (array_traits<Fitness_t>::isEigenClass) {
         f->resize(3, 1);
       } else {
         f->resize(3);
-- 
2.43.0


From 45fd824c8febc24703ca39e967131ba2d6c7fdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:33 +0000
Subject: [PATCH 33/46] fix: Fonseca-Fleming and Kursawe use every decision
 variable

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 4dd80b1..df5056b 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -223,7 +223,7 @@ template <typename Var_t, class Fitness_t>
 struct MOFunctionsX2<Var_t, Fitness_t, void> {
  private:
   static_assert((!array_traits<Fitness_t>::isFixedSize) || (array_traits<Fitness_t>::sizeCT == 2));
-  static_assert((!array_traits<Var_t>::isFixedSize) || (array_traits<Fitness_t>::sizeCT >= 1));
+  static_assert((!array_traits<Var_t>::isFixedSize) || (array_traits<Var_t>::sizeCT >= 1));
 
   static inline void assert4Size(const Fitness_t *f) noexcept {
     if constexpr (!array_traits<Fitness_t>::isFixedSize) {
@@ -234,17 +234,16 @@ struct MOFunctionsX2<Var_t, Fitness_t, void> {
  public:
   static inline void FonsecaFleming(const Var_t *_x, Fitness_t *f) noexcept {
     assert4Size(f);
-    const int N = f->size();  // If the size of f is determined at compile-time, the compiler will
-                              // be able to optimize it; otherwise N is a read only integer.
+    const int N = int(_x->size());
     typename array_traits<Fitness_t>::Scalar_t exp1 = 0, exp2 = 0;
-    constexpr typename array_traits<Fitness_t>::Scalar_t rSqrtN = 1.0 / std::sqrt(double(N));
+    const typename array_traits<Fitness_t>::Scalar_t rSqrtN = 1.0 / std::sqrt(double(N));
     if constexpr (array_traits<Var_t>::isEigenClass) {
       exp1 = -1 * (_x->array() - rSqrtN).square().sum();
       exp2 = -1 * (_x->array() + rSqrtN).square().sum();
     } else {
       for (int idx = 0; idx < N; idx++) {
-        exp1 -= sqrt(_x->operator[](idx) - rSqrtN);
-        exp2 -= sqrt(_x->operator[](idx) + rSqrtN);
+        exp1 -= square(_x->operator[](idx) - rSqrtN);
+        exp2 -= square(_x->operator[](idx) + rSqrtN);
       }
     }
 
@@ -254,10 +253,11 @@ struct MOFunctionsX2<Var_t, Fitness_t, void> {
 
   static inline void Kursawe(const Var_t *_x, Fitness_t *f) noexcept {
     assert4Size(f);
-    const int N = int(f->size());
+    const int N = int(_x->size());
     typename array_traits<Var_t>::Scalar_t f1 = 0, f2 = 0;
     if constexpr (array_traits<Var_t>::isEigenClass) {
       if constexpr (array_traits<Var_t>::isFixedSize) {
+        constexpr int N = array_traits<Var_t>::sizeCT;
         auto topN_sub_1Rows = _x->template topRows<N - 1>();
         auto bottomN_sub_1Rows = _x->template bottomRows<N - 1>();
         f1 = -10 * (-0.2 *
@@ -269,8 +269,8 @@ struct MOFunctionsX2<Var_t, Fitness_t, void> {
                        .sum();
 
       } else {
-        auto topN_sub_1Rows = _x->template topRows(N - 1);
-        auto bottomN_sub_1Rows = _x->template bottomRows(N - 1);
+        auto topN_sub_1Rows = _x->topRows(N - 1);
+        auto bottomN_sub_1Rows = _x->bottomRows(N - 1);
         f1 = -10 * (-0.2 *
 
                     (topN_sub_1Rows.array().square() + bottomN_sub_1Rows.array().square())
-- 
2.43.0


From 465ce32469cfa00533c46d9b3f268d4ec14a82a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:33 +0000
Subject: [PATCH 34/46] fix: DTLZ7 computes the objective before the last for
 std containers too

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index df5056b..158cc92 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -655,7 +655,7 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
         f->head(M - 1) = x->head(M - 1);
       }
     } else {
-      for (int idx = 0; idx < M - 2; idx++) {
+      for (int idx = 0; idx < M - 1; idx++) {
         f->operator[](idx) = x->operator[](idx);
       }
     }
-- 
2.43.0


From 72887ab0dabe94e13a94f05b46089377015c1811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:33 +0000
Subject: [PATCH 35/46] fix: DTLZ5 and DTLZ6 compile for std containers

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 158cc92..5804a61 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -525,7 +525,7 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
 
     scalar_t gXm = 0, gr = 0;
 
-    if (array_traits<Var_t>::isEigenClass) {
+    if constexpr (array_traits<Var_t>::isEigenClass) {
       auto xm = computeXM(x, f);
       gXm = (xm - 0.5).square().sum();
       gr = xm.square().sum();
@@ -586,7 +586,7 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
 
     scalar_t gXm = 0, gr = 0;
 
-    if (array_traits<Var_t>::isEigenClass) {
+    if constexpr (array_traits<Var_t>::isEigenClass) {
       auto xm = computeXM(x, f);
       gr = xm.square().sum();
       gXm = xm.pow(0.1).sum();
-- 
2.43.0


From fb93d53038a96f899eea7e3a7d99b32f464cca85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:33 +0000
Subject: [PATCH 36/46] fix: DTLZ9 read one element past its variables and
 objectives

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 5804a61..2c00627 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -860,14 +860,14 @@ struct DTLZ89<Var_t, Fitness_t, void> {
 
     for (int objIdx = 0; objIdx < M; objIdx++) {
       f->operator[](objIdx) = 0;
-      for (int varIdx = objIdx * N / M; varIdx <= std::min<int>(N, (objIdx + 1) * N / M);
+      for (int varIdx = objIdx * N / M; varIdx <= std::min<int>(N - 1, (objIdx + 1) * N / M);
            varIdx++) {
         f->operator[](objIdx) += std::pow(x->operator[](varIdx), 0.1);
       }
     }
     // apply penlties
     for (int objIdx = 0; objIdx < M - 1; objIdx++) {
-      auto gOfObjIdx = square(f->operator[](M)) + square(f->operator[](objIdx)) - 1;
+      auto gOfObjIdx = square(f->operator[](M - 1)) + square(f->operator[](objIdx)) - 1;
 
       if (gOfObjIdx < 0) {
         f->operator[](objIdx) += 1e3 + (-gOfObjIdx);
-- 
2.43.0


From 6f8870d6fcf47ff4086da8080012bc2f3b62505c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:11 +0000
Subject: [PATCH 37/46] fix: testFunctions compile with a run-time number of
 objectives

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 2c00627..d38d6a3 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -326,7 +326,7 @@ struct sizeMayMatchDTLZ1to7 {
 
   static constexpr bool value =
       (isAllFixed) ? (array_traits<Var_t>::sizeCT - array_traits<Fitness_t>::sizeCT + 1 > 0)
-                   : (true);
+                   : (!array_traits<Var_t>::isFixedSize || array_traits<Var_t>::sizeCT > 1);
 };
 
 template <typename Var_t, class Fitness_t>
@@ -387,7 +387,8 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
 
       typename std::conditional<
           array_traits<Fitness_t>::isFixedSize,
-          std::array<typename array_traits<Var_t>::Scalar_t, array_traits<Fitness_t>::sizeCT - 1>,
+          std::array<typename array_traits<Var_t>::Scalar_t,
+                     array_traits<Fitness_t>::isFixedSize ? array_traits<Fitness_t>::sizeCT - 1 : 1>,
           std::vector<typename array_traits<Var_t>::Scalar_t>>::type
 
       >::type;
-- 
2.43.0


From 37b45f6de77128119ce3467a533ee7738d69eee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:23 +0000
Subject: [PATCH 38/46] fix: encode an infinite float with eight exponent bits

The code of +infinity had eleven exponent bits, which overlap the sign bit of a binCode32,
so that it decoded to -infinity.
---
 HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp b/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
index aa3950e..d77e330 100644
--- a/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
+++ b/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
@@ -396,9 +396,9 @@ constexpr binCode32 encode(const float d) {
 
   if (absVal(d) >= std::numeric_limits<float>::infinity()) {
     if (d > 0) {
-      return binCode32(0b11111111111UL << 23);
+      return binCode32(0b11111111UL << 23);
     } else {
-      return binCode32(0b111111111111UL << 23);
+      return binCode32(0b111111111UL << 23);
     }
   } else
     return binCode32(signCode(d) | exponentCode(d) | mantissaCode(d));
-- 
2.43.0


From 8042b66b8a3455e429bba81f212aa625f4c1a96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:23 +0000
Subject: [PATCH 39/46] fix: encode numbers whose mantissa is all ones with
 their own exponent

Halving such a number below the smallest normal one rounds it up to a power of two, and its
exponent was counted one too high: DBL_MAX was encoded as infinity.
---
 .../src/Global/ConvertDoubleAndBinCode.hpp    | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp b/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
index d77e330..730bce4 100644
--- a/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
+++ b/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
@@ -247,41 +247,42 @@ constexpr uint64_t exponentVal(double fl) {
   uint64_t code = 0;
   fl = absVal(fl);
 
-  constexpr double seper =
-      decode(binCode64(0b0000000000001111111111111111111111111111111111111111111111111111));
+  // The smallest normal number. A quotient below it might be rounded, so it's never computed.
+  constexpr double minNormal = expOf2AtCompileTime(-1022);
 
-  while (fl > 257 * seper) {
+  while (fl >= 256 * minNormal) {
     fl /= 256;
     code += 8;
   }
 
-  while (fl > seper) {
+  while (fl >= 2 * minNormal) {
     fl /= 2;
     code++;
   }
 
+  if (fl >= minNormal) code++;
+
   return code;
 }
 
 constexpr uint32_t exponentVal(float fl) {
   uint32_t code = 0;
   fl = absVal(fl);
-  /*
-constexpr double seper =
-    decode(binCode64(0b0000000000001111111111111111111111111111111111111111111111111111));
-    */
-  constexpr float seper = decode(binCode32(0b00000000011111111111111111111111UL));
+  // The smallest normal number. A quotient below it might be rounded, so it's never computed.
+  constexpr float minNormal = expOf2AtCompileTime<float>(-126);
 
-  while (fl > 257 * seper) {
+  while (fl >= 256 * minNormal) {
     fl /= 256;
     code += 8;
   }
 
-  while (fl > seper) {
+  while (fl >= 2 * minNormal) {
     fl /= 2;
     code++;
   }
 
+  if (fl >= minNormal) code++;
+
   return code;
 }
 
-- 
2.43.0


From 444f2d88e54777305da6ed92e888d0acdf2f373f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:23 +0000
Subject: [PATCH 40/46] fix: DivCode_Pi_mul_2 is twice Pi, not 2/Pi

---
 HeuristicFlow/src/Global/TemplateFloat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Global/TemplateFloat.hpp b/HeuristicFlow/src/Global/TemplateFloat.hpp
index 66dcc69..92115cf 100644
--- a/HeuristicFlow/src/Global/TemplateFloat.hpp
+++ b/HeuristicFlow/src/Global/TemplateFloat.hpp
@@ -44,7 +44,7 @@ namespace heu {
 enum DivCode : uint64_t {
   DivCode_Half = 4294967298,
   DivCode_Pi = 2088567404207137453,
-  DivCode_Pi_mul_2 = 993512999210214248,
+  DivCode_Pi_mul_2 = 4177134808259486381,
   DivCode_Pi_mul_3 = 2111843339415065010,
   DivCode_Pi_mul_4 = 4223686678804044427,
   DivCode_Pi_mul_6 = 2111843339388979417,
-- 
2.43.0


From 477d7b120b9a5d7d48540a0ddbf50f8540a79ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:38 +0000
Subject: [PATCH 41/46] fix: PowEncode scales the coefficient to 16 digits,
 which fit into 54 bits

Coefficients from 1.8 on were scaled to 17 digits, more than 54 bits hold, and ran over into
the sign bit: PowDecode<PowEncode<314159, 0>::code>::real was -1.34.
---
 HeuristicFlow/src/Global/TemplateFloat.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/HeuristicFlow/src/Global/TemplateFloat.hpp b/HeuristicFlow/src/Global/TemplateFloat.hpp
index 92115cf..db97549 100644
--- a/HeuristicFlow/src/Global/TemplateFloat.hpp
+++ b/HeuristicFlow/src/Global/TemplateFloat.hpp
@@ -123,7 +123,7 @@ enum PowCode : uint64_t {
 
 namespace internal {
 // Multiplie val for 10 times until it gets greater than the threshold
-template <uint64_t val, uint64_t threshold = 10000000000000000ULL>
+template <uint64_t val, uint64_t threshold = 1000000000000000ULL>
 struct PowEncode_amplifier {
  private:
   static const constexpr bool need2amp = (val < threshold);
@@ -175,7 +175,7 @@ struct PowEncode_OneE<0> {
 template <int64_t significant, int16_t power>
 struct PowEncode {
  private:
-  static const constexpr uint64_t threshold = 1e16;
+  static const constexpr uint64_t threshold = 1e15;
   static const constexpr bool isNegative = significant < 0;
   static const constexpr uint64_t absVal = (isNegative) ? (-significant) : significant;
   static const constexpr bool isSigValid = (absVal / 10 < threshold);
@@ -227,7 +227,7 @@ struct PowDecode {
   static const constexpr bool isPowNegative = lowerBitMask & code;
   static const constexpr int16_t absPow = lowerPowMask & code;
   static const constexpr int16_t pow = (isPowNegative ? (-absPow) : absPow);
-  static const constexpr double digital = (sig) / (1e16);
+  static const constexpr double digital = (sig) / (1e15);
   static const constexpr double powPart = internal::PowEncode_OneE<pow>::result;
 
  public:
-- 
2.43.0


From 6f201b10aac80a096c4a3a8e2a7fd825382bfed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:24 +0000
Subject: [PATCH 42/46] fix: MatrixDynamicSize can be copied

The copy constructor resized a matrix without a size yet, and copy assignment of trivially
assignable elements did not compile.
---
 HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
index f756ae4..15eea69 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
@@ -90,7 +90,7 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
    *
    * \param src Source of copying
    */
-  explicit MatrixDynamicSize(const MatrixDynamicSize &src) noexcept {
+  explicit MatrixDynamicSize(const MatrixDynamicSize &src) noexcept : MatrixDynamicSize() {
     resize(src.rowNum, src.colNum);
     for (int i = 0; i < size(); i++) {
       dataPtr[i] = src.dataPtr[i];
@@ -136,11 +136,7 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
   MatrixDynamicSize &operator=(const MatrixDynamicSize &src) noexcept {
     resize(src.rowNum, src.colNum);
     for (int i = 0; i < size(); i++) {
-      if constexpr (!std::is_trivially_copy_assignable_v<Scalar_t>) {
-        dataPtr[i] = src.dataPtr[i];
-      } else {
-        memcpy(dataPtr, src, sizeof(Scalar_t) * src.size());
-      }
+      dataPtr[i] = src.dataPtr[i];
     }
     return *this;
   }
-- 
2.43.0


From a6238e71f7e359347f7305af3af53a5e807ac6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:24 +0000
Subject: [PATCH 43/46] fix: move assignment of MatrixDynamicSize returns the
 matrix

---
 HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
index 15eea69..b20a4c5 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
@@ -148,6 +148,7 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
    * \return MatrixDynamicSize&
    */
   MatrixDynamicSize &operator=(MatrixDynamicSize &&src) noexcept {
+    if (this == &src) return *this;
     if (this->dataPtr != nullptr) {
       if constexpr (!std::is_trivially_destructible_v<Scalar_t>) {
         for (int i = 0; i < _capacity; i++) {
@@ -166,6 +167,7 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
     src.colNum = 0;
     this->_capacity = src._capacity;
     src._capacity = 0;
+    return *this;
   }
 
   template <class DerivedB>
-- 
2.43.0


From de9305809448aa4590391d25130a5cda7584a69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:24 +0000
Subject: [PATCH 44/46] fix: MatrixDynamicSize::resize creates and destroys its
 elements

Elements with a constructor or destructor were neither constructed in the new storage nor
destroyed in the old one.
---
 HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
index b20a4c5..31975d8 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
@@ -249,7 +249,7 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
     if (r * c != size()) {
       if (r * c > _capacity) {
         if (dataPtr != nullptr) {
-          if constexpr (std::is_trivially_destructible_v<Scalar_t>)
+          if constexpr (!std::is_trivially_destructible_v<Scalar_t>)
             for (int i = 0; i < _capacity; i++) {
               // alloc().destroy(dataPtr + i);
               (dataPtr + i)->~Scalar_t();
@@ -265,6 +265,10 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
             // alloc().construct(dataPtr + i);
             dataPtr[i] = Scalar_t();
           }
+        else
+          for (int i = 0; i < _capacity; i++) {
+            std::allocator_traits<allocator_t>::construct(alloc(), dataPtr + i);
+          }
       }
     }
 
-- 
2.43.0


From d03718f7adbd01164441846876cbd0d5f1a7f204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:24 +0000
Subject: [PATCH 45/46] fix: MatrixDynamicSize::reserve enlarges the capacity

It returned when more space was asked for, and shrank the storage under the elements otherwise.
---
 .../src/SimpleMatrix/MatrixDynamicSize.hpp          | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
index 31975d8..6200b48 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
@@ -226,13 +226,20 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
    * \param s Size to be reserved
    */
   void reserve(int s) noexcept {
-    if (_capacity <= s) return;
+    if (s <= _capacity) return;
 
     Scalar_t *newPtr = alloc().allocate(s);
 
-    memcpy(newPtr, dataPtr, sizeof(Scalar_t) * _capacity);
+    for (int i = 0; i < s; i++) {
+      std::allocator_traits<allocator_t>::construct(alloc(), newPtr + i);
+    }
+
+    for (int i = 0; i < _capacity; i++) {
+      newPtr[i] = std::move(dataPtr[i]);
+      if constexpr (!std::is_trivially_destructible_v<Scalar_t>) (dataPtr + i)->~Scalar_t();
+    }
 
-    alloc().deallocate(dataPtr, _capacity);
+    if (dataPtr != nullptr) alloc().deallocate(dataPtr, _capacity);
 
     _capacity = s;
 
-- 
2.43.0


From 2a0fd1595f5add03b69dec3634afb35939a43bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:24 +0000
Subject: [PATCH 46/46] fix: MatrixMap can be assigned to and from other
 matrices

Its Scalar_t was private, but MatrixBase and users name it.
---
 HeuristicFlow/src/SimpleMatrix/MatrixMap.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixMap.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixMap.hpp
index af4b033..333afcf 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixMap.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixMap.hpp
@@ -27,6 +27,7 @@ namespace heu {
 
 template <typename Scalar>
 class MatrixMap : public MatrixBase<MatrixMap<Scalar>> {
+ public:
   using Scalar_t = Scalar;
 
  protected:
-- 
2.43.0

