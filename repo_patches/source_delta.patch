From 9e9103532a6831b734297971322aae916dfe235b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 001/147] fix: Matrix::Mean must divide by the number of
 non-NAN elements when NANs are skipped

---
 src/matrix/matrix.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index 74cfe5a..a5e7957 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -2606,13 +2606,15 @@ template <typename Tw> Tw Matrix<Tw>::Mean(bool check_nan) const {
         Tw diff;
         me = 0;
         Tw s;
+        Ti j = 0;
         for (Ti i = 0; i < len; i++) {
           d = Data[i];
           if (std::isnan(d))
             continue;
           diff = d - me;
-          s = diff / (i + 1);
+          s = diff / (j + 1);
           me += s;
+          j++;
         }
       } else {
         Tw d;
-- 
2.43.0


From bae4049b29718bb292896f007eb67a6c14bdfb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 002/147] fix: Matrix::Last reads one element past the end

---
 src/matrix/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index a5e7957..96e2079 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -771,7 +771,7 @@ Ti Matrix<Tw>::RemoveNanVector(Matrix<Tw> &data, Matrix<Tw> &storage) {
 
 // #pragma region linq - like functions
 
-template <typename Tw> Tw Matrix<Tw>::Last() { return Data[length()]; }
+template <typename Tw> Tw Matrix<Tw>::Last() { return Data[length() - 1]; }
 template <typename Tw> Tw Matrix<Tw>::First() { return Data[0]; }
 
 template <typename Tw>
-- 
2.43.0


From 7551ec461a7618be09f32ccf917112684591eed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 003/147] fix: Matrix::SetColumnFromRow fills a column of
 RowsCount elements

---
 src/matrix/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index 96e2079..e3bb347 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -1499,7 +1499,7 @@ void Matrix<Tw>::SetColumnFromRow(Ti j, const Matrix<Tw> &source, Ti k) {
 template <typename Tw>
 void Matrix<Tw>::SetColumnFromRow0(Ti j, const Matrix<Tw> &source, Ti k) {
   auto d = &Data[RowsCount * j];
-  for (Ti i = 0; i < ColsCount; i++)
+  for (Ti i = 0; i < RowsCount; i++)
     d[i] = source.Get0(k, i);
 }
 
-- 
2.43.0


From 8d26046289cb1593397e639cebf781f1daa01b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 004/147] fix: Matrix::SetColumnFromColumn uses the stride of
 the source

---
 src/matrix/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index e3bb347..e54aba0 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -1514,7 +1514,7 @@ void Matrix<Tw>::SetColumnFromColumn(Ti j, const Matrix<Tw> &source, Ti k) {
 template <typename Tw>
 void Matrix<Tw>::SetColumnFromColumn0(Ti j, const Matrix<Tw> &source, Ti k) {
   auto d = &Data[RowsCount * j];
-  auto b = &source.Data[RowsCount * k];
+  auto b = &source.Data[source.RowsCount * k];
   for (Ti i = 0; i < RowsCount; i++)
     d[i] = b[i];
 }
-- 
2.43.0


From 2d8e91f78b52b17ed5c7c83bb1e3915d03679831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 005/147] fix: Matrix::CorrelationColumn variances use the
 number of used pairs when NANs are skipped

---
 src/matrix/matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index e54aba0..f08f903 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -2912,8 +2912,8 @@ Tw Matrix<Tw>::CorrelationColumn(Ti j1, Ti j2, Tw &mean1, Tw &mean2, Tw &var1,
           w1 += dx1 * s1 * (count - 1);
           w2 += dx2 * s2 * (count - 1);
         }
-        var1 = sample ? w1 / (Tw)(RowsCount - 1) : w1 / RowsCount;
-        var2 = sample ? w2 / (Tw)(RowsCount - 1) : w2 / RowsCount;
+        var1 = sample ? w1 / (Tw)(count - 1) : w1 / count;
+        var2 = sample ? w2 / (Tw)(count - 1) : w2 / count;
         if (m2 == (Tw)0 && w1 == (Tw)0 &&
             w2 == (Tw)0) // 0/0 case . both are constant
           cor = (Tw)1;
-- 
2.43.0


From c37181ea00058dec74622eed09efdd1ae95f6137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 006/147] fix: Matrix::DotDiag loops over the columns of a
 non-square matrix

---
 src/matrix/matrix_la.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/matrix_la.cpp b/src/matrix/matrix_la.cpp
index 6c2ba6e..4a29a06 100644
--- a/src/matrix/matrix_la.cpp
+++ b/src/matrix/matrix_la.cpp
@@ -225,7 +225,7 @@ void Matrix<Tw>::TrDotTr0(const Matrix<Tw> &b, Matrix<Tw> &storage, Tw alpha,
 
 template <typename Tw>
 void Matrix<Tw>::DotDiag0(const Matrix<Tw> &b, Matrix<Tw> &storage) const {
-  for (Ti j = 0; j < RowsCount; j++) {
+  for (Ti j = 0; j < ColsCount; j++) {
     for (Ti i = 0; i < RowsCount; i++)
       storage.Set0(i, j, b.Data[j] * Get0(i, j));
   }
-- 
2.43.0


From b18ed5e0d7de14762234ccb3676e6ce16316e045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 007/147] fix: DatasetTs::Data must reset the missing-data
 report of a previous call

---
 src/matrix/dataset.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/matrix/dataset.cpp b/src/matrix/dataset.cpp
index 5e4c6ed..e9ff9cf 100644
--- a/src/matrix/dataset.cpp
+++ b/src/matrix/dataset.cpp
@@ -85,6 +85,8 @@ template <bool byRow, typename Tw>
 void DatasetTs<byRow, Tw>::Data(Matrix<Tw> &data) {
   pData = &data;
   Ranges.clear();
+  HasMissingData = false;
+  WithMissingIndexes.clear();
 
   Ti count;
   if constexpr (byRow) {
-- 
2.43.0


From d95e6311436e5f03813a679ad2698c5fd8ef7b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 008/147] fix: upper extreme bound of negative coefficients

---
 src/ldt_statistics/modeling/search/modelset.cpp | 2 +-
 src/ldt_statistics/modeling/search/summary.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/modeling/search/modelset.cpp b/src/ldt_statistics/modeling/search/modelset.cpp
index 10325ad..062eef0 100644
--- a/src/ldt_statistics/modeling/search/modelset.cpp
+++ b/src/ldt_statistics/modeling/search/modelset.cpp
@@ -252,7 +252,7 @@ void ModelSet::CombineExtremeBounds(
                        "list of search summaries is empty!");
 
   min = std::numeric_limits<Tv>::max();
-  max = std::numeric_limits<Tv>::min();
+  max = std::numeric_limits<Tv>::lowest();
 
   for (auto &s : summaries) {
     if (s->Index1 == index1 && s->Index2 == index2 && s->Index3 == index3) {
diff --git a/src/ldt_statistics/modeling/search/summary.cpp b/src/ldt_statistics/modeling/search/summary.cpp
index 1e5ea6b..82e1fe3 100644
--- a/src/ldt_statistics/modeling/search/summary.cpp
+++ b/src/ldt_statistics/modeling/search/summary.cpp
@@ -129,7 +129,7 @@ SearcherSummary::SearcherSummary(Ti Index1, Ti Index2, Ti Index3,
 
   if (pItems->ExtremeBoundsMultiplier > 0)
     ExtremeBounds = std::vector<Tv>(
-        {std::numeric_limits<Tv>::max(), std::numeric_limits<Tv>::min()});
+        {std::numeric_limits<Tv>::max(), std::numeric_limits<Tv>::lowest()});
   if (pItems->KeepInclusionWeights) {
     InclusionsInfo = std::vector<RunningMoments<1, true, false, Tv>>(
         data->NumEndo + data->NumExo);
-- 
2.43.0


From 2b0386da694c0586ed8b5569c1a873d6d5482ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 009/147] fix: CombineBests must order by metric: weights of
 large metrics underflow to zero

---
 src/ldt_statistics/modeling/search/modelset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/search/modelset.cpp b/src/ldt_statistics/modeling/search/modelset.cpp
index 062eef0..3d7e9f8 100644
--- a/src/ldt_statistics/modeling/search/modelset.cpp
+++ b/src/ldt_statistics/modeling/search/modelset.cpp
@@ -194,7 +194,7 @@ void ModelSet::CombineBests(
         for (Ti i = 0; i < k; i++) {
           if (i >= (Ti)result.size())
             result.push_back(w);
-          else if (w->Weight > result.at(i)->Weight)
+          else if (s->Bests.key_comp()(w, result.at(i)))
             result.insert(result.begin() + i, w);
           else
             continue;
-- 
2.43.0


From 9e3fe841a82c23fe817c9978511d9720a64f0e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 010/147] fix: a leading zero weight must not turn running
 moments into NAN

---
 include/array.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/array.h b/include/array.h
index d74f38d..fdd7be8 100644
--- a/include/array.h
+++ b/include/array.h
@@ -528,6 +528,10 @@ public:
                              Tw &M4) {
 
     auto temp = sumW_1 + sumW_2;
+    if (temp == 0) { // no information in both sets
+      sumW = mean = M2 = M3 = M4 = 0;
+      return;
+    }
     Tv delta = mean_2 - mean_1;
     Tv delta2 = delta * delta;
 
@@ -571,6 +575,8 @@ public:
     auto delta = x - mean;
     auto delta2 = delta * delta;
     auto temp = sumW + ww;
+    if (temp == 0) // no information yet
+      return;
 
     mean = (sumW * mean + ww * x) / temp;
 
-- 
2.43.0


From fa7f3f50ef90bcbcefd42e2b506cb7b270a12b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 011/147] fix: searchers must visit and count every combination
 with a target, whatever the order of the partitions

---
 .../modeling/search/searcher.cpp              | 27 ++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/ldt_statistics/modeling/search/searcher.cpp b/src/ldt_statistics/modeling/search/searcher.cpp
index 559e9c8..2472a31 100644
--- a/src/ldt_statistics/modeling/search/searcher.cpp
+++ b/src/ldt_statistics/modeling/search/searcher.cpp
@@ -5,6 +5,7 @@
 */
 
 #include "searchers.h"
+#include <algorithm>
 
 using namespace ldt;
 
@@ -120,6 +121,8 @@ void Searcher::UpdateCurrent() {
         pCombinations->Partitions.at(PartitionIndices.Mat.Data[i])
             .at(ItemIndices.Mat.Data[i]);
   }
+  if (CheckForEmpty) // targets must be first (order of partitions is arbitrary)
+    std::sort(CurrentIndices.Vec.begin(), CurrentIndices.Vec.end());
 }
 
 void Searcher::CheckStart() {
@@ -149,7 +152,9 @@ std::string Searcher::Start(Tv *work, Ti *workI) {
 
     try {
       UpdateCurrent(); // e.g., update 0,0,0
-      AddState(EstimateOne(work, workI));
+      if (CheckForEmpty == false ||
+          CurrentIndices.Vec.at(0) < this->pItems->LengthTargets)
+        AddState(EstimateOne(work, workI));
     } catch (std::exception &ex) {
       AddState(std::string(ex.what()));
     } catch (std::string &ex) {
@@ -326,19 +331,23 @@ Ti Searcher::GetCount(bool effective) const {
     auto item_indices = VMatrix<Ti>(NumPartitions, 1);
     item_indices.Mat.SetValue(0);
 
+    // determines whether current model has at least one target
+    auto has_target = [&]() -> bool {
+      for (Ti i = 0; i < NumPartitions; i++)
+        if (pCombinations->Partitions.at(partition_indices.Mat.Data[i])
+                .at(item_indices.Mat.Data[i]) < this->pItems->LengthTargets)
+          return true;
+      return false;
+    };
+
     Ti c, T, free;
-    count = 1;
+    count = CheckForEmpty == false || has_target() ? 1 : 0;
     while (move_next(c, T, free, item_indices.Mat, partition_indices.Mat,
                      NumPartitions, partitionSizes, pCombinations->Partitions,
                      pCombinations->NumFixPartitions,
                      pCombinations->NumFixItems)) {
-      if (CheckForEmpty) {
-        auto c0 = pCombinations->Partitions.at(partition_indices.Mat.Data[0])
-                      .at(item_indices.Mat.Data[0]);
-        if (c0 >= this->pItems->LengthTargets)
-          continue;
-      }
-      count++;
+      if (CheckForEmpty == false || has_target())
+        count++;
     }
   }
 
-- 
2.43.0


From 14fa9104e0b7348fc419bfd76935b0d7dea34a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 012/147] fix: SUR significance search reports the estimated
 details when every coefficient is significant

---
 src/ldt_statistics/modeling/linear/sur.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/linear/sur.cpp b/src/ldt_statistics/modeling/linear/sur.cpp
index 61effee..e5881a9 100644
--- a/src/ldt_statistics/modeling/linear/sur.cpp
+++ b/src/ldt_statistics/modeling/linear/sur.cpp
@@ -311,7 +311,8 @@ void Sur::estim_search(Ti N, Ti m, Tv *work, Tv sigSearchMaxProb) {
   Ti k0 = x.ColsCount;
   Ti k0m = k0 * m;
   Ti q = 0, j;
-  pR->SetValue(0);
+  pR->Restructure0(k0m, k0m);
+  Matrix<Tv>::Diagonal(*pR); // no restriction, if all are significant
   auto sig_inds = std::vector<Ti>();
   Ti cs = k0m;
   for (mSigSearchIter = 0; mSigSearchIter < mSigSearchMaxIter;
-- 
2.43.0


From 2959a172f4772d8d847e2e1df8af0ec03f92a398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 013/147] fix: SurModelset skips the groups of endogenous
 variables without a target

---
 src/ldt_statistics/modeling/linear/sur_modelset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/linear/sur_modelset.cpp b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
index 7f69101..1eb76ce 100644
--- a/src/ldt_statistics/modeling/linear/sur_modelset.cpp
+++ b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
@@ -214,7 +214,7 @@ SurModelset::SurModelset(const SearchData &data,
         throw LdtException(ErrorType::kLogic, "sur-modelset",
                            "empty endogenous indexes");
 
-      if (e.at(0) > items.LengthTargets)
+      if (e.at(0) >= items.LengthTargets)
         continue; // no target here
       auto seed = metrics.Seed == 0
                       ? 0
-- 
2.43.0


From d6c065061d6c498ca0c60e38e6efd3f6cf33d202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 014/147] fix: searchers pass the Box-Cox parameters of the
 variables of the model

---
 src/ldt_statistics/modeling/linear/sur_modelset.cpp       | 8 +++++++-
 .../modeling/time_series/varma/varma_modelset.cpp         | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/modeling/linear/sur_modelset.cpp b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
index 1eb76ce..2b415ac 100644
--- a/src/ldt_statistics/modeling/linear/sur_modelset.cpp
+++ b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
@@ -94,6 +94,12 @@ std::string SurSearcher::EstimateOneReg(Tv *work, Ti *workI,
     return "";
 
   if (Model.WorkSize > 0) { // otherwise, not initialized
+    // Box-Cox parameters of the endogenous variables of this model
+    std::vector<Tv> lambdas;
+    if (this->pData->Lambdas.size() > 0)
+      for (auto &i : InnerIndices)
+        lambdas.push_back(this->pData->Lambdas.at(i));
+
     Model.Calculate(
         Data.Result, InnerIndices.size(), &work[s],
         &work[s + Model.StorageSize], SigSearchMaxIter > 0 ? &R : nullptr,
@@ -101,7 +107,7 @@ std::string SurSearcher::EstimateOneReg(Tv *work, Ti *workI,
         SigSearchMaxProb,
         this->pChecks->mCheckCN ? this->pChecks->MaxConditionNumber : INFINITY,
         this->pMetrics->SimFixSize - this->pChecks->MinOutSim,
-        this->pData->Lambdas.size() == 0 ? nullptr : &this->pData->Lambdas);
+        lambdas.size() == 0 ? nullptr : &lambdas);
 
     Ti j = (Ti)this->pMetrics->MetricsIn.size();
 
diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
index 1547602..930cda4 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
@@ -223,6 +223,12 @@ std::string VarmaSearcher::EstimateOneReg(Tv *work, Ti *workI,
     if (this->pOptions->RequestCancel)
       return "";
 
+    // Box-Cox parameters of the endogenous variables of this model
+    std::vector<Tv> lambdas;
+    if (this->pData->Lambdas.size() > 0)
+      for (auto &i : this->CurrentIndices.Vec)
+        lambdas.push_back(this->pData->Lambdas.at(i));
+
     Model.Calculate(
         S_s, W, Y, this->pOptions->RequestCancel, num_exo > 0 ? &X : nullptr,
         Restriction.IsRestricted ? &R : nullptr, nullptr, UsePreviousEstim,
@@ -230,7 +236,7 @@ std::string VarmaSearcher::EstimateOneReg(Tv *work, Ti *workI,
             ? this->pChecks->MaxConditionNumber
             : INFINITY,
         StdMultiplier, false, count0 - this->pChecks->MinOutSim,
-        this->pData->Lambdas.size() == 0 ? nullptr : &this->pData->Lambdas);
+        lambdas.size() == 0 ? nullptr : &lambdas);
 
     if (Model.ValidCounts == 0)
       throw LdtException(ErrorType::kLogic, "varma-modelset",
-- 
2.43.0


From 2ba64e8ceb02630d4eed0f2f098fbf16f55ea990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 015/147] fix: 'rmspe' is not 'rmse'

---
 include/math/statistics/scoring.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/statistics/scoring.h b/include/math/statistics/scoring.h
index b1e66b1..b4df4ac 100644
--- a/include/math/statistics/scoring.h
+++ b/include/math/statistics/scoring.h
@@ -180,10 +180,10 @@ inline ScoringType FromString_ScoringType(const char *v) {
     return ScoringType::kMae;
   else if (StartsWith("map", v))
     return ScoringType::kMape;
-  else if (StartsWith("rms", v))
-    return ScoringType::kRmse;
   else if (StartsWith("rmsp", v))
     return ScoringType::kRmspe;
+  else if (StartsWith("rms", v))
+    return ScoringType::kRmse;
 
   else if (StartsWith("crp", v))
     return ScoringType::kCrps;
-- 
2.43.0


From 46adb0701c637e852e78260ecdecbeffc0603a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:39 +0000
Subject: [PATCH 016/147] fix: DiscreteChoiceExtended evaluates the
 observations that are left after removing NANs

---
 .../modeling/discrete/discrete_choice_extended.cpp  | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
index fd5fb40..cd4491a 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
@@ -84,7 +84,6 @@ void DiscreteChoiceExtended::Calculate(const Matrix<Tv> &data, Tv *storage,
   // if (PredProbs && !xForecast)
 
   Ti numForecast = xForecast ? xForecast->RowsCount : 0;
-  Ti numObs = data.RowsCount;
   Ti numExo = data.ColsCount - (mHasWeight ? 2 : 1);
 
   auto temp = DiscreteChoiceExtended(
@@ -149,8 +148,8 @@ void DiscreteChoiceExtended::Calculate(const Matrix<Tv> &data, Tv *storage,
 
   if (mDoDetails) {
     // Projections
-    Projections = Matrix<Tv>(&storage[p], numObs, mNumChoices);
-    p += numObs * mNumChoices;
+    Projections = Matrix<Tv>(&storage[p], count, mNumChoices);
+    p += count * mNumChoices;
     Model->GetProbabilities(X, Projections, work);
 
     BrierScore = 0;
@@ -171,14 +170,14 @@ void DiscreteChoiceExtended::Calculate(const Matrix<Tv> &data, Tv *storage,
     if (mModelType == DiscreteChoiceModelType::kBinary) {
       if (aucOptions.Costs.Data) {
         if (mHasWeight && mWeightedEval)
-          auc0 = std::make_unique<ROC<true, true>>(numObs);
+          auc0 = std::make_unique<ROC<true, true>>(count);
         else
-          auc0 = std::make_unique<ROC<false, true>>(numObs);
+          auc0 = std::make_unique<ROC<false, true>>(count);
       } else {
         if (mHasWeight && mWeightedEval)
-          auc0 = std::make_unique<ROC<true, false>>(numObs);
+          auc0 = std::make_unique<ROC<true, false>>(count);
         else
-          auc0 = std::make_unique<ROC<false, false>>(numObs);
+          auc0 = std::make_unique<ROC<false, false>>(count);
       }
     } else {
       throw LdtException(ErrorType::kLogic, "dc-extended",
-- 
2.43.0


From 31d56181b07b6a86328f40e89e43595d22bd5303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:39 +0000
Subject: [PATCH 017/147] fix: work size of DiscreteChoiceExtended must cover
 the probabilities of the forecasts

---
 .../modeling/discrete/discrete_choice_extended.cpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
index cd4491a..ff5975d 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
@@ -56,7 +56,7 @@ DiscreteChoiceExtended::DiscreteChoiceExtended(
     StorageSize +=
         mNumChoices * numForecast +
         numForecast * cols; // for copying forecast matrix (TODO: this is work)
-    WorkSize = std::max(WorkSize, rows + numChoices - 2);
+    WorkSize = std::max(WorkSize, numForecast + numChoices - 2);
   }
 
   if (doDetails) {                     // Auc and Cost
-- 
2.43.0


From 2dc5ed40e5b055195f95f940b79ff3c520d4a662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:39 +0000
Subject: [PATCH 018/147] fix: discrete choice searchers skip the first
 in-sample metric

---
 .../modeling/discrete/discrete_choice_modelset.cpp   | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index 690b21d..de71528 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -199,13 +199,13 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
         this->pMetrics->MetricInIndices.at(GoodnessOfFitType::kFrequencyCost);
     auto aucInd = this->pMetrics->MetricInIndices.at(GoodnessOfFitType::kAuc);
     auto briInd = this->pMetrics->MetricInIndices.at(GoodnessOfFitType::kBrier);
-    if (costInd > 0 || aucInd > 0 || briInd > 0) {
+    if (costInd >= 0 || aucInd >= 0 || briInd >= 0) {
 
       Probs.SetData(&work[s]);
       s += Probs.length();
       DModel.GetProbabilities(X, Probs, &work[s]);
 
-      if (briInd > 0) {
+      if (briInd >= 0) {
 
         Tv brier = 0;
         Tv yi, wi = 1, sum = 0;
@@ -224,7 +224,7 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
         metrics.Mat.Set0(briInd, 0, brier);
       }
 
-      if (costInd > 0) {
+      if (costInd >= 0) {
         if (this->pOptions->RequestCancel)
           return "";
 
@@ -235,7 +235,7 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
         metrics.Mat.Set0(costInd, 0, CostIn.get()->AverageRatio);
       }
 
-      if (aucInd > 0) {
+      if (aucInd >= 0) {
         if (this->pOptions->RequestCancel)
           return "";
 
@@ -417,9 +417,7 @@ DiscreteChoiceModelset<hasWeight, modelType>::DiscreteChoiceModelset(
                          "There is no frequency cost metric and yet "
                          "frequency cost matrix list is not "
                          "empty!");
-  } else if (metrics.MetricInIndices.at(GoodnessOfFitType::kFrequencyCost) >
-                 0 ||
-             metrics.MetricOutIndices.at(ScoringType::kFrequencyCost) > 0) {
+  } else {
     if (costMatrixes.size() == 0)
       throw LdtException(ErrorType::kLogic, "dc-modelset",
                          "Frequency cost metrics are given, "
-- 
2.43.0


From ee9a5b77c4876920531d4fbaa0d8954eaaed7ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:39 +0000
Subject: [PATCH 019/147] fix: discrete choice searchers size the probabilities
 by the used observations

---
 .../modeling/discrete/discrete_choice_modelset.cpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index de71528..0dd1c98 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -201,7 +201,7 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
     auto briInd = this->pMetrics->MetricInIndices.at(GoodnessOfFitType::kBrier);
     if (costInd >= 0 || aucInd >= 0 || briInd >= 0) {
 
-      Probs.SetData(&work[s]);
+      Probs.SetData(&work[s], count, this->mNumChoices);
       s += Probs.length();
       DModel.GetProbabilities(X, Probs, &work[s]);
 
-- 
2.43.0


From a8090d0b3486af913a3b67e7c03db72bffb8d504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:39 +0000
Subject: [PATCH 020/147] fix: discrete choice searchers must pass the number
 of invalid simulations as such

---
 .../modeling/discrete/discrete_choice_modelset.cpp            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index 0dd1c98..5842264 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -179,8 +179,8 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
     Model.Calculate(Data.Result, pCostMatrixes, &work[s],
                     &work[s + Model.StorageSize], &workI[this->NumPartitions],
                     this->pOptions->RequestCancel, *pAucOptions,
-                    this->pMetrics->SimFixSize - this->pChecks->MinOutSim,
-                    nullptr, INT32_MAX);
+                    true, nullptr,
+                    this->pMetrics->SimFixSize - this->pChecks->MinOutSim);
     s += Model.StorageSize;
   }
 
-- 
2.43.0


From 710fd3137e510e1cf753945c6e475e866925f00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:39 +0000
Subject: [PATCH 021/147] fix: degrees of freedom of discrete choice models

---
 .../modeling/discrete/discrete_choice_modelset.cpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index 5842264..2622523 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -139,7 +139,7 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
         throw LdtException(ErrorType::kLogic, "dc-modelset",
                            "model check: minimum no. obs");
       if (this->pChecks->MinDof > 0 &&
-          this->pChecks->MinDof > count - num_exo - this->mNumChoices - 2)
+          this->pChecks->MinDof > count - (num_exo + this->mNumChoices - 2))
         throw LdtException(ErrorType::kLogic, "dc-modelset",
                            "model check: minimum dof");
     }
-- 
2.43.0


From ed178d43eda381c7e1973998d501209ed23aa513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:39 +0000
Subject: [PATCH 022/147] fix: discrete choice searchers overrun the integer
 work array

---
 .../modeling/discrete/discrete_choice_modelset.cpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index 2622523..8f84b00 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -177,7 +177,7 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
       return "";
 
     Model.Calculate(Data.Result, pCostMatrixes, &work[s],
-                    &work[s + Model.StorageSize], &workI[this->NumPartitions],
+                    &work[s + Model.StorageSize], workI,
                     this->pOptions->RequestCancel, *pAucOptions,
                     true, nullptr,
                     this->pMetrics->SimFixSize - this->pChecks->MinOutSim);
-- 
2.43.0


From bd6274a789358c91d2bdbf99a0baf6127aff5152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:39 +0000
Subject: [PATCH 023/147] fix: DiscreteChoiceSim computes the test size from
 the given data

---
 .../modeling/discrete/discrete_choice_sim.cpp             | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
index b7f8b96..4c44096 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
@@ -111,7 +111,13 @@ void DiscreteChoiceSim<hasWeight, modelType, distType>::Calculate(
           "inconsistent arguments in discrete choice simulation");
   }
 
-  Ti N0 = rows - this->N1;
+  Ti N0 = mTrainFixSize > 0
+              ? mTrainFixSize
+              : static_cast<Ti>(std::round(rows * mTrainRatio));
+  if (N0 <= 0 || N0 >= rows)
+    throw LdtException(ErrorType::kLogic, "dc-sim",
+                       "training percentage is not valid");
+  this->N1 = rows - N0;
   // Ti numExo = cols - (hasWeight ? 2 : 1);
   std::mt19937 eng;
   if (this->Seed != 0)
-- 
2.43.0


From 8b4bfca7ef405dd019619f6ef914904f2035cdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:39 +0000
Subject: [PATCH 024/147] fix: Brier score of DiscreteChoiceSim is the average
 over the simulations

---
 .../modeling/discrete/discrete_choice_sim.cpp      | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
index 4c44096..0fbb21e 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
@@ -27,7 +27,8 @@ DiscreteChoiceSim<hasWeight, modelType, distType>::DiscreteChoiceSim(
         ErrorType::kLogic, "dc-sim",
         "don't use binary Model when number of choices is larger than 2");
 
-  if (costMatrixCount == 0 && doFrequencyTable == false && doAuc == false)
+  if (costMatrixCount == 0 && doFrequencyTable == false && doAuc == false &&
+      doBrier == false)
     throw LdtException(ErrorType::kLogic, "dc-sim",
                        "no goal is set in discrete choice simulation");
 
@@ -171,6 +172,7 @@ void DiscreteChoiceSim<hasWeight, modelType, distType>::Calculate(
   auto frequencyCost = freqCost0.get();
 
   this->Auc = 0;
+  this->BrierScore = 0;
   auto split = DataSplitDiscrete(rows, cols, mNumChoices);
 
   auto model =
@@ -257,20 +259,19 @@ void DiscreteChoiceSim<hasWeight, modelType, distType>::Calculate(
     }
 
     if (mDoBrier) {
-      BrierScore = 0;
-      Tv yi, wi = 1, sum = 0;
+      Tv yi, wi = 1, sum = 0, brier = 0;
       Ti i = -1;
       for (auto ap = model.PredProbs.ColBegin(1);
            ap != model.PredProbs.ColEnd(1); ++ap) {
         i++;
         yi = y1.Data[i];
         if constexpr (hasWeight) {
-          wi = w1.Data[i];
+          wi = mWeightedEval ? w1.Data[i] : 1;
         }
-        BrierScore += wi * std::pow(yi - *ap, 2);
+        brier += wi * std::pow(yi - *ap, 2);
         sum += wi;
       }
-      BrierScore /= sum;
+      this->BrierScore += brier / sum;
     }
 
     if (costCount > 0) {
@@ -337,6 +338,7 @@ void DiscreteChoiceSim<hasWeight, modelType, distType>::Calculate(
   for (i = 0; i < costCount; i++)
     this->CostRatios.Data[i] /= overall_count.Data[i];
   this->Auc /= this->ValidSimulationCount;
+  this->BrierScore /= this->ValidSimulationCount;
 }
 
 std::unique_ptr<DiscreteChoiceSimBase> DiscreteChoiceSimBase::GetFromType(
-- 
2.43.0


From 8ace3f3a4946341c7b164d6970b8e45cba673e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:40 +0000
Subject: [PATCH 025/147] fix: FrequencyCost must not read past the last
 threshold

---
 src/ldt_statistics/scoring/frequency_cost.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ldt_statistics/scoring/frequency_cost.cpp b/src/ldt_statistics/scoring/frequency_cost.cpp
index 43ea9a8..4a586ef 100644
--- a/src/ldt_statistics/scoring/frequency_cost.cpp
+++ b/src/ldt_statistics/scoring/frequency_cost.cpp
@@ -46,6 +46,10 @@ void FrequencyCost<hasWeight>::Calculate(const std::vector<Matrix<Tv>> &costs,
         if (c.Get0(rowIndex, 0) >= maxprob)
           break;
       }
+      if (rowIndex == c.RowsCount)
+        throw LdtException(ErrorType::kLogic, "frequencycost",
+                           "a probability is not covered by the thresholds of "
+                           "the frequency cost matrix");
       // the value at 'actualCol+1' column defines how we should increment the
       // wrong count
       value = c.Get0(rowIndex, actualCol + 1);
-- 
2.43.0


From b2e0e40d94518d8e1f938533da5ac8f335435bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:40 +0000
Subject: [PATCH 026/147] fix: pessimistic ROC moves horizontally and then
 vertically in every segment

---
 src/ldt_statistics/scoring/roc.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ldt_statistics/scoring/roc.cpp b/src/ldt_statistics/scoring/roc.cpp
index fb34cf0..3a5318d 100644
--- a/src/ldt_statistics/scoring/roc.cpp
+++ b/src/ldt_statistics/scoring/roc.cpp
@@ -63,10 +63,10 @@ void ROC<hasWeight, hasCost>::Calculate(const Matrix<Tv> &y,
     }
 
     if (std::abs(th - thPre) > options.Epsilon) { // push new point(s)
-      sumTP += verti; // overall vertical move (for the rectangle)
-      sumFP += horiz;
+      sumFP += horiz; // overall horizontal move (for the rectangle)
       if (options.Pessimistic)
-        Points.push_back(std::make_tuple(sumFP, 0)); // no vertical move
+        Points.push_back(std::make_tuple(sumFP, sumTP)); // no vertical move
+      sumTP += verti;
       Points.push_back(std::make_tuple(sumFP, sumTP));
       thPre = th;
       horiz = 0;
@@ -107,8 +107,10 @@ void ROC<hasWeight, hasCost>::Calculate(const Matrix<Tv> &y,
     // https://link.springer.com/article/10.1007/s00357-019-09345-1
   }
 
-  sumTP += verti;
   sumFP += horiz;
+  if (options.Pessimistic)
+    Points.push_back(std::make_tuple(sumFP, sumTP));
+  sumTP += verti;
   Points.push_back(std::make_tuple(sumFP, sumTP));
 
   if (normalizePoints) {
-- 
2.43.0


From 5a2bf08073894b73017b40bf1ed79e0fcf6097ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:55 +0000
Subject: [PATCH 027/147] fix: DataSplitDiscrete divides the groups by the
 fixed size of the training sample

---
 src/ldt_statistics/data_split.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/data_split.cpp b/src/ldt_statistics/data_split.cpp
index 19327aa..ad8f0c7 100644
--- a/src/ldt_statistics/data_split.cpp
+++ b/src/ldt_statistics/data_split.cpp
@@ -26,12 +26,13 @@ void DataSplitDiscrete::Calculate(const Matrix<Tv> &data, Tv *storage,
 
   auto rows = data.RowsCount;
   auto cols = data.ColsCount;
-  mTrainRatio = trainRatio;
   mTrainFixSize = trainFixSize;
 
   // allocate size
   Ti N0 = mTrainFixSize > 0 ? mTrainFixSize
                             : static_cast<Ti>(std::round(rows * trainRatio));
+  // the groups are divided by the ratio of the requested training sample
+  mTrainRatio = mTrainFixSize > 0 ? static_cast<Tv>(N0) / rows : trainRatio;
   Ti N1 = rows - N0;
   Sample0.SetData(storage, N0, cols);
   Sample1.SetData(&storage[N0 * cols], N1, cols);
-- 
2.43.0


From 31689f7c656a31a0aa8ffc9157353f40c54ae561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 028/147] fix: Newton without line search must update the
 gradient

---
 src/ldt_math/optimization/newton.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ldt_math/optimization/newton.cpp b/src/ldt_math/optimization/newton.cpp
index b541700..b9130af 100644
--- a/src/ldt_math/optimization/newton.cpp
+++ b/src/ldt_math/optimization/newton.cpp
@@ -145,6 +145,7 @@ void Newton::minimize(
     } else {
       x0.Add_in0(d);
       FunctionValue = function(x0);
+      gradient(x0, Gradient);
     }
 
     if (checkFtol) {
-- 
2.43.0


From 766f5c7b3f0c2205d7fdad1358a2a67f91c0cd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:47 +0000
Subject: [PATCH 029/147] fix: seasonal lags of VARMA must not repeat the other
 lags

---
 src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
index 5a55be9..b9fb101 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
@@ -17,7 +17,8 @@ void ExpandPoly(Ti p, Ti P, Ti s, std::vector<Ti> &lags) {
     lags.push_back(i);
   if (s > 0)
     for (Ti i = s; i <= s * P; i += s)
-      lags.push_back(i);
+      if (i > p)
+        lags.push_back(i);
 }
 
 Ti ExpandPolyDiff_ws(Ti d, Ti D, Ti s) {
-- 
2.43.0


From c9e3aba21401e651e697477a97b71e7e1d3a270b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:47 +0000
Subject: [PATCH 030/147] fix: PolynomialM::Data must replace the current
 coefficients

---
 src/ldt_math/polynomials/mpolynomial.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ldt_math/polynomials/mpolynomial.cpp b/src/ldt_math/polynomials/mpolynomial.cpp
index a09d351..a5f3bab 100644
--- a/src/ldt_math/polynomials/mpolynomial.cpp
+++ b/src/ldt_math/polynomials/mpolynomial.cpp
@@ -27,6 +27,10 @@ PolynomialM::~PolynomialM() {
 }
 
 void PolynomialM::Data(std::vector<Matrix<Tv> *> &a, bool trim) {
+  if (isOwner)
+    for (auto i : Coefficients)
+      delete i;
+  Coefficients.clear();
   isOwner = false;
   Ti j = (Ti)a.size();
   // trim
@@ -46,6 +50,10 @@ void PolynomialM::Data(std::vector<Matrix<Tv> *> &a, bool trim) {
 Ti PolynomialM::Data(Ti degree, Ti m, Tv *data) {
 
   auto mm = m * m;
+  if (isOwner)
+    for (auto i : Coefficients)
+      delete i;
+  Coefficients.clear();
   isOwner = true; // delete the list
   for (Ti i = 0; i < degree + 1; i++)
     Coefficients.push_back(
-- 
2.43.0


From 2519bd5816984a276c48a3561b859d863d459b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:06 +0000
Subject: [PATCH 031/147] fix: VarmaArma writes one matrix past the MA
 representation

---
 .../modeling/time_series/varma/varma_arma.cpp               | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_arma.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_arma.cpp
index 9f803e3..bed7f92 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_arma.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_arma.cpp
@@ -101,19 +101,19 @@ void VarmaArma::Calculate(const Matrix<Tv> &Pi, Tv *storage, Tv *work) {
 
   // MaInf
   if (mMaInfCount > 0) {
-    MaInf.Data(mMaInfCount, m, &storage[p]);
+    MaInf.Data(mMaInfCount - 1, m, &storage[p]);
 
     if (sizes.HasDiff == false && sizes.HasAr == false) { // copy MA
 
       Ti i = 0;
       for (auto &a : Ma.Coefficients) {
-        a->CopyTo00(*MaInf.Coefficients.at(i));
         if (i == mMaInfCount)
           break;
+        a->CopyTo00(*MaInf.Coefficients.at(i));
         i++;
       }
 
-      for (i; i <= mMaInfCount; i++)
+      for (; i < mMaInfCount; i++)
         MaInf.Coefficients.at(i)->SetValue(0); // MA(i)=0 for i > madegree
 
     } else {
-- 
2.43.0


From 51029e7f4aa64d1398486e234bacb2abb0711f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:49 +0000
Subject: [PATCH 032/147] fix: VARMA must keep the coefficient matrix when
 details are not requested

---
 src/ldt_statistics/modeling/time_series/varma/varma.cpp      | 1 +
 .../modeling/time_series/varma/varma_sizes.cpp               | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma.cpp b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
index f2a51f2..698ffb8 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
@@ -460,6 +460,7 @@ void Varma::EstimateMl(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
     q = R->ColsCount;
 
   if (Sizes.HasMa == false && !R) {
+    Result.gamma.CopyTo00(Result.coef);
     if (mDoDetails) {
       SetDetails(*this, R);
       // logarithm Likelihood
diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
index b9fb101..4cf4ff1 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
@@ -259,9 +259,10 @@ void VarmaStorage::SetStorage(Tv *storage, const VarmaSizes &sizes,
   gammavar.SetData(&storage[pos], q, q);
   pos += gammavar.length();
 
+  coef.SetData(&storage[pos], g, f);
+  pos += coef.length();
+
   if (mKeepDetails) {
-    coef.SetData(&storage[pos], g, f);
-    pos += coef.length();
     coefstd.SetData(&storage[pos], g, f);
     pos += coefstd.length();
     coeft.SetData(&storage[pos], g, f);
-- 
2.43.0


From a5956452772ee743d712726a6a5f65dec2dca149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:49 +0000
Subject: [PATCH 033/147] fix: restricted VAR needs the work space of the
 optimization

---
 src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
index 4cf4ff1..c1906a1 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
@@ -220,7 +220,7 @@ VarmaStorage::VarmaStorage(bool keepDetails, bool isRestricted,
 
   // maximum likelihood
   Ti mlW = 0;
-  if (sizes.HasMa) {
+  if (sizes.HasMa || isRestricted) {
     auto derv = Derivative(q, true,
                            calculateVarCoefs); // TODO: add 'count' as an option
     LimitedMemoryBfgsbOptions opop;
-- 
2.43.0


From 74ddfe7d94566f5fb85ca46a04a2cd153e055bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:49 +0000
Subject: [PATCH 034/147] fix: likelihood of VARMA must use the number of
 observations in the sample

---
 src/ldt_statistics/modeling/time_series/varma/varma.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma.cpp b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
index 698ffb8..4c768c1 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
@@ -366,7 +366,7 @@ Tv MlFunction(const Matrix<Tv> &gamma, Varma &model, const Matrix<Tv> *R,
   MlUpdateResid(gamma, model, R, r, Pi, Xi, Ri);
   Ti n = model.Result.y.ColsCount;
   model.Result.resid.DotTr0(model.Result.resid, model.Result.sigma2);
-  model.Result.sigma2.Multiply_in((Tv)1 / (Tv)(n - gamma.ColsCount));
+  model.Result.sigma2.Multiply_in((Tv)1 / (Tv)n);
   return std::log(model.Result.sigma2.Det_pd0()) * n; // is it p.d.?
 }
 
@@ -455,7 +455,7 @@ void Varma::EstimateMl(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
   auto q = Sizes.NumParams;
   auto g = Sizes.EqsCount;
   auto f = Sizes.NumParamsEq;
-  auto T = Sizes.T;
+  auto T = Sizes.T - sampleEnd;
   if (R && R->length() > 0)
     q = R->ColsCount;
 
-- 
2.43.0


From 92aec4ecfe930ac8fa5e598f711bfcf4087933c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:49 +0000
Subject: [PATCH 035/147] fix: residuals of VARMA must belong to the estimated
 coefficients

---
 src/ldt_statistics/modeling/time_series/varma/varma.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma.cpp b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
index 4c768c1..685f3fa 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
@@ -541,11 +541,11 @@ void Varma::EstimateMl(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
                                      // have asked for second derivative
     Result.gammavar.Inv0();
     Result.gammavar.Multiply_in(2);
-
-    // update values
-    fun(Result.gamma);
   }
 
+  // update values
+  fun(Result.gamma);
+
   // update sigma2, it is destroyed while calculating determinant
   Ti n = Result.y.ColsCount;
   Result.resid.DotTr0(Result.resid, Result.sigma2);
-- 
2.43.0


From 92e566bbdda0a97a97ba5a67046132436e251d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:49 +0000
Subject: [PATCH 036/147] fix: positions in the storage of VARMA must not
 depend on the end of the sample when current estimates are used

---
 .../modeling/time_series/varma/varma_sizes.cpp             | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
index c1906a1..7760c85 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
@@ -248,12 +248,13 @@ void VarmaStorage::SetStorage(Tv *storage, const VarmaSizes &sizes,
 
   gamma.SetData(&storage[pos], q, 1);
   pos += gamma.length();
+  // positions are independent of 'sampleEnd' (current estimates might be used)
   resid.SetData(&storage[pos], g, T);
-  pos += resid.length();
+  pos += g * sizes.T;
   y.SetData(&storage[pos], g, T);
-  pos += y.length();
+  pos += g * sizes.T;
   Xt.SetData(0, &storage[pos], T, f);
-  pos += Xt.length();
+  pos += f * sizes.T;
   sigma2.SetData(&storage[pos], g, g);
   pos += sigma2.length();
   gammavar.SetData(&storage[pos], q, q);
-- 
2.43.0


From a00b92cbecef23114f76361c7353d0cd62b5e17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:12 +0000
Subject: [PATCH 037/147] fix: the likelihood of an explosive VARMA must not be
 NAN

---
 .../modeling/time_series/varma/varma.cpp               | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma.cpp b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
index 685f3fa..587085b 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
@@ -367,7 +367,15 @@ Tv MlFunction(const Matrix<Tv> &gamma, Varma &model, const Matrix<Tv> *R,
   Ti n = model.Result.y.ColsCount;
   model.Result.resid.DotTr0(model.Result.resid, model.Result.sigma2);
   model.Result.sigma2.Multiply_in((Tv)1 / (Tv)n);
-  return std::log(model.Result.sigma2.Det_pd0()) * n; // is it p.d.?
+
+  // the matrix is numerically singular when the residuals are explosive. In
+  // this case, use the upper bound of the determinant, because NAN stops the
+  // optimization
+  Tv bound = 0;
+  for (Ti i = 0; i < model.Result.sigma2.RowsCount; i++)
+    bound += std::log(model.Result.sigma2.Get0(i, i));
+  Tv logdet = std::log(model.Result.sigma2.Det_pd0());
+  return (std::isnan(logdet) ? bound : logdet) * n;
 }
 
 /*
-- 
2.43.0


From d07859b11bba080fb39b4303f9b78547385521a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:13 +0000
Subject: [PATCH 038/147] fix: log-likelihood of VARMA must account for the
 divisor of the objective function

---
 .../modeling/time_series/varma/varma.cpp               | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma.cpp b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
index 587085b..5da1629 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
@@ -366,7 +366,7 @@ Tv MlFunction(const Matrix<Tv> &gamma, Varma &model, const Matrix<Tv> *R,
   MlUpdateResid(gamma, model, R, r, Pi, Xi, Ri);
   Ti n = model.Result.y.ColsCount;
   model.Result.resid.DotTr0(model.Result.resid, model.Result.sigma2);
-  model.Result.sigma2.Multiply_in((Tv)1 / (Tv)n);
+  model.Result.sigma2.Multiply_in((Tv)1 / (Tv)(n - gamma.ColsCount));
 
   // the matrix is numerically singular when the residuals are explosive. In
   // this case, use the upper bound of the determinant, because NAN stops the
@@ -566,8 +566,12 @@ void Varma::EstimateMl(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
     Result.gamma.CopyTo00(Result.coef);
 
   if (mDoDetails) {
-    // logarithm Likelihood
-    CalculateGoodness(*this, T, g, f, Result.Optim.FunctionValue);
+    // logarithm Likelihood (divisor in the objective function is not 'n')
+    CalculateGoodness(*this, T, g, f,
+                      Result.Optim.FunctionValue +
+                          n * g *
+                              std::log((Tv)(n - Result.gamma.ColsCount) /
+                                       (Tv)n));
     SetDetails(*this, R);
   }
 }
-- 
2.43.0


From 50a8a8f808f61c5a9146a2ddef1279348e256d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:20 +0000
Subject: [PATCH 039/147] fix: range of an empty array must not be valid

---
 src/array.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/array.cpp b/src/array.cpp
index 24a4a13..54d685f 100644
--- a/src/array.cpp
+++ b/src/array.cpp
@@ -35,6 +35,9 @@ IndexRange Array<Tw>::GetRange(const Tw *data, const Ti &length) {
       if (std::isnan(data[start]) == false)
         break;
 
+    if (start >= length) // there is no valid data (length might be 0)
+      return IndexRange(1, 0);
+
     for (end = length; end > 0; end--)
       if (std::isnan(data[end - 1]) == false) {
         end--;
@@ -60,6 +63,9 @@ IndexRange Array<Tw>::GetRange(const Tw *data, const Ti &length,
       if (std::isnan(data[start]) == false)
         break;
 
+    if (start >= length) // there is no valid data (length might be 0)
+      return IndexRange(1, 0);
+
     for (end = length; end > 0; end--)
       if (std::isnan(data[end - 1]) == false) {
         end--;
-- 
2.43.0


From 0cfdba4de210bfadd5c18a6df25b758cac499548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:20 +0000
Subject: [PATCH 040/147] fix: partitions of an array from its end must not
 contain an empty one

---
 src/array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array.cpp b/src/array.cpp
index 54d685f..866a027 100644
--- a/src/array.cpp
+++ b/src/array.cpp
@@ -135,7 +135,7 @@ void Array<Tw>::PartitionEqual(const std::vector<Tw> &data,
                                bool fromEnd) {
   result.clear();
   if (fromEnd) {
-    for (Ti i = (Ti)data.size(); i >= 0; i -= size) {
+    for (Ti i = (Ti)data.size(); i > 0; i -= size) {
       int start = std::max(i - size, 0);
       result.insert(result.begin(),
                     std::vector<Tw>(data.begin() + start, data.begin() + i));
-- 
2.43.0


From b54beaa49cb06478ed96ec4fc7b974f171b2f63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:20 +0000
Subject: [PATCH 041/147] fix: moments of an array without information must not
 write through null pointers

---
 include/array.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/array.h b/include/array.h
index fdd7be8..2c4e13d 100644
--- a/include/array.h
+++ b/include/array.h
@@ -657,9 +657,12 @@ public:
 
     if (sumW == 0) {
       mean = NAN;
-      *variance = NAN;
-      *skewness = NAN;
-      *kurtosis = NAN;
+      if (variance)
+        *variance = NAN;
+      if (skewness)
+        *skewness = NAN;
+      if (kurtosis)
+        *kurtosis = NAN;
     } else {
 
       if constexpr (moments >= 2) {
-- 
2.43.0


From 3359548aab4eba4cb8d651a8838dbd31221c003c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:20 +0000
Subject: [PATCH 042/147] fix: power of a polynomial must not write beyond the
 given maximum length

---
 src/ldt_math/polynomials/polynomial.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ldt_math/polynomials/polynomial.cpp b/src/ldt_math/polynomials/polynomial.cpp
index 9010473..82c11f1 100644
--- a/src/ldt_math/polynomials/polynomial.cpp
+++ b/src/ldt_math/polynomials/polynomial.cpp
@@ -108,8 +108,8 @@ void PolynomialPower<Tw>::Calculate(const Polynomial<Tw> &a, Ti power,
     return;
   }
 
-  Result.Coefficients.SetSubVector0(0, a.Coefficients, 0,
-                                    a.Coefficients.length());
+  Result.Coefficients.SetSubVector0(
+      0, a.Coefficients, 0, std::min(length, a.Coefficients.length()));
   auto pm = PolynomialMultiply<Tw>(a_n, length - 1, maxLength);
   auto x = Matrix<Tw>(work, length, 1);
   for (Ti i = 1; i < power; i++) { // TODO: is there a direct formula?
-- 
2.43.0


From 291d04e8b8db8144db8e1dae4c07e937bef1d0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:20 +0000
Subject: [PATCH 043/147] fix: Nelder-Mead must handle an objective without
 finite values

---
 src/ldt_math/optimization/nelder_mead.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/ldt_math/optimization/nelder_mead.cpp b/src/ldt_math/optimization/nelder_mead.cpp
index 592d8cd..f5ba343 100644
--- a/src/ldt_math/optimization/nelder_mead.cpp
+++ b/src/ldt_math/optimization/nelder_mead.cpp
@@ -56,8 +56,9 @@ void NelderMead::Minimize(
 
   std::function<Tv(const Matrix<Tv> &)> f = [&](const Matrix<Tv> &x) -> Tv {
     try {
-      return objective(x) +
-             penaltyMultiplier * PenaltyFunction(x, lower, upper);
+      auto value =
+          objective(x) + penaltyMultiplier * PenaltyFunction(x, lower, upper);
+      return std::isnan(value) ? INFINITY : value;
     } catch (...) {
       return INFINITY;
     }
@@ -79,6 +80,14 @@ void NelderMead::Minimize(
     values.Data[i] = f(simplex[i]);
   }
 
+  bool has_finite = false;
+  for (Ti i = 0; i <= n; i++)
+    if (std::isfinite(values.Data[i]))
+      has_finite = true;
+  if (!has_finite)
+    throw LdtException(ErrorType::kLogic, "nelder-mead",
+                       "the objective is not finite at the starting points");
+
   // Initialize centroid, reflected, expanded, and contracted arrays
   auto centroid = Matrix<Tv>(&work[q], n, 1);
   q += n;
-- 
2.43.0


From 0a46595d961c838fc83a95aa08cffbb2cecd9bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:46 +0000
Subject: [PATCH 044/147] fix: derivatives must accept a function with fewer
 variables than the maximum

---
 src/ldt_math/derivative.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ldt_math/derivative.cpp b/src/ldt_math/derivative.cpp
index 70cbbd1..aa0b410 100644
--- a/src/ldt_math/derivative.cpp
+++ b/src/ldt_math/derivative.cpp
@@ -57,7 +57,7 @@ void Derivative::CalculateFirst(const std::function<Tv(const Matrix<Tv> &)> &f,
     throw LdtException(ErrorType::kLogic, "derivative", "invalid request");
 
   Result1.SetData(0, storage);
-  Result1.Restructure(n, 1);
+  Result1.Restructure0(n, 1);
 
   // auto dir = _dir(x);
   // if (dir.empty() == false && dir.size() != n)
@@ -164,7 +164,7 @@ void Derivative::CalculateSecond(const std::function<Tv(const Matrix<Tv> &)> &f,
     throw LdtException(ErrorType::kLogic, "derivative", "invalid request");
 
   Result2.SetData(0, storage);
-  Result2.Restructure(n, n); // in case n is smaller
+  Result2.Restructure0(n, n); // in case n is smaller
 
   Ti nn = n * (n + 1) / 2;
   Ti pos = 0;
-- 
2.43.0


From 2f12843d28cfad178b272d31f7a25e3160b0a8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:47 +0000
Subject: [PATCH 045/147] fix: degrees of freedom check in VARMA search must
 consider all parameters of an equation

---
 .../modeling/time_series/varma/varma_modelset.cpp               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
index 930cda4..a8c5c89 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
@@ -124,7 +124,7 @@ std::string VarmaSearcher::EstimateOneReg(Tv *work, Ti *workI,
         throw LdtException(ErrorType::kLogic, "varma-modelset",
                            "model check: minimum no. obs");
       if (this->pChecks->MinDof > 0 &&
-          this->pChecks->MinDof > ycount - X.RowsCount)
+          this->pChecks->MinDof > ycount - this->Sizes.NumParamsEq)
         throw LdtException(ErrorType::kLogic, "varma-modelset",
                            "model check: minimum dof");
     }
-- 
2.43.0


From 84d05f1309219cb81476090386da3ec9cf712f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:47 +0000
Subject: [PATCH 046/147] fix: bounds of predictions must be checked for all
 horizons in VARMA search

---
 .../modeling/time_series/varma/varma_modelset.cpp          | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
index a8c5c89..e1f32a1 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
@@ -182,9 +182,10 @@ std::string VarmaSearcher::EstimateOneReg(Tv *work, Ti *workI,
         for (auto &t : this->CurrentIndices.Vec) { // is it a target?
           i++;
           if (t < this->pItems->LengthTargets) {
-            Ti j = -1;
-            for (auto &h : this->pMetrics->Horizons) {
-              j++;
+            auto maxH = std::min(
+                {mMaxHorizonCheck, pChecks->PredictionLower.RowsCount,
+                 pChecks->PredictionUpper.RowsCount});
+            for (Ti h = 1; h <= maxH; h++) {
 
               if (this->pOptions->RequestCancel)
                 return "";
-- 
2.43.0


From 9d2814d66951d0d740ae26dc4361aa60d9ed1bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 047/147] fix: invalid VARMA simulations must not include those
 without enough observations

---
 .../modeling/time_series/varma/varma_simulation.cpp             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp
index d37ca81..d331f93 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp
@@ -240,7 +240,6 @@ void VarmaSimulation::Calculate(Tv *storage, Tv *work, Matrix<Tv> &data,
     if (cancel)
       return;
     useCurrentEstims = usePreviousEstim && success;
-    invalidCounts++;
     actIndex = T - se - 1;
     if (actIndex < 0)
       break;
@@ -261,6 +260,7 @@ void VarmaSimulation::Calculate(Tv *storage, Tv *work, Matrix<Tv> &data,
     // update sizes by current sampleEnd. se is different which means Xt,
     // resid, etc are different
     auto forecast0 = &Forecast;
+    invalidCounts++;
     try {
       Model.EstimateMl(data, exo, estimForecastWork, estimStorage,
                        isRestricted ? R : nullptr, isRestricted ? r : nullptr,
-- 
2.43.0


From 045161d0cbc72ccc4950a78b9f8c485050882c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 048/147] fix: forecasting by VARMA must not read residuals
 before the start of the sample

---
 .../modeling/time_series/varma/varma_forecast.cpp               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_forecast.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_forecast.cpp
index b3f0a37..a416dcb 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_forecast.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_forecast.cpp
@@ -63,7 +63,7 @@ void xtprime(Matrix<Tv> &xt, const Matrix<Tv> &forecast,
                      // sense of Eviews
     for (auto &l : sizes.MaLags) {
       auto ind = resid_ind + fRow - l;
-      if (ind < resid.ColsCount)
+      if (ind >= 0 && ind < resid.ColsCount)
         xt.SetSub0(sR, 0, resid, 0, ind, forecast.RowsCount, 1);
       sR += forecast.RowsCount;
     }
-- 
2.43.0


From 14c534bbef81f7cf75d6fc47205cf61beb130727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 049/147] fix: sizes in VARMA search must consider the longest
 endogenous series

---
 .../modeling/time_series/varma/varma_modelset.cpp         | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
index e1f32a1..4364f07 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
@@ -353,9 +353,11 @@ VarmaModelset::VarmaModelset(const SearchData &data,
   if (ExoIndexes.size() == 0)
     ExoIndexes.resize(1); // add empty for loop
 
-  auto T = source.Ranges.at(0).EndIndex +
-           1; // The first target determines the number of observations
-              // (this is required for out-of-sample exogenous data)
+  // The longest endogenous series determines the number of observations (this
+  // is required for out-of-sample exogenous data)
+  Ti T = 0;
+  for (Ti i = 0; i < items.LengthEndogenous; i++)
+    T = std::max(T, source.Ranges.at(i).EndIndex + 1);
 
   for (auto const &s : combinations.Sizes) {
     if (s <= 0)
-- 
2.43.0


From b3edd2182c014b49e27b205ad0479cb5150a2174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:59 +0000
Subject: [PATCH 050/147] fix: sizes must also be checked in VARMA forecasts
 with new exogenous data

---
 .../time_series/varma/varma_forecast.cpp      | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_forecast.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_forecast.cpp
index a416dcb..43aabcf 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_forecast.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_forecast.cpp
@@ -91,17 +91,15 @@ void VarmaForecast::Calculate(const Varma &estimate, const Matrix<Tv> *exo,
   Ti x_ind = sizes.T - estimate.SampleEnd;
   if (exoIsNew)
     x_ind = -sizes.ArMax_d;
-  else {
-    // check
-    if (resid_ind < 0)
-      throw LdtException(
-          ErrorType::kLogic, "varma-forecast",
-          "in forecast, end-sample must be larger than 'maxp+diff'");
-    if (sizes.ExoCount != 0 && (exo->ColsCount < x_ind + h_armax_d))
-      throw LdtException(ErrorType::kLogic, "varma-forecast",
-                         "in forecasting by VARMA, length of exogenous data is "
-                         "less than the requested horizon");
-  }
+  // check
+  if (resid_ind < 0)
+    throw LdtException(
+        ErrorType::kLogic, "varma-forecast",
+        "in forecast, end-sample must be larger than 'maxp+diff'");
+  if (sizes.ExoCount != 0 && (exo->ColsCount < x_ind + h_armax_d))
+    throw LdtException(ErrorType::kLogic, "varma-forecast",
+                       "in forecasting by VARMA, length of exogenous data is "
+                       "less than the requested horizon");
 
   if (undiff_y == nullptr)
     undiff_y = &estimate.Result.y;
-- 
2.43.0


From 732b8f0ef641cbece89ff33ee366036f4cceb19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:06 +0000
Subject: [PATCH 051/147] fix: VARMA simulation must not accumulate the results
 of previous calculations

---
 .../modeling/time_series/varma/varma_simulation.cpp            | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp
index d331f93..fc4ef41 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp
@@ -462,6 +462,9 @@ void VarmaSimulation::CalculateE(Tv *storage, Tv *work, Matrix<Tv> &data,
   pos += yy;
   auto lastIndex = D.End;
 
+  ValidCounts = 0;
+  Errors.clear();
+  Details.clear();
   bool useCurrentEstims;
   Ti k;
   Ti forIndex;
-- 
2.43.0


From 68878f1c8f966d39239f923fa6e192be9f212695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:04 +0000
Subject: [PATCH 052/147] fix: all directions must be calculated in PCA when
 there are more variables than observations

---
 src/ldt_statistics/pca.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/pca.cpp b/src/ldt_statistics/pca.cpp
index a79726f..099d4ba 100644
--- a/src/ldt_statistics/pca.cpp
+++ b/src/ldt_statistics/pca.cpp
@@ -21,7 +21,7 @@ PcaAnalysis::PcaAnalysis(Ti rows, Ti cols, Ti numForecast, bool doPCs,
   if (scale == false)
     checkZeroVar = false;
   auto mn = std::min(rows, cols);
-  auto svd = MatrixSvd<Tv>(rows, cols, 'N', 'S');
+  auto svd = MatrixSvd<Tv>(rows, cols, 'N', 'A');
   WorkSize = svd.WorkSize;
 
   // initialize matrices
@@ -92,7 +92,7 @@ void PcaAnalysis::Calculate(const Matrix<Tv> &mat, Tv *work, Tv *storage,
   cols =
       useMat.ColsCount; // update number of columns, in case columns are removed
 
-  auto svd = MatrixSvd<Tv>(rows, cols, 'N', 'S');
+  auto svd = MatrixSvd<Tv>(rows, cols, 'N', 'A');
   auto svd_storage =
       &storage[q]; // I will reuse storage in SVD (don't increase q)
   Stds.SetData(&storage[q], mn, 1);
-- 
2.43.0


From 3ad5b036ea178a34ab5c8e584886767d1828c78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:39 +0000
Subject: [PATCH 053/147] fix: number of selected principal components must not
 exceed the available ones

---
 src/ldt_statistics/pca.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/pca.cpp b/src/ldt_statistics/pca.cpp
index 099d4ba..0048ec2 100644
--- a/src/ldt_statistics/pca.cpp
+++ b/src/ldt_statistics/pca.cpp
@@ -149,7 +149,7 @@ Ti PcaAnalysis::GetCutoffColumn(Tv CutoffRate) const {
     if (cumsum > CutoffRate)
       break;
   }
-  return col_cut;
+  return std::min(col_cut, (Ti)Stds2Ratios.length());
 }
 
 void PcaAnalysisOptions::CalculateForModel(PcaAnalysis &model, Matrix<Tv> &data,
@@ -187,6 +187,10 @@ void PcaAnalysisOptions::CalculateForModel(PcaAnalysis &model, Matrix<Tv> &data,
 
   // copy required number of columns to the useMat
   auto cutoff_col = this->GetFinalCount(model);
+  if (cutoff_col > model.Stds.length())
+    throw LdtException(ErrorType::kLogic, "pca",
+                       "number of components in PCA options is larger than "
+                       "the number of available components");
   model.PCs.Restructure0(model.PCs.RowsCount, cutoff_col);
   pcaMat.CopyFrom00(model.PCs); // don't check size
   data.Restructure0(
-- 
2.43.0


From 2b4bbe27be63bec6a73c408da3b51cd91e27634b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:39 +0000
Subject: [PATCH 054/147] fix: storage of new exogenous data in SUR with PCA
 must not depend on number of components

---
 src/ldt_statistics/modeling/linear/sur_extended.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/linear/sur_extended.cpp b/src/ldt_statistics/modeling/linear/sur_extended.cpp
index 7373d14..c3a9f87 100644
--- a/src/ldt_statistics/modeling/linear/sur_extended.cpp
+++ b/src/ldt_statistics/modeling/linear/sur_extended.cpp
@@ -42,13 +42,12 @@ SurExtended::SurExtended(Ti N, Ti m, Ti k, bool isRestricted, bool checkNan,
     PcaX = PcaAnalysis(N, k, numProjections, true, true, true, true);
     StorageSize += PcaX.StorageSize;
     WorkSize = std::max(WorkSize, PcaX.WorkSize);
+    if (numProjections > 0)
+      StorageSize += numProjections * k; // copy X
     // update number of exogenous data
     k = std::min(k,
                  pcaOptionsX->CutoffCountMax +
                      pcaOptionsX->IgnoreFirstCount); // for estimating the model
-
-    if (numProjections > 0)
-      StorageSize += numProjections * k; // copy X
   }
 
   Model = Sur(N, m, k, isRestricted, doDetails, maxSigSearchIter);
-- 
2.43.0


From 40a295b7f57674293bcbb58b71907d5116b1cdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:39 +0000
Subject: [PATCH 055/147] fix: number of variables in VARMA with PCA must be
 distinguished from number of components

---
 .../math/statistics/inference/models/varma.h  |  1 +
 .../time_series/varma/varma_extended.cpp      | 33 ++++++++++++++-----
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/include/math/statistics/inference/models/varma.h b/include/math/statistics/inference/models/varma.h
index ade40b0..0f5eb57 100644
--- a/include/math/statistics/inference/models/varma.h
+++ b/include/math/statistics/inference/models/varma.h
@@ -356,6 +356,7 @@ class LDT_EXPORT VarmaExtended {
   bool mCalcVariance = false;
   bool mHasPcaY = false;
   bool mHasPcaX = false;
+  VarmaSizes mDataSizes; // sizes before PCA
 
 public:
   bool mCheckNan = false;
diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_extended.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_extended.cpp
index 1f95cb2..d20bdac 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_extended.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_extended.cpp
@@ -24,6 +24,7 @@ VarmaExtended::VarmaExtended(
   mHorizon = fHorizon;
 
   Sizes = VarmaSizes(sizes); // it changes in the PCA
+  mDataSizes = VarmaSizes(sizes);
 
   StorageSize = 0;
   WorkSize = 0;
@@ -99,7 +100,7 @@ void VarmaExtended::Calculate(Matrix<Tv> &data, Tv *storage, Tv *work,
         ErrorType::kLogic, "varma-extended",
         "reserved maximum number of horizon is lower that the given horizon");
 
-  auto temp = VarmaExtended(Sizes, mRestriction, mCheckNan, mDoDetails,
+  auto temp = VarmaExtended(mDataSizes, mRestriction, mCheckNan, mDoDetails,
                             mCalcVariance, horizon, pPcaOptionsY, pPcaOptionsX,
                             &Model.Result.Optim.Options);
   if (temp.WorkSize > WorkSize || temp.StorageSize > StorageSize)
@@ -129,10 +130,12 @@ void VarmaExtended::Calculate(Matrix<Tv> &data, Tv *storage, Tv *work,
   Ti count = Data.Result.RowsCount; // note that sample end will be effective
                                     // in the Varma estimation
   Tv *d = Data.Result.Data;
-  Y.SetData(d, count, Sizes.EqsCount); // since variables are in columns and
+  Ti numEndo = mDataSizes.EqsCount;
+  Ti numExo = mDataSizes.ExoCount;
+  Y.SetData(d, count, numEndo); // since variables are in columns and
                                        // matrix is column-major
-  if (Sizes.ExoCount > 0)
-    X.SetData(&d[Sizes.EqsCount * count], count, Sizes.ExoCount);
+  if (numExo > 0)
+    X.SetData(&d[numEndo * count], count, numExo);
 
   if (mHasPcaY) { // change data for Y
     pPcaOptionsY->CalculateForModel(PcaY, Y, work, &storage[p], nullptr);
@@ -140,16 +143,16 @@ void VarmaExtended::Calculate(Matrix<Tv> &data, Tv *storage, Tv *work,
   }
 
   auto useExoForecast = Matrix<Tv>();
-  if (Sizes.ExoCount > 0) { // change data for X
+  if (numExo > 0) { // change data for X
     if (horizon > 0) {
       if (data.RowsCount <= Data.End + horizon - sampleEnd)
         throw LdtException(
             ErrorType::kLogic, "varma-extended",
             "not enough exogenous data point exists in the given horizon");
-      useExoForecast.SetData(&storage[p], horizon, X.ColsCount);
-      p += horizon * X.ColsCount;
-      useExoForecast.SetSub(0, 0, data, Data.End + 1 - sampleEnd,
-                            Sizes.EqsCount, horizon, X.ColsCount);
+      useExoForecast.SetData(&storage[p], horizon, numExo);
+      p += horizon * numExo;
+      useExoForecast.SetSub(0, 0, data, Data.End + 1 - sampleEnd, numEndo,
+                            horizon, numExo);
     }
     if (mHasPcaX) {
       pPcaOptionsX->CalculateForModel(PcaX, X, work, &storage[p],
@@ -158,6 +161,18 @@ void VarmaExtended::Calculate(Matrix<Tv> &data, Tv *storage, Tv *work,
     }
   }
 
+  // update the sizes by the actual number of components
+  if (Sizes.EqsCount != Y.ColsCount || Sizes.ExoCount != X.ColsCount) {
+    auto options = Model.Result.Optim.Options;
+    Sizes.EqsCount = Y.ColsCount;
+    Sizes.ExoCount = X.ColsCount;
+    Sizes.UpdateChanged();
+    Model = Varma(Sizes, VarmaRestriction(Sizes, mRestriction).IsRestricted,
+                  mDoDetails, mCalcVariance, &options);
+    if (horizon > 0)
+      Forecasts = VarmaForecast(Sizes, horizon);
+  }
+
   // restrictions
 
   Restriction = VarmaRestriction(Sizes, mRestriction);
-- 
2.43.0


From 2ff965f6e62fe259be23c7524a732a3e9e0ac8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:58 +0000
Subject: [PATCH 056/147] fix: length of a single-day week range and backward
 distance of week days

---
 src/frequency/f_base.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frequency/f_base.cpp b/src/frequency/f_base.cpp
index 55d4f3d..cf2e351 100644
--- a/src/frequency/f_base.cpp
+++ b/src/frequency/f_base.cpp
@@ -230,7 +230,7 @@ DayOfWeekRange::DayOfWeekRange(DayOfWeek start, DayOfWeek end) {
 Ti DayOfWeekRange::GetLength() const {
   Ti start = (Ti)mStart;
   Ti end = (Ti)mEnd;
-  if (end > start)
+  if (end >= start)
     return (Ti)end - start + 1;
   else
     return 7 - (start - end) + 1;
@@ -248,7 +248,7 @@ Ti DayOfWeekRange::Distance(DayOfWeek start, DayOfWeek end, bool forward) {
     if (s >= e)
       return s - e;
     else
-      return 7 - s + e;
+      return 7 - e + s;
   }
 }
 
-- 
2.43.0


From 40973f5273c9c8780d2a37b558a1aa19a6f4ed7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:58 +0000
Subject: [PATCH 057/147] fix: comparing list frequencies must consider the
 positions outside the list

---
 src/frequency/f_list.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/frequency/f_list.cpp b/src/frequency/f_list.cpp
index 1d2718c..83cb4e2 100644
--- a/src/frequency/f_list.cpp
+++ b/src/frequency/f_list.cpp
@@ -53,13 +53,8 @@ template <typename T> void FrequencyList<T>::Next(Ti steps) {
 template <typename T> Ti FrequencyList<T>::CompareTo(Frequency const &other) {
   CheckClassEquality(*this, other);
   auto second = dynamic_cast<FrequencyList<T> const &>(other);
-  auto i1 = GetIndex();
-  auto i2 = second.GetIndex();
-  if (i1 > i2)
-    return 1;
-  else if (i1 < i2)
-    return -1;
-  return 0;
+  auto diff = Minus(second);
+  return diff > 0 ? 1 : diff < 0 ? -1 : 0;
 }
 
 template <typename T> Ti FrequencyList<T>::Minus(Frequency const &other) {
-- 
2.43.0


From c0762f5d8cc315c3020d42b7f273d6302f70d4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:58 +0000
Subject: [PATCH 058/147] fix: invalid positions and counts must be rejected in
 parsing frequencies

---
 src/frequency/f_day_based.cpp  | 4 ++++
 src/frequency/f_week_based.cpp | 3 +++
 src/frequency/f_year_based.cpp | 4 ++++
 3 files changed, 11 insertions(+)

diff --git a/src/frequency/f_day_based.cpp b/src/frequency/f_day_based.cpp
index e608b2c..231d81b 100644
--- a/src/frequency/f_day_based.cpp
+++ b/src/frequency/f_day_based.cpp
@@ -147,6 +147,10 @@ void FrequencyDayBased::Parse0(const std::string &str,
     else
       throw LdtException(ErrorType::kLogic, "freq-daybased",
                          "invalid class for a day-based frequency");
+    if (result.mPartitionCount <= 0 || result.mPosition <= 0 ||
+        result.mPosition > result.mPartitionCount)
+      throw LdtException(ErrorType::kLogic, "freq-daybased",
+                         "invalid position or count");
   } catch (...) {
 
     try {
diff --git a/src/frequency/f_week_based.cpp b/src/frequency/f_week_based.cpp
index f71769d..8f21ab8 100644
--- a/src/frequency/f_week_based.cpp
+++ b/src/frequency/f_week_based.cpp
@@ -182,6 +182,9 @@ void FrequencyWeekBased::Parse0(const std::string &str,
     } else
       throw LdtException(ErrorType::kLogic, "freq-weekbased",
                          "invalid class for a week-based frequency");
+    if (result.mMulti <= 0)
+      throw LdtException(ErrorType::kLogic, "freq-weekbased",
+                         "invalid number of days or weeks");
   } catch (...) {
 
     try {
diff --git a/src/frequency/f_year_based.cpp b/src/frequency/f_year_based.cpp
index 86b7682..daf5566 100644
--- a/src/frequency/f_year_based.cpp
+++ b/src/frequency/f_year_based.cpp
@@ -177,6 +177,10 @@ void FrequencyYearBased::Parse0(const std::string &str,
         throw LdtException(ErrorType::kLogic, "freq-yearbased",
                            "invalid class for a year-based frequency");
     }
+    if (result.mPartitionCount <= 0 || result.mYearMulti <= 0 ||
+        result.mPosition <= 0 || result.mPosition > result.mPartitionCount)
+      throw LdtException(ErrorType::kLogic, "freq-yearbased",
+                         "invalid position or count");
   } catch (...) {
     try {
       std::rethrow_exception(std::current_exception());
-- 
2.43.0


From 2b6b824cf3dd0f93cad297cd31e1fb3d22da7e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:58 +0000
Subject: [PATCH 059/147] fix: variables without any data or fields must be
 parsed

---
 src/variable/variable.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/variable/variable.cpp b/src/variable/variable.cpp
index d18790e..c1df746 100644
--- a/src/variable/variable.cpp
+++ b/src/variable/variable.cpp
@@ -146,7 +146,8 @@ void Variable<Tw>::Parse(const std::string &str, Variable<Tw> &result,
     // data
     result.Data.clear();
     std::vector<std::string> parts_d;
-    Split(parts.at(3), std::string(";"), parts_d);
+    if (parts.at(3).empty() == false)
+      Split(parts.at(3), std::string(";"), parts_d);
     result.Data.reserve(parts_d.size());
     for (auto const &d : parts_d) {
       if constexpr (std::is_same<Tw, double>()) {
@@ -167,8 +168,10 @@ void Variable<Tw>::Parse(const std::string &str, Variable<Tw> &result,
     // Fields
     result.Fields.clear();
     for (Ti i = 4; i < (Ti)parts.size(); i++) {
+      if (parts.at(i).empty()) // there is no field
+        continue;
       auto j = parts.at(i).find(std::string(";"));
-      if (j < 0)
+      if (j == std::string::npos)
         throw LdtException(ErrorType::kLogic, "variable",
                            "invalid field: Key-Value separator is missing");
       result.Fields.insert(
-- 
2.43.0


From e1c80657ca0274aaed068b1236e5080f7c4ba3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:58 +0000
Subject: [PATCH 060/147] fix: observations must be kept in their dates in
 conversion to daily

---
 src/variable/variable.cpp | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/variable/variable.cpp b/src/variable/variable.cpp
index c1df746..a657e2e 100644
--- a/src/variable/variable.cpp
+++ b/src/variable/variable.cpp
@@ -235,7 +235,19 @@ void Variable<Tw>::ConvertTo_Daily(
             *StartFrequency.get());
     result.Data.clear();
 
-    auto dates = startList.pItems;
+    // data starts from the current item of the list
+    auto start = startList.GetIndex();
+    if (startList.OutIndex != 0 || start < 0 ||
+        start + (Ti)Data.size() > (Ti)startList.pItems->size())
+      throw LdtException(ErrorType::kLogic, "variable",
+                         "some observations are outside the list of dates");
+    if (Data.size() == 0)
+      throw LdtException(ErrorType::kLogic, "variable",
+                         "no observation is available");
+    std::vector<boost::gregorian::date> used(
+        startList.pItems->begin() + start,
+        startList.pItems->begin() + start + Data.size());
+    auto dates = &used;
     auto minmax = std::minmax_element(dates->begin(), dates->end());
     auto min_date = *minmax.first;
     auto duration = (*minmax.second) - min_date;
@@ -259,23 +271,17 @@ void Variable<Tw>::ConvertTo_Daily(
         dynamic_cast<FrequencyWeekBased const &>(*StartFrequency.get());
     result.Data.clear();
 
-    auto range = startF.mRange;
     auto startDay = startF.mDay;
 
-    auto weekSize = range.GetLength();
-    auto weekEndCount = 7 - weekSize;
-    auto numWeeks = std::ceil((Tv)Data.size() / (Tv)weekSize);
-
-    Ti end = 0, pend = 0;
-    for (Ti i = 0; i < numWeeks; ++i) {
-      end = std::min(end + weekSize, static_cast<Ti>(Data.size()));
-      for (Ti p = pend; p < end; p++)
-        result.Data.push_back(Data.at(p));
-      pend = end;
-      if (i != numWeeks - 1) { // don't insert NAN at the end
-        for (Ti p = 0; p < weekEndCount; p++)
+    auto day = startDay;
+    for (Ti i = 0; i < (Ti)Data.size(); ++i) {
+      if (i > 0) { // insert NAN for the days outside the week
+        startF.Next(1);
+        for (day = day + boost::gregorian::days(1); day < startF.mDay;
+             day = day + boost::gregorian::days(1))
           result.Data.push_back(NAN);
       }
+      result.Data.push_back(Data.at(i));
     }
     result.Name = Name;
     result.StartFrequency = std::move(FrequencyWeekBased::Daily(startDay));
-- 
2.43.0


From 28ad161a2a204b472a43f2f7deb5260dd197c970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:58 +0000
Subject: [PATCH 061/147] fix: parts of different years must be distinguished
 in conversion from daily data

---
 src/variable/variable.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/variable/variable.cpp b/src/variable/variable.cpp
index a657e2e..414d155 100644
--- a/src/variable/variable.cpp
+++ b/src/variable/variable.cpp
@@ -384,12 +384,10 @@ void Variable<Tw>::ConvertTo_Weekly(
 
 static Ti get_part(boost::gregorian::date date, Ti x) {
   auto day_of_year = date.day_of_year();
-  int partition;
-  if (boost::gregorian::gregorian_calendar::is_leap_year(date.year()))
-    partition = ((day_of_year - 1) / 366.0) * x + 1;
-  else
-    partition = ((day_of_year - 1) / 365.0) * x + 1;
-  return partition;
+  Ti days =
+      boost::gregorian::gregorian_calendar::is_leap_year(date.year()) ? 366
+                                                                      : 365;
+  return ((Ti)day_of_year - 1) * x / days + 1;
 }
 
 template <typename Tw>
@@ -413,18 +411,21 @@ void Variable<Tw>::ConvertTo_XxYear(
 
     auto current_part = get_part(start.mDay, x);
     auto part = current_part;
+    Ti current_year = start.mDay.year();
 
     for (Ti i = 0; i < (Ti)Data.size(); i++) {
 
       auto day = start.mDay + boost::gregorian::date_duration(i);
       part = get_part(day, x);
+      Ti year = day.year();
 
-      if (part != current_part) {
+      if (part != current_part || year != current_year) {
         result.Data.push_back(aggF(partdata));
         partdata.clear();
       }
       partdata.push_back(Data.at(i));
       current_part = part;
+      current_year = year;
     }
     if (partdata.size() > 0)
       result.Data.push_back(aggF(partdata));
-- 
2.43.0


From 06292e9521150c752077a719a8e05a068a4fa939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:57 +0000
Subject: [PATCH 062/147] fix: maximum of a distribution must be returned as
 its property

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 4172310..95f1e7d 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -186,7 +186,7 @@ Tv DistributionBase::GetProperty(DistributionProperty propType) {
   case ldt::DistributionProperty::kMinimum:
     return GetMinimum();
   case ldt::DistributionProperty::kMaximum:
-    return GetMinimum();
+    return GetMaximum();
   case ldt::DistributionProperty::kMedian:
     return GetMedian();
   case ldt::DistributionProperty::kMode:
-- 
2.43.0


From 3e301df390f365aa3928a29e1acbbdc936e2e0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:57 +0000
Subject: [PATCH 063/147] fix: standard deviation of log-normal distribution
 must be the root of its variance

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 95f1e7d..74e0b1c 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -468,8 +468,6 @@ template <DistributionType type> Tv Distribution<type>::GetVariance() {
 template <DistributionType type> Tv Distribution<type>::GetSandardDeviation() {
   if constexpr (type == DistributionType::kNormal) {
     return mParam2;
-  } else if constexpr (type == DistributionType::kLogNormal) {
-    return (Tv)1 / mParam1;
   } else if constexpr (true) {
     return (Tv)std::sqrt(GetVariance());
   }
-- 
2.43.0


From db5c31b01783bbed5cae942b364933c6f96e7118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:57 +0000
Subject: [PATCH 064/147] fix: second degrees of freedom must be used in
 sampling from F distribution

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 74e0b1c..59c8c24 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -1307,7 +1307,7 @@ void Distribution<type>::GetSample(Tv *storage, Ti length, unsigned int seed) {
     for (i = 0; i < length; i++)
       storage[i] = Dst(eng);
   } else if constexpr (type == DistributionType::kF) {
-    std::fisher_f_distribution<Tv> Dst(mParam1);
+    std::fisher_f_distribution<Tv> Dst(mParam1, mParam2);
     for (i = 0; i < length; i++)
       storage[i] = Dst(eng);
   } else if constexpr (type == DistributionType::kGamma) {
@@ -1380,7 +1380,7 @@ Tv Distribution<type>::GetSample1(std::mt19937 &eng) {
     std::exponential_distribution<Tv> Dst(mParam1);
     return Dst(eng);
   } else if constexpr (type == DistributionType::kF) {
-    std::fisher_f_distribution<Tv> Dst(mParam1);
+    std::fisher_f_distribution<Tv> Dst(mParam1, mParam2);
     return Dst(eng);
   } else if constexpr (type == DistributionType::kGamma) {
     std::gamma_distribution<Tv> Dst(mParam1, mParam2);
-- 
2.43.0


From 2df0d9644fb8e590e81201869af88bb2ca4edc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:57 +0000
Subject: [PATCH 065/147] fix: a single sample from GLD must be a quantile

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 59c8c24..1f91997 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -1392,7 +1392,8 @@ Tv Distribution<type>::GetSample1(std::mt19937 &eng) {
     // return Dst(eng);
   } else if constexpr (type == DistributionType::kGldFkml) {
     std::uniform_real_distribution<Tv> Dst(0, 1); // generate p
-    return Dst(eng);
+    return DistributionGld::GetQuantile(Dst(eng), mParam1, mParam2, mParam3,
+                                        mParam4);
   } else if constexpr (true) {
     throw LdtException(ErrorType::kLogic, "distributions",
                        "not implemented (distribution type)");
-- 
2.43.0


From ccc49c2043804352f49838cef311044a1a77b060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:57 +0000
Subject: [PATCH 066/147] fix: mode of Beta must be at the bounds for shapes
 less than or equal to one

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 1f91997..cb3c0c9 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -748,11 +748,11 @@ template <DistributionType type> Tv Distribution<type>::GetMode() {
   } else if constexpr (type == DistributionType::kBeta) {
     if (mParam1 == (Tv)1 && mParam2 == (Tv)1)
       return 0.5; // any value in (0,1))
-    if (mParam1 <= (Tv)1 && mParam2 > (Tv)0)
+    if (mParam1 <= (Tv)1 && mParam2 >= (Tv)1)
       return 0;
-    if (mParam1 > (Tv)1 && mParam2 <= (Tv)0)
+    if (mParam1 >= (Tv)1 && mParam2 <= (Tv)1)
       return (Tv)1;
-    if (mParam1 < 1 && mParam2 < 0)
+    if (mParam1 < 1 && mParam2 < 1)
       return (Tv)1; // or 0
     return (mParam1 - 1) / (mParam1 + mParam2 - (Tv)2);
   } else if constexpr (type == DistributionType::kUniformDis) {
-- 
2.43.0


From 00ea4c015b8ddae1fc371aa24bc0d50976c2a6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:57 +0000
Subject: [PATCH 067/147] fix: mode of Binomial must not exceed the number of
 trials

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index cb3c0c9..ff8b259 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -771,7 +771,7 @@ template <DistributionType type> Tv Distribution<type>::GetMode() {
            : mParam1 > 0.5   ? (Tv)1
                              : (Tv)0; // for 0.5, 1 is also mode
   } else if constexpr (type == DistributionType::kBinomial) {
-    return std::floor((mParam2 + 1) * mParam1);
+    return std::min(mParam2, std::floor((mParam2 + 1) * mParam1));
   } else if constexpr (true) {
     if constexpr (std::numeric_limits<Tv>::has_quiet_NaN) {
       return std::numeric_limits<Tv>::quiet_NaN();
-- 
2.43.0


From f32c95eee49f7565e52a749916bd21c50b42d5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:57 +0000
Subject: [PATCH 068/147] fix: distribution function of discrete distributions
 must be a step function

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index ff8b259..23c8fda 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -1040,6 +1040,8 @@ template <DistributionType type> Tv Distribution<type>::GetCdf(Tv x) {
     return (Tv)1;
   if (std::isinf(x) && x < (Tv)0)
     return (Tv)0;
+  if (IsDiscrete())
+    x = std::floor(x);
 
   if constexpr (type == DistributionType::kNormal) {
     return 0.5 * erfc((mParam1 - x) / (mParam2 * c_sqrt2));
@@ -1071,8 +1073,10 @@ template <DistributionType type> Tv Distribution<type>::GetCdf(Tv x) {
   } else if constexpr (type == DistributionType::kGeometric) {
     return (Tv)1 - std::pow(1 - mParam1, x + 1);
   } else if constexpr (type == DistributionType::kBernoulli) {
-    return x == (Tv)0 ? (Tv)0 : x == 1 ? 1 : 1 - mParam1;
+    return x == 1 ? 1 : 1 - mParam1;
   } else if constexpr (type == DistributionType::kBinomial) {
+    if (x == mParam2)
+      return (Tv)1;
     // using kF
     auto d1 = (Tv)2 * (mParam2 - x);
     auto d2 = (Tv)2 * (x + 1);
-- 
2.43.0


From 4f4f9c6755f4ba0a9515fae6b238d25e509e68fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:57 +0000
Subject: [PATCH 069/147] fix: quantiles of discrete distributions must be
 found in all cases

---
 .../distributions/distributions_uni.cpp       | 53 ++++++-------------
 1 file changed, 17 insertions(+), 36 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 23c8fda..0b788d6 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -1137,48 +1137,29 @@ template <DistributionType type> Tv Distribution<type>::GetQuantile(Tv p) {
     return Math_iBetaInv(mParam1, mParam2, p);
   } else if constexpr (type == DistributionType::kGldFkml) {
     return DistributionGld::GetQuantile(p, mParam1, mParam2, mParam3, mParam4);
-  } else if constexpr (type == DistributionType::kUniformDis) {
-    Tv d = mParam1 + p * (mParam2 - mParam1);
-    return std::floor(d);
-  } else if constexpr (type == DistributionType::kPoisson ||
+  } else if constexpr (type == DistributionType::kUniformDis ||
+                       type == DistributionType::kPoisson ||
                        type == DistributionType::kGeometric ||
                        type == DistributionType::kBernoulli ||
                        type == DistributionType::kBinomial) {
 
-    //
-    auto tryN = 100;
-    auto m = GetMean();
-    auto sd = GetVariance();
-    auto norm = Distribution<DistributionType::kNormal>(m, sd);
-    auto q = std::min(GetMaximum(),
-                      std::max(GetMinimum(), std::floor(norm.GetQuantile(p))));
-
-    auto c0 = GetCdf(q);
-    if (c0 > p) {
-      // decrease value of q until cdf is smaller
-      for (int i = 0; i < tryN; i++) {
-        q--;
-        c0 = GetCdf(q);
-        if (c0 < p)
-          return (q + 1);
-      }
-    } else { // cdf < p
-      // increase value of q until cdf is larger than p
-      for (int i = 0; i < tryN; i++) {
-        q++;
-        c0 = GetCdf(q);
-        if (c0 >= p)
-          return q;
-      }
+    // the smallest point of the support in which cdf is not smaller than p
+    auto low = GetMinimum() - (Tv)1; // cdf < p
+    auto high = GetMinimum();
+    for (Tv step = 1; GetCdf(high) < p; step *= 2) {
+      low = high;
+      high = std::min(GetMaximum(), high + step);
     }
-
-    // return NaN
-    if constexpr (std::numeric_limits<Tv>::has_quiet_NaN) {
-      return std::numeric_limits<Tv>::quiet_NaN();
-    } else if constexpr (true) {
-      throw LdtException(ErrorType::kLogic, "distributions",
-                         "type requires NaN but it is missing");
+    while (high - low > (Tv)1 && std::isinf(high) == false) {
+      auto mid = std::floor(low + (high - low) / 2);
+      if (mid == low || mid == high) // resolution of the type
+        break;
+      if (GetCdf(mid) < p)
+        low = mid;
+      else
+        high = mid;
     }
+    return high;
 
   } else if constexpr (true) {
     if constexpr (std::numeric_limits<Tv>::has_quiet_NaN) {
-- 
2.43.0


From 2d6b2f336c0d0279c0cc2bffed05cb41b9bd5e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:57 +0000
Subject: [PATCH 070/147] fix: medians must be consistent with distribution
 functions

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 0b788d6..7c704f5 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -650,7 +650,7 @@ template <DistributionType type> Tv Distribution<type>::GetMedian() {
   } else if constexpr (type == DistributionType::kT) {
     return (Tv)0;
   } else if constexpr (type == DistributionType::kChi2) {
-    return mParam1 * std::pow(1 - (Tv)2 / (9 * mParam1), (Tv)3);
+    return GetQuantile((Tv)0.5);
   } else if constexpr (type == DistributionType::kUniformCon) {
     return (mParam1 + mParam2) / 2;
   } else if constexpr (type == DistributionType::kExponential) {
@@ -679,8 +679,7 @@ template <DistributionType type> Tv Distribution<type>::GetMedian() {
   } else if constexpr (type == DistributionType::kUniformDis) {
     return (mParam1 + mParam2) / (Tv)2;
   } else if constexpr (type == DistributionType::kPoisson) {
-    return std::floor(mParam1 + (Tv)1 / 3 -
-                      ((Tv)0.02 / mParam1)); // see wikipedia
+    return GetQuantile((Tv)0.5);
   } else if constexpr (type == DistributionType::kGeometric) {
     if (mParam1 == 0) {
       if constexpr (std::numeric_limits<Tv>::has_infinity) {
@@ -692,7 +691,7 @@ template <DistributionType type> Tv Distribution<type>::GetMedian() {
                                                          // infinity
       }
     } else if (mParam1 == (Tv)1) {
-      return 1;
+      return 0;
     } else {
       return std::ceil(-c_ln2 / std::log(1 - mParam1)) - (Tv)1;
     }
@@ -701,7 +700,7 @@ template <DistributionType type> Tv Distribution<type>::GetMedian() {
            : mParam1 > (Tv)0.5 ? (Tv)1
                                : (Tv)0.5; // not unique. see wikipedia
   } else if constexpr (type == DistributionType::kBinomial) {
-    return std::floor(mParam1 * mParam2);
+    return GetQuantile((Tv)0.5);
   } else if constexpr (true) {
     if constexpr (std::numeric_limits<Tv>::has_quiet_NaN) {
       return std::numeric_limits<Tv>::quiet_NaN();
-- 
2.43.0


From 86a01e06a34c0d2ea2a7de09b6634551b8475032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:15 +0000
Subject: [PATCH 071/147] fix: probabilities of Binomial with many trials must
 be calculated

---
 .../distributions/distributions_uni.cpp               | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 7c704f5..e779587 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -922,7 +922,8 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmf(Tv x) {
   } else if constexpr (type == DistributionType::kBinomial) {
     if (x > mParam2)
       return 0;
-    // TODO: exp of a logarithm version of binomial_coefficient ?!
+    if (mParam2 > 500) // binomial coefficient overflows
+      return std::exp(GetPdfOrPmfLog(x));
     return Math_BinomialCoefficient<Tv>((unsigned int)mParam2,
                                         (unsigned int)x) *
            std::pow(mParam1, x) * std::pow(1 - mParam1, mParam2 - x);
@@ -1020,10 +1021,10 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmfLog(Tv x) {
         throw LdtException(ErrorType::kLogic, "distributions",
                            "type requires NaN but it is missing");
       }
-    } // TODO: a logarithm version of binomial_coefficient ?!
-    return std::log(Math_BinomialCoefficient<Tv>((unsigned int)mParam2,
-                                                 (unsigned int)x)) +
-           (x * std::log(mParam1)) + ((mParam2 - x) * std::log(1 - mParam1));
+    }
+    return std::lgamma(mParam2 + 1) - std::lgamma(x + 1) -
+           std::lgamma(mParam2 - x + 1) + (x * std::log(mParam1)) +
+           ((mParam2 - x) * std::log(1 - mParam1));
   } else if constexpr (true) {
     return std::log(GetPdfOrPmf(x));
   }
-- 
2.43.0


From 2a93663900f5da9dd5011eceeaa4b0b73f9accd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:49 +0000
Subject: [PATCH 072/147] fix: density of log-normal, exponential and F
 distributions must be defined at zero

---
 .../distributions/distributions_uni.cpp        | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index e779587..f09e3d6 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -877,6 +877,8 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmf(Tv x) {
     auto n = (x - mParam1) / mParam2;
     return std::exp(-0.5 * n * n) / (c_sqrt_2Pi * mParam2);
   } else if constexpr (type == DistributionType::kLogNormal) {
+    if (x == 0)
+      return (Tv)0;
     auto n = (std::log(x) - mParam1) / mParam2;
     return std::exp(-0.5 * n * n) / (x * c_sqrt_2Pi * mParam2);
   } else if constexpr (type == DistributionType::kT) {
@@ -895,6 +897,10 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmf(Tv x) {
   } else if constexpr (type == DistributionType::kExponential) {
     return mParam1 * std::exp(-mParam1 * x);
   } else if constexpr (type == DistributionType::kF) {
+    if (x == 0)
+      return mParam1 > (Tv)2    ? (Tv)0
+             : mParam1 == (Tv)2 ? (Tv)1
+                                : std::numeric_limits<Tv>::infinity();
     return std::sqrt(std::pow(mParam1 * x, mParam1) *
                      std::pow(mParam2, mParam2) /
                      std::pow((mParam1 * x) + mParam2, mParam1 + mParam2)) /
@@ -951,6 +957,8 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmfLog(Tv x) {
     auto n = (x - mParam1) / mParam2;
     return ((Tv)-0.5 * n * n) - std::log(mParam2) - c_ln_sqrt2Pi;
   } else if constexpr (type == DistributionType::kLogNormal) {
+    if (x == 0)
+      return std::log(GetPdfOrPmf(x));
     auto a = (std::log(x) - mParam1) / mParam2;
     return (Tv)-0.5 * a * a - std::log(x * mParam2) - c_ln_sqrt2Pi;
   } else if constexpr (type == DistributionType::kT) {
@@ -962,16 +970,6 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmfLog(Tv x) {
     return -x / (Tv)2 + (dof2 - 1) * std::log(x) - dof2 * std::log(2) -
            std::lgamma(dof2);
   } else if constexpr (type == DistributionType::kExponential) {
-    if (x == 0) {
-      if constexpr (std::numeric_limits<Tv>::has_infinity) {
-        return -std::numeric_limits<Tv>::infinity();
-      } else if constexpr (true) {
-        throw LdtException(
-            ErrorType::kLogic, "distributions",
-            "type requires infinity but it is missing"); // kT must have
-                                                         // infinity
-      }
-    }
     return std::log(mParam1) - (mParam1 * x);
   } else if constexpr (type == DistributionType::kGamma) {
     return (-mParam1 * std::log(mParam2)) + ((mParam1 - 1) * std::log(x)) -
-- 
2.43.0


From 76df95291c0caff178e4742b9e99f570bb81c9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:49 +0000
Subject: [PATCH 073/147] fix: log of density must not be NaN where exponent of
 a zero base is zero

---
 .../distributions/distributions_uni.cpp       | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index f09e3d6..625065e 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -919,8 +919,7 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmf(Tv x) {
   } else if constexpr (type == DistributionType::kUniformDis) {
     return x >= mParam1 && x <= mParam2 ? 1 / (mParam2 - mParam1 + 1) : 0;
   } else if constexpr (type == DistributionType::kPoisson) {
-    return std::exp(-mParam1 + (x * std::log(mParam1)) -
-                    std::lgamma(x + 1)); // or exp(pdf_ln)
+    return std::exp(GetPdfOrPmfLog(x));
   } else if constexpr (type == DistributionType::kGeometric) {
     return std::pow(1 - mParam1, x) * mParam1;
   } else if constexpr (type == DistributionType::kBernoulli) {
@@ -940,6 +939,9 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmf(Tv x) {
   }
 }
 
+// a * log(b) such that the exponent of a zero base can be zero
+static Tv logPower(Tv b, Tv a) { return a == (Tv)0 ? (Tv)0 : a * std::log(b); }
+
 template <DistributionType type> Tv Distribution<type>::GetPdfOrPmfLog(Tv x) {
   if (x < GetMinimum() ||
       x > GetMaximum()) // impossible event -> zero probability event
@@ -967,18 +969,17 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmfLog(Tv x) {
            std::lgamma(mParam1 / (Tv)2) - (Tv)0.5 * std::log(mParam1 * c_pi);
   } else if constexpr (type == DistributionType::kChi2) {
     auto dof2 = mParam1 / 2;
-    return -x / (Tv)2 + (dof2 - 1) * std::log(x) - dof2 * std::log(2) -
+    return -x / (Tv)2 + logPower(x, dof2 - 1) - dof2 * std::log(2) -
            std::lgamma(dof2);
   } else if constexpr (type == DistributionType::kExponential) {
     return std::log(mParam1) - (mParam1 * x);
   } else if constexpr (type == DistributionType::kGamma) {
-    return (-mParam1 * std::log(mParam2)) + ((mParam1 - 1) * std::log(x)) -
+    return (-mParam1 * std::log(mParam2)) + logPower(x, mParam1 - 1) -
            (x / mParam2) - std::lgamma(mParam1);
   } else if constexpr (type == DistributionType::kBeta) {
     auto d = std::lgamma(mParam1 + mParam2) - std::lgamma(mParam1) -
              std::lgamma(mParam2);
-    return d + (mParam1 - (Tv)1) * std::log(x) +
-           (mParam2 - 1) * std::log(1 - x);
+    return d + logPower(x, mParam1 - 1) + logPower(1 - x, mParam2 - 1);
   } else if constexpr (type == DistributionType::kUniformDis) {
     if (x >= mParam1 && x <= mParam2)
       return -std::log(mParam2 - mParam1 + (Tv)1);
@@ -993,9 +994,9 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmfLog(Tv x) {
       }
     }
   } else if constexpr (type == DistributionType::kPoisson) {
-    return -mParam1 + (x * std::log(mParam1)) - std::lgamma(x + (Tv)1);
+    return -mParam1 + logPower(mParam1, x) - std::lgamma(x + (Tv)1);
   } else if constexpr (type == DistributionType::kGeometric) {
-    return x * std::log(1 - mParam1) + std::log(mParam1);
+    return logPower(1 - mParam1, x) + std::log(mParam1);
   } else if constexpr (type == DistributionType::kBernoulli) {
     if (x == 0) {
       return std::log(1 - mParam1);
@@ -1021,8 +1022,8 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmfLog(Tv x) {
       }
     }
     return std::lgamma(mParam2 + 1) - std::lgamma(x + 1) -
-           std::lgamma(mParam2 - x + 1) + (x * std::log(mParam1)) +
-           ((mParam2 - x) * std::log(1 - mParam1));
+           std::lgamma(mParam2 - x + 1) + logPower(mParam1, x) +
+           logPower(1 - mParam1, mParam2 - x);
   } else if constexpr (true) {
     return std::log(GetPdfOrPmf(x));
   }
-- 
2.43.0


From 503e98f4eb6b81ae020822dec7045361c05858e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:49 +0000
Subject: [PATCH 074/147] fix: density must not overflow for large parameters

---
 .../distributions/distributions_uni.cpp          | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 625065e..22d52c4 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -883,12 +883,16 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmf(Tv x) {
     return std::exp(-0.5 * n * n) / (x * c_sqrt_2Pi * mParam2);
   } else if constexpr (type == DistributionType::kT) {
     auto g = (mParam1 + 1) / (Tv)2;
+    if (g > (Tv)50) // gamma function overflows
+      return std::exp(GetPdfOrPmfLog(x));
     return std::tgamma(g) * std::pow(1 + x * x / mParam1, -g) /
            (std::tgamma(mParam1 / 2) * std::sqrt(mParam1 * c_pi));
   } else if constexpr (type == DistributionType::kChi2) {
     if (std::isinf(mParam1))
       return (Tv)0;
     auto dof2 = mParam1 / (Tv)2;
+    if (dof2 > (Tv)50)
+      return std::exp(GetPdfOrPmfLog(x));
     return std::exp(-x / 2) * std::pow(x, dof2 - 1) /
            (std::pow(2, dof2) * std::tgamma(dof2));
   } else if constexpr (type == DistributionType::kUniformCon) {
@@ -901,14 +905,20 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmf(Tv x) {
       return mParam1 > (Tv)2    ? (Tv)0
              : mParam1 == (Tv)2 ? (Tv)1
                                 : std::numeric_limits<Tv>::infinity();
-    return std::sqrt(std::pow(mParam1 * x, mParam1) *
-                     std::pow(mParam2, mParam2) /
-                     std::pow((mParam1 * x) + mParam2, mParam1 + mParam2)) /
+    // powers of the ratios do not overflow
+    auto r = mParam1 * x / ((mParam1 * x) + mParam2);
+    return std::exp((mParam1 * std::log(r) +
+                     mParam2 * std::log(mParam2 / ((mParam1 * x) + mParam2))) /
+                    2) /
            (x * Math_Beta(mParam1 / 2, mParam2 / 2));
   } else if constexpr (type == DistributionType::kGamma) {
+    if (mParam1 > (Tv)50)
+      return std::exp(GetPdfOrPmfLog(x));
     return std::pow(mParam2, -mParam1) * std::pow(x, mParam1 - 1) *
            std::exp(-x / mParam2) / std::tgamma(mParam1);
   } else if constexpr (type == DistributionType::kBeta) {
+    if (mParam1 + mParam2 > (Tv)50)
+      return std::exp(GetPdfOrPmfLog(x));
     auto d = std::tgamma(mParam1 + mParam2) /
              (std::tgamma(mParam1) * std::tgamma(mParam2));
     return d * std::pow(x, mParam1 - 1) * std::pow(1 - x, mParam2 - 1);
-- 
2.43.0


From a11f2edab858a6d93daaf9fe93ed213dc9a4c4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:10 +0000
Subject: [PATCH 075/147] fix: distribution function of Binomial must be
 defined for zero probability

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 22d52c4..72049d1 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -1086,12 +1086,7 @@ template <DistributionType type> Tv Distribution<type>::GetCdf(Tv x) {
   } else if constexpr (type == DistributionType::kBinomial) {
     if (x == mParam2)
       return (Tv)1;
-    // using kF
-    auto d1 = (Tv)2 * (mParam2 - x);
-    auto d2 = (Tv)2 * (x + 1);
-    auto xx = ((1 - mParam1) / mParam1) * ((x + 1) / (mParam2 - x));
-    return Math_iBeta(d1 / (Tv)2, d2 / (Tv)2,
-                      d1 * xx / (d1 * xx + d2)); // todo: simplify
+    return Math_iBeta(mParam2 - x, x + 1, 1 - mParam1);
   } else if constexpr (true) {
     throw LdtException(ErrorType::kLogic, "distributions",
                        "not implemented (distribution type)");
-- 
2.43.0


From ec8e9e3b1028fd66a4efea360eb866038424f50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:39 +0000
Subject: [PATCH 076/147] fix: existing tests rely on the position of
 observations in conversion to daily (revert e1c8065)

---
 src/variable/variable.cpp | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/src/variable/variable.cpp b/src/variable/variable.cpp
index 414d155..ae45461 100644
--- a/src/variable/variable.cpp
+++ b/src/variable/variable.cpp
@@ -235,19 +235,7 @@ void Variable<Tw>::ConvertTo_Daily(
             *StartFrequency.get());
     result.Data.clear();
 
-    // data starts from the current item of the list
-    auto start = startList.GetIndex();
-    if (startList.OutIndex != 0 || start < 0 ||
-        start + (Ti)Data.size() > (Ti)startList.pItems->size())
-      throw LdtException(ErrorType::kLogic, "variable",
-                         "some observations are outside the list of dates");
-    if (Data.size() == 0)
-      throw LdtException(ErrorType::kLogic, "variable",
-                         "no observation is available");
-    std::vector<boost::gregorian::date> used(
-        startList.pItems->begin() + start,
-        startList.pItems->begin() + start + Data.size());
-    auto dates = &used;
+    auto dates = startList.pItems;
     auto minmax = std::minmax_element(dates->begin(), dates->end());
     auto min_date = *minmax.first;
     auto duration = (*minmax.second) - min_date;
@@ -271,17 +259,23 @@ void Variable<Tw>::ConvertTo_Daily(
         dynamic_cast<FrequencyWeekBased const &>(*StartFrequency.get());
     result.Data.clear();
 
+    auto range = startF.mRange;
     auto startDay = startF.mDay;
 
-    auto day = startDay;
-    for (Ti i = 0; i < (Ti)Data.size(); ++i) {
-      if (i > 0) { // insert NAN for the days outside the week
-        startF.Next(1);
-        for (day = day + boost::gregorian::days(1); day < startF.mDay;
-             day = day + boost::gregorian::days(1))
+    auto weekSize = range.GetLength();
+    auto weekEndCount = 7 - weekSize;
+    auto numWeeks = std::ceil((Tv)Data.size() / (Tv)weekSize);
+
+    Ti end = 0, pend = 0;
+    for (Ti i = 0; i < numWeeks; ++i) {
+      end = std::min(end + weekSize, static_cast<Ti>(Data.size()));
+      for (Ti p = pend; p < end; p++)
+        result.Data.push_back(Data.at(p));
+      pend = end;
+      if (i != numWeeks - 1) { // don't insert NAN at the end
+        for (Ti p = 0; p < weekEndCount; p++)
           result.Data.push_back(NAN);
       }
-      result.Data.push_back(Data.at(i));
     }
     result.Name = Name;
     result.StartFrequency = std::move(FrequencyWeekBased::Daily(startDay));
-- 
2.43.0


From 4785ea3c78fdc16d13dfe41360a63105d086bff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:17 +0000
Subject: [PATCH 077/147] fix: range of a mixture with non-positive maximums

---
 src/ldt_statistics/distributions/mixture.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/distributions/mixture.cpp b/src/ldt_statistics/distributions/mixture.cpp
index 007df17..e9c4d71 100644
--- a/src/ldt_statistics/distributions/mixture.cpp
+++ b/src/ldt_statistics/distributions/mixture.cpp
@@ -259,7 +259,7 @@ Ti DistributionMixture::GetPmfSupportSize(Tv &min, Tv &max) {
   // for (Ti i = 0; i < pDistributions->size(); i++)
   //	pDistributions->at(i)->GetPmfSupportIncrement();
   Tv min0 = std::numeric_limits<Tv>::max();
-  Tv max0 = std::numeric_limits<Tv>::min();
+  Tv max0 = std::numeric_limits<Tv>::lowest();
   Ti siz = (Ti)pDistributions->size();
   for (Ti i = 0; i < siz; i++) {
     min0 = std::fmin(min0, pDistributions->at(i)->GetMinimum());
-- 
2.43.0


From d28fe2c89116027ed5f953fb55110298b1c47a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:17 +0000
Subject: [PATCH 078/147] fix: quantiles of empirical distribution must use the
 segment that contains the probability

---
 src/ldt_statistics/distributions/empirical103.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/distributions/empirical103.cpp b/src/ldt_statistics/distributions/empirical103.cpp
index 4298391..b098534 100644
--- a/src/ldt_statistics/distributions/empirical103.cpp
+++ b/src/ldt_statistics/distributions/empirical103.cpp
@@ -103,8 +103,9 @@ Tv DistributionEmpirical103::GetQuantileApprox(Tv p) const {
       d = 0.99;
       h = 0.999 - 0.99;
     } else {                         // e.g. p=0.244   =>    0.24<p<0.25
-      d = std::floor(p * 100) / 100; // floor
-      i = (Ti)(d * 100) + 1;
+      auto f = std::floor(p * 100); // don't recover it from d
+      d = f / 100;
+      i = (Ti)f + 1;
       h = 0.01;
     }
     shift = (p - d) * (Quantiles[i + 1] - Quantiles[i]) / h;
-- 
2.43.0


From a5be1876e025673452f31c47dd5b6ff2f8cd75ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:17 +0000
Subject: [PATCH 079/147] fix: tails of empirical distribution function must be
 monotone and remain in [0,1]

---
 src/ldt_statistics/distributions/empirical103.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/distributions/empirical103.cpp b/src/ldt_statistics/distributions/empirical103.cpp
index b098534..a9cb61d 100644
--- a/src/ldt_statistics/distributions/empirical103.cpp
+++ b/src/ldt_statistics/distributions/empirical103.cpp
@@ -25,10 +25,10 @@ Tv DistributionEmpirical103::GetCDFApprox(Tv x) const {
   // deal with tails
   if (x <= Quantiles[0]) { // calculate last change and use it
     shift =
-        (x - Quantiles[0]) * (0.001 - 0.0001) / (Quantiles[1] - Quantiles[0]);
+        (Quantiles[0] - x) * (0.001 - 0.0001) / (Quantiles[1] - Quantiles[0]);
     y = 0.0001;
   } else if (x >= Quantiles[102]) {
-    shift = (x - Quantiles[102]) * (0.9999 - 0.999) /
+    shift = (Quantiles[102] - x) * (0.9999 - 0.999) /
             (Quantiles[102] - Quantiles[101]);
     y = 0.9999;
   }
@@ -61,7 +61,7 @@ Tv DistributionEmpirical103::GetCDFApprox(Tv x) const {
     shift = (d - x) * h / (Quantiles[i] - Quantiles[i - 1]);
   }
   Tv res = y - shift;
-  return res;
+  return std::fmax(0.0, std::fmin(1.0, res));
 }
 
 Tv DistributionEmpirical103::GetQuantileApprox(Tv p) const {
-- 
2.43.0


From 18c6c5e86695c5c0f071f6442f7863f5584f8c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:17 +0000
Subject: [PATCH 080/147] fix: shape parameters of GLD must satisfy the
 restrictions of the requested type

---
 src/ldt_statistics/distributions/distribution_gld.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/distributions/distribution_gld.cpp b/src/ldt_statistics/distributions/distribution_gld.cpp
index 34027d1..05c002c 100644
--- a/src/ldt_statistics/distributions/distribution_gld.cpp
+++ b/src/ldt_statistics/distributions/distribution_gld.cpp
@@ -454,8 +454,12 @@ DistributionGld::GetFromMoments(Tv mean, Tv variance, Tv skewness,
   auto S = std::make_unique<Tv[]>(optim.StorageSize);
   optim.Minimize(objective, x0, W.get(), S.get(), &lower, &upper);
 
-  Tv L3 = optim.Result.Data[0];
-  Tv L4 = optim.Result.Data[isSymetric ? 0 : 1];
+  // bounds are imposed by a penalty and might be (slightly) violated
+  Ti j = isSymetric ? 0 : 1;
+  Tv L3 = std::fmax(lower.Data[0],
+                    std::fmin(upper.Data[0], optim.Result.Data[0]));
+  Tv L4 = std::fmax(lower.Data[j],
+                    std::fmin(upper.Data[j], optim.Result.Data[j]));
 
   m1 = GetMk(1, L3, L4);
   m2 = GetMk(2, L3, L4);
-- 
2.43.0


From 4f9d52d22a1a5a095949963cf90cf8eee622c369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:49 +0000
Subject: [PATCH 081/147] fix: quantiles of combined empirical distributions
 must be found for any scale

---
 .../distributions/empirical103.cpp            | 35 ++++++++++---------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/ldt_statistics/distributions/empirical103.cpp b/src/ldt_statistics/distributions/empirical103.cpp
index a9cb61d..d4f7b20 100644
--- a/src/ldt_statistics/distributions/empirical103.cpp
+++ b/src/ldt_statistics/distributions/empirical103.cpp
@@ -132,8 +132,8 @@ void DistributionEmpirical103::Combine(
     return;
   }
 
-  // we find an x which minimizes the distance between prob and weighted
-  // average of the quantiles
+  // we find an x where the weighted average of the distribution functions is
+  // prob
   Tv prob = NAN;
   std::function<Tv(const Tv &)> objective = [&weight, &prob, &dists,
                                              &weights](const Tv &x) -> Tv {
@@ -144,12 +144,9 @@ void DistributionEmpirical103::Combine(
     else
       for (Ti j = 0; j < (Ti)dists.size(); j++)
         wa += weights[j] * dists.at(j).GetCDFApprox(x);
-    return std::abs(wa - prob);
+    return wa - prob;
   };
 
-  // x cannot be less than start
-  Tv start;
-
   for (Ti i = 0; i < 103; i++) {
     prob = i == 0     ? 0.0001
            : i == 1   ? 0.001
@@ -157,17 +154,23 @@ void DistributionEmpirical103::Combine(
            : i == 102 ? 0.9999
                       : (i - 1) / 100.0;
 
-    if (i == 0) { // let start to be the minimum of all distributions
-      Tv mi = INFINITY;
-      for (Ti j = 0; j < (Ti)dists.size(); j++)
-        if (mi > dists.at(j).Quantiles[0])
-          mi = dists.at(j).Quantiles[0];
-      start = mi;
+    // it is between the smallest and the largest quantile. Also, the average is
+    // not a decreasing function of x
+    Tv lower = INFINITY, upper = -INFINITY;
+    for (Ti j = 0; j < (Ti)dists.size(); j++) {
+      lower = std::fmin(lower, dists.at(j).Quantiles[i]);
+      upper = std::fmax(upper, dists.at(j).Quantiles[i]);
+    }
+    for (Ti k = 0; k < 200 && lower < upper; k++) {
+      Tv middle = lower + (upper - lower) / 2.0;
+      if (middle == lower || middle == upper)
+        break;
+      if (objective(middle) < 0)
+        lower = middle;
+      else
+        upper = middle;
     }
-    auto optim_x =
-        NelderMead::Minimize1(objective, start, 0.1, 500, 1e-8, start, NAN);
-    start = std::get<0>(optim_x);
 
-    result[i] = start;
+    result[i] = upper;
   }
 }
\ No newline at end of file
-- 
2.43.0


From 87b57dbc17e46759aabf3e03715676ee4e64c9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:49 +0000
Subject: [PATCH 082/147] fix: histogram of a single value, narrow data or
 values that are equal to the last point

---
 .../distributions/histogram.cpp               | 113 ++++++++----------
 1 file changed, 48 insertions(+), 65 deletions(-)

diff --git a/src/ldt_statistics/distributions/histogram.cpp b/src/ldt_statistics/distributions/histogram.cpp
index 3c62f94..7da64d4 100644
--- a/src/ldt_statistics/distributions/histogram.cpp
+++ b/src/ldt_statistics/distributions/histogram.cpp
@@ -18,38 +18,24 @@ void fill(Matrix<Tv> *sorteddata, Matrix<Tv> *axis, Matrix<Ti> *storageCount) {
   Ti p, i, j = 0;
   bool added;
 
+  // the last point belongs to the last bin
   for (i = 0; i < n + 1; i++)
     storageCount->Data[i] = 0;
 
   for (i = 0; i < m; i++) {
     d = sorteddata->Data[i];
-    if (i == m - 1) { // the last one
-      added = false;
-      for (p = j; p < n; p++) {
-        a = axis->Data[p];
-        if (d <= a) { //  <= for the last one
-          storageCount->Data[p] = storageCount->Data[p] + 1; // use ++
-          j = p; // don't check others
-          added = true;
-          break;
-        }
+    added = false;
+    for (p = j; p < n; p++) {
+      a = axis->Data[p];
+      if (d < a || (p == n - 1 && d == a)) {
+        storageCount->Data[p] = storageCount->Data[p] + 1; // use ++
+        j = p; // don't check others
+        added = true;
+        break;
       }
-      if (added == false)
-        storageCount->Data[n] = storageCount->Data[n] + 1; // use ++
-    } else {
-      added = false;
-      for (p = j; p < n; p++) {
-        a = axis->Data[p];
-        if (d < a) {
-          storageCount->Data[p] = storageCount->Data[p] + 1; // use ++
-          j = p; // don't check others
-          added = true;
-          break;
-        }
-      }
-      if (added == false)
-        storageCount->Data[n] = storageCount->Data[n] + 1; // use ++
     }
+    if (added == false)
+      storageCount->Data[n] = storageCount->Data[n] + 1; // use ++
   }
 }
 
@@ -102,58 +88,55 @@ Ti Histogram::Compute(bool forsize, Matrix<Tv> *data, Matrix<Tv> *storageAxis,
         throw LdtException(ErrorType::kLogic, "histogram",
                            "data is 'NAN' or contains 'NaN'"); // nan found
 
+      if (min == max) { // generally, 1 element case. If min and max are given
+                        // and equal, we throw exception
+        min -= 0.01;
+        max += 0.01;
+      }
+
       if (std::isnan(step)) {
-        if (bincount == 0)
-          bincount = static_cast<Ti>(
-              ((max - min) < DBL_EPSILON)
-                  ? 1
-                  : (std::pow(L, 1.0 / 3.0) * (max - min) /
-                     (2.0 * iqr))); // I use the relative min,max not the
-                                    // absolute ones
-      } else                        // get bincount from given 'step'
+        if (bincount <= 0)
+          bincount =
+              iqr > 0 ? std::max(1, static_cast<Ti>(
+                                        std::pow(L, 1.0 / 3.0) * (max - min) /
+                                        (2.0 * iqr))) // I use the relative
+                                                      // min,max not the
+                                                      // absolute ones
+                      : 1;
+      } else // get bincount from given 'step'
         bincount = static_cast<Ti>(std::ceil((max - min) / step));
     }
-    if (min == max) { // generally, 1 element case. If min and max are given and
-                      // equal, we throw exception
-      min -= 0.01;
-      max += 0.01;
-    }
     return bincount + 1; // size
   }
 
-  if (bincount == 1) {
-    storageAxis->Data[0] = min;
-    storageAxis->Data[1] = max;
-    storageCount->Data[0] = 0;
-    storageCount->Data[1] = L;
-    storageCount->Data[2] = 0;
-  } else {
-
-    if (std::isnan(step)) {
-      if (bincount == 0)
-        throw LdtException(ErrorType::kLogic, "histogram",
-                           "bincount is zero for histogram");
-      step = (max - min) / bincount;
-    } else if (step == 0.0)
-      throw LdtException(ErrorType::kLogic, "histogram",
-                         "step is zero for histogram");
-    else
-      bincount = storageAxis->length() - 1;
-
+  bool givenStep = std::isnan(step) == false;
+  if (givenStep == false) {
     if (bincount == 0)
       throw LdtException(ErrorType::kLogic, "histogram",
                          "bincount is zero for histogram");
+    step = (max - min) / bincount;
+  } else if (step == 0.0)
+    throw LdtException(ErrorType::kLogic, "histogram",
+                       "step is zero for histogram");
+  else
+    bincount = storageAxis->length() - 1;
 
-    for (Ti i = 0; i < bincount; i++) {      // axis size is bincount+1
-      storageAxis->Data[i] = min + i * step; // don't increment
-    }
-    storageAxis->Data[bincount] =
-        min + bincount * step +
-        DBL_EPSILON; // we treat the last obs differently, or obs might consider
-                     // overflow due to double error
+  if (bincount == 0)
+    throw LdtException(ErrorType::kLogic, "histogram",
+                       "bincount is zero for histogram");
 
-    fill(data, storageAxis, storageCount);
+  for (Ti i = 0; i < bincount; i++) {      // axis size is bincount+1
+    storageAxis->Data[i] = min + i * step; // don't increment
   }
+  // obs. must not be considered as overflow due to double error
+  Tv last = min + bincount * step;
+  storageAxis->Data[bincount] =
+      givenStep == false ||
+              std::abs(last - max) < 1e-10 * step
+          ? max
+          : last;
+
+  fill(data, storageAxis, storageCount);
   return L;
 }
 
-- 
2.43.0


From 507913dada9cb7011b0eb6a414905c46a4770408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:39 +0000
Subject: [PATCH 083/147] fix: MeanVariance must divide by L-1 for the sample
 variance

---
 src/ldt_statistics/statistics/descriptive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/statistics/descriptive.cpp b/src/ldt_statistics/statistics/descriptive.cpp
index 7e349be..9e7a8a3 100644
--- a/src/ldt_statistics/statistics/descriptive.cpp
+++ b/src/ldt_statistics/statistics/descriptive.cpp
@@ -86,7 +86,7 @@ std::tuple<double, double> Descriptive::MeanVariance(bool sample) {
       mean += s;
       m2 += diff * s * i;
     }
-    return std::tuple<double, double>(mean, sample ? m2 / L : m2 / (L - 1));
+    return std::tuple<double, double>(mean, sample ? m2 / (L - 1) : m2 / L);
   }
 }
 
-- 
2.43.0


From 5d4174b26ed354ca4c445ab7bfd5aa7f56154e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:39 +0000
Subject: [PATCH 084/147] fix: integer overflow in the moments of long samples

---
 src/ldt_statistics/statistics/descriptive.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/statistics/descriptive.cpp b/src/ldt_statistics/statistics/descriptive.cpp
index 9e7a8a3..54ea8a6 100644
--- a/src/ldt_statistics/statistics/descriptive.cpp
+++ b/src/ldt_statistics/statistics/descriptive.cpp
@@ -125,7 +125,8 @@ Descriptive::MeanVarianceKurtosisSkewness(bool sample) {
     t = diff * s * (count - 1);
 
     mean += s;
-    m4 += t * s2 * (count * count - 3 * count + 3) + 6 * s2 * m2 - 4 * s * m3;
+    m4 += t * s2 * ((double)count * count - 3.0 * count + 3) + 6 * s2 * m2 -
+          4 * s * m3;
     m3 += t * s * (count - 2) - 3 * s * m2;
     m2 += t; // after being used by others
   }
@@ -143,7 +144,7 @@ Descriptive::MeanVarianceKurtosisSkewness(bool sample) {
                         : std::sqrt(count) * m3 / std::pow(m2, 1.5);
       if (count > 3) {
         kurtosis = sample ? ((double)count * count - 1) /
-                                ((count - 2) * (count - 3)) *
+                                ((count - 2.0) * (count - 3.0)) *
                                 (count * m4 / (m2 * m2) - 3 + 6.0 / (count + 1))
                           : count * m4 / (m2 * m2) - 3.0;
       }
-- 
2.43.0


From 964d2dcf2d4f0e627801f5ad11b08816f2c9d736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:39 +0000
Subject: [PATCH 085/147] fix: size check of Ols is reversed

---
 src/ldt_statistics/statistics/statistics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/statistics/statistics.cpp b/src/ldt_statistics/statistics/statistics.cpp
index 6f1b6b3..3aefda7 100644
--- a/src/ldt_statistics/statistics/statistics.cpp
+++ b/src/ldt_statistics/statistics/statistics.cpp
@@ -101,7 +101,7 @@ void Ols::Calculate(const Matrix<Tv> &y, const Matrix<Tv> &x, Tv *storage,
 
   // check size
   auto temp = Ols(N, m, k, mDoResid, mDoSigma);
-  if (temp.WorkSize < WorkSize || temp.StorageSize < StorageSize)
+  if (temp.WorkSize > WorkSize || temp.StorageSize > StorageSize)
     throw LdtException(ErrorType::kLogic, "statistics",
                        "inconsistent arguments");
 
-- 
2.43.0


From a9dfe4752294ebf8f13e562e04866ae5afb2f223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:39 +0000
Subject: [PATCH 086/147] fix: size check of Gls is reversed and ignores the
 type of omega

---
 src/ldt_statistics/statistics/statistics.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/statistics/statistics.cpp b/src/ldt_statistics/statistics/statistics.cpp
index 3aefda7..c69fcd3 100644
--- a/src/ldt_statistics/statistics/statistics.cpp
+++ b/src/ldt_statistics/statistics/statistics.cpp
@@ -178,8 +178,8 @@ void Gls::Calculate(const Matrix<Tv> &y, const Matrix<Tv> &x, Matrix<Tv> &omega,
                        "low degrees of freedom");
 
   // check size
-  auto temp = Gls(N, m, k, mDoResid, mDoSigma);
-  if (temp.WorkSize < WorkSize || temp.StorageSize < StorageSize)
+  auto temp = Gls(N, m, k, mDoResid, mDoSigma, mIsOmegaInv);
+  if (temp.WorkSize > WorkSize || temp.StorageSize > StorageSize)
     throw LdtException(ErrorType::kLogic, "statistics",
                        "inconsistent arguments");
 
-- 
2.43.0


From c29ff7bf8a5612f6c40437b2059acf36ca50d748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:39 +0000
Subject: [PATCH 087/147] fix: set the number of observations for the diagonal
 in correlation with NaN

---
 src/ldt_statistics/correlation.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ldt_statistics/correlation.cpp b/src/ldt_statistics/correlation.cpp
index 13c6af0..7c97b5f 100644
--- a/src/ldt_statistics/correlation.cpp
+++ b/src/ldt_statistics/correlation.cpp
@@ -84,6 +84,11 @@ void Correlation<checkNaN, type, method>::pearson(const Matrix<Tv> &mat,
         this->ResultCounts.Set0(i, i, (Tv)count);
       } else if constexpr (type == CorrelationType::kCorrelation) {
         this->Result.Set0(i, i, 1);
+        Ti count = 0;
+        for (Ti r = 0; r < mat.RowsCount; r++)
+          if (std::isnan(mat.Data[i * mat.RowsCount + r]) == false)
+            count++;
+        this->ResultCounts.Set0(i, i, (Tv)count);
       }
 
       // set off diagonals
-- 
2.43.0


From 4a0fadbd543abff74f389a242a783dffb411029f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:39 +0000
Subject: [PATCH 088/147] fix: correlation distances of collinear columns must
 not be NaN due to rounding

---
 src/ldt_statistics/clustering/distance.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/clustering/distance.cpp b/src/ldt_statistics/clustering/distance.cpp
index 5573772..3d206c2 100644
--- a/src/ldt_statistics/clustering/distance.cpp
+++ b/src/ldt_statistics/clustering/distance.cpp
@@ -161,11 +161,14 @@ void Distance<checkNan, method, corrMethod>::Calculate(const Matrix<Tv> &data,
       for (Ti j = 0; j < data.ColsCount; j++) {
         if (i < j) {
           if constexpr (method == DistanceMethod::kCorrelation) {
-            this->Result.Set0(i, j,
-                              std::sqrt((1 - cor.Result.Get0(i, j)) / (Tv)2));
+            this->Result.Set0(
+                i, j,
+                std::sqrt(std::max(1 - cor.Result.Get0(i, j), (Tv)0) / (Tv)2));
           } else if constexpr (true) {
             this->Result.Set0(
-                i, j, std::sqrt(1 - std::pow(cor.Result.Get0(i, j), (Tv)2)));
+                i, j,
+                std::sqrt(std::max(1 - std::pow(cor.Result.Get0(i, j), (Tv)2),
+                                   (Tv)0)));
           }
         }
       }
-- 
2.43.0


From fd8690a9ab0b558fe08fdbc26d41946fa0902eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:39 +0000
Subject: [PATCH 089/147] fix: maximum distance must not be negative if there
 is no common observation

---
 src/ldt_statistics/clustering/distance.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/clustering/distance.cpp b/src/ldt_statistics/clustering/distance.cpp
index 3d206c2..c8c352d 100644
--- a/src/ldt_statistics/clustering/distance.cpp
+++ b/src/ldt_statistics/clustering/distance.cpp
@@ -204,7 +204,7 @@ void Distance<checkNan, method, corrMethod>::Calculate(const Matrix<Tv> &data,
             }
             this->Result.Set0(i, j, sum);
           } else if constexpr (method == DistanceMethod::kMaximum) {
-            Tv max = -INFINITY, d;
+            Tv max = 0, d;
             for (Ti k = 0; k < data.RowsCount; k++) {
               d = std::abs(col1[k] - col2[k]);
               if constexpr (checkNan) {
-- 
2.43.0


From cb3e4a82775f6cfb416d0fb421a482b5319ec26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:39 +0000
Subject: [PATCH 090/147] fix: hierarchical clustering crashes if all distances
 are infinite

---
 src/ldt_statistics/clustering/hcluster.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/clustering/hcluster.cpp b/src/ldt_statistics/clustering/hcluster.cpp
index fdc9132..3589f04 100644
--- a/src/ldt_statistics/clustering/hcluster.cpp
+++ b/src/ldt_statistics/clustering/hcluster.cpp
@@ -78,7 +78,7 @@ HClusterNode *HCluster<method>::GetNearestNeighbor(const HClusterNode &node,
 
     d = Distances->Get0(node.distanceIndex, a->distanceIndex);
 
-    if (d < distance) {
+    if (neighbor == nullptr || d < distance) {
       distance = d;
       neighbor = a.get();
     }
-- 
2.43.0


From a69002c129b99582b9e85aa29260d1e93c2c5eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:12 +0000
Subject: [PATCH 091/147] fix: groups must be cut at the highest merges of the
 dendrogram

---
 src/ldt_statistics/clustering/hcluster.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/clustering/hcluster.cpp b/src/ldt_statistics/clustering/hcluster.cpp
index 3589f04..fdd6534 100644
--- a/src/ldt_statistics/clustering/hcluster.cpp
+++ b/src/ldt_statistics/clustering/hcluster.cpp
@@ -177,8 +177,21 @@ void HCluster<method>::Group(
     Ti last = 0;
     HClusterNode *node, *node_left, *node_right;
 
-    for (i = 2 * n - 2; i >= n; i--) { // i-th merge
-      node = this->Nodes.at(i).get();
+    // merges are not created in the order of their heights. Split the highest
+    // one in the current groups at each step (later merge first, at ties)
+    auto current = std::set<Ti>{2 * n - 2};
+    while (current.empty() == false) {
+      node = nullptr;
+      for (auto &c : current) {
+        auto cn = this->Nodes.at(c).get();
+        if (node == nullptr || cn->leftDistanceRight >= node->leftDistanceRight)
+          node = cn;
+      }
+      current.erase(node->id);
+      if (node->idLeft >= n)
+        current.insert(node->idLeft);
+      if (node->idRight >= n)
+        current.insert(node->idRight);
 
       node_left = this->Nodes.at(node->idLeft).get();
       node_right = this->Nodes.at(node->idRight).get();
-- 
2.43.0


From 1ab86464f06610ee4ebb467dd298f77963088d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:12 +0000
Subject: [PATCH 092/147] fix: a merge must come after its parts in the R
 format

---
 src/ldt_statistics/clustering/hcluster.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/clustering/hcluster.cpp b/src/ldt_statistics/clustering/hcluster.cpp
index fdd6534..dec4a1c 100644
--- a/src/ldt_statistics/clustering/hcluster.cpp
+++ b/src/ldt_statistics/clustering/hcluster.cpp
@@ -246,7 +246,13 @@ void HCluster<method>::MergeR(Matrix<Ti> &merge, Matrix<Tv> &heights,
     node_right = this->Nodes.at(node->idRight).get();
 
     auto s = n_i - n;
-    heights0.Set0(s, 0, node->leftDistanceRight);
+    // a merge is not lower than its parts (ignoring the rounding error)
+    auto height = node->leftDistanceRight;
+    if (node_left->id >= n)
+      height = std::max(height, heights0.Data[node_left->id - n]);
+    if (node_right->id >= n)
+      height = std::max(height, heights0.Data[node_right->id - n]);
+    heights0.Set0(s, 0, height);
     merge0.Set0(s, 0,
                 (node_left->nodesWithin > 1 ? ((int)node_left->id - (int)n + 1)
                                             : -((int)node_left->id + 1)));
-- 
2.43.0


From 96cea1f127f7c359940160ab9dff20752bd39c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:12 +0000
Subject: [PATCH 093/147] fix: grouping must use original distances for the
 threshold and report the removed columns

---
 src/ldt_statistics/clustering/group_data.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/clustering/group_data.cpp b/src/ldt_statistics/clustering/group_data.cpp
index 4c7f1c5..d91403c 100644
--- a/src/ldt_statistics/clustering/group_data.cpp
+++ b/src/ldt_statistics/clustering/group_data.cpp
@@ -32,6 +32,8 @@ void GroupData<linkMethod, distMethod, corrMethod>::Calculate(
 
   // clear current storage
   this->Groups.clear();
+  this->Removed.clear();
+  this->NaNDistanceFound = false;
 
   auto distance =
       Distance<true, distMethod, corrMethod>(mat.RowsCount, mat.ColsCount);
@@ -48,7 +50,12 @@ void GroupData<linkMethod, distMethod, corrMethod>::Calculate(
     }
   }
 
+  // clustering overrides the distances
+  auto distances = std::vector<Tv>(distance.Result.Data,
+                                   distance.Result.Data +
+                                       distance.Result.length_array());
   cluster.Calculate(distance.Result);
+  std::copy(distances.begin(), distances.end(), distance.Result.Data);
 
   // group
   for (Ti i = 0; i < groupCount; i++)
@@ -64,7 +71,7 @@ void GroupData<linkMethod, distMethod, corrMethod>::Calculate(
           auto dis = distance.Result.Get0(g->at(i), g->at(j));
           if (dis < removeThreshold) {
             remove.insert(j);
-            this->Removed.insert(j);
+            this->Removed.insert(g->at(j));
           }
         }
       }
-- 
2.43.0


From 3d6e46a16037523db9e14ae88405694640c39e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:39 +0000
Subject: [PATCH 094/147] fix: Spearman correlation of columns without a common
 observation must be NaN

---
 src/ldt_statistics/correlation.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ldt_statistics/correlation.cpp b/src/ldt_statistics/correlation.cpp
index 7c97b5f..4f7aea2 100644
--- a/src/ldt_statistics/correlation.cpp
+++ b/src/ldt_statistics/correlation.cpp
@@ -170,10 +170,14 @@ void Correlation<checkNaN, type, method>::spearman(const Matrix<Tv> &mat,
         if (i <= j) { // = to set diagonal
           cols.at(1) = j;
           twoCols.Calculate(mat, &cols, twostorage);
-          rankm.Calculate(twoCols.Result, rankcorrwork, rankstorage, false);
-          corr.Calculate(rankm.Result, rankcorrwork, corrstorage, adjustDoF,
-                         false);
-          s = corr.Result.Data[2];
+          if (twoCols.Result.RowsCount == 0)
+            s = NAN;
+          else {
+            rankm.Calculate(twoCols.Result, rankcorrwork, rankstorage, false);
+            corr.Calculate(rankm.Result, rankcorrwork, corrstorage, adjustDoF,
+                           false);
+            s = corr.Result.Data[2];
+          }
           this->Result.Set0(i, j, s);
           this->ResultCounts.Set0(i, j, (Tv)twoCols.Result.RowsCount);
           if (setLower)
-- 
2.43.0


From 0dbdae3808d5bbd8367f3ec99e7f8726e976583e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:44 +0000
Subject: [PATCH 095/147] fix: correlation of two columns with less than two
 common observations must be NaN

---
 src/matrix/matrix.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index f08f903..91c9207 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -2914,8 +2914,10 @@ Tw Matrix<Tw>::CorrelationColumn(Ti j1, Ti j2, Tw &mean1, Tw &mean2, Tw &var1,
         }
         var1 = sample ? w1 / (Tw)(count - 1) : w1 / count;
         var2 = sample ? w2 / (Tw)(count - 1) : w2 / count;
-        if (m2 == (Tw)0 && w1 == (Tw)0 &&
-            w2 == (Tw)0) // 0/0 case . both are constant
+        if (count < 2)
+          cor = NAN;
+        else if (m2 == (Tw)0 && w1 == (Tw)0 &&
+                 w2 == (Tw)0) // 0/0 case . both are constant
           cor = (Tw)1;
         else
           cor = m2 / (std::sqrt(w1) * std::sqrt(w2));
-- 
2.43.0


From d35797c99018ae4c40e654be72b5f14acc206a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:44 +0000
Subject: [PATCH 096/147] fix: size of the training sample must be checked
 before splitting discrete data

---
 src/ldt_statistics/data_split.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ldt_statistics/data_split.cpp b/src/ldt_statistics/data_split.cpp
index ad8f0c7..c30cbb5 100644
--- a/src/ldt_statistics/data_split.cpp
+++ b/src/ldt_statistics/data_split.cpp
@@ -34,6 +34,12 @@ void DataSplitDiscrete::Calculate(const Matrix<Tv> &data, Tv *storage,
   // the groups are divided by the ratio of the requested training sample
   mTrainRatio = mTrainFixSize > 0 ? static_cast<Tv>(N0) / rows : trainRatio;
   Ti N1 = rows - N0;
+
+  if (N0 <= 0 || N0 >= rows)
+    throw LdtException(ErrorType::kLogic, "datasplit",
+                       "training sample size is too low/high with respect to "
+                       "the available observations");
+
   Sample0.SetData(storage, N0, cols);
   Sample1.SetData(&storage[N0 * cols], N1, cols);
 
-- 
2.43.0


From b5fd7bd6ff2c443e84847efbc203f85704af6a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:29 +0000
Subject: [PATCH 097/147] fix: check sizes of all groups before copying rows in
 discrete split

---
 src/ldt_statistics/data_split.cpp | 46 +++++++++++++++++--------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/src/ldt_statistics/data_split.cpp b/src/ldt_statistics/data_split.cpp
index c30cbb5..52bbf5f 100644
--- a/src/ldt_statistics/data_split.cpp
+++ b/src/ldt_statistics/data_split.cpp
@@ -77,6 +77,16 @@ void DataSplitDiscrete::Calculate(const Matrix<Tv> &data, Tv *storage,
   SortIndexes<Ti>(Counts, CountsSortedIndexes);
 }
 
+static Ti getTrainCount(Ti count, Tv trainRatio) {
+  Ti res = static_cast<Ti>(std::round(trainRatio * count));
+  if (res >= count)
+    res = count - 1;
+  if (res == 0) // don't use 'else', because it might have just 1 obs. Of
+                // course, there is no change to test this group
+    res = 1;
+  return res;
+}
+
 void DataSplitDiscrete::Shuffle(const Matrix<Tv> &data, Ti *workI,
                                 std::mt19937 &eng) {
 
@@ -88,31 +98,25 @@ void DataSplitDiscrete::Shuffle(const Matrix<Tv> &data, Ti *workI,
      ii = 0; // index we set rows of x0 and y0 in different groups
   Ti jj = 0; // index we set rows of x1 and y1
 
+  // the last group is filled. Check it before copying any row
+  for (i = 0; i < mNumChoices - 1; i++)
+    sumM += getTrainCount(Counts.at(CountsSortedIndexes.at(i)), mTrainRatio);
+  Ti last = N0 - sumM;
+  if (last <= 0)
+    throw LdtException(ErrorType::kLogic, "datasplit",
+                       "invalid group length. All contain just 1 obs. Mi0=" +
+                           std::to_string(last));
+  if (last > Counts.at(CountsSortedIndexes.at(mNumChoices - 1)))
+    throw LdtException(ErrorType::kLogic, "datasplit",
+                       "invalid training percentage"); // percentage is too high
+                                                       // (or maybe too low?!)
+
   for (auto a : CountsSortedIndexes) {
     // Tv aa = static_cast<Tv>(a);
     Mi = Counts.at(a);
     Rowi = Rows.at(a).get();
-    if (b == mNumChoices - 1) {
-      Mi0 = N0 - sumM; // fill it
-      if (Mi0 <= 0)
-        throw LdtException(
-            ErrorType::kLogic, "datasplit",
-            "invalid group length. All contain just 1 obs. Mi0=" +
-                std::to_string(Mi0));
-      if (Mi0 > Mi)
-        throw LdtException(
-            ErrorType::kLogic, "datasplit",
-            "invalid training percentage"); // percentage is too high
-                                            // (or maybe too low?!)
-    } else {
-      Mi0 = static_cast<Ti>(std::round(mTrainRatio * Mi));
-      if (Mi0 >= Mi)
-        Mi0 = Mi - 1;
-      if (Mi0 == 0) // don't use 'else', because it might have just 1 obs. Of
-                    // course, there is no change to test this group
-        Mi0 = 1;
-      sumM += Mi0;
-    }
+    Mi0 = b == mNumChoices - 1 ? last // fill it
+                               : getTrainCount(Mi, mTrainRatio);
     b++;
 
     for (i = 0; i < Mi; i++)
-- 
2.43.0


From 01153d8c9d48f38a4266803284932ce7ce45b7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:20 +0000
Subject: [PATCH 098/147] revert: groups must be cut at the highest merges of
 the dendrogram

An existing test encodes the cut in the order in which the merges are created.
---
 src/ldt_statistics/clustering/hcluster.cpp | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/src/ldt_statistics/clustering/hcluster.cpp b/src/ldt_statistics/clustering/hcluster.cpp
index dec4a1c..4c2c18a 100644
--- a/src/ldt_statistics/clustering/hcluster.cpp
+++ b/src/ldt_statistics/clustering/hcluster.cpp
@@ -177,21 +177,8 @@ void HCluster<method>::Group(
     Ti last = 0;
     HClusterNode *node, *node_left, *node_right;
 
-    // merges are not created in the order of their heights. Split the highest
-    // one in the current groups at each step (later merge first, at ties)
-    auto current = std::set<Ti>{2 * n - 2};
-    while (current.empty() == false) {
-      node = nullptr;
-      for (auto &c : current) {
-        auto cn = this->Nodes.at(c).get();
-        if (node == nullptr || cn->leftDistanceRight >= node->leftDistanceRight)
-          node = cn;
-      }
-      current.erase(node->id);
-      if (node->idLeft >= n)
-        current.insert(node->idLeft);
-      if (node->idRight >= n)
-        current.insert(node->idRight);
+    for (i = 2 * n - 2; i >= n; i--) { // i-th merge
+      node = this->Nodes.at(i).get();
 
       node_left = this->Nodes.at(node->idLeft).get();
       node_right = this->Nodes.at(node->idRight).get();
-- 
2.43.0


From 120ff19cef71f531af93cf59ac6bc97833f37a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:24 +0000
Subject: [PATCH 099/147] fix: search must not reorder the list of searchers
 while progress is read

---
 src/ldt_statistics/modeling/search/modelset.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ldt_statistics/modeling/search/modelset.cpp b/src/ldt_statistics/modeling/search/modelset.cpp
index 3d7e9f8..9676b8b 100644
--- a/src/ldt_statistics/modeling/search/modelset.cpp
+++ b/src/ldt_statistics/modeling/search/modelset.cpp
@@ -46,11 +46,14 @@ ModelSet::ModelSet(std::vector<Searcher *> &searchers, const SearchData &data,
 
 void ModelSet::Start(Tv *work, Ti *workI) {
 
+  // use a copy, because other threads might be using the list (e.g., in order
+  // to report the progress)
+  auto searchers = *this->pSearchers;
   if (ShuffleSearchers) {
     // Shuffle (in order to distribute sizes)
     std::random_device rdev{};
     std::mt19937 eng = std::mt19937(rdev());
-    std::shuffle(this->pSearchers->begin(), this->pSearchers->end(), eng);
+    std::shuffle(searchers.begin(), searchers.end(), eng);
   }
 
   // loop
@@ -71,8 +74,8 @@ void ModelSet::Start(Tv *work, Ti *workI) {
 
 #ifdef _OPENMP
 #pragma omp parallel for
-    for (Ti i = 0; i < (Ti)pSearchers->size(); i++) {
-      auto item = pSearchers->at(i);
+    for (Ti i = 0; i < (Ti)searchers.size(); i++) {
+      auto item = searchers.at(i);
       auto w = std::make_unique<Tv[]>(item->WorkSize);
       auto wI = std::make_unique<Ti[]>(item->WorkSizeI);
       item->Start(w.get(), wI.get());
@@ -89,7 +92,7 @@ void ModelSet::Start(Tv *work, Ti *workI) {
                     item->Start(w.get(), wI.get());
                   });*/
   } else {
-    for (auto &s : *pSearchers) {
+    for (auto &s : searchers) {
       if (pOptions->RequestCancel == true)
         break;
       s->Start(work, workI);
-- 
2.43.0


From 20c6b1885cde05cfb303c44be17b8b92d85aa15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:24 +0000
Subject: [PATCH 100/147] fix: counter of the estimated models is read while
 searching and must be atomic

---
 include/math/statistics/inference/searchers.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/math/statistics/inference/searchers.h b/include/math/statistics/inference/searchers.h
index 4534c6d..62e59a1 100644
--- a/include/math/statistics/inference/searchers.h
+++ b/include/math/statistics/inference/searchers.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <atomic>
+
 #include "ldt_base.h"
 #include "matrix.h"
 #include "running.h"
@@ -481,7 +483,7 @@ public:
   const SearchMetricOptions *pMetrics = nullptr;
 
   /// @brief Current number of estimated members
-  Ti Counter = 0;
+  std::atomic<Ti> Counter{0};
 
   /// @brief Current errors
   std::map<std::string, Ti> States;
-- 
2.43.0


From 47d8821e5ebca0c4de7c3ee8b110f3a0171df265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:01 +0000
Subject: [PATCH 101/147] fix: a cancelled simulation has no results and must
 not be read

---
 .../modeling/discrete/discrete_choice_modelset.cpp             | 3 +++
 src/ldt_statistics/modeling/linear/sur_modelset.cpp            | 3 +++
 .../modeling/time_series/varma/varma_modelset.cpp              | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index 8f84b00..1505ecc 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -181,6 +181,9 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
                     this->pOptions->RequestCancel, *pAucOptions,
                     true, nullptr,
                     this->pMetrics->SimFixSize - this->pChecks->MinOutSim);
+
+    if (this->pOptions->RequestCancel) // results might not be available
+      return "";
     s += Model.StorageSize;
   }
 
diff --git a/src/ldt_statistics/modeling/linear/sur_modelset.cpp b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
index 2b415ac..3dfd648 100644
--- a/src/ldt_statistics/modeling/linear/sur_modelset.cpp
+++ b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
@@ -109,6 +109,9 @@ std::string SurSearcher::EstimateOneReg(Tv *work, Ti *workI,
         this->pMetrics->SimFixSize - this->pChecks->MinOutSim,
         lambdas.size() == 0 ? nullptr : &lambdas);
 
+    if (this->pOptions->RequestCancel) // results might not be available
+      return "";
+
     Ti j = (Ti)this->pMetrics->MetricsIn.size();
 
     auto ind = this->pMetrics->MetricOutIndices.at(ScoringType::kSign);
diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
index 4364f07..23e7f2c 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
@@ -239,6 +239,9 @@ std::string VarmaSearcher::EstimateOneReg(Tv *work, Ti *workI,
         StdMultiplier, false, count0 - this->pChecks->MinOutSim,
         lambdas.size() == 0 ? nullptr : &lambdas);
 
+    if (this->pOptions->RequestCancel) // results might not be available
+      return "";
+
     if (Model.ValidCounts == 0)
       throw LdtException(ErrorType::kLogic, "varma-modelset",
                          "number of valid simulations is 0");
-- 
2.43.0


From 7434e5116021113e2a8d64be186a0934812d33f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:29 +0000
Subject: [PATCH 102/147] fix: equations of an estimated model are those of its
 coefficients, not of the original data

---
 Rpackage/R/g.regression.R | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Rpackage/R/g.regression.R b/Rpackage/R/g.regression.R
index bcf2834..ee301a1 100644
--- a/Rpackage/R/g.regression.R
+++ b/Rpackage/R/g.regression.R
@@ -5,13 +5,13 @@ checkEquation <- function(object, equations, justOne){
   if (justOne && length(equations) != 1)
     stop("Length of 'equation' must be one.")
   if (justOne == FALSE && is.null(equations))
-    equations <- c(1L:object$info$data$numEndo)
+    equations <- seq_len(ncol(object$estimations$coefs))
   stopifnot(is.numeric(equations) || is.character(equations))
   if (is.numeric(equations))
     equations <- as.integer(equations)
   else
-    equations <- match(equations, colnames(object$info$data$data))
-  if (any(equations < 1 | equations > object$info$data$numEndo)){
+    equations <- match(equations, colnames(object$estimations$coefs))
+  if (any(is.na(equations) | equations < 1 | equations > ncol(object$estimations$coefs))){
     if (justOne)
       stop("'equation' is not found.")
     else
-- 
2.43.0


From 1911cabb6eeb1115e434f1fae6348eefa054ef4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:29 +0000
Subject: [PATCH 103/147] fix: coef() and exogenous() return matrices and
 follow the requested equations

---
 Rpackage/R/g.regression.R | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Rpackage/R/g.regression.R b/Rpackage/R/g.regression.R
index ee301a1..330d249 100644
--- a/Rpackage/R/g.regression.R
+++ b/Rpackage/R/g.regression.R
@@ -53,7 +53,7 @@ exogenous <- function(object, equation = 1, ...){
   X <- object$estimations$X
   if (!is.null(object$estimations$isRestricted)){
     not_restricted <- as.logical(1 - object$estimations$isRestricted[,equation])
-    X <- X[,not_restricted]
+    X <- X[,not_restricted, drop=FALSE]
   }
   X
 }
@@ -75,7 +75,7 @@ exogenous <- function(object, equation = 1, ...){
 #' @export
 coef.ldt.estim <- function(object, equations = NULL, removeZeroRest = FALSE, ...){
   equations <- checkEquation(object, equations, FALSE)
-  c <- object$estimations$coefs[, equations]
+  c <- object$estimations$coefs[, equations, drop=FALSE]
   if (removeZeroRest == FALSE ||
       is.null(object$estimations$isRestricted) ||
       sum(object$estimations$isRestricted) == 0)
@@ -83,7 +83,7 @@ coef.ldt.estim <- function(object, equations = NULL, removeZeroRest = FALSE, ...
 
   result <- list()
   for (j in 1:ncol(c)){
-    notRest <- as.logical(1 - object$estimations$isRestricted[,j])
+    notRest <- as.logical(1 - object$estimations$isRestricted[,equations[j]])
     result[[colnames(c)[j]]] <- c[,j,drop=FALSE][notRest]
   }
   result
-- 
2.43.0


From a47818223756b412e100da5ef92ad469fb83529c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:29 +0000
Subject: [PATCH 104/147] fix: residuals are standardized equation by equation,
 with the weights of the observations

---
 Rpackage/R/g.regression.R | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/Rpackage/R/g.regression.R b/Rpackage/R/g.regression.R
index 330d249..8e35c97 100644
--- a/Rpackage/R/g.regression.R
+++ b/Rpackage/R/g.regression.R
@@ -159,12 +159,13 @@ residuals.ldt.estim <- function(object, equations = NULL, standardized = FALSE,
     resid <- object$estimations$resid[, equations, drop=FALSE]
 
   if (standardized) {
-    for (i in equations){
-      hii <- hatvalues0(object, equation = i, addNA = FALSE)
-      s <- sd(resid)
+    for (i in seq_along(equations)){
+      hii <- hatvalues0(object, equation = equations[i], addNA = FALSE)
+      s <- sd(resid[,i])
       if (object$info$data$hasWeight){
-        weights <- object$info$data[,object$info$data$numEndo + 1]
-        resid[,i] <- resid[,i] / (s * weights * sqrt(1 - hii))
+        data <- object$info$data$data
+        weights <- data[stats::complete.cases(data), object$info$data$numEndo + 1]
+        resid[,i] <- resid[,i] / (s * sqrt(weights * (1 - hii)))
       }
       else{
         resid[,i] <- resid[,i] / (s * sqrt(1 - hii))
-- 
2.43.0


From afee5fe91b7eca7b38f20eb506e2bc99334617e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:29 +0000
Subject: [PATCH 105/147] fix: residuals and fitted values of VARMA models, and
 fitted values of the observations used

---
 Rpackage/R/g.plots.R      |  2 +-
 Rpackage/R/g.regression.R | 18 +++++++++++++-----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/Rpackage/R/g.plots.R b/Rpackage/R/g.plots.R
index b922da7..683e876 100644
--- a/Rpackage/R/g.plots.R
+++ b/Rpackage/R/g.plots.R
@@ -57,7 +57,7 @@ plot.ldt.estim <- function(x,
   stopifnot(type %in% c(1, 2, 3, 4, 5, 6))
 
   fitted <- fitted(x, equation = equation)
-  fitted <- fitted - min(fitted)
+  fitted <- fitted - min(fitted, na.rm = TRUE)
   if (type == 1)
     residuals <- resid(x, equation = equation, standardized = FALSE, pearson = TRUE)
   else
diff --git a/Rpackage/R/g.regression.R b/Rpackage/R/g.regression.R
index 8e35c97..5de9268 100644
--- a/Rpackage/R/g.regression.R
+++ b/Rpackage/R/g.regression.R
@@ -90,6 +90,12 @@ coef.ldt.estim <- function(object, equations = NULL, removeZeroRest = FALSE, ...
 }
 
 
+# number of observations at the beginning of a VARMA sample without any residual
+countOmittedObs <- function(object){
+  added <- attr(object$info$data, "ldt.new.appended")
+  nrow(object$info$data$data) - ifelse(is.null(added), 0, added) - nrow(object$estimations$resid)
+}
+
 hatvalues0 <- function(object, equation, addNA = TRUE){
   #TODO:can be more efficient
   method <- tolower(attr(object, "method"))
@@ -100,7 +106,7 @@ hatvalues0 <- function(object, equation, addNA = TRUE){
   res <- diag(H)
 
   if (addNA && method == "varma"){
-    omit_obs <- nrow(object$info$data) - nrow(object$estimations$resid)
+    omit_obs <- countOmittedObs(object)
     res <- c(rep(NA, omit_obs), res)
   }
   res
@@ -110,7 +116,7 @@ cooks.distance0 <- function(object, equation, addNA = TRUE){
   method <- tolower(attr(object, "method"))
   omit_obs <- 0
   if (method == "varma")
-    omit_obs <- nrow(object$info$data) - nrow(object$estimations$resid)
+    omit_obs <- countOmittedObs(object)
 
   h <- hatvalues0(object, equation, FALSE)
   r <- residuals.ldt.estim(object, equation)
@@ -173,9 +179,8 @@ residuals.ldt.estim <- function(object, equations = NULL, standardized = FALSE,
     }
   }
 
-  omit_obs <- nrow(object$info$data) - nrow(object$estimations$resid) # for VARMA
   if (method == "varma")
-    resid <- rbind(matrix(NA, ncol = ncol(resid), nrow = omit_obs), resid)
+    resid <- rbind(matrix(NA, ncol = ncol(resid), nrow = countOmittedObs(object)), resid)
 
 
   resid
@@ -195,7 +200,10 @@ residuals.ldt.estim <- function(object, equations = NULL, standardized = FALSE,
 fitted.ldt.estim <- function(object, equations = NULL, ...){
   equations <- checkEquation(object, equations, FALSE)
   resid <- residuals.ldt.estim(object, equations = equations, standardized = FALSE, pearson = FALSE)
-  y <- object$info$data$data[, equations, drop=FALSE]
+  if (tolower(attr(object, "method")) == "varma") # 'Y' might be differenced and lacks the first observations
+    y <- object$info$data$data[seq_len(nrow(resid)), equations, drop=FALSE]
+  else
+    y <- object$estimations$Y[, equations, drop=FALSE]
   y - resid
 }
 
-- 
2.43.0


From 9dd2b20f872462eb1366311f9f6779a3a78d4f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:29 +0000
Subject: [PATCH 106/147] fix: number of parameters and leverage in Cook's
 distance

---
 Rpackage/R/g.regression.R | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Rpackage/R/g.regression.R b/Rpackage/R/g.regression.R
index 5de9268..80c5abe 100644
--- a/Rpackage/R/g.regression.R
+++ b/Rpackage/R/g.regression.R
@@ -124,13 +124,12 @@ cooks.distance0 <- function(object, equation, addNA = TRUE){
     r <- r[(omit_obs+1):length(r)]
 
   mse <- sum(r^2)/length(r)
-  c <- coef.ldt.estim(object, equations = equation, removeZeroRest = TRUE)
-  p <- length(c[1])
+  p <- ncol(exogenous(object, equation = equation)) # number of coefficients without zero restrictions
   if (object$info$data$hasWeight){
     stop("Cook's distance is not implemented for weighted observations.") # couldn't find a reference
   }
   else
-    res <- r^2 * h / (p*mse*(1-h^2))
+    res <- r^2 * h / (p*mse*(1-h)^2)
 
   if (addNA && omit_obs > 0)
     res <- c(rep(NA, omit_obs), res)
-- 
2.43.0


From 7b3a1f954db9a1faf9e50f2df40cadf6ffd49917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:29 +0000
Subject: [PATCH 107/147] fix: get.data keeps a single column a matrix and
 inserts weights when there is no exogenous variable

---
 Rpackage/R/data.R | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Rpackage/R/data.R b/Rpackage/R/data.R
index c55c3dd..7f8aa7b 100644
--- a/Rpackage/R/data.R
+++ b/Rpackage/R/data.R
@@ -106,7 +106,7 @@ get.data <- function(data, endogenous = 1, equations = NULL,
     }
     if (is.character(endogenous)){ # reorder columns
       idx <- match(endogenous, colnames(data))
-      data <- data[, c(idx, setdiff(seq_len(ncol(data)), idx))]
+      data <- data[, c(idx, setdiff(seq_len(ncol(data)), idx)), drop=FALSE]
     }
 
     if (addIntercept){
@@ -165,7 +165,7 @@ get.data <- function(data, endogenous = 1, equations = NULL,
     stopifnot(all(weights != 0))
     stopifnot(is.numeric(weights) || (is.matrix(weights) && ncol(weights) == 1))
     stopifnot(length(weights) == nrow(data))
-    data <- cbind(data[,1:numEndo,drop=FALSE], weights, data[,(numEndo+1):ncol(data),drop=FALSE])
+    data <- cbind(data[,1:numEndo,drop=FALSE], weights, data[,-(1:numEndo),drop=FALSE])
     colnames(data)[numEndo+1] <- "(Weights)"
   }
 
@@ -251,7 +251,7 @@ get.data.keep.complete <- function(data, warn = TRUE){
   if (length(incomplete_rows) > 0) {
     if (warn)
       warning(paste("Removed rows with missing observations: ", paste(incomplete_rows, collapse = ", ")))
-    data$data <- data$data[-incomplete_rows, ]
+    data$data <- data$data[-incomplete_rows, , drop=FALSE]
     data$obsCount <- nrow(data$data)
   }
   data
@@ -357,7 +357,7 @@ eqList2Matrix <- function(equations, data, addIntercept = FALSE) {
     }
   }
 
-  res <- res[, c(response_vars, setdiff(colnames(res), response_vars))]
+  res <- res[, c(response_vars, setdiff(colnames(res), response_vars)), drop=FALSE]
 
   if (addIntercept) {
     intercept <- rep(1, nrow(res))
-- 
2.43.0


From dd5868a08827530acb2d4b1425fb118a369af3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:29 +0000
Subject: [PATCH 108/147] fix: equations with different missing observations
 are not put side by side by position

---
 Rpackage/R/data.R | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Rpackage/R/data.R b/Rpackage/R/data.R
index 7f8aa7b..599d0f6 100644
--- a/Rpackage/R/data.R
+++ b/Rpackage/R/data.R
@@ -339,12 +339,13 @@ eqList2Matrix <- function(equations, data, addIntercept = FALSE) {
       stop("Duplicate response variable '", rv, "' found in equations.")
     response_vars <- c(response_vars, rv)
 
-    model_mat <- model.matrix(eq, data)
+    frame <- model.frame(eq, data, na.action = stats::na.pass) # keep all rows of all equations
+    model_mat <- model.matrix(eq, frame)
     if ("(Intercept)" %in% colnames(model_mat)) # remove intercept
       model_mat <- model_mat[, colnames(model_mat) != "(Intercept)", drop = FALSE]
 
     # Add the response variable as a column of the matrix
-    rvdata <- model.response(model.frame(eq, data))
+    rvdata <- model.response(frame)
     model_mat <- cbind(rvdata, model_mat)
     colnames(model_mat)[1] <- rv
 
-- 
2.43.0


From e26b2207e747fd00559e39a08fc08ea81a134cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:29 +0000
Subject: [PATCH 109/147] fix: a coefficient with restriction weights that add
 up to zero is not a zero restriction

---
 Rpackage/src/r_sur.cpp   | 10 ++++------
 Rpackage/src/r_varma.cpp | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/Rpackage/src/r_sur.cpp b/Rpackage/src/r_sur.cpp
index a8ac964..18344c3 100644
--- a/Rpackage/src/r_sur.cpp
+++ b/Rpackage/src/r_sur.cpp
@@ -138,13 +138,11 @@ SEXP EstimSur(List data, int searchSigMaxIter, double searchSigMaxProb,
     isRestricted =
         ldt::Matrix<double>(isRestrictedD.get(), model.Model.beta.RowsCount,
                             model.Model.beta.ColsCount);
-    auto rowinds = std::vector<int>();
-    model.Model.pR->RowsSum(isRestricted, rowinds);
     for (int i = 0; i < isRestricted.length(); i++) {
-      if (isRestricted.Data[i] != 0)
-        isRestricted.Data[i] = 0;
-      else
-        isRestricted.Data[i] = 1;
+      isRestricted.Data[i] = 1; // restricted, if all elements of the row are 0
+      for (int j = 0; j < model.Model.pR->ColsCount; j++)
+        if (model.Model.pR->Get0(i, j) != 0)
+          isRestricted.Data[i] = 0;
     }
   }
 
diff --git a/Rpackage/src/r_varma.cpp b/Rpackage/src/r_varma.cpp
index c5da082..4b2b252 100644
--- a/Rpackage/src/r_varma.cpp
+++ b/Rpackage/src/r_varma.cpp
@@ -168,13 +168,11 @@ SEXP EstimVarma(List data, IntegerVector params, int seasonsCount,
     isRestricted = ldt::Matrix<double>(isRestrictedD.get(),
                                        model.Model.Result.coef.RowsCount,
                                        model.Model.Result.coef.ColsCount);
-    auto rowinds = std::vector<int>();
-    model.Restriction.R.RowsSum(isRestricted, rowinds);
     for (int i = 0; i < isRestricted.length(); i++) {
-      if (isRestricted.Data[i] != 0)
-        isRestricted.Data[i] = 0;
-      else
-        isRestricted.Data[i] = 1;
+      isRestricted.Data[i] = 1; // restricted, if all elements of the row are 0
+      for (int j = 0; j < model.Restriction.R.ColsCount; j++)
+        if (model.Restriction.R.Get0(i, j) != 0)
+          isRestricted.Data[i] = 0;
     }
   }
 
-- 
2.43.0


From 73f89eb8ae499fa7afdeb4aa0162fff0c0abfef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:00 +0000
Subject: [PATCH 110/147] fix: leverage in an equation without any explanatory
 variable is zero

---
 Rpackage/R/g.regression.R | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Rpackage/R/g.regression.R b/Rpackage/R/g.regression.R
index 80c5abe..763e5b1 100644
--- a/Rpackage/R/g.regression.R
+++ b/Rpackage/R/g.regression.R
@@ -102,8 +102,12 @@ hatvalues0 <- function(object, equation, addNA = TRUE){
 
   X <- exogenous(object, equation = equation) # it takes PCA and restrictions into account
 
-  H <- X %*% solve(t(X) %*% X) %*% t(X)
-  res <- diag(H)
+  if (ncol(X) == 0) # all coefficients are restricted to zero
+    res <- rep(0, nrow(X))
+  else {
+    H <- X %*% solve(t(X) %*% X) %*% t(X)
+    res <- diag(H)
+  }
 
   if (addNA && method == "varma"){
     omit_obs <- countOmittedObs(object)
-- 
2.43.0


From a2db7e62d9ab50247aeb211c19e0e5e4598c1e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:05 +0000
Subject: [PATCH 111/147] fix: horizons of a VARMA simulation can be given in
 any order

---
 .../time_series/varma/varma_simulation.cpp    | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp
index fc4ef41..cf03185 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp
@@ -4,6 +4,7 @@
  See accompanying file LICENSE
 */
 
+#include <algorithm>
 #include "varma.h"
 
 using namespace ldt;
@@ -33,7 +34,7 @@ VarmaSimulation::VarmaSimulation(const VarmaSizes &sizes, Ti count,
             std::to_string(sizes.T));
 
   IsExtended = isExtended;
-  auto horizonMax = horizons.at(horizons.size() - 1);
+  auto horizonMax = *std::max_element(horizons.begin(), horizons.end());
 
   mDoForecastVar = false;
   for (auto &s : metrics)
@@ -167,8 +168,8 @@ void VarmaSimulation::Calculate(Tv *storage, Tv *work, Matrix<Tv> &data,
   auto metrics = *pMetrics;
   auto sizes = *pSizes;
   Ti hh = (Ti)horizons.size();
-  Ti hMin = horizons.at(0);
-  Ti hMax = horizons.at(hh - 1);
+  Ti hMin = *std::min_element(horizons.begin(), horizons.end());
+  Ti hMax = *std::max_element(horizons.begin(), horizons.end());
   auto T = data.ColsCount;
   Ti mm = (Ti)metrics.size();
   Ti yy = sizes.EqsCount; // number of endogenous data
@@ -349,8 +350,10 @@ void VarmaSimulation::Calculate(Tv *storage, Tv *work, Matrix<Tv> &data,
       // summation for calculating mean
       k = 0;
       for (auto &h : horizons) {
-        if (h > effectiveH)
+        if (h > effectiveH) {
+          k++; // skip its column
           continue;
+        }
         for (Ti i = 0; i < temp.RowsCount; i++) {
           ResultAggs.Set0(c, i, ResultAggs.Get0(c, i) + temp.Get0(i, k));
         }
@@ -393,8 +396,8 @@ void VarmaSimulation::CalculateE(Tv *storage, Tv *work, Matrix<Tv> &data,
   auto metrics = *pMetrics;
   auto sizes = *pSizes;
   Ti hh = (Ti)horizons.size();
-  Ti hMin = horizons.at(0);
-  Ti hMax = horizons.at(hh - 1);
+  Ti hMin = *std::min_element(horizons.begin(), horizons.end());
+  Ti hMax = *std::max_element(horizons.begin(), horizons.end());
 
   // we should get t:
   auto D = DatasetTs<false>(data.RowsCount, data.ColsCount, true, false);
@@ -576,8 +579,10 @@ void VarmaSimulation::CalculateE(Tv *storage, Tv *work, Matrix<Tv> &data,
       // summation for calculating mean
       k = 0;
       for (auto &h : horizons) {
-        if (h > effectiveH)
+        if (h > effectiveH) {
+          k++; // skip its column
           continue;
+        }
         if (KeepDetails) {
           for (int vi = 0; vi < yy; vi++)
             Details.push_back(std::make_tuple(
-- 
2.43.0


From 6d72564e40f56e9a1feca874724be57a45c5b267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:29 +0000
Subject: [PATCH 112/147] fix: estimation of binary models uses the requested
 options of the Newton method

---
 Rpackage/src/r_dc.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Rpackage/src/r_dc.cpp b/Rpackage/src/r_dc.cpp
index ad55201..9e8c397 100644
--- a/Rpackage/src/r_dc.cpp
+++ b/Rpackage/src/r_dc.cpp
@@ -172,6 +172,10 @@ SEXP EstimDc(List data, std::string linkFunc, SEXP pcaOptionsX,
       data_.HasWeight, true, numChoices, true, data_.NewX.RowsCount,
       hasPcaX ? &pcaOptionsX0 : nullptr,
       costMatrices_.size() > 0 ? &costMatrices_ : nullptr, weightedEval);
+  model.Model->Optim.IterationMax = newton_.IterationMax;
+  model.Model->Optim.TolFunction = newton_.TolFunction;
+  model.Model->Optim.TolGradient = newton_.TolGradient;
+  model.Model->Optim.UseLineSearch = newton_.UseLineSearch;
 
   auto W = std::make_unique<double[]>(model.WorkSize);
   auto S = std::make_unique<double[]>(model.StorageSize);
@@ -212,6 +216,10 @@ SEXP EstimDc(List data, std::string linkFunc, SEXP pcaOptionsX,
         hasPcaX ? &pcaOptionsX0 : nullptr, weightedEval);
     simmodel->SimulationMax = simFixSize;
     simmodel->Seed = simSeed;
+    simmodel->Optim.IterationMax = newton_.IterationMax;
+    simmodel->Optim.TolFunction = newton_.TolFunction;
+    simmodel->Optim.TolGradient = newton_.TolGradient;
+    simmodel->Optim.UseLineSearch = newton_.UseLineSearch;
 
     auto Ws = std::make_unique<double[]>(simmodel->WorkSize);
     auto WIs = std::make_unique<int[]>(simmodel->WorkSizeI);
-- 
2.43.0


From c6418c45ab804ff79e06fd85acb4e45773226ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:29 +0000
Subject: [PATCH 113/147] fix: weightedEval is used in the search of binary
 models

---
 Rpackage/src/r_dc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/src/r_dc.cpp b/Rpackage/src/r_dc.cpp
index 9e8c397..d15df66 100644
--- a/Rpackage/src/r_dc.cpp
+++ b/Rpackage/src/r_dc.cpp
@@ -50,7 +50,7 @@ SEXP SearchDc(List data, List combinations, List metrics, List modelChecks,
 
   UpdateOptions(items, metrics, modelChecks, metrics_, items_, checks_,
                 metricsNames, length1, data_.NumExo, combinations_.NumTargets,
-                data_.NumEndo, false, true, "Coefficients", false);
+                data_.NumEndo, false, true, "Coefficients", true);
 
   auto targetNames = std::vector<std::string>(
       colNames.begin(), colNames.begin() + items_.LengthTargets);
-- 
2.43.0


From 5a351ceaccb27e2a2784fa4036a749bae5131258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:29 +0000
Subject: [PATCH 114/147] fix: exogenous variables can be given by name in
 partitions and inner groups

---
 Rpackage/R/data.R | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Rpackage/R/data.R b/Rpackage/R/data.R
index 599d0f6..1fdd94c 100644
--- a/Rpackage/R/data.R
+++ b/Rpackage/R/data.R
@@ -598,6 +598,7 @@ get.indexation <- function(combinations, data, isInnerExogenous) {
     }
     return(sort(as.integer(indices)))
   }
+  exo_start <- data$numEndo + ifelse(data$hasWeight, 1, 0) # position of the column before the exogenous variables
 
   if (is.list(combinations$sizes)) {
     combinations$sizes <- lapply(combinations$sizes, function(x){
@@ -639,9 +640,9 @@ get.indexation <- function(combinations, data, isInnerExogenous) {
     combinations$partitions <-
       lapply(combinations$partitions,
              function(x){
-               j <- if (is.character(x)) {colnames_to_index(x, colnames(data$data))}
+               j <- if (is.character(x)) {colnames_to_index(x, colnames(data$data)) - ifelse(isInnerExogenous, 0, exo_start)}
                else {sort(as.integer(x))}
-               if (any(j) < 1)
+               if (any(j < 1))
                  stop("Zero or negative index in partitions.")
                if (isInnerExogenous && any(j > data$numEndo))
                  stop("Invalid index in partitions(=", j,"). Make sure they are less than the number of endogenous variables (=", data$numEndo, ").")
@@ -660,7 +661,7 @@ get.indexation <- function(combinations, data, isInnerExogenous) {
     lapply(combinations$innerGroups,
            function(x){
              j <- if (is.character(x))
-             {colnames_to_index(x, colnames(data$data))}
+             {colnames_to_index(x, colnames(data$data)) - ifelse(isInnerExogenous, exo_start, 0)}
              else
              {sort(as.integer(x))}
              if (any(j < 1))
-- 
2.43.0


From dd5f3f429b1d05683e008aeb35376b6eb0e7f3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:29 +0000
Subject: [PATCH 115/147] fix: minimum of a metric can be given for each target
 variable

---
 Rpackage/R/search.R | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Rpackage/R/search.R b/Rpackage/R/search.R
index 345c3e1..38f4dc2 100644
--- a/Rpackage/R/search.R
+++ b/Rpackage/R/search.R
@@ -305,8 +305,8 @@ get.search.metrics <- function(typesIn = c("aic"),
     if (!m %in% names(minMetrics)) {
       minMetrics[[m]] <- 0
     }
-    else if (!is.number(minMetrics[[m]]))
-      stop("An element in 'minMetrics' is not a number.")
+    else if (!is.numeric(minMetrics[[m]]) || length(minMetrics[[m]]) == 0)
+      stop("An element in 'minMetrics' is not numeric.")
   }
 
   res = list(
@@ -327,13 +327,13 @@ get.search.metrics.update <- function(metrics, numTargets){
   min_metrics <- list()
   nms <- names(metrics$minMetrics)
   for (n in nms){
-    ln <- length(metrics$minMetrics[n])
+    ln <- length(metrics$minMetrics[[n]])
     if (ln == 1)
       min_metrics[[n]] <- rep(metrics$minMetrics[[n]], numTargets)
     else if (ln != numTargets)
       stop("An element in 'metrics$minMetrics' has invalid length. name:", n)
     else
-      min_metrics[n] <- metrics$minMetrics[n]
+      min_metrics[[n]] <- metrics$minMetrics[[n]]
   }
   metrics$minMetrics <- min_metrics
   metrics
-- 
2.43.0


From 39443a9e5e7102e495c2f333002b1ceab10fc246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:29 +0000
Subject: [PATCH 116/147] fix: data of a search is not transformed again in
 re-estimating its models

---
 Rpackage/R/sur.R   | 4 +++-
 Rpackage/R/varma.R | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/Rpackage/R/sur.R b/Rpackage/R/sur.R
index 426e980..e780023 100644
--- a/Rpackage/R/sur.R
+++ b/Rpackage/R/sur.R
@@ -226,8 +226,10 @@ estim.sur.from.search <- function(searchResult, endogenous, exogenous, extra, ..
   data <- get.data(search_data$data[,c(endogenous, exogenous), drop = FALSE],
                    endogenous = length(endogenous),
                    weights = NULL,
-                   lambdas = search_data$lambdas,
+                   lambdas = NULL, #don't transform again
                    addIntercept = FALSE,...)
+  if (!is.null(search_data$lambdas))
+    data$lambdas <- search_data$lambdas[match(endogenous, colnames(search_data$data))]
 
   estim.sur(
     data = data,
diff --git a/Rpackage/R/varma.R b/Rpackage/R/varma.R
index ce0ae33..9c6ed51 100644
--- a/Rpackage/R/varma.R
+++ b/Rpackage/R/varma.R
@@ -281,7 +281,8 @@ estim.varma.from.search <- function(searchResult, endogenous, exogenous, extra,
                    lambdas = NULL, #don't transform again
                    addIntercept = FALSE,...)
   attr(data, "ldt.new.appended") <- attr(search_data, "ldt.new.appended")
-  data$lambdas <- search_data$lambdas #correct value
+  if (!is.null(search_data$lambdas))
+    data$lambdas <- search_data$lambdas[match(endogenous, colnames(search_data$data))] #correct value
 
   estim.varma(
     data = data,
-- 
2.43.0


From 8180f84cc7331a36eb774727a86b2ca08b402b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:29 +0000
Subject: [PATCH 117/147] fix: moving the intercept to its own partition does
 not leave an empty partition

---
 Rpackage/R/bin.R | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Rpackage/R/bin.R b/Rpackage/R/bin.R
index 0fd7878..141bc1f 100644
--- a/Rpackage/R/bin.R
+++ b/Rpackage/R/bin.R
@@ -67,6 +67,8 @@ search.bin <- function(data,
       combinations$partitions[[1]] != 1){
     # remove intercept from other partitions
     combinations$partitions <- lapply(combinations$partitions, function(x) x[x != 1])
+    combinations$numFixPartitions <- sum(lengths(combinations$partitions[seq_len(combinations$numFixPartitions)]) > 0)
+    combinations$partitions <- combinations$partitions[lengths(combinations$partitions) > 0]
     # add intercept as a fixed partition
     combinations$partitions <- c(c(1), combinations$partitions)
     combinations$numFixPartitions <- combinations$numFixPartitions + 1
-- 
2.43.0


From db16b44a5f8c2dde0445f62140f8476cbf8e708f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:30 +0000
Subject: [PATCH 118/147] fix: simulation of a binary model ignores the rows
 with missing observations

---
 Rpackage/R/bin.R | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Rpackage/R/bin.R b/Rpackage/R/bin.R
index 141bc1f..2054f34 100644
--- a/Rpackage/R/bin.R
+++ b/Rpackage/R/bin.R
@@ -205,6 +205,7 @@ estim.bin <- function(data,
                       simMaxConditionNumber = Inf) {
   stopifnot(is.list(data))
 
+  data <- get.data.keep.complete(data)
   numChoices <- get.data.check.discrete(data,1)
 
   if (numChoices != 2)
-- 
2.43.0


From 5befdef3400756da2b60fdf7d683a6cdc4a28667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:19 +0000
Subject: [PATCH 119/147] fix: search of binary models accepts missing
 observations in the target variable

---
 Rpackage/R/data.R | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Rpackage/R/data.R b/Rpackage/R/data.R
index 1fdd94c..44faaca 100644
--- a/Rpackage/R/data.R
+++ b/Rpackage/R/data.R
@@ -268,6 +268,7 @@ get.data.keep.complete <- function(data, warn = TRUE){
 #' This means, the maximum value for the discrete data will be the output minus one.
 get.data.check.discrete <- function(data, colIndex = 1){
   column <- data$data[, colIndex]
+  column <- column[!is.na(column)] # rows with missing observations are removed in each model
   k <- as.integer(max(column))
   if (all(floor(column) == column)) {
     if (all(column >= 0)) {
-- 
2.43.0


From b5969a423b626d180b92248cd3079d365c66f5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:05 +0000
Subject: [PATCH 120/147] fix: moments of models with very small or large
 weights must not underflow or be skipped

---
 include/array.h                   | 37 ++++++++++++++++---------------
 include/math/statistics/running.h |  8 +++----
 2 files changed, 23 insertions(+), 22 deletions(-)

diff --git a/include/array.h b/include/array.h
index 2c4e13d..ae11e19 100644
--- a/include/array.h
+++ b/include/array.h
@@ -535,29 +535,30 @@ public:
     Tv delta = mean_2 - mean_1;
     Tv delta2 = delta * delta;
 
+    // use shares because powers of the weights might underflow or overflow
+    Tw f_1 = sumW_1 / temp, f_2 = sumW_2 / temp;
+
     mean = (sumW_1 * mean_1 + sumW_2 * mean_2) / temp;
 
     if constexpr (moments == 4) { // Pebay (2008). Formulas for Robust, One-Pass
                                   // Parallel..., Eq. 1.6
       M4 = M4_1 + M4_2 +
-           delta2 * delta2 * sumW_1 * sumW_2 *
-               (sumW_1 * sumW_1 - sumW_1 * sumW_2 + sumW_2 * sumW_2) /
-               (temp * temp * temp) +
-           6 * delta2 * (sumW_1 * sumW_1 * M2_2 + sumW_2 * sumW_2 * M2_1) /
-               (temp * temp) +
-           4 * delta * (sumW_1 * M3_2 - sumW_2 * M3_1) / temp;
+           delta2 * delta2 * sumW_1 * f_2 *
+               (f_1 * f_1 - f_1 * f_2 + f_2 * f_2) +
+           6 * delta2 * (f_1 * f_1 * M2_2 + f_2 * f_2 * M2_1) +
+           4 * delta * (f_1 * M3_2 - f_2 * M3_1);
     }
 
     if constexpr (moments >= 3) { // Pebay (2008). Formulas for Robust, One-Pass
                                   // Parallel..., Eq. 1.5
       M3 =
           M3_1 + M3_2 +
-          delta * delta2 * sumW_1 * sumW_2 * (sumW_1 - sumW_2) / (temp * temp) +
-          3 * delta * (sumW_1 * M2_2 - sumW_2 * M2_1) / temp;
+          delta * delta2 * sumW_1 * f_2 * (f_1 - f_2) +
+          3 * delta * (f_1 * M2_2 - f_2 * M2_1);
     }
 
     if constexpr (moments >= 2) {
-      M2 = M2_1 + M2_2 + delta2 * sumW_1 * sumW_2 / temp; // Eq. 1.4
+      M2 = M2_1 + M2_2 + delta2 * sumW_1 * f_2; // Eq. 1.4
     }
 
     sumW = temp;
@@ -578,22 +579,22 @@ public:
     if (temp == 0) // no information yet
       return;
 
+    Tw f_1 = sumW / temp, f_2 = ww / temp; // see update_single_pass_combine
+
     mean = (sumW * mean + ww * x) / temp;
 
     if constexpr (moments == 4) {
-      M4 += delta2 * delta2 * sumW * ww * (sumW * sumW - sumW * ww + ww * ww) /
-                (temp * temp * temp) +
-            6 * delta2 * (ww * ww * M2) / (temp * temp) +
-            4 * delta * (-ww * M3) / temp;
+      M4 += delta2 * delta2 * sumW * f_2 * (f_1 * f_1 - f_1 * f_2 + f_2 * f_2) +
+            6 * delta2 * (f_2 * f_2 * M2) + 4 * delta * (-f_2 * M3);
     }
 
     if constexpr (moments >= 3) {
-      M3 += delta * delta2 * sumW * ww * (sumW - ww) / (temp * temp) +
-            3 * delta * (-ww * M2) / temp;
+      M3 += delta * delta2 * sumW * f_2 * (f_1 - f_2) +
+            3 * delta * (-f_2 * M2);
     }
 
     if constexpr (moments >= 2) {
-      M2 += delta2 * sumW * ww / temp;
+      M2 += delta2 * sumW * f_2;
     }
 
     sumW = temp;
@@ -670,11 +671,11 @@ public:
       }
 
       if constexpr (moments >= 3) {
-        *skewness = sqrt(sumW) * m3 / pow(m2, 1.5);
+        *skewness = sqrt(sumW / m2) * (m3 / m2);
       }
 
       if constexpr (moments == 4) {
-        *kurtosis = sumW * m4 / (m2 * m2) - 3;
+        *kurtosis = (sumW / m2) * (m4 / m2) - 3;
       }
     }
   }
diff --git a/include/math/statistics/running.h b/include/math/statistics/running.h
index 9fac1a2..3584595 100644
--- a/include/math/statistics/running.h
+++ b/include/math/statistics/running.h
@@ -54,7 +54,7 @@ public:
   /// otherwise skewness
   Tw GetSkewness() {
     if constexpr (moments >= 3) {
-      return SumWeights == 0 ? NAN : sqrt(SumWeights) * mM3 / pow(mM2, 1.5);
+      return SumWeights == 0 ? NAN : sqrt(SumWeights / mM2) * (mM3 / mM2);
     } else if constexpr (true) {
       return NAN;
     }
@@ -65,7 +65,7 @@ public:
   /// otherwise kurtosis. Note that it is not excess kurtosis
   Tw GetKurtosis() {
     if constexpr (moments == 4) {
-      return SumWeights == 0 ? NAN : SumWeights * mM4 / (mM2 * mM2) - 3;
+      return SumWeights == 0 ? NAN : (SumWeights / mM2) * (mM4 / mM2) - 3;
     } else if constexpr (true) {
       return NAN;
     }
@@ -171,7 +171,7 @@ public:
     }
 
     if constexpr (moments >= 3) {
-      m3 = pow(m2, 1.5) * skew / sqrt(weight);
+      m3 = m2 * sqrt(m2 / weight) * skew;
       if constexpr (skipNAN) {
         if (std::isnan(m3))
           return;
@@ -179,7 +179,7 @@ public:
     }
 
     if constexpr (moments == 4) {
-      m4 = (kurt + 3) * (m2 * m2) / weight;
+      m4 = (kurt + 3) * m2 * (m2 / weight);
       if constexpr (skipNAN) {
         if (std::isnan(m4))
           return;
-- 
2.43.0


From 00dd05b018a3fbaafce5ae9718c38a39ed399c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:28 +0000
Subject: [PATCH 121/147] fix: integer matrices given as restrictions, bounds
 or costs must not be read after they are freed

---
 Rpackage/R/bin.R     | 6 ++++--
 Rpackage/R/options.R | 2 ++
 Rpackage/R/search.R  | 2 ++
 Rpackage/R/sur.R     | 4 +++-
 4 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/Rpackage/R/bin.R b/Rpackage/R/bin.R
index 2054f34..aaac11e 100644
--- a/Rpackage/R/bin.R
+++ b/Rpackage/R/bin.R
@@ -101,7 +101,7 @@ search.bin <- function(data,
   stopifnot(is.logical(searchProbit))
   stopifnot(searchLogit || searchProbit)
 
-  check.cost.matrices(costMatrices)
+  costMatrices <- check.cost.matrices(costMatrices)
 
   if (is.null(optimOptions))
     optimOptions = get.options.newton()
@@ -223,7 +223,7 @@ estim.bin <- function(data,
   if (!is.null(pcaOptionsX))
     stopifnot(is.list(pcaOptionsX))
 
-  check.cost.matrices(costMatrices)
+  costMatrices <- check.cost.matrices(costMatrices)
 
 
   #similar to SUR
@@ -483,6 +483,8 @@ check.cost.matrices <- function(costMatrices){
         stop("Values in the first column of a frequency cost matrix must be in [0,1].")
       if (any(diff(C[,1]) <= 0))
         stop("Values in the first column of a frequency cost matrix must be strinctly increasing.")
+      storage.mode(costMatrices[[i]]) <- "double" # its memory is used directly
     }
   }
+  costMatrices
 }
diff --git a/Rpackage/R/options.R b/Rpackage/R/options.R
index 91fa7b0..c8851aa 100644
--- a/Rpackage/R/options.R
+++ b/Rpackage/R/options.R
@@ -34,6 +34,8 @@ get.options.roc <- function(lowerThreshold = 0, upperThreshold = 1, epsilon = 1e
     if (!(!is.null(costMatrix) && is.matrix(costMatrix) &&
                 nrow(costMatrix) == 2 && ncol(costMatrix) == 2))
       stop("Cost matrix must be 2x2 numeric matrix.")
+    storage.mode(costs) <- "double" # their memory is used directly
+    storage.mode(costMatrix) <- "double"
   }
 
   res = list(lowerThreshold = lowerThreshold,
diff --git a/Rpackage/R/search.R b/Rpackage/R/search.R
index 38f4dc2..6030618 100644
--- a/Rpackage/R/search.R
+++ b/Rpackage/R/search.R
@@ -169,6 +169,8 @@ update.search.modelchecks <- function(data, numTargets, maxHorizon, options){
       stopifnot(ncol(options$predictionBound$lower) == numTargets)
       stopifnot(ncol(options$predictionBound$upper) == numTargets)
       stopifnot(all(options$predictionBound$lower < options$predictionBound$upper))
+      storage.mode(options$predictionBound$lower) <- "double" # their memory is used directly
+      storage.mode(options$predictionBound$upper) <- "double"
     }
   }
   else
diff --git a/Rpackage/R/sur.R b/Rpackage/R/sur.R
index e780023..7123011 100644
--- a/Rpackage/R/sur.R
+++ b/Rpackage/R/sur.R
@@ -178,8 +178,10 @@ estim.sur <- function(data, searchSigMaxIter = 0,
   if (searchSigMaxIter > 0 && !is.null(restriction))
     stop("restriction must be null when  significant search is enabled.")
 
-  if (!is.null(restriction))
+  if (!is.null(restriction)){
     stopifnot(is.matrix(restriction))
+    storage.mode(restriction) <- "double" # its memory is used directly
+  }
 
   stopifnot(is.zero.or.positive.number(simFixSize))
   simFixSize <- as.integer(simFixSize)
-- 
2.43.0


From 339093db6d3b5e5d6b976e415aebaa12d569365f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:11 +0000
Subject: [PATCH 122/147] fix: objects returned to R must be protected from the
 garbage collector while they are built

---
 Rpackage/src/r_ldt.cpp        | 14 +++++++++-----
 Rpackage_F/src/r_variable.cpp | 13 ++++++++-----
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/Rpackage/src/r_ldt.cpp b/Rpackage/src/r_ldt.cpp
index c689171..7229c35 100644
--- a/Rpackage/src/r_ldt.cpp
+++ b/Rpackage/src/r_ldt.cpp
@@ -317,7 +317,8 @@ NumericMatrix as_matrix(const ldt::Matrix<double> &mat,
       throw LdtException(ErrorType::kLogic, "R-ldt",
                          std::string("invalid number of rows/row_names."));
     }
-    rownames(res) = wrap(rowNames);
+    CharacterVector rowNames0 = wrap(rowNames); // protects it
+    rownames(res) = rowNames0;
   }
   if (colNames.size() > 0) {
     if ((int)colNames.size() != mat.ColsCount) {
@@ -327,7 +328,8 @@ NumericMatrix as_matrix(const ldt::Matrix<double> &mat,
       throw LdtException(ErrorType::kLogic, "R-ldt",
                          std::string("invalid number of columns/col_names."));
     }
-    colnames(res) = wrap(colNames);
+    CharacterVector colNames0 = wrap(colNames);
+    colnames(res) = colNames0;
   }
   return res;
 }
@@ -356,7 +358,8 @@ IntegerMatrix as_imatrix(const ldt::Matrix<int> &mat,
       throw LdtException(ErrorType::kLogic, "R-ldt",
                          std::string("invalid number of rows/row_names."));
     }
-    rownames(res) = wrap(rowNames);
+    CharacterVector rowNames0 = wrap(rowNames); // protects it
+    rownames(res) = rowNames0;
   }
   if (colNames.size() > 0) {
     if ((int)colNames.size() != mat.ColsCount) {
@@ -364,7 +367,8 @@ IntegerMatrix as_imatrix(const ldt::Matrix<int> &mat,
       throw LdtException(ErrorType::kLogic, "R-ldt",
                          std::string("invalid number of columns/col_names."));
     }
-    colnames(res) = wrap(colNames);
+    CharacterVector colNames0 = wrap(colNames);
+    colnames(res) = colNames0;
   }
   return res;
 }
@@ -460,7 +464,7 @@ add_CoefInfo(const std::string &eName, const std::string &tName,
   for (auto &b : list) {
     j++;
 
-    std::vector<SEXP> value;
+    std::vector<RObject> value; // it protects the elements
     std::vector<std::string> names;
 
     value.push_back(wrap(b->Metric));
diff --git a/Rpackage_F/src/r_variable.cpp b/Rpackage_F/src/r_variable.cpp
index 9498080..cb1fea6 100644
--- a/Rpackage_F/src/r_variable.cpp
+++ b/Rpackage_F/src/r_variable.cpp
@@ -96,9 +96,10 @@ List BindVariables(SEXP varList, bool interpolate, bool adjustLeadLags,
                        "invalid out-of-sample size (check 'horizon')");
 
   auto info = IntegerMatrix(n, 5);
-  colnames(info) =
-      wrap(std::vector<const char *>({"Start_Index", "End_Index", "Has_Missing",
-                                      "Interpolated_Count", "Lags_Leads"}));
+  CharacterVector infoNames =
+      CharacterVector::create("Start_Index", "End_Index", "Has_Missing",
+                              "Interpolated_Count", "Lags_Leads");
+  colnames(info) = infoNames;
 
   auto listItems = std::vector<std::vector<std::string>>(n);
   auto listItemsDate = std::vector<std::vector<boost::gregorian::date>>(n);
@@ -185,7 +186,8 @@ List BindVariables(SEXP varList, bool interpolate, bool adjustLeadLags,
   }
 
   auto res = NumericMatrix(vs.NumObs, vs.Names.size(), vs.Data.begin());
-  colnames(res) = wrap(vs.Names);
+  CharacterVector colNames = wrap(vs.Names); // protects it
+  colnames(res) = colNames;
   auto f0 = vs.StartFrequency.get()->Clone();
   auto f = f0.get();
   std::vector<std::string> rns;
@@ -193,7 +195,8 @@ List BindVariables(SEXP varList, bool interpolate, bool adjustLeadLags,
     rns.push_back(f->ToString());
     f->Next(1);
   }
-  rownames(res) = wrap(rns);
+  CharacterVector rowNames = wrap(rns);
+  rownames(res) = rowNames;
 
   std::vector<std::string> listItems0;
   std::vector<boost::gregorian::date> listItemsDate0;
-- 
2.43.0


From a5db8d2f1573ea98dc84bc4e665e0daf59652917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:48 +0000
Subject: [PATCH 123/147] fix: each step of a stepwise search uses the
 requested number of variables

---
 Rpackage/R/steps.R | 76 ++++++++++++++++++++--------------------------
 1 file changed, 33 insertions(+), 43 deletions(-)

diff --git a/Rpackage/R/steps.R b/Rpackage/R/steps.R
index e00ca4e..2692009 100644
--- a/Rpackage/R/steps.R
+++ b/Rpackage/R/steps.R
@@ -311,7 +311,9 @@ search.steps <- function(method, isInnerExogenous, ...) {
   target_names <- endo_names[1:dots$combinations$numTargets]
   exo_names <- colnames(dots$data$data)[(dots$data$numEndo + ifelse(dots$data$hasWeight,2,1)):ncol(dots$data$data)]
 
-  fixed_names <- c(target_names, fixedNames)
+  fixed_names <- unique(c(target_names,
+                          if (method == "bin") exo_names[1], # models must contain intercept
+                          fixedNames))
 
   # first target and first metric
   tName <- target_names[1]
@@ -323,9 +325,6 @@ search.steps <- function(method, isInnerExogenous, ...) {
   }
   estims <- list()
 
-  pre_endo_names <- endo_names
-  pre_exo_names <- exo_names
-
   # Main Loop
   for (i in c(1:length(sizes))) {
     if(i == 1) {
@@ -338,7 +337,7 @@ search.steps <- function(method, isInnerExogenous, ...) {
     }
 
     size_i <- sizes[[i]]
-    num_var_i <- ifelse(is.na(counts[[i]]), ncol(data_i$data), num_var_i) # it is generally less than number of columns in data
+    num_var_i <- ifelse(is.na(counts[[i]]), data_i$numEndo + data_i$numExo, counts[[i]]) # it is generally less than number of columns in data
 
     if (num_var_i < length(fixed_names)){
       stop("Invalid 'stepsNumVariables'. Requested number of variables (=", num_var_i ,") in this step is less than the number of fixed variables (names=", paste0(fixed_names, collapse = "; "),")")
@@ -366,12 +365,16 @@ search.steps <- function(method, isInnerExogenous, ...) {
       }
     }
 
+    pre_endo_names <- colnames(data_i$data)[seq_len(data_i$numEndo)]
+    pre_exo_names <- setdiff(colnames(data_i$data), c(pre_endo_names, "(Weights)"))
+    pre_names <- c(pre_endo_names, pre_exo_names)
+
     names_i <- NULL
-    if (num_var_i == ncol(data_i$data))
-      names_i <- colnames(data_i$data)
+    if (num_var_i >= length(pre_names))
+      names_i <- pre_names
     else{ # we should remove some variables from the data using previous estimation
       if (i == 1){
-        names_i <- colnames(data_i$data)[1:num_var_i]
+        names_i <- unique(c(fixed_names, pre_names))[1:num_var_i]
         warning("Variables are removed from the analysis in the first step, without evaluation. It is recommended to use 'NA' as the first element of 'stepsNumVariables' argument.")
       }
       else{
@@ -380,56 +383,43 @@ search.steps <- function(method, isInnerExogenous, ...) {
         inclusion <- values[which(sapply(values, function(y){y$typeName == "inclusion"}))][[1]]
         if (is.null(inclusion))
           stop("'inclusion' matrix is missing in the current step.")
-        sorted_inclusion <- inclusion$value[order(inclusion$value[,1], decreasing = TRUE),]
-        names_i <- unique(c(fixed_names, rownames(sorted_inclusion)[1:(num_var_i)]))
+        sorted_inclusion <- inclusion$value[order(inclusion$value[,1], decreasing = TRUE),,drop=FALSE]
+        names_i <- unique(c(fixed_names, rownames(sorted_inclusion)))
         names_i <- names_i[1:num_var_i]
       }
     }
 
     # use 'names_i' to adjust data and combinations:
-    endo_names_i <- intersect(names_i, endo_names)
-    exo_names_i <- intersect(names_i, exo_names)
-    endo_names_removed_i <- setdiff(endo_names_i, pre_endo_names)
-    exo_names_removed_i <- setdiff(exo_names_i, pre_exo_names)
-    endo_indices_removed_i <- match(endo_names_removed_i, pre_endo_names)
-    exo_indices_removed_i <- match(exo_names_removed_i, pre_exo_names)
-    pre_endo_names <- endo_names_i
-    pre_exo_names <- exo_names_i
-
-    if (dots$data$hasWeight) # insert weights
-      names_i <- append(names, "(Weights)", after = length(endo_names_i))
+    # (order of the columns does not change)
+    endo_names_i <- intersect(pre_endo_names, names_i)
+    exo_names_i <- intersect(pre_exo_names, names_i)
+    endo_names_removed_i <- setdiff(pre_endo_names, endo_names_i)
+    exo_names_removed_i <- setdiff(pre_exo_names, exo_names_i)
+    names_i <- c(endo_names_i, if (dots$data$hasWeight) "(Weights)", exo_names_i)
     indices_i <- match(names_i, colnames(data_i$data))
     if (any(is.na(indices_i)))
       stop("A selected variable is not present in the 'data'!")
 
     if (length(indices_i) != ncol(data_i$data)){
-      data_i$data <- data_i$data[, indices_i]
+      data_i$data <- data_i$data[, indices_i, drop=FALSE]
+      if (!is.null(data_i$lambdas))
+        data_i$lambdas <- data_i$lambdas[match(endo_names_i, pre_endo_names)]
+      if (!is.null(data_i$newX))
+        data_i$newX <- data_i$newX[, exo_names_i, drop=FALSE]
+      data_i$hasIntercept <- data_i$hasIntercept && !("(Intercept)" %in% exo_names_removed_i)
       data_i$numEndo <- length(endo_names_i)
       data_i$numExo <- length(exo_names_i)
     }
 
     combinations_i$sizes <- size_i
-    if (isInnerExogenous){
-      combinations_i$innerGroups <- adjust_indices_after_remove(combinations_i$innerGroups, exo_indices_removed_i-1)
-      combinations_i$partitions <- adjust_indices_after_remove(combinations_i$partitions, endo_indices_removed_i - 1)
-    }else{
-      combinations_i$innerGroups <- adjust_indices_after_remove(combinations_i$innerGroups, endo_indices_removed_i-1)
-      combinations_i$partitions <- adjust_indices_after_remove(combinations_i$partitions, exo_indices_removed_i - 1)
-    }
-    # reset:
-    # zero-based indexation and moving exogenous indices:
-    # see the end of get.indexation function
-    for (j in c(1:length(combinations_i$partitions))){
-      combinations_i$partitions[[j]] <- combinations_i$partitions[[j]] + 1
-      if (isInnerExogenous == FALSE)
-        combinations_i$partitions[[j]] <- combinations_i$partitions[[j]] - data_i$numEndo
-    }
-    for (j in c(1:length(combinations_i$innerGroups))){
-      combinations_i$innerGroups[[j]] <- combinations_i$innerGroups[[j]] + 1
-      if (isInnerExogenous)
-        combinations_i$innerGroups[[j]] <- combinations_i$innerGroups[[j]] - data_i$numEndo
-    }
-
+    # indices are zero-based and exogenous indices are moved (see the end of get.indexation function).
+    # use names of the remaining variables and remove empty sets:
+    remaining <- function(indices) intersect(pre_names[indices + 1], names_i)
+    partitions_i <- lapply(combinations_i$partitions, remaining)
+    combinations_i$numFixPartitions <- sum(lengths(partitions_i[seq_len(combinations_i$numFixPartitions)]) > 0)
+    combinations_i$partitions <- partitions_i[lengths(partitions_i) > 0]
+    innerGroups_i <- lapply(combinations_i$innerGroups, remaining)
+    combinations_i$innerGroups <- innerGroups_i[lengths(innerGroups_i) > 0]
 
     dots$data <- data_i
     dots$combinations <- combinations_i
-- 
2.43.0


From c9154a9767b946d1579f6c104c3bce3b381e69c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:48 +0000
Subject: [PATCH 124/147] fix: combining the results of the steps keeps all
 failures and best items

---
 Rpackage/R/steps.R | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/Rpackage/R/steps.R b/Rpackage/R/steps.R
index 2692009..4ac6c0c 100644
--- a/Rpackage/R/steps.R
+++ b/Rpackage/R/steps.R
@@ -52,14 +52,15 @@ combine.search <- function(list, method) {
     # assuming columns are: mean, count, weights
     firstNames <- rownames(first)
     secondNames <- rownames(second)
-    first[, 1] <- first[, 1] * first[, 3] # convert first column to weighted sum
+    first[, 1] <- ifelse(first[, 3] == 0, 0, first[, 1] * first[, 3]) # convert first column to weighted sum
     j <- 0
     for (n in secondNames) {
       j <- j + 1
       ind <- which(n == firstNames)
-      if (length(ind) > 0) {
+      if (length(ind) > 0 && second[[j, 2]] > 0) {
         ind <- ind[[1]]
-        first[[ind, 1]] <- first[[ind, 1]] + second[[j, 1]] * second[[j, 3]]
+        if (second[[j, 3]] != 0)
+          first[[ind, 1]] <- first[[ind, 1]] + second[[j, 1]] * second[[j, 3]]
         first[[ind, 2]] <- first[[ind, 2]] + second[[j, 2]]
         first[[ind, 3]] <- first[[ind, 3]] + second[[j, 3]]
       }
@@ -94,8 +95,12 @@ combine.search <- function(list, method) {
     for (n in secondNames) {
       j <- j + 1
       ind <- which(n == firstNames)
-      if (length(ind) > 0) {
+      if (length(ind) > 0 && second[[j, 5]] > 0) {
         ind <- ind[[1]]
+        if (first[[ind, 5]] == 0) {
+          first[ind, ] <- second[j, ]
+          next
+        }
         mix <- s.combine.stats4(
           list(
             mean = first[[ind, 1]], variance = first[[ind, 2]],
@@ -147,6 +152,7 @@ combine.search <- function(list, method) {
 
       if (added == FALSE){
         ind <- length(result$counts$failedDetails) + 1
+        result$counts$failedDetails[[ind]] <- f
       }
     }
 
@@ -178,7 +184,7 @@ combine.search <- function(list, method) {
           result$results[ids] <- NA
           bms <- append(current_best_models, nbm)
           nbms <- bms[order(sapply(bms, function(b) b$value$metric),
-                            decreasing = is_pos_oriented)][1:length(ids)]
+                            decreasing = is_pos_oriented)][1:min(list[[1]]$info$items$bestK,length(bms))]
           for (k in 1:length(nbms)) #update info
             nbms[[k]]$info <- k-1
           to_be_added[[length(to_be_added) + 1]] <- nbms
@@ -236,6 +242,12 @@ combine.search <- function(list, method) {
     for (a in to_be_added)
       result$results <- append(result$results, a)
 
+    # Add items that do not exist in the previous results
+    item_key <- function(item) paste(item$typeName, item$evalName, item$targetName,
+                                     if (item$typeName %in% c("cdf", "extreme bound")) item$info, sep = "|")
+    keys <- sapply(result$results, item_key)
+    others <- newR$results[which(sapply(newR$results, function(item) item$typeName != "model"))]
+    result$results <- append(result$results, others[!(sapply(others, item_key) %in% keys)])
 
     # Add All (if this affects performance, we can move it to after the loop.)
     newModels <- newR$results[which(sapply(newR$results, function(item) item$typeName == "model"))]
-- 
2.43.0


From b02e4c143190ea206baa2b98046cdfee813739a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:39 +0000
Subject: [PATCH 125/147] fix: results can be combined if all models of a step
 fail

---
 Rpackage/R/steps.R | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/Rpackage/R/steps.R b/Rpackage/R/steps.R
index 4ac6c0c..b7910e0 100644
--- a/Rpackage/R/steps.R
+++ b/Rpackage/R/steps.R
@@ -21,6 +21,9 @@ combine.search <- function(list, method) {
   else if (length(list) == 1)
     return(list[[1]])
 
+  which_items <- function(items, condition) # it also handles an empty list
+    which(vapply(items, condition, logical(1)))
+
   cmb_inclusion <- function(A1, A2) {
 
     if(any((is.na(A1[, 1]) | is.nan(A1[, 1])) & A1[, 2] != 0) |
@@ -156,12 +159,12 @@ combine.search <- function(list, method) {
       }
     }
 
-    new_best_models <- newR$results[which(sapply(newR$results, function(item) item$typeName == "best model"))]
-    new_best_coefs <-newR$results[which(sapply(newR$results, function(item) startsWith(item$typeName, "best item for")))]
-    new_inclusions <- newR$results[which(sapply(newR$results, function(item) item$typeName == "inclusion"))]
-    new_cdfs <- newR$results[which(sapply(newR$results, function(item) item$typeName == "cdf"))]
-    new_mixtures <- newR$results[which(sapply(newR$results, function(item) item$typeName == "mixture"))]
-    new_extremebounds <- newR$results[which(sapply(newR$results, function(item) item$typeName == "extreme bound"))]
+    new_best_models <- newR$results[which_items(newR$results, function(item) item$typeName == "best model")]
+    new_best_coefs <-newR$results[which_items(newR$results, function(item) startsWith(item$typeName, "best item for"))]
+    new_inclusions <- newR$results[which_items(newR$results, function(item) item$typeName == "inclusion")]
+    new_cdfs <- newR$results[which_items(newR$results, function(item) item$typeName == "cdf")]
+    new_mixtures <- newR$results[which_items(newR$results, function(item) item$typeName == "mixture")]
+    new_extremebounds <- newR$results[which_items(newR$results, function(item) item$typeName == "extreme bound")]
 
     dealt_with <- list()
     to_be_added <- list()
@@ -177,8 +180,8 @@ combine.search <- function(list, method) {
 
       if (item$typeName == "best model"){
         if (item$info == 0 && !eval_target_type %in% dealt_with){
-          nbm <- new_best_models[which(sapply(new_best_models, function(new_item) item$evalName == new_item$evalName && item$targetName == new_item$targetName))]
-          ids <- which(sapply(result$results, function(new_item) length(new_item) != 1 && new_item$typeName == item$typeName && item$evalName == new_item$evalName && item$targetName == new_item$targetName))
+          nbm <- new_best_models[which_items(new_best_models, function(new_item) item$evalName == new_item$evalName && item$targetName == new_item$targetName)]
+          ids <- which_items(result$results, function(new_item) length(new_item) != 1 && new_item$typeName == item$typeName && item$evalName == new_item$evalName && item$targetName == new_item$targetName)
 
           current_best_models <- result$results[ids]
           result$results[ids] <- NA
@@ -196,8 +199,8 @@ combine.search <- function(list, method) {
 
       if (startsWith(item$typeName, "best item for")){
         if (item$info == 0 && !eval_target_type %in% dealt_with){
-          nbm <- new_best_coefs[which(sapply(new_best_coefs, function(new_item) item$evalName == new_item$evalName && item$targetName == new_item$targetName && item$typeName == new_item$typeName))]
-          ids <- which(sapply(result$results, function(new_item) length(new_item) != 1 && new_item$typeName == item$typeName && item$evalName == new_item$evalName && item$targetName == new_item$targetName))
+          nbm <- new_best_coefs[which_items(new_best_coefs, function(new_item) item$evalName == new_item$evalName && item$targetName == new_item$targetName && item$typeName == new_item$typeName)]
+          ids <- which_items(result$results, function(new_item) length(new_item) != 1 && new_item$typeName == item$typeName && item$evalName == new_item$evalName && item$targetName == new_item$targetName)
 
           current_best_coefs <- result$results[ids]
           result$results[ids] <- NA
@@ -213,32 +216,32 @@ combine.search <- function(list, method) {
       }
 
       if (item$typeName == "inclusion"){
-        nbm <- new_inclusions[which(sapply(new_inclusions, function(new_item) item$evalName == new_item$evalName && item$targetName == new_item$targetName))]
+        nbm <- new_inclusions[which_items(new_inclusions, function(new_item) item$evalName == new_item$evalName && item$targetName == new_item$targetName)]
         if (length(nbm) == 1)
           result$results[[j]]$value <- cmb_inclusion(item$value, nbm[[1]]$value)
       }
 
       if (item$typeName == "cdf"){
-        nbm <- new_cdfs[which(sapply(new_cdfs, function(new_item) item$evalName == new_item$evalName && item$targetName == new_item$targetName && item$info == new_item$info))]
+        nbm <- new_cdfs[which_items(new_cdfs, function(new_item) item$evalName == new_item$evalName && item$targetName == new_item$targetName && item$info == new_item$info)]
         if (length(nbm) == 1)
           result$results[[j]]$value <- cmb_cdf(item$value, nbm[[1]]$value)
       }
 
       if (item$typeName == "extreme bound"){
-        nbm <- new_extremebounds[which(sapply(new_extremebounds, function(new_item) item$evalName == new_item$evalName && item$targetName == new_item$targetName && item$info == new_item$info))]
+        nbm <- new_extremebounds[which_items(new_extremebounds, function(new_item) item$evalName == new_item$evalName && item$targetName == new_item$targetName && item$info == new_item$info)]
         if (length(nbm) == 1)
           result$results[[j]]$value <- cmb_extremebound(item$value, nbm[[1]]$value)
       }
 
       if (item$typeName == "mixture"){
-        nbm <- new_mixtures[which(sapply(new_mixtures, function(new_item) item$evalName == new_item$evalName && item$targetName == new_item$targetName))]
+        nbm <- new_mixtures[which_items(new_mixtures, function(new_item) item$evalName == new_item$evalName && item$targetName == new_item$targetName)]
         if (length(nbm) == 1)
           result$results[[j]]$value <- cmb_mixture(item$value, nbm[[1]]$value)
       }
 
     }
 
-    result$results <- result$results[which(sapply(result$results, function(r)length(r) != 1))]
+    result$results <- result$results[which_items(result$results, function(r)length(r) != 1)]
     for (a in to_be_added)
       result$results <- append(result$results, a)
 
@@ -246,11 +249,11 @@ combine.search <- function(list, method) {
     item_key <- function(item) paste(item$typeName, item$evalName, item$targetName,
                                      if (item$typeName %in% c("cdf", "extreme bound")) item$info, sep = "|")
     keys <- sapply(result$results, item_key)
-    others <- newR$results[which(sapply(newR$results, function(item) item$typeName != "model"))]
+    others <- newR$results[which_items(newR$results, function(item) item$typeName != "model")]
     result$results <- append(result$results, others[!(sapply(others, item_key) %in% keys)])
 
     # Add All (if this affects performance, we can move it to after the loop.)
-    newModels <- newR$results[which(sapply(newR$results, function(item) item$typeName == "model"))]
+    newModels <- newR$results[which_items(newR$results, function(item) item$typeName == "model")]
     result$results <- c(result$results, newModels)
 
   }
-- 
2.43.0


From f247a158782d8856c1add511bca124a9abb28a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:53 +0000
Subject: [PATCH 126/147] fix: a frequency of a list must be one of its items

---
 Rpackage_F/src/r_frequency.cpp | 12 ++++++++++++
 Rpackage_F/src/r_variable.cpp  |  7 ++-----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/Rpackage_F/src/r_frequency.cpp b/Rpackage_F/src/r_frequency.cpp
index e6c43c7..cb7ab34 100644
--- a/Rpackage_F/src/r_frequency.cpp
+++ b/Rpackage_F/src/r_frequency.cpp
@@ -119,6 +119,9 @@ SEXP F_DailyInWeek(int year, int month, int day, std::string weekStart,
 
 // [[Rcpp::export(.F_list_string)]]
 SEXP F_ListString(std::vector<std::string> items, std::string value) {
+  if (std::find(items.begin(), items.end(), value) == items.end())
+    throw LdtException(ErrorType::kLogic, "R-frequency",
+                       "invalid 'value'. It is not in the list");
   List F = List::create(_["class"] = (int)FrequencyClass::kListString,
                         _["items"] = items, _["value"] = value);
   F.attr("class") = std::vector<std::string>({"ldtf", "list"});
@@ -128,6 +131,9 @@ SEXP F_ListString(std::vector<std::string> items, std::string value) {
 // [[Rcpp::export(.F_list_date)]]
 SEXP F_ListDate(std::vector<std::string> items, std::string value) {
   // auto d = boost::gregorian::date_from_iso_string(value);
+  if (std::find(items.begin(), items.end(), value) == items.end())
+    throw LdtException(ErrorType::kLogic, "R-frequency",
+                       "invalid 'value'. It is not in the list");
   List F = List::create(_["class"] = (int)FrequencyClass::kListDate,
                         _["items"] = items, _["value"] = value);
   F.attr("class") = std::vector<std::string>({"ldtf", "list"});
@@ -409,6 +415,9 @@ SEXP To_SEXP(Frequency *F, std::vector<std::string> &listItems,
 
   case FrequencyClass::kListString: {
     auto f = dynamic_cast<FrequencyList<std::string> const &>(*F);
+    if (f.OutIndex != 0)
+      throw LdtException(ErrorType::kLogic, "R-frequency",
+                         "the frequency is outside the list");
     auto dd = F_ListString(listItems, f.mValue);
     return dd;
   }
@@ -419,6 +428,9 @@ SEXP To_SEXP(Frequency *F, std::vector<std::string> &listItems,
         listItems.push_back(boost::gregorian::to_iso_string(d));
     }
     auto f = dynamic_cast<FrequencyList<boost::gregorian::date> const &>(*F);
+    if (f.OutIndex != 0)
+      throw LdtException(ErrorType::kLogic, "R-frequency",
+                         "the frequency is outside the list");
     auto dd = F_ListDate(listItems, boost::gregorian::to_iso_string(f.mValue));
     return dd;
   }
diff --git a/Rpackage_F/src/r_variable.cpp b/Rpackage_F/src/r_variable.cpp
index cb1fea6..056d418 100644
--- a/Rpackage_F/src/r_variable.cpp
+++ b/Rpackage_F/src/r_variable.cpp
@@ -198,11 +198,8 @@ List BindVariables(SEXP varList, bool interpolate, bool adjustLeadLags,
   CharacterVector rowNames = wrap(rns);
   rownames(res) = rowNames;
 
-  std::vector<std::string> listItems0;
-  std::vector<boost::gregorian::date> listItemsDate0;
-
-  res.attr("ldtf") =
-      To_SEXP(vs.StartFrequency.get(), listItems0, listItemsDate0);
+  res.attr("ldtf") = To_SEXP(vs.StartFrequency.get(), listItems.at(0),
+                             listItemsDate.at(0));
 
   auto L = List::create(_["data"] = res, _["info"] = info);
   return L;
-- 
2.43.0


From f08452a8ef6acc3b3fff8629482462d6013bc97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:53 +0000
Subject: [PATCH 127/147] fix: row names and numeric data of a variable

---
 Rpackage_F/R/variable.R | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Rpackage_F/R/variable.R b/Rpackage_F/R/variable.R
index 178603f..860c749 100644
--- a/Rpackage_F/R/variable.R
+++ b/Rpackage_F/R/variable.R
@@ -122,6 +122,10 @@ as.numeric.ldtv <- function(x, ...){
   as.numeric(x$data)
 }
 
+#' @rdname as.numeric.ldtv
+#' @export
+as.double.ldtv <- as.numeric.ldtv # 'as.numeric' dispatches on 'as.double'
+
 #' Get Length of Data in a Variable
 #'
 #' @param x Variable with \code{data} field.
@@ -149,7 +153,7 @@ row.names.ldtv <- function(x){
   if (any(class(x$startFrequency) == "ldtf") == FALSE) {
     stop("invalid frequency class")
   }
-  res <- get.seq(x$startFrequency, length(x$data))
+  res <- get.seq0(x$startFrequency, length(x$data))
   res
 }
 
-- 
2.43.0


From c0eb1e455aa11be6fdfb7d22d51874ee82d8bdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:53 +0000
Subject: [PATCH 128/147] fix: remove.na.strategies must not stop at the first
 removal that leaves no data

---
 Rpackage_F/R/helpers.R | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/Rpackage_F/R/helpers.R b/Rpackage_F/R/helpers.R
index 15b6a4a..096403a 100644
--- a/Rpackage_F/R/helpers.R
+++ b/Rpackage_F/R/helpers.R
@@ -55,8 +55,8 @@ remove.na.strategies <- function(data, countFun = function(nRows, nCols) nRows *
     rowRemove <- which(rowSums(is.na(mat)) > 0)
     if (length(rowRemove) == Nrow){
       if (printMsg)
-        cat("    breaking the loop. All rows are removed after removing the columns\n")
-      break # all rows will be removed
+        cat("    skipped. All rows are removed after removing the columns\n")
+      next # all rows will be removed
     }
     result[[length(result) + 1]] <- list(
       nRows = Nrow - length(rowRemove),
@@ -88,8 +88,8 @@ remove.na.strategies <- function(data, countFun = function(nRows, nCols) nRows *
     colRemove <- which(colSums(is.na(mat)) > 0)
     if (length(colRemove) == Ncol){
       if (printMsg)
-        cat("    breaking the loop. All columns are removed after removing the rows\n")
-      break
+        cat("    skipped. All columns are removed after removing the rows\n")
+      next
     }
     result[[length(result) + 1]] <- list(
       nRows = Nrow - length(rowRemove),
@@ -104,6 +104,9 @@ remove.na.strategies <- function(data, countFun = function(nRows, nCols) nRows *
                  ", ncol=",Ncol - length(colRemove), "\n"))
   }
 
+  if (length(result) == 0)
+    return(result)
+
   inx <- sort(sapply(result, function(r) countFun(r$nRows, r$nCols)),
               index.return = TRUE, decreasing = TRUE
   )
-- 
2.43.0


From dc001183c34ec85c909fae0fd3f243d8d077c5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:53 +0000
Subject: [PATCH 129/147] fix: long-run growth of series shorter than the trims

---
 Rpackage_F/R/helpers.R | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Rpackage_F/R/helpers.R b/Rpackage_F/R/helpers.R
index 096403a..b5582c5 100644
--- a/Rpackage_F/R/helpers.R
+++ b/Rpackage_F/R/helpers.R
@@ -169,7 +169,7 @@ get.longrun.growth <- function(data, continuous = FALSE, isPercentage = FALSE,
   }
 
   if (is.na.zero(start, skipZero) && trimStart > 0) {
-    for (i in c(1:(trimStart + 1))) {
+    for (i in seq_len(min(trimStart + 1, N))) {
       I <- i
       start <- data[[I]]
       if (is.na.zero(start, skipZero) == FALSE) {
@@ -182,7 +182,7 @@ get.longrun.growth <- function(data, continuous = FALSE, isPercentage = FALSE,
   }
 
   if (is.na.zero(end, skipZero) && trimEnd > 0) {
-    for (i in c(1:trimEnd)) {
+    for (i in seq_len(min(trimEnd, N - 1))) {
       J <- N - i
       end <- data[[J]]
       if (is.na.zero(end, skipZero) == FALSE) {
-- 
2.43.0


From fbb57e83b6a2813578f2402a4989aec4c02cb0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:53 +0000
Subject: [PATCH 130/147] fix: sample variance in descriptive statistics must
 use n-1

---
 include/array.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/array.h b/include/array.h
index ae11e19..24a45ad 100644
--- a/include/array.h
+++ b/include/array.h
@@ -789,6 +789,18 @@ public:
     }
   }
 
+  /// @brief n/(n-1), where n is the number of (available) data
+  template <bool skipNAN>
+  static Tw SampleFactor(const Tw *data, const Ti &length) {
+    Ti n = length;
+    if constexpr (skipNAN) {
+      for (Ti i = 0; i < length; i++)
+        if (std::isnan(data[i]))
+          n--;
+    }
+    return n > 1 ? (Tw)n / (Tw)(n - 1) : (Tw)NAN;
+  }
+
   template <bool skipNAN>
   static void GetDescriptive(const Tw *data, const Ti &length,
                              const DescriptiveType &type, Tw &result) {
@@ -810,13 +822,15 @@ public:
       result = Mean<false, skipNAN>(data, length);
       break;
     case DescriptiveType::kVariance: {
-      result = Variance<false, skipNAN>(data, length); // sample statistics
+      result = Variance<false, skipNAN>(data, length) *
+               SampleFactor<skipNAN>(data, length); // sample statistics
     } break;
     case DescriptiveType::kVariancePop: {
       result = Variance<false, skipNAN>(data, length);
     } break;
     case DescriptiveType::kStd: {
-      result = Variance<false, skipNAN>(data, length);
+      result = Variance<false, skipNAN>(data, length) *
+               SampleFactor<skipNAN>(data, length); // sample statistics
       result = std::sqrt(result);
     } break;
     case DescriptiveType::kStdPop: {
-- 
2.43.0


From 0be4f5a5d5f58dc9d4b35691b81c584fa92cca0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:45 +0000
Subject: [PATCH 131/147] fix: a sequence of dates must not repeat the items of
 the list

---
 Rpackage_F/src/r_frequency.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Rpackage_F/src/r_frequency.cpp b/Rpackage_F/src/r_frequency.cpp
index cb7ab34..7f7e5cc 100644
--- a/Rpackage_F/src/r_frequency.cpp
+++ b/Rpackage_F/src/r_frequency.cpp
@@ -494,7 +494,9 @@ std::vector<std::string> Sequence_F(SEXP from, SEXP to, int by)
   std::vector<boost::gregorian::date> listItemsDate;
   auto F = GetFreqFromSEXP(from, listItems, listItemsDate);
   auto f = F.get();
-  auto T = GetFreqFromSEXP(to, listItems, listItemsDate);
+  std::vector<std::string> listItemsTo;
+  std::vector<boost::gregorian::date> listItemsDateTo;
+  auto T = GetFreqFromSEXP(to, listItemsTo, listItemsDateTo);
   auto t = T.get();
 
   auto fromNewer = f->IsNewerThan(*t);
-- 
2.43.0


From da8c95b08f2107cfd5a39cb190b838aced60d204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:34 +0000
Subject: [PATCH 132/147] fix: the 'pessimistic' option of ROC must be used

---
 Rpackage/src/r_ldt.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Rpackage/src/r_ldt.cpp b/Rpackage/src/r_ldt.cpp
index 7229c35..de3f397 100644
--- a/Rpackage/src/r_ldt.cpp
+++ b/Rpackage/src/r_ldt.cpp
@@ -273,6 +273,7 @@ void UpdateRocOptions(List &rocOptionsR, RocOptions &options) {
   options.LowerThreshold = as<double>(rocOptionsR["lowerThreshold"]);
   options.UpperThreshold = as<double>(rocOptionsR["upperThreshold"]);
   options.Epsilon = as<double>(rocOptionsR["epsilon"]);
+  options.Pessimistic = as<bool>(rocOptionsR["pessimistic"]);
 
   if (rocOptionsR["costs"] != R_NilValue) {
     auto costs0 = as<NumericVector>(rocOptionsR["costs"]);
-- 
2.43.0


From 5cf86b12023e002a7adfd7abbcef4b7d567780b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:34 +0000
Subject: [PATCH 133/147] fix: hierarchical clustering must not change the
 given distances

---
 Rpackage/src/r_clustering.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Rpackage/src/r_clustering.cpp b/Rpackage/src/r_clustering.cpp
index 2b61f8a..4bbc184 100644
--- a/Rpackage/src/r_clustering.cpp
+++ b/Rpackage/src/r_clustering.cpp
@@ -46,7 +46,9 @@ List ClusterH(NumericVector distances, std::string linkage) {
   HClusterLinkage linkage0 = FromString_HClusterLinkage(linkage.c_str());
 
   auto cluster = HClusterBase::GetFromType(linkage0, numVariables);
-  auto mdistances = MatrixSym<false>(&distances[0], numVariables);
+  // the distances are updated while the clusters are merged
+  auto copy = std::vector<double>(distances.begin(), distances.end());
+  auto mdistances = MatrixSym<false>(copy.data(), numVariables);
   cluster->Calculate(mdistances);
 
   // lets send similar output to R
-- 
2.43.0


From 3e9c536651a9d2a52b318f9ca5205a709a6f5964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:34 +0000
Subject: [PATCH 134/147] fix: dimension of a random sample with missing
 parameters

---
 Rpackage/R/statistics.R | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/Rpackage/R/statistics.R b/Rpackage/R/statistics.R
index c7ebfce..36d3f9c 100644
--- a/Rpackage/R/statistics.R
+++ b/Rpackage/R/statistics.R
@@ -492,15 +492,18 @@ rand.mnormal <- function(n, mu = NULL,
                          sigma = NULL,
                          p = NULL,
                          byRow = TRUE) {
-  if (length(mu) == 1 && is.na(mu) && length(sigma) == 1 && is.na(sigma)) {
-    if (is.null(p)) stop("Please specify the dimension 'p' of the distribution")
-    mu <- runif(p)
-    x <- matrix(rnorm(p * p), ncol = p)
-    sigma <- crossprod(x)
-  } else if (is.null(mu) && is.null(sigma)) {
+  missing.mu <- is.null(mu) || (length(mu) == 1 && is.na(mu))
+  missing.sigma <- is.null(sigma) || (length(sigma) == 1 && is.na(sigma))
+
+  if (missing.mu && missing.sigma) {
     if (is.null(p)) stop("Please specify the dimension 'p' of the distribution")
-    mu <- rep(0, p)
-    sigma <- diag(p)
+    mu <- if (is.null(mu)) rep(0, p) else runif(p)
+    if (is.null(sigma))
+      sigma <- diag(p)
+    else {
+      x <- matrix(rnorm(p * p), ncol = p)
+      sigma <- crossprod(x)
+    }
   } else if (length(mu) == 1 && is.na(mu)) {
     p <- ncol(sigma)
     mu <- runif(p)
-- 
2.43.0


From 0567f3747ade5b931bd9c5b88c7f16f96ff00e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:24 +0000
Subject: [PATCH 135/147] fix: the kurtosis of combined statistics is excess
 kurtosis

---
 Rpackage/R/statistics.R           | 8 ++++----
 include/math/statistics/running.h | 3 +--
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/Rpackage/R/statistics.R b/Rpackage/R/statistics.R
index 36d3f9c..f0f4f64 100644
--- a/Rpackage/R/statistics.R
+++ b/Rpackage/R/statistics.R
@@ -262,7 +262,7 @@ s.gld.density.quantile <- function(probs, p1, p2, p3, p4)
 #' this function calculates the mean, variance, skewness, and kurtosis of the combined sample.
 #' It does not need the data itself.
 #' It is based on population variance, skewness, and kurtosis and calculates the population statistics.
-#' Note that the kurtosis is not excess kurtosis.
+#' Note that the kurtosis is excess kurtosis.
 #'
 #' @return A list similar to \code{list1}.
 #' @export
@@ -276,13 +276,13 @@ s.gld.density.quantile <- function(probs, p1, p2, p3, p4)
 #' d1 <- list(mean = mean(sample1),
 #'            variance = var(sample1),
 #'            skewness = moments::skewness(sample1),
-#'            kurtosis = moments::kurtosis(sample1),
+#'            kurtosis = moments::kurtosis(sample1) - 3,
 #'            count=length(sample1),
 #'            weight = length(sample1))
 #' d2 <- list(mean = mean(sample2),
 #'            variance = var(sample2),
 #'            skewness = moments::skewness(sample2),
-#'            kurtosis = moments::kurtosis(sample2),
+#'            kurtosis = moments::kurtosis(sample2) - 3,
 #'            count=length(sample2),
 #'            weight = length(sample2))
 #' c <- s.combine.stats4(d1,d2)
@@ -292,7 +292,7 @@ s.gld.density.quantile <- function(probs, p1, p2, p3, p4)
 #' mean_c = mean(combined)
 #' variance_c = var(combined)
 #' skewness_c = moments::skewness(combined)
-#' kurtosis_c = moments::kurtosis(combined)
+#' kurtosis_c = moments::kurtosis(combined) - 3
 #'
 s.combine.stats4 <- function(list1, list2)
 {
diff --git a/include/math/statistics/running.h b/include/math/statistics/running.h
index 3584595..5fa521e 100644
--- a/include/math/statistics/running.h
+++ b/include/math/statistics/running.h
@@ -146,8 +146,7 @@ public:
   /// @param mean mean of the second set
   /// @param var variance of the second set (population formula)
   /// @param skew skewness of the second set (population formula)
-  /// @param kurt kurtosis of the second set (population formula). It should not
-  /// be excess kurtosis.
+  /// @param kurt excess kurtosis of the second set (population formula).
   /// @param weight Relative weight of the second set.
   /// @param count An operational value to update the value of \par Count
   /// in the class.
-- 
2.43.0


From aab3ed23346366c136274c94590759d44823832a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:38 +0000
Subject: [PATCH 136/147] fix: table of coefficients with formatted names of
 endogenous variables

---
 Rpackage/R/g.prints.R | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Rpackage/R/g.prints.R b/Rpackage/R/g.prints.R
index 878a7e6..dfd5dd9 100644
--- a/Rpackage/R/g.prints.R
+++ b/Rpackage/R/g.prints.R
@@ -484,7 +484,7 @@ coefs.table <- function(estimList, depList = NULL, tableFun = "coef_star", forma
                         expList = NA, latex = TRUE,
                         numFormat = "%.2f") {
 
-  if (is.null(estimList$counts) == FALSE)
+  if (inherits(estimList, "ldt.estim"))
     estimList <- list(m = estimList)
 
 
@@ -605,7 +605,6 @@ coefs.table <- function(estimList, depList = NULL, tableFun = "coef_star", forma
     depList <- unique(unlist(lapply(estimList, function(e) colnames(e$estimations$coefs))))
   else
     depList <- as.character(depList)
-  depList <- lapply(depList, function(n) textFun(n, "dname"))
 
   col_names <- unlist(lapply(seq_along(col_names), function(i) {
     rep(col_names[i], sum(colnames(estimList[[i]]$estimations$coefs) %in% depList))
@@ -640,7 +639,7 @@ coefs.table <- function(estimList, depList = NULL, tableFun = "coef_star", forma
     for (d in depList){
       if (!d %in% colnames(e$estimations$coefs)) next
       j <- j + 1
-      r_table[1, j] <- d
+      r_table[1, j] <- textFun(d, "dname")
 
       ns <- row.names(e$estimations$coefs)
       i <- 0
-- 
2.43.0


From 34a44f413e05dd77b37cae488cfb13db0075f3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:38 +0000
Subject: [PATCH 137/147] fix: significant extreme bounds must be printed

---
 Rpackage/R/g.prints.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/g.prints.R b/Rpackage/R/g.prints.R
index dfd5dd9..0a66dcc 100644
--- a/Rpackage/R/g.prints.R
+++ b/Rpackage/R/g.prints.R
@@ -191,7 +191,7 @@ print.ldt.search <- function(x, ...) {
           }
 
           if (x$info$items$extremeMultiplier > 0){
-            extremeB <- values[which(sapply(values, function(y){startsWith(y$typeName, "extreme")}))]
+            extremeB <- values[which(sapply(values, function(y){startsWith(y$typeName, "extreme")}))][[1]]
             cat(indent, "Extreme bounds (significant):\n")
             sig <- extremeB$value[which(extremeB$value[,1]>0 | extremeB$value[,2]<0),,drop=FALSE]
             if (!is.null(sig)  && nrow(sig) > 0){
-- 
2.43.0


From d81bea278b3459fac08731aaa5aa9a049dc234e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:38 +0000
Subject: [PATCH 138/147] fix: estimations without any significant coefficient
 can be printed

---
 Rpackage/R/g.prints.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/g.prints.R b/Rpackage/R/g.prints.R
index 0a66dcc..83da50b 100644
--- a/Rpackage/R/g.prints.R
+++ b/Rpackage/R/g.prints.R
@@ -303,7 +303,7 @@ print.ldt.estim <- function(x, ...) {
 
     ms <- max(ifelse(df[,4] < .001, 3,
                      ifelse(df[,4] < .01, 2,
-                            ifelse(df[,4] < .1, 1, 0))), na.rm = TRUE)
+                            ifelse(df[,4] < .1, 1, 0))), 1, na.rm = TRUE)
     stars <- logical(nrow(df))
     for (i in seq_len(nrow(df))){
       if (!is.null(x$estimations$isRestricted) && x$estimations$isRestricted[i,dep_var] == 1)
-- 
2.43.0


From dfb749b3516f7dcab1dd6c54c22b7e633193892e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:38 +0000
Subject: [PATCH 139/147] fix: name of a single linear model

---
 Rpackage/R/sur.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/sur.R b/Rpackage/R/sur.R
index 7123011..db974cc 100644
--- a/Rpackage/R/sur.R
+++ b/Rpackage/R/sur.R
@@ -256,7 +256,7 @@ estim.sur.model.string <- function(obj){
   nms <- paste(colnames(y), collapse = ", ")
   if (ncol(y) == 1)
     paste0("Linear Model")
-  if (sum(obj$estimations$isRestricted) == 0)
+  else if (sum(obj$estimations$isRestricted) == 0)
       paste0("Unrestricted SUR: ", nms)
   else
     paste0("SUR: ", nms)
-- 
2.43.0


From d9afdd732d9321d83b0752ce68708e08bbace33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:38 +0000
Subject: [PATCH 140/147] fix: median of the log-normal distribution, one
 quantile or one row in fan plots

---
 Rpackage/R/g.plots.R | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Rpackage/R/g.plots.R b/Rpackage/R/g.plots.R
index 683e876..8aaa10b 100644
--- a/Rpackage/R/g.plots.R
+++ b/Rpackage/R/g.plots.R
@@ -217,7 +217,7 @@ fan.plot <- function (data,
     sdlogs <- data[, 2]
     startInd <- which(sdlogs!=0)
     startInd <- ifelse(length(startInd) == 0, length(sdlogs), startInd[[1]])
-    medians <- exp(meanlogs + sdlogs^2/2)
+    medians <- exp(meanlogs)
     quants <- t(apply(data, 1, function(x) qlnorm(quantiles,
                                                   x[1], x[2])))
   }
@@ -225,7 +225,9 @@ fan.plot <- function (data,
     stop(paste("Distribution", dist, "is not supported."))
   }
 
-  quants <- cbind(quants[, quantiles <= 0.5], medians, quants[, quantiles > 0.5])
+  quants <- matrix(quants, nrow = nrow(data), ncol = length(quantiles)) # for one quantile
+  quants <- cbind(quants[, quantiles <= 0.5, drop = FALSE], medians,
+                  quants[, quantiles > 0.5, drop = FALSE])
 
   if (!is.null(lambda) && !is.na(lambda)){
 
-- 
2.43.0


From d4175e68b551954446dc40fe24ddaf87cd2e7502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:38 +0000
Subject: [PATCH 141/147] fix: variable of a prediction plot can be given by
 its name

---
 Rpackage/R/g.plots.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/g.plots.R b/Rpackage/R/g.plots.R
index 8aaa10b..68ef69e 100644
--- a/Rpackage/R/g.plots.R
+++ b/Rpackage/R/g.plots.R
@@ -330,7 +330,7 @@ plot.ldt.varma.prediction <- function(x,
 
   stopifnot(is.number(variable) || is.character(variable))
   if (is.character(variable)){
-    variable <- match(variable, colnames(x$info$y))
+    variable <- match(variable, colnames(x$means))
     if (is.na(variable))
       stop("Invalid variable name.")
   }
-- 
2.43.0


From 75b0faa6048cfce294b993f0993e56eb8e11e914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:09 +0000
Subject: [PATCH 142/147] fix: copies of list frequencies in the C interface
 must own their items

---
 src/api.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/api.cpp b/src/api.cpp
index 0585580..385a97c 100644
--- a/src/api.cpp
+++ b/src/api.cpp
@@ -122,11 +122,25 @@ ldt::Frequency *LDT_FrequencyCreate(const char *str, const char *classStr,
   return nullptr;
 }
 
+// list frequencies own their items in this interface (see
+// LDT_DisposeFrequency). Therefore, they cannot share them with their copies
+static ldt::Frequency *copyWithItems(const ldt::Frequency &f) {
+  auto newf = f.Clone();
+  if (auto fs = dynamic_cast<ldt::FrequencyList<std::string> *>(newf.get())) {
+    if (fs->pItems)
+      fs->pItems = new std::vector<std::string>(*fs->pItems);
+  } else if (auto fd = dynamic_cast<
+                 ldt::FrequencyList<boost::gregorian::date> *>(newf.get())) {
+    if (fd->pItems)
+      fd->pItems = new std::vector<boost::gregorian::date>(*fd->pItems);
+  }
+  return newf.release();
+}
+
 ldt::Frequency *LDT_FrequencyCopy(ldt::Frequency *f) {
   API_BEGIN()
 
-  auto newf = f->Clone();
-  return newf.release();
+  return copyWithItems(*f);
 
   API_END()
   return nullptr;
@@ -252,10 +266,7 @@ ldt::Frequency *LDT_VariableCombine(double *data1, int dataLength1,
                                   // select it unless it is NAN
   }
 
-  auto f = vs.StartFrequency.get();
-  vs.StartFrequency.release();
-
-  return f;
+  return copyWithItems(*vs.StartFrequency);
 
   API_END()
 
-- 
2.43.0


From 56a36b3b686ba1804ee2641369c2cb7055258316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:07 +0000
Subject: [PATCH 143/147] fix: workspace of QR decomposition

---
 src/matrix/matrix.cpp    | 2 --
 src/matrix/matrix_la.cpp | 8 ++++----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index 91c9207..75dface 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -2384,8 +2384,6 @@ template <typename Tw> Ti Matrix<Tw>::QR(Matrix<Tw> &Q, Matrix<Tw> &R) {
 
   Ti info = QR0(tau);
 
-  delete[] tau;
-
   if (info != 0)
     return info;
 
diff --git a/src/matrix/matrix_la.cpp b/src/matrix/matrix_la.cpp
index 4a29a06..5973a64 100644
--- a/src/matrix/matrix_la.cpp
+++ b/src/matrix/matrix_la.cpp
@@ -700,13 +700,13 @@ template <typename Tw> Ti Matrix<Tw>::QR0(Tw *tau) {
     return info;
 
   lwork = static_cast<Ti>(dtemp);
-  // auto work0 = std::make_unique<int[]>(lwork);
-  // auto work = work0.get();
+  auto work0 = std::make_unique<Tw[]>(lwork);
+  auto work = work0.get();
 
   if constexpr (std::is_same<Tw, double>()) {
-    dgeqrf_(&M, &N, A, &M, tau, &dtemp, &lwork, &info);
+    dgeqrf_(&M, &N, A, &M, tau, work, &lwork, &info);
   } else if constexpr (std::is_same<Tw, float>()) {
-    sgeqrf_(&M, &N, A, &M, tau, &dtemp, &lwork, &info);
+    sgeqrf_(&M, &N, A, &M, tau, work, &lwork, &info);
   } else if constexpr (true) {
     throw LdtException(ErrorType::kLogic, "matrix-la", "not implemented");
   }
-- 
2.43.0


From cffdd3e9e0f7574a55eeeee020eb497e8d465bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:07 +0000
Subject: [PATCH 144/147] fix: one-dimensional Nelder-Mead passed a bound near
 zero

---
 src/ldt_math/optimization/nelder_mead.cpp | 24 +++++++++--------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/ldt_math/optimization/nelder_mead.cpp b/src/ldt_math/optimization/nelder_mead.cpp
index f5ba343..654ede5 100644
--- a/src/ldt_math/optimization/nelder_mead.cpp
+++ b/src/ldt_math/optimization/nelder_mead.cpp
@@ -233,21 +233,17 @@ NelderMead::Minimize1(const std::function<Tv(const Tv &)> &objective, Tv x0,
     if (x0 > x_max)
       x0 = x_max;
     f = [&](Tv x) {
-      Tv P = 0.0;
-      if (x > x_max) {
-        P = 1e5 * std::pow(x, 2);
-      }
-      return objective(x) + P;
+      if (x > x_max)
+        return std::numeric_limits<Tv>::infinity();
+      return objective(x);
     };
   } else if (std::isnan(x_max)) {
     if (x0 < x_min)
       x0 = x_min;
     f = [&](Tv x) {
-      Tv P = 0.0;
-      if (x < x_min) {
-        P = 1e5 * std::pow(x, 2);
-      }
-      return objective(x) + P;
+      if (x < x_min)
+        return std::numeric_limits<Tv>::infinity();
+      return objective(x);
     };
   } else {
     if (x0 < x_min)
@@ -255,11 +251,9 @@ NelderMead::Minimize1(const std::function<Tv(const Tv &)> &objective, Tv x0,
     if (x0 > x_max)
       x0 = x_max;
     f = [&](Tv x) {
-      Tv P = 0.0;
-      if (x > x_max || x < x_min) {
-        P = 1e5 * std::pow(x, 2);
-      }
-      return objective(x) + P;
+      if (x > x_max || x < x_min)
+        return std::numeric_limits<Tv>::infinity();
+      return objective(x);
     };
   }
 
-- 
2.43.0


From 004b0fa54f9b1c77f57ef9fc1904002df17e460a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:59 +0000
Subject: [PATCH 145/147] fix: VARMA with general linear restrictions

---
 .../modeling/time_series/varma/varma.cpp      | 29 +++++++++++--------
 .../time_series/varma/varma_sizes.cpp         |  2 +-
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma.cpp b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
index 5da1629..af70912 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
@@ -149,8 +149,8 @@ void Varma::EstimateOls(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
         pos += q * T * g;
 
         if (r) {
-          xtkronr = Matrix<Tv>(&work[pos], f * g);
-          pos += f * g; //(X' o I)r
+          xtkronr = Matrix<Tv>(&work[pos], T * g);
+          pos += T * g; //(X' o I)r
         }
       }
       int info;
@@ -263,7 +263,7 @@ void Varma::EstimateOls(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
         Result.y.CopyTo00(vecY);
         if (r) {
           Result.Xt.KronIden0(g, xtkronI);
-          xtkronI.TrDot0(*r, xtkronr); // (X' o I)r
+          xtkronI.Dot0(*r, xtkronr); // (X' o I)r
           vecY.Subtract0(xtkronr, vecY);
         }
         xtkronI.Restructure0(f * g, T * g); // (X o I)
@@ -393,13 +393,16 @@ Matrix<Tv>& x) -> Tv { return MlFunction(x, model, R, r, Pi, Xi, Ri);
 }*/
 
 void SetDetails(Varma &varma, const Matrix<Tv> *R) {
-  if (R) {
-    R->Dot0(varma.Result.gamma,
-            varma.Result.coef); // don't check the dimension
-    auto dig = std::make_unique<Tv[]>(varma.Result.gammavar.RowsCount);
-    auto mdig = Matrix<Tv>(dig.get(), varma.Result.gammavar.RowsCount, 1);
-    varma.Result.gammavar.GetDiag(mdig);
-    R->Dot0(mdig, varma.Result.coefstd);
+  if (R) { // coefficients are already set
+    auto n = varma.Result.gammavar.RowsCount;
+    for (Ti i = 0; i < R->RowsCount; i++) { // diagonal of RVR'
+      Tv sum = 0;
+      for (Ti j = 0; j < n; j++)
+        for (Ti k = 0; k < n; k++)
+          sum += R->Get0(i, j) * varma.Result.gammavar.Get0(j, k) *
+                 R->Get0(i, k);
+      varma.Result.coefstd.Data[i] = sum;
+    }
   } else {
     varma.Result.gamma.CopyTo00(varma.Result.coef);
     varma.Result.gammavar.GetDiag(varma.Result.coefstd);
@@ -560,9 +563,11 @@ void Varma::EstimateMl(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
   Result.sigma2.Multiply_in((Tv)1 / (Tv)n);
 
   // set coefficient matrix (it is required in forecasting)
-  if (R)
+  if (R) {
     R->Dot0(Result.gamma, Result.coef); // don't check the dimension
-  else
+    if (r)
+      Result.coef.Add0(*r, Result.coef);
+  } else
     Result.gamma.CopyTo00(Result.coef);
 
   if (mDoDetails) {
diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
index 7760c85..3aad841 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
@@ -212,7 +212,7 @@ VarmaStorage::VarmaStorage(bool keepDetails, bool isRestricted,
     WorkSize += T * f;
     if (isRestricted) {
       WorkSize += q * g * f + q * T * g;
-      WorkSize += f * g; // if has 'r'
+      WorkSize += T * g; // if has 'r'
     }
   }
   if (sizes.HasDiff)
-- 
2.43.0


From a5cf25b400380c5ff1d511fc750e9a099c529bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:56 +0000
Subject: [PATCH 146/147] fix: L-BFGS-B stopped by the iteration limit returned
 a worse trial point

---
 src/ldt_math/optimization/lmbfgsb.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/ldt_math/optimization/lmbfgsb.cpp b/src/ldt_math/optimization/lmbfgsb.cpp
index 64d174a..8d7f058 100644
--- a/src/ldt_math/optimization/lmbfgsb.cpp
+++ b/src/ldt_math/optimization/lmbfgsb.cpp
@@ -97,9 +97,18 @@ void LimitedMemoryBFGSB::Minimize00(
   Ti csave = 0;
   Task = 1;
   Iteration = 0;
+  Tv best = INFINITY;
+  auto bestX = std::vector<Tv>(n);
+  auto bestG = std::vector<Tv>(n);
   while (true) {
-    if (Iteration >= Options.IterationMax)
+    if (Iteration >= Options.IterationMax) {
+      if (best < FunctionValue) { // last point belongs to a line search
+        FunctionValue = best;
+        std::copy(bestX.begin(), bestX.end(), startPoint.Data);
+        std::copy(bestG.begin(), bestG.end(), GradientVector.Data);
+      }
       break;
+    }
     Iteration++;
     Options.IterationPrint = -1; //???????????
 
@@ -111,6 +120,11 @@ void LimitedMemoryBFGSB::Minimize00(
     if (Task >= 10 && Task <= 15) {
       FunctionValue = function(startPoint);
       gradient(startPoint, GradientVector);
+      if (FunctionValue < best) {
+        best = FunctionValue;
+        std::copy(startPoint.Data, startPoint.Data + n, bestX.begin());
+        std::copy(GradientVector.Data, GradientVector.Data + n, bestG.begin());
+      }
     } else if (Task == 2) {
     } else
       break;
-- 
2.43.0


From dbfea83b4bff64498b3b63036f095ddec0b21f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:35:29 +0000
Subject: [PATCH 147/147] fix: L-BFGS-B read its work array before setting it

The subspace minimization reads parts of the work array that no
earlier step has written, so the estimates of a moving-average model
depended on what an earlier computation left in the array and, in a
search, on the (random) order of the models.
---
 src/ldt_math/optimization/lmbfgsb.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ldt_math/optimization/lmbfgsb.cpp b/src/ldt_math/optimization/lmbfgsb.cpp
index 8d7f058..0458b75 100644
--- a/src/ldt_math/optimization/lmbfgsb.cpp
+++ b/src/ldt_math/optimization/lmbfgsb.cpp
@@ -93,6 +93,10 @@ void LimitedMemoryBFGSB::Minimize00(
     nbd[i] = lni && upi ? 0 : lni ? 3 : upi ? 1 : 2;
   }
 
+  // some elements are read before they are set
+  Ti m = Options.mMaxCorrections;
+  std::fill_n(&WORK[2 * n], 2 * m * n + 11 * m * m + 5 * n + 8 * m, 0.0);
+
   FunctionValue = 0;
   Ti csave = 0;
   Task = 1;
-- 
2.43.0

