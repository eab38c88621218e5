From 4d31701e45f4b1e081ec109f3bdcc37d5ced013b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 01/67] fix: upper extreme bound of negative coefficients

---
 src/ldt_statistics/modeling/search/modelset.cpp | 2 +-
 src/ldt_statistics/modeling/search/summary.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/modeling/search/modelset.cpp b/src/ldt_statistics/modeling/search/modelset.cpp
index 10325ad..062eef0 100644
--- a/src/ldt_statistics/modeling/search/modelset.cpp
+++ b/src/ldt_statistics/modeling/search/modelset.cpp
@@ -252,7 +252,7 @@ void ModelSet::CombineExtremeBounds(
                        "list of search summaries is empty!");
 
   min = std::numeric_limits<Tv>::max();
-  max = std::numeric_limits<Tv>::min();
+  max = std::numeric_limits<Tv>::lowest();
 
   for (auto &s : summaries) {
     if (s->Index1 == index1 && s->Index2 == index2 && s->Index3 == index3) {
diff --git a/src/ldt_statistics/modeling/search/summary.cpp b/src/ldt_statistics/modeling/search/summary.cpp
index 1e5ea6b..82e1fe3 100644
--- a/src/ldt_statistics/modeling/search/summary.cpp
+++ b/src/ldt_statistics/modeling/search/summary.cpp
@@ -129,7 +129,7 @@ SearcherSummary::SearcherSummary(Ti Index1, Ti Index2, Ti Index3,
 
   if (pItems->ExtremeBoundsMultiplier > 0)
     ExtremeBounds = std::vector<Tv>(
-        {std::numeric_limits<Tv>::max(), std::numeric_limits<Tv>::min()});
+        {std::numeric_limits<Tv>::max(), std::numeric_limits<Tv>::lowest()});
   if (pItems->KeepInclusionWeights) {
     InclusionsInfo = std::vector<RunningMoments<1, true, false, Tv>>(
         data->NumEndo + data->NumExo);
-- 
2.43.0


From 6e90c7a7ede16eee09e022c822e99d537e32d7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 02/67] fix: combine the best models by metric, not by
 (possibly underflown) weight

---
 src/ldt_statistics/modeling/search/modelset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/search/modelset.cpp b/src/ldt_statistics/modeling/search/modelset.cpp
index 062eef0..3d7e9f8 100644
--- a/src/ldt_statistics/modeling/search/modelset.cpp
+++ b/src/ldt_statistics/modeling/search/modelset.cpp
@@ -194,7 +194,7 @@ void ModelSet::CombineBests(
         for (Ti i = 0; i < k; i++) {
           if (i >= (Ti)result.size())
             result.push_back(w);
-          else if (w->Weight > result.at(i)->Weight)
+          else if (s->Bests.key_comp()(w, result.at(i)))
             result.insert(result.begin() + i, w);
           else
             continue;
-- 
2.43.0


From 500c47af574bf5a4f701aa354461aec7e8ef4d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 03/67] fix: zero weights and empty accumulators do not turn
 running moments into NaN

---
 include/array.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/array.h b/include/array.h
index d74f38d..b987407 100644
--- a/include/array.h
+++ b/include/array.h
@@ -528,6 +528,10 @@ public:
                              Tw &M4) {
 
     auto temp = sumW_1 + sumW_2;
+    if (temp == 0) { // nothing is accumulated yet
+      mean = M2 = M3 = M4 = sumW = 0;
+      return;
+    }
     Tv delta = mean_2 - mean_1;
     Tv delta2 = delta * delta;
 
@@ -567,6 +571,8 @@ public:
     if constexpr (isWeighted == false) {
       ww = 1;
     }
+    if (ww == 0) // no contribution (and avoid 0/0 at the first observation)
+      return;
 
     auto delta = x - mean;
     auto delta2 = delta * delta;
-- 
2.43.0


From 381d7bf203b8b0ea40a10adf52521302b4375171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 04/67] fix: moments of data without any weight do not write
 through null pointers

---
 include/array.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/array.h b/include/array.h
index b987407..a4d846b 100644
--- a/include/array.h
+++ b/include/array.h
@@ -657,9 +657,12 @@ public:
 
     if (sumW == 0) {
       mean = NAN;
-      *variance = NAN;
-      *skewness = NAN;
-      *kurtosis = NAN;
+      if (variance)
+        *variance = NAN;
+      if (skewness)
+        *skewness = NAN;
+      if (kurtosis)
+        *kurtosis = NAN;
     } else {
 
       if constexpr (moments >= 2) {
-- 
2.43.0


From 2e8e755d7009f789be39b57eedc907f69c48ddaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 05/67] fix: "rmspe" is not read as "rmse"

---
 include/math/statistics/scoring.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/statistics/scoring.h b/include/math/statistics/scoring.h
index b1e66b1..b4df4ac 100644
--- a/include/math/statistics/scoring.h
+++ b/include/math/statistics/scoring.h
@@ -180,10 +180,10 @@ inline ScoringType FromString_ScoringType(const char *v) {
     return ScoringType::kMae;
   else if (StartsWith("map", v))
     return ScoringType::kMape;
-  else if (StartsWith("rms", v))
-    return ScoringType::kRmse;
   else if (StartsWith("rmsp", v))
     return ScoringType::kRmspe;
+  else if (StartsWith("rms", v))
+    return ScoringType::kRmse;
 
   else if (StartsWith("crp", v))
     return ScoringType::kCrps;
-- 
2.43.0


From ae0c49e8ef577872465271d63f13547e6fe989cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 06/67] fix: discrete choice simulation averages valid
 iterations only, for the rows it is given

---
 Rpackage/src/r_dc.cpp                         |  2 +-
 .../inference/models/discrete_choice.h        |  7 +-
 .../modeling/discrete/discrete_choice_sim.cpp | 93 ++++++++++---------
 3 files changed, 52 insertions(+), 50 deletions(-)

diff --git a/Rpackage/src/r_dc.cpp b/Rpackage/src/r_dc.cpp
index ad55201..e9043e2 100644
--- a/Rpackage/src/r_dc.cpp
+++ b/Rpackage/src/r_dc.cpp
@@ -216,7 +216,7 @@ SEXP EstimDc(List data, std::string linkFunc, SEXP pcaOptionsX,
     auto Ws = std::make_unique<double[]>(simmodel->WorkSize);
     auto WIs = std::make_unique<int[]>(simmodel->WorkSizeI);
     Ss = std::make_unique<double[]>(simmodel->StorageSize);
-    auto errors = std::set<const char *>();
+    auto errors = std::map<std::string, int>();
 
     bool cancel = false;
     simmodel->Calculate(
diff --git a/include/math/statistics/inference/models/discrete_choice.h b/include/math/statistics/inference/models/discrete_choice.h
index 507b8e8..317ef89 100644
--- a/include/math/statistics/inference/models/discrete_choice.h
+++ b/include/math/statistics/inference/models/discrete_choice.h
@@ -439,7 +439,7 @@ public:
                          const std::vector<Matrix<Tv>> *costMatrixes,
                          Tv *storage, Tv *work, Ti *workI, bool &cancel,
                          RocOptions &aucOptions, bool checkSizes = true,
-                         std::set<const char *> *errors = nullptr,
+                         std::map<std::string, Ti> *errors = nullptr,
                          Ti maxInvalidSim = INT32_MAX) = 0;
 };
 
@@ -500,14 +500,15 @@ public:
   /// @param cancel A reference to be used for cancelling the operations
   /// @brief aucOptions Options for calculating AUC
   /// @param checkSizes If true, length of work and storage arrays are checked.
-  /// @param errors If not null, on exit it contains the list of errors occurred
+  /// @param errors If not null, on exit it contains the errors occurred and
+  /// their counts
   /// @param maxInvalidSim A maximum value for the number of invalid simulations
   /// before breaking the loop
   virtual void Calculate(const Matrix<Tv> &data,
                          const std::vector<Matrix<Tv>> *costMatrixes,
                          Tv *storage, Tv *work, Ti *workI, bool &cancel,
                          RocOptions &aucOptions, bool checkSizes = true,
-                         std::set<const char *> *errors = nullptr,
+                         std::map<std::string, Ti> *errors = nullptr,
                          Ti maxInvalidSim = INT32_MAX) override;
 };
 
diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
index b7f8b96..18f4aaf 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
@@ -89,7 +89,7 @@ template <bool hasWeight, DiscreteChoiceModelType modelType,
 void DiscreteChoiceSim<hasWeight, modelType, distType>::Calculate(
     const Matrix<Tv> &data, const std::vector<Matrix<Tv>> *costMatrixes,
     Tv *storage, Tv *work, Ti *workI, bool &cancel, RocOptions &aucOptions,
-    bool checkSizes, std::set<const char *> *errors, Ti maxInvalidSim) {
+    bool checkSizes, std::map<std::string, Ti> *errors, Ti maxInvalidSim) {
 
   if (cancel)
     return;
@@ -111,7 +111,13 @@ void DiscreteChoiceSim<hasWeight, modelType, distType>::Calculate(
           "inconsistent arguments in discrete choice simulation");
   }
 
-  Ti N0 = rows - this->N1;
+  // use the actual number of rows (some might be removed due to NAN)
+  Ti N0 = mTrainFixSize > 0 ? mTrainFixSize
+                            : static_cast<Ti>(std::round(rows * mTrainRatio));
+  if (N0 <= 0 || N0 >= rows)
+    throw LdtException(ErrorType::kLogic, "dc-sim",
+                       "training percentage is not valid");
+  this->N1 = rows - N0;
   // Ti numExo = cols - (hasWeight ? 2 : 1);
   std::mt19937 eng;
   if (this->Seed != 0)
@@ -165,6 +171,7 @@ void DiscreteChoiceSim<hasWeight, modelType, distType>::Calculate(
   auto frequencyCost = freqCost0.get();
 
   this->Auc = 0;
+  this->BrierScore = mDoBrier ? 0 : NAN;
   auto split = DataSplitDiscrete(rows, cols, mNumChoices);
 
   auto model =
@@ -219,29 +226,6 @@ void DiscreteChoiceSim<hasWeight, modelType, distType>::Calculate(
     test.SetData(&split.Sample1.Data[pexo * split.Sample1.RowsCount],
                  split.Sample1.RowsCount, split.Sample1.ColsCount - pexo);
 
-    if (cancel)
-      return;
-
-    if (errors) {
-      try {
-        model.Calculate(split.Sample0, model_storage, work0, true, &test,
-                        aucOptions);
-      } catch (std::exception &ex) {
-        errors->insert(ex.what());
-        continue;
-      } catch (...) {
-        errors->insert("unknown error!");
-        continue;
-      }
-    } else {
-      try {
-        model.Calculate(split.Sample0, model_storage, work0, true, &test,
-                        aucOptions);
-      } catch (...) {
-        continue;
-      }
-    }
-
     if (cancel)
       return;
 
@@ -250,9 +234,40 @@ void DiscreteChoiceSim<hasWeight, modelType, distType>::Calculate(
       w1.SetData(&split.Sample1.Data[this->N1]);
     }
 
+    // estimate and evaluate. The results are updated after that all parts of
+    // the current iteration are calculated
+    try {
+      model.Calculate(split.Sample0, model_storage, work0, true, &test,
+                      aucOptions);
+      for (i = 0; i < model.PredProbs.length(); i++)
+        if (std::isnan(model.PredProbs.Data[i]))
+          throw LdtException(ErrorType::kLogic, "dc-sim", "probability is nan");
+
+      if (costCount > 0)
+        frequencyCost->Calculate(
+            *costMatrixes, y1, model.PredProbs,
+            hasWeight ? (mWeightedEval ? &w1 : nullptr) : nullptr,
+            cost_storage);
+
+      if (mDoAuc)
+        auc->Calculate(y1, model.PredProbs,
+                       hasWeight ? (mWeightedEval ? &w1 : nullptr) : nullptr,
+                       aucOptions);
+    } catch (std::exception &ex) {
+      if (errors)
+        (*errors)[ex.what()]++;
+      continue;
+    } catch (...) {
+      if (errors)
+        (*errors)["unknown error!"]++;
+      continue;
+    }
+
+    if (cancel)
+      return;
+
     if (mDoBrier) {
-      BrierScore = 0;
-      Tv yi, wi = 1, sum = 0;
+      Tv yi, wi = 1, sum = 0, brier = 0;
       Ti i = -1;
       for (auto ap = model.PredProbs.ColBegin(1);
            ap != model.PredProbs.ColEnd(1); ++ap) {
@@ -261,34 +276,21 @@ void DiscreteChoiceSim<hasWeight, modelType, distType>::Calculate(
         if constexpr (hasWeight) {
           wi = w1.Data[i];
         }
-        BrierScore += wi * std::pow(yi - *ap, 2);
+        brier += wi * std::pow(yi - *ap, 2);
         sum += wi;
       }
-      BrierScore /= sum;
+      this->BrierScore += brier / sum; // sum
     }
 
     if (costCount > 0) {
-      frequencyCost->Calculate(
-          *costMatrixes, y1, model.PredProbs,
-          hasWeight ? (mWeightedEval ? &w1 : nullptr) : nullptr, cost_storage);
       for (i = 0; i < costCount; i++) {
         this->CostRatios.Data[i] += frequencyCost->CostSums.Data[i]; // sums
         overall_count.Data[i] += frequencyCost->CostCounts.Data[i];
       }
     }
 
-    if (cancel)
-      return;
-
-    if (mDoAuc) {
-      auc->Calculate(y1, model.PredProbs,
-                     hasWeight ? (mWeightedEval ? &w1 : nullptr) : nullptr,
-                     aucOptions);
+    if (mDoAuc)
       this->Auc += auc->Result; // sum
-    }
-
-    if (cancel)
-      return;
 
     if (mDoFrequecyTable) {
       Tv yi, wi = 1, actProb;
@@ -300,9 +302,6 @@ void DiscreteChoiceSim<hasWeight, modelType, distType>::Calculate(
         }
         yc = static_cast<Ti>(yi);
         actProb = model.PredProbs.Get0(i, yc);
-        if (std::isnan(actProb)) {
-          throw LdtException(ErrorType::kLogic, "dc-sim", "probability is nan");
-        }
         j = static_cast<Ti>(std::floor(actProb * 10)); // if actual=0.1 => j=1
         if (j == 10) // if actual = 0.1 = > j = 10
           j = 9;
@@ -331,6 +330,8 @@ void DiscreteChoiceSim<hasWeight, modelType, distType>::Calculate(
   for (i = 0; i < costCount; i++)
     this->CostRatios.Data[i] /= overall_count.Data[i];
   this->Auc /= this->ValidSimulationCount;
+  if (mDoBrier)
+    this->BrierScore /= this->ValidSimulationCount;
 }
 
 std::unique_ptr<DiscreteChoiceSimBase> DiscreteChoiceSimBase::GetFromType(
-- 
2.43.0


From e110d4673e44d1005a4c10fe7e0c087a21216f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 07/67] fix: discrete choice search stays inside its buffers
 and enforces its limits

---
 .../discrete/discrete_choice_modelset.cpp     | 21 ++++++++-----------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index 690b21d..11aa225 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -177,10 +177,9 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
       return "";
 
     Model.Calculate(Data.Result, pCostMatrixes, &work[s],
-                    &work[s + Model.StorageSize], &workI[this->NumPartitions],
-                    this->pOptions->RequestCancel, *pAucOptions,
-                    this->pMetrics->SimFixSize - this->pChecks->MinOutSim,
-                    nullptr, INT32_MAX);
+                    &work[s + Model.StorageSize], workI,
+                    this->pOptions->RequestCancel, *pAucOptions, true, nullptr,
+                    this->pMetrics->SimFixSize - this->pChecks->MinOutSim);
     s += Model.StorageSize;
   }
 
@@ -199,13 +198,13 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
         this->pMetrics->MetricInIndices.at(GoodnessOfFitType::kFrequencyCost);
     auto aucInd = this->pMetrics->MetricInIndices.at(GoodnessOfFitType::kAuc);
     auto briInd = this->pMetrics->MetricInIndices.at(GoodnessOfFitType::kBrier);
-    if (costInd > 0 || aucInd > 0 || briInd > 0) {
+    if (costInd >= 0 || aucInd >= 0 || briInd >= 0) {
 
-      Probs.SetData(&work[s]);
+      Probs.SetData(&work[s], count, this->mNumChoices);
       s += Probs.length();
       DModel.GetProbabilities(X, Probs, &work[s]);
 
-      if (briInd > 0) {
+      if (briInd >= 0) {
 
         Tv brier = 0;
         Tv yi, wi = 1, sum = 0;
@@ -224,7 +223,7 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
         metrics.Mat.Set0(briInd, 0, brier);
       }
 
-      if (costInd > 0) {
+      if (costInd >= 0) {
         if (this->pOptions->RequestCancel)
           return "";
 
@@ -235,7 +234,7 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
         metrics.Mat.Set0(costInd, 0, CostIn.get()->AverageRatio);
       }
 
-      if (aucInd > 0) {
+      if (aucInd >= 0) {
         if (this->pOptions->RequestCancel)
           return "";
 
@@ -417,9 +416,7 @@ DiscreteChoiceModelset<hasWeight, modelType>::DiscreteChoiceModelset(
                          "There is no frequency cost metric and yet "
                          "frequency cost matrix list is not "
                          "empty!");
-  } else if (metrics.MetricInIndices.at(GoodnessOfFitType::kFrequencyCost) >
-                 0 ||
-             metrics.MetricOutIndices.at(ScoringType::kFrequencyCost) > 0) {
+  } else {
     if (costMatrixes.size() == 0)
       throw LdtException(ErrorType::kLogic, "dc-modelset",
                          "Frequency cost metrics are given, "
-- 
2.43.0


From e5b4e11da644a4a5b4eef7ebbe7a4fba9a4dd7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 08/67] fix: discrete choice details use the rows that are left
 after removing missing data

---
 .../modeling/discrete/discrete_choice_extended.cpp  | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
index fd5fb40..cd4491a 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
@@ -84,7 +84,6 @@ void DiscreteChoiceExtended::Calculate(const Matrix<Tv> &data, Tv *storage,
   // if (PredProbs && !xForecast)
 
   Ti numForecast = xForecast ? xForecast->RowsCount : 0;
-  Ti numObs = data.RowsCount;
   Ti numExo = data.ColsCount - (mHasWeight ? 2 : 1);
 
   auto temp = DiscreteChoiceExtended(
@@ -149,8 +148,8 @@ void DiscreteChoiceExtended::Calculate(const Matrix<Tv> &data, Tv *storage,
 
   if (mDoDetails) {
     // Projections
-    Projections = Matrix<Tv>(&storage[p], numObs, mNumChoices);
-    p += numObs * mNumChoices;
+    Projections = Matrix<Tv>(&storage[p], count, mNumChoices);
+    p += count * mNumChoices;
     Model->GetProbabilities(X, Projections, work);
 
     BrierScore = 0;
@@ -171,14 +170,14 @@ void DiscreteChoiceExtended::Calculate(const Matrix<Tv> &data, Tv *storage,
     if (mModelType == DiscreteChoiceModelType::kBinary) {
       if (aucOptions.Costs.Data) {
         if (mHasWeight && mWeightedEval)
-          auc0 = std::make_unique<ROC<true, true>>(numObs);
+          auc0 = std::make_unique<ROC<true, true>>(count);
         else
-          auc0 = std::make_unique<ROC<false, true>>(numObs);
+          auc0 = std::make_unique<ROC<false, true>>(count);
       } else {
         if (mHasWeight && mWeightedEval)
-          auc0 = std::make_unique<ROC<true, false>>(numObs);
+          auc0 = std::make_unique<ROC<true, false>>(count);
         else
-          auc0 = std::make_unique<ROC<false, false>>(numObs);
+          auc0 = std::make_unique<ROC<false, false>>(count);
       }
     } else {
       throw LdtException(ErrorType::kLogic, "dc-extended",
-- 
2.43.0


From b211e50dd16d08374511310951b4c18433d2403d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:56 +0000
Subject: [PATCH 09/67] fix: a failed inversion of residual variance is an
 error in restricted SUR

---
 src/ldt_statistics/modeling/linear/sur.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/modeling/linear/sur.cpp b/src/ldt_statistics/modeling/linear/sur.cpp
index 61effee..7640c13 100644
--- a/src/ldt_statistics/modeling/linear/sur.cpp
+++ b/src/ldt_statistics/modeling/linear/sur.cpp
@@ -243,14 +243,16 @@ void Sur::estim_r(Ti N, Ti m, Tv *work) {
   auto V_o_xRtz = Matrix<Tv>(&work[q], qStar, (Ti)1);
   q += qStar;
 
-  resid_var.Inv0();             // S^-1
+  auto info = resid_var.Inv0(); // S^-1
+  if (info != 0)
+    throw LdtException(ErrorType::kLogic, "sur", "matrix singularity");
   x.Dot_AtA(xtx);               // X'X: kxk
   resid_var.Kron(xtx, V_o_xtx); // S^-1 o X'X
   pR->TrDot(V_o_xtx, RV_o_xtx); // R'[S^-1 o X'X]
   RV_o_xtx.Dot(*pR, gamma_var); // R'[S^-1 o X'X]R
 
   condition_number = RV_o_xtx.Norm('1');
-  auto info = gamma_var.Inv0(); // [R'[S^-1 o X'X]R]^{-1}
+  info = gamma_var.Inv0(); // [R'[S^-1 o X'X]R]^{-1}
   if (info != 0) {
     throw LdtException(ErrorType::kLogic, "sur", "matrix singularity");
     return;
-- 
2.43.0


From 37cd30b3cf5cd3a2663c03ca6985962a52b1cb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:56 +0000
Subject: [PATCH 10/67] fix: SUR simulation errors belong to the current
 calculation

---
 src/ldt_statistics/modeling/linear/sur_simulation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ldt_statistics/modeling/linear/sur_simulation.cpp b/src/ldt_statistics/modeling/linear/sur_simulation.cpp
index e7dfcb6..49c30ce 100644
--- a/src/ldt_statistics/modeling/linear/sur_simulation.cpp
+++ b/src/ldt_statistics/modeling/linear/sur_simulation.cpp
@@ -140,6 +140,7 @@ void SurSimulation::Calculate(Matrix<Tv> &data, Ti m, Tv *storage, Tv *work,
   Ti i, j, s, invalidCounts = 0;
   ValidCounts = 0;
   ValidIters = 0;
+  Errors.clear();
   for (Iteration = 0; Iteration < maxIteration; Iteration++) {
     invalidCounts++;
     if (cancel)
-- 
2.43.0


From e9972a26966dd73c68b93b6214d110f27345a00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:56 +0000
Subject: [PATCH 11/67] fix: coefficient variances are missing when the Hessian
 in VARMA is singular

---
 src/ldt_statistics/modeling/time_series/varma/varma.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma.cpp b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
index f2a51f2..38717da 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
@@ -538,7 +538,8 @@ void Varma::EstimateMl(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
     derv.CalculateSecond(fun, Result.gamma, Result.gammavar.Data,
                          derv_work); // note that in this case you should
                                      // have asked for second derivative
-    Result.gammavar.Inv0();
+    if (Result.gammavar.Inv0() != 0)
+      Result.gammavar.SetValue(NAN); // it is not available
     Result.gammavar.Multiply_in(2);
 
     // update values
-- 
2.43.0


From afe99cbbd570bced13202af9e1a5e5afcf114ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:56 +0000
Subject: [PATCH 12/67] fix: VARMA simulation counts and lists the failed
 evaluations

---
 .../time_series/varma/varma_simulation.cpp    | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp
index d37ca81..cfb45ee 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp
@@ -227,7 +227,9 @@ void VarmaSimulation::Calculate(Tv *storage, Tv *work, Matrix<Tv> &data,
   auto last = Matrix<Tv>(&work[pos], yy, 1);
   pos += yy;
 
+  std.SetValue(NAN); // if it is not calculated
   ValidCounts = 0;
+  Errors.clear();
   Ti k, invalidCounts = 0;
   Ti forIndex;
   Ti colc;
@@ -240,7 +242,6 @@ void VarmaSimulation::Calculate(Tv *storage, Tv *work, Matrix<Tv> &data,
     if (cancel)
       return;
     useCurrentEstims = usePreviousEstim && success;
-    invalidCounts++;
     actIndex = T - se - 1;
     if (actIndex < 0)
       break;
@@ -257,6 +258,8 @@ void VarmaSimulation::Calculate(Tv *storage, Tv *work, Matrix<Tv> &data,
     if (colc <= 0)
       break; // no more forecasts
 
+    invalidCounts++;
+
     // estimate and forecast
     // update sizes by current sampleEnd. se is different which means Xt,
     // resid, etc are different
@@ -272,7 +275,13 @@ void VarmaSimulation::Calculate(Tv *storage, Tv *work, Matrix<Tv> &data,
       if (cancel)
         return;
 
+    } catch (std::exception &ex) {
+      AddError(ex.what());
+      success = false;
+      continue; // will be invalid
     } catch (...) {
+      AddError("unknown error!");
+      success = false;
       continue; // will be invalid
     }
     invalidCounts--;
@@ -360,7 +369,8 @@ void VarmaSimulation::Calculate(Tv *storage, Tv *work, Matrix<Tv> &data,
     }
   }
 
-  if (counter == 0 || invalidCounts > maxInvalidSim)
+  // some origins might not be evaluated due to the horizons
+  if (counter == 0 || count - ValidCounts > maxInvalidSim)
     throw LdtException(ErrorType::kLogic, "varma-simulation",
                        "model check: minimum valid simulations");
 
@@ -462,6 +472,10 @@ void VarmaSimulation::CalculateE(Tv *storage, Tv *work, Matrix<Tv> &data,
   pos += yy;
   auto lastIndex = D.End;
 
+  std.SetValue(NAN); // if it is not calculated
+  ValidCounts = 0;
+  Errors.clear();
+  Details.clear();
   bool useCurrentEstims;
   Ti k;
   Ti forIndex;
@@ -498,15 +512,19 @@ void VarmaSimulation::CalculateE(Tv *storage, Tv *work, Matrix<Tv> &data,
       forecast0 = &EModel.Forecasts;
     } catch (std::exception &ex) {
       AddError(ex.what());
+      success = false;
       continue;
     } catch (std::string &ex) {
       AddError(ex.c_str());
+      success = false;
       continue;
     } catch (const char *ex) {
       AddError(ex);
+      success = false;
       continue;
     } catch (...) {
       AddError("unknown error!");
+      success = false;
       continue;
     }
     auto forecast = *forecast0;
-- 
2.43.0


From a1e337c629f48149e9f1f65c62c6fe29ecd00765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:56 +0000
Subject: [PATCH 13/67] fix: search results belong to the equation of the
 target; no searcher without target

---
 include/math/statistics/inference/searchers.h  |  4 ++++
 .../modeling/linear/sur_modelset.cpp           | 18 +++++++++---------
 .../modeling/search/searcher_reg.cpp           | 17 +++++++++++------
 .../time_series/varma/varma_modelset.cpp       | 18 +++++++++---------
 4 files changed, 33 insertions(+), 24 deletions(-)

diff --git a/include/math/statistics/inference/searchers.h b/include/math/statistics/inference/searchers.h
index 4534c6d..e9302b2 100644
--- a/include/math/statistics/inference/searchers.h
+++ b/include/math/statistics/inference/searchers.h
@@ -579,6 +579,10 @@ protected:
   /// @brief A mapping between the index of dependent variable and the targets
   std::vector<Ti> TargetsPositions;
 
+  /// @brief Position of each target (in \ref TargetsPositions) among the
+  /// endogenous variables of the current model
+  std::vector<Ti> TargetsEqs;
+
   std::string EstimateOne(Tv *work, Ti *workI) override;
 
   /// @brief Override this function instead of \ref EstimateOne. It manages
diff --git a/src/ldt_statistics/modeling/linear/sur_modelset.cpp b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
index 7f69101..f510b3c 100644
--- a/src/ldt_statistics/modeling/linear/sur_modelset.cpp
+++ b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
@@ -108,32 +108,32 @@ std::string SurSearcher::EstimateOneReg(Tv *work, Ti *workI,
     auto ind = this->pMetrics->MetricOutIndices.at(ScoringType::kSign);
     if (ind >= 0)
       for (Ti t = 0; t < (Ti)this->TargetsPositions.size(); t++)
-        metrics.Mat.Set0(j + ind, t, Model.Results.Get0(ind, t));
+        metrics.Mat.Set0(j + ind, t, Model.Results.Get0(ind, TargetsEqs.at(t)));
 
     ind = this->pMetrics->MetricOutIndices.at(ScoringType::kMae);
     if (ind >= 0)
       for (Ti t = 0; t < (Ti)this->TargetsPositions.size(); t++)
-        metrics.Mat.Set0(j + ind, t, Model.Results.Get0(ind, t));
+        metrics.Mat.Set0(j + ind, t, Model.Results.Get0(ind, TargetsEqs.at(t)));
 
     ind = this->pMetrics->MetricOutIndices.at(ScoringType::kMape);
     if (ind >= 0)
       for (Ti t = 0; t < (Ti)this->TargetsPositions.size(); t++)
-        metrics.Mat.Set0(j + ind, t, Model.Results.Get0(ind, t));
+        metrics.Mat.Set0(j + ind, t, Model.Results.Get0(ind, TargetsEqs.at(t)));
 
     ind = this->pMetrics->MetricOutIndices.at(ScoringType::kRmse);
     if (ind >= 0)
       for (Ti t = 0; t < (Ti)this->TargetsPositions.size(); t++)
-        metrics.Mat.Set0(j + ind, t, Model.Results.Get0(ind, t));
+        metrics.Mat.Set0(j + ind, t, Model.Results.Get0(ind, TargetsEqs.at(t)));
 
     ind = this->pMetrics->MetricOutIndices.at(ScoringType::kRmspe);
     if (ind >= 0)
       for (Ti t = 0; t < (Ti)this->TargetsPositions.size(); t++)
-        metrics.Mat.Set0(j + ind, t, Model.Results.Get0(ind, t));
+        metrics.Mat.Set0(j + ind, t, Model.Results.Get0(ind, TargetsEqs.at(t)));
 
     ind = this->pMetrics->MetricOutIndices.at(ScoringType::kCrps);
     if (ind >= 0)
       for (Ti t = 0; t < (Ti)this->TargetsPositions.size(); t++)
-        metrics.Mat.Set0(j + ind, t, Model.Results.Get0(ind, t));
+        metrics.Mat.Set0(j + ind, t, Model.Results.Get0(ind, TargetsEqs.at(t)));
   }
 
   if (this->pOptions->RequestCancel)
@@ -149,9 +149,9 @@ std::string SurSearcher::EstimateOneReg(Tv *work, Ti *workI,
       for (const auto &b : this->CurrentIndices.Vec) {
         i++;
         Ti a = b - this->pData->NumEndo;
-        type1Mean.Mat.Set0(a, t, DModel.Model.beta.Get0(i, t));
+        type1Mean.Mat.Set0(a, t, DModel.Model.beta.Get0(i, TargetsEqs.at(t)));
         type1Var.Mat.Set0(a, t,
-                          std::pow(DModel.Model.e_beta_std.Get0(i, t), 2));
+                          std::pow(DModel.Model.e_beta_std.Get0(i, TargetsEqs.at(t)), 2));
       }
     }
   }
@@ -214,7 +214,7 @@ SurModelset::SurModelset(const SearchData &data,
         throw LdtException(ErrorType::kLogic, "sur-modelset",
                            "empty endogenous indexes");
 
-      if (e.at(0) > items.LengthTargets)
+      if (e.at(0) >= items.LengthTargets)
         continue; // no target here
       auto seed = metrics.Seed == 0
                       ? 0
diff --git a/src/ldt_statistics/modeling/search/searcher_reg.cpp b/src/ldt_statistics/modeling/search/searcher_reg.cpp
index 58776bd..98c47b4 100644
--- a/src/ldt_statistics/modeling/search/searcher_reg.cpp
+++ b/src/ldt_statistics/modeling/search/searcher_reg.cpp
@@ -47,9 +47,11 @@ SearcherReg::SearcherReg(const SearchData &data,
       ColIndices.at(InnerIndices.size()) = this->pData->NumEndo;
 
     // we can set targets here
-    for (auto &a : innerIndices) {
-      if (a < items.LengthTargets)
-        TargetsPositions.push_back(a);
+    for (Ti i = 0; i < (Ti)innerIndices.size(); i++) {
+      if (innerIndices.at(i) < items.LengthTargets) {
+        TargetsPositions.push_back(innerIndices.at(i));
+        TargetsEqs.push_back(i);
+      }
     }
     if (TargetsPositions.size() == 0)
       throw LdtException(ErrorType::kLogic, "sur-modelset",
@@ -68,9 +70,12 @@ std::string SearcherReg::EstimateOne(Tv *work, Ti *workI) {
 
     // update target indices
     TargetsPositions.clear();
-    for (auto &a : CurrentIndices.Vec) {
-      if (a < pItems->LengthTargets)
-        TargetsPositions.push_back(a);
+    TargetsEqs.clear();
+    for (Ti i = 0; i < (Ti)CurrentIndices.Vec.size(); i++) {
+      if (CurrentIndices.Vec.at(i) < pItems->LengthTargets) {
+        TargetsPositions.push_back(CurrentIndices.Vec.at(i));
+        TargetsEqs.push_back(i);
+      }
     }
   } else {
     Ti w = pData->HasWeight ? 1 : 0;
diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
index 1547602..343c885 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
@@ -241,37 +241,37 @@ std::string VarmaSearcher::EstimateOneReg(Tv *work, Ti *workI,
     auto ind = this->pMetrics->MetricOutIndices.at(ScoringType::kSign);
     if (ind >= 0)
       for (Ti t = 0; t < (Ti)this->TargetsPositions.size(); t++)
-        metrics.Mat.Set0(j + ind, t, Model.ResultAggs.Get0(ind, t));
+        metrics.Mat.Set0(j + ind, t, Model.ResultAggs.Get0(ind, TargetsEqs.at(t)));
 
     ind = this->pMetrics->MetricOutIndices.at(ScoringType::kDirection);
     if (ind >= 0)
       for (Ti t = 0; t < (Ti)this->TargetsPositions.size(); t++)
-        metrics.Mat.Set0(j + ind, t, Model.ResultAggs.Get0(ind, t));
+        metrics.Mat.Set0(j + ind, t, Model.ResultAggs.Get0(ind, TargetsEqs.at(t)));
 
     ind = this->pMetrics->MetricOutIndices.at(ScoringType::kMae);
     if (ind >= 0)
       for (Ti t = 0; t < (Ti)this->TargetsPositions.size(); t++)
-        metrics.Mat.Set0(j + ind, t, Model.ResultAggs.Get0(ind, t));
+        metrics.Mat.Set0(j + ind, t, Model.ResultAggs.Get0(ind, TargetsEqs.at(t)));
 
     ind = this->pMetrics->MetricOutIndices.at(ScoringType::kMape);
     if (ind >= 0)
       for (Ti t = 0; t < (Ti)this->TargetsPositions.size(); t++)
-        metrics.Mat.Set0(j + ind, t, Model.ResultAggs.Get0(ind, t));
+        metrics.Mat.Set0(j + ind, t, Model.ResultAggs.Get0(ind, TargetsEqs.at(t)));
 
     ind = this->pMetrics->MetricOutIndices.at(ScoringType::kRmse);
     if (ind >= 0)
       for (Ti t = 0; t < (Ti)this->TargetsPositions.size(); t++)
-        metrics.Mat.Set0(j + ind, t, Model.ResultAggs.Get0(ind, t));
+        metrics.Mat.Set0(j + ind, t, Model.ResultAggs.Get0(ind, TargetsEqs.at(t)));
 
     ind = this->pMetrics->MetricOutIndices.at(ScoringType::kRmspe);
     if (ind >= 0)
       for (Ti t = 0; t < (Ti)this->TargetsPositions.size(); t++)
-        metrics.Mat.Set0(j + ind, t, Model.ResultAggs.Get0(ind, t));
+        metrics.Mat.Set0(j + ind, t, Model.ResultAggs.Get0(ind, TargetsEqs.at(t)));
 
     ind = this->pMetrics->MetricOutIndices.at(ScoringType::kCrps);
     if (ind >= 0)
       for (Ti t = 0; t < (Ti)this->TargetsPositions.size(); t++)
-        metrics.Mat.Set0(j + ind, t, Model.ResultAggs.Get0(ind, t));
+        metrics.Mat.Set0(j + ind, t, Model.ResultAggs.Get0(ind, TargetsEqs.at(t)));
   }
 
   if (this->pOptions->RequestCancel)
@@ -286,8 +286,8 @@ std::string VarmaSearcher::EstimateOneReg(Tv *work, Ti *workI,
       // length1 is the max horizon
       for (Ti i = 0; i < this->pItems->Length1; i++) {
 
-        type1Mean.Mat.Set(i, t, FModel.Forecast.Get(t, i + FModel.StartIndex));
-        type1Var.Mat.Set(i, t, FModel.Variance.Get(t, i + FModel.StartIndex));
+        type1Mean.Mat.Set(i, t, FModel.Forecast.Get(TargetsEqs.at(t), i + FModel.StartIndex));
+        type1Var.Mat.Set(i, t, FModel.Variance.Get(TargetsEqs.at(t), i + FModel.StartIndex));
       }
     }
   }
-- 
2.43.0


From 20e98039198e06f65eebd55786386a6296d2b114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:56 +0000
Subject: [PATCH 14/67] fix: exceptions of a search reach its caller

---
 Rpackage/src/r_dc.cpp                         |  8 ++++++-
 Rpackage/src/r_sur.cpp                        |  8 ++++++-
 Rpackage/src/r_varma.cpp                      |  8 ++++++-
 .../modeling/search/modelset.cpp              | 21 +++++++++++++++----
 .../modeling/search/searcher.cpp              |  2 +-
 5 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/Rpackage/src/r_dc.cpp b/Rpackage/src/r_dc.cpp
index e9043e2..660a793 100644
--- a/Rpackage/src/r_dc.cpp
+++ b/Rpackage/src/r_dc.cpp
@@ -96,11 +96,17 @@ SEXP SearchDc(List data, List combinations, List metrics, List modelChecks,
   // handle unhandled exceptions in the async function
   // model->CheckStart();
   auto f = std::async(std::launch::async, [&] {
-    model->Start(W.get(), Wi.get());
+    try {
+      model->Start(W.get(), Wi.get());
+    } catch (...) {
+      estimating = false; // otherwise, the next loop does not end
+      throw;
+    }
     estimating = false;
   });
 
   ReportProgress(model->Modelset, estimating, options_, alli);
+  f.get(); // throws the exception of the search (if any)
 
   if (options_.RequestCancel)
     return R_NilValue;
diff --git a/Rpackage/src/r_sur.cpp b/Rpackage/src/r_sur.cpp
index a8ac964..a399f6c 100644
--- a/Rpackage/src/r_sur.cpp
+++ b/Rpackage/src/r_sur.cpp
@@ -56,11 +56,17 @@ SEXP SearchSur(List data, List combinations, List metrics, List modelChecks,
   // handle unhandled exceptions in the async function
   // model.CheckStart();
   auto f = std::async(std::launch::async, [&] {
-    model.Modelset.Start(W.get(), nullptr);
+    try {
+      model.Modelset.Start(W.get(), nullptr);
+    } catch (...) {
+      estimating = false; // otherwise, the next loop does not end
+      throw;
+    }
     estimating = false;
   });
 
   ReportProgress(model.Modelset, estimating, options_, alli);
+  f.get(); // throws the exception of the search (if any)
 
   if (options_.RequestCancel)
     return R_NilValue;
diff --git a/Rpackage/src/r_varma.cpp b/Rpackage/src/r_varma.cpp
index c5da082..afa6e7b 100644
--- a/Rpackage/src/r_varma.cpp
+++ b/Rpackage/src/r_varma.cpp
@@ -83,11 +83,17 @@ SEXP SearchVarma(List data, List combinations, List metrics, List modelChecks,
   // handle unhandled exceptions in the async function
   // model.CheckStart();
   auto f = std::async(std::launch::async, [&] {
-    model.Modelset.Start(W.get(), nullptr);
+    try {
+      model.Modelset.Start(W.get(), nullptr);
+    } catch (...) {
+      estimating = false; // otherwise, the next loop does not end
+      throw;
+    }
     estimating = false;
   });
 
   ReportProgress(model.Modelset, estimating, options_, alli);
+  f.get(); // throws the exception of the search (if any)
 
   if (options_.RequestCancel)
     return R_NilValue;
diff --git a/src/ldt_statistics/modeling/search/modelset.cpp b/src/ldt_statistics/modeling/search/modelset.cpp
index 3d7e9f8..f6fb487 100644
--- a/src/ldt_statistics/modeling/search/modelset.cpp
+++ b/src/ldt_statistics/modeling/search/modelset.cpp
@@ -9,6 +9,7 @@
 #ifdef _OPENMP
 #include <omp.h>
 #endif
+#include <exception>
 #include <random>
 
 #include "searchers.h"
@@ -70,13 +71,25 @@ void ModelSet::Start(Tv *work, Ti *workI) {
     */
 
 #ifdef _OPENMP
+    // an exception must not leave the parallel region
+    std::exception_ptr error = nullptr;
 #pragma omp parallel for
     for (Ti i = 0; i < (Ti)pSearchers->size(); i++) {
-      auto item = pSearchers->at(i);
-      auto w = std::make_unique<Tv[]>(item->WorkSize);
-      auto wI = std::make_unique<Ti[]>(item->WorkSizeI);
-      item->Start(w.get(), wI.get());
+      try {
+        auto item = pSearchers->at(i);
+        auto w = std::make_unique<Tv[]>(item->WorkSize);
+        auto wI = std::make_unique<Ti[]>(item->WorkSizeI);
+        item->Start(w.get(), wI.get());
+      } catch (...) {
+#pragma omp critical
+        {
+          if (!error)
+            error = std::current_exception();
+        }
+      }
     }
+    if (error)
+      std::rethrow_exception(error);
 #else
     throw LdtException(ErrorType::kLogic, "sur-modelset",
                        "parallel execution is not supported");
diff --git a/src/ldt_statistics/modeling/search/searcher.cpp b/src/ldt_statistics/modeling/search/searcher.cpp
index 559e9c8..aff5b08 100644
--- a/src/ldt_statistics/modeling/search/searcher.cpp
+++ b/src/ldt_statistics/modeling/search/searcher.cpp
@@ -189,9 +189,9 @@ std::string Searcher::Start(Tv *work, Ti *workI) {
     mIsFinished = true;
     // finalize
   } catch (...) {
-    // throw;
     //  finalize (of course, this should no happen)
     mIsFinished = true;
+    throw; // don't report an incomplete search as a complete one
   }
   return "";
 }
-- 
2.43.0


From 8d4829be84346890fdf79e1b6c63a77d08d1c575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:08 +0000
Subject: [PATCH 15/67] fix: Nelder-Mead keeps its start, its bounds and its
 simplex when the objective is not finite

---
 src/ldt_math/optimization/nelder_mead.cpp | 96 +++++++++++------------
 1 file changed, 45 insertions(+), 51 deletions(-)

diff --git a/src/ldt_math/optimization/nelder_mead.cpp b/src/ldt_math/optimization/nelder_mead.cpp
index 592d8cd..0fc70fc 100644
--- a/src/ldt_math/optimization/nelder_mead.cpp
+++ b/src/ldt_math/optimization/nelder_mead.cpp
@@ -37,7 +37,7 @@ void NelderMead::Minimize(
     const Matrix<Tv> *upper, Tv penaltyMultiplier) {
   Ti n = start.length();
 
-  // Check if starting point is within bounds and adjust if necessary
+  // Check the arguments
   for (int i = 0; i < n; i++) {
     if (std::isnan(start.Data[i]))
       throw LdtException(ErrorType::kLogic, "nelder-mead",
@@ -46,18 +46,13 @@ void NelderMead::Minimize(
       throw LdtException(
           ErrorType::kLogic, "nelder-mead",
           "lower bound must be equal or smaller than the upper bound");
-    if (lower && start.Data[i] < lower->Data[i]) {
-      start.Data[i] = lower->Data[i];
-    }
-    if (upper && start.Data[i] > upper->Data[i]) {
-      start.Data[i] = upper->Data[i];
-    }
   }
 
   std::function<Tv(const Matrix<Tv> &)> f = [&](const Matrix<Tv> &x) -> Tv {
     try {
-      return objective(x) +
+      Tv v = objective(x) +
              penaltyMultiplier * PenaltyFunction(x, lower, upper);
+      return std::isfinite(v) ? v : INFINITY; // otherwise it is not comparable
     } catch (...) {
       return INFINITY;
     }
@@ -72,12 +67,29 @@ void NelderMead::Minimize(
   auto values = Matrix<Tv>(&work[q], n + 1, 1);
   q += n + 1;
 
+  // move the starting point into the bounds, if necessary (in a copy)
+  start.CopyTo00(simplex[0]);
+  for (Ti i = 0; i < n; i++) {
+    if (lower && simplex[0].Data[i] < lower->Data[i])
+      simplex[0].Data[i] = lower->Data[i];
+    if (upper && simplex[0].Data[i] > upper->Data[i])
+      simplex[0].Data[i] = upper->Data[i];
+  }
+
+  bool any_finite = false;
   for (Ti i = 0; i <= n; i++) {
-    start.CopyTo00(simplex[i]);
-    if (i > 0)
+    if (i > 0) {
+      simplex[0].CopyTo00(simplex[i]);
       simplex[i].Data[i - 1] += 1.0;
+    }
     values.Data[i] = f(simplex[i]);
+    if (std::isfinite(values.Data[i]))
+      any_finite = true;
   }
+  if (any_finite == false)
+    throw LdtException(
+        ErrorType::kLogic, "nelder-mead",
+        "objective function is not available around the starting point");
 
   // Initialize centroid, reflected, expanded, and contracted arrays
   auto centroid = Matrix<Tv>(&work[q], n, 1);
@@ -208,7 +220,7 @@ void NelderMead::Minimize(
   Result.SetData(storage, n, 1);
   Array<Tv>::MinIndex<false>(values.Data, n + 1, temp, best_index);
   simplex[best_index].CopyTo00(Result);
-  Min = f(Result);
+  Min = temp;
 }
 
 std::tuple<Tv, Ti>
@@ -216,59 +228,37 @@ NelderMead::Minimize1(const std::function<Tv(const Tv &)> &objective, Tv x0,
                       Tv step, int max_iter, Tv tol, Tv x_min, Tv x_max) {
 
   // set constraints:
-
-  std::function<Tv(const Tv &)> f;
-  if (std::isnan(x_min) && std::isnan(x_max))
-    f = objective;
-  else if (std::isnan(x_min)) {
-    if (x0 > x_max)
-      x0 = x_max;
-    f = [&](Tv x) {
-      Tv P = 0.0;
-      if (x > x_max) {
-        P = 1e5 * std::pow(x, 2);
-      }
-      return objective(x) + P;
-    };
-  } else if (std::isnan(x_max)) {
-    if (x0 < x_min)
-      x0 = x_min;
-    f = [&](Tv x) {
-      Tv P = 0.0;
-      if (x < x_min) {
-        P = 1e5 * std::pow(x, 2);
-      }
-      return objective(x) + P;
-    };
-  } else {
-    if (x0 < x_min)
-      x0 = x_min;
-    if (x0 > x_max)
-      x0 = x_max;
-    f = [&](Tv x) {
-      Tv P = 0.0;
-      if (x > x_max || x < x_min) {
-        P = 1e5 * std::pow(x, 2);
-      }
-      return objective(x) + P;
-    };
-  }
+  if (x0 < x_min)
+    x0 = x_min;
+  if (x0 > x_max)
+    x0 = x_max;
+
+  // a point which is not admissible or has no value, is never accepted
+  std::function<Tv(const Tv &)> f = [&](const Tv &x) -> Tv {
+    if (x < x_min || x > x_max)
+      return INFINITY;
+    Tv v = objective(x);
+    return std::isnan(v) ? INFINITY : v;
+  };
 
   // optimization:
 
   Tv x1 = x0 + step;
   Tv x2 = x0 - step;
   int iter = 0;
+  Tv f0 = NAN;
   while (iter < max_iter) {
     iter++;
     Tv f1 = f(x1);
     Tv f2 = f(x2);
-    Tv f0 = f(x0);
-    if (f1 <= f2 && f1 <= f0) {
+    f0 = f(x0);
+    if (f1 <= f2 && f1 <= f0 && f1 != INFINITY) {
+      f0 = f1;
       x0 = x1;
       x2 = x1 - step;
       x1 = x0 + step;
-    } else if (f2 <= f1 && f2 <= f0) {
+    } else if (f2 <= f1 && f2 <= f0 && f2 != INFINITY) {
+      f0 = f2;
       x0 = x2;
       x1 = x0 + step;
       x2 = x0 - step;
@@ -281,5 +271,9 @@ NelderMead::Minimize1(const std::function<Tv(const Tv &)> &objective, Tv x0,
       x2 = x0 - step;
     }
   }
+  if (f0 == INFINITY)
+    throw LdtException(
+        ErrorType::kLogic, "nelder-mead",
+        "objective function is not available around the starting point");
   return std::tuple<Tv, Ti>(x0, iter);
 }
\ No newline at end of file
-- 
2.43.0


From 8df90b4ba67bc54b3dcb38873d96c65bd15bc9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:53 +0000
Subject: [PATCH 16/67] fix: optimizers report missing objective values and
 failed searches; L-BFGS ends at an accepted point

---
 src/ldt_math/optimization/lmbfgsb.cpp           | 17 +++++++++++++++++
 src/ldt_math/optimization/newton.cpp            |  7 +++++++
 .../modeling/time_series/varma/varma.cpp        |  6 +++---
 3 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/ldt_math/optimization/lmbfgsb.cpp b/src/ldt_math/optimization/lmbfgsb.cpp
index 64d174a..354c016 100644
--- a/src/ldt_math/optimization/lmbfgsb.cpp
+++ b/src/ldt_math/optimization/lmbfgsb.cpp
@@ -115,4 +115,21 @@ void LimitedMemoryBFGSB::Minimize00(
     } else
       break;
   }
+
+  if (Task == FG_LNSRCH) { // the iteration limit is in the middle of a line
+                           // search. restore the previous iterate
+    Task = STOP_CPU;
+    setulb(&n, &Options.mMaxCorrections, startPoint.Data, lowerB.Data,
+           upperB.Data, nbd, &FunctionValue, GradientVector.Data,
+           &Options.Factor, &Options.ProjectedGradientTol, &WORK[2 * n], iWORK,
+           &Task, &Options.IterationPrint, &csave, lsave, isave, dsave);
+  }
+
+  if (IS_ERROR(Task))
+    throw LdtException(ErrorType::kLogic, "lmbfgsb",
+                       "optimization failed. error code: " +
+                           std::to_string(Task));
+  if (std::isnan(FunctionValue))
+    throw LdtException(ErrorType::kLogic, "lmbfgsb",
+                       "objective function is not available");
 }
\ No newline at end of file
diff --git a/src/ldt_math/optimization/newton.cpp b/src/ldt_math/optimization/newton.cpp
index b541700..80d5250 100644
--- a/src/ldt_math/optimization/newton.cpp
+++ b/src/ldt_math/optimization/newton.cpp
@@ -109,6 +109,9 @@ void Newton::minimize(
   pos += 2 * n;
 
   FunctionValue = function(x0);
+  if (std::isnan(FunctionValue))
+    throw LdtException(ErrorType::kLogic, "newton",
+                       "NAN or INF in gradient/value of function");
   gradient(x0, Gradient);
 
   Tv pre_vf = FunctionValue;
@@ -145,6 +148,10 @@ void Newton::minimize(
     } else {
       x0.Add_in0(d);
       FunctionValue = function(x0);
+      if (std::isnan(FunctionValue))
+        throw LdtException(ErrorType::kLogic, "newton",
+                           "NAN or INF in gradient/value of function");
+      gradient(x0, Gradient);
     }
 
     if (checkFtol) {
diff --git a/src/ldt_statistics/modeling/time_series/varma/varma.cpp b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
index 38717da..5edefbc 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
@@ -541,11 +541,11 @@ void Varma::EstimateMl(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
     if (Result.gammavar.Inv0() != 0)
       Result.gammavar.SetValue(NAN); // it is not available
     Result.gammavar.Multiply_in(2);
-
-    // update values
-    fun(Result.gamma);
   }
 
+  // update values (the last evaluation was not at the solution)
+  fun(Result.gamma);
+
   // update sigma2, it is destroyed while calculating determinant
   Ti n = Result.y.ColsCount;
   Result.resid.DotTr0(Result.resid, Result.sigma2);
-- 
2.43.0


From 086936bbc09a10b812a44cb47bee652cd2b76da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 17/67] fix: QR decomposition allocates its work array and does
 not free its buffer twice

---
 src/matrix/matrix.cpp    | 2 --
 src/matrix/matrix_la.cpp | 8 ++++----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index 74cfe5a..4f5e780 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -2384,8 +2384,6 @@ template <typename Tw> Ti Matrix<Tw>::QR(Matrix<Tw> &Q, Matrix<Tw> &R) {
 
   Ti info = QR0(tau);
 
-  delete[] tau;
-
   if (info != 0)
     return info;
 
diff --git a/src/matrix/matrix_la.cpp b/src/matrix/matrix_la.cpp
index 6c2ba6e..38245e6 100644
--- a/src/matrix/matrix_la.cpp
+++ b/src/matrix/matrix_la.cpp
@@ -700,13 +700,13 @@ template <typename Tw> Ti Matrix<Tw>::QR0(Tw *tau) {
     return info;
 
   lwork = static_cast<Ti>(dtemp);
-  // auto work0 = std::make_unique<int[]>(lwork);
-  // auto work = work0.get();
+  auto work0 = std::make_unique<Tw[]>(lwork);
+  auto work = work0.get();
 
   if constexpr (std::is_same<Tw, double>()) {
-    dgeqrf_(&M, &N, A, &M, tau, &dtemp, &lwork, &info);
+    dgeqrf_(&M, &N, A, &M, tau, work, &lwork, &info);
   } else if constexpr (std::is_same<Tw, float>()) {
-    sgeqrf_(&M, &N, A, &M, tau, &dtemp, &lwork, &info);
+    sgeqrf_(&M, &N, A, &M, tau, work, &lwork, &info);
   } else if constexpr (true) {
     throw LdtException(ErrorType::kLogic, "matrix-la", "not implemented");
   }
-- 
2.43.0


From 43fe18df00064baf3cbae0b5d3e113ba905767c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 18/67] fix: a failed inversion of the Hessian is an error in
 discrete choice models

---
 src/ldt_statistics/modeling/discrete/discrete_choice.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice.cpp
index 113cb28..a07dd12 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice.cpp
@@ -429,7 +429,9 @@ void DiscreteChoice<modelType, distType>::EstimateBinary(const Matrix<Tv> &y,
   auto ipiv = std::make_unique<int[]>(k);
 
   this->condition_number = this->BetaVar.Norm('1'); // condition number
-  this->BetaVar.Inv00(ipiv.get(), Hi.Data);
+  if (this->BetaVar.Inv00(ipiv.get(), Hi.Data) != 0)
+    throw LdtException(ErrorType::kLogic, "discrete-choice",
+                       "matrix singularity");
   this->condition_number *= this->BetaVar.Norm('1');
 
   this->LogL = -this->Optim.FunctionValue;
@@ -1048,7 +1050,9 @@ void DiscreteChoice<modelType, distType>::EstimateOrdered(const Matrix<Tv> &y,
   hfun(this->Beta, this->BetaVar); // hessian gets destroyed in optimization
   auto ipiv = std::make_unique<int[]>(k);
   Hi.Restructure0(k, k);
-  this->BetaVar.Inv00(ipiv.get(), Hi.Data);
+  if (this->BetaVar.Inv00(ipiv.get(), Hi.Data) != 0)
+    throw LdtException(ErrorType::kLogic, "discrete-choice",
+                       "matrix singularity");
 
   this->LogL = -this->Optim.FunctionValue;
   calculate_goodness(*this);
-- 
2.43.0


From f7a2d8ab3ee81f75ea4b080706d3c5ce2cb94f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:37 +0000
Subject: [PATCH 19/67] fix: singular vectors that are not calculated are zero,
 not previous contents of the storage

---
 src/matrix/decompositions.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/matrix/decompositions.cpp b/src/matrix/decompositions.cpp
index 794f793..d441d33 100644
--- a/src/matrix/decompositions.cpp
+++ b/src/matrix/decompositions.cpp
@@ -54,12 +54,16 @@ void MatrixSvd<Tw>::Calculate0(const Matrix<Tw> &mat, Tw *storage, Tw *work) {
   Ti q = 0;
   if (mJobU != 'N') {
     U.SetData(&storage[q], rows, rows);
+    if (mJobU == 'S' && mn < rows)
+      U.SetValue(0); // just the first 'mn' columns are calculated
     q += rows * rows;
   }
   S.SetData(&storage[q], mn, 1);
   q += mn;
   if (mJobVT != 'N') {
     VT.SetData(&storage[q], cols, cols);
+    if (mJobVT == 'S' && mn < cols)
+      VT.SetValue(0); // just the first 'mn' rows are calculated
     q += cols * cols;
   }
 
-- 
2.43.0


From cd67e4b84190aef60a38380318e7abfa8d28a0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:47 +0000
Subject: [PATCH 20/67] fix: VARMA estimation without details writes its
 coefficients in storage

With keepDetails false the coefficient matrix had no storage, although
StorageSize counted it, so a model with a MA part or restrictions wrote to a
null pointer.
---
 src/ldt_statistics/modeling/time_series/varma/varma.cpp      | 3 ++-
 .../modeling/time_series/varma/varma_sizes.cpp               | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma.cpp b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
index 5edefbc..b49ea0a 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
@@ -468,7 +468,8 @@ void Varma::EstimateMl(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
       Result.sigma2.CopyTo(mcopsigma2);
       CalculateGoodness(*this, T, g, f,
                         std::log(mcopsigma2.Det_pd0()) * Result.y.ColsCount);
-    }
+    } else
+      Result.gamma.CopyTo00(Result.coef); // it is required in forecasting
     return;
   }
 
diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
index 5a55be9..ff03a55 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
@@ -258,9 +258,10 @@ void VarmaStorage::SetStorage(Tv *storage, const VarmaSizes &sizes,
   gammavar.SetData(&storage[pos], q, q);
   pos += gammavar.length();
 
+  coef.SetData(&storage[pos], g, f);
+  pos += coef.length();
+
   if (mKeepDetails) {
-    coef.SetData(&storage[pos], g, f);
-    pos += coef.length();
     coefstd.SetData(&storage[pos], g, f);
     pos += coefstd.length();
     coeft.SetData(&storage[pos], g, f);
-- 
2.43.0


From 0b551e18a94c120a677241901f9d4db5c8306d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:13 +0000
Subject: [PATCH 21/67] fix: reset the state of data sets and variable groups
 on reuse

DatasetTs kept HasMissingData and WithMissingIndexes of the previous data, and
GroupData kept Removed and NaNDistanceFound, so a later calculation on good
data failed or reported the earlier findings.
---
 src/ldt_statistics/clustering/group_data.cpp | 2 ++
 src/matrix/dataset.cpp                       | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/ldt_statistics/clustering/group_data.cpp b/src/ldt_statistics/clustering/group_data.cpp
index 4c7f1c5..3d71710 100644
--- a/src/ldt_statistics/clustering/group_data.cpp
+++ b/src/ldt_statistics/clustering/group_data.cpp
@@ -32,6 +32,8 @@ void GroupData<linkMethod, distMethod, corrMethod>::Calculate(
 
   // clear current storage
   this->Groups.clear();
+  this->Removed.clear();
+  this->NaNDistanceFound = false;
 
   auto distance =
       Distance<true, distMethod, corrMethod>(mat.RowsCount, mat.ColsCount);
diff --git a/src/matrix/dataset.cpp b/src/matrix/dataset.cpp
index 5e4c6ed..e9ff9cf 100644
--- a/src/matrix/dataset.cpp
+++ b/src/matrix/dataset.cpp
@@ -85,6 +85,8 @@ template <bool byRow, typename Tw>
 void DatasetTs<byRow, Tw>::Data(Matrix<Tw> &data) {
   pData = &data;
   Ranges.clear();
+  HasMissingData = false;
+  WithMissingIndexes.clear();
 
   Ti count;
   if constexpr (byRow) {
-- 
2.43.0


From 4f8ebe7a04fa85dbd869b13dc7487e2866a41d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:46 +0000
Subject: [PATCH 22/67] fix: VARMA MA(inf) polynomial stays inside its storage,
 polynomials can be reused

VarmaArma created one coefficient more than StorageSize counts and wrote it
for pure MA models; PolynomialM appended to the coefficients of an earlier
Data call (and lost them when memory ran out).
---
 include/math/polynomial.h                             |  2 ++
 src/ldt_math/polynomials/mpolynomial.cpp              | 11 ++++++++---
 .../modeling/time_series/varma/varma_arma.cpp         |  6 +++---
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/math/polynomial.h b/include/math/polynomial.h
index 36e4ff3..e18d45d 100644
--- a/include/math/polynomial.h
+++ b/include/math/polynomial.h
@@ -103,6 +103,8 @@ class LDT_EXPORT PolynomialM {
 private:
   bool isOwner = false;
 
+  void Clear();
+
 public:
   /// @brief Coefficients of the polynomial
   std::vector<Matrix<Tv> *> Coefficients;
diff --git a/src/ldt_math/polynomials/mpolynomial.cpp b/src/ldt_math/polynomials/mpolynomial.cpp
index a09d351..bca2b74 100644
--- a/src/ldt_math/polynomials/mpolynomial.cpp
+++ b/src/ldt_math/polynomials/mpolynomial.cpp
@@ -18,16 +18,19 @@ using namespace ldt;
 
 PolynomialM::PolynomialM() { Coefficients = std::vector<Matrix<Tv> *>(); }
 
-PolynomialM::~PolynomialM() {
+PolynomialM::~PolynomialM() { Clear(); }
+
+void PolynomialM::Clear() {
   if (isOwner) {
     for (auto i : Coefficients)
       delete i;
-    Coefficients.clear();
   }
+  Coefficients.clear();
+  isOwner = false;
 }
 
 void PolynomialM::Data(std::vector<Matrix<Tv> *> &a, bool trim) {
-  isOwner = false;
+  Clear();
   Ti j = (Ti)a.size();
   // trim
   if (trim) {
@@ -46,6 +49,8 @@ void PolynomialM::Data(std::vector<Matrix<Tv> *> &a, bool trim) {
 Ti PolynomialM::Data(Ti degree, Ti m, Tv *data) {
 
   auto mm = m * m;
+  Clear();
+  Coefficients.reserve(degree + 1);
   isOwner = true; // delete the list
   for (Ti i = 0; i < degree + 1; i++)
     Coefficients.push_back(
diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_arma.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_arma.cpp
index 9f803e3..bed7f92 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_arma.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_arma.cpp
@@ -101,19 +101,19 @@ void VarmaArma::Calculate(const Matrix<Tv> &Pi, Tv *storage, Tv *work) {
 
   // MaInf
   if (mMaInfCount > 0) {
-    MaInf.Data(mMaInfCount, m, &storage[p]);
+    MaInf.Data(mMaInfCount - 1, m, &storage[p]);
 
     if (sizes.HasDiff == false && sizes.HasAr == false) { // copy MA
 
       Ti i = 0;
       for (auto &a : Ma.Coefficients) {
-        a->CopyTo00(*MaInf.Coefficients.at(i));
         if (i == mMaInfCount)
           break;
+        a->CopyTo00(*MaInf.Coefficients.at(i));
         i++;
       }
 
-      for (i; i <= mMaInfCount; i++)
+      for (; i < mMaInfCount; i++)
         MaInf.Coefficients.at(i)->SetValue(0); // MA(i)=0 for i > madegree
 
     } else {
-- 
2.43.0


From a9f31a59f12fba0126c353acc5be7e974948f987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:46 +0000
Subject: [PATCH 23/67] fix: clustering reports infinite distances and can be
 repeated

A node without a neighbour at a finite distance was dereferenced as a null
pointer, and a second Calculate used the merged nodes of the first.
---
 src/ldt_statistics/clustering/hcluster.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/clustering/hcluster.cpp b/src/ldt_statistics/clustering/hcluster.cpp
index fdc9132..4a17988 100644
--- a/src/ldt_statistics/clustering/hcluster.cpp
+++ b/src/ldt_statistics/clustering/hcluster.cpp
@@ -104,6 +104,9 @@ void HCluster<method>::Calculate(MatrixSym<false> &distances) {
   std::stack<Ti> neighbors_stack;
 
   // initialize
+  this->Nodes.resize(n); // remove the nodes of the previous calculations
+  for (auto &a : this->Nodes)
+    a->isMerged = false;
   top_node =
       this->Nodes.at(0).get(); // arbitrarily chosen (a one-point clusters)
   neighbors_stack.push(0);
@@ -114,8 +117,12 @@ void HCluster<method>::Calculate(MatrixSym<false> &distances) {
     if (n_i == 2 * n - 1) // max is n-1 merges (1/2+1/4+1/9+...=1)
       break;
 
-    nearest_2 = GetNearestNeighbor(*nearest_1,
-                                   nearest_2_distance); // find second nearest
+    nearest_2 = nearest_1
+                    ? GetNearestNeighbor(*nearest_1, nearest_2_distance)
+                    : nullptr; // find second nearest
+    if (!nearest_2)
+      throw LdtException(ErrorType::kLogic, "hcluster",
+                         "infinite (invalid) distance is found");
 
     if (nearest_2->id == top_node->id) { // top and nearest must be merged
       neighbors_stack.pop();             // remove top node
-- 
2.43.0


From 6100419fae13f94f265aa2b5b2fe8009f4c35798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:58 +0000
Subject: [PATCH 24/67] fix: the singular value decomposition rejects missing
 and infinite data

LAPACK calls its error handler (which ends the process) when the matrix
has such values.
---
 src/matrix/decompositions.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/matrix/decompositions.cpp b/src/matrix/decompositions.cpp
index d441d33..217aece 100644
--- a/src/matrix/decompositions.cpp
+++ b/src/matrix/decompositions.cpp
@@ -69,6 +69,10 @@ void MatrixSvd<Tw>::Calculate0(const Matrix<Tw> &mat, Tw *storage, Tw *work) {
 
   auto copy_mat = Matrix<Tw>(work, rows, cols);
   mat.CopyTo00(copy_mat);
+  for (Ti i = 0; i < copy_mat.length(); i++)
+    if (std::isfinite(copy_mat.Data[i]) == false) // LAPACK does not accept it
+      throw LdtException(ErrorType::kLogic, "matrix-decomposition",
+                         "svd failed. Data is missing or infinite");
 
   // Ti lwork = 0;
   auto info = Matrix<Tw>::SVD0(copy_mat.Data, rows, cols, &work[rows * cols],
-- 
2.43.0


From 915225115bd196ad5a36bcc732ea96198c2b7f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:59 +0000
Subject: [PATCH 25/67] fix: number of principal components never exceeds the
 available ones

---
 src/ldt_statistics/pca.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/pca.cpp b/src/ldt_statistics/pca.cpp
index a79726f..c89f2d1 100644
--- a/src/ldt_statistics/pca.cpp
+++ b/src/ldt_statistics/pca.cpp
@@ -149,7 +149,7 @@ Ti PcaAnalysis::GetCutoffColumn(Tv CutoffRate) const {
     if (cumsum > CutoffRate)
       break;
   }
-  return col_cut;
+  return std::max((Ti)1, std::min(col_cut, Stds2Ratios.length()));
 }
 
 void PcaAnalysisOptions::CalculateForModel(PcaAnalysis &model, Matrix<Tv> &data,
@@ -187,6 +187,10 @@ void PcaAnalysisOptions::CalculateForModel(PcaAnalysis &model, Matrix<Tv> &data,
 
   // copy required number of columns to the useMat
   auto cutoff_col = this->GetFinalCount(model);
+  if (cutoff_col > model.Stds2Ratios.length())
+    throw LdtException(ErrorType::kLogic, "pca",
+                       "requested number of components is larger than the "
+                       "number of available components");
   model.PCs.Restructure0(model.PCs.RowsCount, cutoff_col);
   pcaMat.CopyFrom00(model.PCs); // don't check size
   data.Restructure0(
-- 
2.43.0


From 1894186d3751cfb5380c64b550235b4f148f808c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:56 +0000
Subject: [PATCH 26/67] fix: VARMA variance of coefficients stays where the
 next estimation reads it

When the current estimates are used as the starting point, the bounds of the
optimisation were calculated from whatever the storage had at the new place of
'gammavar', because its place depended on the length of the sample.
---
 .../modeling/time_series/varma/varma_sizes.cpp            | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
index ff03a55..9c91833 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
@@ -245,8 +245,13 @@ void VarmaStorage::SetStorage(Tv *storage, const VarmaSizes &sizes,
 
   Ti pos = 0;
 
+  // their places do not depend on the length of the sample because their
+  // current values can be used for the next estimation
   gamma.SetData(&storage[pos], q, 1);
   pos += gamma.length();
+  gammavar.SetData(&storage[pos], q, q);
+  pos += gammavar.length();
+
   resid.SetData(&storage[pos], g, T);
   pos += resid.length();
   y.SetData(&storage[pos], g, T);
@@ -255,9 +260,6 @@ void VarmaStorage::SetStorage(Tv *storage, const VarmaSizes &sizes,
   pos += Xt.length();
   sigma2.SetData(&storage[pos], g, g);
   pos += sigma2.length();
-  gammavar.SetData(&storage[pos], q, q);
-  pos += gammavar.length();
-
   coef.SetData(&storage[pos], g, f);
   pos += coef.length();
 
-- 
2.43.0


From f675fe2311fd0434d442f41107a88d3a955e3603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:16 +0000
Subject: [PATCH 27/67] fix: stratified split checks its partition before it
 writes the samples

---
 src/ldt_statistics/data_split.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/data_split.cpp b/src/ldt_statistics/data_split.cpp
index 19327aa..ac4d36f 100644
--- a/src/ldt_statistics/data_split.cpp
+++ b/src/ldt_statistics/data_split.cpp
@@ -81,10 +81,12 @@ void DataSplitDiscrete::Shuffle(const Matrix<Tv> &data, Ti *workI,
      ii = 0; // index we set rows of x0 and y0 in different groups
   Ti jj = 0; // index we set rows of x1 and y1
 
+  // size of the groups in the training sample: check it first because the
+  // samples have no room for an inconsistent partition
+  std::vector<Ti> trainCounts;
+  trainCounts.reserve(mNumChoices);
   for (auto a : CountsSortedIndexes) {
-    // Tv aa = static_cast<Tv>(a);
     Mi = Counts.at(a);
-    Rowi = Rows.at(a).get();
     if (b == mNumChoices - 1) {
       Mi0 = N0 - sumM; // fill it
       if (Mi0 <= 0)
@@ -106,6 +108,16 @@ void DataSplitDiscrete::Shuffle(const Matrix<Tv> &data, Ti *workI,
         Mi0 = 1;
       sumM += Mi0;
     }
+    trainCounts.push_back(Mi0);
+    b++;
+  }
+
+  b = 0;
+  for (auto a : CountsSortedIndexes) {
+    // Tv aa = static_cast<Tv>(a);
+    Mi = Counts.at(a);
+    Rowi = Rows.at(a).get();
+    Mi0 = trainCounts.at(b);
     b++;
 
     for (i = 0; i < Mi; i++)
-- 
2.43.0


From 97e7197d06fea54e74d86496e428b45005c3654d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:35 +0000
Subject: [PATCH 28/67] fix: extended SUR has room for all columns of the new
 exogenous data

---
 src/ldt_statistics/modeling/linear/sur_extended.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/linear/sur_extended.cpp b/src/ldt_statistics/modeling/linear/sur_extended.cpp
index 7373d14..ccab681 100644
--- a/src/ldt_statistics/modeling/linear/sur_extended.cpp
+++ b/src/ldt_statistics/modeling/linear/sur_extended.cpp
@@ -42,13 +42,13 @@ SurExtended::SurExtended(Ti N, Ti m, Ti k, bool isRestricted, bool checkNan,
     PcaX = PcaAnalysis(N, k, numProjections, true, true, true, true);
     StorageSize += PcaX.StorageSize;
     WorkSize = std::max(WorkSize, PcaX.WorkSize);
+    if (numProjections > 0)
+      StorageSize += numProjections * k; // copy X (before the reduction)
+
     // update number of exogenous data
     k = std::min(k,
                  pcaOptionsX->CutoffCountMax +
                      pcaOptionsX->IgnoreFirstCount); // for estimating the model
-
-    if (numProjections > 0)
-      StorageSize += numProjections * k; // copy X
   }
 
   Model = Sur(N, m, k, isRestricted, doDetails, maxSigSearchIter);
-- 
2.43.0


From 77b7d3b7e207f23da75dbcd2b7706e9f6908c226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:18 +0000
Subject: [PATCH 29/67] fix: rank of a missing value is missing, not previous
 contents of the storage

---
 src/ldt_statistics/statistics/statistics.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ldt_statistics/statistics/statistics.cpp b/src/ldt_statistics/statistics/statistics.cpp
index 6f1b6b3..e0ee182 100644
--- a/src/ldt_statistics/statistics/statistics.cpp
+++ b/src/ldt_statistics/statistics/statistics.cpp
@@ -54,6 +54,7 @@ void Rank::Calculate(const Matrix<Tv> &mat, Tv *work, Tv *storage,
     rcol = &this->Result.Data[r];
     for (i = 0; i < mat.RowsCount; i++) {
       v = col1[i];
+      rcol[i] = NAN; // it is missing, if the value is missing
       for (k = 0; k < mat.RowsCount; k++) {
         w = col2[k];
         if (w == v) {
-- 
2.43.0


From 795ea494f0032b23394770a6b84f580889371182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:58 +0000
Subject: [PATCH 30/67] fix: text that could not be composed is an error, not a
 shorter text

---
 include/helpers.h         | 3 +++
 src/matrix/matrix.cpp     | 4 ++++
 src/matrix/matrix_sym.cpp | 1 +
 src/variable/variable.cpp | 1 +
 4 files changed, 9 insertions(+)

diff --git a/include/helpers.h b/include/helpers.h
index b34468e..41a217b 100644
--- a/include/helpers.h
+++ b/include/helpers.h
@@ -225,6 +225,7 @@ template <typename T> int IndexOf(const std::vector<T> &vector, T element) {
 template <typename T>
 std::string VectorToCsv(const T *vec, int size, char sep = ',') {
   std::ostringstream str;
+  str.exceptions(std::ios_base::badbit); // do not lose text silently
   str << "Vector (size=" << size << "): ";
   if (size == 0) {
     str << "empty!";
@@ -247,6 +248,7 @@ template <typename T>
 std::string VectorToCsv(const std::vector<T> &vec, char sep = ',') {
   int size = (int)vec.size();
   std::ostringstream str;
+  str.exceptions(std::ios_base::badbit); // do not lose text silently
   str << "Vector(size=" << size << "): ";
   if (size == 0) {
     str << "empty!";
@@ -314,6 +316,7 @@ void formatHelper(std::ostringstream &oss, const std::string &fmt,
 template <typename... Args>
 std::string format(const std::string &fmt, Args... args) {
   std::ostringstream oss;
+  oss.exceptions(std::ios_base::badbit); // do not lose text silently
   std::size_t pos = 0;
   formatHelper(oss, fmt, pos, args...);
   if (fmt.find("{}", pos) != std::string::npos) {
diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index 4f5e780..7387369 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -1812,6 +1812,7 @@ std::string Matrix<Tw>::ToString(char colsep, char rowsep,
     return "";
 
   std::ostringstream str;
+  str.exceptions(std::ios_base::badbit); // do not lose text silently
   str << "Tw Matrix<Tw> (" << RowsCount << " x " << ColsCount << ")";
   if (RowsCount == 0 || ColsCount == 0) {
     return str.str();
@@ -1839,6 +1840,7 @@ std::string Matrix<Tw>::ToString0(char colsep, char rowsep,
     return "";
   }
   std::ostringstream str;
+  str.exceptions(std::ios_base::badbit); // do not lose text silently
   str << std::fixed;
   str << std::setprecision(precesion);
   for (Ti i = 0; i < RowsCount; i++) {
@@ -1864,6 +1866,7 @@ std::string Matrix<Tw>::ToString_R_Matrix(std::streamsize precesion,
   }
 
   std::ostringstream str;
+  str.exceptions(std::ios_base::badbit); // do not lose text silently
   str << std::fixed;
   str << std::setprecision(precesion);
 
@@ -3194,6 +3197,7 @@ void Matrix<Tw>::ColumnsMeansVariances(Matrix<Tw> &storage_mean,
 
 template <typename Tj> std::string join(const std::vector<Tj> *numbers) {
   std::ostringstream result;
+  result.exceptions(std::ios_base::badbit); // do not lose text silently
   for (const auto number : *numbers) {
     if (result.tellp() > 0) {
       result << ", ";
diff --git a/src/matrix/matrix_sym.cpp b/src/matrix/matrix_sym.cpp
index c2acfe2..5340def 100644
--- a/src/matrix/matrix_sym.cpp
+++ b/src/matrix/matrix_sym.cpp
@@ -109,6 +109,7 @@ MatrixSym<has_diag, Tw>::ToString(char colsep, char rowsep,
                                   std::streamsize precession) const {
 
   std::ostringstream str;
+  str.exceptions(std::ios_base::badbit); // do not lose text silently
   str << "sym Tw Matrix (" << RowsCount << " x " << RowsCount << ")";
   if (!Data || RowsCount == 0) {
     return str.str();
diff --git a/src/variable/variable.cpp b/src/variable/variable.cpp
index d18790e..0cc53c6 100644
--- a/src/variable/variable.cpp
+++ b/src/variable/variable.cpp
@@ -82,6 +82,7 @@ void Variable<Tw>::Examples(std::vector<std::unique_ptr<Variable<Tw>>> &values,
 template <typename Tw> std::string Variable<Tw>::ToString() const {
 
   std::ostringstream ss;
+  ss.exceptions(std::ios_base::badbit); // do not lose text silently
   ss << Name;
   ss << '\t';
 
-- 
2.43.0


From d65c11f1028a9529c99392494f01c84605da7f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 31/67] fix: a failed inversion in the inverse of a matrix
 polynomial is an error

---
 src/ldt_math/polynomials/mpolynomial.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ldt_math/polynomials/mpolynomial.cpp b/src/ldt_math/polynomials/mpolynomial.cpp
index bca2b74..c1f11e2 100644
--- a/src/ldt_math/polynomials/mpolynomial.cpp
+++ b/src/ldt_math/polynomials/mpolynomial.cpp
@@ -155,11 +155,14 @@ void PolynomialMInvert::Calculate(const PolynomialM &a, Tv *storage, Tv *work,
 
   Result.Data(maxLength - 1, size, storage);
 
+  Ti info = 0;
   try {
-    a.Coefficients.at(0)->Inv(*Result.Coefficients.at(0));
+    info = a.Coefficients.at(0)->Inv(*Result.Coefficients.at(0));
   } catch (...) {
     throw LdtException(ErrorType::kLogic, "mpoly", "'A0' is not invertible");
   }
+  if (info != 0)
+    throw LdtException(ErrorType::kLogic, "mpoly", "'A0' is not invertible");
 
   auto inv0 = Result.Coefficients.at(0);
   auto s2 = size * size;
-- 
2.43.0


From 6f4db4c738e8698c7dbeac9b133733163f56bda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:05 +0000
Subject: [PATCH 32/67] fix: L-BFGS reports a missing gradient instead of
 convergence

---
 src/ldt_math/optimization/lmbfgsb.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ldt_math/optimization/lmbfgsb.cpp b/src/ldt_math/optimization/lmbfgsb.cpp
index 354c016..0586ae9 100644
--- a/src/ldt_math/optimization/lmbfgsb.cpp
+++ b/src/ldt_math/optimization/lmbfgsb.cpp
@@ -129,7 +129,10 @@ void LimitedMemoryBFGSB::Minimize00(
     throw LdtException(ErrorType::kLogic, "lmbfgsb",
                        "optimization failed. error code: " +
                            std::to_string(Task));
-  if (std::isnan(FunctionValue))
+  bool missing = std::isnan(FunctionValue);
+  for (int i = 0; i < n; i++) // with a missing gradient, convergence is not known
+    missing = missing || std::isnan(GradientVector.Data[i]);
+  if (missing)
     throw LdtException(ErrorType::kLogic, "lmbfgsb",
-                       "objective function is not available");
+                       "objective function or its gradient is not available");
 }
\ No newline at end of file
-- 
2.43.0


From 86f42beeaa3fd59bb72ece31d70a91c8edb06ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:05 +0000
Subject: [PATCH 33/67] fix: VARMA parameters have no bounds when their
 variance is not available

---
 src/ldt_statistics/modeling/time_series/varma/varma.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma.cpp b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
index b49ea0a..39c463f 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
@@ -526,10 +526,11 @@ void Varma::EstimateMl(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
 
   // bounds
   for (Ti j = 0; j < q; j++) {
-    lower.Data[j] = Result.gamma.Data[j] -
-                    stdMultipler * std::sqrt(Result.gammavar.Get0(j, j));
-    upper.Data[j] = Result.gamma.Data[j] +
-                    stdMultipler * std::sqrt(Result.gammavar.Get0(j, j));
+    auto width = stdMultipler * std::sqrt(Result.gammavar.Get0(j, j));
+    if (std::isnan(width))
+      continue; // variance is not available. There is no bound
+    lower.Data[j] = Result.gamma.Data[j] - width;
+    upper.Data[j] = Result.gamma.Data[j] + width;
   }
   Result.Optim.Minimize(fun, gfun, Result.gamma, gradient, optim_work, &lower,
                         &upper);
-- 
2.43.0


From 02798dca559ed76ad76e2a7813ab54594eb48707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:15 +0000
Subject: [PATCH 34/67] fix: a probability above all thresholds of a frequency
 cost matrix is an error

---
 src/ldt_statistics/scoring/frequency_cost.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ldt_statistics/scoring/frequency_cost.cpp b/src/ldt_statistics/scoring/frequency_cost.cpp
index 43ea9a8..6521471 100644
--- a/src/ldt_statistics/scoring/frequency_cost.cpp
+++ b/src/ldt_statistics/scoring/frequency_cost.cpp
@@ -46,6 +46,10 @@ void FrequencyCost<hasWeight>::Calculate(const std::vector<Matrix<Tv>> &costs,
         if (c.Get0(rowIndex, 0) >= maxprob)
           break;
       }
+      if (rowIndex == c.RowsCount)
+        throw LdtException(ErrorType::kLogic, "frequencycost",
+                           "no threshold in the first column of frequency cost "
+                           "matrix covers a probability");
       // the value at 'actualCol+1' column defines how we should increment the
       // wrong count
       value = c.Get0(rowIndex, actualCol + 1);
-- 
2.43.0


From 41d17c37fe8bf262ced709067e49c2f3183b55ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:50 +0000
Subject: [PATCH 35/67] fix: a discrete choice simulation can be asked for the
 Brier score only

---
 src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
index 18f4aaf..26220f2 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
@@ -27,7 +27,8 @@ DiscreteChoiceSim<hasWeight, modelType, distType>::DiscreteChoiceSim(
         ErrorType::kLogic, "dc-sim",
         "don't use binary Model when number of choices is larger than 2");
 
-  if (costMatrixCount == 0 && doFrequencyTable == false && doAuc == false)
+  if (costMatrixCount == 0 && doFrequencyTable == false && doAuc == false &&
+      doBrier == false)
     throw LdtException(ErrorType::kLogic, "dc-sim",
                        "no goal is set in discrete choice simulation");
 
-- 
2.43.0


From c5558bfa96aa5478ef8d830af3c43b749cda0f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:32 +0000
Subject: [PATCH 36/67] fix: running moments survive tiny, huge and widely
 spread weights

---
 include/array.h                   | 40 +++++++++++++++----------------
 include/math/statistics/running.h |  8 +++----
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/include/array.h b/include/array.h
index a4d846b..402d945 100644
--- a/include/array.h
+++ b/include/array.h
@@ -535,29 +535,28 @@ public:
     Tv delta = mean_2 - mean_1;
     Tv delta2 = delta * delta;
 
+    // relative weights: powers and products of the weights can overflow or
+    // underflow
+    Tw a = sumW_1 / temp, b = sumW_2 / temp;
+
     mean = (sumW_1 * mean_1 + sumW_2 * mean_2) / temp;
 
     if constexpr (moments == 4) { // Pebay (2008). Formulas for Robust, One-Pass
                                   // Parallel..., Eq. 1.6
       M4 = M4_1 + M4_2 +
-           delta2 * delta2 * sumW_1 * sumW_2 *
-               (sumW_1 * sumW_1 - sumW_1 * sumW_2 + sumW_2 * sumW_2) /
-               (temp * temp * temp) +
-           6 * delta2 * (sumW_1 * sumW_1 * M2_2 + sumW_2 * sumW_2 * M2_1) /
-               (temp * temp) +
-           4 * delta * (sumW_1 * M3_2 - sumW_2 * M3_1) / temp;
+           delta2 * delta2 * temp * a * b * (a * a - a * b + b * b) +
+           6 * delta2 * (a * a * M2_2 + b * b * M2_1) +
+           4 * delta * (a * M3_2 - b * M3_1);
     }
 
     if constexpr (moments >= 3) { // Pebay (2008). Formulas for Robust, One-Pass
                                   // Parallel..., Eq. 1.5
-      M3 =
-          M3_1 + M3_2 +
-          delta * delta2 * sumW_1 * sumW_2 * (sumW_1 - sumW_2) / (temp * temp) +
-          3 * delta * (sumW_1 * M2_2 - sumW_2 * M2_1) / temp;
+      M3 = M3_1 + M3_2 + delta * delta2 * temp * a * b * (a - b) +
+           3 * delta * (a * M2_2 - b * M2_1);
     }
 
     if constexpr (moments >= 2) {
-      M2 = M2_1 + M2_2 + delta2 * sumW_1 * sumW_2 / temp; // Eq. 1.4
+      M2 = M2_1 + M2_2 + delta2 * temp * a * b; // Eq. 1.4
     }
 
     sumW = temp;
@@ -578,22 +577,23 @@ public:
     auto delta2 = delta * delta;
     auto temp = sumW + ww;
 
+    // relative weights: powers and products of the weights can overflow or
+    // underflow
+    Tw a = sumW / temp, b = ww / temp;
+
     mean = (sumW * mean + ww * x) / temp;
 
     if constexpr (moments == 4) {
-      M4 += delta2 * delta2 * sumW * ww * (sumW * sumW - sumW * ww + ww * ww) /
-                (temp * temp * temp) +
-            6 * delta2 * (ww * ww * M2) / (temp * temp) +
-            4 * delta * (-ww * M3) / temp;
+      M4 += delta2 * delta2 * temp * a * b * (a * a - a * b + b * b) +
+            6 * delta2 * b * b * M2 - 4 * delta * b * M3;
     }
 
     if constexpr (moments >= 3) {
-      M3 += delta * delta2 * sumW * ww * (sumW - ww) / (temp * temp) +
-            3 * delta * (-ww * M2) / temp;
+      M3 += delta * delta2 * temp * a * b * (a - b) - 3 * delta * b * M2;
     }
 
     if constexpr (moments >= 2) {
-      M2 += delta2 * sumW * ww / temp;
+      M2 += delta2 * temp * a * b;
     }
 
     sumW = temp;
@@ -670,11 +670,11 @@ public:
       }
 
       if constexpr (moments >= 3) {
-        *skewness = sqrt(sumW) * m3 / pow(m2, 1.5);
+        *skewness = (m3 / m2) / sqrt(m2 / sumW);
       }
 
       if constexpr (moments == 4) {
-        *kurtosis = sumW * m4 / (m2 * m2) - 3;
+        *kurtosis = (m4 / m2) / (m2 / sumW) - 3;
       }
     }
   }
diff --git a/include/math/statistics/running.h b/include/math/statistics/running.h
index 9fac1a2..db99ead 100644
--- a/include/math/statistics/running.h
+++ b/include/math/statistics/running.h
@@ -54,7 +54,7 @@ public:
   /// otherwise skewness
   Tw GetSkewness() {
     if constexpr (moments >= 3) {
-      return SumWeights == 0 ? NAN : sqrt(SumWeights) * mM3 / pow(mM2, 1.5);
+      return SumWeights == 0 ? NAN : (mM3 / mM2) / sqrt(mM2 / SumWeights);
     } else if constexpr (true) {
       return NAN;
     }
@@ -65,7 +65,7 @@ public:
   /// otherwise kurtosis. Note that it is not excess kurtosis
   Tw GetKurtosis() {
     if constexpr (moments == 4) {
-      return SumWeights == 0 ? NAN : SumWeights * mM4 / (mM2 * mM2) - 3;
+      return SumWeights == 0 ? NAN : (mM4 / mM2) / (mM2 / SumWeights) - 3;
     } else if constexpr (true) {
       return NAN;
     }
@@ -171,7 +171,7 @@ public:
     }
 
     if constexpr (moments >= 3) {
-      m3 = pow(m2, 1.5) * skew / sqrt(weight);
+      m3 = m2 * sqrt(var) * skew;
       if constexpr (skipNAN) {
         if (std::isnan(m3))
           return;
@@ -179,7 +179,7 @@ public:
     }
 
     if constexpr (moments == 4) {
-      m4 = (kurt + 3) * (m2 * m2) / weight;
+      m4 = (kurt + 3) * var * m2;
       if constexpr (skipNAN) {
         if (std::isnan(m4))
           return;
-- 
2.43.0


From 2100bc7edf9a7482af3fe73a1f55b31b32b650db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:13 +0000
Subject: [PATCH 37/67] fix: text of a variable without values or without
 fields can be read; a field without separator is an error

---
 src/variable/variable.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/variable/variable.cpp b/src/variable/variable.cpp
index 0cc53c6..d48c043 100644
--- a/src/variable/variable.cpp
+++ b/src/variable/variable.cpp
@@ -147,7 +147,8 @@ void Variable<Tw>::Parse(const std::string &str, Variable<Tw> &result,
     // data
     result.Data.clear();
     std::vector<std::string> parts_d;
-    Split(parts.at(3), std::string(";"), parts_d);
+    if (parts.at(3).empty() == false) // otherwise, there is no value
+      Split(parts.at(3), std::string(";"), parts_d);
     result.Data.reserve(parts_d.size());
     for (auto const &d : parts_d) {
       if constexpr (std::is_same<Tw, double>()) {
@@ -168,8 +169,10 @@ void Variable<Tw>::Parse(const std::string &str, Variable<Tw> &result,
     // Fields
     result.Fields.clear();
     for (Ti i = 4; i < (Ti)parts.size(); i++) {
+      if (parts.size() == 5 && parts.at(i).empty()) // there is no field
+        break;
       auto j = parts.at(i).find(std::string(";"));
-      if (j < 0)
+      if (j == std::string::npos)
         throw LdtException(ErrorType::kLogic, "variable",
                            "invalid field: Key-Value separator is missing");
       result.Fields.insert(
-- 
2.43.0


From 6d76abd82aeec7aeaad1b3b1662bc861a2086687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:14 +0000
Subject: [PATCH 38/67] fix: items of a list frequency do not keep those of
 texts that were read before

---
 src/frequency/f_list.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/frequency/f_list.cpp b/src/frequency/f_list.cpp
index 1d2718c..9072f5d 100644
--- a/src/frequency/f_list.cpp
+++ b/src/frequency/f_list.cpp
@@ -94,8 +94,11 @@ void FrequencyList<T>::Parse0(const std::string &str,
         result.mValue = str;
       if (items)
         result.pItems = items;
-      if (items && classStr.length() > 2)
-        SplitMultiple(classStr.substr(3), std::string(";"), *items);
+      if (items && classStr.length() > 2) {
+        auto parts = std::vector<std::string>();
+        SplitMultiple(classStr.substr(3), std::string(";"), parts);
+        items->swap(parts); // without the items of an earlier text
+      }
     } else if constexpr (std::is_same<T, boost::gregorian::date>()) {
       result.mClass = FrequencyClass::kListDate;
       if (result.OutIndex == 0)
@@ -104,8 +107,10 @@ void FrequencyList<T>::Parse0(const std::string &str,
       if (items && classStr.length() > 2) {
         auto parts = std::vector<std::string>();
         SplitMultiple(classStr.substr(3), std::string(";"), parts);
+        auto dates = std::vector<boost::gregorian::date>();
         for (const auto &a : parts)
-          items->push_back(boost::gregorian::date_from_iso_string(a));
+          dates.push_back(boost::gregorian::date_from_iso_string(a));
+        items->swap(dates); // without the items of an earlier text
       }
     }
   } catch (...) {
-- 
2.43.0


From cec521065397768fa44bbcd32f12f408f52e13c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:14 +0000
Subject: [PATCH 39/67] fix: text of a frequency with zero partitions, steps or
 an impossible position is an error

---
 src/frequency/f_day_based.cpp  | 4 ++++
 src/frequency/f_week_based.cpp | 3 +++
 src/frequency/f_year_based.cpp | 4 ++++
 3 files changed, 11 insertions(+)

diff --git a/src/frequency/f_day_based.cpp b/src/frequency/f_day_based.cpp
index e608b2c..b20b1b7 100644
--- a/src/frequency/f_day_based.cpp
+++ b/src/frequency/f_day_based.cpp
@@ -147,6 +147,10 @@ void FrequencyDayBased::Parse0(const std::string &str,
     else
       throw LdtException(ErrorType::kLogic, "freq-daybased",
                          "invalid class for a day-based frequency");
+    if (result.mPartitionCount <= 0 || result.mPosition <= 0 ||
+        result.mPosition > result.mPartitionCount)
+      throw LdtException(ErrorType::kLogic, "freq-daybased",
+                         "invalid number of partitions, or position");
   } catch (...) {
 
     try {
diff --git a/src/frequency/f_week_based.cpp b/src/frequency/f_week_based.cpp
index f71769d..8debb59 100644
--- a/src/frequency/f_week_based.cpp
+++ b/src/frequency/f_week_based.cpp
@@ -175,6 +175,9 @@ void FrequencyWeekBased::Parse0(const std::string &str,
                fClass == FrequencyClass::kMultiDaily) {
       result.mMulti =
           std::stoi(classStr.substr(1, classStr.length() - 1), nullptr, 10);
+      if (result.mMulti <= 0)
+        throw LdtException(ErrorType::kLogic, "freq-weekbased",
+                           "invalid number of weeks or days");
     } else if (fClass == FrequencyClass::kDailyInWeek) {
       auto parts = std::vector<std::string>();
       SplitMultiple(classStr, std::string(":"), parts);
diff --git a/src/frequency/f_year_based.cpp b/src/frequency/f_year_based.cpp
index 86b7682..d491a40 100644
--- a/src/frequency/f_year_based.cpp
+++ b/src/frequency/f_year_based.cpp
@@ -177,6 +177,10 @@ void FrequencyYearBased::Parse0(const std::string &str,
         throw LdtException(ErrorType::kLogic, "freq-yearbased",
                            "invalid class for a year-based frequency");
     }
+    if (result.mYearMulti <= 0 || result.mPartitionCount <= 0 ||
+        result.mPosition <= 0 || result.mPosition > result.mPartitionCount)
+      throw LdtException(ErrorType::kLogic, "freq-yearbased",
+                         "invalid number of years, partitions, or position");
   } catch (...) {
     try {
       std::rethrow_exception(std::current_exception());
-- 
2.43.0


From aaeb26935aac8b5635ff5562d59ba6cc9cd09d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:27 +0000
Subject: [PATCH 40/67] fix: L-BFGS does not report a point that is worse than
 its start

---
 src/ldt_math/optimization/lmbfgsb.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ldt_math/optimization/lmbfgsb.cpp b/src/ldt_math/optimization/lmbfgsb.cpp
index 0586ae9..c43bab9 100644
--- a/src/ldt_math/optimization/lmbfgsb.cpp
+++ b/src/ldt_math/optimization/lmbfgsb.cpp
@@ -94,6 +94,7 @@ void LimitedMemoryBFGSB::Minimize00(
   }
 
   FunctionValue = 0;
+  Tv startValue = NAN; // value at the (admissible) starting point
   Ti csave = 0;
   Task = 1;
   Iteration = 0;
@@ -111,6 +112,8 @@ void LimitedMemoryBFGSB::Minimize00(
     if (Task >= 10 && Task <= 15) {
       FunctionValue = function(startPoint);
       gradient(startPoint, GradientVector);
+      if (Iteration == 1)
+        startValue = FunctionValue;
     } else if (Task == 2) {
     } else
       break;
@@ -135,4 +138,10 @@ void LimitedMemoryBFGSB::Minimize00(
   if (missing)
     throw LdtException(ErrorType::kLogic, "lmbfgsb",
                        "objective function or its gradient is not available");
+
+  // a line search that meets missing or infinite values can end anywhere
+  if (FunctionValue > startValue)
+    throw LdtException(ErrorType::kLogic, "lmbfgsb",
+                       "optimization failed. The starting point is better than "
+                       "the last point");
 }
\ No newline at end of file
-- 
2.43.0


From 9f8a72473d30baa47393ff976707a968fd3fcea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:27 +0000
Subject: [PATCH 41/67] fix: L-BFGS does not read previous contents of its work
 array

---
 src/ldt_math/optimization/lmbfgsb.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ldt_math/optimization/lmbfgsb.cpp b/src/ldt_math/optimization/lmbfgsb.cpp
index c43bab9..c928252 100644
--- a/src/ldt_math/optimization/lmbfgsb.cpp
+++ b/src/ldt_math/optimization/lmbfgsb.cpp
@@ -93,6 +93,11 @@ void LimitedMemoryBFGSB::Minimize00(
     nbd[i] = lni && upi ? 0 : lni ? 3 : upi ? 1 : 2;
   }
 
+  // the inner matrices are not always complete (e.g., after an iteration without
+  // any free variable). Do not use previous contents of the work array
+  Ti m = Options.mMaxCorrections;
+  std::fill_n(&WORK[2 * n], 2 * m * n + 11 * m * m + 5 * n + 8 * m, 0.0);
+
   FunctionValue = 0;
   Tv startValue = NAN; // value at the (admissible) starting point
   Ti csave = 0;
-- 
2.43.0


From e445bdfe6749e1208216b9d8a8d83dc721047a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:55 +0000
Subject: [PATCH 42/67] fix: upper limit of the condition number does not
 depend on whether the options were updated before

---
 src/ldt_statistics/modeling/search/summary.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ldt_statistics/modeling/search/summary.cpp b/src/ldt_statistics/modeling/search/summary.cpp
index 82e1fe3..17fc09d 100644
--- a/src/ldt_statistics/modeling/search/summary.cpp
+++ b/src/ldt_statistics/modeling/search/summary.cpp
@@ -91,13 +91,13 @@ void SearchModelChecks::Update(const SearchMetricOptions &metrics) {
 
   mCheckCN =
       metrics.MetricsOut.size() > 0 && std::isinf(MaxConditionNumber) == false;
-  mCheckCN_all = Estimation && std::isinf(MaxConditionNumber) ==
-                                   false; // note that maximum condition number
-                                          // does not affect estimation here
-
   if (Estimation == false && (metrics.MetricsIn.size() > 0 || checkN ||
                               checkDof || checkAic || checkSic || checkR2))
     Estimation = true;
+
+  // note that maximum condition number does not affect estimation here
+  // ('Estimation' must be updated before)
+  mCheckCN_all = Estimation && std::isinf(MaxConditionNumber) == false;
 }
 
 // #pragma endregion
-- 
2.43.0


From f6c290f5e74ce62e4602f2356c79557f359e345c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:55 +0000
Subject: [PATCH 43/67] fix: Box-Cox parameters of a model in a search belong
 to its own equations

---
 include/math/statistics/inference/models/sur.h            | 3 +++
 include/math/statistics/inference/models/varma.h          | 3 +++
 src/ldt_statistics/modeling/linear/sur_modelset.cpp       | 7 ++++++-
 .../modeling/time_series/varma/varma_modelset.cpp         | 8 +++++++-
 4 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/math/statistics/inference/models/sur.h b/include/math/statistics/inference/models/sur.h
index 39dcf7a..a50fec7 100644
--- a/include/math/statistics/inference/models/sur.h
+++ b/include/math/statistics/inference/models/sur.h
@@ -393,6 +393,9 @@ class LDT_EXPORT SurSearcher : public SearcherReg {
   Matrix<Tv> R;
   std::unique_ptr<Tv[]> R_d;
 
+  /// @brief Box-Cox parameters of the endogenous variables in this searcher
+  std::vector<Tv> Lambdas;
+
   std::string EstimateOneReg(Tv *work, Ti *workI, VMatrix<Tv> &metrics,
                              VMatrix<Tv> &type1Mean, VMatrix<Tv> &type1Var,
                              VMatrix<Ti> &extra) override;
diff --git a/include/math/statistics/inference/models/varma.h b/include/math/statistics/inference/models/varma.h
index ade40b0..6927a05 100644
--- a/include/math/statistics/inference/models/varma.h
+++ b/include/math/statistics/inference/models/varma.h
@@ -511,6 +511,9 @@ class LDT_EXPORT VarmaSearcher : public SearcherReg {
   Matrix<Tv> X;
   VMatrix<Ti> Params;
 
+  /// @brief Box-Cox parameters of the endogenous variables in the current model
+  std::vector<Tv> Lambdas;
+
   std::string EstimateOneReg(Tv *work, Ti *workI, VMatrix<Tv> &metrics,
                              VMatrix<Tv> &type1Mean, VMatrix<Tv> &type1Var,
                              VMatrix<Ti> &extra) override;
diff --git a/src/ldt_statistics/modeling/linear/sur_modelset.cpp b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
index f510b3c..b878ef8 100644
--- a/src/ldt_statistics/modeling/linear/sur_modelset.cpp
+++ b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
@@ -29,6 +29,11 @@ SurSearcher::SurSearcher(const SearchData &data,
   Ti num_exo = numPartitions;
   pSource = &source;
 
+  // parameters of the equations in this searcher
+  if (data.Lambdas.size() > 0)
+    for (auto &i : this->InnerIndices)
+      Lambdas.push_back(data.Lambdas.at(i));
+
   this->WorkSize = 0;
   bool isRestricted = SigSearchMaxIter > 0 ? true : false;
 
@@ -101,7 +106,7 @@ std::string SurSearcher::EstimateOneReg(Tv *work, Ti *workI,
         SigSearchMaxProb,
         this->pChecks->mCheckCN ? this->pChecks->MaxConditionNumber : INFINITY,
         this->pMetrics->SimFixSize - this->pChecks->MinOutSim,
-        this->pData->Lambdas.size() == 0 ? nullptr : &this->pData->Lambdas);
+        Lambdas.size() == 0 ? nullptr : &Lambdas);
 
     Ti j = (Ti)this->pMetrics->MetricsIn.size();
 
diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
index 343c885..76089c2 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
@@ -220,6 +220,12 @@ std::string VarmaSearcher::EstimateOneReg(Tv *work, Ti *workI,
   if (this->pMetrics->SimFixSize > 0 && this->pMetrics->MetricsOut.size() > 0) {
     auto count0 = Model.mCount;
 
+    // parameters of the endogenous variables in the current model
+    Lambdas.clear();
+    if (this->pData->Lambdas.size() > 0)
+      for (auto &i : this->CurrentIndices.Vec)
+        Lambdas.push_back(this->pData->Lambdas.at(i));
+
     if (this->pOptions->RequestCancel)
       return "";
 
@@ -230,7 +236,7 @@ std::string VarmaSearcher::EstimateOneReg(Tv *work, Ti *workI,
             ? this->pChecks->MaxConditionNumber
             : INFINITY,
         StdMultiplier, false, count0 - this->pChecks->MinOutSim,
-        this->pData->Lambdas.size() == 0 ? nullptr : &this->pData->Lambdas);
+        Lambdas.size() == 0 ? nullptr : &Lambdas);
 
     if (Model.ValidCounts == 0)
       throw LdtException(ErrorType::kLogic, "varma-modelset",
-- 
2.43.0


From 0b07068afaeb53b1df14ddc5fa9f6b924c51d53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:58 +0000
Subject: [PATCH 44/67] fix: a cancelled evaluation of a regression in a search
 is not read

---
 src/ldt_statistics/modeling/linear/sur_modelset.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ldt_statistics/modeling/linear/sur_modelset.cpp b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
index b878ef8..1d76cad 100644
--- a/src/ldt_statistics/modeling/linear/sur_modelset.cpp
+++ b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
@@ -108,6 +108,10 @@ std::string SurSearcher::EstimateOneReg(Tv *work, Ti *workI,
         this->pMetrics->SimFixSize - this->pChecks->MinOutSim,
         Lambdas.size() == 0 ? nullptr : &Lambdas);
 
+    // the results might not be set
+    if (this->pOptions->RequestCancel)
+      return "";
+
     Ti j = (Ti)this->pMetrics->MetricsIn.size();
 
     auto ind = this->pMetrics->MetricOutIndices.at(ScoringType::kSign);
-- 
2.43.0


From f013c085dba4d4931c9eec28bd6bf2490e773378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:01 +0000
Subject: [PATCH 45/67] fix: a model set that cannot be built does not leak its
 searchers

---
 .../statistics/inference/models/discrete_choice.h |  2 ++
 .../discrete/discrete_choice_modelset.cpp         | 15 ++++++++-------
 .../modeling/linear/sur_modelset.cpp              | 11 ++++++-----
 .../modeling/time_series/varma/varma_modelset.cpp |  7 ++++---
 4 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/include/math/statistics/inference/models/discrete_choice.h b/include/math/statistics/inference/models/discrete_choice.h
index 317ef89..c56a1e2 100644
--- a/include/math/statistics/inference/models/discrete_choice.h
+++ b/include/math/statistics/inference/models/discrete_choice.h
@@ -643,6 +643,8 @@ public:
 template <bool hasWight, DiscreteChoiceModelType modelType>
 class LDT_EXPORT DiscreteChoiceModelset : public DiscreteChoiceModelsetBase {
 
+  DiscreteChoiceModelset(){};
+
 public:
   /// @brief
   /// @param options It is passed to the base class
diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index 11aa225..074697b 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -342,7 +342,8 @@ DiscreteChoiceModelset<hasWeight, modelType>::DiscreteChoiceModelset(
     SearchOptions &options, SearchItems &items, SearchMetricOptions &metrics,
     SearchModelChecks &checks, const Matrix<Tv> &source,
     std::vector<Matrix<Tv>> &costMatrixes, Newton &newtonOptions,
-    RocOptions &aucOptions, bool addLogit, bool addProbit) {
+    RocOptions &aucOptions, bool addLogit, bool addProbit)
+    : DiscreteChoiceModelset() { // if something fails, the destructor is called
 
   // find numChoices
   Ti r = 0;
@@ -441,20 +442,20 @@ DiscreteChoiceModelset<hasWeight, modelType>::DiscreteChoiceModelset(
                                         : (unsigned int)(metrics.Seed + co));
 
     if (addLogit) {
-      this->Searchers.push_back(
+      this->Searchers.push_back(nullptr);
+      this->Searchers.back() =
           new DiscreteChoiceSearcher<hasWeight, modelType,
                                      DiscreteChoiceDistType::kLogit>(
               data, combinations, options, items, metrics, checks, s, source,
-              this->mNumChoices, costMatrixes, seed, newtonOptions,
-              aucOptions));
+              this->mNumChoices, costMatrixes, seed, newtonOptions, aucOptions);
     }
     if (addProbit) {
-      this->Searchers.push_back(
+      this->Searchers.push_back(nullptr);
+      this->Searchers.back() =
           new DiscreteChoiceSearcher<hasWeight, modelType,
                                      DiscreteChoiceDistType::kProbit>(
               data, combinations, options, items, metrics, checks, s, source,
-              this->mNumChoices, costMatrixes, seed, newtonOptions,
-              aucOptions));
+              this->mNumChoices, costMatrixes, seed, newtonOptions, aucOptions);
     }
   }
 
diff --git a/src/ldt_statistics/modeling/linear/sur_modelset.cpp b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
index 1d76cad..9d2ec26 100644
--- a/src/ldt_statistics/modeling/linear/sur_modelset.cpp
+++ b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
@@ -177,7 +177,8 @@ SurModelset::SurModelset(const SearchData &data,
                          SearchOptions &options, SearchItems &items,
                          SearchMetricOptions &metrics,
                          SearchModelChecks &checks, Ti sigSearchMaxIter,
-                         Tv sigSearchMaxProb) {
+                         Tv sigSearchMaxProb)
+    : SurModelset() { // if something fails, the destructor is called
   metrics.Update(true, false);
   checks.Update(metrics);
   items.Update(metrics, items.LengthTargets, items.LengthEndogenous,
@@ -230,10 +231,10 @@ SurModelset::SurModelset(const SearchData &data,
                       : (unsigned int)(metrics.Seed < 0 ? -metrics.Seed
                                                         : (metrics.Seed + co));
       co++;
-      auto se = new SurSearcher(data, combinations, options, items, metrics,
-                                checks, s, e, data.Data, sigSearchMaxIter,
-                                sigSearchMaxProb, seed);
-      Searchers.push_back(se);
+      Searchers.push_back(nullptr);
+      Searchers.back() = new SurSearcher(
+          data, combinations, options, items, metrics, checks, s, e, data.Data,
+          sigSearchMaxIter, sigSearchMaxProb, seed);
     }
   }
 
diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
index 76089c2..fc3f662 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
@@ -313,7 +313,8 @@ VarmaModelset::VarmaModelset(const SearchData &data,
                              std::vector<Ti> varmaMaxParameters6,
                              Ti seasonCount, bool usePreviousEstim,
                              LimitedMemoryBfgsbOptions *optimOptions,
-                             Tv stdMultiplier, Ti maxHorizonCheck) {
+                             Tv stdMultiplier, Ti maxHorizonCheck)
+    : VarmaModelset() { // if something fails, the destructor is called
   metrics.Update(false, true);
   checks.Update(metrics);
   items.Update(metrics, items.LengthTargets, items.LengthEndogenous,
@@ -378,11 +379,11 @@ VarmaModelset::VarmaModelset(const SearchData &data,
                   auto vsizes = VarmaSizes(T, s, (Ti)exo.size(), p, d, q, P, D,
                                            Q, seasonCount, true);
 
-                  auto se = new VarmaSearcher(
+                  Searchers.push_back(nullptr);
+                  Searchers.back() = new VarmaSearcher(
                       data, combinations, options, items, metrics, checks, s,
                       source, vsizes, exo, optimOptions, stdMultiplier,
                       usePreviousEstim, maxHorizonCheck);
-                  Searchers.push_back(se);
                 }
               }
             }
-- 
2.43.0


From b972d4504e34367dcc24200be3a1d290505e3a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:37 +0000
Subject: [PATCH 46/67] fix: a search does not continue after an allocation
 failed while the results of a model were being saved

---
 include/math/statistics/inference/searchers.h       | 5 +++++
 src/ldt_statistics/modeling/search/searcher.cpp     | 8 ++++++++
 src/ldt_statistics/modeling/search/searcher_reg.cpp | 4 ++++
 3 files changed, 17 insertions(+)

diff --git a/include/math/statistics/inference/searchers.h b/include/math/statistics/inference/searchers.h
index e9302b2..66dc832 100644
--- a/include/math/statistics/inference/searchers.h
+++ b/include/math/statistics/inference/searchers.h
@@ -414,6 +414,11 @@ protected:
   /// @brief An integer for adjusting the value of \ref CurrentIndices
   bool CheckForEmpty;
 
+  /// @brief True while the results of a model are being pushed. The summaries
+  /// contain a part of these results and the search cannot continue if this
+  /// stops by an allocation failure.
+  bool mIsSaving = false;
+
   /// @brief Number of selected partitions
   Ti NumPartitions = 0;
 
diff --git a/src/ldt_statistics/modeling/search/searcher.cpp b/src/ldt_statistics/modeling/search/searcher.cpp
index aff5b08..641ddb0 100644
--- a/src/ldt_statistics/modeling/search/searcher.cpp
+++ b/src/ldt_statistics/modeling/search/searcher.cpp
@@ -150,6 +150,10 @@ std::string Searcher::Start(Tv *work, Ti *workI) {
     try {
       UpdateCurrent(); // e.g., update 0,0,0
       AddState(EstimateOne(work, workI));
+    } catch (std::bad_alloc &ex) {
+      if (mIsSaving)
+        throw; // a part of the results is already saved
+      AddState(std::string(ex.what()));
     } catch (std::exception &ex) {
       AddState(std::string(ex.what()));
     } catch (std::string &ex) {
@@ -175,6 +179,10 @@ std::string Searcher::Start(Tv *work, Ti *workI) {
                     // CheckForEmpty member.
 
         AddState(EstimateOne(work, workI));
+      } catch (std::bad_alloc &ex) {
+        if (mIsSaving)
+          throw;
+        AddState(std::string(ex.what()));
       } catch (std::exception &ex) {
         AddState(std::string(ex.what()));
       } catch (std::string &ex) {
diff --git a/src/ldt_statistics/modeling/search/searcher_reg.cpp b/src/ldt_statistics/modeling/search/searcher_reg.cpp
index 98c47b4..4cd8d58 100644
--- a/src/ldt_statistics/modeling/search/searcher_reg.cpp
+++ b/src/ldt_statistics/modeling/search/searcher_reg.cpp
@@ -61,6 +61,8 @@ SearcherReg::SearcherReg(const SearchData &data,
 
 std::string SearcherReg::EstimateOne(Tv *work, Ti *workI) {
 
+  mIsSaving = false;
+
   // update column and inner indices based on current indices
 
   if (IsInnerExogenous) {
@@ -117,6 +119,7 @@ std::string SearcherReg::EstimateOne(Tv *work, Ti *workI) {
   // push:
   Ti i, j;
   bool allNan = true;
+  mIsSaving = true;
   for (i = 0; i < metrics.Mat.RowsCount; i++) { // metric index
     for (j = 0; j < metrics.Mat.ColsCount; j++) {
 
@@ -184,6 +187,7 @@ std::string SearcherReg::EstimateOne(Tv *work, Ti *workI) {
     }
   }
 
+  mIsSaving = false;
   if (allNan) {
     throw LdtException(
         ErrorType::kLogic, "searcher-reg",
-- 
2.43.0


From d364130eb0ad3e7b2f053ba7144bed7e9e61a46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:59 +0000
Subject: [PATCH 47/67] fix: weighted evaluation is not ignored in the search
 of discrete choice models

---
 Rpackage/src/r_dc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/src/r_dc.cpp b/Rpackage/src/r_dc.cpp
index 660a793..05f214a 100644
--- a/Rpackage/src/r_dc.cpp
+++ b/Rpackage/src/r_dc.cpp
@@ -50,7 +50,7 @@ SEXP SearchDc(List data, List combinations, List metrics, List modelChecks,
 
   UpdateOptions(items, metrics, modelChecks, metrics_, items_, checks_,
                 metricsNames, length1, data_.NumExo, combinations_.NumTargets,
-                data_.NumEndo, false, true, "Coefficients", false);
+                data_.NumEndo, false, true, "Coefficients", true);
 
   auto targetNames = std::vector<std::string>(
       colNames.begin(), colNames.begin() + items_.LengthTargets);
-- 
2.43.0


From db987c678c98e9b716422be8bdcd50dc48aa0a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:41 +0000
Subject: [PATCH 48/67] fix: keep new failure messages when combining the steps
 of a search

combine.search computed the position of a message that the first steps did
not have, but never stored it: the failures of later steps were missing.
---
 Rpackage/R/steps.R | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Rpackage/R/steps.R b/Rpackage/R/steps.R
index e00ca4e..53ea959 100644
--- a/Rpackage/R/steps.R
+++ b/Rpackage/R/steps.R
@@ -147,6 +147,7 @@ combine.search <- function(list, method) {
 
       if (added == FALSE){
         ind <- length(result$counts$failedDetails) + 1
+        result$counts$failedDetails[[ind]] <- f
       }
     }
 
-- 
2.43.0


From ff573b82d5213f695bfe056dbd72ea81e73a6bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:41 +0000
Subject: [PATCH 49/67] fix: keep bestK best models when combining the steps of
 a search

The list was cut to the number of models of the first step, which may have
fewer than bestK models, so better models of later steps were dropped.
---
 Rpackage/R/steps.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/steps.R b/Rpackage/R/steps.R
index 53ea959..7820061 100644
--- a/Rpackage/R/steps.R
+++ b/Rpackage/R/steps.R
@@ -179,7 +179,7 @@ combine.search <- function(list, method) {
           result$results[ids] <- NA
           bms <- append(current_best_models, nbm)
           nbms <- bms[order(sapply(bms, function(b) b$value$metric),
-                            decreasing = is_pos_oriented)][1:length(ids)]
+                            decreasing = is_pos_oriented)][1:min(list[[1]]$info$items$bestK,length(bms))]
           for (k in 1:length(nbms)) #update info
             nbms[[k]]$info <- k-1
           to_be_added[[length(to_be_added) + 1]] <- nbms
-- 
2.43.0


From 4369bdfea0ad36c9a43e073c97ee1caf126e71a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:41 +0000
Subject: [PATCH 50/67] fix: a step without any weight must not turn the
 combined CDF into NaN

---
 Rpackage/R/steps.R | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Rpackage/R/steps.R b/Rpackage/R/steps.R
index 7820061..e471ad2 100644
--- a/Rpackage/R/steps.R
+++ b/Rpackage/R/steps.R
@@ -52,14 +52,16 @@ combine.search <- function(list, method) {
     # assuming columns are: mean, count, weights
     firstNames <- rownames(first)
     secondNames <- rownames(second)
-    first[, 1] <- first[, 1] * first[, 3] # convert first column to weighted sum
+    weighted_sum <- function(m) ifelse(m[, 3] == 0, 0, m[, 1] * m[, 3]) # no mean without any weight
+    first[, 1] <- weighted_sum(first) # convert first column to weighted sum
+    second_sum <- weighted_sum(second)
     j <- 0
     for (n in secondNames) {
       j <- j + 1
       ind <- which(n == firstNames)
       if (length(ind) > 0) {
         ind <- ind[[1]]
-        first[[ind, 1]] <- first[[ind, 1]] + second[[j, 1]] * second[[j, 3]]
+        first[[ind, 1]] <- first[[ind, 1]] + second_sum[[j]]
         first[[ind, 2]] <- first[[ind, 2]] + second[[j, 2]]
         first[[ind, 3]] <- first[[ind, 3]] + second[[j, 3]]
       }
-- 
2.43.0


From 7bbc026d4bb110ac69fed69d4612bf309d26a493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:41 +0000
Subject: [PATCH 51/67] fix: combining steps where there is no item of a type

'sapply' returns a list for an empty list and 'which' raises an error.
---
 Rpackage/R/steps.R | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/Rpackage/R/steps.R b/Rpackage/R/steps.R
index e471ad2..1115bc5 100644
--- a/Rpackage/R/steps.R
+++ b/Rpackage/R/steps.R
@@ -21,6 +21,9 @@ combine.search <- function(list, method) {
   else if (length(list) == 1)
     return(list[[1]])
 
+  # 'sapply' returns a list if there is no item
+  which_items <- function(items, condition) which(as.logical(sapply(items, condition)))
+
   cmb_inclusion <- function(A1, A2) {
 
     if(any((is.na(A1[, 1]) | is.nan(A1[, 1])) & A1[, 2] != 0) |
@@ -153,12 +156,12 @@ combine.search <- function(list, method) {
       }
     }
 
-    new_best_models <- newR$results[which(sapply(newR$results, function(item) item$typeName == "best model"))]
-    new_best_coefs <-newR$results[which(sapply(newR$results, function(item) startsWith(item$typeName, "best item for")))]
-    new_inclusions <- newR$results[which(sapply(newR$results, function(item) item$typeName == "inclusion"))]
-    new_cdfs <- newR$results[which(sapply(newR$results, function(item) item$typeName == "cdf"))]
-    new_mixtures <- newR$results[which(sapply(newR$results, function(item) item$typeName == "mixture"))]
-    new_extremebounds <- newR$results[which(sapply(newR$results, function(item) item$typeName == "extreme bound"))]
+    new_best_models <- newR$results[which_items(newR$results, function(item) item$typeName == "best model")]
+    new_best_coefs <-newR$results[which_items(newR$results, function(item) startsWith(item$typeName, "best item for"))]
+    new_inclusions <- newR$results[which_items(newR$results, function(item) item$typeName == "inclusion")]
+    new_cdfs <- newR$results[which_items(newR$results, function(item) item$typeName == "cdf")]
+    new_mixtures <- newR$results[which_items(newR$results, function(item) item$typeName == "mixture")]
+    new_extremebounds <- newR$results[which_items(newR$results, function(item) item$typeName == "extreme bound")]
 
     dealt_with <- list()
     to_be_added <- list()
@@ -174,8 +177,8 @@ combine.search <- function(list, method) {
 
       if (item$typeName == "best model"){
         if (item$info == 0 && !eval_target_type %in% dealt_with){
-          nbm <- new_best_models[which(sapply(new_best_models, function(new_item) item$evalName == new_item$evalName && item$targetName == new_item$targetName))]
-          ids <- which(sapply(result$results, function(new_item) length(new_item) != 1 && new_item$typeName == item$typeName && item$evalName == new_item$evalName && item$targetName == new_item$targetName))
+          nbm <- new_best_models[which_items(new_best_models, function(new_item) item$evalName == new_item$evalName && item$targetName == new_item$targetName)]
+          ids <- which_items(result$results, function(new_item) length(new_item) != 1 && new_item$typeName == item$typeName && item$evalName == new_item$evalName && item$targetName == new_item$targetName)
 
           current_best_models <- result$results[ids]
           result$results[ids] <- NA
@@ -193,8 +196,8 @@ combine.search <- function(list, method) {
 
       if (startsWith(item$typeName, "best item for")){
         if (item$info == 0 && !eval_target_type %in% dealt_with){
-          nbm <- new_best_coefs[which(sapply(new_best_coefs, function(new_item) item$evalName == new_item$evalName && item$targetName == new_item$targetName && item$typeName == new_item$typeName))]
-          ids <- which(sapply(result$results, function(new_item) length(new_item) != 1 && new_item$typeName == item$typeName && item$evalName == new_item$evalName && item$targetName == new_item$targetName))
+          nbm <- new_best_coefs[which_items(new_best_coefs, function(new_item) item$evalName == new_item$evalName && item$targetName == new_item$targetName && item$typeName == new_item$typeName)]
+          ids <- which_items(result$results, function(new_item) length(new_item) != 1 && new_item$typeName == item$typeName && item$evalName == new_item$evalName && item$targetName == new_item$targetName)
 
           current_best_coefs <- result$results[ids]
           result$results[ids] <- NA
@@ -210,38 +213,38 @@ combine.search <- function(list, method) {
       }
 
       if (item$typeName == "inclusion"){
-        nbm <- new_inclusions[which(sapply(new_inclusions, function(new_item) item$evalName == new_item$evalName && item$targetName == new_item$targetName))]
+        nbm <- new_inclusions[which_items(new_inclusions, function(new_item) item$evalName == new_item$evalName && item$targetName == new_item$targetName)]
         if (length(nbm) == 1)
           result$results[[j]]$value <- cmb_inclusion(item$value, nbm[[1]]$value)
       }
 
       if (item$typeName == "cdf"){
-        nbm <- new_cdfs[which(sapply(new_cdfs, function(new_item) item$evalName == new_item$evalName && item$targetName == new_item$targetName && item$info == new_item$info))]
+        nbm <- new_cdfs[which_items(new_cdfs, function(new_item) item$evalName == new_item$evalName && item$targetName == new_item$targetName && item$info == new_item$info)]
         if (length(nbm) == 1)
           result$results[[j]]$value <- cmb_cdf(item$value, nbm[[1]]$value)
       }
 
       if (item$typeName == "extreme bound"){
-        nbm <- new_extremebounds[which(sapply(new_extremebounds, function(new_item) item$evalName == new_item$evalName && item$targetName == new_item$targetName && item$info == new_item$info))]
+        nbm <- new_extremebounds[which_items(new_extremebounds, function(new_item) item$evalName == new_item$evalName && item$targetName == new_item$targetName && item$info == new_item$info)]
         if (length(nbm) == 1)
           result$results[[j]]$value <- cmb_extremebound(item$value, nbm[[1]]$value)
       }
 
       if (item$typeName == "mixture"){
-        nbm <- new_mixtures[which(sapply(new_mixtures, function(new_item) item$evalName == new_item$evalName && item$targetName == new_item$targetName))]
+        nbm <- new_mixtures[which_items(new_mixtures, function(new_item) item$evalName == new_item$evalName && item$targetName == new_item$targetName)]
         if (length(nbm) == 1)
           result$results[[j]]$value <- cmb_mixture(item$value, nbm[[1]]$value)
       }
 
     }
 
-    result$results <- result$results[which(sapply(result$results, function(r)length(r) != 1))]
+    result$results <- result$results[which_items(result$results, function(r)length(r) != 1)]
     for (a in to_be_added)
       result$results <- append(result$results, a)
 
 
     # Add All (if this affects performance, we can move it to after the loop.)
-    newModels <- newR$results[which(sapply(newR$results, function(item) item$typeName == "model"))]
+    newModels <- newR$results[which_items(newR$results, function(item) item$typeName == "model")]
     result$results <- c(result$results, newModels)
 
   }
-- 
2.43.0


From 83c5935e348796558014c983d758444529220c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:41 +0000
Subject: [PATCH 52/67] fix: keep items which exist only in later steps of a
 search

Best items of a coefficient or metric that the first step could not evaluate
were dropped from the combined result.
---
 Rpackage/R/steps.R | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Rpackage/R/steps.R b/Rpackage/R/steps.R
index 1115bc5..e89e225 100644
--- a/Rpackage/R/steps.R
+++ b/Rpackage/R/steps.R
@@ -242,6 +242,14 @@ combine.search <- function(list, method) {
     for (a in to_be_added)
       result$results <- append(result$results, a)
 
+    # Add items which are present only in the new object
+    item_key <- function(item) paste0(item$evalName, "_", item$targetName, "_", item$typeName,
+                                      ifelse(item$typeName %in% c("cdf", "extreme bound"), item$info, ""))
+    current_keys <- sapply(result$results, item_key)
+    result$results <- c(result$results,
+                        newR$results[which_items(newR$results, function(item) item$typeName != "model" &&
+                                                   !(item_key(item) %in% current_keys))])
+
 
     # Add All (if this affects performance, we can move it to after the loop.)
     newModels <- newR$results[which_items(newR$results, function(item) item$typeName == "model")]
-- 
2.43.0


From d2224725f72a01e34d280960361836754f6f6bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:41 +0000
Subject: [PATCH 53/67] fix: name of the weight column in step-wise searches

'names' is the base function, so every step-wise search with weights failed.
---
 Rpackage/R/steps.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/steps.R b/Rpackage/R/steps.R
index e89e225..4b8b57f 100644
--- a/Rpackage/R/steps.R
+++ b/Rpackage/R/steps.R
@@ -411,7 +411,7 @@ search.steps <- function(method, isInnerExogenous, ...) {
     pre_exo_names <- exo_names_i
 
     if (dots$data$hasWeight) # insert weights
-      names_i <- append(names, "(Weights)", after = length(endo_names_i))
+      names_i <- c(endo_names_i, "(Weights)", exo_names_i)
     indices_i <- match(names_i, colnames(data_i$data))
     if (any(is.na(indices_i)))
       stop("A selected variable is not present in the 'data'!")
-- 
2.43.0


From 74cc8038283eab09ed53f7b4caffde95e69684e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:41 +0000
Subject: [PATCH 54/67] fix: do not leave a damaged file when saving a step
 fails

A write error left a part of the file under its final name, and the next run
could load it. Write a temporary file and rename it.
---
 Rpackage/R/steps.R | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Rpackage/R/steps.R b/Rpackage/R/steps.R
index 4b8b57f..9c4e958 100644
--- a/Rpackage/R/steps.R
+++ b/Rpackage/R/steps.R
@@ -472,7 +472,10 @@ search.steps <- function(method, isInnerExogenous, ...) {
     }
 
     if (is.null(savePre) == FALSE) {
-      saveRDS(estims[[i]], paste0(savePre, i, ".RData"))
+      # use a temporary file, so that an error does not leave a damaged file for the next run
+      saveRDS(estims[[i]], paste0(savePre, i, ".RData.tmp"))
+      if (!file.rename(paste0(savePre, i, ".RData.tmp"), paste0(savePre, i, ".RData")))
+        stop("saving the result of step ", i, " failed")
       print(paste0("Data saved: ", file.path(getwd(), paste0(savePre, i, ".RData"))))
     }
 
-- 
2.43.0


From c9d007c76a998b27a20d6b2dafd886e0eef8276a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:41 +0000
Subject: [PATCH 55/67] fix: combine a group without any variance

The skewness and kurtosis of such a group are not defined, so the whole group
(its mean, weight and count) was skipped.
---
 include/math/statistics/running.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/statistics/running.h b/include/math/statistics/running.h
index db99ead..0863028 100644
--- a/include/math/statistics/running.h
+++ b/include/math/statistics/running.h
@@ -171,7 +171,7 @@ public:
     }
 
     if constexpr (moments >= 3) {
-      m3 = m2 * sqrt(var) * skew;
+      m3 = m2 == 0 ? 0 : m2 * sqrt(var) * skew; // (undefined skewness)
       if constexpr (skipNAN) {
         if (std::isnan(m3))
           return;
@@ -179,7 +179,7 @@ public:
     }
 
     if constexpr (moments == 4) {
-      m4 = (kurt + 3) * var * m2;
+      m4 = m2 == 0 ? 0 : (kurt + 3) * var * m2;
       if constexpr (skipNAN) {
         if (std::isnan(m4))
           return;
-- 
2.43.0


From 47325c0661a60474e3489346b99152c486205829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:41 +0000
Subject: [PATCH 56/67] fix: protect R objects while the results of a search
 are built

The parts of an item and the names of a matrix were not protected from the
garbage collector of R: a collection at one of the next allocations damaged
the result or crashed the session.
---
 Rpackage/src/r_ldt.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Rpackage/src/r_ldt.cpp b/Rpackage/src/r_ldt.cpp
index c689171..dba0d53 100644
--- a/Rpackage/src/r_ldt.cpp
+++ b/Rpackage/src/r_ldt.cpp
@@ -317,7 +317,7 @@ NumericMatrix as_matrix(const ldt::Matrix<double> &mat,
       throw LdtException(ErrorType::kLogic, "R-ldt",
                          std::string("invalid number of rows/row_names."));
     }
-    rownames(res) = wrap(rowNames);
+    rownames(res) = CharacterVector(rowNames.begin(), rowNames.end());
   }
   if (colNames.size() > 0) {
     if ((int)colNames.size() != mat.ColsCount) {
@@ -327,7 +327,7 @@ NumericMatrix as_matrix(const ldt::Matrix<double> &mat,
       throw LdtException(ErrorType::kLogic, "R-ldt",
                          std::string("invalid number of columns/col_names."));
     }
-    colnames(res) = wrap(colNames);
+    colnames(res) = CharacterVector(colNames.begin(), colNames.end());
   }
   return res;
 }
@@ -356,7 +356,7 @@ IntegerMatrix as_imatrix(const ldt::Matrix<int> &mat,
       throw LdtException(ErrorType::kLogic, "R-ldt",
                          std::string("invalid number of rows/row_names."));
     }
-    rownames(res) = wrap(rowNames);
+    rownames(res) = CharacterVector(rowNames.begin(), rowNames.end());
   }
   if (colNames.size() > 0) {
     if ((int)colNames.size() != mat.ColsCount) {
@@ -364,7 +364,7 @@ IntegerMatrix as_imatrix(const ldt::Matrix<int> &mat,
       throw LdtException(ErrorType::kLogic, "R-ldt",
                          std::string("invalid number of columns/col_names."));
     }
-    colnames(res) = wrap(colNames);
+    colnames(res) = CharacterVector(colNames.begin(), colNames.end());
   }
   return res;
 }
@@ -460,7 +460,7 @@ add_CoefInfo(const std::string &eName, const std::string &tName,
   for (auto &b : list) {
     j++;
 
-    std::vector<SEXP> value;
+    std::vector<RObject> value; // (protected)
     std::vector<std::string> names;
 
     value.push_back(wrap(b->Metric));
-- 
2.43.0


From 4308fb3a1b3ebf08ee22e7fac4da2f18e1ec8cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:14 +0000
Subject: [PATCH 57/67] fix: keep the last error message per thread

---
 include/api.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/api.h b/include/api.h
index e951556..feb9de0 100644
--- a/include/api.h
+++ b/include/api.h
@@ -9,7 +9,7 @@
 #define LDT_C_EXPORT extern "C" LDT_EXPORT
 // #pragma region Exception
 
-static char LastErrorMsg[2048] = ""; // thread_local?
+static thread_local char LastErrorMsg[2048] = ""; // of the calling thread
 
 LDT_C_EXPORT void LDT_GetLastError(char *buffer);
 
-- 
2.43.0


From 976fcce15af87f7ea4d8f2124ce957ce1ac512f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:14 +0000
Subject: [PATCH 58/67] fix: copy the items of a list frequency with the
 frequency

---
 src/api.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/api.cpp b/src/api.cpp
index 0585580..a416dcc 100644
--- a/src/api.cpp
+++ b/src/api.cpp
@@ -78,6 +78,22 @@ std::vector<double *> *LDT_CombineDistribution103(std::vector<double *> *dists,
 
 // #pragma region Frequency
 
+/// @brief Copies a frequency. The items of a list belong to the object that
+/// holds them (see \ref LDT_DisposeFrequency), therefore they are copied too
+static std::unique_ptr<ldt::Frequency> copyFrequency(const ldt::Frequency &f) {
+  auto newf = f.Clone();
+  if (auto l1 = dynamic_cast<ldt::FrequencyList<std::string> *>(newf.get())) {
+    if (l1->pItems)
+      l1->pItems = new std::vector<std::string>(*l1->pItems);
+  } else if (auto l2 =
+                 dynamic_cast<ldt::FrequencyList<boost::gregorian::date> *>(
+                     newf.get())) {
+    if (l2->pItems)
+      l2->pItems = new std::vector<boost::gregorian::date>(*l2->pItems);
+  }
+  return newf;
+}
+
 ldt::Frequency *LDT_FrequencyCreate(const char *str, const char *classStr,
                                     int &freqClass) {
   API_BEGIN()
@@ -125,8 +141,7 @@ ldt::Frequency *LDT_FrequencyCreate(const char *str, const char *classStr,
 ldt::Frequency *LDT_FrequencyCopy(ldt::Frequency *f) {
   API_BEGIN()
 
-  auto newf = f->Clone();
-  return newf.release();
+  return copyFrequency(*f).release();
 
   API_END()
   return nullptr;
@@ -252,10 +267,7 @@ ldt::Frequency *LDT_VariableCombine(double *data1, int dataLength1,
                                   // select it unless it is NAN
   }
 
-  auto f = vs.StartFrequency.get();
-  vs.StartFrequency.release();
-
-  return f;
+  return copyFrequency(*vs.StartFrequency).release();
 
   API_END()
 
-- 
2.43.0


From fae172183ae1e5bff8d90ee012805455a65a87d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:14 +0000
Subject: [PATCH 59/67] fix: dispose a list frequency without copying it

---
 src/api.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/api.cpp b/src/api.cpp
index a416dcc..a26237b 100644
--- a/src/api.cpp
+++ b/src/api.cpp
@@ -203,11 +203,12 @@ void LDT_DisposeFrequency(ldt::Frequency *f) {
 
   if (f != NULL) {
     if (f->mClass == ldt::FrequencyClass::kListString) {
-      auto fList = dynamic_cast<ldt::FrequencyList<std::string> const &>(*f);
+      auto const &fList =
+          dynamic_cast<ldt::FrequencyList<std::string> const &>(*f);
       if (fList.pItems)
         delete fList.pItems;
     } else if (f->mClass == ldt::FrequencyClass::kListDate) {
-      auto fList =
+      auto const &fList =
           dynamic_cast<ldt::FrequencyList<boost::gregorian::date> const &>(*f);
       if (fList.pItems)
         delete fList.pItems;
-- 
2.43.0


From a29449895b6489035eba2a2c5c660444836ef83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:14 +0000
Subject: [PATCH 60/67] fix: release a list frequency that could not be created

---
 src/api.cpp | 37 +++++++++++++------------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/src/api.cpp b/src/api.cpp
index a26237b..8acc6e0 100644
--- a/src/api.cpp
+++ b/src/api.cpp
@@ -104,32 +104,21 @@ ldt::Frequency *LDT_FrequencyCreate(const char *str, const char *classStr,
   auto f = ldt::Frequency::Parse(str0, str1, fClass);
   freqClass = (int)fClass;
   if (fClass == ldt::FrequencyClass::kListString) {
-    auto fList = new ldt::FrequencyList<std::string>("", nullptr);
-    auto items = new std::vector<std::string>();
-    try {
-      ldt::FrequencyList<std::string>::Parse0(str0, str1, fClass, *fList,
-                                              items);
-    } catch (...) {
-      delete fList;
-      delete items;
-      throw;
-    }
-    fList->pItems = items;
-    return fList;
+    auto fList = std::make_unique<ldt::FrequencyList<std::string>>(
+        "", nullptr);
+    auto items = std::make_unique<std::vector<std::string>>();
+    ldt::FrequencyList<std::string>::Parse0(str0, str1, fClass, *fList,
+                                            items.get());
+    fList->pItems = items.release();
+    return fList.release();
   } else if (fClass == ldt::FrequencyClass::kListDate) {
-    auto fList = new ldt::FrequencyList<boost::gregorian::date>(
+    auto fList = std::make_unique<ldt::FrequencyList<boost::gregorian::date>>(
         boost::gregorian::date(), nullptr);
-    auto items = new std::vector<boost::gregorian::date>();
-    try {
-      ldt::FrequencyList<boost::gregorian::date>::Parse0(str0, str1, fClass,
-                                                         *fList, items);
-    } catch (...) {
-      delete fList;
-      delete items;
-      throw;
-    }
-    fList->pItems = items;
-    return fList;
+    auto items = std::make_unique<std::vector<boost::gregorian::date>>();
+    ldt::FrequencyList<boost::gregorian::date>::Parse0(str0, str1, fClass,
+                                                       *fList, items.get());
+    fList->pItems = items.release();
+    return fList.release();
   } else {
     return f.release();
   }
-- 
2.43.0


From 21062e7362d61adfdcc30c5f459de3ce0f279716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:14 +0000
Subject: [PATCH 61/67] fix: compare list dates by distance, also out of the
 list

---
 src/frequency/f_list.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/frequency/f_list.cpp b/src/frequency/f_list.cpp
index 9072f5d..e944e95 100644
--- a/src/frequency/f_list.cpp
+++ b/src/frequency/f_list.cpp
@@ -51,13 +51,11 @@ template <typename T> void FrequencyList<T>::Next(Ti steps) {
 }
 
 template <typename T> Ti FrequencyList<T>::CompareTo(Frequency const &other) {
-  CheckClassEquality(*this, other);
-  auto second = dynamic_cast<FrequencyList<T> const &>(other);
-  auto i1 = GetIndex();
-  auto i2 = second.GetIndex();
-  if (i1 > i2)
+  // an out-item has a distance, but no index
+  auto distance = Minus(other);
+  if (distance > 0)
     return 1;
-  else if (i1 < i2)
+  else if (distance < 0)
     return -1;
   return 0;
 }
-- 
2.43.0


From 6568a6b9ce36397eee1970d6453a1b570cbeaeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:14 +0000
Subject: [PATCH 62/67] fix: length of a range of one day

---
 src/frequency/f_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frequency/f_base.cpp b/src/frequency/f_base.cpp
index 55d4f3d..97c1c4d 100644
--- a/src/frequency/f_base.cpp
+++ b/src/frequency/f_base.cpp
@@ -230,7 +230,7 @@ DayOfWeekRange::DayOfWeekRange(DayOfWeek start, DayOfWeek end) {
 Ti DayOfWeekRange::GetLength() const {
   Ti start = (Ti)mStart;
   Ti end = (Ti)mEnd;
-  if (end > start)
+  if (end >= start)
     return (Ti)end - start + 1;
   else
     return 7 - (start - end) + 1;
-- 
2.43.0


From 83d933f4584351d943b58888e1a017e76a953939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:49 +0000
Subject: [PATCH 63/67] fix: hierarchical clustering works on a copy of the
 caller's distances

---
 Rpackage/src/r_clustering.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Rpackage/src/r_clustering.cpp b/Rpackage/src/r_clustering.cpp
index 2b61f8a..79cdfd9 100644
--- a/Rpackage/src/r_clustering.cpp
+++ b/Rpackage/src/r_clustering.cpp
@@ -46,7 +46,9 @@ List ClusterH(NumericVector distances, std::string linkage) {
   HClusterLinkage linkage0 = FromString_HClusterLinkage(linkage.c_str());
 
   auto cluster = HClusterBase::GetFromType(linkage0, numVariables);
-  auto mdistances = MatrixSym<false>(&distances[0], numVariables);
+  // clustering overwrites the distances, which belong to the caller
+  auto distances0 = std::vector<double>(distances.begin(), distances.end());
+  auto mdistances = MatrixSym<false>(distances0.data(), numVariables);
   cluster->Calculate(mdistances);
 
   // lets send similar output to R
-- 
2.43.0


From 8142cf8fd6312f3ba210d4c9f4874717c2113c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:49 +0000
Subject: [PATCH 64/67] fix: the option 'pessimistic' of ROC reaches the
 calculation

---
 Rpackage/src/r_ldt.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Rpackage/src/r_ldt.cpp b/Rpackage/src/r_ldt.cpp
index dba0d53..592c122 100644
--- a/Rpackage/src/r_ldt.cpp
+++ b/Rpackage/src/r_ldt.cpp
@@ -273,6 +273,7 @@ void UpdateRocOptions(List &rocOptionsR, RocOptions &options) {
   options.LowerThreshold = as<double>(rocOptionsR["lowerThreshold"]);
   options.UpperThreshold = as<double>(rocOptionsR["upperThreshold"]);
   options.Epsilon = as<double>(rocOptionsR["epsilon"]);
+  options.Pessimistic = as<bool>(rocOptionsR["pessimistic"]);
 
   if (rocOptionsR["costs"] != R_NilValue) {
     auto costs0 = as<NumericVector>(rocOptionsR["costs"]);
-- 
2.43.0


From 2eec231a56c7d8b4d15a6c6ac3b49dbfdb563ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:49 +0000
Subject: [PATCH 65/67] fix: estim.sur keeps a coerced restriction matrix while
 it is used

---
 Rpackage/src/r_sur.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Rpackage/src/r_sur.cpp b/Rpackage/src/r_sur.cpp
index a399f6c..163d67d 100644
--- a/Rpackage/src/r_sur.cpp
+++ b/Rpackage/src/r_sur.cpp
@@ -91,8 +91,9 @@ SEXP EstimSur(List data, int searchSigMaxIter, double searchSigMaxProb,
   // Restrictions
   bool hasR = restriction != R_NilValue;
   ldt::Matrix<double> restriction_;
+  NumericMatrix rest0; // keeps a coerced matrix alive
   if (hasR) {
-    auto rest0 = as<NumericMatrix>(restriction);
+    rest0 = as<NumericMatrix>(restriction);
     restriction_.SetData(&rest0[0], rest0.nrow(), rest0.ncol());
   }
 
-- 
2.43.0


From 7ad7b4deb350856ce3b36f06d46d3a3ba8dd22ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:49 +0000
Subject: [PATCH 66/67] fix: coerced cost matrices stay alive while they are
 used

---
 Rpackage/src/r_dc.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Rpackage/src/r_dc.cpp b/Rpackage/src/r_dc.cpp
index 05f214a..a89ce9f 100644
--- a/Rpackage/src/r_dc.cpp
+++ b/Rpackage/src/r_dc.cpp
@@ -5,7 +5,8 @@ using namespace Rcpp;
 using namespace ldt;
 
 void getCostMatrices(SEXP costMatricesR,
-                     std::vector<ldt::Matrix<double>> &costMatrices) {
+                     std::vector<ldt::Matrix<double>> &costMatrices,
+                     std::vector<NumericMatrix> &keepAlive) {
   if (costMatricesR != R_NilValue) {
     if (is<List>(costMatricesR) == false)
       throw LdtException(ErrorType::kLogic, "R-dc",
@@ -14,6 +15,7 @@ void getCostMatrices(SEXP costMatricesR,
     List cms = as<List>(costMatricesR);
     for (int i = 0; i < cms.length(); i++) {
       NumericMatrix m = as<NumericMatrix>(cms[i]);
+      keepAlive.push_back(m); // it might be a coerced matrix
       costMatrices.push_back(ldt::Matrix<double>(&m[0], m.nrow(), m.ncol()));
     }
   }
@@ -65,7 +67,8 @@ SEXP SearchDc(List data, List combinations, List metrics, List modelChecks,
         "model set is empty. Choose 'Logit' or 'Probit' or both");
 
   std::vector<ldt::Matrix<double>> costMatrices_;
-  getCostMatrices(costMatrices, costMatrices_);
+  std::vector<NumericMatrix> costMatrices0;
+  getCostMatrices(costMatrices, costMatrices_, costMatrices0);
 
   ldt::RocOptions roc_;
   UpdateRocOptions(aucOptions, roc_);
@@ -146,7 +149,8 @@ SEXP EstimDc(List data, std::string linkFunc, SEXP pcaOptionsX,
     labelNames.push_back(std::string("Y=") + std::to_string(i));
 
   std::vector<ldt::Matrix<double>> costMatrices_;
-  getCostMatrices(costMatrices, costMatrices_);
+  std::vector<NumericMatrix> costMatrices0;
+  getCostMatrices(costMatrices, costMatrices_, costMatrices0);
 
   ldt::RocOptions roc_;
   UpdateRocOptions(aucOptions, roc_);
-- 
2.43.0


From 2c5a7a4e4e404c730c53604979fb3e785038aeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:49 +0000
Subject: [PATCH 67/67] fix: coerced costs of ROC options stay alive while they
 are used

---
 Rpackage/src/r_ldt.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Rpackage/src/r_ldt.cpp b/Rpackage/src/r_ldt.cpp
index 592c122..a1f0aa1 100644
--- a/Rpackage/src/r_ldt.cpp
+++ b/Rpackage/src/r_ldt.cpp
@@ -280,6 +280,10 @@ void UpdateRocOptions(List &rocOptionsR, RocOptions &options) {
     auto costMatrix0 = as<NumericMatrix>(rocOptionsR["costMatrix"]);
     options.Costs.SetData(&costs0[0], costs0.length(), 1);
     options.CostMatrix.SetData(&costMatrix0[0], 2, 2);
+    // keep coerced values alive as long as the caller's list
+    rocOptionsR = List(Rf_shallow_duplicate(rocOptionsR));
+    rocOptionsR["costs"] = costs0;
+    rocOptionsR["costMatrix"] = costMatrix0;
   }
 }
 
-- 
2.43.0

