From 140da9ac143f6b83d8a1bdacf12fb19fa9f0815c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:56 +0000
Subject: [PATCH 01/11] fix: bpref is NaN when a query has no judged
 non-relevant documents

---
 src/metrics/bpref.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/metrics/bpref.rs b/src/metrics/bpref.rs
index a8143bc..0afaa6e 100644
--- a/src/metrics/bpref.rs
+++ b/src/metrics/bpref.rs
@@ -22,7 +22,13 @@ where
     for pred in sorted_preds {
         if let Some(&rel) = trues.get(&pred.doc_id) {
             if rel >= rel_lvl {
-                bpref += 1.0 - n_non_rels_so_far.min(n_rels) / n_non_rels.min(n_rels);
+                // The penalty is zero if no irrelevant document is ranked above,
+                // which also avoids 0/0 when there is no irrelevant document.
+                if n_non_rels_so_far == 0.0 {
+                    bpref += 1.0;
+                } else {
+                    bpref += 1.0 - n_non_rels_so_far.min(n_rels) / n_non_rels.min(n_rels);
+                }
             } else {
                 n_non_rels_so_far += 1.0;
             }
-- 
2.43.0


From 3a99abd68f13bc855e4df99de1674e3fda0520af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:56 +0000
Subject: [PATCH 02/11] fix: F1 is NaN when a query has no relevant documents

---
 src/metrics/f1.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/metrics/f1.rs b/src/metrics/f1.rs
index 73d29de..80fb74d 100644
--- a/src/metrics/f1.rs
+++ b/src/metrics/f1.rs
@@ -19,9 +19,13 @@ where
     if k == 0 {
         return 0.0;
     }
+    let n_rels = trues.values().filter(|&&rel| rel >= rel_lvl).count();
+    if n_rels == 0 {
+        return 0.0;
+    }
     let hits = compute_hits(trues, sorted_preds, k, rel_lvl);
     let precision = hits / k as f64;
-    let recall = hits / trues.values().filter(|&&rel| rel >= rel_lvl).count() as f64;
+    let recall = hits / n_rels as f64;
     if precision + recall == 0.0 {
         0.0
     } else {
-- 
2.43.0


From c2c780370c7bc519176a7333a33785b3e02d86f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:13 +0000
Subject: [PATCH 03/11] fix: Burges gain wraps to a negative value for
 relevance scores of 2^31 or more

---
 src/metrics/ndcg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metrics/ndcg.rs b/src/metrics/ndcg.rs
index a39b754..a553035 100644
--- a/src/metrics/ndcg.rs
+++ b/src/metrics/ndcg.rs
@@ -13,7 +13,7 @@ pub enum DcgWeighting {
 fn weighted_score(rel: TrueScore, weighting: DcgWeighting) -> f64 {
     match weighting {
         DcgWeighting::Jarvelin => rel as f64,
-        DcgWeighting::Burges => 2.0_f64.powi(rel as i32) - 1.0,
+        DcgWeighting::Burges => 2.0_f64.powi(i32::try_from(rel).unwrap_or(i32::MAX)) - 1.0,
     }
 }
 
-- 
2.43.0


From e51cefbb91b339dbd8a86e71e0bd01b3f91f50bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:37 +0000
Subject: [PATCH 04/11] fix: tuples_from_maps panics without maps

---
 src/statistical_tests.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/statistical_tests.rs b/src/statistical_tests.rs
index 2148335..b5d8ea6 100644
--- a/src/statistical_tests.rs
+++ b/src/statistical_tests.rs
@@ -89,6 +89,9 @@ where
     K: Clone + Eq + Ord + std::fmt::Display + 'a,
 {
     let maps = maps.into_iter().collect::<Vec<_>>();
+    if maps.is_empty() {
+        return Ok(vec![]);
+    }
     for i in 1..maps.len() {
         if maps[0].len() != maps[i].len() {
             return Err(ElinorError::InvalidArgument(format!(
-- 
2.43.0


From f57a73cfff0e0fd3c50e137c67459f3dd4526218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:38 +0000
Subject: [PATCH 05/11] fix: elinor-convert ignores errors in flushing the
 output

---
 elinor-cli/src/bin/convert.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elinor-cli/src/bin/convert.rs b/elinor-cli/src/bin/convert.rs
index 0ba7231..ea005ca 100644
--- a/elinor-cli/src/bin/convert.rs
+++ b/elinor-cli/src/bin/convert.rs
@@ -66,5 +66,6 @@ fn main() -> Result<()> {
             }
         }
     }
+    writer.flush()?;
     Ok(())
 }
-- 
2.43.0


From 95cc7ca33af619c6ec03f9de32ec0ca4b9fa62c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:38 +0000
Subject: [PATCH 06/11] fix: elinor-convert writes non-finite scores as null

---
 elinor-cli/src/bin/convert.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elinor-cli/src/bin/convert.rs b/elinor-cli/src/bin/convert.rs
index ea005ca..f58a16d 100644
--- a/elinor-cli/src/bin/convert.rs
+++ b/elinor-cli/src/bin/convert.rs
@@ -61,6 +61,10 @@ fn main() -> Result<()> {
             let pred_rels = trec::parse_pred_rels_in_trec(lines)?;
             let pred_records = pred_rels.into_records();
             for record in pred_records {
+                // JSON cannot represent NaN or infinity.
+                if !record.score.is_finite() {
+                    return Err(anyhow::anyhow!("The score must be finite: {record:?}"));
+                }
                 serde_json::to_writer(&mut writer, &record)?;
                 writer.write_all(b"\n")?;
             }
-- 
2.43.0


From f2b5aa54cef06ac85688b1a3292ce89cfc578514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:38 +0000
Subject: [PATCH 07/11] fix: MissingEntry message and document state the
 reversed subset relation

---
 src/metrics.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/metrics.rs b/src/metrics.rs
index 992699c..4bcb027 100644
--- a/src/metrics.rs
+++ b/src/metrics.rs
@@ -321,7 +321,7 @@ impl FromStr for Metric {
 ///
 /// # Errors
 ///
-/// * [`ElinorError::MissingEntry`] if the set of queries in `true_rels` is not a subset of that in `pred_rels`.
+/// * [`ElinorError::MissingEntry`] if the set of queries in `pred_rels` is not a subset of that in `true_rels`.
 pub fn compute_metric<K>(
     true_rels: &TrueRelStore<K>,
     pred_rels: &PredRelStore<K>,
@@ -333,7 +333,7 @@ where
     for query_id in pred_rels.query_ids() {
         if true_rels.get_map(query_id).is_none() {
             return Err(ElinorError::MissingEntry(format!(
-                "The set of queries in true_rels must be a subset of that in pred_rels, but {} is missing",
+                "The set of queries in pred_rels must be a subset of that in true_rels, but {} is missing in true_rels",
                 query_id
             )));
         }
-- 
2.43.0


From 0d83bc2a06b2f7b36e701d2513bebcfb53b541f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:16 +0000
Subject: [PATCH 08/11] fix: elinor-compare interprets topic ids as numbers and
 fails on mixed ids

---
 elinor-cli/src/bin/compare.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/elinor-cli/src/bin/compare.rs b/elinor-cli/src/bin/compare.rs
index e58f489..85f5fbf 100644
--- a/elinor-cli/src/bin/compare.rs
+++ b/elinor-cli/src/bin/compare.rs
@@ -70,8 +70,15 @@ fn main() -> Result<()> {
     for input_csv in &args.input_csvs {
         let df = CsvReadOptions::default()
             .with_parse_options(csv_parse_options.clone())
+            // Topic ids are opaque strings, even if they look like numbers.
+            .with_infer_schema_length(Some(0))
             .try_into_reader_with_file_path(Some(input_csv.clone()))?
             .finish()?;
+        let metrics = extract_metrics(&df);
+        let df = df
+            .lazy()
+            .with_columns([cols(metrics).strict_cast(DataType::Float64)])
+            .collect()?;
         dfs.push(df);
     }
 
-- 
2.43.0


From c1cfd04eac025c52754b91ceff7573ae7d86d0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 09/11] fix: elinor-compare pairs files with different or
 repeated topics

Topics that only some of the files had were left out of the tests but not of the
means, topics missing from a later file made it panic, and repeated topics were
paired with each other. The topics of all the files must be the same, each once.
---
 elinor-cli/src/bin/compare.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/elinor-cli/src/bin/compare.rs b/elinor-cli/src/bin/compare.rs
index 85f5fbf..a3d375d 100644
--- a/elinor-cli/src/bin/compare.rs
+++ b/elinor-cli/src/bin/compare.rs
@@ -140,6 +140,25 @@ fn main() -> Result<()> {
         return Ok(());
     }
 
+    // Scores are paired by topic, so the files must have the same topics, each of them once.
+    let first_topics = extract_topics(&dfs[0])?;
+    for (df, input_csv) in dfs.iter().zip(&args.input_csvs) {
+        let topics = extract_topics(df)?;
+        if topics.len() != df.height() {
+            return Err(anyhow::anyhow!(
+                "The topic IDs must be unique, but {} repeats some.",
+                input_csv.display()
+            ));
+        }
+        if topics != first_topics {
+            return Err(anyhow::anyhow!(
+                "The topic IDs must be the same, but those of {} and {} differ.",
+                args.input_csvs[0].display(),
+                input_csv.display()
+            ));
+        }
+    }
+
     println!("\n# Alias");
     {
         let columns = vec![
@@ -186,6 +205,14 @@ fn extract_metrics(df: &DataFrame) -> Vec<String> {
         .collect()
 }
 
+fn extract_topics(df: &DataFrame) -> Result<std::collections::HashSet<String>> {
+    let topics = df.get_columns()[0].str()?;
+    Ok(topics
+        .into_iter()
+        .map(|topic| topic.unwrap_or_default().to_string())
+        .collect())
+}
+
 fn extract_common_metrics<'a, I>(dfs: I) -> Vec<String>
 where
     I: IntoIterator<Item = &'a DataFrame>,
-- 
2.43.0


From dfa195ed7358812f9ad571add1a8dd8e933b434e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 10/11] fix: elinor-compare averages metrics over the topics
 that have a score

An empty cell was left out of the mean without a word; it is an error now, as it
already was (by a panic) for the tests.
---
 elinor-cli/src/bin/compare.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/elinor-cli/src/bin/compare.rs b/elinor-cli/src/bin/compare.rs
index a3d375d..1e7647f 100644
--- a/elinor-cli/src/bin/compare.rs
+++ b/elinor-cli/src/bin/compare.rs
@@ -129,7 +129,7 @@ fn main() -> Result<()> {
         println!("\n# Means");
         {
             let metrics = extract_metrics(&dfs[0]);
-            let values = get_means(&dfs[0], &metrics, topic_header);
+            let values = get_means(&dfs[0], &metrics, topic_header)?;
             let columns = vec![
                 Series::new("Metric".into(), metrics),
                 Series::new("Score".into(), values),
@@ -226,7 +226,13 @@ where
     common_metrics
 }
 
-fn get_means(df: &DataFrame, metrics: &[String], topic_header: &str) -> Vec<f64> {
+fn get_means(df: &DataFrame, metrics: &[String], topic_header: &str) -> Result<Vec<f64>> {
+    // Without this check, topics without a score would be left out of the mean.
+    for metric in metrics {
+        if df.column(metric)?.null_count() > 0 {
+            return Err(anyhow::anyhow!("Some topics have no score of {metric}."));
+        }
+    }
     let means = df
         .clone()
         .lazy()
@@ -245,7 +251,7 @@ fn get_means(df: &DataFrame, metrics: &[String], topic_header: &str) -> Vec<f64>
                 .unwrap()
         })
         .collect::<Vec<_>>();
-    values
+    Ok(values)
 }
 
 fn compare_two_systems(
@@ -268,7 +274,7 @@ fn compare_two_systems(
             metrics.iter().map(|s| s.as_str()).collect::<Vec<_>>(),
         )];
         for (i, df) in [df_1, df_2].into_iter().enumerate() {
-            let values = get_means(df, &metrics, topic_header);
+            let values = get_means(df, &metrics, topic_header)?;
             columns.push(Series::new(format!("System_{}", i + 1).into(), values));
         }
         let df = DataFrame::new(columns)?;
-- 
2.43.0


From 3f9ba10cfcb3908bfcecd6c5f6debc05cc67afaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:06 +0000
Subject: [PATCH 11/11] fix: elinor-compare reports failures to print its
 tables

prettytable's printstd ignores errors, so a pretty report that was cut
short (a full disk, say) still ended with exit status 0, unlike one in
raw mode.
---
 elinor-cli/src/bin/compare.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/elinor-cli/src/bin/compare.rs b/elinor-cli/src/bin/compare.rs
index 1e7647f..93169e2 100644
--- a/elinor-cli/src/bin/compare.rs
+++ b/elinor-cli/src/bin/compare.rs
@@ -594,7 +594,9 @@ fn compare_multiple_systems(
 fn print_dataframe(df: &DataFrame, print_mode: PrintMode) {
     match print_mode {
         PrintMode::Pretty => {
-            df_to_prettytable(df).printstd();
+            df_to_prettytable(df)
+                .print_tty(false)
+                .expect("failed printing to stdout");
         }
         PrintMode::Raw => {
             print_df_in_tsv(df);
-- 
2.43.0

