From 7da43e22c09088905b6af941a3b8dfbce9a3ab13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:27 +0000
Subject: [PATCH] fix: check each reported seal definition against the very
 cell it is reported for

Definitions were compared with the operation only as a set of authorization
tokens, so a definition could be reported for a cell of another owner (or for
an output which does not exist), as long as its token was present in any other
owned cell of the same operation.
---
 src/verify.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/verify.rs b/src/verify.rs
index 350954c..9016bba 100644
--- a/src/verify.rs
+++ b/src/verify.rs
@@ -183,7 +183,13 @@ pub trait ContractVerify<Seal: RgbSeal>: ContractApi<Seal> {
                 .collect::<BTreeSet<_>>();
             // It is a subset and not an equal set since some seals might be unknown to us:
             // we know their commitment auth token but do not know the definition.
-            if !reported.is_subset(&defined) {
+            // Each reported seal must match the very cell it is reported for: a commitment to the seal in some
+            // other cell doesn't give its owner any control over this one.
+            let mismatch = block.defined_seals.iter().any(|(pos, seal)| {
+                let cell = block.operation.destructible_out.get(*pos as usize);
+                cell.map(|cell| cell.auth) != Some(seal.auth_token())
+            });
+            if mismatch {
                 let sources = block
                     .defined_seals
                     .iter()
-- 
2.43.0

