From f3a9d64e9bcac9c4e8cfe5d92d10053402f5f9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:19 +0000
Subject: [PATCH] fix: check_outs_valid dereferences a null error string

A version 1 transaction with a multisignature output was rejected by writing
the reason through the optional error pointer without testing it, so callers
that pass no pointer (the miner transaction check, Transaction::validateOutputs)
crashed instead of rejecting.
---
 src/CryptoNoteCore/CryptoNoteFormatUtils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CryptoNoteCore/CryptoNoteFormatUtils.cpp b/src/CryptoNoteCore/CryptoNoteFormatUtils.cpp
index 4bcf6ea..bdf678b 100644
--- a/src/CryptoNoteCore/CryptoNoteFormatUtils.cpp
+++ b/src/CryptoNoteCore/CryptoNoteFormatUtils.cpp
@@ -317,7 +317,9 @@ bool check_outs_valid(const TransactionPrefix& tx, std::string* error) {
       }
     } else if (out.target.type() == typeid(MultisignatureOutput)) {
       if (tx.version < TRANSACTION_VERSION_2) {
-        *error = "Transaction contains multisignature output but its version is less than 2";
+        if (error) {
+          *error = "Transaction contains multisignature output but its version is less than 2";
+        }
         return false;
       }
 
-- 
2.43.0

