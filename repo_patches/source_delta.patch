From f5636b2c1002ca3325eef6e4f443a11800546f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:02 +0000
Subject: [PATCH 01/48] fix: show the sign of amounts between -1 and 0 and
 round 0.995 up, not down to -1.00

---
 src/models/money.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/models/money.rs b/src/models/money.rs
index 70a8bca..0b9564d 100644
--- a/src/models/money.rs
+++ b/src/models/money.rs
@@ -119,16 +119,23 @@ impl Display for Money {
                 let len = format!("{}", decimal).len();
                 if len == decimals + 1 {
                     decimal = 0;
-                    if integer_part.is_positive() {
+                    if amount.is_positive() {
                         integer_part += BigInt::from(1);
                     } else {
                         integer_part -= BigInt::from(1);
                     }
                 }
                 decimal_str = format!("{:0width$}", decimal, width = decimals);
+                // The integer part can't carry the sign of amounts between -1 and 0
+                let sign = if amount.is_negative() & integer_part.is_zero() & (decimal > 0) {
+                    "-"
+                } else {
+                    ""
+                };
                 write!(
                     f,
-                    "{}.{} {}",
+                    "{}{}.{} {}",
+                    sign,
                     integer_part.numer(),
                     decimal_str,
                     currency.get_name()
-- 
2.43.0


From bf8d692b62acd9e6484b5c67e3ff64deca193e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:02 +0000
Subject: [PATCH 02/48] fix: do not drop the third and later operands of a
 chained expression

---
 src/parser/value_expr.rs | 47 ++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/src/parser/value_expr.rs b/src/parser/value_expr.rs
index d95ab10..f43ad66 100644
--- a/src/parser/value_expr.rs
+++ b/src/parser/value_expr.rs
@@ -412,31 +412,30 @@ fn build_ast_from_expr(
         | Rule::multiplicative_expr => {
             let mut pair = pair.into_inner();
             let lhspair = pair.next().unwrap();
-            let lhs = build_ast_from_expr(lhspair, regexes);
-            match pair.next() {
-                None => lhs,
-                Some(x) => {
-                    let op = match rule {
-                        Rule::or_expr => Binary::Or,
-                        Rule::and_expr => Binary::And,
-                        _ => match x.as_str() {
-                            "+" => Binary::Add,
-                            "-" => Binary::Subtract,
-                            "*" => Binary::Mult,
-                            "/" => Binary::Div,
-                            "=~" | "==" => Binary::Eq,
-                            "<" => Binary::Lt,
-                            ">" => Binary::Gt,
-                            "<=" => Binary::Le,
-                            ">=" => Binary::Ge,
-                            x => unreachable!("{}", x),
-                        },
-                    };
-                    let rhspair = pair.next().unwrap();
-                    let rhs = build_ast_from_expr(rhspair, regexes);
-                    parse_binary_expr(op, lhs, rhs)
-                }
+            let mut lhs = build_ast_from_expr(lhspair, regexes);
+            // Chains like a + b + c come as a flat list, they associate to the left
+            while let Some(x) = pair.next() {
+                let op = match rule {
+                    Rule::or_expr => Binary::Or,
+                    Rule::and_expr => Binary::And,
+                    _ => match x.as_str() {
+                        "+" => Binary::Add,
+                        "-" => Binary::Subtract,
+                        "*" => Binary::Mult,
+                        "/" => Binary::Div,
+                        "=~" | "==" => Binary::Eq,
+                        "<" => Binary::Lt,
+                        ">" => Binary::Gt,
+                        "<=" => Binary::Le,
+                        ">=" => Binary::Ge,
+                        x => unreachable!("{}", x),
+                    },
+                };
+                let rhspair = pair.next().unwrap();
+                let rhs = build_ast_from_expr(rhspair, regexes);
+                lhs = parse_binary_expr(op, lhs, rhs);
             }
+            lhs
         }
         Rule::primary => {
             let mut inner = pair.into_inner();
-- 
2.43.0


From 109b5f2b37825179b29c64db4c2103c7ae9c6d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:25 +0000
Subject: [PATCH 03/48] fix: list the commodities of a balance in the same
 order on every run

---
 src/models/balance.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/models/balance.rs b/src/models/balance.rs
index 39a6785..1f0c1a0 100644
--- a/src/models/balance.rs
+++ b/src/models/balance.rs
@@ -1,7 +1,7 @@
 use crate::error::LedgerError;
 use crate::models::{Currency, Money};
-use std::collections::hash_map::Iter;
-use std::collections::HashMap;
+use std::collections::btree_map::Iter;
+use std::collections::BTreeMap;
 use std::fmt;
 use std::fmt::{Display, Formatter};
 use std::ops::{Add, Neg, Sub};
@@ -9,13 +9,13 @@ use std::rc::Rc;
 
 #[derive(Debug, Clone)]
 pub struct Balance {
-    pub balance: HashMap<Option<Rc<Currency>>, Money>,
+    pub balance: BTreeMap<Option<Rc<Currency>>, Money>,
 }
 
 impl Balance {
     pub fn new() -> Balance {
         Balance {
-            balance: HashMap::new(),
+            balance: BTreeMap::new(),
         }
     }
 
@@ -81,7 +81,7 @@ impl<'a> Neg for Balance {
     type Output = Balance;
 
     fn neg(self) -> Self::Output {
-        let mut balance: HashMap<Option<Rc<Currency>>, Money> = HashMap::new();
+        let mut balance: BTreeMap<Option<Rc<Currency>>, Money> = BTreeMap::new();
         for (k, v) in self.balance {
             balance.insert(k, -v);
         }
@@ -93,7 +93,7 @@ impl Add for Balance {
     type Output = Balance;
 
     fn add(self, rhs: Self) -> Self::Output {
-        let mut total: HashMap<Option<Rc<Currency>>, Money> = HashMap::new();
+        let mut total: BTreeMap<Option<Rc<Currency>>, Money> = BTreeMap::new();
         let balances = vec![self, rhs];
         for bal in balances.iter() {
             for (cur, money) in bal.balance.iter() {
@@ -136,7 +136,7 @@ impl Sub for Balance {
 // Converter
 impl From<Money> for Balance {
     fn from(money: Money) -> Self {
-        let mut balance: HashMap<Option<Rc<Currency>>, Money> = HashMap::new();
+        let mut balance: BTreeMap<Option<Rc<Currency>>, Money> = BTreeMap::new();
         match money {
             Money::Zero => balance.insert(None, Money::Zero),
             Money::Money { ref currency, .. } => {
-- 
2.43.0


From ebba34deaabe2facb40082fcb1561780579dafbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:54 +0000
Subject: [PATCH 04/48] fix: resolve names, payees and unknown accounts the
 same way on every run

---
 src/models/mod.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/models/mod.rs b/src/models/mod.rs
index 89cc367..91e0f67 100644
--- a/src/models/mod.rs
+++ b/src/models/mod.rs
@@ -1,5 +1,5 @@
 use num::rational::BigRational;
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeSet, HashMap, HashSet};
 
 pub use account::Account;
 pub use balance::Balance;
@@ -55,9 +55,9 @@ impl Ledger {
 impl ParsedLedger {
     /// Creates a proper ledger from a parsed ledger
     pub fn to_ledger(mut self, no_checks: bool) -> Result<Ledger, Error> {
-        let mut commodity_strs = HashSet::<String>::new();
-        let mut account_strs = HashSet::<String>::new();
-        let mut payee_strs = HashSet::<String>::new();
+        let mut commodity_strs = BTreeSet::<String>::new();
+        let mut account_strs = BTreeSet::<String>::new();
+        let mut payee_strs = BTreeSet::<String>::new();
 
         // 1. Populate the directive lists
 
@@ -112,7 +112,9 @@ impl ParsedLedger {
                     let mut matched = false;
                     let mut alias_to_add = "".to_string();
                     let mut payee_to_add = None;
-                    'outer: for (_, p) in payees_copy.iter() {
+                    let mut candidates: Vec<&Rc<Payee>> = payees_copy.values().collect();
+                    candidates.sort_by(|a, b| a.get_name().cmp(b.get_name()));
+                    'outer: for p in candidates {
                         for p_alias in p.get_aliases().iter() {
                             if p_alias.is_match(alias.as_str()) {
                                 payee_to_add = Some(p);
@@ -374,7 +376,9 @@ impl ParsedLedger {
                     };
                     let account = if p.account.to_lowercase().ends_with("unknown") {
                         let mut account = None;
-                        for (_, acc) in self.accounts.iter() {
+                        let mut candidates: Vec<&Rc<Account>> = self.accounts.values().collect();
+                        candidates.sort_by(|a, b| a.get_name().cmp(b.get_name()));
+                        for acc in candidates {
                             for alias in acc.payees().iter() {
                                 if alias.is_match(payee.get_name()) {
                                     account = Some(acc.clone());
-- 
2.43.0


From eba528ae15797d9554c195adafa4d4fc06734d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:46 +0000
Subject: [PATCH 05/48] fix: convert with the latest quotes of a currency, the
 same ones on every run

---
 src/models/price.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/models/price.rs b/src/models/price.rs
index ab180b9..b53a54e 100644
--- a/src/models/price.rs
+++ b/src/models/price.rs
@@ -3,7 +3,7 @@ use chrono::{Duration, NaiveDate};
 use num::rational::BigRational;
 use num::BigInt;
 use std::cmp::Ordering;
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet, HashMap};
 use std::fmt;
 use std::fmt::{Display, Formatter};
 use std::rc::Rc;
@@ -123,10 +123,9 @@ pub fn conversion(
                     continue;
                 }
             }
-            None => {
-                inserted.insert(currency.clone(), k.date);
-            }
+            None => (),
         }
+        inserted.insert(currency.clone(), k.date);
         for edge in v.iter().rev() {
             match edge.as_ref().price.as_ref() {
                 None => (), // do nothing, multiply by one and keep the same currency
@@ -178,12 +177,12 @@ struct Graph {
 
 impl Graph {
     fn from_prices(prices: &Vec<Price>, source: Node) -> Self {
-        let mut nodes = HashMap::new();
+        let mut nodes = BTreeMap::new();
         let mut edges = Vec::new();
-        let mut currency_dates = HashSet::new();
+        let mut currency_dates = BTreeSet::new();
         currency_dates.insert((source.currency.clone(), source.date));
         // Remove redundant prices and create the nodes
-        let mut prices_nodup = HashMap::new();
+        let mut prices_nodup = BTreeMap::new();
         for p in prices.iter() {
             if p.date > source.date {
                 continue;
-- 
2.43.0


From abb913086f7ac21b5538983ffa20106c6ba77b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:13 +0000
Subject: [PATCH 06/48] fix: balance tree rows show the account their amount
 belongs to

A parent with postings of its own was merged with its only child and shown under
the child's name, --depth was not respected, accounts sorting between a parent and
its children broke up the tree and children of a zero parent were shown without it.
---
 src/commands/balance.rs | 61 +++++++++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 21 deletions(-)

diff --git a/src/commands/balance.rs b/src/commands/balance.rs
index dc15ab0..3635eab 100644
--- a/src/commands/balance.rs
+++ b/src/commands/balance.rs
@@ -153,7 +153,10 @@ pub fn execute(options: &CommonOpts, flat: bool, show_total: bool) -> Result<(),
         }
     }
 
-    vec_balances.sort_by(|a, b| a.0.cmp(b.0));
+    // Compare part by part so that the children always follow their parent
+    vec_balances.sort_by(|a, b| a.0.split(":").cmp(b.0.split(":")));
+    // The branches of the tree which are open at the current line
+    let mut branches: Vec<&str> = Vec::new();
     let num_bal = vec_balances.len();
     let mut index = 0;
     let mut showed_balances = 0;
@@ -190,40 +193,51 @@ pub fn execute(options: &CommonOpts, flat: bool, show_total: bool) -> Result<(),
             println!("  {}", account.blue());
         } else {
             let mut n = account.split(":").count();
-            for _ in 0..n {
+            // The closest parent with a line of its own, the accounts in between are not shown
+            while let Some(branch) = branches.last() {
+                if is_child(branch, account) {
+                    break;
+                }
+                branches.pop();
+            }
+            let shown = match branches.last() {
+                Some(branch) => branch.split(":").count(),
+                None => 0,
+            };
+            for _ in 0..=shown {
                 print!("  ");
             }
             // start by getting the account name
-            let mut text = account.split(":").last().unwrap().to_string();
+            let mut text = account.split(":").skip(shown).collect::<Vec<&str>>().join(":");
             // This is where it gets tricky, we need to collapse while we can
-            let mut collapse = true;
             loop {
                 if (index + 1) >= num_bal {
                     break;
                 }
-                if vec_balances[index + 1].0.split(":").count() != (n + 1) {
+                let (child, child_bal) = &vec_balances[index + 1];
+                if !is_child(vec_balances[index].0, child)
+                    || child.split(":").count() != (n + 1)
+                    || depth.map_or(false, |depth| n + 1 > depth)
+                {
                     break;
                 }
-                for j in (index + 2)..num_bal {
-                    let name = vec_balances[j].0.clone();
-                    if !name.starts_with(account) {
-                        break;
-                    }
-                    let this_depth = name.split(":").count();
-                    if this_depth == n + 1 {
-                        collapse = false;
-                        break;
-                    }
+                // Both lines have to be the same, otherwise there are more children or the parent has
+                // something of its own
+                if bal.balance != child_bal.balance {
+                    break;
                 }
-                if collapse {
-                    text.push(':');
-                    text.push_str(&vec_balances[index + 1].0.split(":").last().unwrap());
-                    n = n + 1;
-                    index = index + 1;
-                } else {
+                // There may be other children which add up to zero
+                if vec_balances[index + 2..].iter().any(|x| {
+                    is_child(vec_balances[index].0, x.0) && x.0.split(":").count() == n + 1
+                }) {
                     break;
                 }
+                text.push(':');
+                text.push_str(child.split(":").last().unwrap());
+                n = n + 1;
+                index = index + 1;
             }
+            branches.push(vec_balances[index].0);
             println!("{}", text.blue());
         }
         index += 1;
@@ -263,6 +277,11 @@ pub fn execute(options: &CommonOpts, flat: bool, show_total: bool) -> Result<(),
     Ok(())
 }
 
+/// Whether an account hangs from another one, at any depth
+fn is_child(parent: &str, account: &str) -> bool {
+    account.starts_with(parent) && account[parent.len()..].starts_with(':')
+}
+
 fn convert_balance(
     balance: &Balance,
     multipliers: &HashMap<Rc<Currency>, BigRational>,
-- 
2.43.0


From e51ac7bc4ab9d1db27428f4181b3cb41eb79ede9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:13 +0000
Subject: [PATCH 07/48] fix: accept account names which start with a non-ASCII
 character

---
 src/parser/tokenizers/transaction.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 1d508b2..000d380 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -221,8 +221,8 @@ fn parse_posting(
         }
     }
     // See if it is a virtual account
-    match &account[0..1] {
-        "(" => {
+    match account.chars().next() {
+        Some('(') => {
             posting_type = PostingType::Virtual;
             if account.pop().unwrap() != ')' {
                 return Err(ParserError::UnexpectedInput(Some(
@@ -230,7 +230,7 @@ fn parse_posting(
                 )));
             }
         }
-        "[" => {
+        Some('[') => {
             posting_type = PostingType::VirtualMustBalance;
             if account.pop().unwrap() != ']' {
                 return Err(ParserError::UnexpectedInput(Some(
-- 
2.43.0


From edea14a81c6b6a6eb17f0e649cc1c25d5b30920c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:41 +0000
Subject: [PATCH 08/48] fix: accept postings without amount at the end of the
 file, before trailing space and before CRLF

---
 src/parser/chars.rs                  |  4 ++++
 src/parser/tokenizers/transaction.rs | 12 +++++-------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/parser/chars.rs b/src/parser/chars.rs
index 2c44973..b26f680 100644
--- a/src/parser/chars.rs
+++ b/src/parser/chars.rs
@@ -98,6 +98,10 @@ pub(super) fn get_line(tokenizer: &mut Tokenizer) -> String {
         }
         retval.push(*c);
     }
+    // Windows line endings
+    if retval.last() == Some(&'\r') {
+        retval.pop();
+    }
     retval.iter().collect()
 }
 
diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 000d380..02eb236 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -198,7 +198,7 @@ fn parse_posting(
     let mut posting_type = PostingType::Real;
     let mut finished = false;
     // Get the account name
-    loop {
+    while tokenizer.get_char().is_some() {
         let c = tokenizer.next();
         if !c.is_whitespace() {
             account.push(c);
@@ -211,12 +211,10 @@ fn parse_posting(
             }
             break;
         } else {
-            let d = tokenizer.next();
-            if d.is_whitespace() | (c == '\n') {
-                break;
-            } else {
-                account.push(c);
-                account.push(d);
+            // Only peek, the end of the line is not part of the account name
+            match tokenizer.get_char() {
+                Some(d) if !d.is_whitespace() => account.push(c),
+                _ => break,
             }
         }
     }
-- 
2.43.0


From 0485a4e328061819c65dc32473b246cb1adddaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:41 +0000
Subject: [PATCH 09/48] fix: reject postings with text after the amount instead
 of taking it for the amount

---
 src/parser/tokenizers/transaction.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 02eb236..7dccee7 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -320,6 +320,12 @@ fn parse_posting(
                 posting.cost_amount = Some(money.0);
                 posting.cost_currency = Some(money.1);
             }
+            // There can only be one amount
+            Some(_) if posting.money_amount.is_some() | posting.balance_amount.is_some() => {
+                return Err(ParserError::UnexpectedInput(Some(
+                    "Unexpected text after the amount".to_string(),
+                )));
+            }
             _ => match parse_money(tokenizer) {
                 Ok(money) => {
                     posting.money_amount = Some(money.0);
-- 
2.43.0


From 5e674c4bec33fffbd7303dfde1c186f6630ddc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:41 +0000
Subject: [PATCH 10/48] fix: do not hang on comments inside tag directives

---
 src/parser/tokenizers/tag.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/tokenizers/tag.rs b/src/parser/tokenizers/tag.rs
index c0f54cb..52ef6b5 100644
--- a/src/parser/tokenizers/tag.rs
+++ b/src/parser/tokenizers/tag.rs
@@ -47,7 +47,9 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Tag, ParserError> {
     }
     while let LineType::Indented = chars::consume_whitespaces_and_lines(tokenizer) {
         match tokenizer.get_char().unwrap() {
-            ';' => {} // Skip comments
+            ';' => {
+                chars::get_line(tokenizer);
+            } // Skip comments
             _ => match chars::get_string(tokenizer).as_str() {
                 "check" => {
                     check.push(chars::get_line(tokenizer).trim().to_string());
-- 
2.43.0


From 6550918f8bbf02970410be03bd60ca9b3da86a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:41 +0000
Subject: [PATCH 11/48] fix: accept times between 20:00 and 23:59

---
 src/grammar/grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index 22d4594..1102558 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -32,7 +32,7 @@ month = {("1" ~ ("0" | "1" | "2")) | ("0"? ~ ASCII_NONZERO_DIGIT)}
 day = {("3" ~ ("0" | "1")) |
 	(("1" | "2") ~ ASCII_DIGIT ) |
     ("0"? ~ ASCII_NONZERO_DIGIT) }
-hour = { (("0"|"1") ~ ASCII_DIGIT) | ("2" ~ ("0" ~"1" ~"2" ~"3"))}
+hour = { (("0"|"1") ~ ASCII_DIGIT) | ("2" ~ ("0" | "1" | "2" | "3"))}
 minute = { ("0"|"1"|"2"|"3"|"4"|"5") ~ ASCII_DIGIT }
 second = { ("0"|"1"|"2"|"3"|"4"|"5") ~ ASCII_DIGIT ~ ("." ~ bigint)? }
 
-- 
2.43.0


From 7fee67ce1fdde0442da1e14cb7e8ecd5e43e35fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:41 +0000
Subject: [PATCH 12/48] fix: do not crash when reporting an error on the first
 line

---
 src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index cadf9bb..382ade3 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -220,7 +220,7 @@ impl<'a> Tokenizer<'a> {
         let string = self.content.iter().collect::<String>();
 
         for (i, line) in string.lines().enumerate() {
-            if i < self.line_index - 1 {
+            if i + 1 < self.line_index {
                 continue;
             };
             if i > self.line_index {
-- 
2.43.0


From dde0c03827c1b4354db1a92e59a009f24f276a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:41 +0000
Subject: [PATCH 13/48] fix: selling at a total cost does not mean a negative
 price

---
 src/models/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/mod.rs b/src/models/mod.rs
index 91e0f67..2b5b34a 100644
--- a/src/models/mod.rs
+++ b/src/models/mod.rs
@@ -431,7 +431,7 @@ impl ParsedLedger {
                                 amount: p.cost_amount.clone().unwrap()
                                     / match p.cost_type.as_ref().unwrap() {
                                         PriceType::Total => {
-                                            posting.amount.as_ref().unwrap().get_amount()
+                                            posting.amount.as_ref().unwrap().abs().get_amount()
                                         }
                                         PriceType::PerUnit => BigRational::from(BigInt::from(1)),
                                     },
-- 
2.43.0


From d403a7aa777bc6f64a3693300f9f661d89cabec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:17 +0000
Subject: [PATCH 14/48] fix: keep the tags of postings whose amount is elided

---
 src/models/transaction.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/models/transaction.rs b/src/models/transaction.rs
index 8295fe3..ea97ef7 100644
--- a/src/models/transaction.rs
+++ b/src/models/transaction.rs
@@ -295,6 +295,8 @@ impl Transaction<Posting> {
         // 1. Iterate over postings
         let mut fill_account = Rc::new(Account::from("this will never be used"));
         let mut fill_payee = None;
+        let mut fill_comments = vec![];
+        let mut fill_tags = RefCell::new(vec![]);
         let mut postings: Vec<Posting> = Vec::new();
 
         for p in self.postings.get_mut().iter() {
@@ -396,6 +398,8 @@ impl Transaction<Posting> {
                 // We do nothing, but this is the account for the empty post
                 fill_account = p.account.clone();
                 fill_payee = p.payee.clone();
+                fill_comments = p.comments.clone();
+                fill_tags = p.tags.clone();
             }
         }
 
@@ -441,8 +445,8 @@ impl Transaction<Posting> {
                     balance: None,
                     cost: None,
                     kind: PostingType::Real,
-                    comments: self.comments.clone(),
-                    tags: RefCell::new(self.tags.clone()),
+                    comments: fill_comments.clone(),
+                    tags: fill_tags.clone(),
                     payee: fill_payee.clone(),
                     transaction: self.postings.borrow()[0].transaction.clone(),
                     origin: PostingOrigin::FromTransaction,
-- 
2.43.0


From 8eb2aaa3bf2033af6c15abc4365f19840e119468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:15 +0000
Subject: [PATCH 15/48] fix: detect include cycles which go through differently
 spelled paths

---
 src/parser/include.rs | 7 +++++--
 src/parser/mod.rs     | 6 +++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/parser/include.rs b/src/parser/include.rs
index dd4e708..c1111f2 100644
--- a/src/parser/include.rs
+++ b/src/parser/include.rs
@@ -23,7 +23,10 @@ pub(super) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedLedger, Error> {
         match entry {
             Ok(path) => {
                 files.push(path.clone());
-                match tokenizer.seen_files.get(&path) {
+                match tokenizer
+                    .seen_files
+                    .get(&path.canonicalize().unwrap_or(path.clone()))
+                {
                     Some(_) => {
                         return Err(tokenizer.error(ParserError::IncludeLoop(format!(
                             "Cycle detected. {:?}",
@@ -40,7 +43,7 @@ pub(super) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedLedger, Error> {
     for file in files {
         let mut inner_tokenizer: Tokenizer = Tokenizer::from(&file);
         for p in tokenizer.seen_files.iter() {
-            inner_tokenizer.seen_files.insert(*p);
+            inner_tokenizer.seen_files.insert(p.clone());
         }
         let mut new_items: ParsedLedger = inner_tokenizer.tokenize()?;
         items.append(&mut new_items);
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 382ade3..fa5e05a 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -83,15 +83,15 @@ pub struct Tokenizer<'a> {
     line_string: &'a str,
     line_characters: Vec<char>,
     position: usize,
-    seen_files: HashSet<&'a PathBuf>,
+    seen_files: HashSet<PathBuf>,
 }
 
 impl<'a> From<&'a PathBuf> for Tokenizer<'a> {
     fn from(file: &'a PathBuf) -> Self {
         match read_to_string(file) {
             Ok(content) => {
-                let mut seen_files: HashSet<&PathBuf> = HashSet::new();
-                seen_files.insert(file);
+                let mut seen_files: HashSet<PathBuf> = HashSet::new();
+                seen_files.insert(file.canonicalize().unwrap_or(file.clone()));
                 Tokenizer {
                     file: Some(file),
                     content: content.chars().collect::<Vec<char>>(),
-- 
2.43.0


From d753684a5ec7a0e530e212f17dac6755d473bd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:18 +0000
Subject: [PATCH 16/48] fix: say where a malformed include directive is

---
 src/parser/include.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/include.rs b/src/parser/include.rs
index c1111f2..795935d 100644
--- a/src/parser/include.rs
+++ b/src/parser/include.rs
@@ -6,7 +6,9 @@ use std::path::PathBuf;
 
 /// Handles include directive
 pub(super) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedLedger, Error> {
-    chars::consume_str(tokenizer, &"include ".to_string())?;
+    if let Err(e) = chars::consume_str(tokenizer, &"include ".to_string()) {
+        return Err(tokenizer.error(e));
+    }
     let mut pattern = String::new();
     let mut files: Vec<PathBuf> = Vec::new();
     if let Some(current_path) = tokenizer.file {
-- 
2.43.0


From f960b046fbce80126bd7a92cbea14642b3649eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:20 +0000
Subject: [PATCH 17/48] fix: do not list inferred prices twice when there are
 automated transactions

---
 src/models/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/models/mod.rs b/src/models/mod.rs
index 2b5b34a..8ecc96c 100644
--- a/src/models/mod.rs
+++ b/src/models/mod.rs
@@ -176,6 +176,7 @@ impl ParsedLedger {
         }
 
         // Balance the transactions
+        let num_prices = prices.len();
         for t in transactions.iter_mut() {
             let date = t.date.unwrap().clone();
             // output_balances(&balances);
@@ -309,7 +310,8 @@ impl ParsedLedger {
                 balances.insert(account.clone(), Balance::new());
             }
 
-            // Balance the transactions
+            // Balance the transactions, this infers the prices again
+            prices.truncate(num_prices);
             for t in transactions.iter_mut() {
                 let date = t.date.unwrap().clone();
                 // output_balances(&balances);
-- 
2.43.0


From cbd52994e06d06f21e0f412c05e63317f1bc6dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:22 +0000
Subject: [PATCH 18/48] fix: do not crash when an automated transaction matches
 a posting of zero

---
 src/models/mod.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/models/mod.rs b/src/models/mod.rs
index 8ecc96c..a23b821 100644
--- a/src/models/mod.rs
+++ b/src/models/mod.rs
@@ -261,11 +261,10 @@ impl ParsedLedger {
                                     )),
                                     Some(alias) => {
                                         if alias == "" {
-                                            Some(Money::from((
-                                                p.amount.clone().unwrap().get_commodity().unwrap(),
-                                                p.amount.clone().unwrap().get_amount()
+                                            Some(
+                                                p.amount.clone().unwrap()
                                                     * auto_posting.money_amount.clone().unwrap(),
-                                            )))
+                                            )
                                         } else {
                                             match self.commodities.get(&alias) {
                                                 Ok(_) => {} // do nothing
-- 
2.43.0


From 1be8838c1ebd8690fe844ab559b355ccc4797b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:03 +0000
Subject: [PATCH 19/48] fix: report virtual postings without amount instead of
 crashing later

---
 src/models/transaction.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/models/transaction.rs b/src/models/transaction.rs
index ea97ef7..eb2f8d5 100644
--- a/src/models/transaction.rs
+++ b/src/models/transaction.rs
@@ -291,6 +291,15 @@ impl Transaction<Posting> {
             true => {}
             false => return Err(LedgerError::TransactionIsNotBalanced),
         }
+        // The amount of virtual postings can't be elided
+        if self
+            .postings
+            .borrow()
+            .iter()
+            .any(|p| (p.kind != PostingType::Real) & p.amount.is_none())
+        {
+            return Err(LedgerError::TransactionIsNotBalanced);
+        }
 
         // 1. Iterate over postings
         let mut fill_account = Rc::new(Account::from("this will never be used"));
-- 
2.43.0


From f841d4d1289a595085f333357ff9a00eaceaa302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:05 +0000
Subject: [PATCH 20/48] fix: short options on the command line override those
 of the init file

---
 src/app.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/app.rs b/src/app.rs
index 0c2d7eb..555db65 100644
--- a/src/app.rs
+++ b/src/app.rs
@@ -142,6 +142,10 @@ pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
     if let Some(file) = config_file {
         let mut aliases = HashMap::new();
         aliases.insert("-f".to_string(), "--file".to_string());
+        aliases.insert("-d".to_string(), "--depth".to_string());
+        aliases.insert("-b".to_string(), "--begin".to_string());
+        aliases.insert("-e".to_string(), "--end".to_string());
+        aliases.insert("-p".to_string(), "--period".to_string());
         let contents = read_to_string(file).unwrap();
         for line in contents.lines() {
             let option = line.trim_start();
-- 
2.43.0


From adcff55fd8d924c5e04e7ca71262214b1d4fbeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:57 +0000
Subject: [PATCH 21/48] fix: do not crash or hang when the file ends with an
 automated posting

---
 src/parser/tokenizers/transaction.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 7dccee7..609c776 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -336,8 +336,11 @@ fn parse_posting(
                     TransactionType::Automated => {
                         posting.amount_expr = Some(chars::get_line(tokenizer));
 
-                        tokenizer.line_index -= 1;
-                        tokenizer.position -= 1;
+                        // Go back to the end of the line, if the file does not end here
+                        if tokenizer.content[tokenizer.position - 1] == '\n' {
+                            tokenizer.line_index -= 1;
+                            tokenizer.position -= 1;
+                        }
                     }
                 },
             },
-- 
2.43.0


From b4978d27ea2657ca93632f9513dd5593e9fefffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:59 +0000
Subject: [PATCH 22/48] fix: the semicolon of a comment is not part of the tag

---
 src/parser/tokenizers/transaction.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 609c776..59c60f0 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -54,7 +54,10 @@ fn parse_with_grammar(tokenizer: &mut Tokenizer) -> Result<Transaction<RawPostin
     }
     if next_item.as_rule() == Rule::comment {
         transaction.comments.push(Comment {
-            comment: parse_string(next_item),
+            comment: parse_string(next_item)
+                .trim_start_matches(';')
+                .trim_start()
+                .to_string(),
         });
     }
 
-- 
2.43.0


From 0fa30b17e9765c0bc0847b50bcf14c8db7126fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:13 +0000
Subject: [PATCH 23/48] fix: the note and trailing space of a payee directive
 are not part of its name

---
 src/parser/tokenizers/payee.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/tokenizers/payee.rs b/src/parser/tokenizers/payee.rs
index a0c0ff0..e13b9ac 100644
--- a/src/parser/tokenizers/payee.rs
+++ b/src/parser/tokenizers/payee.rs
@@ -13,8 +13,8 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Payee, ParserError> {
     lazy_static! {
         static ref RE: Regex = Regex::new(format!("{}{}{}",
         r"(payee) +"            , // payee directive
-        r"(.*)"                 , // description
-        r"(  ;.*)?"             , // note
+        r"(.*?)"                , // description
+        r"(  ;.*)?$"            , // note
         ).as_str()).unwrap();
     }
     let mystr = chars::get_line(tokenizer);
@@ -38,7 +38,7 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Payee, ParserError> {
                     2 =>
                     // description
                     {
-                        name = m.as_str().to_string()
+                        name = m.as_str().trim().to_string()
                     }
                     3 =>
                     // note
-- 
2.43.0


From dbee4b5af03b05eef3b33adcb78015505dcb6bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:29 +0000
Subject: [PATCH 24/48] fix: quoted commodities in expressions are the ones
 without the quotes

---
 src/parser/value_expr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/value_expr.rs b/src/parser/value_expr.rs
index f43ad66..c78d3c9 100644
--- a/src/parser/value_expr.rs
+++ b/src/parser/value_expr.rs
@@ -1,4 +1,4 @@
-use super::utils::parse_rational;
+use super::utils::{parse_rational, parse_string};
 use super::{GrammarParser, Rule};
 use crate::app;
 use crate::models::{Account, Currency, Money, Payee, Posting, Transaction};
@@ -459,11 +459,11 @@ fn build_ast_from_expr(
                     let child = money.next().unwrap();
                     match child.as_rule() {
                         Rule::number => Node::Money {
-                            currency: money.next().unwrap().as_str().to_string(),
+                            currency: parse_string(money.next().unwrap()),
                             amount: parse_rational(child),
                         },
                         Rule::currency => Node::Money {
-                            currency: child.as_str().to_string(),
+                            currency: parse_string(child),
                             amount: parse_rational(money.next().unwrap()),
                         },
                         unknown => panic!("Unknown rule: {:?}", unknown),
-- 
2.43.0


From aadf474d3c14ce11535110b3c65db6bbf2e7c75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:24 +0000
Subject: [PATCH 25/48] fix: accept spaces in chains of products and quotients

---
 src/grammar/grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index 1102558..1c14ff1 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -48,7 +48,7 @@ or_expr = { and_expr ~ ws* ~ ( or ~ ws* ~ and_expr ) * }
 and_expr = { comparison_expr ~ ws* ~ ( and ~ ws* ~ comparison_expr ) * }
 comparison_expr = { additive_expr ~ ws* ~ ( comparison ~ ws* ~ additive_expr ) * }
 additive_expr = { multiplicative_expr ~ ws* ~ ( add ~ ws* ~ multiplicative_expr ) * }
-multiplicative_expr = { primary ~ ws* ~ ( mult ~ ws* ~ primary )* }
+multiplicative_expr = { primary ~ ws* ~ ( mult ~ ws* ~ primary ~ ws* )* }
 primary = {
     ("(" ~ ws* ~ expr ~ ws* ~ ")") |
     (unary ~ ws* ~ expr) |
-- 
2.43.0


From a4113598f98db392ab3a9b842f36b72480fc3d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:05 +0000
Subject: [PATCH 26/48] fix: report included files which do not exist instead
 of skipping them

---
 src/parser/include.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/include.rs b/src/parser/include.rs
index 795935d..36302b2 100644
--- a/src/parser/include.rs
+++ b/src/parser/include.rs
@@ -41,6 +41,9 @@ pub(super) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedLedger, Error> {
             Err(e) => eprintln!("{:?}", e),
         }
     }
+    if files.is_empty() && !pattern.contains(|c| c == '*' || c == '?' || c == '[') {
+        return Err(tokenizer.error(ParserError::CannotReadFile(pattern)));
+    }
     let mut items: ParsedLedger = ParsedLedger::new();
     for file in files {
         let mut inner_tokenizer: Tokenizer = Tokenizer::from(&file);
-- 
2.43.0


From 2268a6f1222a96ce79afae4ff8a46907a463b53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:40 +0000
Subject: [PATCH 27/48] fix: options given as --option=value and -ovalue
 override those of the init file

---
 src/app.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/app.rs b/src/app.rs
index 555db65..9f45c76 100644
--- a/src/app.rs
+++ b/src/app.rs
@@ -128,6 +128,10 @@ pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
             possible_paths.push(args[i + 1].clone());
             break;
         }
+        if let Some(path) = args[i].strip_prefix("--init-file=") {
+            possible_paths.push(path.to_string());
+            break;
+        }
     }
     possible_paths.push(shellexpand::tilde("~/.ledgerrc").to_string());
     possible_paths.push(".ledgerrc".to_string());
@@ -159,7 +163,11 @@ pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
                         let mut iter = line.split_whitespace();
                         let option = iter.next().unwrap();
                         if !args.iter().any(|x| {
-                            (x == option) | (aliases.get(x).unwrap_or(&String::new()) == option)
+                            let name = match x.starts_with("--") {
+                                true => x.split('=').next().unwrap(), // --option=value
+                                false => x.get(..2).unwrap_or(x),     // -ovalue
+                            };
+                            (name == option) | (aliases.get(name).unwrap_or(&String::new()) == option)
                         }) {
                             args.push(option.to_string());
                             let mut rest = String::new();
-- 
2.43.0


From ef86b23dd834b4329a319edeba1a82613ba3ed20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:54 +0000
Subject: [PATCH 28/48] fix: reject value expressions as the amount of ordinary
 postings instead of ignoring them

---
 src/parser/tokenizers/transaction.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 59c60f0..0930e91 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -274,6 +274,15 @@ fn parse_posting(
         match tokenizer.get_char() {
             Some('(') => {
                 // This is a value expression
+                match transaction_type {
+                    TransactionType::Automated if posting.money_amount.is_none() => (),
+                    _ => {
+                        return Err(ParserError::UnexpectedInput(Some(
+                            "Value expressions can only be the amount of automated postings"
+                                .to_string(),
+                        )))
+                    }
+                }
                 posting.amount_expr = Some(chars::get_value_expression(tokenizer));
             }
             Some('\n') => break,
-- 
2.43.0


From f7debf7d7ea721d94ff2c4729b48a7aacd19275e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:09 +0000
Subject: [PATCH 29/48] fix: say where malformed dates, prices and directives
 are instead of crashing

---
 src/parser/tokenizers/account.rs     | 11 +++++++++--
 src/parser/tokenizers/commodity.rs   |  5 +++--
 src/parser/tokenizers/payee.rs       | 12 ++++++++++--
 src/parser/tokenizers/price.rs       |  8 +++++---
 src/parser/tokenizers/tag.rs         |  6 +++++-
 src/parser/tokenizers/transaction.rs | 18 ++++++++++++++----
 src/parser/utils.rs                  | 22 ++++++++++++++++------
 7 files changed, 62 insertions(+), 20 deletions(-)

diff --git a/src/parser/tokenizers/account.rs b/src/parser/tokenizers/account.rs
index 90119d0..d1a61a9 100644
--- a/src/parser/tokenizers/account.rs
+++ b/src/parser/tokenizers/account.rs
@@ -1,5 +1,6 @@
 use crate::models::{Account, Origin};
 use crate::parser::chars::LineType;
+use crate::parser::utils::bad_line;
 use crate::parser::{chars, Tokenizer};
 use crate::ParserError;
 use lazy_static::lazy_static;
@@ -13,8 +14,11 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Account, ParserError> {
         r"(.*)"                 , // description
         ).as_str()).unwrap();
     }
+    let line_index = tokenizer.line_index;
     let mystr = chars::get_line(tokenizer);
-    let caps = RE.captures(mystr.as_str()).unwrap();
+    let caps = RE
+        .captures(mystr.as_str())
+        .ok_or_else(|| bad_line(tokenizer, line_index, "Could not parse account"))?;
 
     let mut name = String::new();
     let mut detected: bool = false;
@@ -68,7 +72,10 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Account, ParserError> {
                     assert.push(chars::get_line(tokenizer).trim().to_string());
                 }
                 "payee" => {
-                    payee.push(Regex::new(chars::get_line(tokenizer).trim()).unwrap());
+                    let line_index = tokenizer.line_index;
+                    let regex = Regex::new(chars::get_line(tokenizer).trim())
+                        .map_err(|e| bad_line(tokenizer, line_index, &e.to_string()))?;
+                    payee.push(regex);
                 }
                 "default" => default = true,
                 found => {
diff --git a/src/parser/tokenizers/commodity.rs b/src/parser/tokenizers/commodity.rs
index bdf43ff..6277578 100644
--- a/src/parser/tokenizers/commodity.rs
+++ b/src/parser/tokenizers/commodity.rs
@@ -4,15 +4,16 @@ use std::collections::HashSet;
 use crate::models::{Comment, Currency, Origin};
 use crate::parser::chars::LineType;
 use crate::parser::tokenizers::comment;
-use crate::parser::utils::parse_string;
+use crate::parser::utils::{bad_line, parse_string};
 use crate::parser::{chars, Tokenizer};
 use crate::ParserError;
 use pest::Parser;
 
 pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Currency, ParserError> {
+    let line_index = tokenizer.line_index;
     let mystr = chars::get_line(tokenizer);
     let mut parsed = GrammarParser::parse(Rule::commodity, mystr.as_str())
-        .expect("Could not parse commodity!") // unwrap the parse result
+        .map_err(|_| bad_line(tokenizer, line_index, "Could not parse commodity"))?
         .next()
         .unwrap()
         .into_inner();
diff --git a/src/parser/tokenizers/payee.rs b/src/parser/tokenizers/payee.rs
index e13b9ac..8b4b633 100644
--- a/src/parser/tokenizers/payee.rs
+++ b/src/parser/tokenizers/payee.rs
@@ -6,6 +6,7 @@ use regex::Regex;
 use crate::models::{Comment, Origin, Payee};
 use crate::parser::chars::LineType;
 use crate::parser::tokenizers::comment;
+use crate::parser::utils::bad_line;
 use crate::parser::{chars, Tokenizer};
 use crate::ParserError;
 
@@ -17,8 +18,11 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Payee, ParserError> {
         r"(  ;.*)?$"            , // note
         ).as_str()).unwrap();
     }
+    let line_index = tokenizer.line_index;
     let mystr = chars::get_line(tokenizer);
-    let caps = RE.captures(mystr.as_str()).unwrap();
+    let caps = RE
+        .captures(mystr.as_str())
+        .ok_or_else(|| bad_line(tokenizer, line_index, "Could not parse payee"))?;
 
     let mut name = String::new();
     let mut detected: bool = false;
@@ -60,7 +64,11 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Payee, ParserError> {
             ';' => comments.push(comment::parse(tokenizer)),
             _ => match chars::get_string(tokenizer).as_str() {
                 "alias" => {
-                    alias.insert(chars::get_line(tokenizer).trim().to_string());
+                    let line_index = tokenizer.line_index;
+                    let regex = chars::get_line(tokenizer).trim().to_string();
+                    Regex::new(&regex)
+                        .map_err(|e| bad_line(tokenizer, line_index, &e.to_string()))?;
+                    alias.insert(regex);
                 }
                 _ => {
                     eprintln!("Error while parsing posting.");
diff --git a/src/parser/tokenizers/price.rs b/src/parser/tokenizers/price.rs
index 6d0a89e..49dd27d 100644
--- a/src/parser/tokenizers/price.rs
+++ b/src/parser/tokenizers/price.rs
@@ -1,18 +1,20 @@
 use super::super::{GrammarParser, Rule};
 use crate::models::ParsedPrice;
-use crate::parser::utils::{parse_date, parse_rational, parse_string};
+use crate::parser::utils::{bad_line, parse_date, parse_rational, parse_string};
 use crate::parser::{chars, Tokenizer};
 use crate::ParserError;
 use pest::Parser;
 
 pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedPrice, ParserError> {
+    let line_index = tokenizer.line_index;
     let mystr = chars::get_line(tokenizer);
     let mut parsed = GrammarParser::parse(Rule::price, mystr.as_str())
-        .expect("Could not parse price!") // unwrap the parse result
+        .map_err(|_| bad_line(tokenizer, line_index, "Could not parse price"))?
         .next()
         .unwrap()
         .into_inner();
-    let date = parse_date(parsed.next().unwrap());
+    let date = parse_date(parsed.next().unwrap())
+        .ok_or_else(|| bad_line(tokenizer, line_index, "Wrong date"))?;
     let commodity = {
         let time_or_commodity = parsed.next().unwrap();
         match time_or_commodity.as_rule() {
diff --git a/src/parser/tokenizers/tag.rs b/src/parser/tokenizers/tag.rs
index 52ef6b5..3d4e857 100644
--- a/src/parser/tokenizers/tag.rs
+++ b/src/parser/tokenizers/tag.rs
@@ -3,6 +3,7 @@ use regex::Regex;
 
 use crate::models::Tag;
 use crate::parser::chars::LineType;
+use crate::parser::utils::bad_line;
 use crate::parser::{chars, Tokenizer};
 use crate::ParserError;
 
@@ -13,8 +14,11 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Tag, ParserError> {
         r"(.*)"           , // description
         ).as_str()).unwrap();
     }
+    let line_index = tokenizer.line_index;
     let mystr = chars::get_line(tokenizer);
-    let caps = RE.captures(mystr.as_str()).unwrap();
+    let caps = RE
+        .captures(mystr.as_str())
+        .ok_or_else(|| bad_line(tokenizer, line_index, "Could not parse tag"))?;
 
     let mut name = String::new();
     let mut detected: bool = false;
diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 0930e91..0dbd1a8 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -2,7 +2,7 @@ use super::super::{GrammarParser, Rule};
 use crate::models::{Comment, PostingType, PriceType, Transaction, TransactionType};
 use crate::parser::chars::LineType;
 use crate::parser::tokenizers::comment;
-use crate::parser::utils::{parse_date, parse_string};
+use crate::parser::utils::{bad_line, parse_date, parse_string};
 use crate::parser::{chars, Tokenizer};
 use crate::{Error, ParserError};
 use lazy_static::lazy_static;
@@ -18,23 +18,33 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Transaction<RawPosting>
 
 /// Parses a transaction
 fn parse_with_grammar(tokenizer: &mut Tokenizer) -> Result<Transaction<RawPosting>, Error> {
+    let line_index = tokenizer.line_index;
     let mystr = chars::get_line(tokenizer);
     let mut parsed = GrammarParser::parse(Rule::transaction, mystr.as_str())
-        .expect("Could not parse transaction!") // unwrap the parse result
+        .map_err(|_| {
+            let error = bad_line(tokenizer, line_index, "Could not parse transaction");
+            tokenizer.error(error)
+        })?
         .next()
         .unwrap()
         .into_inner();
 
     let mut transaction = Transaction::<RawPosting>::new(TransactionType::Real);
-    transaction.date = Some(parse_date(parsed.next().unwrap()));
+    transaction.date = parse_date(parsed.next().unwrap());
+    let mut bad_date = transaction.date.is_none();
     let mut next_item = parsed.next().unwrap();
     if next_item.as_rule() == Rule::time {
         next_item = parsed.next().unwrap()
     }
     if next_item.as_rule() == Rule::date {
-        transaction.effective_date = Some(parse_date(next_item));
+        transaction.effective_date = parse_date(next_item);
+        bad_date |= transaction.effective_date.is_none();
         next_item = parsed.next().unwrap()
     }
+    if bad_date {
+        let error = bad_line(tokenizer, line_index, "Wrong date");
+        return Err(tokenizer.error(error));
+    }
     if next_item.as_rule() == Rule::time {
         next_item = parsed.next().unwrap()
     }
diff --git a/src/parser/utils.rs b/src/parser/utils.rs
index 6de27ef..42d8118 100644
--- a/src/parser/utils.rs
+++ b/src/parser/utils.rs
@@ -1,23 +1,33 @@
 //! This module contains auxiliary parsers
 
-use super::Rule;
+use super::{Rule, Tokenizer};
+use crate::ParserError;
 use chrono::NaiveDate;
 use num::{BigInt, BigRational};
 use pest::iterators::Pair;
 use std::str::FromStr;
 
-/// Parses a date
-pub(crate) fn parse_date(date: Pair<Rule>) -> NaiveDate {
+/// Goes back to the beginning of the line which could not be parsed, so that the error points to it
+pub(crate) fn bad_line(tokenizer: &mut Tokenizer, line_index: usize, message: &str) -> ParserError {
+    tokenizer.line_index = line_index;
+    tokenizer.line_position = 0;
+    ParserError::UnexpectedInput(Some(message.to_string()))
+}
+
+/// Parses a date, it is None if there is no such day
+pub(crate) fn parse_date(date: Pair<Rule>) -> Option<NaiveDate> {
     // Assume date is a Rule::date
     let mut parsed = date.into_inner();
-    let year = i32::from_str(parsed.next().unwrap().as_str()).unwrap();
+    let year = i32::from_str(parsed.next().unwrap().as_str()).ok()?;
     let sep1 = parsed.next().unwrap().as_str();
     let month = u32::from_str(parsed.next().unwrap().as_str()).unwrap();
     let sep2 = parsed.next().unwrap().as_str();
     let day = u32::from_str(parsed.next().unwrap().as_str()).unwrap();
 
-    assert_eq!(sep1, sep2, "wrong date separator");
-    NaiveDate::from_ymd(year, month, day)
+    if sep1 != sep2 {
+        return None;
+    }
+    NaiveDate::from_ymd_opt(year, month, day)
 }
 
 pub(crate) fn parse_rational(number: Pair<Rule>) -> BigRational {
-- 
2.43.0


From c273cca1c0af8e228db4f3a0c8bf6cf9dbcd7da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:21 +0000
Subject: [PATCH 30/48] fix: lines which have the name of a directive in the
 middle are not that directive

---
 src/parser/tokenizers/account.rs | 2 +-
 src/parser/tokenizers/payee.rs   | 2 +-
 src/parser/tokenizers/tag.rs     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/tokenizers/account.rs b/src/parser/tokenizers/account.rs
index d1a61a9..ece40b6 100644
--- a/src/parser/tokenizers/account.rs
+++ b/src/parser/tokenizers/account.rs
@@ -10,7 +10,7 @@ use std::collections::HashSet;
 pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Account, ParserError> {
     lazy_static! {
         static ref RE: Regex = Regex::new(format!("{}{}",
-        r"(account) +"        , // directive commodity
+        r"^(account) +"        , // directive commodity
         r"(.*)"                 , // description
         ).as_str()).unwrap();
     }
diff --git a/src/parser/tokenizers/payee.rs b/src/parser/tokenizers/payee.rs
index 8b4b633..3e0e508 100644
--- a/src/parser/tokenizers/payee.rs
+++ b/src/parser/tokenizers/payee.rs
@@ -13,7 +13,7 @@ use crate::ParserError;
 pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Payee, ParserError> {
     lazy_static! {
         static ref RE: Regex = Regex::new(format!("{}{}{}",
-        r"(payee) +"            , // payee directive
+        r"^(payee) +"            , // payee directive
         r"(.*?)"                , // description
         r"(  ;.*)?$"            , // note
         ).as_str()).unwrap();
diff --git a/src/parser/tokenizers/tag.rs b/src/parser/tokenizers/tag.rs
index 3d4e857..2387b92 100644
--- a/src/parser/tokenizers/tag.rs
+++ b/src/parser/tokenizers/tag.rs
@@ -10,7 +10,7 @@ use crate::ParserError;
 pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Tag, ParserError> {
     lazy_static! {
         static ref RE: Regex = Regex::new(format!("{}{}",
-        r"(tag) +"        , // tag directive
+        r"^(tag) +"        , // tag directive
         r"(.*)"           , // description
         ).as_str()).unwrap();
     }
-- 
2.43.0


From 4ad3d2caf506e81606f441a48acf705087f5d896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:33 +0000
Subject: [PATCH 31/48] fix: refuse dates of options which do not exist with a
 message, and those with text before them

---
 src/app.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/app.rs b/src/app.rs
index 9f45c76..ec5671c 100644
--- a/src/app.rs
+++ b/src/app.rs
@@ -245,34 +245,37 @@ pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
 /// A parser for date expressions
 pub fn date_parser(date: &str) -> Result<NaiveDate, Error> {
     lazy_static! {
-        static ref RE_MONTH: Regex = Regex::new(r"(\d{4})[/-](\d\d?)$").unwrap();
-        static ref RE_DATE: Regex = Regex::new(r"(\d{4})[/-](\d\d?)[/-](\d\d?)$").unwrap();
+        static ref RE_MONTH: Regex = Regex::new(r"^(\d{4})[/-](\d\d?)$").unwrap();
+        static ref RE_DATE: Regex = Regex::new(r"^(\d{4})[/-](\d\d?)[/-](\d\d?)$").unwrap();
     }
+    let invalid = || Error {
+        message: vec![format!("Invalid date {}", date)
+            .as_str()
+            .bold()
+            .bright_red()],
+    };
     if RE_DATE.is_match(date) {
         let captures = RE_DATE.captures(date).unwrap();
-        Ok(NaiveDate::from_ymd(
+        NaiveDate::from_ymd_opt(
             captures.get(1).unwrap().as_str().parse::<i32>().unwrap(),
             captures.get(2).unwrap().as_str().parse::<u32>().unwrap(),
             captures.get(3).unwrap().as_str().parse::<u32>().unwrap(),
-        ))
+        )
+        .ok_or_else(invalid)
     } else if RE_MONTH.is_match(date) {
         let captures = RE_MONTH.captures(date).unwrap();
-        Ok(NaiveDate::from_ymd(
+        NaiveDate::from_ymd_opt(
             captures.get(1).unwrap().as_str().parse::<i32>().unwrap(),
             captures.get(2).unwrap().as_str().parse::<u32>().unwrap(),
             1,
-        ))
+        )
+        .ok_or_else(invalid)
     } else {
         match two_timer::parse(date, None) {
             Ok((t1, _t2, _b)) => Ok(t1.date()),
             Err(e) => {
                 eprintln!("{:?}", e);
-                Err(Error {
-                    message: vec![format!("Invalid date {}", date)
-                        .as_str()
-                        .bold()
-                        .bright_red()],
-                })
+                Err(invalid())
             }
         }
     }
-- 
2.43.0


From 58dbe13fcf9d711b31c10501696d0d7161e6c021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:03 +0000
Subject: [PATCH 32/48] fix: balance tree rows only stand for a parent and its
 child when there is nothing else below

---
 src/commands/balance.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/commands/balance.rs b/src/commands/balance.rs
index 3635eab..07cc745 100644
--- a/src/commands/balance.rs
+++ b/src/commands/balance.rs
@@ -226,10 +226,11 @@ pub fn execute(options: &CommonOpts, flat: bool, show_total: bool) -> Result<(),
                 if bal.balance != child_bal.balance {
                     break;
                 }
-                // There may be other children which add up to zero
-                if vec_balances[index + 2..].iter().any(|x| {
-                    is_child(vec_balances[index].0, x.0) && x.0.split(":").count() == n + 1
-                }) {
+                // There may be other children which add up to zero, or descendants of such children
+                if vec_balances[index + 2..]
+                    .iter()
+                    .any(|x| is_child(vec_balances[index].0, x.0) && !is_child(child, x.0))
+                {
                     break;
                 }
                 text.push(':');
-- 
2.43.0


From 1606e2bd82f3383cc311a7ca9ee8f631c72f6725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:37 +0000
Subject: [PATCH 33/48] fix: the multipliers of automated transactions are not
 a commodity without name

---
 src/models/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/models/mod.rs b/src/models/mod.rs
index a23b821..774621f 100644
--- a/src/models/mod.rs
+++ b/src/models/mod.rs
@@ -69,7 +69,13 @@ impl ParsedLedger {
                 }
                 // Currencies
                 if let Some(c) = &p.money_currency {
-                    commodity_strs.insert(c.clone());
+                    match transaction.transaction_type {
+                        // Just a multiplier
+                        TransactionType::Automated if c.is_empty() => (),
+                        _ => {
+                            commodity_strs.insert(c.clone());
+                        }
+                    }
                 }
                 if let Some(c) = &p.cost_currency {
                     commodity_strs.insert(c.clone());
-- 
2.43.0


From 5b11acb21916854b2f5502ced20b8cca9409f4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:08 +0000
Subject: [PATCH 34/48] fix: the first of several directives for a name wins,
 also when they are in included files

---
 src/list.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/list.rs b/src/list.rs
index 7461a88..4cba04c 100644
--- a/src/list.rs
+++ b/src/list.rs
@@ -131,8 +131,17 @@ impl<'a, T: Eq + Hash + HasName + Clone + FromDirective + HasAliases + Debug> Li
 
 impl<T: Clone> List<T> {
     pub fn append(&mut self, other: &List<T>) {
-        self.list.extend(other.to_owned().list.into_iter());
-        self.aliases.extend(other.to_owned().aliases.into_iter());
+        // When an element is repeated the first one stays, as in insert
+        for (alias, name) in other.aliases.iter() {
+            if !self.list.contains_key(name) {
+                self.aliases.insert(alias.clone(), name.clone());
+            }
+        }
+        for (name, element) in other.list.iter() {
+            self.list
+                .entry(name.clone())
+                .or_insert_with(|| element.clone());
+        }
     }
 }
 
-- 
2.43.0


From 7a562f5ae0f09e99bb34967c6d89628239db45e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:30 +0000
Subject: [PATCH 35/48] fix: what a negative bracketed posting with a unit cost
 is worth is negative as well

---
 src/models/transaction.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/models/transaction.rs b/src/models/transaction.rs
index eb2f8d5..5a02c80 100644
--- a/src/models/transaction.rs
+++ b/src/models/transaction.rs
@@ -239,12 +239,7 @@ fn total_balance(postings: &Vec<Posting>, kind: PostingType) -> Balance {
                         Money::Money { amount, .. } => amount.clone(),
                     };
                     let money = Money::Money {
-                        amount: units
-                            * (if p.amount.as_ref().unwrap().is_negative() {
-                                -BigInt::from(1)
-                            } else {
-                                BigInt::from(1)
-                            }),
+                        amount: units,
                         currency: currency.clone(),
                     };
                     Balance::from(money)
-- 
2.43.0


From c5ba0cd513f5410253dc9908e37cf6be495952a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:18 +0000
Subject: [PATCH 36/48] fix: reject malformed amounts of automated postings
 instead of reading the rest of the line as an expression

---
 src/parser/tokenizers/transaction.rs | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 0dbd1a8..45ff69f 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -353,18 +353,7 @@ fn parse_posting(
                     posting.money_amount = Some(money.0);
                     posting.money_currency = Some(money.1);
                 }
-                Err(e) => match transaction_type {
-                    TransactionType::Real | TransactionType::Periodic => return Err(e),
-                    TransactionType::Automated => {
-                        posting.amount_expr = Some(chars::get_line(tokenizer));
-
-                        // Go back to the end of the line, if the file does not end here
-                        if tokenizer.content[tokenizer.position - 1] == '\n' {
-                            tokenizer.line_index -= 1;
-                            tokenizer.position -= 1;
-                        }
-                    }
-                },
+                Err(e) => return Err(e),
             },
         }
         chars::consume_whitespaces(tokenizer);
-- 
2.43.0


From e15aa57a621854c7c37f66a42c94548c7f073efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:41 +0000
Subject: [PATCH 37/48] fix: reject malformed value expressions of automated
 postings, also when nothing matches, and text after them

---
 src/grammar/grammar.pest             | 2 ++
 src/parser/tokenizers/transaction.rs | 7 ++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index 1c14ff1..a814bfa 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -41,6 +41,8 @@ second = { ("0"|"1"|"2"|"3"|"4"|"5") ~ ASCII_DIGIT ~ ("." ~ bigint)? }
 
 // A value expression is an expression between parenthesis
 value_expr = {"(" ~ ws* ~ expr ~ ws* ~ ")"}
+// The amount of an automated posting
+amount_expr = { value_expr ~ EOI }
 
 // Then the expression builds up in terms of increasing preference
 expr = { or_expr }
diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 45ff69f..9d82fdb 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -293,7 +293,12 @@ fn parse_posting(
                         )))
                     }
                 }
-                posting.amount_expr = Some(chars::get_value_expression(tokenizer));
+                let line_index = tokenizer.line_index;
+                let expression = chars::get_value_expression(tokenizer);
+                if GrammarParser::parse(Rule::amount_expr, expression.trim()).is_err() {
+                    return Err(bad_line(tokenizer, line_index, "Malformed value expression"));
+                }
+                posting.amount_expr = Some(expression);
             }
             Some('\n') => break,
             None => break,
-- 
2.43.0


From 69bd425265447bacd4cc4e048576784be9601fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:46 +0000
Subject: [PATCH 38/48] fix: separate the amounts of a balance in the
 diagnostics of failed assertions

---
 src/models/balance.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/models/balance.rs b/src/models/balance.rs
index 1f0c1a0..c34a01f 100644
--- a/src/models/balance.rs
+++ b/src/models/balance.rs
@@ -69,11 +69,8 @@ impl Balance {
 
 impl Display for Balance {
     fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
-        let mut string = String::new();
-        for (_, v) in self.balance.iter() {
-            string.push_str(format!("{}", v).as_str());
-        }
-        write!(f, "{}", string)
+        let amounts: Vec<String> = self.balance.values().map(|v| v.to_string()).collect();
+        write!(f, "{}", amounts.join(", "))
     }
 }
 
-- 
2.43.0


From da2b26f360f346797d485c353753add468064262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:46 +0000
Subject: [PATCH 39/48] fix: warn about duplicate directives by their name, the
 order of the aliases was random

---
 src/list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/list.rs b/src/list.rs
index 4cba04c..8c63390 100644
--- a/src/list.rs
+++ b/src/list.rs
@@ -40,7 +40,7 @@ impl<'a, T: Eq + Hash + HasName + Clone + FromDirective + HasAliases + Debug> Li
     pub fn insert(&mut self, element: T) {
         let found = self.list.get(&element.get_name().to_lowercase());
         match found {
-            Some(_) => eprintln!("Duplicate element: {:?}", element), // do nothing
+            Some(_) => eprintln!("Duplicate element: {}", element.get_name()), // do nothing
             None => {
                 // Change the name which will be used as key to lowercase
                 let name = element.get_name().to_string().to_lowercase();
-- 
2.43.0


From 33e8f87553e47eb77e46f63ea50caae14427b4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:46 +0000
Subject: [PATCH 40/48] fix: check honours --no-balance-check as the other
 commands do

---
 src/app.rs            | 2 +-
 src/commands/check.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/app.rs b/src/app.rs
index ec5671c..974ab94 100644
--- a/src/app.rs
+++ b/src/app.rs
@@ -231,7 +231,7 @@ pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
 
             accounts::execute(options.input_file, options.no_balance_check)
         }
-        Command::Check(options) => check::execute(options.input_file),
+        Command::Check(options) => check::execute(options.input_file, options.no_balance_check),
     } {
         let err_str = format!("{}", e);
         if err_str.len() > 0 {
diff --git a/src/commands/check.rs b/src/commands/check.rs
index 645733c..4b2c37a 100644
--- a/src/commands/check.rs
+++ b/src/commands/check.rs
@@ -5,11 +5,11 @@ use colored::Colorize;
 use crate::error::Error;
 use crate::parser::Tokenizer;
 
-pub fn execute(path: PathBuf) -> Result<(), Error> {
+pub fn execute(path: PathBuf, no_balance_check: bool) -> Result<(), Error> {
     let mut tokenizer: Tokenizer = Tokenizer::from(&path);
     let parsed = tokenizer.tokenize()?;
 
-    match parsed.to_ledger(false) {
+    match parsed.to_ledger(no_balance_check) {
         Ok(_) => println!(
             "Input file {} is {}",
             path.to_str().unwrap().bold(),
-- 
2.43.0


From d2c1a23e523192a718ad6f7e076467c1ddc31223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:46 +0000
Subject: [PATCH 41/48] fix: unary operators of value expressions do not take
 everything which follows

---
 src/grammar/grammar.pest | 6 ++++--
 src/parser/value_expr.rs | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index a814bfa..9ea6229 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -53,7 +53,8 @@ additive_expr = { multiplicative_expr ~ ws* ~ ( add ~ ws* ~ multiplicative_expr
 multiplicative_expr = { primary ~ ws* ~ ( mult ~ ws* ~ primary ~ ws* )* }
 primary = {
     ("(" ~ ws* ~ expr ~ ws* ~ ")") |
-    (unary ~ ws* ~ expr) |
+    (negation ~ ws* ~ primary) |
+    (not ~ ws* ~ comparison_expr) |
     term |
     (function ~ ws* ~ "(" ~ ws* ~ expr ~ ws* ~ ("," ~ ws* ~ expr ~ ws*)* ~ ")")
     }
@@ -105,7 +106,8 @@ add = { "+" | "-" }
 mult = { "*" | "/" }
 and = {"&" | "and"}
 or = {"|" | "or" }
-unary = { "-" | "!" | "not" }
+negation = { "-" }
+not = { "!" | "not" }
 function = { "abs" | "has_tag" | "to_date" | "any" | "tag" }
 comparison = { eq | ne | ge | gt | le | lt }
 eq = { "=~" | "=="}
diff --git a/src/parser/value_expr.rs b/src/parser/value_expr.rs
index c78d3c9..df1c2b9 100644
--- a/src/parser/value_expr.rs
+++ b/src/parser/value_expr.rs
@@ -441,7 +441,7 @@ fn build_ast_from_expr(
             let mut inner = pair.into_inner();
             let first = inner.next().unwrap();
             match first.as_rule() {
-                Rule::function | Rule::unary => {
+                Rule::function | Rule::negation | Rule::not => {
                     let op = match first.as_str() {
                         "abs" => Unary::Abs,
                         "-" => Unary::Neg,
-- 
2.43.0


From fca2c172f717172d1ed2b615ff13f5c7de6a83fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:46 +0000
Subject: [PATCH 42/48] fix: a number before an operator of a value expression
 is not an amount of a commodity called like it

---
 src/grammar/grammar.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index 9ea6229..b31e677 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -61,7 +61,8 @@ primary = {
 
 
 term = _{ variable | money | number | regex | string }
-money = { (number ~ ws* ~ currency) | (currency ~ ws* ~ number) }
+// A number is not a currency and neither are the operators
+money = { (number ~ ws* ~ !(ASCII_DIGIT | (and | or) ~ (ws | "(" | ")")) ~ currency) | (!ASCII_DIGIT ~ currency ~ ws* ~ number) }
 currency = { string | unquoted }
 regex = { "/" ~ (!"/" ~ ANY)* ~ "/"}
 string = {
-- 
2.43.0


From 549f30cb1fceb48f44d45ff23f80ce3c1143431e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:46 +0000
Subject: [PATCH 43/48] fix: evaluate != and ! in value expressions

---
 src/grammar/grammar.pest | 2 +-
 src/parser/value_expr.rs | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index b31e677..d2873a9 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -62,7 +62,7 @@ primary = {
 
 term = _{ variable | money | number | regex | string }
 // A number is not a currency and neither are the operators
-money = { (number ~ ws* ~ !(ASCII_DIGIT | (and | or) ~ (ws | "(" | ")")) ~ currency) | (!ASCII_DIGIT ~ currency ~ ws* ~ number) }
+money = { (number ~ ws* ~ !(ASCII_DIGIT | ne | (and | or) ~ (ws | "(" | ")")) ~ currency) | (!ASCII_DIGIT ~ currency ~ ws* ~ number) }
 currency = { string | unquoted }
 regex = { "/" ~ (!"/" ~ ANY)* ~ "/"}
 string = {
diff --git a/src/parser/value_expr.rs b/src/parser/value_expr.rs
index df1c2b9..45f3b31 100644
--- a/src/parser/value_expr.rs
+++ b/src/parser/value_expr.rs
@@ -415,6 +415,7 @@ fn build_ast_from_expr(
             let mut lhs = build_ast_from_expr(lhspair, regexes);
             // Chains like a + b + c come as a flat list, they associate to the left
             while let Some(x) = pair.next() {
+                let negated = x.as_str() == "!=";
                 let op = match rule {
                     Rule::or_expr => Binary::Or,
                     Rule::and_expr => Binary::And,
@@ -423,7 +424,7 @@ fn build_ast_from_expr(
                         "-" => Binary::Subtract,
                         "*" => Binary::Mult,
                         "/" => Binary::Div,
-                        "=~" | "==" => Binary::Eq,
+                        "=~" | "==" | "!=" => Binary::Eq,
                         "<" => Binary::Lt,
                         ">" => Binary::Gt,
                         "<=" => Binary::Le,
@@ -434,6 +435,9 @@ fn build_ast_from_expr(
                 let rhspair = pair.next().unwrap();
                 let rhs = build_ast_from_expr(rhspair, regexes);
                 lhs = parse_binary_expr(op, lhs, rhs);
+                if negated {
+                    lhs = parse_unary_expr(Unary::Not, lhs);
+                }
             }
             lhs
         }
@@ -448,7 +452,7 @@ fn build_ast_from_expr(
                         "has_tag" => Unary::HasTag,
                         "tag" => Unary::Tag,
                         "to_date" => Unary::ToDate,
-                        "not" => Unary::Not,
+                        "not" | "!" => Unary::Not,
                         "any" => Unary::Any,
                         unknown => panic!("Unknown expr: {:?}", unknown),
                     };
-- 
2.43.0


From 1b8c82a50a608e4aea67f613e6853b9f581113c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:46 +0000
Subject: [PATCH 44/48] fix: reject commodities with a missing or misplaced
 quote instead of swallowing the line

---
 src/grammar/grammar.pest             |  2 +-
 src/parser/tokenizers/transaction.rs | 29 +++++++++++++++++-----------
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index d2873a9..434e5d2 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -69,7 +69,7 @@ string = {
 	("\"" ~ (("\\\"") | (!"\"" ~ ANY))* ~ "\"") |
 	("'" ~ (("\\'") | (!"'" ~ ANY))* ~ "'")
     }
-reserved = _{"+" | "*" | "/" | "\\" | "|" | "%" | "<" | ">" | ":" | "?" |  "(" |  ")" | ";"}
+reserved = _{"+" | "*" | "/" | "\\" | "|" | "%" | "<" | ">" | ":" | "?" |  "(" |  ")" | ";" | "\""}
 unquoted = { !reserved ~ !"=" ~ !"-" ~ !"&" ~
     (!reserved ~ !SEPARATOR ~ ANY)+ }
 variable = {
diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 9d82fdb..e74e5eb 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -368,7 +368,7 @@ fn parse_posting(
 
 /// Parses money
 fn parse_money(tokenizer: &mut Tokenizer) -> Result<(BigRational, String), ParserError> {
-    let mut currency: String;
+    let currency: String;
     let amount: BigRational;
 
     match tokenizer.get_char() {
@@ -380,18 +380,10 @@ fn parse_money(tokenizer: &mut Tokenizer) -> Result<(BigRational, String), Parse
                     return Err(e);
                 }
             };
-            currency = chars::get_string(tokenizer);
-            if currency.starts_with("\"") {
-                let n = currency.len();
-                currency = currency[1..n - 1].to_string();
-            }
+            currency = parse_currency(tokenizer)?;
         }
         Some(_) => {
-            currency = chars::get_string(tokenizer);
-            if currency.starts_with("\"") {
-                let n = currency.len();
-                currency = currency[1..n - 1].to_string();
-            }
+            currency = parse_currency(tokenizer)?;
             amount = match parse_amount(tokenizer) {
                 Ok(amount) => amount,
                 Err(e) => {
@@ -409,6 +401,21 @@ fn parse_money(tokenizer: &mut Tokenizer) -> Result<(BigRational, String), Parse
     Ok((amount, currency))
 }
 
+/// Parses the name of a currency, if there are quotes they have to go around it
+fn parse_currency(tokenizer: &mut Tokenizer) -> Result<String, ParserError> {
+    chars::consume_whitespaces(tokenizer);
+    let start = tokenizer.position;
+    let currency = chars::get_string(tokenizer);
+    let text = &tokenizer.content[start..tokenizer.position];
+    let quotes = text.iter().filter(|c| **c == '"').count();
+    match (text.first(), quotes) {
+        (Some('"'), 2) | (_, 0) => Ok(currency),
+        _ => Err(ParserError::UnexpectedInput(Some(
+            "Unbalanced quotes".to_string(),
+        ))),
+    }
+}
+
 fn parse_amount(tokenizer: &mut Tokenizer) -> Result<BigRational, ParserError> {
     let mut num = String::new();
     let mut den = "1".to_string();
-- 
2.43.0


From d2bf27f5ca2656be73a46a3f32cac2f28ff5defc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:46 +0000
Subject: [PATCH 45/48] fix: reject postings with several costs or several
 balance assertions, only the last one counted

---
 src/parser/tokenizers/transaction.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index e74e5eb..af2d80b 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -306,7 +306,7 @@ fn parse_posting(
                 posting.comments.push(comment::parse(tokenizer));
                 return Ok(posting);
             }
-            Some('=') => {
+            Some('=') if posting.balance_amount.is_none() => {
                 tokenizer.position += 1;
                 tokenizer.line_position += 1;
                 chars::consume_whitespaces(tokenizer);
@@ -320,7 +320,7 @@ fn parse_posting(
                 posting.balance_amount = Some(money.0);
                 posting.balance_currency = Some(money.1);
             }
-            Some('@') => {
+            Some('@') if posting.cost_amount.is_none() => {
                 if posting.money_amount.is_none() {
                     return Err(ParserError::UnexpectedInput(Some(
                         "Amount not found".to_string(),
@@ -347,7 +347,7 @@ fn parse_posting(
                 posting.cost_amount = Some(money.0);
                 posting.cost_currency = Some(money.1);
             }
-            // There can only be one amount
+            // There can only be one amount, one cost and one balance
             Some(_) if posting.money_amount.is_some() | posting.balance_amount.is_some() => {
                 return Err(ParserError::UnexpectedInput(Some(
                     "Unexpected text after the amount".to_string(),
-- 
2.43.0


From f9911cd44fac588b7d781bfba3bec600296cdf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:46 +0000
Subject: [PATCH 46/48] fix: reject functions with more arguments than they
 take, the rest was ignored

---
 src/grammar/grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index 434e5d2..c0ece49 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -56,7 +56,7 @@ primary = {
     (negation ~ ws* ~ primary) |
     (not ~ ws* ~ comparison_expr) |
     term |
-    (function ~ ws* ~ "(" ~ ws* ~ expr ~ ws* ~ ("," ~ ws* ~ expr ~ ws*)* ~ ")")
+    (function ~ ws* ~ "(" ~ ws* ~ expr ~ ws* ~ ")")
     }
 
 
-- 
2.43.0


From a70d2900da04538336dedbcdd27efc78caf82544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:46 +0000
Subject: [PATCH 47/48] fix: say where the malformed query of an automated
 transaction is

---
 src/parser/tokenizers/transaction.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index af2d80b..52e7c9e 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -127,6 +127,7 @@ pub(crate) fn parse_automated_transaction(
     lazy_static! {
         static ref RE_AUTOMATED: Regex = Regex::new(format!("{}", r"=(.*)").as_str()).unwrap();
     }
+    let line_index = tokenizer.line_index;
     let mystr = chars::get_line(tokenizer);
     let caps = RE_AUTOMATED.captures(mystr.as_str()).unwrap();
 
@@ -141,6 +142,11 @@ pub(crate) fn parse_automated_transaction(
             None => (),
         }
     }
+    let query = transaction.get_filter_query();
+    if !is_valid_query(&query) {
+        let error = bad_line(tokenizer, line_index, "Malformed query");
+        return Err(tokenizer.error(error));
+    }
     // Have a flag so that it can be known whether a comment belongs to the transaction or to the
     // posting
     let mut parsed_posting = false;
@@ -184,6 +190,17 @@ pub(crate) fn parse_automated_transaction(
     Ok(transaction)
 }
 
+/// Whether a query can be turned into a tree
+fn is_valid_query(query: &str) -> bool {
+    match GrammarParser::parse(Rule::value_expr, query) {
+        Ok(parsed) => parsed
+            .flatten()
+            .filter(|x| x.as_rule() == Rule::regex)
+            .all(|x| Regex::new(x.as_str().trim_matches('/')).is_ok()),
+        Err(_) => false,
+    }
+}
+
 #[derive(Debug, Clone)]
 pub struct RawPosting {
     pub account: String,
-- 
2.43.0


From a50456813ead1d5ffc1e5a2822c626ff103257e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:46 +0000
Subject: [PATCH 48/48] fix: reject automated postings without amount also when
 nothing matches

---
 src/parser/tokenizers/transaction.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 52e7c9e..e9a0420 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -173,7 +173,14 @@ pub(crate) fn parse_automated_transaction(
                 ))));
             }
             _ => {
+                let line_index = tokenizer.line_index;
                 match parse_posting(tokenizer, transaction.transaction_type, &transaction.payee) {
+                    Ok(posting)
+                        if posting.money_amount.is_none() & posting.amount_expr.is_none() =>
+                    {
+                        let error = bad_line(tokenizer, line_index, "Amount not found");
+                        return Err(tokenizer.error(error));
+                    }
                     // Although here we already know the kind of the posting (virtual, real),
                     // we deal with that in the next phase of parsing
                     Ok(posting) => transaction.postings.borrow_mut().push(posting),
-- 
2.43.0

