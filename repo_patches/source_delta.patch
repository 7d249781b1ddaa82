From e2d9764adf5fafccf4dff0b10ac926ad7750aa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:34 +0000
Subject: [PATCH 01/24] fix: removing a key from a one-entry map consults the
 key's hash

swap_remove_full and shift_remove_full compared a lone entry by equality
only.  A key whose recorded hash no longer matches was reported absent by
lookups yet removed.
---
 rubymap/src/map.rs | 34 ++++++++--------------------------
 1 file changed, 8 insertions(+), 26 deletions(-)

diff --git a/rubymap/src/map.rs b/rubymap/src/map.rs
index 1e42989..af0cd20 100644
--- a/rubymap/src/map.rs
+++ b/rubymap/src/map.rs
@@ -983,20 +983,11 @@ where
     where
         Q: ?Sized + RubyHash<E, G, R> + Equivalent<K, E, G, R>,
     {
-        match self.as_entries() {
-            [x] if key.equivalent(&x.key, e, g)? => {
-                let (k, v) = match self.core.pop(e, g)? {
-                    Some((k, v)) => (k, v),
-                    None => return Ok(None),
-                };
-                Ok(Some((0, k, v)))
-            }
-            [_] | [] => Ok(None),
-            _ => {
-                let hash = self.hash(key, e, g)?;
-                self.core.swap_remove_full(hash, key, e, g)
-            }
+        if self.as_entries().is_empty() {
+            return Ok(None);
         }
+        let hash = self.hash(key, e, g)?;
+        self.core.swap_remove_full(hash, key, e, g)
     }
 
     /// Remove `key` from the index table only, leaving its entry in place
@@ -1116,20 +1107,11 @@ where
     where
         Q: ?Sized + RubyHash<E, G, R> + Equivalent<K, E, G, R>,
     {
-        match self.as_entries() {
-            [x] if key.equivalent(&x.key, e, g)? => {
-                let (k, v) = match self.core.pop(e, g)? {
-                    Some((k, v)) => (k, v),
-                    None => return Ok(None),
-                };
-                Ok(Some((0, k, v)))
-            }
-            [_] | [] => Ok(None),
-            _ => {
-                let hash = self.hash(key, e, g)?;
-                self.core.shift_remove_full(hash, key, e, g)
-            }
+        if self.as_entries().is_empty() {
+            return Ok(None);
         }
+        let hash = self.hash(key, e, g)?;
+        self.core.shift_remove_full(hash, key, e, g)
     }
 }
 
-- 
2.43.0


From e252532075fe3dc3ae91a6e6b91519a49af85535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:53 +0000
Subject: [PATCH 02/24] fix: return errors raised by key comparison while
 probing the table

RawTable::find and find_or_find_insert_slot treated a failing comparison
as 'not equal', so an exception raised by user code was lost and an
insertion could store a duplicate key.
---
 hashbrown/src/raw/mod.rs | 45 +++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/hashbrown/src/raw/mod.rs b/hashbrown/src/raw/mod.rs
index 46a7978..0cf8862 100644
--- a/hashbrown/src/raw/mod.rs
+++ b/hashbrown/src/raw/mod.rs
@@ -1011,17 +1011,27 @@ impl<T, E, G, R> RawTable<T, E, G, R> {
             // 3. The `find_or_find_insert_slot_inner` function returns the `index` of only the full bucket,
             //    which is in the range `0..self.buckets()` (since there is at least one empty `bucket` in
             //    the table), so calling `self.bucket(index)` and `Bucket::as_ref` is safe.
-            Ok(
-                match self
-                    .table
-                    .find_or_find_insert_slot_inner(hash, &mut |index| {
-                        eq(self.bucket(index).as_ref(), e, g).unwrap_or(false) // TO_BE_FIXED
-                    }) {
-                    // SAFETY: See explanation above.
-                    Ok(index) => Ok(self.bucket(index)),
-                    Err(slot) => Err(slot),
-                },
-            )
+            let mut error = None;
+            let result = self
+                .table
+                .find_or_find_insert_slot_inner(hash, &mut |index| {
+                    match eq(self.bucket(index).as_ref(), e, g) {
+                        Ok(found) => found,
+                        // Stop probing; the error is returned below.
+                        Err(err) => {
+                            error = Some(err);
+                            true
+                        }
+                    }
+                });
+            if let Some(err) = error {
+                return Err(err);
+            }
+            Ok(match result {
+                // SAFETY: See explanation above.
+                Ok(index) => Ok(self.bucket(index)),
+                Err(slot) => Err(slot),
+            })
         }
     }
 
@@ -1093,9 +1103,20 @@ impl<T, E, G, R> RawTable<T, E, G, R> {
             // 1. The `find_inner` function returns the `index` of only the full bucket, which is in
             //    the range `0..self.buckets()`, so calling `self.bucket(index)` and `Bucket::as_ref`
             //    is safe.
+            let mut error = None;
             let result = self.table.find_inner(hash, &mut |index| {
-                eq(self.bucket(index).as_ref(), e, g).unwrap_or(false) // TO_BE_FIXED
+                match eq(self.bucket(index).as_ref(), e, g) {
+                    Ok(found) => found,
+                    // Stop probing; the error is returned below.
+                    Err(err) => {
+                        error = Some(err);
+                        true
+                    }
+                }
             });
+            if let Some(err) = error {
+                return Err(err);
+            }
 
             // Avoid `Option::map` because it bloats LLVM IR.
             match result {
-- 
2.43.0


From cf53767520265cca2e2b9145a9790fa29b0dd9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:19 +0000
Subject: [PATCH 03/24] fix: get_or_insert_with returns comparison errors

A failing comparison of the freshly built value was reported as a panic
instead of being returned to the caller.
---
 hashbrown/src/set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hashbrown/src/set.rs b/hashbrown/src/set.rs
index 596e734..d62e9ec 100644
--- a/hashbrown/src/set.rs
+++ b/hashbrown/src/set.rs
@@ -685,7 +685,7 @@ where
             Err(slot) => {
                 let new = f(value);
                 assert!(
-                    value.equivalent(&new, e, g).unwrap_or(false), // TO_BE_FIXED
+                    value.equivalent(&new, e, g)?,
                     "new value is not equivalent"
                 );
                 unsafe { self.map.table.insert_in_slot(hash, slot, (new, ())) }
-- 
2.43.0


From 5e35432b0ec630a872722dd19cb95c4015ec0a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:30 +0000
Subject: [PATCH 04/24] fix: report overflow when reserving an unrepresentable
 number of entries

In builds without overflow checks the addition wrapped and the request
was silently ignored.
---
 hashbrown/src/raw/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hashbrown/src/raw/mod.rs b/hashbrown/src/raw/mod.rs
index 0cf8862..3561752 100644
--- a/hashbrown/src/raw/mod.rs
+++ b/hashbrown/src/raw/mod.rs
@@ -2457,7 +2457,10 @@ impl RawTableInner {
         drop: Option<unsafe fn(*mut u8)>,
     ) {
         // Avoid `Option::ok_or_else` because it bloats LLVM IR.
-        let new_items = self.items + additional;
+        let new_items = match self.items.checked_add(additional) {
+            Some(new_items) => new_items,
+            None => panic!("Hash table capacity overflow"),
+        };
         let full_capacity = bucket_mask_to_capacity(self.bucket_mask);
         if new_items <= full_capacity / 2 {
             // Rehash in-place without re-allocating if we have plenty of spare
-- 
2.43.0


From 2075d236062146393e1dadd382bdefb10ae15c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:32:47 +0000
Subject: [PATCH 05/24] fix: clear unfinished slots when hashing panics during
 an in-place rehash

When a user hash function panicked while a table was being rehashed in
place, slots that had not been rehashed were only cleared for element
types that need dropping. For other types the table kept counting the
lost elements, and a later iteration read past the end of the table.
---
 hashbrown/src/raw/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hashbrown/src/raw/mod.rs b/hashbrown/src/raw/mod.rs
index 3561752..6b303f5 100644
--- a/hashbrown/src/raw/mod.rs
+++ b/hashbrown/src/raw/mod.rs
@@ -2682,13 +2682,13 @@ impl RawTableInner {
         self.prepare_rehash_in_place();
 
         let mut guard = guard(self, move |self_| {
-            if let Some(drop) = drop {
-                for i in 0..self_.buckets() {
-                    if *self_.ctrl(i) == Tag::DELETED {
-                        self_.set_ctrl(i, Tag::EMPTY);
+            for i in 0..self_.buckets() {
+                if *self_.ctrl(i) == Tag::DELETED {
+                    self_.set_ctrl(i, Tag::EMPTY);
+                    if let Some(drop) = drop {
                         drop(self_.bucket_ptr(i, size_of));
-                        self_.items -= 1;
                     }
+                    self_.items -= 1;
                 }
             }
             self_.growth_left = bucket_mask_to_capacity(self_.bucket_mask) - self_.items;
-- 
2.43.0


From afb5b0d41b67a7267f52bcdfe645fe624e57fc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:29:21 +0000
Subject: [PATCH 06/24] fix: do not dispatch a thread that died while it was in
 the ready queue

---
 monoruby/src/scheduler.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/monoruby/src/scheduler.rs b/monoruby/src/scheduler.rs
index 7937142..b2c06af 100644
--- a/monoruby/src/scheduler.rs
+++ b/monoruby/src/scheduler.rs
@@ -1279,6 +1279,11 @@ fn dispatch(globals: &mut Globals, mut thread: Value) -> Result<()> {
         /// A never-started thread was killed / raised into: no body run.
         Skip(Option<MonorubyErr>),
     }
+    // A thread that died while queued (`fork` in another thread) has
+    // nothing left to run.
+    if thread.as_thread_inner().is_dead() {
+        return Ok(());
+    }
     // The kill tag allocates; do it outside the scheduler borrow.
     let kill_err = kill_unwind_error();
     // The first queued interrupt (if any) deliverable at this resume,
-- 
2.43.0


From 60762690926672a9463b8fa98c0c0ac26ee498f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:29:21 +0000
Subject: [PATCH 07/24] fix: drop the deadline of a timed fd wait when the wait
 ends early

---
 monoruby/src/scheduler.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/scheduler.rs b/monoruby/src/scheduler.rs
index b2c06af..265a188 100644
--- a/monoruby/src/scheduler.rs
+++ b/monoruby/src/scheduler.rs
@@ -1011,7 +1011,11 @@ pub(crate) fn wait_fds(
 
 fn unregister_io_waiter(thread: Value) {
     SCHEDULER.with(|s| {
-        s.borrow_mut().io_waiters.retain(|(_, _, t)| *t != thread);
+        let mut s = s.borrow_mut();
+        s.io_waiters.retain(|(_, _, t)| *t != thread);
+        // The deadline of a timed wait that ended early must not end a
+        // later sleep of the same thread.
+        s.sleepers.retain(|(_, t)| *t != thread);
     });
 }
 
-- 
2.43.0


From f4960b79b33e7e825aa77fb0c5c61da00b1195b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:29:21 +0000
Subject: [PATCH 08/24] fix: walk an inline hash by position, since promotion
 moves its pairs

---
 monoruby/src/value/rvalue/hash.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/monoruby/src/value/rvalue/hash.rs b/monoruby/src/value/rvalue/hash.rs
index a3fd368..4dedb8b 100644
--- a/monoruby/src/value/rvalue/hash.rs
+++ b/monoruby/src/value/rvalue/hash.rs
@@ -846,7 +846,7 @@ impl<'a> HashRef<'a> {
 
     pub(crate) fn iter(&self) -> Iter<'a> {
         match self.content() {
-            ContentRef::Inline(pairs) => Iter::Inline(pairs.iter()),
+            ContentRef::Inline(_) => Iter::Inline(*self, 0),
             ContentRef::Map(m) => Iter::Map(m.iter()),
             ContentRef::Ident(m) => Iter::IdentMap(m.iter()),
         }
@@ -1761,7 +1761,9 @@ impl rubymap::Equivalent<Option<IdentKey>, Executor, Globals, MonorubyErr> for I
 }
 
 pub enum Iter<'a> {
-    Inline(std::slice::Iter<'a, (Value, Value)>),
+    // A position rather than a pointer into the cell: the pairs move out
+    // when the hash is promoted to the boxed form during the walk.
+    Inline(HashRef<'a>, usize),
     Map(rubymap::map::Iter<'a, Option<Value>, Value>),
     IdentMap(rubymap::map::Iter<'a, Option<IdentKey>, Value>),
 }
@@ -1775,7 +1777,15 @@ impl Iterator for Iter<'_> {
         // filter a compile error rather than a leaked sentinel.
         loop {
             match self {
-                Iter::Inline(pairs) => return pairs.next().copied(),
+                Iter::Inline(hash, pos) => {
+                    if *pos >= hash.entry_count() {
+                        return None;
+                    }
+                    *pos += 1;
+                    if let Some(pair) = hash.entry_at(*pos - 1) {
+                        return Some(pair);
+                    }
+                }
                 Iter::Map(map) => match map.next() {
                     Some((Some(k), v)) => return Some((*k, *v)),
                     Some((None, _)) => continue,
-- 
2.43.0


From 78d4e35cecb7f094d5d851b997488156bd3cd7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:29:21 +0000
Subject: [PATCH 09/24] fix: hold the iteration guard while Hash#select,
 reject, merge and merge! walk a hash

---
 monoruby/src/builtins/hash.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/builtins/hash.rs b/monoruby/src/builtins/hash.rs
index dba023e..a028b0a 100644
--- a/monoruby/src/builtins/hash.rs
+++ b/monoruby/src/builtins/hash.rs
@@ -1815,6 +1815,7 @@ fn select(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr) -
     if src.is_compare_by_identity() {
         inner.compare_by_identity(vm, globals)?;
     }
+    let _iter_guard = src.iter_guard();
     for (k, v) in src.iter() {
         if vm.invoke_block(globals, &data, &[k, v])?.as_bool() {
             inner.insert(k, v, vm, globals)?;
@@ -2010,7 +2011,9 @@ fn reject(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr) -
         inner.compare_by_identity(vm, globals)?;
     }
     let p = vm.get_block_data(globals, bh)?;
-    for (k, v) in lfp.self_val().as_hash().iter() {
+    let src = lfp.self_val().as_hash();
+    let _iter_guard = src.iter_guard();
+    for (k, v) in src.iter() {
         if !vm.invoke_block(globals, &p, &[k, v])?.as_bool() {
             inner.insert(k, v, vm, globals)?;
         }
@@ -2245,6 +2248,7 @@ fn merge(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
         let data = vm.get_block_data(globals, block)?;
         for arg in lfp.arg(0).as_array().iter() {
             let other_val = arg.coerce_to_hash(vm, globals)?;
+            let _iter_guard = other_val.iter_guard();
             for (k, other_v) in other_val.iter() {
                 if let Some(self_v) = h.get(k, vm, globals)? {
                     let v = vm.invoke_block(globals, &data, &[k, self_v, other_v])?;
@@ -2257,6 +2261,7 @@ fn merge(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
     } else {
         for arg in lfp.arg(0).as_array().iter() {
             let other_val = arg.coerce_to_hash(vm, globals)?;
+            let _iter_guard = other_val.iter_guard();
             for (k, v) in other_val.iter() {
                 h.insert(k, v, vm, globals)?;
             }
@@ -2284,6 +2289,7 @@ fn merge_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
         for arg in lfp.arg(0).as_array().iter() {
             let other_val = arg.coerce_to_hash(vm, globals)?;
             let other = other_val;
+            let _iter_guard = other.iter_guard();
             for (k, other_v) in other.iter() {
                 if let Some(self_v) = h.get(k, vm, globals)? {
                     let v = vm.invoke_block(globals, &data, &[k, self_v, other_v])?;
@@ -2297,6 +2303,7 @@ fn merge_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
         for arg in lfp.arg(0).as_array().iter() {
             let other_val = arg.coerce_to_hash(vm, globals)?;
             let other = other_val;
+            let _iter_guard = other.iter_guard();
             for (k, v) in other.iter() {
                 h.insert(k, v, vm, globals)?;
             }
-- 
2.43.0


From d8487bd1cedf549a4fd1efbf3e2010071be106eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:35:53 +0000
Subject: [PATCH 10/24] fix: leave compiled code when a fixnum quotient does
 not fit a fixnum

---
 monoruby/src/codegen/arch/aarch64/compile/binary_op.rs | 5 +++--
 monoruby/src/codegen/arch/x86_64/compile/binary_op.rs  | 5 +++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/codegen/arch/aarch64/compile/binary_op.rs b/monoruby/src/codegen/arch/aarch64/compile/binary_op.rs
index 89b6016..5429f16 100644
--- a/monoruby/src/codegen/arch/aarch64/compile/binary_op.rs
+++ b/monoruby/src/codegen/arch/aarch64/compile/binary_op.rs
@@ -65,9 +65,10 @@ impl Codegen {
                     tbz x12, #(63), done;        // same sign -> no adjust
                     sub x10, x10, #(1u32);       // floor: q -= 1
                     done:
-                    lsl x(rax), x10, #(1u32);    // 2q
-                    add x(rax), x(rax), #(1u32); // 2q+1 (tagged)
+                    adds x(rax), x10, x10;       // 2q
                 );
+                self.jit.bcond_label(monoasm::Cond::Vs, &deopt);
+                monoasm_arm64!(&mut self.jit, add x(rax), x(rax), #(1u32);); // 2q+1 (tagged)
             }
             // Bitwise ops on tagged fixnums need no overflow check and never
             // clobber `rhs`; the result lands in `lhs` like Add/Sub. `&`/`|` keep
diff --git a/monoruby/src/codegen/arch/x86_64/compile/binary_op.rs b/monoruby/src/codegen/arch/x86_64/compile/binary_op.rs
index 03d8dc7..3cd5780 100644
--- a/monoruby/src/codegen/arch/x86_64/compile/binary_op.rs
+++ b/monoruby/src/codegen/arch/x86_64/compile/binary_op.rs
@@ -72,6 +72,7 @@ impl Codegen {
                 let exit = self.jit.label();
                 let negative_divisor = self.jit.label();
                 let dec = self.jit.label();
+                let overflow = self.jit.label();
                 monoasm!( &mut self.jit,
                     sarq R(rhs_r), 1;
                     testq R(rhs_r), R(rhs_r);
@@ -95,6 +96,7 @@ impl Codegen {
                     subq rax, 1;
                 exit:
                     salq rax, 1;
+                    jo overflow;
                     orq  rax, 1;
                 );
                 self.jit.select_page(1);
@@ -102,6 +104,9 @@ impl Codegen {
                 zero_div:
                     movq rdi, (Value::symbol_from_str("_divide_by_zero").id());
                     jmp deopt;
+                overflow:
+                    movq rdi, (Value::symbol_from_str("_arith_overflow").id());
+                    jmp deopt;
                 );
                 self.jit.select_page(0);
             }
-- 
2.43.0


From 6530f1e36c59fd0c393cba5fb2d975648ad8e419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:35:53 +0000
Subject: [PATCH 11/24] fix: bits of an integer: masks and shifts of a whole
 word and more

---
 monoruby/src/builtins/numeric/integer.rs | 20 ++++++++++------
 monoruby/src/executor/op.rs              | 30 ++++++++++--------------
 2 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/monoruby/src/builtins/numeric/integer.rs b/monoruby/src/builtins/numeric/integer.rs
index e5cb076..9f71770 100644
--- a/monoruby/src/builtins/numeric/integer.rs
+++ b/monoruby/src/builtins/numeric/integer.rs
@@ -1350,14 +1350,14 @@ fn index(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
                             Ok(Value::integer(base >> nth))
                         }
                     } else {
-                        Ok(Value::bigint(BigInt::from(base) << (-nth) as usize))
+                        Ok(Value::bigint(BigInt::from(base) << nth.unsigned_abs() as usize))
                     }
                 }
                 RV::BigInt(base) => {
                     if nth >= 0 {
                         Ok(Value::bigint(base >> nth as usize))
                     } else {
-                        Ok(Value::bigint(base << (-nth) as usize))
+                        Ok(Value::bigint(base << nth.unsigned_abs() as usize))
                     }
                 }
                 _ => unreachable!(),
@@ -1367,8 +1367,8 @@ fn index(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
             RV::Fixnum(base) => {
                 if nth < 0 {
                     // Negative nth: shift left by |nth|, then mask
-                    let shifted = BigInt::from(base) << (-nth) as usize;
-                    let mask = if len >= 64 {
+                    let shifted = BigInt::from(base) << nth.unsigned_abs() as usize;
+                    let mask = if len >= 63 {
                         (BigInt::from(1) << len as usize) - 1
                     } else {
                         BigInt::from((1i64 << len) - 1)
@@ -1380,14 +1380,20 @@ fn index(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
                 } else {
                     base >> nth
                 };
-                let mask = if len >= 64 { -1i64 } else { (1i64 << len) - 1 };
-                Ok(Value::integer(shifted & mask))
+                if len < 63 {
+                    Ok(Value::integer(shifted & ((1i64 << len) - 1)))
+                } else if shifted >= 0 {
+                    Ok(Value::integer(shifted))
+                } else {
+                    let mask = (BigInt::from(1) << len as usize) - 1;
+                    Ok(Value::bigint(BigInt::from(shifted) & mask))
+                }
             }
             RV::BigInt(base) => {
                 let shifted = if nth >= 0 {
                     base >> nth as usize
                 } else {
-                    base << (-nth) as usize
+                    base << nth.unsigned_abs() as usize
                 };
                 // Limit mask size to avoid OOM on huge len values.
                 // If len exceeds the bit length of shifted, masking is a no-op for non-negative values.
diff --git a/monoruby/src/executor/op.rs b/monoruby/src/executor/op.rs
index 7d6233f..e239a50 100644
--- a/monoruby/src/executor/op.rs
+++ b/monoruby/src/executor/op.rs
@@ -1044,13 +1044,13 @@ pub(crate) fn integer_index1(
         // Handle beginless range (..i)
         if is_beginless {
             let end = end_val.coerce_to_int_i64(vm, globals)?;
-            let end = if exclude_end { end } else { end + 1 };
+            let end = end as i128 + if exclude_end { 0 } else { 1 };
             // Extract bits 0..end from base
             let extracted = match base.unpack() {
                 RV::Fixnum(b) => {
                     if end <= 0 {
                         0i64
-                    } else if end >= 64 {
+                    } else if end >= 63 {
                         b
                     } else {
                         b & ((1i64 << end) - 1)
@@ -1090,14 +1090,14 @@ pub(crate) fn integer_index1(
                         }
                     } else {
                         // Negative start in endless range: shift left
-                        Ok(Value::bigint(BigInt::from(b) << (-start) as usize))
+                        Ok(Value::bigint(BigInt::from(b) << start.unsigned_abs() as usize))
                     }
                 }
                 RV::BigInt(b) => {
                     if start >= 0 {
                         Ok(Value::bigint(b >> start as usize))
                     } else {
-                        Ok(Value::bigint(b << (-start) as usize))
+                        Ok(Value::bigint(b << start.unsigned_abs() as usize))
                     }
                 }
                 _ => unreachable!(),
@@ -1106,8 +1106,8 @@ pub(crate) fn integer_index1(
 
         let start = start_val.coerce_to_int_i64(vm, globals)?;
         let end_raw = end_val.coerce_to_int_i64(vm, globals)?;
-        let end = if exclude_end { end_raw } else { end_raw + 1 };
-        let width = end - start;
+        let end = end_raw as i128 + if exclude_end { 0 } else { 1 };
+        let width = end - start as i128;
         // Check if range is "reversed": for inclusive a..b where b < a, or
         // exclusive a...b where b < a (but NOT a...a which is 0-width)
         let is_reversed = if exclude_end { end_raw < start } else { end_raw < start };
@@ -1115,7 +1115,7 @@ pub(crate) fn integer_index1(
             if start >= 0 {
                 base >> start
             } else {
-                base << (-start) as usize
+                base << start.unsigned_abs() as usize
             }
         };
         // When reversed, extract all bits from start (no masking)
@@ -1129,25 +1129,19 @@ pub(crate) fn integer_index1(
                             Ok(Value::integer(base >> start))
                         }
                     } else {
-                        Ok(Value::bigint(BigInt::from(base) << (-start) as usize))
+                        Ok(Value::bigint(BigInt::from(base) << start.unsigned_abs() as usize))
                     }
                 }
                 RV::BigInt(base) => Ok(Value::bigint(shifted(base))),
                 _ => unreachable!(),
             };
         }
-        // Use BigInt path when width >= 64 since mask won't fit in i64
+        // Use BigInt path when the mask or the shift won't fit in i64
         let base_bigint = match base.unpack() {
             RV::Fixnum(base) => {
-                if width < 64 {
+                if width >= 0 && width < 63 && start >= 0 && start < 64 {
                     let mask = (1i64 << width) - 1;
-                    return Ok(Value::integer(
-                        (if start >= 0 {
-                            base >> start
-                        } else {
-                            base << -start
-                        }) & mask,
-                    ));
+                    return Ok(Value::integer((base >> start) & mask));
                 }
                 BigInt::from(base)
             }
@@ -1155,7 +1149,7 @@ pub(crate) fn integer_index1(
             _ => unreachable!(),
         };
         let shifted_val = shifted(&base_bigint);
-        let bits = shifted_val.bits() as i64;
+        let bits = shifted_val.bits() as i128;
         let val = if width > bits + 1 && shifted_val >= BigInt::ZERO {
             shifted_val
         } else {
-- 
2.43.0


From 1e52eac7eeb657cf37cd8a01d2037149dd90694c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:35:53 +0000
Subject: [PATCH 12/24] fix: absolute value of the smallest exponent or modulus

---
 monoruby/src/builtins/numeric/complex.rs | 2 +-
 monoruby/src/builtins/numeric/integer.rs | 2 +-
 monoruby/src/executor/op/binary_ops.rs   | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/monoruby/src/builtins/numeric/complex.rs b/monoruby/src/builtins/numeric/complex.rs
index 37d3b64..d7184d0 100644
--- a/monoruby/src/builtins/numeric/complex.rs
+++ b/monoruby/src/builtins/numeric/complex.rs
@@ -1018,7 +1018,7 @@ fn pow_by_integer_exp(self_val: Value, exp: i64) -> Result<Value> {
     let (mut n, invert) = if exp >= 0 {
         (exp as u64, false)
     } else {
-        ((-exp) as u64, true)
+        (exp.unsigned_abs(), true)
     };
     let mut result = num::complex::Complex::new(Real::from(1), Real::from(0));
     let mut factor = (*base).clone();
diff --git a/monoruby/src/builtins/numeric/integer.rs b/monoruby/src/builtins/numeric/integer.rs
index 9f71770..5263b49 100644
--- a/monoruby/src/builtins/numeric/integer.rs
+++ b/monoruby/src/builtins/numeric/integer.rs
@@ -1564,7 +1564,7 @@ fn pow(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
             RV::BigInt(b) => b.clone(),
             _ => unreachable!(),
         };
-        let mod_big = BigInt::from(mod_i.abs());
+        let mod_big = BigInt::from(mod_i.unsigned_abs());
         let mut base = base_big % &mod_big;
         let mut result = BigInt::from(1);
         let mut e = exp_i as u64;
diff --git a/monoruby/src/executor/op/binary_ops.rs b/monoruby/src/executor/op/binary_ops.rs
index fbfed47..da0bd0e 100644
--- a/monoruby/src/executor/op/binary_ops.rs
+++ b/monoruby/src/executor/op/binary_ops.rs
@@ -442,10 +442,10 @@ pub(crate) extern "C" fn pow_ii(lhs: i64, rhs: i64, vm: &mut Executor) -> Option
                 return Some(Value::integer(1));
             }
             if lhs == -1 {
-                return Some(Value::integer(if (-rhs) & 1 == 1 { -1 } else { 1 }));
+                return Some(Value::integer(if rhs & 1 == 1 { -1 } else { 1 }));
             }
             // a ** -n = Rational(1, a**n) for |a| > 1
-            let neg_rhs = (-rhs) as u32;
+            let neg_rhs = rhs.unsigned_abs();
             let denom = BigInt::from(lhs).pow(neg_rhs);
             return Some(Value::rational(1, denom));
         }
-- 
2.43.0


From cdfae65cb377f3bd0859ff6b9893795c4dba5439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:37:32 +0000
Subject: [PATCH 13/24] fix: a bignum to a negative power beyond 32 bits took
 only the low bits of the exponent

---
 monoruby/src/executor/op/binary_ops.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/executor/op/binary_ops.rs b/monoruby/src/executor/op/binary_ops.rs
index da0bd0e..a1a15dc 100644
--- a/monoruby/src/executor/op/binary_ops.rs
+++ b/monoruby/src/executor/op/binary_ops.rs
@@ -529,10 +529,12 @@ pub(crate) extern "C" fn pow_values_raw(
                     Value::integer(1)
                 } else if *lhs == BigInt::from(-1) {
                     Value::integer(if (-rhs) & 1 == 1 { -1 } else { 1 })
-                } else {
-                    let neg_rhs = (-rhs) as u32;
+                } else if let Ok(neg_rhs) = u32::try_from(-rhs) {
                     let denom = lhs.pow(neg_rhs);
                     Value::rational(1, denom)
+                } else {
+                    vm.set_error(MonorubyErr::exponent_is_too_large());
+                    return None;
                 }
             } else {
                 let base_bits = lhs.bits();
-- 
2.43.0


From b851e56b9d2b2f6e2549a88d347197be4e12a629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:38:51 +0000
Subject: [PATCH 14/24] fix: a right shift by a negative amount overflowed
 silently at the bound in compiled code

---
 monoruby/src/codegen/arch/x86_64/compile/binary_op.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoruby/src/codegen/arch/x86_64/compile/binary_op.rs b/monoruby/src/codegen/arch/x86_64/compile/binary_op.rs
index 3cd5780..a02509b 100644
--- a/monoruby/src/codegen/arch/x86_64/compile/binary_op.rs
+++ b/monoruby/src/codegen/arch/x86_64/compile/binary_op.rs
@@ -738,7 +738,7 @@ impl Codegen {
             negq rcx;
             lzcntq rax, rdi;
             cmpq rcx, rax;
-            jgt deopt;
+            jge deopt;
             subq rdi, 1;
             salq rdi, rcx;
             jmp after;
-- 
2.43.0


From deeeb16c99955e09780532b69181c7fdb711d4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:17:43 +0000
Subject: [PATCH 15/24] fix: replacing the content of an old string by a shared
 one left the root unrecorded

---
 monoruby/src/builtins/argf.rs   | 2 +-
 monoruby/src/builtins/string.rs | 2 +-
 monoruby/src/value.rs           | 2 ++
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/builtins/argf.rs b/monoruby/src/builtins/argf.rs
index 262efeb..9ee8973 100644
--- a/monoruby/src/builtins/argf.rs
+++ b/monoruby/src/builtins/argf.rs
@@ -596,7 +596,7 @@ fn finish_read(
     out.ensure_string_mutable(vm, globals)?;
     match result.and_then(|r| r.is_rstring_inner().map(|s| (*s).clone())) {
         Some(inner) => {
-            *out.as_rstring_inner_mut() = inner;
+            out.replace_with_inner(inner);
             Ok(out)
         }
         None => {
diff --git a/monoruby/src/builtins/string.rs b/monoruby/src/builtins/string.rs
index a4c9115..f4a2140 100644
--- a/monoruby/src/builtins/string.rs
+++ b/monoruby/src/builtins/string.rs
@@ -7336,7 +7336,7 @@ fn replace(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -
     // route through `coerce_to_rstring` and clone the inner.
     let other = lfp.arg(0).coerce_to_rstring(vm, globals)?;
     let new_inner = (*other).clone();
-    *lfp.self_val().as_rstring_inner_mut() = new_inner;
+    lfp.self_val().replace_with_inner(new_inner);
     Ok(lfp.self_val())
 }
 
diff --git a/monoruby/src/value.rs b/monoruby/src/value.rs
index 6b38de0..291f4ce 100644
--- a/monoruby/src/value.rs
+++ b/monoruby/src/value.rs
@@ -2969,6 +2969,8 @@ impl Value {
         assert_eq!(ObjTy::STRING, self.rvalue().ty());
         // SAFETY: The assert ensures this RValue contains a string.
         unsafe { *self.rvalue_mut().as_rstring_mut() = inner };
+        // `inner` may be a view into a shared (young) root.
+        self.write_barrier_bulk();
     }
 
     pub(crate) fn replace_str(&mut self, replace: &str) {
-- 
2.43.0


From 5861f2279debec68d3537d1be5e9699b23140333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:58:21 +0000
Subject: [PATCH 16/24] fix: raise FrozenError when an initialized Data
 instance is initialized again

---
 monoruby/src/builtins/data_class.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/builtins/data_class.rs b/monoruby/src/builtins/data_class.rs
index 5339d1b..7461c08 100644
--- a/monoruby/src/builtins/data_class.rs
+++ b/monoruby/src/builtins/data_class.rs
@@ -103,8 +103,9 @@ fn data_define_class(
 /// member slots and freeze the receiver. This is the tail of
 /// `Data#initialize`, split out so slot access stays in Rust.
 #[monoruby_builtin]
-fn data_init(_vm: &mut Executor, _globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
+fn data_init(_vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     let mut self_val = lfp.self_val();
+    self_val.ensure_not_frozen(&globals.store)?;
     let values = lfp.arg(0).as_array();
     for (i, v) in values.iter().enumerate() {
         self_val.set_struct_slot(i, *v);
-- 
2.43.0


From ef82d2f67f5a1342ef10e1fc08fff3de5af89183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:58:21 +0000
Subject: [PATCH 17/24] fix: raise FrozenError when a frozen Struct instance is
 initialized again

---
 monoruby/src/builtins/struct_class.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/monoruby/src/builtins/struct_class.rs b/monoruby/src/builtins/struct_class.rs
index da3c95f..fa96b22 100644
--- a/monoruby/src/builtins/struct_class.rs
+++ b/monoruby/src/builtins/struct_class.rs
@@ -296,6 +296,7 @@ fn initialize(
     lfp: Lfp,
     _: BytecodePtr,
 ) -> Result<Value> {
+    lfp.self_val().ensure_not_frozen(&globals.store)?;
     let pos_args = lfp.arg(0).as_array();
     let kw_args_val = lfp.try_arg(1).filter(|v| {
         v.try_hash_ty().map(|h| !h.is_empty()).unwrap_or(false)
-- 
2.43.0


From 7e982671b524cf08f9220a1a5f8472169179e641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:58:21 +0000
Subject: [PATCH 18/24] fix: guard compiled element assignment against a frozen
 array

---
 monoruby/src/codegen/jitgen/state/index.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/monoruby/src/codegen/jitgen/state/index.rs b/monoruby/src/codegen/jitgen/state/index.rs
index 8b0e315..0352ace 100644
--- a/monoruby/src/codegen/jitgen/state/index.rs
+++ b/monoruby/src/codegen/jitgen/state/index.rs
@@ -55,6 +55,8 @@ pub(crate) fn array_integer_index_assign(
         idx: SlotId,
     ) {
         self.load_array_ty(ir, store, base, GP::Rdi);
+        let deopt = ir.new_deopt(self);
+        ir.guard_frozen(deopt);
         if let Some(idx) = self.is_u16(idx) {
             self.load(ir, src, GP::Rdx);
             let using_fpr = self.get_using_fpr(ir);
-- 
2.43.0


From c25dbce69d082ed9075b60bdab5a63871d29f2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:58:35 +0000
Subject: [PATCH 19/24] fix: raise FrozenError from unicode_normalize! on a
 frozen string

---
 monoruby/src/builtins/string.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/monoruby/src/builtins/string.rs b/monoruby/src/builtins/string.rs
index f4a2140..d9b671a 100644
--- a/monoruby/src/builtins/string.rs
+++ b/monoruby/src/builtins/string.rs
@@ -8151,6 +8151,7 @@ fn unicode_normalize_(
         "nfkd" => s.nfkd().collect(),
         _ => unreachable!(),
     };
+    lfp.self_val().ensure_string_mutable(vm, globals)?;
     let old_len = lfp.self_val().as_rstring_inner().len();
     // NFC/NFD/NFKC/NFKD output is well-formed UTF-8 by construction,
     // so `from_string_scanned` lets the splice land in the Valid /
-- 
2.43.0


From b566db9e39e4f54d15096a95998c9a11eb78384e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:03:46 +0000
Subject: [PATCH 20/24] fix: raise FrozenError when methods or constants of a
 frozen module are changed

---
 monoruby/src/builtins/module.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/monoruby/src/builtins/module.rs b/monoruby/src/builtins/module.rs
index 89e34f3..a95ce37 100644
--- a/monoruby/src/builtins/module.rs
+++ b/monoruby/src/builtins/module.rs
@@ -593,6 +593,7 @@ fn attr(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
             )?;
         }
         let arg_name = args[0].coerce_to_symbol_or_string(vm, globals)?;
+        lfp.self_val().ensure_not_frozen(&globals.store)?;
         let method_name = vm.define_attr_reader(globals, class_id, arg_name, visi)?;
         ary.push(Value::symbol(method_name));
         if writable {
@@ -602,6 +603,7 @@ fn attr(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
     } else {
         for v in args.iter() {
             let arg_name = v.coerce_to_symbol_or_string(vm, globals)?;
+            lfp.self_val().ensure_not_frozen(&globals.store)?;
             let method_name = vm.define_attr_reader(globals, class_id, arg_name, visi)?;
             ary.push(Value::symbol(method_name));
         }
@@ -633,6 +635,7 @@ fn attr_accessor(
         vm.temp_array_new(None);
         for v in lfp.arg(0).as_array().iter() {
             let arg_name = v.coerce_to_symbol_or_string(vm, globals)?;
+            lfp.self_val().ensure_not_frozen(&globals.store)?;
             let method_name = vm.define_attr_reader(globals, class_id, arg_name, visi)?;
             vm.temp_array_push(Value::symbol(method_name));
             let method_name = vm.define_attr_writer(globals, class_id, arg_name, visi)?;
@@ -663,6 +666,7 @@ fn attr_reader(
         vm.temp_array_new(None);
         for v in lfp.arg(0).as_array().iter() {
             let arg_name = v.coerce_to_symbol_or_string(vm, globals)?;
+            lfp.self_val().ensure_not_frozen(&globals.store)?;
             let method_name = vm.define_attr_reader(globals, class_id, arg_name, visi)?;
             vm.temp_array_push(Value::symbol(method_name));
         }
@@ -691,6 +695,7 @@ fn attr_writer(
         vm.temp_array_new(None);
         for v in lfp.arg(0).as_array().iter() {
             let arg_name = v.coerce_to_symbol_or_string(vm, globals)?;
+            lfp.self_val().ensure_not_frozen(&globals.store)?;
             let method_name = vm.define_attr_writer(globals, class_id, arg_name, visi)?;
             vm.temp_array_push(Value::symbol(method_name));
         }
@@ -1617,6 +1622,7 @@ fn remove_const(
     _: BytecodePtr,
 ) -> Result<Value> {
     let name = lfp.arg(0).coerce_to_symbol_or_string(vm, globals)?;
+    lfp.self_val().ensure_not_frozen(&globals.store)?;
     let module = lfp.self_val().as_class().id();
     // CRuby 3.4+ emits the deprecation warning when removing a
     // deprecated constant (matches `remove_const` reading the slot
@@ -3217,6 +3223,7 @@ fn import_methods(
             imports.push((*name, func_id, entry.visibility()));
         }
         for (name, func_id, visi) in imports {
+            lfp.self_val().ensure_not_frozen(&globals.store)?;
             globals.add_method(refinement, name, func_id, visi);
         }
     }
@@ -3407,6 +3414,7 @@ fn module_function(
     for v in args.iter() {
         names.push(v.coerce_to_symbol_or_string(vm, globals)?);
     }
+    lfp.self_val().ensure_not_frozen(&globals.store)?;
     for &name in &names {
         let func_id = globals.find_method_for_class(class_id, name)?.0;
         // Module-method copy: install on the singleton (callable as `M.name`)
-- 
2.43.0


From be3ec42ba954bf12b42af025dc6c47211fc56ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:02:39 +0000
Subject: [PATCH 21/24] fix: invalidate constant caches when a class
 definition, autoload or visibility change alters a constant

---
 monoruby/src/builtins/module.rs     | 4 ++++
 monoruby/src/globals.rs             | 7 +++++++
 monoruby/src/globals/store/class.rs | 2 ++
 3 files changed, 13 insertions(+)

diff --git a/monoruby/src/builtins/module.rs b/monoruby/src/builtins/module.rs
index a95ce37..eb052fb 100644
--- a/monoruby/src/builtins/module.rs
+++ b/monoruby/src/builtins/module.rs
@@ -748,6 +748,7 @@ pub(super) fn autoload_on(
         None => true,
         Some(state) => state.is_autoload(),
     };
+    Globals::const_version_inc_for(const_name);
     globals
         .store
         .set_constant_autoload(class_id, const_name, feature);
@@ -2847,6 +2848,8 @@ fn set_constants_visibility(globals: &mut Globals, lfp: Lfp, make_private: bool)
         names.push(name);
     }
     for name in names {
+        // A reference that resolved before must be checked again.
+        Globals::const_version_inc_for(name);
         if make_private {
             globals.store[class_id].set_constant_private(name);
         } else {
@@ -2892,6 +2895,7 @@ fn deprecate_constant(
         names.push(name);
     }
     for name in names {
+        Globals::const_version_inc_for(name);
         globals.store[class_id].set_constant_deprecated(name);
     }
     Ok(lfp.self_val())
diff --git a/monoruby/src/globals.rs b/monoruby/src/globals.rs
index f3baec0..cb87afc 100644
--- a/monoruby/src/globals.rs
+++ b/monoruby/src/globals.rs
@@ -1492,6 +1492,13 @@ impl Globals {
         CODEGEN.with(|codegen| codegen.borrow_mut().const_version_inc());
     }
 
+    /// As [`Self::const_version_inc`], for an event that can change only how
+    /// the constant *name* resolves.
+    pub(crate) fn const_version_inc_for(name: IdentId) {
+        const_epoch::bump_name(name);
+        CODEGEN.with(|codegen| codegen.borrow_mut().const_version_inc());
+    }
+
     pub(crate) fn const_version() -> u64 {
         CODEGEN.with(|codegen| codegen.borrow().const_version())
     }
diff --git a/monoruby/src/globals/store/class.rs b/monoruby/src/globals/store/class.rs
index a156230..e31703d 100644
--- a/monoruby/src/globals/store/class.rs
+++ b/monoruby/src/globals/store/class.rs
@@ -1693,6 +1693,8 @@ impl ClassInfoTable {
         self[class_id].instance_ty = instance_ty;
         self[class_id].alloc_func = inherited_alloc;
         if let Some(name) = name {
+            // The new constant may shadow one that call sites have cached.
+            Globals::const_version_inc_for(name);
             self.set_constant(parent.unwrap(), name, class_obj);
         }
         class_obj.as_class()
-- 
2.43.0


From f7172dc4070f678131e925f61f8768f594b2b07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:43:39 +0000
Subject: [PATCH 22/24] fix: Float#floor, ceil and round with a digit count
 below -2**32 are zero, not the unrounded value

---
 monoruby/src/builtins/numeric/float.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/monoruby/src/builtins/numeric/float.rs b/monoruby/src/builtins/numeric/float.rs
index 4a29117..d0dcfaf 100644
--- a/monoruby/src/builtins/numeric/float.rs
+++ b/monoruby/src/builtins/numeric/float.rs
@@ -622,7 +622,7 @@ fn floor(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
             Err(MonorubyErr::rangeerr("too big to convert to u32"))
         }
     } else {
-        let neg_ndigits = (-ndigits) as u32;
+        let neg_ndigits = ndigits.unsigned_abs();
         if neg_ndigits > 308 {
             return Ok(Value::integer(0));
         }
@@ -631,7 +631,7 @@ fn floor(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
             Some(v) => v,
             None => return Ok(Value::integer(0)),
         };
-        let mul_big = BigInt::from(10u64).pow(neg_ndigits);
+        let mul_big = BigInt::from(10u64).pow(neg_ndigits as u32);
         let frac_part = f - f.trunc();
         let (quot, rem) = num::integer::div_rem(int_val, mul_big.clone());
         // floor: round toward negative infinity
@@ -684,7 +684,7 @@ fn ceil(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
             Err(MonorubyErr::rangeerr("too big to convert to u32"))
         }
     } else {
-        let neg_ndigits = (-ndigits) as u32;
+        let neg_ndigits = ndigits.unsigned_abs();
         if neg_ndigits > 308 {
             return Ok(Value::integer(0));
         }
@@ -693,7 +693,7 @@ fn ceil(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
             Some(v) => v,
             None => return Ok(Value::integer(0)),
         };
-        let mul_big = BigInt::from(10u64).pow(neg_ndigits);
+        let mul_big = BigInt::from(10u64).pow(neg_ndigits as u32);
         let frac_part = f - f.trunc();
         let (quot, rem) = num::integer::div_rem(int_val, mul_big.clone());
         // ceil: round toward positive infinity
@@ -834,7 +834,7 @@ fn round(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
         let f = round_half(scaled, effective_half) / mul;
         Ok(Value::float(f))
     } else {
-        let neg_ndigits = (-ndigits) as u32;
+        let neg_ndigits = ndigits.unsigned_abs();
         if neg_ndigits > 308 {
             return Ok(Value::integer(0));
         }
@@ -844,7 +844,7 @@ fn round(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
             Some(v) => v,
             None => return Ok(Value::integer(0)),
         };
-        let mul_big = BigInt::from(10u64).pow(neg_ndigits);
+        let mul_big = BigInt::from(10u64).pow(neg_ndigits as u32);
         let (quot, rem) = num::integer::div_rem(int_val, mul_big.clone());
         // Determine rounding based on remainder
         let half_mul = &mul_big / 2;
-- 
2.43.0


From 74b7b433df3607a11b0c47539f00b85302f76ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:45:01 +0000
Subject: [PATCH 23/24] fix: Math.ldexp with an exponent beyond 32 bits keeps
 its sign and size

---
 monoruby/src/builtins/math.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/builtins/math.rs b/monoruby/src/builtins/math.rs
index 4db3f8b..57f8d09 100644
--- a/monoruby/src/builtins/math.rs
+++ b/monoruby/src/builtins/math.rs
@@ -590,7 +590,7 @@ fn ldexp(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
         return Err(MonorubyErr::typeerr("can't convert nil into Integer"));
     } else {
         match exp_val.unpack() {
-            RV::Fixnum(i) => i as i32,
+            RV::Fixnum(i) => i.clamp(i32::MIN as i64, i32::MAX as i64) as i32,
             RV::Float(f) => {
                 if f.is_nan() {
                     return Err(MonorubyErr::rangeerr("float NaN out of range of integer"));
@@ -622,7 +622,7 @@ fn ldexp(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
                 if let Some(fid) = globals.check_method(exp_val, to_int_id) {
                     let result = vm.invoke_func_inner(globals, fid, exp_val, &[], None, None)?;
                     match result.unpack() {
-                        RV::Fixnum(i) => i as i32,
+                        RV::Fixnum(i) => i.clamp(i32::MIN as i64, i32::MAX as i64) as i32,
                         _ => {
                             return Err(MonorubyErr::cant_convert_into_float(globals, exp_val));
                         }
-- 
2.43.0


From 2aaf086577539964b7cf90aa0f14923aa3bf62ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:47:32 +0000
Subject: [PATCH 24/24] fix: a range ending at 2**63-1 selects up to the end in
 String#[] and Array#[]=

---
 monoruby/src/builtins/array.rs  | 6 +++++-
 monoruby/src/builtins/string.rs | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/builtins/array.rs b/monoruby/src/builtins/array.rs
index 81804db..fc7075b 100644
--- a/monoruby/src/builtins/array.rs
+++ b/monoruby/src/builtins/array.rs
@@ -1348,7 +1348,11 @@ fn index_assign(
             } else {
                 let e = range.end().coerce_to_int_i64(vm, globals)?;
                 let e = if e < 0 { e + ary.len() as i64 } else { e };
-                let e = if range.exclude_end() { e } else { e + 1 };
+                let e = if range.exclude_end() || e == i64::MAX {
+                    e
+                } else {
+                    e + 1
+                };
                 usize::try_from(e - start as i64).ok()
             };
             if let Some(len) = len {
diff --git a/monoruby/src/builtins/string.rs b/monoruby/src/builtins/string.rs
index d9b671a..5342101 100644
--- a/monoruby/src/builtins/string.rs
+++ b/monoruby/src/builtins/string.rs
@@ -1080,7 +1080,7 @@ fn index(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
             if end < 0 {
                 end += char_length;
             }
-            if !info.exclude_end() {
+            if !info.exclude_end() && end < i64::MAX {
                 end += 1;
             }
             end
-- 
2.43.0

