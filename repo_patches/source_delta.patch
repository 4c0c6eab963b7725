From fd19ca59b156cb6137cc0132eaa5130ab8c5d6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 01/25] fix: parse() starts from a fresh state

Parsing a second document with the same parser kept the keys, errors and
line count of the first one.
---
 src/internals/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index 65976ab..1964846 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -43,6 +43,8 @@ impl<'a> Parser<'a> {
   }
 
   pub fn parse(mut self: Parser<'a>, input: &'a str) -> (Parser<'a>, ParseResult<'a>) {
+    // Don't let anything from a previously parsed document leak into this one
+    self = Parser::new();
     let (tmp, res) = self.toml(input);
     self = tmp;
     let line_count = self.line_count.get();
-- 
2.43.0


From 0b525aa67ee0b720f4c1bffdbcbcb9467fb1714e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 02/25] fix: Partial and PartialError carry the unparsed
 leftover

The leftover was read before it was set, so it was always empty.
---
 src/internals/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index 1964846..db17b58 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -48,7 +48,6 @@ impl<'a> Parser<'a> {
     let (tmp, res) = self.toml(input);
     self = tmp;
     let line_count = self.line_count.get();
-    let leftover = self.leftover.into();
     // let mut res = self.result;
     match res {
       IResult::Done(i, o) => {
@@ -58,6 +57,7 @@ impl<'a> Parser<'a> {
       _ => return (self, ParseResult::Failure(line_count, 0)),
     };
     if self.leftover.len() > 0 {
+      let leftover = self.leftover.into();
       let len = self.errors.borrow().len();
       if len > 0 {
         let errors = self.errors.clone();
-- 
2.43.0


From 7855e242b58f6ec4472dd7e6406b2cab1605cc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 03/25] fix: a key/value pair that fails to parse leaves no
 lines or errors behind

A failed key/value pair ends up in the leftover, but the newlines of its
multi-line strings were still counted and its errors still reported.
---
 src/internals/toml.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/internals/toml.rs b/src/internals/toml.rs
index 09d8dc3..343db7a 100644
--- a/src/internals/toml.rs
+++ b/src/internals/toml.rs
@@ -1,5 +1,6 @@
 use internals::ast::structs::{Toml, NLExpression, Expression, WSSep};
 use internals::parser::Parser;
+use nom::IResult;
 
 impl<'a> Parser<'a> {
   method!(pub toml<Parser<'a>, &'a str, Toml>, mut self,
@@ -54,7 +55,20 @@ impl<'a> Parser<'a> {
     )
   );
 
-  method!(keyval_comment<Parser<'a>, &'a str, Expression>, mut self,
+  fn keyval_comment(mut self: Parser<'a>, input: &'a str) -> (Parser<'a>, IResult<&'a str, Expression>) {
+    let line_count = self.line_count.get();
+    let errors = self.errors.borrow().len();
+    let (tmp, res) = self.keyval_comment_internal(input);
+    self = tmp;
+    if !res.is_done() {
+      // Nothing was consumed, so take back the lines and errors that were counted on the way
+      self.line_count.set(line_count);
+      self.errors.borrow_mut().truncate(errors);
+    }
+    (self, res)
+  }
+
+  method!(keyval_comment_internal<Parser<'a>, &'a str, Expression>, mut self,
     chain!(
       ws1: call_m!(self.ws)       ~
    keyval: call_m!(self.keyval)   ~
-- 
2.43.0


From 12771b94f26a6ff44cde716763616fba608f135d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:03 +0000
Subject: [PATCH 04/25] fix: a value enters the key map only once its key/value
 pair has parsed

Array elements and inline table entries were put in the map while the value
was still being parsed, so a duplicate array key overwrote and extended the
first definition, values in an invalid table became reachable under another
table, and a failed key/value pair left entries behind. A key naming a table
or array of tables could also be turned into a value.
---
 src/internals/objects.rs    |   1 -
 src/internals/parser.rs     |  31 +++++++++++
 src/internals/primitives.rs | 108 ++++++------------------------------
 3 files changed, 49 insertions(+), 91 deletions(-)

diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index ec81530..7ab0d53 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -517,7 +517,6 @@ impl<'a> Parser<'a> {
             self.last_array_type.borrow_mut().pop();
             self.last_array_type.borrow_mut().push(t);
             let keychain_len = self.keychain.borrow().len();
-            self.insert_keyval_into_map(val.clone());
             self.keychain.borrow_mut()[keychain_len - 1].inc();
             ArrayValue::new(val, array_sep, comment_nls)
           }
diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index db17b58..f90d8e9 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -345,6 +345,37 @@ impl<'a> Parser<'a> {
     }
   }
 
+  // Inserts a value and, if it's an array or inline table, everything it contains
+  pub fn insert_value(map: &mut HashMap<String, HashValue<'a>>, errors: &RefCell<Vec<ParseError<'a>>>, line: usize,
+    key: String, val: Rc<RefCell<TOMLValue<'a>>>) {
+    let mut children = vec![];
+    let subkeys = match *val.borrow() {
+      TOMLValue::Array(ref arr) => {
+        for (i, av) in arr.borrow().values.iter().enumerate() {
+          children.push((format!("{}[{}]", key, i), av.val.clone()));
+        }
+        Children::Count(Cell::new(children.len()))
+      },
+      TOMLValue::InlineTable(ref it) => {
+        let keys = RefCell::new(vec![]);
+        for kv in it.borrow().keyvals.iter() {
+          let subkey = format!("{}.{}", key, kv.keyval.key);
+          if Parser::insert(&keys, kv.keyval.key.clone().into_owned()) {
+            children.push((subkey, kv.keyval.val.clone()));
+          } else {
+            errors.borrow_mut().push(ParseError::DuplicateKey(subkey, line, 0, to_val!(&*kv.keyval.val.borrow())));
+          }
+        }
+        Children::Keys(keys)
+      },
+      _ => Children::Count(Cell::new(0)),
+    };
+    map.insert(key, HashValue{ value: Some(val), subkeys: subkeys });
+    for (subkey, subval) in children {
+      Parser::insert_value(map, errors, line, subkey, subval);
+    }
+  }
+
   fn get_all_subkeys(self: &Parser<'a>, key: &str) -> Vec<String>{
     let hv_opt = self.map.get(key);
     let mut all_keys = vec![];
diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index fa5cb6e..6f66964 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -286,16 +286,12 @@ impl<'a> Parser<'a> {
   pub fn insert_keyval_into_map(&mut self, val: Rc<RefCell<TOMLValue<'a>>>) {
     debug!("Insert val: {}", *(*val).borrow());
     let map = RefCell::new(&mut self.map);
-    let mut insert = false;
-    let mut error = false;
-    let mut setvalue = false;
+    let error;
     let full_key: String;
     let mut parent_key: String;
     match &self.last_table {
       // If the last table is None
-      //  If the key exists
-      //    If the value is empty insert the value
-      //    If the value in non-empty add the key/val to the error list
+      //  If the key exists add the key/val to the error list
       //  If the key doesn't exist, insert it
       &None => {
         let tuple = Parser::get_keychain_key(&self.keychain);
@@ -304,23 +300,10 @@ impl<'a> Parser<'a> {
         if parent_key == "" {
           parent_key.push_str("$Root$");
         }
-        let map_borrow = map.borrow();
-        let hv_opt = map_borrow.get(&full_key);
-        if let Some(hv) = hv_opt {
-          if let Some(_) = hv.value {
-            error = true;
-          } else {
-            setvalue = true;
-          }
-        } else {
-          insert = true;
-        }
+        error = map.borrow().contains_key(&full_key);
       },
       // If the last table was a StandardTable or ArrayTable:
-      //  If the key exists
-      //    If the value is empty, insert the value
-      //    If the value is non-empty add the key/val pair to the error list
-      //    If the key is for an ArrayOfTables add the key/val to the error list
+      //  If the key exists, whether for a value, a table or an array of tables, add the key/val pair to the error list
       //  If the key doesn't exist add the key/value pair to the hash table
       &Some(ref ttype) => {
         match **ttype {
@@ -331,35 +314,14 @@ impl<'a> Parser<'a> {
             full_key = tuple.1;
             parent_key = tuple.2;
             self.last_array_tables.borrow_mut().pop();
-            let map_borrow = map.borrow();
-            let hv_opt = map_borrow.get(&full_key);
-            if let Some(hv) = hv_opt {
-              if let Some(_) = hv.value {
-                error = true;
-              } else {
-                setvalue = true;
-              }
-            } else {
-              insert = true;
-            }
+            error = map.borrow().contains_key(&full_key);
           },
           TableType::Array(_) => {
             let tuple = Parser::get_full_key(&map, &self.last_array_tables,
               &self.last_array_tables_index, &self.keychain);
             full_key = tuple.1;
             parent_key = tuple.2;
-            let map_borrow = map.borrow();
-            let hv_opt = map_borrow.get(&full_key);
-            if let Some(hv) = hv_opt {
-              if let Some(_) = hv.value {
-                debug!("{} hash value exists in table.", full_key);
-                error = true;
-              } else {
-                setvalue = true;
-              }
-            } else {
-              insert = true;
-            }
+            error = map.borrow().contains_key(&full_key);
           },
         }
       }
@@ -370,52 +332,16 @@ impl<'a> Parser<'a> {
       self.errors.borrow_mut().push(ParseError::DuplicateKey(
         full_key, self.line_count.get(), 0, to_val!(&*val.borrow())
       ));
-    } else if setvalue  || insert {
-      if setvalue {
-        debug!("Set existing hash value. full_key: {}, parent_key: {}, val: {}", full_key, parent_key, *(*val).borrow());
-        let mut borrow = map.borrow_mut();
-        let entry = borrow.entry(full_key.clone());
-        match entry {
-          Entry::Occupied(mut o) => {
-            debug!("Children: {:?}", &o.get_mut().subkeys);
-            o.get_mut().value = Some(val.clone());
-          },
-          _ => panic!("Unreachable! Set existing hash value has no exisiting hash value."),
-        }
-      } else if insert {
-        debug!("Insert full_key: {}, parent_key: {}, val: {}", full_key, parent_key, *(*val).borrow());
-        match *val.borrow() {
-          TOMLValue::InlineTable(_) => map.borrow_mut().insert(full_key.clone(), HashValue::new_keys(val.clone())),
-          _                     => map.borrow_mut().insert(full_key.clone(), HashValue::new_count(val.clone())),
-        };
-      }
-
-      // in either case update the parent and possibly grandparent
+    } else {
+      debug!("Insert full_key: {}, parent_key: {}, val: {}", full_key, parent_key, *(*val).borrow());
       let mut borrow = map.borrow_mut();
-      {
-        let entry = borrow.entry(parent_key.clone());
-        match entry {
-          Entry::Occupied(mut o) => {
-            debug!("Children: {:?}", &o.get_mut().subkeys);
-            match &o.get_mut().subkeys {
-              &Children::Count(ref c) => { debug!("parent inc to {}", c.get() + 1); c.set(c.get() + 1) },
-              &Children::Keys(ref vec_rf) => {
-                if let Key::Str(ref s) = self.keychain.borrow()[self.keychain.borrow().len() - 1] {
-                  Parser::insert(vec_rf,s.clone().into_owned());
-                }
-              },
-            }
-          },
-          Entry::Vacant(v) => {
-            debug!("vacant parent");
-            if let Key::Index(_) = self.keychain.borrow()[self.keychain.borrow().len() - 1] {
-              debug!("initialize to 1");
-              v.insert(HashValue::one_count());
-            } else if let Key::Str(ref s) = self.keychain.borrow()[self.keychain.borrow().len() - 1] {
-              debug!("initialize to string: {}", s);
-              v.insert(HashValue::one_keys(s.clone().into_owned()));
-            }
-          },
+      Parser::insert_value(&mut **borrow, &self.errors, self.line_count.get(), full_key, val);
+      // update the parent
+      if let Entry::Occupied(mut o) = borrow.entry(parent_key) {
+        if let &Children::Keys(ref vec_rf) = &o.get_mut().subkeys {
+          if let Key::Str(ref s) = self.keychain.borrow()[self.keychain.borrow().len() - 1] {
+            Parser::insert(vec_rf, s.clone().into_owned());
+          }
         }
       }
     }
@@ -654,7 +580,9 @@ impl<'a> Parser<'a> {
       val: call_m!(self.val)        ,
       || {
         let res = KeyVal::new_str(key, ws, val);
-        if self.array_error.get() {
+        if self.keychain.borrow().len() > 1 {
+          // Part of an array or inline table, which gets inserted as a whole
+        } else if self.array_error.get() {
           debug!("array_error");
           let err = self.errors.borrow_mut().pop().unwrap();
           if let ParseError::InvalidTable(_, _, _, ref map) = err {
-- 
2.43.0


From 192156aa745de5e9dbd4182c8c0d18f5e630a68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 05/25] fix: set_value replaces any value with any other and
 fails without side effects

Replacing an array or inline table with a scalar, or anything with a nested
array or inline table, panicked; stale child keys survived; setting a table
claimed success; an invalid value deleted the child keys or panicked.
---
 src/internals/parser.rs | 109 ++++++++--------------------------------
 1 file changed, 20 insertions(+), 89 deletions(-)

diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index f90d8e9..117a189 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -1,7 +1,6 @@
 use std::fmt;
 use std::fmt::Display;
 use std::collections::{HashMap, BTreeMap};
-use std::collections::hash_map::Entry;
 use std::cell::{Cell, RefCell};
 use std::rc::Rc;
 use std::borrow::Cow;
@@ -131,20 +130,21 @@ impl<'a> Parser<'a> {
 
   pub fn set_value<S>(self: &mut Parser<'a>, key: S, val: Value<'a>) -> bool where S: Into<String> {
     let s_key = key.into();
-    {
-      let tval = match self.map.entry(s_key.clone()) {
-        Entry::Occupied(entry) => entry.into_mut(),
-        _ => return false,
-      };
-      let opt_value: &mut Option<Rc<RefCell<TOMLValue<'a>>>> = &mut tval.value;
-      let val_rf = match opt_value {
-        &mut Some(ref mut v) => v,
-        &mut None => return false,
-      };
-      // if the inline table/array has the same structure the just replace the values
-      if Parser::same_structure(val_rf, &val) {
-        return Parser::replace_values(val_rf, &val);
-      }
+    let val_rf = match self.map.get(&s_key) {
+      Some(&HashValue{ value: Some(ref v), .. }) => v.clone(),
+      _ => return false,
+    };
+    if let TOMLValue::Table = *val_rf.borrow() {
+      return false;
+    }
+    // Check everything before changing anything
+    let new_value = match Parser::convert_vector(&val) {
+      Some(v) => v,
+      None => return false,
+    };
+    // if the inline table/array has the same structure the just replace the values
+    if Parser::same_structure(&val_rf, &val) {
+      return Parser::replace_values(&val_rf, &val);
     }
     // if the inline table/array has a different structure, delete the existing
     // array/inline table from the map and rebuild it from the new value
@@ -152,34 +152,8 @@ impl<'a> Parser<'a> {
     for key in all_keys.iter() {
       self.map.remove(key);
     }
-    let new_value_opt = Parser::convert_vector(&val);
-    if new_value_opt.is_none() {
-      return false;
-    }
-    let new_value = new_value_opt.unwrap();
-    let new_value_clone = match new_value {
-      TOMLValue::Array(ref rc_rc) => {
-        TOMLValue::Array(rc_rc.clone())
-      },
-      TOMLValue::InlineTable(ref rc_rc) => {
-        TOMLValue::InlineTable(rc_rc.clone())
-      },
-      unknown => panic!("In Parser.set_value, new_value should only be an Array or InlineTable. Instead it's a {:?}", unknown),
-    };
-    if self.map.contains_key(&s_key) {
-      let existing_value = match self.map.entry(s_key.clone()) {
-        Entry::Occupied(entry) => entry.into_mut(),
-        _ => panic!("Map contains key, but map.entry returned a Vacant entry is set_value."),
-      };
-      let opt_value: &mut Option<Rc<RefCell<TOMLValue<'a>>>> = &mut existing_value.value;
-      let val_rf = match opt_value {
-        &mut Some(ref mut v) => v,
-        &mut None => panic!("existing_value's value is None, when this should've returned false earlier in the function."),
-      };
-      *val_rf.borrow_mut() = new_value;
-    }
-    let new_value_rc = Rc::new(RefCell::new(new_value_clone));
-    self.rebuild_vector(s_key.clone(), new_value_rc.clone(), true);
+    *val_rf.borrow_mut() = new_value;
+    Parser::insert_value(&mut self.map, &self.errors, self.line_count.get(), s_key, val_rf);
     true
   }
 
@@ -214,6 +188,9 @@ impl<'a> Parser<'a> {
         for i in 0..it.len() {
           let subval = &it[i].1;
           let value_opt = Parser::convert_vector(subval);
+          if value_opt.is_none() {
+            return None;
+          }
           let value = value_opt.unwrap();
           let key_value;
           if i < it.len() - 1 {
@@ -299,52 +276,6 @@ impl<'a> Parser<'a> {
     }
   }
 
-  fn rebuild_vector(self: &mut Parser<'a>, key: String, val: Rc<RefCell<TOMLValue<'a>>>, skip: bool) {
-    match *val.borrow() {
-      TOMLValue::Array(ref arr) => {
-        {
-          let value = match self.map.entry(key.clone()) {
-            Entry::Occupied(entry) => entry.into_mut(),
-            _ => panic!("Map contains array key, but map.entry returned a Vacant entry in set_value."),
-          };
-          if !skip {
-            value.value = Some(val.clone());
-          }
-          value.subkeys = Children::Count(Cell::new(arr.borrow().values.len()));
-        }
-        for i in 0..arr.borrow().values.len() {
-          let subkey = format!("{}[{}]", key, i);
-          self.rebuild_vector(subkey, arr.borrow().values[i].val.clone(), false);
-        }
-      },
-      TOMLValue::InlineTable(ref it) => {
-        {
-          let value = match self.map.entry(key.clone()) {
-            Entry::Occupied(entry) => entry.into_mut(),
-            _ => panic!("Map contains inline table key, but map.entry returned a Vacant entry is set_value."),
-          };
-          if !skip {
-            value.value = Some(val.clone());
-          }
-          if let Children::Keys(ref child_keys) = value.subkeys {
-            for i in 0..it.borrow().keyvals.len() {
-              Parser::insert(child_keys, it.borrow().keyvals[i].keyval.key.clone().into_owned());
-            }
-          }
-        }
-        for i in 0..it.borrow().keyvals.len() {
-          let subkey = format!("{}.{}", key, &it.borrow().keyvals[i].keyval.key);
-          self.rebuild_vector(subkey, it.borrow().keyvals[i].keyval.val.clone(), false);
-        }
-      },
-      _ => {
-        self.map.entry(key.clone()).or_insert(
-          HashValue::new_count(val.clone())
-        );
-      },
-    }
-  }
-
   // Inserts a value and, if it's an array or inline table, everything it contains
   pub fn insert_value(map: &mut HashMap<String, HashValue<'a>>, errors: &RefCell<Vec<ParseError<'a>>>, line: usize,
     key: String, val: Rc<RefCell<TOMLValue<'a>>>) {
-- 
2.43.0


From 5f92a916619c5c0a02263aa459d9d0c94c185fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 06/25] fix: get_value of a table returns None instead of
 panicking

---
 src/internals/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index 117a189..9cb3ad8 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -102,10 +102,10 @@ impl<'a> Parser<'a> {
     if self.map.contains_key(&s_key) {
       let hashval = self.map.get(&s_key).unwrap();
       let clone = hashval.clone();
-      if let Some(val) = clone.value {
-        Some(to_val!(&*val.borrow()))
-      } else {
-        None
+      match clone.value {
+        // Tables don't have a value
+        Some(ref val) if *val.borrow() != TOMLValue::Table => Some(to_val!(&*val.borrow())),
+        _ => None,
       }
     } else {
       None
-- 
2.43.0


From b3c67cd8e938f1479f497656642f3a37f5513362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 07/25] fix: displaying an empty array, inline table or
 unparsed document doesn't underflow

---
 src/internals/ast/structs.rs | 13 +++++--------
 src/types.rs                 | 20 ++++++++++----------
 2 files changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/internals/ast/structs.rs b/src/internals/ast/structs.rs
index b9b10c5..a84cf84 100644
--- a/src/internals/ast/structs.rs
+++ b/src/internals/ast/structs.rs
@@ -36,10 +36,10 @@ impl<'a> PartialEq for Toml<'a> {
 
 impl<'a> Display for Toml<'a> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-      for i in 0..self.exprs.len()-1 {
-        try!(write!(f, "{}", self.exprs[i]));
+      for expr in self.exprs.iter() {
+        try!(write!(f, "{}", expr));
       }
-    write!(f, "{}", self.exprs[self.exprs.len()-1])
+      Ok(())
    }
 }
 
@@ -753,11 +753,8 @@ impl<'a> PartialEq for InlineTable<'a> {
 impl<'a> Display for InlineTable<'a> {
   fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
     try!(write!(f, "{{{}", self.ws.ws1));
-    for i in 0..self.keyvals.len() - 1 {
-      try!(write!(f, "{}", self.keyvals[i]));
-    }
-    if self.keyvals.len() > 0 {
-      try!(write!(f, "{}", self.keyvals[self.keyvals.len() - 1]));
+    for keyval in self.keyvals.iter() {
+      try!(write!(f, "{}", keyval));
     }
     write!(f, "{}}}", self.ws.ws2)
   }
diff --git a/src/types.rs b/src/types.rs
index 5579c3f..caf8199 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -280,11 +280,11 @@ impl<'a> Display for Value<'a> {
       &Value::DateTime(ref v) => write!(f, "{}", v),
       &Value::Array(ref arr) => {
         try!(write!(f, "["));
-        for i in 0..arr.len() - 1 {
-          try!(write!(f, "{}, ", arr[i]));
-        }
-        if arr.len() > 0 {
-          try!(write!(f, "{}", arr[arr.len()-1]));
+        for i in 0..arr.len() {
+          if i > 0 {
+            try!(write!(f, ", "));
+          }
+          try!(write!(f, "{}", arr[i]));
         }
         write!(f, "]")
       },
@@ -298,11 +298,11 @@ impl<'a> Display for Value<'a> {
       },
       &Value::InlineTable(ref it) => {
         try!(write!(f, "{{"));
-        for i in 0..it.len() - 1 {
-          try!(write!(f, "{} = {}, ", it[i].0, it[i].1));
-        }
-        if it.len() > 0 {
-          try!(write!(f, "{} = {}", it[it.len()-1].0, it[it.len()-1].1));
+        for i in 0..it.len() {
+          if i > 0 {
+            try!(write!(f, ", "));
+          }
+          try!(write!(f, "{} = {}", it[i].0, it[i].1));
         }
         write!(f, "}}")
       }
-- 
2.43.0


From 47046bf793ae5a9781092455558c6179d8f27df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:32 +0000
Subject: [PATCH 08/25] fix: integers and floats followed by anything else
 don't validate

int_from_str("5abc") succeeded, and set_value wrote it to the document.
---
 src/types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index caf8199..2f0a916 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -949,14 +949,14 @@ impl<'a> Value<'a> {
       &Value::Integer(ref s) => {
         let p = Parser::new();
         match p.integer(s) {
-           (_, IResult::Done(_, _)) => true,
+           (_, IResult::Done(i, _)) => i.len() == 0,
            (_,_) => false,
         }
       },
       &Value::Float(ref s) => {
         let p = Parser::new();
         match p.float(s) {
-           (_, IResult::Done(_, _)) => true,
+           (_, IResult::Done(i, _)) => i.len() == 0,
            (_,_) => false,
         }
       },
-- 
2.43.0


From da6f95b68f04d8ba9379a6d3a20f075547decc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 09/25] fix: the fields of dates and times have to be digits

"+5" was accepted as a month, and a fraction of a second with more than 20
digits was rejected.
---
 src/types.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 2f0a916..96cd159 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -1120,6 +1120,11 @@ impl<'a> Display for TimeOffsetAmount<'a> {
   }
 }
 
+/// `from_str` for integers isn't enough, because it accepts a leading '+'.
+fn all_digits(s: &str) -> bool {
+  s.len() > 0 && s.bytes().all(|b| b >= b'0' && b <= b'9')
+}
+
 impl<'a> TimeOffsetAmount<'a> {
 
   /// Create a new `TimeOffsetAmount` from string type values. Returns `Ok()` on success and `Err()` on failure.
@@ -1157,7 +1162,7 @@ impl<'a> TimeOffsetAmount<'a> {
   /// assert!(offset_right.validate());
   /// ```
   pub fn validate(&self) -> bool {
-    if self.hour.len() != 2 || self.minute.len() != 2 {
+    if self.hour.len() != 2 || self.minute.len() != 2 || !all_digits(&self.hour) || !all_digits(&self.minute) {
       return false;
     }
     return self.validate_numbers();
@@ -1241,7 +1246,8 @@ impl<'a> Date<'a> {
   /// assert!(date_right.validate());
   /// ```
   pub fn validate(&self) -> bool {
-    if self.year.len() != 4 || self.month.len() != 2 || self.day.len() != 2 {
+    if self.year.len() != 4 || self.month.len() != 2 || self.day.len() != 2 ||
+       !all_digits(&self.year) || !all_digits(&self.month) || !all_digits(&self.day) {
       return false;
     }
     return self.validate_numbers();
@@ -1376,7 +1382,8 @@ impl<'a> Time<'a> {
   /// assert!(time_right.validate());
   /// ```
   pub fn validate(&self) -> bool {
-    if self.hour.len() != 2 || self.minute.len() != 2 || self.second.len() != 2 {
+    if self.hour.len() != 2 || self.minute.len() != 2 || self.second.len() != 2 ||
+       !all_digits(&self.hour) || !all_digits(&self.minute) || !all_digits(&self.second) {
       return false;
     }
     return self.validate_numbers();
@@ -1405,7 +1412,7 @@ impl<'a> Time<'a> {
       return false;
     }
     if let Some(ref frac) = self.fraction {
-      if u64::from_str(frac).is_err() {
+      if !all_digits(frac) {
         return false;
       }
     }
-- 
2.43.0


From f821ad176b151077b6c9d259f868f04a02770ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 10/25] fix: multi-line strings that don't fit between their
 delimiters don't validate

ml_basic_string and ml_literal_string accepted strings that contain or end
with the delimiter, which set_value then wrote into the document as something
else entirely.
---
 src/internals/primitives.rs | 12 ++----------
 src/types.rs                |  9 +++++----
 2 files changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index 6f66964..f8c35cf 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -357,16 +357,8 @@ impl<'a> Parser<'a> {
   // Basic String
   named!(pub quoteless_basic_string<&'a str, &'a str>,
     re_find!(r#"^( |!|[#-\[]|[\]-￿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8}))*"#));
-  // Multiline Basic String
-  // TODO: Convert this to take_while_s using a function that increments self.linecount
-  named!(pub quoteless_ml_basic_string<&'a str, &'a str>,
-    re_find!(r#"^([ -\[]|[\]-￿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*"#));
   // Literal String
   named!(pub quoteless_literal_string<&'a str, &'a str>, re_find!(r#"^( |[ -&]|[\(-￿])*"#));
-  // Multiline Literal String
-  // TODO: Convert to take_while_s using a function that increments self.linecount
-  named!(pub quoteless_ml_literal_string<&'a str, &'a str>, re_find!(r#"^(  |[ -￿]|\n|(\r\n))*"#));
-
   // Basic String
   method!(raw_basic_string<Parser<'a>, &'a str, &'a str>, self,
     re_find!(r#"^"( |!|[#-\[]|[\]-￿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8}))*?""#));
@@ -389,7 +381,7 @@ impl<'a> Parser<'a> {
     )
   );
 
-  fn ml_basic_string(mut self: Parser<'a>, input: &'a str) -> (Parser<'a>, nom::IResult<&'a str, &'a str>) {
+  pub fn ml_basic_string(mut self: Parser<'a>, input: &'a str) -> (Parser<'a>, nom::IResult<&'a str, &'a str>) {
     let (tmp, raw) = self.raw_ml_basic_string(input);
     self = tmp;
     let r = match raw {
@@ -411,7 +403,7 @@ impl<'a> Parser<'a> {
     (self, r)
   }
 
-  fn ml_literal_string(mut self: Parser<'a>, input: &'a str) -> (Parser<'a>, nom::IResult<&'a str, &'a str>) {
+  pub fn ml_literal_string(mut self: Parser<'a>, input: &'a str) -> (Parser<'a>, nom::IResult<&'a str, &'a str>) {
     let (tmp, raw) = self.raw_ml_literal_string(input);
     self = tmp;
     let r = match raw {
diff --git a/src/types.rs b/src/types.rs
index 96cd159..aa51bd9 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -970,8 +970,9 @@ impl<'a> Value<'a> {
             }
           },
           StrType::MLBasic => {
-            match Parser::quoteless_ml_basic_string(s) {
-              IResult::Done(i,_) => i.len() == 0,
+            // Only valid if it's still the whole string once it's between delimiters
+            match Parser::new().ml_basic_string(&format!("\"\"\"{}\"\"\"", s)) {
+              (_, IResult::Done(i,_)) => i.len() == 0,
               _ => false,
             }
           },
@@ -982,8 +983,8 @@ impl<'a> Value<'a> {
             }
           },
           StrType::MLLiteral => {
-            match Parser::quoteless_ml_literal_string(s) {
-              IResult::Done(i,_) => i.len() == 0,
+            match Parser::new().ml_literal_string(&format!("'''{}'''", s)) {
+              (_, IResult::Done(i,_)) => i.len() == 0,
               _ => false,
             }
           },
-- 
2.43.0


From 1fe010adee9a010ad56ca9b053c6bd5bbc161df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:31 +0000
Subject: [PATCH 11/25] fix: arrays and inline tables validate what they
 contain

An invalid value inside an array, or an inline table key which isn't a key,
could be written to the document. Keys must also be unique.
---
 src/types.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index aa51bd9..bef9517 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -990,7 +990,17 @@ impl<'a> Value<'a> {
           },
         }
       },
-      _ => true,
+      &Value::Array(ref arr) => arr.iter().all(|v| v.validate()),
+      &Value::InlineTable(ref it) => {
+        it.iter().enumerate().all(|(i, &(ref key, ref val))| {
+          let valid_key = match Parser::new().key(key) {
+            (_, IResult::Done(rest, _)) => rest.len() == 0,
+            _ => false,
+          };
+          valid_key && val.validate() && it[..i].iter().all(|&(ref other, _)| other != key)
+        })
+      },
+      &Value::Boolean(_) => true,
     }
   }
 }
-- 
2.43.0


From 05970909ecc0dbaf026d25bbf413b2c495ffd795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 12/25] fix: numbers consist of ASCII digits

\d matches every Unicode digit.
---
 src/internals/primitives.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index f8c35cf..d1f9460 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -348,11 +348,11 @@ impl<'a> Parser<'a> {
   }
 
   // Integer
-  method!(pub integer<Parser<'a>, &'a str, &'a str>, self, re_find!(r#"^((\+|-)?(([1-9](\d|(_\d))+)|\d))"#)) ;
+  method!(pub integer<Parser<'a>, &'a str, &'a str>, self, re_find!(r#"^((\+|-)?(([1-9]([0-9]|(_[0-9]))+)|[0-9]))"#)) ;
 
   // Float
   method!(pub float<Parser<'a>, &'a str, &'a str>, self,
-         re_find!(r#"^(\+|-)?([1-9](\d|(_\d))+|\d)((\.\d(\d|(_\d))*)((e|E)(\+|-)?([1-9](\d|(_\d))+|\d))|(\.\d(\d|(_\d))*)|((e|E)(\+|-)?([1-9](\d|(_\d))+|\d)))"#));
+         re_find!(r#"^(\+|-)?([1-9]([0-9]|(_[0-9]))+|[0-9])((\.[0-9]([0-9]|(_[0-9]))*)((e|E)(\+|-)?([1-9]([0-9]|(_[0-9]))+|[0-9]))|(\.[0-9]([0-9]|(_[0-9]))*)|((e|E)(\+|-)?([1-9]([0-9]|(_[0-9]))+|[0-9])))"#));
 
   // Basic String
   named!(pub quoteless_basic_string<&'a str, &'a str>,
-- 
2.43.0


From 8a4009cc4f28d6660d2c4ad4175052c269c54140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:34 +0000
Subject: [PATCH 13/25] fix: unicode escapes consist of hexadecimal digits of
 either case

---
 src/internals/primitives.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index d1f9460..2410afd 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -356,17 +356,17 @@ impl<'a> Parser<'a> {
 
   // Basic String
   named!(pub quoteless_basic_string<&'a str, &'a str>,
-    re_find!(r#"^( |!|[#-\[]|[\]-￿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8}))*"#));
+    re_find!(r#"^( |!|[#-\[]|[\]-￿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9a-fA-F]{4})|(\\U[0-9a-fA-F]{8}))*"#));
   // Literal String
   named!(pub quoteless_literal_string<&'a str, &'a str>, re_find!(r#"^( |[ -&]|[\(-￿])*"#));
   // Basic String
   method!(raw_basic_string<Parser<'a>, &'a str, &'a str>, self,
-    re_find!(r#"^"( |!|[#-\[]|[\]-￿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8}))*?""#));
+    re_find!(r#"^"( |!|[#-\[]|[\]-￿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9a-fA-F]{4})|(\\U[0-9a-fA-F]{8}))*?""#));
   // Multiline Basic String
   // TODO: Convert this to take_while_s using a function that increments self.linecount
   method!(raw_ml_basic_string<Parser<'a>, &'a str, &'a str>, self,
     chain!(
-   string: re_find!(r#"^"""([ -\[]|[\]-￿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*?""""#),
+   string: re_find!(r#"^"""([ -\[]|[\]-￿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9a-fA-F]{4})|(\\U[0-9a-fA-F]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*?""""#),
       ||{self.line_count.set(self.line_count.get() + count_lines(string)); string}
     )
   );
@@ -532,7 +532,7 @@ impl<'a> Parser<'a> {
   // Key-TOMLValue pairs
   method!(unquoted_key<Parser<'a>, &'a str, &'a str>, self, take_while1_s!(is_keychar));
   method!(quoted_key<Parser<'a>, &'a str, &'a str>, self,
-    re_find!("^\"( |!|[#-\\[]|[\\]-￿]|(\\\\\")|(\\\\\\\\)|(\\\\/)|(\\\\b)|(\\\\f)|(\\\\n)|(\\\\r)|(\\\\t)|(\\\\u[0-9A-Z]{4})|(\\\\U[0-9A-Z]{8}))+\""));
+    re_find!("^\"( |!|[#-\\[]|[\\]-￿]|(\\\\\")|(\\\\\\\\)|(\\\\/)|(\\\\b)|(\\\\f)|(\\\\n)|(\\\\r)|(\\\\t)|(\\\\u[0-9a-fA-F]{4})|(\\\\U[0-9a-fA-F]{8}))+\""));
 
   method!(pub key<Parser<'a>, &'a str, &'a str>, mut self, alt!(
     complete!(call_m!(self.quoted_key))   =>  {|k: &'a str| {
-- 
2.43.0


From 50cc7fdb17ab22b2ee5607201db49c451ea299b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:55 +0000
Subject: [PATCH 14/25] fix: strings, quoted keys and comments may contain any
 Unicode character

---
 src/internals/primitives.rs | 14 +++++++-------
 src/internals/util.rs       |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index 2410afd..bc5c783 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -356,27 +356,27 @@ impl<'a> Parser<'a> {
 
   // Basic String
   named!(pub quoteless_basic_string<&'a str, &'a str>,
-    re_find!(r#"^( |!|[#-\[]|[\]-￿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9a-fA-F]{4})|(\\U[0-9a-fA-F]{8}))*"#));
+    re_find!(r#"^( |!|[#-\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9a-fA-F]{4})|(\\U[0-9a-fA-F]{8}))*"#));
   // Literal String
-  named!(pub quoteless_literal_string<&'a str, &'a str>, re_find!(r#"^( |[ -&]|[\(-￿])*"#));
+  named!(pub quoteless_literal_string<&'a str, &'a str>, re_find!(r#"^( |[ -&]|[\(-\x{10FFFF}])*"#));
   // Basic String
   method!(raw_basic_string<Parser<'a>, &'a str, &'a str>, self,
-    re_find!(r#"^"( |!|[#-\[]|[\]-￿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9a-fA-F]{4})|(\\U[0-9a-fA-F]{8}))*?""#));
+    re_find!(r#"^"( |!|[#-\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9a-fA-F]{4})|(\\U[0-9a-fA-F]{8}))*?""#));
   // Multiline Basic String
   // TODO: Convert this to take_while_s using a function that increments self.linecount
   method!(raw_ml_basic_string<Parser<'a>, &'a str, &'a str>, self,
     chain!(
-   string: re_find!(r#"^"""([ -\[]|[\]-￿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9a-fA-F]{4})|(\\U[0-9a-fA-F]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*?""""#),
+   string: re_find!(r#"^"""([ -\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9a-fA-F]{4})|(\\U[0-9a-fA-F]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*?""""#),
       ||{self.line_count.set(self.line_count.get() + count_lines(string)); string}
     )
   );
   // Literal String
-  method!(raw_literal_string<Parser<'a>, &'a str, &'a str>, self, re_find!(r#"^'( |[ -&]|[\(-￿])*?'"#));
+  method!(raw_literal_string<Parser<'a>, &'a str, &'a str>, self, re_find!(r#"^'( |[ -&]|[\(-\x{10FFFF}])*?'"#));
   // Multiline Literal String
   // TODO: Convert to take_while_s using a function that increments self.linecount
   method!(raw_ml_literal_string<Parser<'a>, &'a str, &'a str>, self,
     chain!(
-   string: re_find!(r#"^'''(  |[ -￿]|\n|(\r\n))*?'''"#),
+   string: re_find!(r#"^'''(  |[ -\x{10FFFF}]|\n|(\r\n))*?'''"#),
       ||{self.line_count.set(self.line_count.get() + count_lines(string)); string}
     )
   );
@@ -532,7 +532,7 @@ impl<'a> Parser<'a> {
   // Key-TOMLValue pairs
   method!(unquoted_key<Parser<'a>, &'a str, &'a str>, self, take_while1_s!(is_keychar));
   method!(quoted_key<Parser<'a>, &'a str, &'a str>, self,
-    re_find!("^\"( |!|[#-\\[]|[\\]-￿]|(\\\\\")|(\\\\\\\\)|(\\\\/)|(\\\\b)|(\\\\f)|(\\\\n)|(\\\\r)|(\\\\t)|(\\\\u[0-9a-fA-F]{4})|(\\\\U[0-9a-fA-F]{8}))+\""));
+    re_find!("^\"( |!|[#-\\[]|[\\]-\\x{10FFFF}]|(\\\\\")|(\\\\\\\\)|(\\\\/)|(\\\\b)|(\\\\f)|(\\\\n)|(\\\\r)|(\\\\t)|(\\\\u[0-9a-fA-F]{4})|(\\\\U[0-9a-fA-F]{8}))+\""));
 
   method!(pub key<Parser<'a>, &'a str, &'a str>, mut self, alt!(
     complete!(call_m!(self.quoted_key))   =>  {|k: &'a str| {
diff --git a/src/internals/util.rs b/src/internals/util.rs
index 511e431..b7347a2 100644
--- a/src/internals/util.rs
+++ b/src/internals/util.rs
@@ -2,7 +2,7 @@ use internals::ast::structs::Comment;
 use internals::parser::Parser;
 
 fn not_eol(chr: char) -> bool {
-  chr as u32 == 0x09 || (chr as u32 >= 0x20 && chr as u32 <= 0x10FFF)
+  chr as u32 == 0x09 || (chr as u32 >= 0x20 && chr as u32 <= 0x10FFFF)
 }
 
 impl<'a> Parser<'a> {
-- 
2.43.0


From c627d86f1b9c98643a684c59f14ccca9ab3ce531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:24 +0000
Subject: [PATCH 15/25] fix: a table header is resolved against the tables that
 exist, whatever came before it

---
 src/internals/ast/structs.rs |  37 +-----
 src/internals/objects.rs     | 245 +++++++++++++----------------------
 src/internals/primitives.rs  |   4 +
 3 files changed, 98 insertions(+), 188 deletions(-)

diff --git a/src/internals/ast/structs.rs b/src/internals/ast/structs.rs
index a84cf84..0d58651 100644
--- a/src/internals/ast/structs.rs
+++ b/src/internals/ast/structs.rs
@@ -314,7 +314,7 @@ impl<'a> Comment<'a> {
   }
 }
 
-#[derive(Debug, Eq)]
+#[derive(Clone, Debug, Eq)]
 pub struct WSSep<'a> {
   pub ws1: Cow<'a, str>,
   pub ws2: Cow<'a, str>,
@@ -370,7 +370,7 @@ impl<'a> KeyVal<'a> {
 }
 
 // <ws.ws1>.<ws.ws2><key>
-#[derive(Debug, Eq)]
+#[derive(Clone, Debug, Eq)]
 pub struct WSKeySep<'a> {
   pub ws: WSSep<'a>,
   pub key: Cow<'a, str>,
@@ -420,18 +420,6 @@ pub fn get_last_keys(last_table: Option<&Table>, t: &Table) -> Vec<String> {
   }
 }
 
-pub fn format_keys(t: &Table) -> String {
-  let mut s = String::new();
-  if t.keys.len() > 0 {
-    for i in 0..t.keys.len() - 1 {
-      s.push_str(&t.keys[i].key);
-      s.push('.');
-    }
-    s.push_str(&t.keys[t.keys.len() - 1].key);
-  }
-  s
-}
-
 pub fn format_tt_keys(tabletype: &TableType) -> String {
   match tabletype {
     &TableType::Standard(ref t) | &TableType::Array(ref t) => {
@@ -450,7 +438,7 @@ pub fn format_tt_keys(tabletype: &TableType) -> String {
 
 // Standard: [<ws.ws1><key><subkeys*><ws.ws2>]
 // Array: [[<ws.ws1><key><subkeys*><ws.ws2>]]
-#[derive(Debug, Eq)]
+#[derive(Clone, Debug, Eq)]
 pub struct Table<'a> {
   pub keys: Vec<WSKeySep<'a>>,
 }
@@ -488,25 +476,6 @@ impl<'a> Table<'a> {
   }
 }
 
-impl<'a> TableType<'a> {
-  pub fn is_subtable_of(&self, prev: &TableType<'a>) -> bool {
-    match self { 
-      &TableType::Standard(ref t) | &TableType::Array(ref t) => {
-        match prev {
-          &TableType::Standard(ref prev_table) | &TableType::Array(ref prev_table) => {
-            let prev_key = format_keys(&prev_table);
-            let key = format_keys(t);
-            if let Some(i) = key.find(&prev_key) {
-              return i == 0;
-            }
-          }
-        }
-      }
-    }
-    false
-  }
-}
-
 // <comment><newlines+>
 #[derive(Debug, Eq)]
 pub struct CommentNewLines<'a> {
diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index 7ab0d53..8a6e75e 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -45,34 +45,56 @@ impl<'a> Parser<'a> {
     return false;
   }
 
-  fn is_top_std_table(tables: &RefCell<Vec<Rc<TableType<'a>>>>) -> bool {
-    if tables.borrow().len() ==  0 {
-      return false;
-    } else {
-      let len = tables.borrow().len();
-      if let TableType::Standard(_) = *tables.borrow()[len - 1] {
-        return true;
-      } else {
-        return false;
+  // Finds the arrays of tables a table header is nested in and makes each of them, with its last element, one of the
+  // last array tables. An array table that already exists is one of them as well. Returns false if the header doesn't fit
+  // in with what's already there.
+  fn enter_array_tables(map: &RefCell<&mut HashMap<String, HashValue<'a>>>, tables: &RefCell<Vec<Rc<TableType<'a>>>>,
+    tables_index: &RefCell<Vec<usize>>, table: &TableType<'a>) -> bool {
+    tables.borrow_mut().clear();
+    tables_index.borrow_mut().clear();
+    let (keys, is_array) = match table {
+      &TableType::Standard(ref t) => (&t.keys, false),
+      &TableType::Array(ref t)    => (&t.keys, true),
+    };
+    let map_borrow = map.borrow();
+    let mut path = String::new();
+    for i in 0..keys.len() {
+      if i > 0 {
+        path.push('.');
       }
-    }
-  }
-
-  fn equal_key_length(table: Rc<TableType<'a>>, tables: &RefCell<Vec<Rc<TableType<'a>>>>) -> bool {
-    if tables.borrow().len() ==  0 {
-      return false;
-    } else {
-      match *table {
-        TableType::Array(ref t1) | TableType::Standard(ref t1) => {
-          let len = tables.borrow().len();
-          match *tables.borrow()[len - 1] {
-            TableType::Array(ref t2) | TableType::Standard(ref t2) => {
-              return t1.keys.len() == t2.keys.len();
-            }
-          }
+      path.push_str(&keys[i].key);
+      let is_last = i == keys.len() - 1;
+      let hash_value = match map_borrow.get(&path) {
+        Some(hash_value) => hash_value,
+        None             => return true, // Neither this nor anything beneath it exists
+      };
+      if let Some(ref value) = hash_value.value {
+        if *value.borrow() != TOMLValue::Table {
+          debug!("Key \"{}\" has a value.", path);
+          return false;
         }
       }
+      match hash_value.subkeys {
+        Children::Count(ref c) => {
+          if is_last && !is_array {
+            debug!("Table key \"{}\" conflicts with array key.", path);
+            return false;
+          }
+          let index = c.get() - 1;
+          let prefix = keys[0..i + 1].iter().cloned().collect();
+          tables.borrow_mut().push(Rc::new(TableType::Array(Table{ keys: prefix })));
+          tables_index.borrow_mut().push(index);
+          path.push_str(&format!("[{}]", index));
+        },
+        Children::Keys(_) => {
+          if is_last && is_array {
+            debug!("Array Key \"{}\" conflicts with table key.", path);
+            return false;
+          }
+        },
+      }
     }
+    true
   }
 
   fn add_implicit_tables(map: &RefCell<&mut HashMap<String, HashValue<'a>>>,
@@ -228,81 +250,38 @@ impl<'a> Parser<'a> {
         let res = Rc::new(TableType::Standard(Table::new_str(
           WSSep::new_str(ws1, ws2), key, subkeys
         )));
-        let mut error = false;
         let keychain_len = self.keychain.borrow().len();
         self.keychain.borrow_mut().truncate(keychain_len - keys_len);
-        if Parser::is_top_std_table(&self.last_array_tables) || Parser::equal_key_length(res.clone(), &self.last_array_tables) {
-          self.last_array_tables.borrow_mut().pop();
-          self.last_array_tables_index.borrow_mut().pop();
-        }
         let map = RefCell::new(&mut self.map);
-        let mut table_key = "".to_string();
-        let mut parent_key = "$Root$".to_string();
-        debug!("Before get len");
-        let mut len = self.last_array_tables.borrow().len();
-        let current_key = format_tt_keys(&*res);
-        if len > 0 {
-          let last_key = format_tt_keys(&self.last_array_tables.borrow()[len - 1]);
-          if current_key == last_key {
-            error = true;
-          } else {
-            debug!("Check if subtable");
-            let subtable = res.is_subtable_of(&self.last_array_tables.borrow()[len - 1]);
-            if !subtable {
-              loop {
-                debug!("Not subtable pop {}", self.last_array_tables.borrow()[self.last_array_tables.borrow().len() - 1]);
-                self.last_array_tables.borrow_mut().pop();
-                self.last_array_tables_index.borrow_mut().pop();
-                len -= 1;
-                debug!("check array_tables len and subtable");
-                if len == 0 || res.is_subtable_of(&self.last_array_tables.borrow()[len - 1]) {
-                  break;
-                }
-              }
-            }
-          }
-        }
-        if len > 0 && current_key == format_tt_keys(&self.last_array_tables.borrow()[len - 1]) {
+        let mut error = !Parser::enter_array_tables(&map, &self.last_array_tables,
+          &self.last_array_tables_index, &*res);
+        self.last_array_tables.borrow_mut().push(res.clone());
+        self.last_array_tables_index.borrow_mut().push(0);
+        let (valid, table_key, parent_key) = Parser::get_array_table_key(&map, &self.last_array_tables,
+          &self.last_array_tables_index);
+        self.last_array_tables.borrow_mut().pop();
+        self.last_array_tables_index.borrow_mut().pop();
+        // An element of an array of tables may have both values and sub-tables
+        if !valid || (!parent_key.ends_with("]") && Parser::key_has_children_with_values(&parent_key, &map)) {
           error = true;
-        } else {
-          self.last_array_tables.borrow_mut().push(res.clone());
-          self.last_array_tables_index.borrow_mut().push(0);
-          let tuple = Parser::get_array_table_key(&map, &self.last_array_tables, &self.last_array_tables_index);
-          table_key = tuple.1;
-          parent_key = tuple.2;
-          self.last_array_tables.borrow_mut().pop();
-          self.last_array_tables_index.borrow_mut().pop();
-          if !tuple.0 || Parser::key_has_children_with_values(&parent_key, &map) {
-            error = true;
-          } else {
-            debug!("Standard Table Key: {}", table_key);
-            if map.borrow().contains_key(&table_key) {
-              let map_borrow = map.borrow();
-              let hash_val_opt = map_borrow.get(&table_key);
-              if let Some(ref hash_val) = hash_val_opt {
-                if let Some(ref rc_rc_val) = hash_val.value {
-                  if let TOMLValue::Table = *rc_rc_val.borrow() {
-                    debug!("Table error {}, table already defined", table_key);
-                    error = true;
-                  }
-                }
-              }
+        } else if let Some(hash_val) = map.borrow().get(&table_key) {
+          debug!("Standard Table Key: {}", table_key);
+          if let Some(ref rc_rc_val) = hash_val.value {
+            if let TOMLValue::Table = *rc_rc_val.borrow() {
+              debug!("Table error {}, table already defined", table_key);
+              error = true;
             }
           }
         }
         debug!("Before error check");
         if error {
-          self.last_array_tables.borrow_mut().push(res.clone());
-          self.last_array_tables_index.borrow_mut().push(0);
-          let array_table_key = Parser::get_array_table_key(&map, &self.last_array_tables,
-            &self.last_array_tables_index).1;
-          debug!("Setting Invalid Table {} in Standard Table", array_table_key);
+          debug!("Setting Invalid Table {} in Standard Table", table_key);
           self.errors.borrow_mut().push(ParseError::InvalidTable(
-            array_table_key, self.line_count.get(), 0,
+            table_key, self.line_count.get(), 0,
             RefCell::new(HashMap::new())
           ));
-          self.last_array_tables.borrow_mut().pop();
-          self.last_array_tables_index.borrow_mut().pop();
+          self.last_array_tables.borrow_mut().push(res.clone());
+          self.last_array_tables_index.borrow_mut().push(0);
           self.array_error.set(true);
         } else {
           Parser::add_implicit_tables(&map, &self.last_array_tables,
@@ -355,80 +334,38 @@ impl<'a> Parser<'a> {
         )));
         let keychain_len = self.keychain.borrow().len();
         self.keychain.borrow_mut().truncate(keychain_len - keys_len);
-        if Parser::is_top_std_table(&self.last_array_tables) {
-          self.last_array_tables.borrow_mut().pop();
-          self.last_array_tables_index.borrow_mut().pop();
-        }
         {
           let map = RefCell::new(&mut self.map);
-          self.array_error.set(false);
-          let len = self.last_array_tables.borrow().len();
-          let current_key = format_tt_keys(&*res);
-          if len > 0 {
-            let mut len = self.last_array_tables.borrow().len();
-            let last_key = format_tt_keys(&self.last_array_tables.borrow()[len - 1]);
-            debug!("current_key: {}, last_key: {}", current_key, last_key);
-            if current_key == last_key {
-              debug!("Increment array table index");
-              Parser::increment_array_table_index(&map, &self.last_array_tables,
-                &self.last_array_tables_index);
-            } else {
-              let subtable = res.is_subtable_of(&self.last_array_tables.borrow()[len - 1]);
-              if subtable {
-                debug!("Is subtable");
-                Parser::add_implicit_tables(&map, &self.last_array_tables,
-                  &self.last_array_tables_index, res.clone());
-                self.last_array_tables.borrow_mut().push(res.clone());
-                self.last_array_tables_index.borrow_mut().push(0);
-              } else {
-                debug!("NOT subtable");
-                while self.last_array_tables.borrow().len() > 0 &&
-                  current_key != format_tt_keys(&self.last_array_tables.borrow()[self.last_array_tables.borrow().len() - 1]) {
-                  debug!("pop table");
-                  self.last_array_tables.borrow_mut().pop();
-                  self.last_array_tables_index.borrow_mut().pop();
-                }
-                len = self.last_array_tables.borrow().len();
-                if len > 0 {
-                  debug!("Increment array table index the second");
-                  Parser::increment_array_table_index(&map, &self.last_array_tables,
-                    &self.last_array_tables_index);
-                } else {
-                  debug!("Add implicit tables");
-                  Parser::add_implicit_tables(&map, &self.last_array_tables,
-                    &self.last_array_tables_index,  res.clone());
-                  self.last_array_tables.borrow_mut().push(res.clone());
-                  self.last_array_tables_index.borrow_mut().push(0);
-                  let parent_key = Parser::get_key_parent(&self.last_array_tables,
-                    &self.last_array_tables_index);
-                  debug!("Got parent key: {}", parent_key);
-                  let contains_key = map.borrow().contains_key(&parent_key);
-                  if contains_key {
-                    debug!("Increment array table index the third");
-                    Parser::increment_array_table_index(&map, &self.last_array_tables,
-                      &self.last_array_tables_index);
-                  }
-                }
-              }
+          if !Parser::enter_array_tables(&map, &self.last_array_tables, &self.last_array_tables_index, &*res) {
+            // There's no element to index, so treat it like a standard table
+            if let TableType::Array(ref tbl) = *res {
+              self.last_array_tables.borrow_mut().push(Rc::new(TableType::Standard(tbl.clone())));
+              self.last_array_tables_index.borrow_mut().push(0);
             }
-          } else {
-            debug!("Len == 0 add implicit tables");
-            Parser::add_implicit_tables(&map, &self.last_array_tables,
-              &self.last_array_tables_index, res.clone());
-            self.last_array_tables.borrow_mut().push(res.clone());
-            self.last_array_tables_index.borrow_mut().push(0);
-          }
-          debug!("Before call to get_array_table_key");
-          let (valid, full_key, parent_key) = Parser::get_array_table_key(&map, &self.last_array_tables,
-            &self.last_array_tables_index);
-          if !valid {
-            debug!("Setting Invalid Table {}", full_key);
+            let table_key = Parser::get_array_table_key(&map, &self.last_array_tables,
+              &self.last_array_tables_index).1;
+            debug!("Setting Invalid Table {}", table_key);
             self.errors.borrow_mut().push(ParseError::InvalidTable(
-              full_key, self.line_count.get(), 0,
+              table_key, self.line_count.get(), 0,
               RefCell::new(HashMap::new())
             ));
+            self.array_error.set(true);
           } else {
-            debug!("After call to get_array_table_key");
+            self.array_error.set(false);
+            let len = self.last_array_tables.borrow().len();
+            if len > 0 && format_tt_keys(&*res) == format_tt_keys(&self.last_array_tables.borrow()[len - 1]) {
+              debug!("Increment array table index");
+              Parser::increment_array_table_index(&map, &self.last_array_tables,
+                &self.last_array_tables_index);
+            } else {
+              debug!("Add implicit tables");
+              Parser::add_implicit_tables(&map, &self.last_array_tables,
+                &self.last_array_tables_index, res.clone());
+              self.last_array_tables.borrow_mut().push(res.clone());
+              self.last_array_tables_index.borrow_mut().push(0);
+            }
+            let (_, full_key, parent_key) = Parser::get_array_table_key(&map, &self.last_array_tables,
+              &self.last_array_tables_index);
             let contains_key = map.borrow().contains_key(&parent_key);
             if !contains_key {
               debug!("Insert new array of table key: {}", full_key);
diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index bc5c783..a529eeb 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -173,6 +173,10 @@ impl<'a> Parser<'a> {
           // Standard tables can't be nested so this has to be the last table in the vector
           let keys = get_last_keys(last_table, t);
           debug!("get_last_keys {:?}, prev_end: {}", keys, prev_end);
+          if i > 0 {
+            // The element of the array of tables, without the dot
+            parent_key = full_key[0..full_key.len() - 1].to_string();
+          }
           for j in prev_end..keys.len() - 1 {
             if keys[j] == "$Root$" {
               continue;
-- 
2.43.0


From 73aeef24fc0a34a0ccbf3913ee8e4d0cb29aaa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:26 +0000
Subject: [PATCH 16/25] fix: a value with an error is kept with the invalid
 table it's in

---
 src/internals/primitives.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index a529eeb..18ae36c 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -580,12 +580,14 @@ impl<'a> Parser<'a> {
           // Part of an array or inline table, which gets inserted as a whole
         } else if self.array_error.get() {
           debug!("array_error");
-          let err = self.errors.borrow_mut().pop().unwrap();
-          if let ParseError::InvalidTable(_, _, _, ref map) = err {
-            debug!("InvalidTable");
-            map.borrow_mut().insert(res.key.to_string(), to_val!(&*res.val.borrow()));
+          // The invalid table isn't the last error if one of its values has an error as well
+          for err in self.errors.borrow().iter().rev() {
+            if let &ParseError::InvalidTable(_, _, _, ref map) = err {
+              debug!("InvalidTable");
+              map.borrow_mut().insert(res.key.to_string(), to_val!(&*res.val.borrow()));
+              break;
+            }
           }
-          self.errors.borrow_mut().push(err);
         } else {
           match *res.val.borrow() {
             _ => self.insert_keyval_into_map(res.val.clone()),
-- 
2.43.0


From 111bca903603d758fc993e890101023cfcb7b246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:26 +0000
Subject: [PATCH 17/25] fix: report each array of mixed types once, whatever
 other errors there are

---
 src/internals/ast/structs.rs |  1 +
 src/internals/objects.rs     | 31 ++++++++++---------------------
 2 files changed, 11 insertions(+), 21 deletions(-)

diff --git a/src/internals/ast/structs.rs b/src/internals/ast/structs.rs
index 0d58651..492865a 100644
--- a/src/internals/ast/structs.rs
+++ b/src/internals/ast/structs.rs
@@ -143,6 +143,7 @@ pub enum ArrayType {
   Array,
   String,
   InlineTable,
+  Mixed,
   None,
 }
 
diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index 8a6e75e..ba13b1f 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -424,32 +424,21 @@ impl<'a> Parser<'a> {
     array_sep: complete!(call_m!(self.array_sep))?      ~
   comment_nls: complete!(call_m!(self.comment_or_nls))  ,
           ||{
-            let t = map_val_to_array_type(&*val.borrow());
+            let mut t = map_val_to_array_type(&*val.borrow());
             let len = self.last_array_type.borrow().len();
-            if len > 0 && self.last_array_type.borrow()[len - 1] != ArrayType::None &&
+            if len > 0 && self.last_array_type.borrow()[len - 1] == ArrayType::Mixed {
+              t = ArrayType::Mixed;
+            } else if len > 0 && self.last_array_type.borrow()[len - 1] != ArrayType::None &&
                self.last_array_type.borrow()[len - 1] != t {
               let tuple = Parser::get_full_key(&RefCell::new(& mut self.map), &self.last_array_tables,
                 &self.last_array_tables_index, &self.keychain
               );
-              let err_len = self.errors.borrow().len();
-              let mut mixed = false;
-              if err_len > 0 {
-                if let ParseError::MixedArray(ref key, _, _) = self.errors.borrow()[err_len - 1] {
-                  debug!("Check mixed array previous: {}, current: {}", key, tuple.1);
-                  if !tuple.1.starts_with(key) {
-                    mixed = true;
-                    debug!("Mixed array error insert: {}", tuple.1);
-                  }
-                }
-              } else {
-                mixed = true;
-                debug!("Mixed array error insert: {}", tuple.1);
-              }
-              if mixed {
-                self.errors.borrow_mut().push(ParseError::MixedArray(
-                  tuple.2, self.line_count.get(), 0
-                ));
-              }
+              debug!("Mixed array error insert: {}", tuple.2);
+              self.errors.borrow_mut().push(ParseError::MixedArray(
+                tuple.2, self.line_count.get(), 0
+              ));
+              // Report each mixed array once
+              t = ArrayType::Mixed;
             }
             self.last_array_type.borrow_mut().pop();
             self.last_array_type.borrow_mut().push(t);
-- 
2.43.0


From 8e8362253a1f80f0be7eab7f0c066a81455370b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:55 +0000
Subject: [PATCH 18/25] fix: literal strings may contain tabs

---
 src/internals/primitives.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index 18ae36c..064b145 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -362,7 +362,7 @@ impl<'a> Parser<'a> {
   named!(pub quoteless_basic_string<&'a str, &'a str>,
     re_find!(r#"^( |!|[#-\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9a-fA-F]{4})|(\\U[0-9a-fA-F]{8}))*"#));
   // Literal String
-  named!(pub quoteless_literal_string<&'a str, &'a str>, re_find!(r#"^( |[ -&]|[\(-\x{10FFFF}])*"#));
+  named!(pub quoteless_literal_string<&'a str, &'a str>, re_find!(r#"^(\t|[ -&]|[\(-\x{10FFFF}])*"#));
   // Basic String
   method!(raw_basic_string<Parser<'a>, &'a str, &'a str>, self,
     re_find!(r#"^"( |!|[#-\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9a-fA-F]{4})|(\\U[0-9a-fA-F]{8}))*?""#));
@@ -375,12 +375,12 @@ impl<'a> Parser<'a> {
     )
   );
   // Literal String
-  method!(raw_literal_string<Parser<'a>, &'a str, &'a str>, self, re_find!(r#"^'( |[ -&]|[\(-\x{10FFFF}])*?'"#));
+  method!(raw_literal_string<Parser<'a>, &'a str, &'a str>, self, re_find!(r#"^'(\t|[ -&]|[\(-\x{10FFFF}])*?'"#));
   // Multiline Literal String
   // TODO: Convert to take_while_s using a function that increments self.linecount
   method!(raw_ml_literal_string<Parser<'a>, &'a str, &'a str>, self,
     chain!(
-   string: re_find!(r#"^'''(  |[ -\x{10FFFF}]|\n|(\r\n))*?'''"#),
+   string: re_find!(r#"^'''(\t|[ -\x{10FFFF}]|\n|(\r\n))*?'''"#),
       ||{self.line_count.set(self.line_count.get() + count_lines(string)); string}
     )
   );
-- 
2.43.0


From b40d1e8274512c3416a9236efa100642a1bc4e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:10 +0000
Subject: [PATCH 19/25] fix: multi-line basic strings may contain an escaped
 tab

---
 src/internals/primitives.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index 064b145..9a4d618 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -370,7 +370,7 @@ impl<'a> Parser<'a> {
   // TODO: Convert this to take_while_s using a function that increments self.linecount
   method!(raw_ml_basic_string<Parser<'a>, &'a str, &'a str>, self,
     chain!(
-   string: re_find!(r#"^"""([ -\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9a-fA-F]{4})|(\\U[0-9a-fA-F]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*?""""#),
+   string: re_find!(r#"^"""([ -\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\t)|(\\u[0-9a-fA-F]{4})|(\\U[0-9a-fA-F]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*?""""#),
       ||{self.line_count.set(self.line_count.get() + count_lines(string)); string}
     )
   );
-- 
2.43.0


From f64014c31b60c1299d29fcede56f6b7080594dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:25 +0000
Subject: [PATCH 20/25] fix: the items of arrays and inline tables have to be
 separated by commas

---
 src/internals/objects.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index ba13b1f..b36c428 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -395,6 +395,12 @@ impl<'a> Parser<'a> {
     )
   );
 
+  // Everything but the last item of an array or inline table has to be followed by a separator
+  fn all_separated<I: Iterator<Item=bool>>(seps: I) -> Option<()> {
+    let seps: Vec<bool> = seps.collect();
+    if seps.iter().rev().skip(1).all(|sep| *sep) { Some(()) } else { None }
+  }
+
   method!(ws_newline<Parser<'a>, &'a str, &'a str>, self, re_find!("^( |\t|\n|(\r\n))*"));
 
   method!(comment_nl<Parser<'a>, &'a str, CommentNewLines>, mut self,
@@ -478,6 +484,7 @@ impl<'a> Parser<'a> {
               tag_s!("[")                   ~
          cn1: call_m!(self.comment_or_nls)  ~
   array_vals: call_m!(self.array_values)    ~
+              expr_opt!(Parser::all_separated(array_vals.iter().map(|v| v.array_sep.is_some()))) ~
          cn2: call_m!(self.comment_or_nls)  ~
               tag_s!("]")                   ,
       ||{
@@ -506,6 +513,7 @@ impl<'a> Parser<'a> {
            tag_s!("{")                                ~
       ws1: call_m!(self.ws)                                         ~
   keyvals: complete!(call_m!(self.inline_table_keyvals_non_empty))? ~
+           expr_opt!(Parser::all_separated(keyvals.iter().flat_map(|kvs| kvs.iter().map(|kv| kv.kv_sep.is_some())))) ~
       ws2: call_m!(self.ws)                                         ~
            tag_s!("}")                                ,
           ||{
-- 
2.43.0


From 92d65179cc611c5e09e68a515d38771b8b3775c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:53 +0000
Subject: [PATCH 21/25] fix: the lines within arrays and inline tables count

---
 src/internals/objects.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index b36c428..3e91491 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -1,7 +1,7 @@
 use internals::ast::structs::{TableType, WSKeySep, Table, CommentNewLines, CommentOrNewLines, ArrayValue, Array,
                               TOMLValue, InlineTable, WSSep, TableKeyVal, ArrayType, HashValue, format_tt_keys};
 use internals::parser::Parser;
-use internals::primitives::Key;
+use internals::primitives::{Key, count_lines};
 use types::{ParseError, Children};
 use std::cell::RefCell;
 use std::collections::HashMap;
@@ -416,8 +416,14 @@ impl<'a> Parser<'a> {
 
   method!(comment_or_nl<Parser<'a>, &'a str, CommentOrNewLines>, mut self,
     alt!(
-      complete!(call_m!(self.comment_nl))   => {|com| CommentOrNewLines::Comment(com)} |
-      complete!(call_m!(self.ws_newline))  => {|nl: &'a str|  CommentOrNewLines::NewLines(nl.into())}
+      complete!(call_m!(self.comment_nl))   => {|com: CommentNewLines<'a>| {
+        self.line_count.set(self.line_count.get() + count_lines(&com.pre_ws_nl) + count_lines(&com.newlines));
+        CommentOrNewLines::Comment(com)
+      }} |
+      complete!(call_m!(self.ws_newline))  => {|nl: &'a str| {
+        self.line_count.set(self.line_count.get() + count_lines(nl));
+        CommentOrNewLines::NewLines(nl.into())
+      }}
     )
   );
 
-- 
2.43.0


From 9681dea062e853a202456a8e048246aac59c94ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 22/25] fix: a newline may come before the comma in an array

---
 src/internals/objects.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index 3e91491..8299212 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -401,6 +401,19 @@ impl<'a> Parser<'a> {
     if seps.iter().rev().skip(1).all(|sep| *sep) { Some(()) } else { None }
   }
 
+  // Unlike in inline tables there can be newlines before the separator
+  method!(array_val_sep<Parser<'a>, &'a str, WSSep>, mut self,
+    chain!(
+      ws1: call_m!(self.ws_newline) ~
+           tag_s!(",")              ~
+      ws2: call_m!(self.ws)         ,
+      ||{
+        self.line_count.set(self.line_count.get() + count_lines(ws1));
+        WSSep::new_str(ws1, ws2)
+      }
+    )
+  );
+
   method!(ws_newline<Parser<'a>, &'a str, &'a str>, self, re_find!("^( |\t|\n|(\r\n))*"));
 
   method!(comment_nl<Parser<'a>, &'a str, CommentNewLines>, mut self,
@@ -433,7 +446,7 @@ impl<'a> Parser<'a> {
   method!(array_value<Parser<'a>, &'a str, ArrayValue>, mut self,
         chain!(
           val: call_m!(self.val)                        ~
-    array_sep: complete!(call_m!(self.array_sep))?      ~
+    array_sep: complete!(call_m!(self.array_val_sep))?  ~
   comment_nls: complete!(call_m!(self.comment_or_nls))  ,
           ||{
             let mut t = map_val_to_array_type(&*val.borrow());
-- 
2.43.0


From bfdaf71478259d8e0bd69ef78d6da7e299e70eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 23/25] fix: tomlkit's quiet option turns off printing Success
 and nothing else

---
 src/bin/tomlkit.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bin/tomlkit.rs b/src/bin/tomlkit.rs
index 1e62c06..c43b226 100644
--- a/src/bin/tomlkit.rs
+++ b/src/bin/tomlkit.rs
@@ -197,6 +197,9 @@ impl Options {
     if matches.has_match("strip-quotes") {
       opts.strip_quotes = true;
     }
+    if matches.has_match("quiet") {
+      opts.quiet = true;
+    }
     // Post-command options
     if matches.has_match("print-doc") {
       opts.print_doc = true;
@@ -323,9 +326,7 @@ fn process_document(file_path: &String, opts: &Options, matches: &Matches, vars:
   for i in 0..result.len() {
     match &result[i]  {
       &Ok(ref val) => {
-        if !opts.quiet {
-          print!("{}", val);
-        }
+        print!("{}", val);
       },
       &Err(ref err) => {
         print!("Error \"{}\": {}", file_path, err);
-- 
2.43.0


From 2f2691d9c572b1ff0278990b5fbffa412a0f1f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:15 +0000
Subject: [PATCH 24/25] fix: tomlkit keeps the Z of a datetime it sets

---
 src/bin/tomlkit.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/bin/tomlkit.rs b/src/bin/tomlkit.rs
index c43b226..2bbd4f6 100644
--- a/src/bin/tomlkit.rs
+++ b/src/bin/tomlkit.rs
@@ -570,7 +570,7 @@ fn set_value<'a>(kvs: &str, sep: &String, quiet: bool, doc: &mut TOMLParser) ->
           let (year, month, day);
           let (mut hour, mut minute, mut second, mut fraction) = ("".into(), "".into(), "".into(), "".into());
           let (mut off_hour, mut off_minute, mut pos_neg) = ("".into(), "".into(), PosNeg::Pos);
-          let (mut has_time, mut has_fraction, mut has_offset) = (false, false, false);
+          let (mut has_time, mut has_fraction, mut has_offset, mut is_zulu) = (false, false, false, false);
           if let Ok(dtval) = tmp_result {
             if let Value::DateTime(dt) = dtval {
               year = dt.date.year.to_string().into();
@@ -586,17 +586,22 @@ fn set_value<'a>(kvs: &str, sep: &String, quiet: bool, doc: &mut TOMLParser) ->
                   fraction = frac.to_string().into();
                 }
                 if let Some(ref offset) = time.offset {
-                  if let &TimeOffset::Time(ref amount) = offset {
-                    has_offset = true;
-                    pos_neg = amount.pos_neg;
-                    off_hour = amount.hour.to_string().into();
-                    off_minute = amount.minute.to_string().into();
+                  match offset {
+                    &TimeOffset::Time(ref amount) => {
+                      has_offset = true;
+                      pos_neg = amount.pos_neg;
+                      off_hour = amount.hour.to_string().into();
+                      off_minute = amount.minute.to_string().into();
+                    },
+                    &TimeOffset::Zulu => is_zulu = true,
                   }
                 }
               }
 
               let newoffset = if has_offset {
                 Some(TimeOffset::Time(TimeOffsetAmount{pos_neg: pos_neg, hour: off_hour, minute: off_minute}))
+              } else if is_zulu {
+                Some(TimeOffset::Zulu)
               } else {
                 None
               };
-- 
2.43.0


From 5793cc1168486b36a9bfc4de15678000dcb59df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:35 +0000
Subject: [PATCH 25/25] fix: tomlkit reports missing true and false values
 instead of panicking

---
 src/bin/tomlkit.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/bin/tomlkit.rs b/src/bin/tomlkit.rs
index 2bbd4f6..ec66631 100644
--- a/src/bin/tomlkit.rs
+++ b/src/bin/tomlkit.rs
@@ -400,19 +400,19 @@ fn has_value(csv: &str, sep: &String, true_vals: &String, false_vals: &String, k
     for i in 0..keys.len() {
       let (true_val, false_val);
       if let Ok(ref true_vals) = true_results {
-        if true_vals.len() > 1 {
-          true_val = &true_vals[i];
-        } else {
-          true_val = &true_vals[0];
+        let index = if true_vals.len() > 1 { i } else { 0 };
+        match true_vals.get(index) {
+          Some(val) => true_val = val,
+          None      => return Err(format!("Not enough true values specified: \"{}\".", true_vals.join(","))),
         }
       } else {
         return Err(format!("Invalid set of true values specified: \"{}\".", true_vals));
       };
       if let Ok(ref false_vals) = false_results {
-        if false_vals.len() > 1 {
-          false_val = &false_vals[i];
-        } else {
-          false_val = &false_vals[0];
+        let index = if false_vals.len() > 1 { i } else { 0 };
+        match false_vals.get(index) {
+          Some(val) => false_val = val,
+          None      => return Err(format!("Not enough false values specified: \"{}\".", false_vals.join(","))),
         }
       } else {
         return Err(format!("Invalid set of false values specified: \"{}\".", false_vals));
@@ -496,19 +496,19 @@ fn has_children(csv: &str, sep: &String, true_vals: &String, false_vals: &String
     for i in 0..keys.len() {
       let (true_val, false_val);
       if let Ok(ref true_vals) = true_results {
-        if true_vals.len() > 1 {
-          true_val = &true_vals[i+keycount];
-        } else {
-          true_val = &true_vals[0];
+        let index = if true_vals.len() > 1 { i + keycount } else { 0 };
+        match true_vals.get(index) {
+          Some(val) => true_val = val,
+          None      => return Err(format!("Not enough true values specified: \"{}\".", true_vals.join(","))),
         }
       } else {
         return Err(format!("Invalid set of true values specified: \"{}\".", true_vals));
       };
       if let Ok(ref false_vals) = false_results {
-        if false_vals.len() > 1 {
-          false_val = &false_vals[i+keycount];
-        } else {
-          false_val = &false_vals[0];
+        let index = if false_vals.len() > 1 { i + keycount } else { 0 };
+        match false_vals.get(index) {
+          Some(val) => false_val = val,
+          None      => return Err(format!("Not enough false values specified: \"{}\".", false_vals.join(","))),
         }
       } else {
         return Err(format!("Invalid set of false values specified: \"{}\".", false_vals));
-- 
2.43.0

