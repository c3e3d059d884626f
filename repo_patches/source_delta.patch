From 1af3e57806c408439cb89ac631023433744ca61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:56 +0000
Subject: [PATCH 01/28] fix: keep the engine usable when a caught panic unwinds
 out of user code

A panic inside a thunk, ns or structural body left its frame on the
engine's stack, left the namespace and the structural flag changed, kept
the interrupted thunk's old result although its edges were revoked, and
left trace extents open.
---
 src/engine.rs | 68 ++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 57 insertions(+), 11 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 6e4ce1f..bca3282 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -927,12 +927,43 @@ impl<Res:Hash> Hash for CompNode<Res> {
 /// re-evaluation.
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
+/// Restores the stack and the current namespace when the user's code
+/// panics, so that the engine remains usable if the panic is caught.
+struct StackGuard<'a> { g:&'a RefCell<DCG>, depth:usize, path:Rc<Path>, done:bool }
+impl<'a> Drop for StackGuard<'a> {
+    fn drop(&mut self) {
+        if self.done { return }
+        let st : &mut DCG = &mut *self.g.borrow_mut() ;
+        st.stack.truncate(self.depth) ;
+        st.path = self.path.clone() ;
+    }
+}
+
+/// Closes the trace extents left open when the user's code panics, so
+/// that a recorded trace stays balanced.
+struct TraceGuard { depth:Option<usize> }
+impl TraceGuard {
+    fn new() -> TraceGuard {
+        TraceGuard{ depth:TRACES.with(|tr| tr.borrow().as_ref().map(|ts| ts.stack.len())) }
+    }
+}
+impl Drop for TraceGuard {
+    fn drop(&mut self) {
+        if !::std::thread::panicking() { return }
+        if let Some(depth) = self.depth {
+            while TRACES.with(|tr| tr.borrow().as_ref().map_or(false, |ts| ts.stack.len() > depth)) {
+                dcg_effect_end!();
+            }
+        }
+    }
+}
+
 /// Re-evaluation: `loc_produce` performs the computation at `loc`,
 /// and produces a result of type `Res`.  Error if `loc` is not a
 /// `Node::Comp`.
 fn loc_produce<Res:'static+Debug+PartialEq+Eq+Clone+Hash>(g:&RefCell<DCG>, loc:&Rc<Loc>) -> Res
 {
-    let (producer, prev_path) = {
+    let (producer, mut guard) = {
         let st : &mut DCG = &mut *g.borrow_mut() ;
         let succs : Vec<Succ> = {
             let succs : Vec<Succ> = Vec::new();
@@ -940,20 +971,25 @@ fn loc_produce<Res:'static+Debug+PartialEq+Eq+Clone+Hash>(g:&RefCell<DCG>, loc:&
             replace(node.succs_mut(), succs)
         } ;
         revoke_succs( st, loc, &succs );
+        let guard = StackGuard{g:g, depth:st.stack.len(), path:st.path.clone(), done:false} ;
         st.stack.push ( Frame{loc:loc.clone(), succs:Vec::new(), } );
         //st.cnt.stack = if st.cnt.stack > st.stack.len() { st.cnt.stack } else { st.stack.len() } ;
-        let prev_path = st.path.clone () ;
         st.path = loc.path.clone() ;
         let producer : Box<dyn Producer<Res>> = {
             let node : &mut Node<Res> = res_node_of_loc( st, loc ) ;
             match *node {
-                Node::Comp(ref nd) => nd.producer.copy(),
+                Node::Comp(ref mut nd) => {
+                    // The old result no longer has any supporting
+                    // edges; do not reuse it if the producer panics.
+                    nd.res = None ;
+                    nd.producer.copy()
+                },
                 _ => panic!("internal error"),
             }
         } ;
         //st.cnt.eval += 1 ;
         drop(st);  // End mutable borrow of global RefCell
-        (producer, prev_path)
+        (producer, guard)
     };
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
     // Invoke producer: Run the user's code, and get a result.
@@ -964,7 +1000,8 @@ fn loc_produce<Res:'static+Debug+PartialEq+Eq+Clone+Hash>(g:&RefCell<DCG>, loc:&
     let res = producer.produce() ;
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
     let st = &mut * g.borrow_mut() ;
-    st.path = prev_path ;
+    guard.done = true ;
+    st.path = guard.path.clone() ;
     let frame = match st.stack.pop() {
         None => panic!("expected Some _: stack invariants are broken"),
         Some(frame) => frame
@@ -1509,9 +1546,13 @@ impl Adapton for DCG {
             st.flags.ignore_nominal_use_structural = true ;
             saved
         } ;
-        let x = body() ;
-        g.borrow_mut().flags.ignore_nominal_use_structural = saved;
-        x
+        // Restores the flag on return, and also if the body panics.
+        struct Restore<'a>(&'a RefCell<DCG>, bool);
+        impl<'a> Drop for Restore<'a> {
+            fn drop(&mut self) { self.0.borrow_mut().flags.ignore_nominal_use_structural = self.1 }
+        }
+        let _restore = Restore(g, saved) ;
+        body()
     }
 
     fn ns<T,F> (g: &RefCell<DCG>, nm:Name, body:F) -> T
@@ -1523,9 +1564,13 @@ impl Adapton for DCG {
             st.path = Rc::new(Path::Child(st.path.clone(), nm)) ; // Todo-Minor: Avoid this clone.
             saved
         };
-        let x = body() ;
-        g.borrow_mut().path = saved ;
-        x
+        // Restores the namespace on return, and also if the body panics.
+        struct Restore<'a>(&'a RefCell<DCG>, Rc<Path>);
+        impl<'a> Drop for Restore<'a> {
+            fn drop(&mut self) { self.0.borrow_mut().path = self.1.clone() }
+        }
+        let _restore = Restore(g, saved) ;
+        body()
     }
 
     fn put<T:Eq> (self:&mut DCG, x:T) -> AbsArt<T,Self::Loc> { AbsArt::Rc(Rc::new(x)) }
@@ -1944,6 +1989,7 @@ impl Adapton for DCG {
     fn force<T:'static+Eq+Debug+Clone+Hash> (g:&RefCell<DCG>,
                                              art:&AbsArt<T,Self::Loc>, cycle_out:Option<T>) -> T
     {
+        let _trace_guard = TraceGuard::new() ;
         {
             let st : &mut DCG = &mut *g.borrow_mut();
             wf::check_dcg(st);
-- 
2.43.0


From 5695eba821fb1863fc76343ec4a5ef3aa13d59d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 02/28] fix: record an observation of a structural thunk on its
 first force

force decided whether the thunk was pure before producing it, when it had
no edges yet, so the first force of every structural thunk recorded no
edge and the observer was never dirtied by changes below it.
---
 src/engine.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/engine.rs b/src/engine.rs
index bca3282..8b58cc5 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -2114,6 +2114,9 @@ impl Adapton for DCG {
                     }
                 } ;
                 let st : &mut DCG = &mut *g.borrow_mut() ;
+                // A thunk that has not been produced before has no
+                // edges yet; only now do we know whether it is pure.
+                let is_pure = is_pure && (!is_comp || lookup_abs(st, loc).succs().len() == 0) ;
                 if !is_dup && !is_pure { match st.stack.last_mut() { None => (), Some(frame) => {
                     let succ =
                         Succ{loc:loc.clone(),
-- 
2.43.0


From c8d95386fd7073775c5e2d0bc4f9bc85f992f15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:07 +0000
Subject: [PATCH 03/28] fix: keep apart several observations of one node by one
 thunk

A thunk may observe a cell both in full and through mapping functions.
force took a mapped observation for a full one and recorded no edge, and
dirtying and cleaning always picked the first of the parallel edges, so
that a change seen only by another one of them was missed.
---
 src/engine.rs | 72 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 45 insertions(+), 27 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 8b58cc5..13891e6 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1033,10 +1033,10 @@ fn clean_comp<Res:'static+Sized+Debug+PartialEq+Clone+Eq+Hash>
      this_dep:&ForceDep<Res>,
      loc:&Rc<Loc>, cache:Res, succs:Vec<Succ>) -> DCGRes
 {
-    for succ in succs.iter() {
+    for (succ_idx, succ) in succs.iter().enumerate() {
         let dirty = {
             let st = &mut *g.borrow_mut();
-            get_succ_mut(st, loc, succ.effect.clone(), &succ.loc).dirty
+            get_succ_at(st, loc, succ_idx, succ).dirty
         } ;
         if dirty {
             dcg_effect_begin!(reflect::trace::Effect::CleanRec, Some(loc), succ);
@@ -1053,7 +1053,7 @@ fn clean_comp<Res:'static+Sized+Debug+PartialEq+Clone+Eq+Hash>
             else {
                 let st : &mut DCG = &mut *g.borrow_mut();
                 //st.cnt.clean += 1 ;
-                get_succ_mut(st, loc, succ.effect.clone(), &succ.loc).dirty = false ;
+                get_succ_at(st, loc, succ_idx, succ).dirty = false ;
                 dcg_effect!(reflect::trace::Effect::CleanEdge, Some(loc), succ);
             }
             dcg_effect_end!();
@@ -1327,17 +1327,34 @@ fn get_succ<'r>(st:&'r DCG, src_loc:&Rc<Loc>, eff:Effect, tgt_loc:&Rc<Loc>) -> &
     panic!("tgt_loc is dangling in src_node.dem_succs")
 }
 
-// Implement "sharing" of the dirty bit.
-// The succ edge is returned as a mutable borrow, to permit checking
-// and mutating the dirty bit.
-fn get_succ_mut<'r>(st:&'r mut DCG, src_loc:&Rc<Loc>, eff:Effect, tgt_loc:&Rc<Loc>) -> &'r mut Succ {
+// The `succ_idx`th outgoing edge of `src_loc`, which should be `succ`.
+// There may be several edges with this effect and target (mapped
+// observations of it, say), each with a dirty bit of its own.
+fn get_succ_at<'r>(st:&'r mut DCG, src_loc:&Rc<Loc>, succ_idx:usize, succ:&Succ) -> &'r mut Succ {
+    match lookup_abs( st, src_loc ).succs_mut().get_mut(succ_idx) {
+        Some(s) if s.effect == succ.effect && s.loc == succ.loc => s,
+        _ => panic!("tgt_loc is dangling in src_node.dem_succs")
+    }
+}
+
+// Marks each edge from `src_loc` to `tgt_loc` with the given effect as
+// dirty.  Returns one of these edges if any of them was clean before,
+// and None otherwise.
+fn dirty_succs<'r>(st:&'r mut DCG, src_loc:&Rc<Loc>, eff:Effect, tgt_loc:&Rc<Loc>) -> Option<&'r Succ> {
     let nd = lookup_abs( st, src_loc );
-    for succ in nd.succs_mut().iter_mut() {
+    let mut first_clean : Option<usize> = None ;
+    let mut found = false ;
+    for (idx, succ) in nd.succs_mut().iter_mut().enumerate() {
         if (succ.effect == eff) && (&succ.loc == tgt_loc) {
-            return succ
-        } else {}
+            found = true ;
+            if !succ.dirty {
+                succ.dirty = true ;
+                if first_clean.is_none() { first_clean = Some(idx) }
+            }
+        }
     } ;
-    panic!("tgt_loc is dangling in src_node.dem_succs")
+    if !found { panic!("tgt_loc is dangling in src_node.dem_succs") }
+    match first_clean { None => None, Some(idx) => Some(&nd.succs()[idx]) }
 }
 
 fn dirty_pred_observers(st:&mut DCG, loc:&Rc<Loc>) {
@@ -1349,13 +1366,13 @@ fn dirty_pred_observers(st:&mut DCG, loc:&Rc<Loc>) {
         };
         let stop : bool = if stop { true } else {
             // The stop bit communicates information from st for use below.
-            let succ = get_succ_mut(st, &pred_loc, Effect::Observe, &loc) ;
-            if succ.dirty { true } else {
-                assert!(&pred_loc != loc);
-                dcg_effect_begin!(reflect::trace::Effect::Dirty, Some(&pred_loc), succ);
-                replace(&mut succ.dirty, true);
-                false
-            }}
+            match dirty_succs(st, &pred_loc, Effect::Observe, &loc) {
+                None => true,
+                Some(succ) => {
+                    assert!(&pred_loc != loc);
+                    dcg_effect_begin!(reflect::trace::Effect::Dirty, Some(&pred_loc), succ);
+                    false
+                }}}
         ;
         if !stop {
             dirty_pred_observers(st,&pred_loc);
@@ -1370,13 +1387,13 @@ fn dirty_alloc(st:&mut DCG, loc:&Rc<Loc>) {
     for pred_loc in pred_locs {
         let stop : bool = {
             // The stop bit communicates information from st for use below.
-            let succ = get_succ_mut(st, &pred_loc, Effect::Allocate, &loc) ;
-            if succ.dirty { true } else {
-                replace(&mut succ.dirty, true);
-                assert!(&pred_loc != loc);
-                dcg_effect_begin!(reflect::trace::Effect::Dirty, Some(&pred_loc), succ);
-                false
-            }} ;
+            match dirty_succs(st, &pred_loc, Effect::Allocate, &loc) {
+                None => true,
+                Some(succ) => {
+                    assert!(&pred_loc != loc);
+                    dcg_effect_begin!(reflect::trace::Effect::Dirty, Some(&pred_loc), succ);
+                    false
+                }}} ;
         if !stop {
             dirty_pred_observers(st,&pred_loc);
             dcg_effect_end!();
@@ -2010,8 +2027,9 @@ impl Adapton for DCG {
                     };
                     let is_dup : bool = match st.stack.last_mut() { None => false, Some(frame) => {
                         let mut is_dup = false;
-                        for &(ref succ, ref _pred_dep) in frame.succs.iter() {
-                            if &succ.loc == loc && succ.effect == Effect::Observe
+                        for &(ref succ, ref pred_dep) in frame.succs.iter() {
+                            // An edge for a mapped observation does not subsume this one
+                            if &succ.loc == loc && succ.effect == Effect::Observe && pred_dep.is_none()
                             { is_dup = true }
                         };
                         is_dup
-- 
2.43.0


From 42d54ecc99736f1290e1ec29da102042eb92e393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:32 +0000
Subject: [PATCH 04/28] fix: dirty the observers that force_abs records

dirty_pred_observers stopped at every force_abs edge, so a thunk that
observes a cell through force_abs kept its result when the cell changed.
---
 src/engine.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 13891e6..ffb60ac 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1177,7 +1177,9 @@ impl<Arg:'static,   // identifies a concrete mapping in the family
         Some(TypeId::of::<Self>())
     }
     fn dirty (self:&Self, _g:&mut DCG, _loc:&Rc<Loc>) -> DCGRes {
-        unimplemented!()
+        // We do not have the old value of the observation in hand (see
+        // `clean`, below), so we assume that its image has changed.
+        DCGRes{ changed: true }
     }
     fn clean (self:&Self, _g:&RefCell<DCG>, _loc:&Rc<Loc>) -> DCGRes {
         // the edge is dirty because we've already determined it
@@ -1362,7 +1364,7 @@ fn dirty_pred_observers(st:&mut DCG, loc:&Rc<Loc>) {
     for (pred_loc, dep) in pred_locs {
         let stop : bool = match dep {
             None => false,
-            Some(dep) => dep.is_absmap() != None || dep.dirty(st, loc).changed == false
+            Some(dep) => dep.dirty(st, loc).changed == false
         };
         let stop : bool = if stop { true } else {
             // The stop bit communicates information from st for use below.
-- 
2.43.0


From 5e1c32461f0e0228dea9ca55cae87893b0b30bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:47 +0000
Subject: [PATCH 05/28] fix: keep the observers of a name that changes between
 cell and thunk

Allocating a cell where there was a thunk left the thunk in place, and
allocating a thunk where there was a cell forgot the cell's predecessors
before dirtying them, so that observers kept stale results or panicked.
---
 src/engine.rs | 50 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index ffb60ac..743b94f 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1213,8 +1213,9 @@ fn check_force_map_dep
                    (&Art{art:EnumArt::Loc(loc.clone())},
                     nd.val.clone())},
 
+        // The location is no longer the cell that was observed
         Node::Comp(_) | Node::Pure(_) =>
-            unreachable!()
+            DCGRes{changed:true}
     }
 }
 
@@ -1616,7 +1617,7 @@ impl Adapton for DCG {
                     let node : &Box<Node<T>> = res_node_of_loc(self, &loc) ;
                     match **node {
                         Node::Mut(_)       => { (false, true,  None, false, false) }
-                        Node::Comp(ref nd) => { (true,  false, Some(nd.succs.clone()),  false, false ) }
+                        Node::Comp(ref nd) => { (true,  false, Some((nd.succs.clone(), nd.preds.clone())),  false, false ) }
                         Node::Pure(_)      => { (false, false, None, false, false) }
                     }} else                 { (false, false, None, true, true ) }
             ;
@@ -1655,8 +1656,18 @@ impl Adapton for DCG {
                 }
             );
             if do_set   { set_(self, AbsArt::Loc(loc.clone()), val.clone()) };
+            match succs {
+                Some((succs, preds)) => {
+                    // The computation becomes a cell, which keeps its predecessors
+                    revoke_succs(self, &loc, &succs) ;
+                    self.table.insert(loc.clone(), Box::new(Node::Mut(MutNode{
+                        preds:preds,
+                        val:val.clone(),
+                    })));
+                },
+                None => ()
+            } ;
             if do_dirty { dirty_alloc(self, &loc) } ;
-            match succs { Some(succs) => revoke_succs(self, &loc, &succs), None => () } ;
             dcg_effect_end!();
 
             if do_insert {
@@ -1771,6 +1782,7 @@ impl Adapton for DCG {
                     }
                 ;
                 let top_loc = get_top_stack_loc( self );
+                let mut preds : Vec<Pred> = Vec::new() ;
                 let (do_dirty, do_insert, is_fresh) = { match self.table.get_mut( &loc ) {
                     None => {
                         // do_dirty=false; do_insert=true
@@ -1782,8 +1794,10 @@ impl Adapton for DCG {
                         let res_nd: &mut Box<Node<Res>> = unsafe { transmute::<_,_>( node ) } ;
                         match ** res_nd {
                             Node::Pure(_)=> unreachable!(),
-                            Node::Mut(_) => {
-                                (true, true, false) // Todo: Do we need to preserve preds?
+                            Node::Mut(ref mut nd) => {
+                                // The cell becomes a computation, which keeps its predecessors
+                                preds = replace(&mut nd.preds, Vec::new()) ;
+                                (true, true, false)
                             },
                             Node::Comp(ref mut comp_nd) => {
                                 let equal_producer_prog_pts : bool =
@@ -1845,6 +1859,15 @@ impl Adapton for DCG {
                         dirty:false,
                         is_dup:false, // XXX -- Actually: Not checked here.
                     });
+                if do_insert {
+                    let node : CompNode<Res> = CompNode{
+                        preds:preds,
+                        succs:Vec::new(),
+                        producer:Box::new(producer),
+                        res:None,
+                    } ;
+                    self.table.insert(loc.clone(), Box::new(Node::Comp(node)));
+                }
                 if do_dirty {dirty_alloc(self, &loc) };
                 dcg_effect_end!();
 
@@ -1856,21 +1879,8 @@ impl Adapton for DCG {
                              dirty:false};
                     frame.succs.push((succ, None))
                 }};
-                if do_insert {
-                    let node : CompNode<Res> = CompNode{
-                        preds:Vec::new(),
-                        succs:Vec::new(),
-                        producer:Box::new(producer),
-                        res:None,
-                    } ;
-                    self.table.insert(loc.clone(), Box::new(Node::Comp(node)));
-                    wf::check_dcg(self);
-                    AbsArt::Loc(loc)
-                }
-                else {
-                    wf::check_dcg(self);
-                    AbsArt::Loc(loc)
-                }
+                wf::check_dcg(self);
+                AbsArt::Loc(loc)
             }
         }
     }
-- 
2.43.0


From 441752101c0cce0d5361b7d1e53c03473a893b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 06/28] fix: allow eager and naive thunks in the DCG engine

thunk borrowed the engine while running an eager thunk's code, so code
that uses the engine panicked, and then insisted on a location. Naive
thunks were not implemented, although thunk_map creates them.
---
 src/engine.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 743b94f..1961ea4 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -2512,8 +2512,18 @@ pub fn thunk<Arg:Hash+Eq+Debug+Clone+'static,Spurious:Clone+'static,Res:Hash+Eq+
 {
     GLOBALS.with(|g| {
         match g.borrow().engine {
-            Engine::DCG(ref dcg) => {
-                Art{art:EnumArt::Loc({
+            Engine::DCG(ref dcg) => match id {
+                // Neither of these has a node in the DCG.  The eager one runs
+                // the user's code here, and this code generally calls back
+                // into the engine, so we do not borrow the DCG.
+                NameChoice::Eager => Art{art:EnumArt::Rc(Rc::new(fn_box(arg, spurious)))},
+                NameChoice::Naive =>
+                    Art{art:EnumArt::Force(
+                        Rc::new(NaiveThunk{
+                            id:id,prog_pt:prog_pt,
+                            fn_box:fn_box,arg:arg,
+                            spurious:spurious} ))},
+                id => Art{art:EnumArt::Loc({
                     if let AbsArt::Loc(loc) =
                         (dcg.borrow_mut()).thunk(id, prog_pt, fn_box, arg, spurious)
                     { loc } else { unreachable!() }})}
-- 
2.43.0


From 663fd25444e278b2277a149d8d15b88d3d851afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:53 +0000
Subject: [PATCH 07/28] fix: tell mapped thunks apart

All results of thunk_map with one result type compared and hashed as
equal, whatever they map and whichever function they apply, so that
replacing one by another counted as no change.
---
 src/engine.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index 1961ea4..ff23bf3 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -2537,9 +2537,22 @@ pub fn thunk<Arg:Hash+Eq+Debug+Clone+'static,Spurious:Clone+'static,Res:Hash+Eq+
     })
 }
 
+/// Identifies a mapped thunk: by the thunk that is mapped, and by the
+/// (shared) mapping function.  Its type is the same for all mapped
+/// thunks, since they share a program point.
+#[derive(Clone,PartialEq,Eq,Hash)]
+struct ThunkMapId { res1:TypeId, thunk:u64, map_fn:usize }
+impl Debug for ThunkMapId {
+    fn fmt(&self, f:&mut Formatter) -> fmt::Result { write!(f, "()") }
+}
+
 /// Map a given `thunk` by a mapping function `map_fn`, yielding a new
 /// thunk.
 ///
+/// Two mapped thunks are equal when they map equal thunks with (clones
+/// of) the same `Rc` mapping function.
+///
+///
 /// Under the hood, this operation is "cheap" (but sound), in that it
 /// uses a "naive", native Rust thunk that does not cache its output,
 /// or represent itself in the trace.
@@ -2547,6 +2560,11 @@ pub fn thunk_map<Res1:Hash+Eq+Debug+Clone+'static,
                  Res2:Hash+Eq+Debug+Clone+'static>
     (thunk:Art<Res1>, map_fn:Rc<dyn Fn(Res1) -> Res2>) -> Art<Res2>
 {
+    let id = ThunkMapId{
+        res1:TypeId::of::<Res1>(),
+        thunk:my_hash(&thunk),
+        map_fn:&*map_fn as *const dyn Fn(Res1) -> Res2 as *const () as usize,
+    };
     Art{art:EnumArt::Force(
         Rc::new(NaiveThunk{
             id:NameChoice::Naive,
@@ -2556,7 +2574,7 @@ pub fn thunk_map<Res1:Hash+Eq+Debug+Clone+'static,
                 let res2 = map_fn(res1);
                 res2
             }))},
-            arg:(),
+            arg:id,
             spurious:()
         }))
     }
-- 
2.43.0


From ddbd6e76e4e3eeaeea0502df8104a49f178a54dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:21 +0000
Subject: [PATCH 08/28] fix: reflect articulations with structural ids and with
 isize names

dcg_reflect_now and dcg_reflect_end parse values' Debug output, and
panicked on a value that holds an articulation identified by a hash, or
by a name built from an isize.
---
 src/parse_val.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/parse_val.rs b/src/parse_val.rs
index 9b0b7a5..4bedac1 100644
--- a/src/parse_val.rs
+++ b/src/parse_val.rs
@@ -258,7 +258,11 @@ fn name_of_val ( n:&Val ) -> Name {
                 })
             }
             else if *cons_name == name_of_str("Isize") {
-                panic!("")
+                name_of_isize( match cons_args[0] {
+                    Val::Const( Const::Nat( ref n ) ) => n.clone() as isize,
+                    Val::Const( Const::Num( ref n ) ) => n.clone(),
+                    _ => panic!("expected a Num or a Nat"),
+                })
             }
             else if *cons_name == name_of_str("Pair") {
                 let n1 = name_of_val( & cons_args[0] );
@@ -278,6 +282,8 @@ fn name_of_val ( n:&Val ) -> Name {
             }        
         },
         Val::Name(ref n) => n.clone(),
+        // The id of an articulation with a structural identity
+        Val::Const( Const::Nat(ref h) ) => name_of_hash64( *h as u64 ),
         _ => panic!("expected a constructor for a NameSym")
     }
 }
@@ -309,7 +315,12 @@ fn name_option_of_val ( n:&Val ) -> Option<Name> {
                     }}
             }
             else if *cons_name == name_of_str("Isize") {
-                panic!("TODO")
+                if cons_args.len() < 1 { None } else {
+                    match cons_args[0] {
+                        Val::Const( Const::Nat( ref n ) ) => Some( name_of_isize( n.clone() as isize ) ),
+                        Val::Const( Const::Num( ref n ) ) => Some( name_of_isize( n.clone() ) ),
+                        _ => None,
+                    }}
             }
             else if *cons_name == name_of_str("Pair") {          
                 if cons_args.len() < 2 { None } else {
-- 
2.43.0


From 74268f4621b76ea8647747dbd690686bb3e69ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:08 +0000
Subject: [PATCH 09/28] fix: hash names of different kinds differently

The names of 5usize and 5isize, among others, had the same hash. They are
not equal, but structural identity compares only hashes, so thunks and
cells built from one were taken for those built from the other.
---
 src/engine.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index ff23bf3..08296cd 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -2347,29 +2347,29 @@ pub fn name_of_hash64(h:u64) -> Name {
 
 /// Create a name from a `usize`
 pub fn name_of_usize (u:usize) -> Name {
-    let h = my_hash(&u) ;
     let s = NameSym::Usize(u) ;
+    let h = my_hash(&s) ; // The symbol tells this from the name of an `isize`
     Name{ hash:h, symbol:Rc::new(s) }
 }
 
 /// Create a name from a `isize`
 pub fn name_of_isize (i:isize) -> Name {
-    let h = my_hash(&i) ;
     let s = NameSym::Isize(i) ;
+    let h = my_hash(&s) ;
     Name{ hash:h, symbol:Rc::new(s) }
 }
 
 /// Create a name from a `string`
 pub fn name_of_string (s:String) -> Name {
-    let h = my_hash(&s);
     let s = NameSym::String(s) ;
+    let h = my_hash(&s) ;
     Name{ hash:h, symbol:Rc::new(s) }
 }
 
 /// Create a name from a `str`
 pub fn name_of_str (s:&'static str) -> Name {
-    let h = my_hash(&s);
     let s = NameSym::String(s.to_string()) ;
+    let h = my_hash(&s) ;
     Name{ hash:h, symbol:Rc::new(s) }
 }
 
-- 
2.43.0


From 4e4f39b1bad46d153343a4ec9b5dcd5060b05184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:13 +0000
Subject: [PATCH 10/28] fix: include types in structural identities

Equal hashes do not mean equal types: true, 1u8 and ((),1u8) all hash
alike. Structural cells of different types panicked, and structural thunks
of a generic function returned the result for another argument type.
---
 src/engine.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 08296cd..609f57f 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1605,7 +1605,7 @@ impl Adapton for DCG {
                 if ! self.flags.ignore_nominal_use_structural {
                     (Rc::new(ArtId::Nominal(nm)), false) // Ordinary case: Use provided name.
                 } else {
-                    let hash = my_hash (&val) ;
+                    let hash = my_hash (&(TypeId::of::<T>(), &val)) ;
                     (Rc::new(ArtId::Structural(hash)), self.flags.use_purity_optimization) // Ignore the name; do hash-consing instead.
                 }
             };
@@ -1730,7 +1730,7 @@ impl Adapton for DCG {
             // Name the computation structurally, based on the args and prog point.
             NameChoice::Structural => {
                 wf::check_dcg(self);
-                let hash = my_hash (&(&prog_pt, &arg)) ;
+                let hash = my_hash (&(TypeId::of::<(Arg,Res)>(), &prog_pt, &arg)) ;
                 let loc = loc_of_id(current_path(self),
                                     Rc::new(ArtId::Structural(hash)));
                 {   // If the node exists, return early.
-- 
2.43.0


From 055f71b48698e0c14b2061b1a7d9bb028298a97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:26 +0000
Subject: [PATCH 11/28] fix: check the types of thunks before comparing their
 arguments

A name used for a thunk of the same function text, but with another type
of argument, was transmuted to the wrong type, as were naive thunks being
compared; the program point does not determine these types.
---
 src/engine.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 609f57f..004af3e 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -709,6 +709,8 @@ trait Producer<Res> : Debug {
     fn copy(self:&Self) -> Box<dyn Producer<Res>>;
     fn eq(self:&Self, other:&dyn Producer<Res>) -> bool;
     fn prog_pt<'r>(self:&'r Self) -> &'r ProgPt;
+    // Identifies the concrete type of the producer, which program points do not
+    fn app_typeid(self:&Self) -> TypeId;
 }
 // Consume a value of type Arg.
 trait Consumer<Arg> : Debug {
@@ -760,11 +762,13 @@ impl<Arg:'static+PartialEq+Eq+Clone+Debug,Spurious:'static+Clone,Res:'static+Deb
     fn prog_pt<'r>(self:&'r Self) -> &'r ProgPt {
         & self.prog_pt
     }
+    fn app_typeid(self:&Self) -> TypeId {
+        TypeId::of::<Self>()
+    }
     fn eq (&self, other:&dyn Producer<Res>) -> bool {
-        if &self.prog_pt == other.prog_pt() {
+        if &self.prog_pt == other.prog_pt() && TypeId::of::<Self>() == other.app_typeid() {
             let other = Box::new(other) ;
-            // This is safe if the prog_pt implies unique Arg and Res types.
-            // TODO-Soon: Program points should store argument + result types; we should check these dynamically here
+            // This is safe since the types are the same.
             let other : &Box<App<Arg,Spurious,Res>> = unsafe { transmute::<_,_>( other ) } ;
             self.arg == other.arg
         } else {
@@ -1801,10 +1805,10 @@ impl Adapton for DCG {
                             },
                             Node::Comp(ref mut comp_nd) => {
                                 let equal_producer_prog_pts : bool =
-                                    comp_nd.producer.prog_pt().eq( producer.prog_pt() ) ;
+                                    comp_nd.producer.prog_pt().eq( producer.prog_pt() )
+                                    && comp_nd.producer.app_typeid() == producer.app_typeid() ;
                                 if equal_producer_prog_pts { // => safe cast to Box<Consumer<Arg>>
                                     let app: &mut Box<App<Arg,Spurious,Res>> =
-                                    // TODO-Soon: Follow pattern above for assert_graphnode_res_type to dynamically check the safety of this cast
                                         unsafe { transmute::<_,_>( &mut comp_nd.producer ) }
                                     ;
                                     if app.get_arg() == arg {
@@ -2241,6 +2245,7 @@ trait Force<T> {
     fn id<'r>(self:&'r Self) -> &'r NameChoice;
     fn prog_pt<'r>(self:&'r Self) -> &'r ProgPt;
     fn hash_u64(self:&Self) -> u64;
+    fn thunk_typeid(self:&Self) -> TypeId;
     fn fmt(&self, f:&mut Formatter) -> fmt::Result;
 }
 
@@ -2273,6 +2278,9 @@ impl<A:Hash+Clone+Eq+Debug+'static,S:Clone+'static,T:'static>
     fn id<'r>(self:&'r Self) -> &'r NameChoice {
         & self.id
     }
+    fn thunk_typeid(&self) -> TypeId {
+        TypeId::of::<Self>()
+    }
     fn hash_u64(&self) -> u64 {
         let mut hasher = DefaultHasher::new();
         self.id.hash( &mut hasher );
@@ -2283,10 +2291,10 @@ impl<A:Hash+Clone+Eq+Debug+'static,S:Clone+'static,T:'static>
     fn eq (&self, other:&dyn Force<T>) -> bool {
         if   &self.id      == other.id()
             && &self.prog_pt == other.prog_pt()
+            && TypeId::of::<Self>() == other.thunk_typeid()
         {
             let other = Box::new(other) ;
-            // This is safe if the prog_pt implies unique Arg and Res types.
-            // TODO-Soon: Program points should store argument + result types; we should check these dynamically here
+            // This is safe since the types are the same.
             let other : &Box<NaiveThunk<A,S,T>> = unsafe { transmute::<_,_>( other ) } ;
             self.arg == other.arg
         } else {
-- 
2.43.0


From 2e5ad6985da9d5cf2f250d0075ff751997a6bd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:48 +0000
Subject: [PATCH 12/28] fix: thunk![[name] body] takes its program point from
 the body

It used an unbound macro variable, so that every such thunk had the
program point "$fun", and one body was taken for another.
---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index 8fda541..83c0d92 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -413,7 +413,7 @@ macro_rules! thunk {
   [ [ $name:ident ] $body:expr ] => {{
       thunk(
           NameChoice::Nominal(name_of_str(stringify!($name))),
-          prog_pt!(stringify!($fun)),
+          prog_pt!(stringify!($body)),
           Rc::new(Box::new( move |(),()| { $body } )),
           () ,
           () )
-- 
2.43.0


From 0c2eb15b005055d5fafa797c5bf411546e791e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:12 +0000
Subject: [PATCH 13/28] fix: list_gen generates a list

Its loop ran over the empty range len-1..0, so it returned the empty list.
---
 src/catalog/collections.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catalog/collections.rs b/src/catalog/collections.rs
index d0eef85..4760e80 100644
--- a/src/catalog/collections.rs
+++ b/src/catalog/collections.rs
@@ -63,7 +63,7 @@ pub fn list_gen<X:'static,G,L:ListIntro<X>>
   (len:usize, gen_elm:G) -> L
   where G:Fn(usize) -> X {
     let mut out : L = L::nil();
-    for i in len-1..0 {
+    for i in (0..len).rev() {
       let x = gen_elm(i);
       let nm = name_of_usize(i);
       out = L::art(cell(nm.clone(), out));
-- 
2.43.0


From 60b7ce8ea56579c956c5a06e118f07710dc4eae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:41 +0000
Subject: [PATCH 14/28] fix: do not record a thunk's observation of itself

A thunk that forces itself, with force_cycle, recorded an edge to itself,
and the first change to anything it depends on panicked in dirtying.
---
 src/engine.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index 004af3e..ec0cc44 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -2151,7 +2151,10 @@ impl Adapton for DCG {
                 // A thunk that has not been produced before has no
                 // edges yet; only now do we know whether it is pure.
                 let is_pure = is_pure && (!is_comp || lookup_abs(st, loc).succs().len() == 0) ;
-                if !is_dup && !is_pure { match st.stack.last_mut() { None => (), Some(frame) => {
+                // A thunk that forces itself observes `cycle_out`, which does not
+                // change, and an edge to itself could be neither dirtied nor cleaned.
+                let is_self = st.stack.last().map_or(false, |frame| &frame.loc == loc) ;
+                if !is_dup && !is_pure && !is_self { match st.stack.last_mut() { None => (), Some(frame) => {
                     let succ =
                         Succ{loc:loc.clone(),
                              dep:Rc::new(Box::new(ForceDep{res:result.clone()})),
-- 
2.43.0


From 2602ca28572ebb350e2025195760af7de1af10cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:58 +0000
Subject: [PATCH 15/28] fix: detect cycles that are met while cleaning

A cycle of two or more thunks was only detected through the stack, which
cleaning does not push to; after a change of an input of such a cycle,
cleaning it recurred without bound.
---
 src/engine.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index ec0cc44..7c16315 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -390,6 +390,7 @@ pub struct DCG {
     pub flags : Flags, // public because I dont want to write / design abstract accessors
     table : HashMap<Rc<Loc>, Box<dyn GraphNode>>,
     stack : Vec<Frame>,
+    cleaning : Vec<Rc<Loc>>, // nodes being cleaned; like those on the stack, their results are pending
     path  : Rc<Path>,
     //cnt   : Cnt,
     dcg_count : usize,
@@ -943,6 +944,17 @@ impl<'a> Drop for StackGuard<'a> {
     }
 }
 
+/// Pops a node from the cleaning stack, also when the user's code panics.
+struct CleaningGuard<'a> { g:&'a RefCell<DCG>, depth:usize }
+impl<'a> Drop for CleaningGuard<'a> {
+    fn drop(&mut self) { self.g.borrow_mut().cleaning.truncate(self.depth) }
+}
+
+/// True if the result of `loc` is pending, so that forcing it now forms a cycle.
+fn is_pending(st:&DCG, loc:&Rc<Loc>) -> bool {
+    st.stack.iter().any(|frame| &frame.loc == loc) || st.cleaning.contains(loc)
+}
+
 /// Closes the trace extents left open when the user's code panics, so
 /// that a recorded trace stays balanced.
 struct TraceGuard { depth:Option<usize> }
@@ -1037,6 +1049,11 @@ fn clean_comp<Res:'static+Sized+Debug+PartialEq+Clone+Eq+Hash>
      this_dep:&ForceDep<Res>,
      loc:&Rc<Loc>, cache:Res, succs:Vec<Succ>) -> DCGRes
 {
+    let _guard = {
+        let st = &mut *g.borrow_mut();
+        st.cleaning.push(loc.clone());
+        CleaningGuard{g:g, depth:st.cleaning.len() - 1}
+    } ;
     for (succ_idx, succ) in succs.iter().enumerate() {
         let dirty = {
             let st = &mut *g.borrow_mut();
@@ -1264,6 +1281,8 @@ impl <Res:'static+Sized+Debug+PartialEq+Eq+Clone+Hash>
     fn clean(self:&Self, g:&RefCell<DCG>, loc:&Rc<Loc>) -> DCGRes {
         let res_succs = { // Handle cases where there is no internal computation to re-compute:
             let st = &mut *g.borrow_mut();
+            // The observer is now in a cycle, and should observe it again
+            if is_pending(st, loc) { return DCGRes{changed:true} }
             let node : &mut Node<Res> = res_node_of_loc(st, loc) ;
             match *node {
                 Node::Comp(ref nd) => {
@@ -1555,6 +1574,7 @@ impl Adapton for DCG {
             },
             table : table,
             stack : stack,
+            cleaning : Vec::new(),
             path  : path,
             dcg_count : 0,
             dcg_hash : 0, // XXX This makes assumptions about hashing implementation
@@ -2034,13 +2054,7 @@ impl Adapton for DCG {
                 let (is_comp, is_dup, is_pure, is_cycle, cached_result) : (bool, bool, bool, bool, Option<T>) = {
                     let st : &mut DCG = &mut *g.borrow_mut();
                     let is_pure_opt : bool = st.flags.use_purity_optimization ;
-                    let is_cycle = { let mut is_cycle = false;
-                                     for frame in st.stack.iter() {
-                                         if &frame.loc == loc {
-                                             is_cycle = true ; break
-                                         } else {  } }
-                                     is_cycle
-                    };
+                    let is_cycle = is_pending(st, loc);
                     let is_dup : bool = match st.stack.last_mut() { None => false, Some(frame) => {
                         let mut is_dup = false;
                         for &(ref succ, ref pred_dep) in frame.succs.iter() {
-- 
2.43.0


From 6b01b81b25a6fdf720987c898acd674edd3ed0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:21 +0000
Subject: [PATCH 16/28] fix: ListElim::is_name answers for names, not for
 elements

The default method returned true for a cons and false for a name, so
filter_list_of_tree dropped the name before a kept element and kept several
names in a row.
---
 src/catalog/collections.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/catalog/collections.rs b/src/catalog/collections.rs
index 4760e80..71dad06 100644
--- a/src/catalog/collections.rs
+++ b/src/catalog/collections.rs
@@ -110,8 +110,8 @@ pub trait ListElim<X> : Debug+Clone+Hash+PartialEq+Eq {
   fn is_name (list:&Self) -> bool {
     Self::elim(list,
                |_|   false,
-               |_,_| true,
-               |_,_| false)
+               |_,_| false,
+               |_,_| true)
   }
 }
 
-- 
2.43.0


From c4e31879e58d9d90c6161dd0cd60beb63402f702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:51 +0000
Subject: [PATCH 17/28] fix: mergesort_list_of_tree2 uses each name once

tree_fold_up_nm_dn passes a name both to the name case and to the next leaf;
using it in both made two merges allocate under one name, and the sorted list
could loop back into itself.
---
 src/catalog/collections.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/catalog/collections.rs b/src/catalog/collections.rs
index 71dad06..f660ffd 100644
--- a/src/catalog/collections.rs
+++ b/src/catalog/collections.rs
@@ -998,9 +998,10 @@ pub fn mergesort_list_of_tree2
   tree_fold_up_nm_dn
     (tree, nm,
      Rc::new(|_,|         L::nil()),
-     Rc::new(|m,x|        list_name_op(m, L::singleton(x))),
+     // Each name reaches both a `leaf` and a `name`: use one half of it in each
+     Rc::new(|m:Option<Name>,x| list_name_op(m.map(|m| name_fork(m).0), L::singleton(x))),
      Rc::new(|_,    _, l, r| { list_merge_wrapper(None, l, None, r) }),
-     Rc::new(|_, n, _, l, r| { list_merge_wrapper(None, l, Some(n), r) }),
+     Rc::new(|_, n, _, l, r| { list_merge_wrapper(None, l, Some(name_fork(n).1), r) }),
      )
 }
 
-- 
2.43.0


From 4b3b7ee8b1fc76b40f3a9d81ed17ec98e5fd8876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:55 +0000
Subject: [PATCH 18/28] fix: prune_tree_of_tree keeps its articulations apart
 from its memo thunks

Both were named by the two forks of a node's name in the same namespace, so
allocating one replaced the other, and elements disappeared after edits.
filter_tree_of_tree already separates them like this.
---
 src/catalog/collections.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/catalog/collections.rs b/src/catalog/collections.rs
index f660ffd..1f967bb 100644
--- a/src/catalog/collections.rs
+++ b/src/catalog/collections.rs
@@ -843,8 +843,9 @@ pub fn prune_tree_of_tree
     (tree,
      Rc::new(||          Ti::nil()),
      Rc::new(|x|         Ti::leaf(x)),
-     Rc::new(|lev,l,r|   bin_arts_niltest(None, lev, l, r)),
-     Rc::new(|n,lev,l,r| bin_arts_niltest(Some(n), lev, l, r))
+     // Separate the articulations' names from those of the fold
+     Rc::new(|lev,l,r|   ns(name_unit(),|| bin_arts_niltest(None, lev, l, r))),
+     Rc::new(|n,lev,l,r| ns(name_unit(),|| bin_arts_niltest(Some(n), lev, l, r)))
      )
 }
 
-- 
2.43.0


From 135b7ccf8e52e35e07bedd63a979e57a5e013a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:19 +0000
Subject: [PATCH 19/28] fix: vec_of_list with a limit of zero takes nothing

The limit was compared only after an entry was taken, so a limit of zero
never matched and the whole list was returned.
---
 src/catalog/collections.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catalog/collections.rs b/src/catalog/collections.rs
index 1f967bb..93264ed 100644
--- a/src/catalog/collections.rs
+++ b/src/catalog/collections.rs
@@ -864,6 +864,7 @@ pub fn vec_of_list<X:Clone,L:ListElim<X>+'static>
   let mut out = vec![];
   let mut list = list ;
   loop {
+    match limit { Some(limit) if out.len() == limit => return out, _ => () } ;
     let (hd, rest) =
       L::elim_arg(
         list, (),
@@ -872,7 +873,6 @@ pub fn vec_of_list<X:Clone,L:ListElim<X>+'static>
         |n, rest, _| { (Some(NameElse::Name(n.clone())), Some(rest)) }
         ) ;
     match hd { Some(x) => out.push(x), _ => () } ;
-    match limit { Some(limit) if out.len() == limit => return out, _ => () } ;
     match rest { Some(rest) => { list = rest; continue }, None => return out }
   }
 }
-- 
2.43.0


From 4b11d1a5ebb1cb25c08335c4f51178a22f3e8f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:18 +0000
Subject: [PATCH 20/28] fix: reflect strings with escapes and non-ASCII
 characters

---
 src/parse_val.rs | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/parse_val.rs b/src/parse_val.rs
index 4bedac1..2105175 100644
--- a/src/parse_val.rs
+++ b/src/parse_val.rs
@@ -83,21 +83,36 @@ fn lex (mut chars: Vec<u8>) -> Vec<Tok> {
                 else if c == ']' { toks.push(Tok::Right(BalTok::Bracket)); continue }
                 else if c == ')' { toks.push(Tok::Right(BalTok::Paren));   continue }
                 else if c == '"' {
-                    let mut string_chars = vec![];
+                    // Undo the escapes of `str`'s `Debug` output
+                    let mut string_bytes : Vec<u8> = vec![];
                     loop {
                         match chars.pop() {
-                            None => break,
-                            Some(c) => {
-                                let c : char = c as char ;
-                                if c == '"' { break } else { 
-                                    string_chars.push(c);
-                                    continue 
+                            None | Some(b'"') => break,
+                            Some(b'\\') => match chars.pop() {
+                                None => break,
+                                Some(b'n') => string_bytes.push(b'\n'),
+                                Some(b'r') => string_bytes.push(b'\r'),
+                                Some(b't') => string_bytes.push(b'\t'),
+                                Some(b'0') => string_bytes.push(b'\0'),
+                                Some(b'u') => {
+                                    let mut hex = String::new();
+                                    loop {
+                                        match chars.pop() {
+                                            None | Some(b'}') => break,
+                                            Some(b'{') => continue,
+                                            Some(c) => hex.push(c as char),
+                                        }
+                                    };
+                                    let c = u32::from_str_radix(&hex, 16).ok().and_then(::std::char::from_u32);
+                                    string_bytes.extend(c.unwrap_or('?').to_string().into_bytes())
                                 }
-                            }
+                                Some(c) => string_bytes.push(c),
+                            },
+                            Some(c) => string_bytes.push(c),
                         }
                     };
                     toks.push(Tok::Const(Const::String( 
-                        string_chars.into_iter().collect() 
+                        String::from_utf8_lossy(&string_bytes).into_owned()
                     )));
                     continue
                 }
-- 
2.43.0


From d0000a99095bc34827500707f1961ebb8ed872a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:44 +0000
Subject: [PATCH 21/28] fix: give the unit name a hash of its own

It had the hash 0, the same as name_of_hash64(0), and structural identity
compares only hashes, so cells and thunks of the two were confused.
---
 src/engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index 7c16315..c5b2c25 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -29,7 +29,7 @@ use crate::macros::{ProgPt};
 use crate::reflect;
 
 thread_local!(static GLOBALS: RefCell<Globals> = RefCell::new(Globals{engine:Engine::Naive}));
-thread_local!(static UNIT_NAME: Name = Name{ hash:0, symbol: Rc::new(NameSym::Unit) });
+thread_local!(static UNIT_NAME: Name = { let s = NameSym::Unit; Name{ hash:my_hash(&s), symbol: Rc::new(s) } });
 
 struct TraceSt { stack:Vec<Box<Vec<reflect::trace::Trace>>>, }
 
-- 
2.43.0


From 99a42b7afedcad214781fe1b9eaeb06fee4a9583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:14 +0000
Subject: [PATCH 22/28] fix: trace_count counts the effects inside debugging
 extents

The arm for Debug had merged with the one for Dirty, so the effects
nested in a debugging extent were reported as unexpected and not counted.
---
 src/reflect.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/reflect.rs b/src/reflect.rs
index b7dc2b9..87494d7 100644
--- a/src/reflect.rs
+++ b/src/reflect.rs
@@ -545,12 +545,11 @@ archivist:
         match role {
             Role::Editor =>
                 match tr.effect {
-                    Effect::Debug(_,_) |
-                    // Effect::UserEffect(_,_) => {
-                    //     for sub_tr in tr.extent.iter() { 
-                    //         trace_count_rec(Role::Editor, sub_tr, c);
-                    //     }                        
-                    // },
+                    Effect::Debug(_,_) => {
+                        for sub_tr in tr.extent.iter() {
+                            trace_count_rec(Role::Editor, sub_tr, c);
+                        }
+                    },
                     Effect::Dirty => trace_count_dirty(role, tr, c),
                     Effect::Remove => unreachable!(),
                     Effect::CleanEdge => unreachable!(),
@@ -579,12 +578,11 @@ archivist:
                 },
             Role::Archivist =>
                 match tr.effect {
-                    Effect::Debug(_,_) |
-                    // Effect::UserEffect(_,_) => {
-                    //     for sub_tr in tr.extent.iter() { 
-                    //         trace_count_rec(Role::Archivist, sub_tr, c);
-                    //     }                        
-                    // },
+                    Effect::Debug(_,_) => {
+                        for sub_tr in tr.extent.iter() {
+                            trace_count_rec(Role::Archivist, sub_tr, c);
+                        }
+                    },
                     Effect::Dirty => trace_count_dirty(role, tr, c),
                     Effect::Remove => assert!(tr.extent.len() == 0),
                     Effect::CleanEdge => assert!(tr.extent.len() == 0),
-- 
2.43.0


From fda130dc2826ce76dd08541836800f4261daadca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:40 +0000
Subject: [PATCH 23/28] fix: reflect character literals

The lexer of Debug strings skipped the quotes of a character literal and
read its character as syntax, so that reflecting a node whose value is
'(' or ' ' panicked.
---
 src/parse_val.rs | 69 ++++++++++++++++++++++++++----------------------
 1 file changed, 37 insertions(+), 32 deletions(-)

diff --git a/src/parse_val.rs b/src/parse_val.rs
index 2105175..8bd527e 100644
--- a/src/parse_val.rs
+++ b/src/parse_val.rs
@@ -64,6 +64,40 @@ pub fn parse_val <V:Debug> (v:&V) -> Val {
     parse_toks(toks)
 }
 
+/// Consume the (reversed) characters of a literal up to its closing
+/// `quote`, undoing the escapes of the `Debug` output of `str` and `char`.
+fn lex_quoted (chars: &mut Vec<u8>, quote: u8) -> String {
+    let mut bytes : Vec<u8> = vec![];
+    loop {
+        match chars.pop() {
+            None => break,
+            Some(c) if c == quote => break,
+            Some(b'\\') => match chars.pop() {
+                None => break,
+                Some(b'n') => bytes.push(b'\n'),
+                Some(b'r') => bytes.push(b'\r'),
+                Some(b't') => bytes.push(b'\t'),
+                Some(b'0') => bytes.push(b'\0'),
+                Some(b'u') => {
+                    let mut hex = String::new();
+                    loop {
+                        match chars.pop() {
+                            None | Some(b'}') => break,
+                            Some(b'{') => continue,
+                            Some(c) => hex.push(c as char),
+                        }
+                    };
+                    let c = u32::from_str_radix(&hex, 16).ok().and_then(::std::char::from_u32);
+                    bytes.extend(c.unwrap_or('?').to_string().into_bytes())
+                }
+                Some(c) => bytes.push(c),
+            },
+            Some(c) => bytes.push(c),
+        }
+    };
+    String::from_utf8_lossy(&bytes).into_owned()
+}
+
 /// Tokenize the characters of input into lexical tokens of type `Tok`
 fn lex (mut chars: Vec<u8>) -> Vec<Tok> {
     let mut toks = vec![];
@@ -82,38 +116,9 @@ fn lex (mut chars: Vec<u8>) -> Vec<Tok> {
                 else if c == '}' { toks.push(Tok::Right(BalTok::Brace));   continue }
                 else if c == ']' { toks.push(Tok::Right(BalTok::Bracket)); continue }
                 else if c == ')' { toks.push(Tok::Right(BalTok::Paren));   continue }
-                else if c == '"' {
-                    // Undo the escapes of `str`'s `Debug` output
-                    let mut string_bytes : Vec<u8> = vec![];
-                    loop {
-                        match chars.pop() {
-                            None | Some(b'"') => break,
-                            Some(b'\\') => match chars.pop() {
-                                None => break,
-                                Some(b'n') => string_bytes.push(b'\n'),
-                                Some(b'r') => string_bytes.push(b'\r'),
-                                Some(b't') => string_bytes.push(b'\t'),
-                                Some(b'0') => string_bytes.push(b'\0'),
-                                Some(b'u') => {
-                                    let mut hex = String::new();
-                                    loop {
-                                        match chars.pop() {
-                                            None | Some(b'}') => break,
-                                            Some(b'{') => continue,
-                                            Some(c) => hex.push(c as char),
-                                        }
-                                    };
-                                    let c = u32::from_str_radix(&hex, 16).ok().and_then(::std::char::from_u32);
-                                    string_bytes.extend(c.unwrap_or('?').to_string().into_bytes())
-                                }
-                                Some(c) => string_bytes.push(c),
-                            },
-                            Some(c) => string_bytes.push(c),
-                        }
-                    };
-                    toks.push(Tok::Const(Const::String( 
-                        String::from_utf8_lossy(&string_bytes).into_owned()
-                    )));
+                else if c == '"' || c == '\'' {
+                    // A string literal, or a character literal
+                    toks.push(Tok::Const(Const::String(lex_quoted(&mut chars, c as u8))));
                     continue
                 }
                 else if c == '-' || (c >= '0' && c <= '9') {
-- 
2.43.0


From 95e5eba99aec3bc35e495697eaa6895428672dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:50 +0000
Subject: [PATCH 24/28] fix: copy the user's argument and result before
 changing the graph, so that a panic in their clone leaves it consistent

---
 src/engine.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index c5b2c25..73bb224 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -981,6 +981,15 @@ fn loc_produce<Res:'static+Debug+PartialEq+Eq+Clone+Hash>(g:&RefCell<DCG>, loc:&
 {
     let (producer, mut guard) = {
         let st : &mut DCG = &mut *g.borrow_mut() ;
+        // Copies the user's argument, whose `clone` may panic; nothing
+        // has changed yet, and no guard needs `g` in order to clean up.
+        let producer : Box<dyn Producer<Res>> = {
+            let node : &mut Node<Res> = res_node_of_loc( st, loc ) ;
+            match *node {
+                Node::Comp(ref nd) => nd.producer.copy(),
+                _ => panic!("internal error"),
+            }
+        } ;
         let succs : Vec<Succ> = {
             let succs : Vec<Succ> = Vec::new();
             let node : &mut Node<Res> = res_node_of_loc( st, loc ) ;
@@ -991,14 +1000,13 @@ fn loc_produce<Res:'static+Debug+PartialEq+Eq+Clone+Hash>(g:&RefCell<DCG>, loc:&
         st.stack.push ( Frame{loc:loc.clone(), succs:Vec::new(), } );
         //st.cnt.stack = if st.cnt.stack > st.stack.len() { st.cnt.stack } else { st.stack.len() } ;
         st.path = loc.path.clone() ;
-        let producer : Box<dyn Producer<Res>> = {
+        {
             let node : &mut Node<Res> = res_node_of_loc( st, loc ) ;
             match *node {
                 Node::Comp(ref mut nd) => {
                     // The old result no longer has any supporting
                     // edges; do not reuse it if the producer panics.
                     nd.res = None ;
-                    nd.producer.copy()
                 },
                 _ => panic!("internal error"),
             }
@@ -1014,6 +1022,7 @@ fn loc_produce<Res:'static+Debug+PartialEq+Eq+Clone+Hash>(g:&RefCell<DCG>, loc:&
     // above, before making this call.  We re-borrow `g` below, when
     // the call is complete.
     let res = producer.produce() ;
+    let cached = Some(res.clone()) ; // The user's `clone` may panic: No edges recorded yet.
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
     let st = &mut * g.borrow_mut() ;
     guard.done = true ;
@@ -1036,7 +1045,7 @@ fn loc_produce<Res:'static+Debug+PartialEq+Eq+Clone+Hash>(g:&RefCell<DCG>, loc:&
         match *node {
             Node::Comp(ref mut node) => {
                 replace(&mut node.succs, frame.succs.into_iter().map(|(succ,_)|succ).collect() ) ;
-                replace(&mut node.res, Some(res.clone()))
+                replace(&mut node.res, cached)
             },
             _ => panic!("internal error"),
         }
-- 
2.43.0


From 321e592714756f6b62122f492717e44d16b9531f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:50 +0000
Subject: [PATCH 25/28] fix: a mapping function that panics on the new content
 does not stop dirtying

---
 src/engine.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index 73bb224..f3fa58b 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -22,6 +22,7 @@ use std::hash::{Hash,Hasher};
 use std::collections::hash_map::DefaultHasher;
 use std::mem::replace;
 use std::mem::transmute;
+use std::panic::{AssertUnwindSafe,catch_unwind};
 use std::rc::Rc;
 use std::fmt::Write;
 
@@ -1257,7 +1258,13 @@ impl <T:'static+Sized+Debug+PartialEq+Eq+Clone+Hash,
         None
     }
     fn dirty(self:&Self, g:&mut DCG, loc:&Rc<Loc>) -> DCGRes {
-        check_force_map_dep(g, self, loc)
+        // Dirtying must reach every observer of the changed content, and
+        // nothing demands the mapped value now.  If the mapping function
+        // has no value for the new content, then its image has changed.
+        match catch_unwind(AssertUnwindSafe(|| check_force_map_dep(g, self, loc))) {
+            Ok(res) => res,
+            Err(_)  => DCGRes{changed:true}
+        }
     }
     fn clean(self:&Self, g:&RefCell<DCG>, loc:&Rc<Loc>) -> DCGRes {
         check_force_map_dep(&mut *g.borrow_mut(), self, loc)
-- 
2.43.0


From 1cfecd24c8608fd5ee591992ea63309ff1587a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:50 +0000
Subject: [PATCH 26/28] fix: close trace extents when cell, set or thunk panics
 in the user's code

---
 src/engine.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/engine.rs b/src/engine.rs
index f3fa58b..de7bfdb 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1639,6 +1639,7 @@ impl Adapton for DCG {
             +'static // TODO-Later: Needed on T because of lifetime issues.
             >
         (self:&mut DCG, nm:Name, val:T) -> AbsArt<T,Self::Loc> {
+            let _trace_guard = TraceGuard::new() ;
             wf::check_dcg(self);
             let path = current_path(self) ;
             let (id, is_pure) = {
@@ -1733,6 +1734,7 @@ impl Adapton for DCG {
         }
 
     fn set<T:'static+Eq+Debug> (self:&mut Self, cell:AbsArt<T,Self::Loc>, val:T) {
+        let _trace_guard = TraceGuard::new() ;
         wf::check_dcg(self);
         assert!( self.stack.is_empty() ); // => outer layer has control.
         set_(self, cell, val);
@@ -1747,6 +1749,7 @@ impl Adapton for DCG {
          arg:Arg, spurious:Spurious)
          -> AbsArt<Res,Self::Loc>
     {
+        let _trace_guard = TraceGuard::new() ;
         wf::check_dcg(self);
         let id =
         // Apply the logic of engine's flags:
-- 
2.43.0


From 5de5f03718c977f4acda363f2d5cb24b3aee0903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:50 +0000
Subject: [PATCH 27/28] fix: cell copies its value before it replaces a
 computation

---
 src/engine.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index de7bfdb..37f187d 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1699,12 +1699,14 @@ impl Adapton for DCG {
             if do_set   { set_(self, AbsArt::Loc(loc.clone()), val.clone()) };
             match succs {
                 Some((succs, preds)) => {
-                    // The computation becomes a cell, which keeps its predecessors
-                    revoke_succs(self, &loc, &succs) ;
-                    self.table.insert(loc.clone(), Box::new(Node::Mut(MutNode{
+                    // The computation becomes a cell, which keeps its predecessors.
+                    // (Copy the value first: The user's `Clone` may panic.)
+                    let node : Box<dyn GraphNode> = Box::new(Node::Mut(MutNode{
                         preds:preds,
                         val:val.clone(),
-                    })));
+                    })) ;
+                    revoke_succs(self, &loc, &succs) ;
+                    self.table.insert(loc.clone(), node);
                 },
                 None => ()
             } ;
-- 
2.43.0


From b0b7a0ab10e4cabceaa9ee6af0d70569699c5006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:16 +0000
Subject: [PATCH 28/28] fix: two cycle values observed at one thunk are two
 observations

---
 src/engine.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index 37f187d..c03fb49 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -2102,7 +2102,9 @@ impl Adapton for DCG {
                                     // cycle, use this special output value now
                                     // (in particular, in the case of a cycle,
                                     // we do not use the thunk's cached result)
-                                    Some(out) => (true, is_dup, is_pure, true, Some(out)),
+                                    // (and not a duplicate, even if `loc` was forced
+                                    // before, since that `out` may have been another one)
+                                    Some(out) => (true, false, is_pure, true, Some(out)),
                                 }
                             }
                             else {
-- 
2.43.0

