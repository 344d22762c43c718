From 179c6592d8c60f4564e0a731d45f80b8ee62e4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:10 +0000
Subject: [PATCH 01/19] fix: an observer ends once; terminals tear down its
 upstream (observer, stream controller, subject)

---
 src/internals/function_wrapper.rs  |  7 +++--
 src/internals/stream_controller.rs | 38 +++++++++++++++---------
 src/observable.rs                  |  4 ++-
 src/observer.rs                    | 23 ++++++++++++---
 src/subjects/subject.rs            | 47 ++++++++++++++++++++----------
 5 files changed, 82 insertions(+), 37 deletions(-)

diff --git a/src/internals/function_wrapper.rs b/src/internals/function_wrapper.rs
index 58deba9..0c70c69 100644
--- a/src/internals/function_wrapper.rs
+++ b/src/internals/function_wrapper.rs
@@ -35,8 +35,11 @@ where
       ))),
     }
   }
-  pub fn clear(&self) {
-    *self.inner.write().unwrap() = None;
+  /// Returns true if there was a function to clear.
+  pub fn clear(&self) -> bool {
+    // the function is dropped after the lock has been released
+    let f = self.inner.write().unwrap().take();
+    f.is_some()
   }
   pub fn empty(&self) -> bool {
     self.inner.read().unwrap().is_none()
diff --git a/src/internals/stream_controller.rs b/src/internals/stream_controller.rs
index bda8774..9314ec0 100644
--- a/src/internals/stream_controller.rs
+++ b/src/internals/stream_controller.rs
@@ -42,6 +42,9 @@ where
   {
     *self.on_finalize.write().unwrap() =
       Some(FunctionWrapper::new(move |_| f()));
+    if !self.subscriber.is_subscribed() {
+      self.finalize(); // ended in the meantime
+    }
   }
 
   pub fn new_observer<XItem, Next, Error, Complete>(
@@ -73,11 +76,16 @@ where
     );
     let o_unsub = observer.clone();
 
-    let mut unsubscribers = self.unscribers.write().unwrap();
-    unsubscribers.insert(
-      serial.clone(),
-      FunctionWrapper::new(move |_| o_unsub.unsubscribe()),
-    );
+    {
+      let mut unsubscribers = self.unscribers.write().unwrap();
+      unsubscribers.insert(
+        serial.clone(),
+        FunctionWrapper::new(move |_| o_unsub.unsubscribe()),
+      );
+    }
+    if !self.subscriber.is_subscribed() {
+      self.upstream_abort_observe(&serial); // ended in the meantime
+    }
     observer
   }
 
@@ -100,11 +108,14 @@ where
 
   pub fn sink_complete(&self, serial: &i32) {
     if self.subscriber.is_subscribed() {
-      let done_all = {
+      let (o, done_all) = {
         let mut observers = self.unscribers.write().unwrap();
-        observers.remove(serial);
-        observers.len() == 0
+        let o = observers.remove(serial);
+        (o, observers.len() == 0)
       };
+      if let Some(o) = o {
+        o.call(()); // the upstream may still be emitting (e.g. `take_while`)
+      }
       if done_all {
         self.subscriber.complete();
         self.finalize();
@@ -122,25 +133,24 @@ where
   }
 
   pub fn upstream_abort_observe(&self, serial: &i32) {
-    let mut observers = self.unscribers.write().unwrap();
-    let o = observers.remove(serial);
+    let o = self.unscribers.write().unwrap().remove(serial);
     if let Some(o) = o {
       o.call(());
     }
   }
 
   pub fn finalize(&self) {
-    self.unscribers.read().unwrap().iter().for_each(|x| {
+    // no lock is held while calling out
+    let unscribers = std::mem::take(&mut *self.unscribers.write().unwrap());
+    unscribers.iter().for_each(|x| {
       x.1.call(());
     });
-    self.unscribers.write().unwrap().clear();
     if self.subscriber.is_subscribed() {
       self.subscriber.unsubscribe();
     }
-    let on_finalize = &mut *self.on_finalize.write().unwrap();
+    let on_finalize = self.on_finalize.write().unwrap().take();
     if let Some(f) = on_finalize {
       f.call(());
-      *on_finalize = None;
     }
   }
 
diff --git a/src/observable.rs b/src/observable.rs
index 62f0014..f53e9bd 100644
--- a/src/observable.rs
+++ b/src/observable.rs
@@ -26,7 +26,9 @@ where
   ) -> Subscription<'a> {
     let unsub_observer = observer.clone();
     let issub_observer = observer.clone();
-    self.source.call(observer.clone());
+    if observer.is_subscribed() {
+      self.source.call(observer.clone());
+    }
     Subscription::new(
       move || {
         unsub_observer.unsubscribe();
diff --git a/src/observer.rs b/src/observer.rs
index b6cd151..cd0e70f 100644
--- a/src/observer.rs
+++ b/src/observer.rs
@@ -38,19 +38,31 @@ where
     self.fn_next.call_if_available(x);
   }
   pub fn error(&self, x: RxError) {
-    self.fn_error.call_and_clear_if_available(x);
+    // whoever clears `fn_next` delivers the only terminal
+    if self.fn_next.clear() {
+      self.fn_complete.clear();
+      self.teardown();
+      self.fn_error.call_and_clear_if_available(x);
+    }
   }
   pub fn complete(&self) {
-    self.fn_complete.call_and_clear_if_available(());
+    if self.fn_next.clear() {
+      self.fn_error.clear();
+      self.teardown();
+      self.fn_complete.call_and_clear_if_available(());
+    }
   }
   pub fn unsubscribe(&self) {
     self.fn_next.clear();
     self.fn_error.clear();
     self.fn_complete.clear();
-    if let Some(f) = &*self.fn_on_unsubscribe.read().unwrap() {
+    self.teardown();
+  }
+  fn teardown(&self) {
+    let f = self.fn_on_unsubscribe.write().unwrap().take();
+    if let Some(f) = f {
       f.call(());
     }
-    *self.fn_on_unsubscribe.write().unwrap() = None;
   }
   pub fn is_subscribed(&self) -> bool {
     self.fn_next.exists() && self.fn_error.exists() && self.fn_complete.exists()
@@ -61,6 +73,9 @@ where
   {
     *self.fn_on_unsubscribe.write().unwrap() =
       Some(FunctionWrapper::new(move |_| f()));
+    if !self.is_subscribed() {
+      self.teardown(); // ended in the meantime
+    }
   }
 }
 
diff --git a/src/subjects/subject.rs b/src/subjects/subject.rs
index 34dd4b6..b1c3d13 100644
--- a/src/subjects/subject.rs
+++ b/src/subjects/subject.rs
@@ -34,6 +34,11 @@ where
     Vec::from_iter(x)
   }
 
+  fn take_observers(&self) -> Vec<Observer<'a, Item>> {
+    let x = std::mem::take(&mut *self.observers.write().unwrap());
+    Vec::from_iter(x.into_iter().map(|x| x.1))
+  }
+
   pub fn next(&self, item: Item) {
     self
       .fetch_observers()
@@ -41,14 +46,13 @@ where
       .for_each(move |x| x.next(item.clone()));
   }
   pub fn error(&self, err: RxError) {
-    let obs = self.fetch_observers();
-    self.observers.write().unwrap().clear();
-    obs.into_iter().for_each(move |x| x.error(err.clone()));
+    self
+      .take_observers()
+      .into_iter()
+      .for_each(move |x| x.error(err.clone()));
   }
   pub fn complete(&self) {
-    let obs = self.fetch_observers();
-    self.observers.write().unwrap().clear();
-    obs.into_iter().for_each(|x| x.complete());
+    self.take_observers().into_iter().for_each(|x| x.complete());
   }
 
   pub fn observable(&self) -> Observable<'a, Item> {
@@ -64,31 +68,42 @@ where
         *serial += 1;
         *serial
       };
+      let len = {
+        let mut observers = observers.write().unwrap();
+        observers.insert(serial, s.clone());
+        observers.len()
+      };
       {
         let observers = Arc::clone(&observers);
         let on_unsubscribe = Arc::clone(&on_unsubscribe);
         s.set_on_unsubscribe(move || {
-          let len = {
+          let (observer, len) = {
             let mut observers = observers.write().unwrap();
-            observers.remove(&serial);
-            observers.len()
+            let observer = observers.remove(&serial);
+            (observer, observers.len())
           };
-          if let Some(on_unsubscribe) = &*on_unsubscribe.read().unwrap() {
+          drop(observer);
+          let on_unsubscribe = on_unsubscribe.read().unwrap().clone();
+          if let Some(on_unsubscribe) = on_unsubscribe {
             on_unsubscribe.call(len);
           }
         });
       }
-      let len = {
-        let mut observers = observers.write().unwrap();
-        observers.insert(serial, s);
-        observers.len()
-      };
-      if let Some(on_subscribe) = &*on_subscribe.read().unwrap() {
+      let on_subscribe = on_subscribe.read().unwrap().clone();
+      if let Some(on_subscribe) = on_subscribe {
         on_subscribe.call(len);
       }
     })
   }
 
+  /// The same subject, without owning the hooks (they may own the subject).
+  pub(crate) fn without_hooks(&self) -> Subject<'a, Item> {
+    Subject {
+      observers: Arc::clone(&self.observers),
+      ..Subject::new()
+    }
+  }
+
   pub(crate) fn set_on_subscribe<F>(&self, f: F)
   where
     F: Fn(usize) + Send + Sync + 'a,
-- 
2.43.0


From 41e04bcd451050d2730076440bff78a8db8dff8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:10 +0000
Subject: [PATCH 02/19] fix: BehaviorSubject hands over without gaps,
 duplicates or held locks and ignores events after its end

---
 src/subjects/behavior_subject.rs | 141 +++++++++++++++++++++----------
 1 file changed, 97 insertions(+), 44 deletions(-)

diff --git a/src/subjects/behavior_subject.rs b/src/subjects/behavior_subject.rs
index c4c079c..be52d34 100644
--- a/src/subjects/behavior_subject.rs
+++ b/src/subjects/behavior_subject.rs
@@ -1,14 +1,41 @@
 use crate::prelude::*;
-use std::sync::{Arc, RwLock};
+use std::{
+  collections::VecDeque,
+  sync::{Arc, RwLock},
+};
+
+#[derive(Clone)]
+struct Latest<Item>
+where
+  Item: Clone + Send + Sync,
+{
+  version: u64,
+  event: Material<Item>,
+}
+
+impl<Item> Latest<Item>
+where
+  Item: Clone + Send + Sync,
+{
+  /// Stores the next event, unless the subject has already ended.
+  fn update(&mut self, event: Material<Item>) -> Option<u64> {
+    if let Material::Next(_) = &self.event {
+      self.version += 1;
+      self.event = event;
+      Some(self.version)
+    } else {
+      None
+    }
+  }
+}
 
 #[derive(Clone)]
 pub struct BehaviorSubject<'a, Item>
 where
   Item: Clone + Send + Sync,
 {
-  subject: Arc<subject::Subject<'a, Item>>,
-  last_item: Arc<RwLock<Option<Item>>>,
-  last_error: Arc<RwLock<Option<RxError>>>,
+  subject: Arc<subject::Subject<'a, (u64, Material<Item>)>>,
+  latest: Arc<RwLock<Latest<Item>>>,
 }
 
 impl<'a, Item> BehaviorSubject<'a, Item>
@@ -18,65 +45,91 @@ where
   pub fn new(initial: Item) -> BehaviorSubject<'a, Item> {
     BehaviorSubject {
       subject: Arc::new(subjects::Subject::new()),
-      last_item: Arc::new(RwLock::new(Some(initial))),
-      last_error: Arc::new(RwLock::new(None)),
+      latest: Arc::new(RwLock::new(Latest {
+        version: 0,
+        event: Material::Next(initial),
+      })),
+    }
+  }
+
+  fn publish(&self, event: Material<Item>) {
+    let version = self.latest.write().unwrap().update(event.clone());
+    if let Some(version) = version {
+      self.subject.next((version, event));
     }
   }
 
   pub fn next(&self, item: Item) {
-    *self.last_item.write().unwrap() = Some(item.clone());
-    self.subject.next(item);
+    self.publish(Material::Next(item));
   }
   pub fn error(&self, err: RxError) {
-    *self.last_error.write().unwrap() = Some(err.clone());
-    self.subject.error(err);
+    self.publish(Material::Error(err));
   }
   pub fn complete(&self) {
-    *self.last_item.write().unwrap() = None;
-    self.subject.complete();
+    self.publish(Material::Complete);
   }
   pub fn observable(&self) -> Observable<'a, Item> {
-    let last_item = Arc::clone(&self.last_item);
-    let last_error = Arc::clone(&self.last_error);
+    let latest = Arc::clone(&self.latest);
     let subject = Arc::clone(&self.subject);
 
     Observable::create(move |s| {
+      fn deliver<'a, Item>(s: &Observer<'a, Item>, event: Material<Item>)
+      where
+        Item: Clone + Send + Sync,
       {
-        let last_item = &*last_item.read().unwrap();
-        let last_error = &*last_error.read().unwrap();
-
-        if let Some(err) = last_error {
-          s.error(err.clone());
-          return;
-        }
-        if let Some(item) = last_item {
-          s.next(item.clone());
-        } else {
-          s.complete();
-          return;
+        match event {
+          Material::Next(x) => s.next(x),
+          Material::Error(e) => s.error(e),
+          Material::Complete => s.complete(),
         }
       }
 
-      let sbsc = Arc::new(RwLock::new(None::<Subscription>));
-      {
-        let sbsc = Arc::clone(&sbsc);
-        s.set_on_unsubscribe(move || {
-          if let Some(sbsc) = &*sbsc.read().unwrap() {
-            sbsc.unsubscribe();
+      // Events published while the latest one is being handed over wait here
+      // (`None`: the hand-over is done). Versions up to `known` are not news.
+      let handover = Arc::new(RwLock::new((Some(VecDeque::new()), 0u64)));
+
+      let live = {
+        let s = s.clone();
+        let handover = Arc::clone(&handover);
+        Observer::new(
+          move |event: (u64, Material<Item>)| {
+            {
+              let (waiting, known) = &mut *handover.write().unwrap();
+              if event.0 <= *known {
+                return;
+              }
+              if let Some(waiting) = waiting {
+                waiting.push_back(event);
+                return;
+              }
+            }
+            deliver(&s, event.1);
+          },
+          |_| {},
+          || {},
+        )
+      };
+      subject.observable().inner_subscribe(live.clone());
+      s.set_on_unsubscribe(move || live.unsubscribe());
+
+      let Latest { version, event } = latest.read().unwrap().clone();
+      handover.write().unwrap().1 = version;
+      deliver(&s, event);
+      loop {
+        let event = {
+          let (waiting, _) = &mut *handover.write().unwrap();
+          let event = waiting.as_mut().and_then(|x| x.pop_front());
+          if event.is_none() {
+            *waiting = None;
           }
-        });
+          event
+        };
+        match event {
+          Some((v, event)) if v > version => deliver(&s, event),
+          Some(_) => {} // already handed over
+          None => break,
+        }
       }
-
-      let s_next = s.clone();
-      let s_error = s.clone();
-      let s_complete = s.clone();
-      *sbsc.write().unwrap() = Some(subject.observable().subscribe(
-        move |x| s_next.next(x),
-        move |e| s_error.error(e),
-        move || {
-          s_complete.complete();
-        },
-      ));
     })
   }
 }
-- 
2.43.0


From 73b940c96a1fe452029171ca08d66db100abc977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:11 +0000
Subject: [PATCH 03/19] fix: ref_count/replay connect without holding a lock,
 reconnect, and can be cancelled while connecting; ReplaySubject delivers its
 history in order

---
 src/operators/ref_count.rs     |  32 ++++---
 src/operators/replay.rs        |  34 +++++---
 src/subjects/replay_subject.rs | 153 ++++++++++++++++++++++-----------
 3 files changed, 141 insertions(+), 78 deletions(-)

diff --git a/src/operators/ref_count.rs b/src/operators/ref_count.rs
index 5d4db86..36a6925 100644
--- a/src/operators/ref_count.rs
+++ b/src/operators/ref_count.rs
@@ -9,7 +9,7 @@ where
 {
   subject: subjects::Subject<'a, Item>,
   source: Observable<'a, Item>,
-  subscription: Arc<RwLock<Option<Subscription<'a>>>>,
+  connection: Arc<RwLock<Option<Observer<'a, Item>>>>,
 }
 
 impl<'a, Item> RefCount<'a, Item>
@@ -20,7 +20,7 @@ where
     let _self = RefCount {
       subject: Subject::<Item>::new(),
       source,
-      subscription: Arc::new(RwLock::new(None)),
+      connection: Arc::new(RwLock::new(None)),
     };
     _self.set_ref_count();
     _self
@@ -32,19 +32,20 @@ where
 
   fn set_ref_count(&self) {
     {
-      let subscription = Arc::clone(&self.subscription);
+      let connection = Arc::clone(&self.connection);
       self.subject.set_on_unsubscribe(move |count| {
         if count == 0 {
-          if let Some(sbsc) = &*subscription.read().unwrap() {
-            sbsc.unsubscribe();
+          let connected = connection.write().unwrap().take();
+          if let Some(connected) = connected {
+            connected.unsubscribe();
           }
         }
       });
     }
 
     let source = self.source.clone();
-    let subject = self.subject.clone();
-    let subscription = Arc::clone(&self.subscription);
+    let subject = self.subject.without_hooks();
+    let connection = Arc::clone(&self.connection);
 
     self.subject.set_on_subscribe(move |count| {
       if count == 1 {
@@ -53,12 +54,7 @@ where
         let sbj_error = subject.clone();
         let sbj_complete = subject.clone();
 
-        let mut subscription = subscription.write().unwrap();
-        if subscription.is_some() {
-          return;
-        }
-
-        *subscription = Some(source.subscribe(
+        let observer = Observer::new(
           move |x| {
             sbj_next.next(x);
           },
@@ -68,7 +64,15 @@ where
           move || {
             sbj_complete.complete();
           },
-        ));
+        );
+        {
+          let mut connection = connection.write().unwrap();
+          if connection.is_some() {
+            return;
+          }
+          *connection = Some(observer.clone());
+        }
+        source.inner_subscribe(observer);
       }
     });
   }
diff --git a/src/operators/replay.rs b/src/operators/replay.rs
index cae0f42..e9d2041 100644
--- a/src/operators/replay.rs
+++ b/src/operators/replay.rs
@@ -8,7 +8,7 @@ where
 {
   subject: subjects::ReplaySubject<'a, Item>,
   source: Observable<'a, Item>,
-  subscription: Arc<RwLock<Option<Subscription<'a>>>>,
+  connection: Arc<RwLock<Option<Observer<'a, Item>>>>,
 }
 
 impl<'a, Item> Replay<'a, Item>
@@ -19,7 +19,7 @@ where
     let _self = Replay {
       subject: subjects::ReplaySubject::new(),
       source,
-      subscription: Arc::new(RwLock::new(None)),
+      connection: Arc::new(RwLock::new(None)),
     };
     _self.set_ref_count();
     _self
@@ -31,19 +31,22 @@ where
 
   fn set_ref_count(&self) {
     {
-      let subscription = Arc::clone(&self.subscription);
+      let connection = Arc::clone(&self.connection);
+      let subject = self.subject.without_hooks();
       self.subject.set_on_unsubscribe(move |count| {
         if count == 0 {
-          if let Some(sbsc) = &*subscription.read().unwrap() {
-            sbsc.unsubscribe();
+          let connected = connection.write().unwrap().take();
+          if let Some(connected) = connected {
+            connected.unsubscribe();
+            subject.forget();
           }
         }
       });
     }
 
     let source = self.source.clone();
-    let subject = self.subject.clone();
-    let subscription = Arc::clone(&self.subscription);
+    let subject = self.subject.without_hooks();
+    let connection = Arc::clone(&self.connection);
 
     self.subject.set_on_subscribe(move |count| {
       if count == 1 {
@@ -52,12 +55,7 @@ where
         let sbj_error = subject.clone();
         let sbj_complete = subject.clone();
 
-        let mut subscription = subscription.write().unwrap();
-        if subscription.is_some() {
-          return;
-        }
-
-        *subscription = Some(source.subscribe(
+        let observer = Observer::new(
           move |x| {
             sbj_next.next(x);
           },
@@ -67,7 +65,15 @@ where
           move || {
             sbj_complete.complete();
           },
-        ));
+        );
+        {
+          let mut connection = connection.write().unwrap();
+          if connection.is_some() {
+            return;
+          }
+          *connection = Some(observer.clone());
+        }
+        source.inner_subscribe(observer);
       }
     });
   }
diff --git a/src/subjects/replay_subject.rs b/src/subjects/replay_subject.rs
index 9c33645..7cd0e27 100644
--- a/src/subjects/replay_subject.rs
+++ b/src/subjects/replay_subject.rs
@@ -25,74 +25,127 @@ where
     }
   }
 
+  pub(crate) fn is_terminated(&self) -> bool {
+    *self.was_completed.read().unwrap()
+      || self.was_error.read().unwrap().is_some()
+  }
+
+  /// Forgets the items of a source that is no longer subscribed.
+  pub(crate) fn forget(&self) {
+    let mut items = self.items.write().unwrap();
+    if !self.is_terminated() {
+      items.clear();
+    }
+  }
+
   pub fn next(&self, item: Item) {
-    (*self.items.write().unwrap()).push(item.clone());
+    {
+      let mut items = self.items.write().unwrap();
+      if self.is_terminated() {
+        return;
+      }
+      items.push(item.clone());
+    }
     self.subject.next(item);
   }
   pub fn error(&self, err: RxError) {
-    *self.was_error.write().unwrap() = Some(err.clone());
+    {
+      let _items = self.items.write().unwrap();
+      if self.is_terminated() {
+        return;
+      }
+      *self.was_error.write().unwrap() = Some(err.clone());
+    }
     self.subject.error(err);
   }
   pub fn complete(&self) {
-    *self.was_completed.write().unwrap() = true;
+    {
+      let _items = self.items.write().unwrap();
+      if self.is_terminated() {
+        return;
+      }
+      *self.was_completed.write().unwrap() = true;
+    }
     self.subject.complete();
   }
+
+  /// The n-th event of the history.
+  fn event(&self, n: usize) -> Option<Material<Item>> {
+    let items = self.items.read().unwrap();
+    if let Some(x) = items.get(n) {
+      return Some(Material::Next(x.clone()));
+    }
+    if n > items.len() {
+      return None;
+    }
+    if let Some(err) = &*self.was_error.read().unwrap() {
+      return Some(Material::Error(err.clone()));
+    }
+    if *self.was_completed.read().unwrap() {
+      return Some(Material::Complete);
+    }
+    None
+  }
+
   pub fn observable(&self) -> Observable<'a, Item> {
-    let items = Arc::clone(&self.items);
-    let was_error = Arc::clone(&self.was_error);
-    let was_completed = Arc::clone(&self.was_completed);
-    let subject = Arc::clone(&self.subject);
+    let _self = self.clone();
 
     Observable::create(move |s| {
-      let sbsc = Arc::new(RwLock::new(None::<Subscription>));
-      {
-        let sbsc = Arc::clone(&sbsc);
-        s.set_on_unsubscribe(move || {
-          if let Some(sbsc) = &*sbsc.read().unwrap() {
-            sbsc.unsubscribe();
-          }
-        });
-      }
-
-      let items = Arc::clone(&items);
-      let was_error = Arc::clone(&was_error);
-      let was_completed = Arc::clone(&was_completed);
-
-      let s_next = s.clone();
-      let s_error = s.clone();
-      let s_complete = s.clone();
-
-      *sbsc.write().unwrap() = Some(
-        utils::ready_set_go(
-          move || {
-            // block until emitted for replay
-            let items = &items.read().unwrap();
-            let was_error = &*was_error.read().unwrap();
-            let was_completed = &*was_completed.read().unwrap();
-            items.iter().for_each(|x| {
-              s.next(x.clone());
-            });
-            if let Some(err) = &*was_error {
-              s.error(err.clone());
-              return;
-            } else if *was_completed {
-              s.complete();
+      // Everything reaches the subscriber from here, in the order of the history;
+      // a thread that finds another one delivering leaves the rest to it.
+      let position = Arc::new(RwLock::new((0usize, false)));
+      let deliver = {
+        let s = s.clone();
+        let _self = _self.clone();
+        move || loop {
+          let event = {
+            let mut position = position.write().unwrap();
+            if position.1 {
               return;
             }
-          },
-          subject.observable(),
+            let event = _self.event(position.0);
+            position.0 += event.is_some() as usize;
+            position.1 = event.is_some();
+            event
+          };
+          match event {
+            Some(Material::Next(x)) => s.next(x),
+            Some(Material::Error(e)) => s.error(e),
+            Some(Material::Complete) => s.complete(),
+            None => return,
+          }
+          position.write().unwrap().1 = false;
+        }
+      };
+
+      let live = {
+        let deliver_next = deliver.clone();
+        let deliver_error = deliver.clone();
+        let deliver_complete = deliver.clone();
+        Observer::new(
+          move |_| deliver_next(),
+          move |_| deliver_error(),
+          move || deliver_complete(),
         )
-        .subscribe(
-          move |x| s_next.next(x),
-          move |e| s_error.error(e),
-          move || {
-            s_complete.complete();
-          },
-        ),
-      );
+      };
+      {
+        let live = live.clone();
+        s.set_on_unsubscribe(move || live.unsubscribe());
+      }
+      if !_self.is_terminated() {
+        _self.subject.observable().inner_subscribe(live);
+      }
+      deliver();
     })
   }
 
+  pub(crate) fn without_hooks(&self) -> ReplaySubject<'a, Item> {
+    ReplaySubject {
+      subject: Arc::new(self.subject.without_hooks()),
+      ..self.clone()
+    }
+  }
+
   pub(crate) fn set_on_subscribe<F>(&self, f: F)
   where
     F: Fn(usize) + Send + Sync + 'a,
-- 
2.43.0


From f84ef9947a823fadbb7723ec34dafe45b47ce9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:11 +0000
Subject: [PATCH 04/19] fix: take(0) completes at once

---
 src/operators/take.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/operators/take.rs b/src/operators/take.rs
index 099e236..5323ee7 100644
--- a/src/operators/take.rs
+++ b/src/operators/take.rs
@@ -25,6 +25,10 @@ where
     let count = self.count;
 
     Observable::<Item>::create(move |s| {
+      if count == 0 {
+        s.complete();
+        return;
+      }
       let n = Arc::new(RwLock::new(0));
 
       let sctl = StreamController::new(s);
-- 
2.43.0


From 2a30607db2f05a5f478ee4d99875c1220ba0031a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:11 +0000
Subject: [PATCH 05/19] fix: element_at beyond the end emits nothing

---
 src/operators/element_at.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/operators/element_at.rs b/src/operators/element_at.rs
index 14b60e3..9a94697 100644
--- a/src/operators/element_at.rs
+++ b/src/operators/element_at.rs
@@ -7,6 +7,7 @@ where
   Item: Clone + Send + Sync,
 {
   take_op: operators::Take<Item>,
+  skip_op: operators::Skip<Item>,
 }
 
 impl<'a, Item> ElementAt<Item>
@@ -16,10 +17,12 @@ where
   pub fn new(count: usize) -> ElementAt<Item> {
     ElementAt {
       take_op: operators::Take::<Item>::new(count),
+      skip_op: operators::Skip::<Item>::new(count.saturating_sub(1)),
     }
   }
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, Item> {
     let take_op = self.take_op.clone();
+    let skip_op = self.skip_op.clone();
 
     Observable::<Item>::create(move |s| {
       let source = source.clone();
@@ -29,9 +32,8 @@ where
       let sctl_error = sctl.clone();
       let sctl_complete = sctl.clone();
 
-      take_op
-        .execute(source)
-        .last()
+      skip_op
+        .execute(take_op.execute(source))
         .inner_subscribe(sctl.new_observer(
           move |_, x| {
             sctl_next.sink_next(x);
-- 
2.43.0


From 5edc0a6fc7a8b3eb3f262aaf8bf1a8d55a6e5ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:11 +0000
Subject: [PATCH 06/19] fix: skip_while skips while the predicate holds

---
 src/operators/skip_while.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/skip_while.rs b/src/operators/skip_while.rs
index 3951f0b..1379892 100644
--- a/src/operators/skip_while.rs
+++ b/src/operators/skip_while.rs
@@ -38,7 +38,7 @@ where
           if *enable.read().unwrap() {
             sctl_next.sink_next(x);
           } else {
-            if f.call(x.clone()) {
+            if !f.call(x.clone()) {
               sctl_next.sink_next(x);
               *enable.write().unwrap() = true;
             }
-- 
2.43.0


From be8a5d15f35a0137e9e41ac1c19b4f15397b2b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:11 +0000
Subject: [PATCH 07/19] fix: window_with_count closes windows on time and calls
 out without locks

---
 src/operators/window_with_count.rs | 32 +++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/operators/window_with_count.rs b/src/operators/window_with_count.rs
index 8bf13cc..92fc352 100644
--- a/src/operators/window_with_count.rs
+++ b/src/operators/window_with_count.rs
@@ -44,27 +44,35 @@ where
 
       source.inner_subscribe(sctl.new_observer(
         move |_, x| {
-          let mut n = n.write().unwrap();
-          if *n == 0 {
-            sctl_next.sink_next(sbj_next.read().unwrap().observable());
-            sbj_next.read().unwrap().next(x);
+          let (window, open, close) = {
+            let mut n = n.write().unwrap();
+            let mut sbj = sbj_next.write().unwrap();
+            let window = sbj.clone();
+            let open = *n == 0;
             *n += 1;
-          } else {
-            sbj_next.read().unwrap().next(x);
-            *n += 1;
-            if *n == count {
-              sbj_next.read().unwrap().complete();
-              *sbj_next.write().unwrap() = subjects::Subject::<Item>::new();
+            let close = *n == count;
+            if close {
+              *sbj = subjects::Subject::<Item>::new();
               *n = 0;
             }
+            (window, open, close)
+          };
+          if open {
+            sctl_next.sink_next(window.observable());
+          }
+          window.next(x);
+          if close {
+            window.complete();
           }
         },
         move |_, e| {
-          sbj_error.read().unwrap().error(e.clone());
+          let sbj = sbj_error.read().unwrap().clone();
+          sbj.error(e.clone());
           sctl_error.sink_error(e);
         },
         move |serial| {
-          sbj_complete.read().unwrap().complete();
+          let sbj = sbj_complete.read().unwrap().clone();
+          sbj.complete();
           sctl_complete.sink_complete(&serial);
         },
       ));
-- 
2.43.0


From 48c67a07e29c285f127a8ee78a1d4876300febcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:11 +0000
Subject: [PATCH 08/19] fix: aggregating operators emit without holding their
 locks

---
 src/operators/buffer_with_count.rs |  4 ++--
 src/operators/group_by.rs          | 16 ++++++++++------
 src/operators/max.rs               |  5 +++--
 src/operators/min.rs               |  5 +++--
 src/operators/reduce.rs            |  5 +++--
 src/operators/scan.rs              |  9 +++++----
 src/operators/sum.rs               |  5 +++--
 src/operators/sum_and_count.rs     |  6 ++++--
 src/operators/take_last.rs         |  5 +++--
 9 files changed, 36 insertions(+), 24 deletions(-)

diff --git a/src/operators/buffer_with_count.rs b/src/operators/buffer_with_count.rs
index a303dba..7575c3c 100644
--- a/src/operators/buffer_with_count.rs
+++ b/src/operators/buffer_with_count.rs
@@ -61,9 +61,9 @@ where
             sctl_error.sink_error(e);
           },
           move |serial| {
-            let vec = results.read().unwrap();
+            let vec = std::mem::take(&mut *results.write().unwrap());
             if vec.len() > 0 {
-              sctl_complete.sink_next(vec.clone());
+              sctl_complete.sink_next(vec);
             }
             sctl_complete.sink_complete(&serial);
           },
diff --git a/src/operators/group_by.rs b/src/operators/group_by.rs
index abdd0c4..ac2e024 100644
--- a/src/operators/group_by.rs
+++ b/src/operators/group_by.rs
@@ -50,27 +50,31 @@ where
       source.inner_subscribe(sctl.new_observer(
         move |_, x: Item| {
           let key = f.call(x.clone()); // Umm, can I use it as a reference?
-          let sbj = {
+          let (sbj, opened) = {
             let mut sbjmap = sbjmap_next.write().unwrap();
             if let Some(sbj) = sbjmap.get(&key) {
-              sbj.clone()
+              (sbj.clone(), false)
             } else {
               let sbj = subjects::Subject::<Item>::new();
               sbjmap.insert(key, sbj.clone());
-              sctl_next.sink_next(sbj.observable());
-              sbj
+              (sbj, true)
             }
           };
+          if opened {
+            sctl_next.sink_next(sbj.observable());
+          }
           sbj.next(x);
         },
         move |_, e| {
-          sbjmap_error.read().unwrap().iter().for_each(|x| {
+          let sbjmap = sbjmap_error.read().unwrap().clone();
+          sbjmap.iter().for_each(|x| {
             x.1.error(e.clone());
           });
           sctl_error.sink_error(e);
         },
         move |serial| {
-          sbjmap_complete.read().unwrap().iter().for_each(|x| {
+          let sbjmap = sbjmap_complete.read().unwrap().clone();
+          sbjmap.iter().for_each(|x| {
             x.1.complete();
           });
           sctl_complete.sink_complete(&serial);
diff --git a/src/operators/max.rs b/src/operators/max.rs
index 37efdff..990d55c 100644
--- a/src/operators/max.rs
+++ b/src/operators/max.rs
@@ -42,8 +42,9 @@ where
           sctl_error.sink_error(e);
         },
         move |serial| {
-          if let Some(x) = &*result.read().unwrap() {
-            sctl_complete.sink_next(x.clone());
+          let result = result.read().unwrap().clone();
+          if let Some(x) = result {
+            sctl_complete.sink_next(x);
           }
           sctl_complete.sink_complete(&serial);
         },
diff --git a/src/operators/min.rs b/src/operators/min.rs
index 6b3c544..eae8ce5 100644
--- a/src/operators/min.rs
+++ b/src/operators/min.rs
@@ -42,8 +42,9 @@ where
           sctl_error.sink_error(e);
         },
         move |serial| {
-          if let Some(x) = &*result.read().unwrap() {
-            sctl_complete.sink_next(x.clone());
+          let result = result.read().unwrap().clone();
+          if let Some(x) = result {
+            sctl_complete.sink_next(x);
           }
           sctl_complete.sink_complete(&serial);
         },
diff --git a/src/operators/reduce.rs b/src/operators/reduce.rs
index 9638516..39d592f 100644
--- a/src/operators/reduce.rs
+++ b/src/operators/reduce.rs
@@ -46,8 +46,9 @@ where
           sctl_error.sink_error(e);
         },
         move |serial| {
-          if let Some(x) = &*result.read().unwrap() {
-            sctl_complete.sink_next(x.clone());
+          let result = result.read().unwrap().clone();
+          if let Some(x) = result {
+            sctl_complete.sink_next(x);
           }
           sctl_complete.sink_complete(&serial);
         },
diff --git a/src/operators/scan.rs b/src/operators/scan.rs
index 7f72e59..06a6084 100644
--- a/src/operators/scan.rs
+++ b/src/operators/scan.rs
@@ -36,16 +36,17 @@ where
 
       source.inner_subscribe(sctl.new_observer(
         move |_, x| {
-          {
+          let x = {
             let mut r = result_next.write().unwrap();
             if let Some(xx) = &*r {
               *r = Some(f.call((xx.clone(), x)));
             } else {
               *r = Some(x);
             }
-          }
-          if let Some(x) = &*result_next.read().unwrap() {
-            sctl_next.sink_next(x.clone());
+            r.clone()
+          };
+          if let Some(x) = x {
+            sctl_next.sink_next(x);
           }
         },
         move |_, e| {
diff --git a/src/operators/sum.rs b/src/operators/sum.rs
index f5e9c82..f89d625 100644
--- a/src/operators/sum.rs
+++ b/src/operators/sum.rs
@@ -41,8 +41,9 @@ where
           sctl_error.sink_error(e);
         },
         move |serial| {
-          if let Some(latest) = &*sum.read().unwrap() {
-            sctl_complete.sink_next(latest.clone());
+          let sum = sum.read().unwrap().clone();
+          if let Some(latest) = sum {
+            sctl_complete.sink_next(latest);
           }
           sctl_complete.sink_complete(&serial);
         },
diff --git a/src/operators/sum_and_count.rs b/src/operators/sum_and_count.rs
index 358042f..fb527a0 100644
--- a/src/operators/sum_and_count.rs
+++ b/src/operators/sum_and_count.rs
@@ -47,8 +47,10 @@ where
           sctl_error.sink_error(e);
         },
         move |serial| {
-          if let Some(latest) = &*sum.read().unwrap() {
-            sctl_complete.sink_next((latest.clone(), *n.read().unwrap()));
+          let sum = sum.read().unwrap().clone();
+          if let Some(latest) = sum {
+            let n = *n.read().unwrap();
+            sctl_complete.sink_next((latest, n));
           }
           sctl_complete.sink_complete(&serial);
         },
diff --git a/src/operators/take_last.rs b/src/operators/take_last.rs
index 05cdb0d..71baa7f 100644
--- a/src/operators/take_last.rs
+++ b/src/operators/take_last.rs
@@ -45,11 +45,12 @@ where
           sctl_error.sink_error(e);
         },
         move |serial| {
-          for x in items_complete.read().unwrap().iter() {
+          let items = std::mem::take(&mut *items_complete.write().unwrap());
+          for x in items {
             if !sctl_complete.is_subscribed() {
               break;
             }
-            sctl_complete.sink_next(x.clone());
+            sctl_complete.sink_next(x);
           }
           sctl_complete.sink_complete(&serial)
         },
-- 
2.43.0


From de01998d1c0531f25bddce801a4bad30190ffb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:11 +0000
Subject: [PATCH 09/19] fix: amb completes with its winner

---
 src/operators/amb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/amb.rs b/src/operators/amb.rs
index cbc605f..fb211e6 100644
--- a/src/operators/amb.rs
+++ b/src/operators/amb.rs
@@ -64,7 +64,7 @@ where
               },
               move |serial| {
                 if is_win_complete(&serial) {
-                  sctl_complete.sink_complete(&serial);
+                  sctl_complete.sink_complete_force();
                 } else {
                   sctl_complete.upstream_abort_observe(&serial);
                 }
-- 
2.43.0


From eeea9f67481c98673408fd5538e9d36a4f3aa7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:11 +0000
Subject: [PATCH 10/19] fix: concat, default_if_empty and tap keep no state
 across subscriptions

---
 src/operators/concat.rs           |  5 ++---
 src/operators/default_if_empty.rs |  2 +-
 src/operators/tap.rs              | 25 ++++++++++++++++---------
 3 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/operators/concat.rs b/src/operators/concat.rs
index 2c3f931..e0f3607 100644
--- a/src/operators/concat.rs
+++ b/src/operators/concat.rs
@@ -21,10 +21,9 @@ where
     Concat { observables: observables.to_vec() }
   }
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, Item> {
-    let observables = Arc::new(RwLock::new(VecDeque::from_iter(
-      self.observables.clone().into_iter(),
-    )));
+    let observables = VecDeque::from_iter(self.observables.clone());
     Observable::create(move |s| {
+      let observables = Arc::new(RwLock::new(observables.clone()));
       let sctl = StreamController::new(s);
 
       fn complete_and_next<'a, Item>(
diff --git a/src/operators/default_if_empty.rs b/src/operators/default_if_empty.rs
index 936ef39..127dfd6 100644
--- a/src/operators/default_if_empty.rs
+++ b/src/operators/default_if_empty.rs
@@ -19,9 +19,9 @@ where
   }
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, Item> {
     let default = self.default.clone();
-    let emitted = Arc::new(RwLock::new(false));
 
     Observable::<Item>::create(move |s| {
+      let emitted = Arc::new(RwLock::new(false));
       let default_complete = default.clone();
 
       let emitted_next = Arc::clone(&emitted);
diff --git a/src/operators/tap.rs b/src/operators/tap.rs
index 81c13ed..4ead2c4 100644
--- a/src/operators/tap.rs
+++ b/src/operators/tap.rs
@@ -1,3 +1,4 @@
+use crate::internals::function_wrapper::FunctionWrapper;
 use crate::internals::stream_controller::*;
 use crate::prelude::*;
 
@@ -6,7 +7,9 @@ pub struct Tap<'a, Item>
 where
   Item: Clone + Send + Sync,
 {
-  tap_observer: Observer<'a, Item>,
+  next_f: FunctionWrapper<'a, Item, ()>,
+  error_f: FunctionWrapper<'a, RxError, ()>,
+  complete_f: FunctionWrapper<'a, (), ()>,
 }
 
 impl<'a, Item> Tap<'a, Item>
@@ -24,12 +27,16 @@ where
     Complete: Fn() + Send + Sync + 'a,
   {
     Tap {
-      tap_observer: Observer::new(next, error, complete),
+      next_f: FunctionWrapper::new(next),
+      error_f: FunctionWrapper::new(error),
+      complete_f: FunctionWrapper::new(move |_| complete()),
     }
   }
 
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, Item> {
-    let tap_observer = self.tap_observer.clone();
+    let next_f = self.next_f.clone();
+    let error_f = self.error_f.clone();
+    let complete_f = self.complete_f.clone();
     Observable::create(move |s| {
       let sctl = StreamController::new(s);
       let source_next = source.clone();
@@ -38,20 +45,20 @@ where
       let sctl_error = sctl.clone();
       let sctl_complete = sctl.clone();
 
-      let tap_observer_next = tap_observer.clone();
-      let tap_observer_error = tap_observer.clone();
-      let tap_observer_complete = tap_observer.clone();
+      let next_f = next_f.clone();
+      let error_f = error_f.clone();
+      let complete_f = complete_f.clone();
       source_next.inner_subscribe(sctl.new_observer(
         move |_, x: Item| {
-          tap_observer_next.next(x.clone());
+          next_f.call(x.clone());
           sctl_next.sink_next(x);
         },
         move |_, e| {
-          tap_observer_error.error(e.clone());
+          error_f.call(e.clone());
           sctl_error.sink_error(e);
         },
         move |serial| {
-          tap_observer_complete.complete();
+          complete_f.call(());
           sctl_complete.sink_complete(&serial)
         },
       ));
-- 
2.43.0


From 30848c7a930fa91f720f8ba45f898dcd2d4065be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:11 +0000
Subject: [PATCH 11/19] fix: sequence_equal tells sequences of different
 lengths apart

---
 src/operators/sequence_equal.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/operators/sequence_equal.rs b/src/operators/sequence_equal.rs
index 41716e2..3e876ab 100644
--- a/src/operators/sequence_equal.rs
+++ b/src/operators/sequence_equal.rs
@@ -6,7 +6,7 @@ pub struct SequenceEqual<'a, Item>
 where
   Item: Clone + Send + Sync,
 {
-  zip_op: operators::Zip<'a, Item>,
+  zip_op: operators::Zip<'a, Option<Item>>,
 }
 
 impl<'a, Item> SequenceEqual<'a, Item>
@@ -14,13 +14,18 @@ where
   Item: Clone + Send + Sync + PartialEq,
 {
   pub fn new(observables: &[Observable<'a, Item>]) -> SequenceEqual<'a, Item> {
-    SequenceEqual { zip_op: operators::Zip::new(observables) }
+    let observables = Vec::from_iter(observables.iter().map(Self::terminated));
+    SequenceEqual { zip_op: operators::Zip::new(&observables) }
+  }
+  /// A source followed by `None`, so that sequences of different lengths differ.
+  fn terminated(o: &Observable<'a, Item>) -> Observable<'a, Option<Item>> {
+    o.map(|x| Some(x)).concat(&[observables::just(None)])
   }
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, bool> {
     let zip_op = self.zip_op.clone();
 
     Observable::create(move |s| {
-      let source = source.clone();
+      let source = Self::terminated(&source);
 
       let sctl = StreamController::new(s);
 
@@ -29,7 +34,7 @@ where
       let sctl_complete = sctl.clone();
 
       zip_op.execute(source).inner_subscribe(sctl.new_observer(
-        move |serial, x: Vec<Item>| {
+        move |serial, x: Vec<Option<Item>>| {
           let check = x.get(0).unwrap();
           if !x.iter().all(|i| i == check) {
             sctl_next.upstream_abort_observe(&serial);
-- 
2.43.0


From b0671ece2801827328c3e56850099d0fbe485363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:11 +0000
Subject: [PATCH 12/19] fix: combine_latest combines the latest items

---
 src/operators/combine_latest.rs | 60 ++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 20 deletions(-)

diff --git a/src/operators/combine_latest.rs b/src/operators/combine_latest.rs
index 83b746a..4621828 100644
--- a/src/operators/combine_latest.rs
+++ b/src/operators/combine_latest.rs
@@ -1,6 +1,10 @@
 use crate::internals::function_wrapper::FunctionWrapper;
 use crate::internals::stream_controller::*;
 use crate::prelude::*;
+use std::{
+  collections::VecDeque,
+  sync::{Arc, RwLock},
+};
 
 #[derive(Clone)]
 pub struct CombineLatest<'a, Item, Out>
@@ -8,7 +12,7 @@ where
   Item: Clone + Send + Sync,
   Out: Clone + Send + Sync,
 {
-  zip_op: operators::Zip<'a, Item>,
+  observables: Vec<Observable<'a, Item>>,
   combine_f: FunctionWrapper<'a, Vec<Item>, Out>,
 }
 
@@ -25,35 +29,51 @@ where
     F: Fn(Vec<Item>) -> Out + Send + Sync + 'a,
   {
     CombineLatest {
-      zip_op: operators::Zip::new(observables),
+      observables: observables.to_vec(),
       combine_f: FunctionWrapper::new(f),
     }
   }
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, Out> {
-    let zip_op = self.zip_op.clone();
+    let observables = self.observables.clone();
     let combine_f = self.combine_f.clone();
 
     Observable::create(move |s| {
-      let source = source.clone();
-      let combine_f = combine_f.clone();
-
       let sctl = StreamController::new(s);
+      let count = observables.len() + 1;
+      let latest = Arc::new(RwLock::new(vec![None::<Item>; count]));
 
-      let sctl_next = sctl.clone();
-      let sctl_error = sctl.clone();
-      let sctl_complete = sctl.clone();
+      // prepare subscribers
+      let mut sbs =
+        VecDeque::from_iter((0..count).map(|id| {
+          let latest = Arc::clone(&latest);
+          let combine_f = combine_f.clone();
+          let sctl_next = sctl.clone();
+          let sctl_error = sctl.clone();
+          let sctl_complete = sctl.clone();
+          sctl.new_observer(
+            move |_, x| {
+              let items = {
+                let mut latest = latest.write().unwrap();
+                latest[id] = Some(x);
+                latest.iter().cloned().collect::<Option<Vec<Item>>>()
+              };
+              if let Some(items) = items {
+                sctl_next.sink_next(combine_f.call(items));
+              }
+            },
+            move |_, e| {
+              sctl_error.sink_error(e);
+            },
+            move |serial| {
+              sctl_complete.sink_complete(&serial);
+            },
+          )
+        }));
 
-      zip_op.execute(source).inner_subscribe(sctl.new_observer(
-        move |_, x| {
-          sctl_next.sink_next(combine_f.call(x));
-        },
-        move |_, e| {
-          sctl_error.sink_error(e);
-        },
-        move |serial| {
-          sctl_complete.sink_complete(&serial);
-        },
-      ));
+      source.inner_subscribe(sbs.pop_front().unwrap());
+      observables.iter().for_each(|o| {
+        o.inner_subscribe(sbs.pop_front().unwrap());
+      });
     })
   }
 }
-- 
2.43.0


From a54576296b24c6c68e1bf9ef56244781f1acd4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:11 +0000
Subject: [PATCH 13/19] fix: timeout stops its timer when the subscription ends

---
 src/operators/timeout.rs | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/operators/timeout.rs b/src/operators/timeout.rs
index 883a502..cbf01db 100644
--- a/src/operators/timeout.rs
+++ b/src/operators/timeout.rs
@@ -43,25 +43,30 @@ where
       let timer = Arc::new(RwLock::new(None::<Subscription<'a>>));
       let scheduler_ctor = scheduler_ctor.clone();
 
+      let stop_timer = {
+        let timer = Arc::clone(&timer);
+        move || {
+          let timer = timer.write().unwrap().take();
+          if let Some(timer) = timer {
+            timer.unsubscribe();
+          }
+        }
+      };
+      sctl.set_on_finalize(stop_timer.clone());
+
       let sctl_next = sctl.clone();
       let sctl_error = sctl.clone();
       let sctl_complete = sctl.clone();
       source.inner_subscribe(sctl.new_observer(
         move |_, x| {
-          {
-            let mut timer = timer.write().unwrap();
-            if let Some(timer) = &*timer {
-              timer.unsubscribe();
-            }
-            *timer = None;
-          }
+          stop_timer();
 
           sctl_next.sink_next(x);
 
-          {
+          if sctl_next.is_subscribed() {
             let sctl = sctl_next.clone();
             let scheduler_ctor = scheduler_ctor.clone();
-            *timer.write().unwrap() = Some(
+            let started =
               observables::interval(dur, move || scheduler_ctor.call(()))
                 .take(1)
                 .subscribe(
@@ -72,8 +77,14 @@ where
                   },
                   junk_error!(),
                   junk_complete!(),
-                ),
-            );
+                );
+            let replaced = timer.write().unwrap().replace(started);
+            if let Some(replaced) = replaced {
+              replaced.unsubscribe();
+            }
+            if !sctl_next.is_subscribed() {
+              stop_timer(); // ended in the meantime
+            }
           }
         },
         move |_, e| {
-- 
2.43.0


From c2a5476beaf13221942d3af9c2f76740f3a15d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:20 +0000
Subject: [PATCH 14/19] fix: unsubscribe returns only when the subscription has
 ended

---
 src/subscription.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/subscription.rs b/src/subscription.rs
index e9691ce..b8ce401 100644
--- a/src/subscription.rs
+++ b/src/subscription.rs
@@ -18,7 +18,9 @@ impl<'a> Subscription<'a> {
     }
   }
   pub fn unsubscribe(&self) {
-    self.fn_unsubscribe.call_and_clear_if_available(());
+    // cleared afterwards: another thread's call must not return before it is done
+    self.fn_unsubscribe.call_if_available(());
+    self.fn_unsubscribe.clear();
   }
   pub fn is_subscribed(&self) -> bool {
     if let Some(x) = self.fn_is_subscribed.call_if_available(()) {
-- 
2.43.0


From d2284b8df898ccc73b22c3d94c67fc8ecb09ba9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:18 +0000
Subject: [PATCH 15/19] fix: to_vec wakes its task without holding the waker's
 lock

---
 src/operators/to_vec.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/operators/to_vec.rs b/src/operators/to_vec.rs
index 1351ea0..1e53dd4 100644
--- a/src/operators/to_vec.rs
+++ b/src/operators/to_vec.rs
@@ -34,13 +34,15 @@ where
       move |e| {
         *err_error.write().unwrap() = Some(e);
         *done_error.write().unwrap() = true;
-        if let Some(w) = waker_error.read().unwrap().clone() {
+        let waker = waker_error.read().unwrap().clone();
+        if let Some(w) = waker {
           w.wake();
         }
       },
       move || {
         *done_complete.write().unwrap() = true;
-        if let Some(w) = waker_complete.read().unwrap().clone() {
+        let waker = waker_complete.read().unwrap().clone();
+        if let Some(w) = waker {
           w.wake();
         }
       },
-- 
2.43.0


From f86fdafc386c8aef1bff5e3c631d21ca3dea5602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:07 +0000
Subject: [PATCH 16/19] fix: time_interval holds no lock while it delivers

---
 src/operators/time_interval.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/operators/time_interval.rs b/src/operators/time_interval.rs
index 291c5ff..9b510e3 100644
--- a/src/operators/time_interval.rs
+++ b/src/operators/time_interval.rs
@@ -37,7 +37,8 @@ where
 
       source.inner_subscribe(sctl.new_observer(
         move |_, _| {
-          if let Some(start_time) = *start_time_next.read().unwrap() {
+          let start_time = *start_time_next.read().unwrap();
+          if let Some(start_time) = start_time {
             sctl_next.sink_next(start_time.elapsed());
           }
           *start_time_next.write().unwrap() = Some(Instant::now());
@@ -46,7 +47,8 @@ where
           sctl_error.sink_error(e);
         },
         move |serial| {
-          if let Some(start_time) = *start_time_complete.read().unwrap() {
+          let start_time = *start_time_complete.read().unwrap();
+          if let Some(start_time) = start_time {
             sctl_complete.sink_next(start_time.elapsed());
           }
           sctl_complete.sink_complete(&serial);
-- 
2.43.0


From a0558b93c761d8c3ecaad19b1888e0159c2daa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:19 +0000
Subject: [PATCH 17/19] fix: scan and reduce call their function without
 holding a lock

---
 src/operators/reduce.rs | 24 ++++++++++++++++--------
 src/operators/scan.rs   | 25 ++++++++++++++-----------
 2 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/src/operators/reduce.rs b/src/operators/reduce.rs
index 39d592f..796eea2 100644
--- a/src/operators/reduce.rs
+++ b/src/operators/reduce.rs
@@ -25,7 +25,7 @@ where
 
     Observable::<Item>::create(move |s| {
       let f = f.clone();
-      let result = Arc::new(RwLock::new(None::<Item>));
+      let result = Arc::new(RwLock::new((0, None::<Item>)));
 
       let sctl = StreamController::new(s);
       let sctl_error = sctl.clone();
@@ -34,19 +34,27 @@ where
       let result_next = Arc::clone(&result);
 
       source.inner_subscribe(sctl.new_observer(
-        move |_, x| {
-          let mut r = result_next.write().unwrap();
-          if let Some(xx) = &*r {
-            *r = Some(f.call((xx.clone(), x)));
-          } else {
-            *r = Some(x);
+        move |_, x: Item| {
+          // `f` may call back into the library: no lock is held during the call,
+          // and the step is done again if another item got in between.
+          loop {
+            let (step, last) = result_next.read().unwrap().clone();
+            let value = match last {
+              Some(last) => f.call((last, x.clone())),
+              None => x.clone(),
+            };
+            let mut r = result_next.write().unwrap();
+            if r.0 == step {
+              *r = (step + 1, Some(value));
+              break;
+            }
           }
         },
         move |_, e| {
           sctl_error.sink_error(e);
         },
         move |serial| {
-          let result = result.read().unwrap().clone();
+          let result = result.read().unwrap().1.clone();
           if let Some(x) = result {
             sctl_complete.sink_next(x);
           }
diff --git a/src/operators/scan.rs b/src/operators/scan.rs
index 06a6084..77a2eba 100644
--- a/src/operators/scan.rs
+++ b/src/operators/scan.rs
@@ -25,7 +25,7 @@ where
 
     Observable::<Item>::create(move |s| {
       let f = f.clone();
-      let result = Arc::new(RwLock::new(None::<Item>));
+      let result = Arc::new(RwLock::new((0, None::<Item>)));
 
       let sctl = StreamController::new(s);
       let sctl_next = sctl.clone();
@@ -35,19 +35,22 @@ where
       let result_next = Arc::clone(&result);
 
       source.inner_subscribe(sctl.new_observer(
-        move |_, x| {
-          let x = {
+        move |_, x: Item| {
+          // `f` may call back into the library: no lock is held during the call,
+          // and the step is done again if another item got in between.
+          let x = loop {
+            let (step, last) = result_next.read().unwrap().clone();
+            let value = match last {
+              Some(last) => f.call((last, x.clone())),
+              None => x.clone(),
+            };
             let mut r = result_next.write().unwrap();
-            if let Some(xx) = &*r {
-              *r = Some(f.call((xx.clone(), x)));
-            } else {
-              *r = Some(x);
+            if r.0 == step {
+              *r = (step + 1, Some(value.clone()));
+              break value;
             }
-            r.clone()
           };
-          if let Some(x) = x {
-            sctl_next.sink_next(x);
-          }
+          sctl_next.sink_next(x);
         },
         move |_, e| {
           sctl_error.sink_error(e);
-- 
2.43.0


From 9ea0e1cbaa42b3e77a7b10a95d56edac07e9f2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:19 +0000
Subject: [PATCH 18/19] fix: stopping a queue drops its tasks without holding
 the queue's lock

---
 src/schedulers/async_function_queue.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/schedulers/async_function_queue.rs b/src/schedulers/async_function_queue.rs
index 557d19d..0795a1e 100644
--- a/src/schedulers/async_function_queue.rs
+++ b/src/schedulers/async_function_queue.rs
@@ -65,9 +65,12 @@ impl<'a> AsyncFunctionQueue<'a> {
 
   pub fn stop(&self) {
     let mut que_mtx = self.data.queue.lock().unwrap();
-    que_mtx.clear();
+    // dropping a task may call back into this queue: not under its lock
+    let tasks = std::mem::take(&mut *que_mtx);
     *self.data.abort.write().unwrap() = true;
     self.data.cond.notify_one();
+    drop(que_mtx);
+    drop(tasks);
   }
 }
 
-- 
2.43.0


From 18fe005ba01c96f31de5ec0fa8f8a90902469a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:16 +0000
Subject: [PATCH 19/19] fix: ref_count and replay connect a newcomer that races
 with a disconnection

A subscriber arriving while the last one was leaving, or while the source was
terminating, found a connection that was about to be dropped and was neither
served by it nor told of its end. Connecting and disconnecting are now decided
in one place from whether the subject is observed.
---
 src/operators/ref_count.rs     | 113 +++++++++++++++++++------------
 src/operators/replay.rs        | 117 ++++++++++++++++++++-------------
 src/subjects/replay_subject.rs |  12 +++-
 src/subjects/subject.rs        |   4 ++
 4 files changed, 157 insertions(+), 89 deletions(-)

diff --git a/src/operators/ref_count.rs b/src/operators/ref_count.rs
index 36a6925..cb4bd66 100644
--- a/src/operators/ref_count.rs
+++ b/src/operators/ref_count.rs
@@ -9,7 +9,8 @@ where
 {
   subject: subjects::Subject<'a, Item>,
   source: Observable<'a, Item>,
-  connection: Arc<RwLock<Option<Observer<'a, Item>>>>,
+  /// the source's observer; whether it is being unsubscribed
+  connection: Arc<RwLock<(Option<Observer<'a, Item>>, bool)>>,
 }
 
 impl<'a, Item> RefCount<'a, Item>
@@ -20,7 +21,7 @@ where
     let _self = RefCount {
       subject: Subject::<Item>::new(),
       source,
-      connection: Arc::new(RwLock::new(None)),
+      connection: Arc::new(RwLock::new((None, false))),
     };
     _self.set_ref_count();
     _self
@@ -31,50 +32,78 @@ where
   }
 
   fn set_ref_count(&self) {
-    {
-      let connection = Arc::clone(&self.connection);
-      self.subject.set_on_unsubscribe(move |count| {
-        if count == 0 {
-          let connected = connection.write().unwrap().take();
-          if let Some(connected) = connected {
-            connected.unsubscribe();
-          }
-        }
-      });
+    let subscribed = self.without_hooks();
+    self
+      .subject
+      .set_on_subscribe(move |_| subscribed.settle(false));
+    let unsubscribed = self.without_hooks();
+    self
+      .subject
+      .set_on_unsubscribe(move |_| unsubscribed.settle(false));
+  }
+
+  /// The same, without owning the hooks (they own it).
+  fn without_hooks(&self) -> RefCount<'a, Item> {
+    RefCount {
+      subject: self.subject.without_hooks(),
+      source: self.source.clone(),
+      connection: Arc::clone(&self.connection),
     }
+  }
 
-    let source = self.source.clone();
-    let subject = self.subject.without_hooks();
-    let connection = Arc::clone(&self.connection);
-
-    self.subject.set_on_subscribe(move |count| {
-      if count == 1 {
-        // connect
-        let sbj_next = subject.clone();
-        let sbj_error = subject.clone();
-        let sbj_complete = subject.clone();
-
-        let observer = Observer::new(
-          move |x| {
-            sbj_next.next(x);
-          },
-          move |e| {
-            sbj_error.error(e);
-          },
-          move || {
-            sbj_complete.complete();
-          },
-        );
-        {
-          let mut connection = connection.write().unwrap();
-          if connection.is_some() {
-            return;
-          }
-          *connection = Some(observer.clone());
+  /// Connects if there are subscribers, disconnects if there are none: decided
+  /// under the lock, done without it.
+  fn settle(&self, ended: bool) {
+    let mut _over = None;
+    let mut connection = self.connection.write().unwrap();
+    if ended && connection.0.as_ref().map_or(false, |x| !x.is_subscribed()) {
+      _over = connection.0.take();
+    }
+    loop {
+      if connection.1 {
+        return; // whoever is disconnecting looks again
+      }
+      let observed = self.subject.is_observed();
+      if observed && connection.0.is_none() {
+        let observer = self.observer();
+        connection.0 = Some(observer.clone());
+        drop(connection);
+        self.source.inner_subscribe(observer);
+        return;
+      }
+      match connection.0.take() {
+        Some(observer) if !observed => {
+          connection.1 = true;
+          drop(connection);
+          observer.unsubscribe();
+          connection = self.connection.write().unwrap();
+          connection.1 = false;
+        }
+        connected => {
+          connection.0 = connected;
+          return;
         }
-        source.inner_subscribe(observer);
       }
-    });
+    }
+  }
+
+  fn observer(&self) -> Observer<'a, Item> {
+    let subject_next = self.subject.clone();
+    let self_error = self.clone();
+    let self_complete = self.clone();
+    Observer::new(
+      move |x| {
+        subject_next.next(x);
+      },
+      move |e| {
+        self_error.subject.error(e);
+        self_error.settle(true);
+      },
+      move || {
+        self_complete.subject.complete();
+        self_complete.settle(true);
+      },
+    )
   }
 }
 
diff --git a/src/operators/replay.rs b/src/operators/replay.rs
index e9d2041..8de583f 100644
--- a/src/operators/replay.rs
+++ b/src/operators/replay.rs
@@ -8,7 +8,8 @@ where
 {
   subject: subjects::ReplaySubject<'a, Item>,
   source: Observable<'a, Item>,
-  connection: Arc<RwLock<Option<Observer<'a, Item>>>>,
+  /// the source's observer; whether it is being unsubscribed
+  connection: Arc<RwLock<(Option<Observer<'a, Item>>, bool)>>,
 }
 
 impl<'a, Item> Replay<'a, Item>
@@ -19,7 +20,7 @@ where
     let _self = Replay {
       subject: subjects::ReplaySubject::new(),
       source,
-      connection: Arc::new(RwLock::new(None)),
+      connection: Arc::new(RwLock::new((None, false))),
     };
     _self.set_ref_count();
     _self
@@ -30,52 +31,80 @@ where
   }
 
   fn set_ref_count(&self) {
-    {
-      let connection = Arc::clone(&self.connection);
-      let subject = self.subject.without_hooks();
-      self.subject.set_on_unsubscribe(move |count| {
-        if count == 0 {
-          let connected = connection.write().unwrap().take();
-          if let Some(connected) = connected {
-            connected.unsubscribe();
-            subject.forget();
-          }
-        }
-      });
+    let subscribed = self.without_hooks();
+    self
+      .subject
+      .set_on_subscribe(move |_| subscribed.settle(false));
+    let unsubscribed = self.without_hooks();
+    self
+      .subject
+      .set_on_unsubscribe(move |_| unsubscribed.settle(false));
+  }
+
+  /// The same, without owning the hooks (they own it).
+  fn without_hooks(&self) -> Replay<'a, Item> {
+    Replay {
+      subject: self.subject.without_hooks(),
+      source: self.source.clone(),
+      connection: Arc::clone(&self.connection),
     }
+  }
 
-    let source = self.source.clone();
-    let subject = self.subject.without_hooks();
-    let connection = Arc::clone(&self.connection);
-
-    self.subject.set_on_subscribe(move |count| {
-      if count == 1 {
-        // connect
-        let sbj_next = subject.clone();
-        let sbj_error = subject.clone();
-        let sbj_complete = subject.clone();
-
-        let observer = Observer::new(
-          move |x| {
-            sbj_next.next(x);
-          },
-          move |e| {
-            sbj_error.error(e);
-          },
-          move || {
-            sbj_complete.complete();
-          },
-        );
-        {
-          let mut connection = connection.write().unwrap();
-          if connection.is_some() {
-            return;
-          }
-          *connection = Some(observer.clone());
+  /// Connects if there are subscribers, disconnects if there are none: decided
+  /// under the lock, done without it.
+  fn settle(&self, ended: bool) {
+    let mut _over = None;
+    let mut connection = self.connection.write().unwrap();
+    if ended && connection.0.as_ref().map_or(false, |x| !x.is_subscribed()) {
+      _over = connection.0.take();
+    }
+    loop {
+      if connection.1 {
+        return; // whoever is disconnecting looks again
+      }
+      let observed = self.subject.is_observed();
+      if observed && connection.0.is_none() && !self.subject.is_terminated() {
+        let observer = self.observer();
+        connection.0 = Some(observer.clone());
+        drop(connection);
+        self.source.inner_subscribe(observer);
+        return;
+      }
+      match connection.0.take() {
+        Some(observer) if !observed => {
+          let forgotten = self.subject.forget(); // nobody is there to miss it
+          connection.1 = true;
+          drop(connection);
+          observer.unsubscribe();
+          drop(forgotten);
+          connection = self.connection.write().unwrap();
+          connection.1 = false;
+        }
+        connected => {
+          connection.0 = connected;
+          return;
         }
-        source.inner_subscribe(observer);
       }
-    });
+    }
+  }
+
+  fn observer(&self) -> Observer<'a, Item> {
+    let subject_next = self.subject.clone();
+    let self_error = self.clone();
+    let self_complete = self.clone();
+    Observer::new(
+      move |x| {
+        subject_next.next(x);
+      },
+      move |e| {
+        self_error.subject.error(e);
+        self_error.settle(true);
+      },
+      move || {
+        self_complete.subject.complete();
+        self_complete.settle(true);
+      },
+    )
   }
 }
 
diff --git a/src/subjects/replay_subject.rs b/src/subjects/replay_subject.rs
index 7cd0e27..8eb7a94 100644
--- a/src/subjects/replay_subject.rs
+++ b/src/subjects/replay_subject.rs
@@ -31,10 +31,12 @@ where
   }
 
   /// Forgets the items of a source that is no longer subscribed.
-  pub(crate) fn forget(&self) {
+  pub(crate) fn forget(&self) -> Vec<Item> {
     let mut items = self.items.write().unwrap();
-    if !self.is_terminated() {
-      items.clear();
+    if self.is_terminated() {
+      Vec::new()
+    } else {
+      std::mem::take(&mut *items)
     }
   }
 
@@ -139,6 +141,10 @@ where
     })
   }
 
+  pub(crate) fn is_observed(&self) -> bool {
+    self.subject.is_observed()
+  }
+
   pub(crate) fn without_hooks(&self) -> ReplaySubject<'a, Item> {
     ReplaySubject {
       subject: Arc::new(self.subject.without_hooks()),
diff --git a/src/subjects/subject.rs b/src/subjects/subject.rs
index b1c3d13..561b689 100644
--- a/src/subjects/subject.rs
+++ b/src/subjects/subject.rs
@@ -96,6 +96,10 @@ where
     })
   }
 
+  pub(crate) fn is_observed(&self) -> bool {
+    !self.observers.read().unwrap().is_empty()
+  }
+
   /// The same subject, without owning the hooks (they may own the subject).
   pub(crate) fn without_hooks(&self) -> Subject<'a, Item> {
     Subject {
-- 
2.43.0

