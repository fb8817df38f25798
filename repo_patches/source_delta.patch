From ff5305b8ecf69eeced8a28aeeb79a95f0ec57f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:05 +0000
Subject: [PATCH 01/61] fix: ISet::are_all_set overflows its shift for structs
 with exactly 64 fields

---
 facet-reflect/src/wip/iset.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/facet-reflect/src/wip/iset.rs b/facet-reflect/src/wip/iset.rs
index e18feef..ee4aec3 100644
--- a/facet-reflect/src/wip/iset.rs
+++ b/facet-reflect/src/wip/iset.rs
@@ -46,7 +46,10 @@ impl ISet {
         if count > 64 {
             panic!("ISet can only track up to 64 fields. Count {count} is out of bounds.");
         }
-        let mask = (1 << count) - 1;
+        let mask = match count {
+            64 => u64::MAX,
+            _ => (1 << count) - 1,
+        };
         self.0 & mask == mask
     }
 
-- 
2.43.0


From 308faaa088ed1d209c259cb18e31057cbd5a9281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:05 +0000
Subject: [PATCH 02/61] fix: Wip double-frees, leaks or forgets values
 depending on the order of operations

Setting a place again, selecting another variant, leaving a field, element, key,
value or option half-way, dropping a Wip holding an enum, and failing operations
all left the bookkeeping of initialized values out of sync with memory. A field is
now marked as initialized in its parent exactly if all of it is; whatever is about
to be overwritten or abandoned is dropped first.
---
 facet-reflect/src/wip/enum_.rs |   13 +-
 facet-reflect/src/wip/mod.rs   | 1164 +++++++++-----------------------
 2 files changed, 342 insertions(+), 835 deletions(-)

diff --git a/facet-reflect/src/wip/enum_.rs b/facet-reflect/src/wip/enum_.rs
index e543bd2..b840943 100644
--- a/facet-reflect/src/wip/enum_.rs
+++ b/facet-reflect/src/wip/enum_.rs
@@ -3,7 +3,7 @@ use facet_core::{Def, FieldError, Variant};
 use owo_colors::OwoColorize;
 
 use crate::trace;
-use crate::{ISet, ReflectError, Wip};
+use crate::{ReflectError, Wip};
 
 impl Wip<'_> {
     /// Selects a variant of an enum by index.
@@ -17,7 +17,7 @@ impl Wip<'_> {
     /// * `Ok(Self)` if the variant was successfully selected.
     /// * `Err(ReflectError)` if the current frame is not an enum or the variant index is out of bounds.
     pub fn variant(mut self, index: usize) -> Result<Self, ReflectError> {
-        let frame = self.frames.last_mut().unwrap();
+        let frame = self.frame_to_init()?;
         let shape = frame.shape;
         let Def::Enum(def) = shape.def else {
             return Err(ReflectError::WasNotA {
@@ -35,8 +35,9 @@ impl Wip<'_> {
 
         let variant = def.variants[index];
 
-        // Reset the field initialization state since we're selecting a new variant
-        ISet::clear(&mut frame.istate.fields);
+        // Drop whatever was initialized so far since we're selecting a new variant
+        self.deinit_current();
+        let frame = self.frame_to_init()?;
 
         // Write the discriminant value based on the enum's representation
         let discriminant = variant.discriminant;
@@ -84,8 +85,8 @@ impl Wip<'_> {
     ///
     /// * `Ok(Self)` if the variant was successfully selected.
     /// * `Err(ReflectError)` if the current frame is not an enum or no variant with the given name exists.
-    pub fn variant_named(self, name: &str) -> Result<Self, ReflectError> {
-        let frame = self.frames.last().unwrap();
+    pub fn variant_named(mut self, name: &str) -> Result<Self, ReflectError> {
+        let frame = self.frame_to_init()?;
         let shape = frame.shape;
         let Def::Enum(def) = shape.def else {
             return Err(ReflectError::WasNotA {
diff --git a/facet-reflect/src/wip/mod.rs b/facet-reflect/src/wip/mod.rs
index 6b16ef1..1b0beb3 100644
--- a/facet-reflect/src/wip/mod.rs
+++ b/facet-reflect/src/wip/mod.rs
@@ -1,16 +1,13 @@
 use crate::{ReflectError, ValueId};
 use crate::{debug, trace};
 #[cfg(feature = "log")]
-use alloc::string::ToString;
-#[cfg(feature = "log")]
 use owo_colors::OwoColorize;
 
 use alloc::format;
-use alloc::{vec, vec::Vec};
 use bitflags::bitflags;
 use core::{fmt, marker::PhantomData};
 use facet_core::{
-    Def, DefaultInPlaceFn, Facet, FieldError, PtrConst, PtrMut, PtrUninit, Shape, Variant,
+    Def, DefaultInPlaceFn, Facet, Field, FieldError, PtrConst, PtrUninit, Shape, Variant,
 };
 use flat_map::FlatMap;
 
@@ -125,6 +122,10 @@ impl Frame {
 
     /// Returns true if the frame is fully initialized
     fn is_fully_initialized(&self) -> bool {
+        if self.istate.mode == FrameMode::OptionNone {
+            // stands for the `None` that was already written to the parent frame
+            return true;
+        }
         match self.shape.def {
             Def::Struct(sd) => self.istate.fields.are_all_set(sd.fields.len()),
             Def::Enum(_) => match self.istate.variant.as_ref() {
@@ -135,40 +136,71 @@ impl Frame {
         }
     }
 
-    // Safety: only call if is fully initialized
-    unsafe fn drop_and_dealloc_if_needed(mut self) {
-        trace!(
-            "[Frame::drop] Dropping frame for shape {} at {:p}",
-            self.shape.blue(),
-            self.data.as_byte_ptr()
-        );
-        if let Some(drop_in_place) = self.shape.vtable.drop_in_place {
-            unsafe {
-                trace!(
-                    "[Frame::drop] Invoking drop_in_place for shape {} at {:p}",
-                    self.shape.green(),
-                    self.data.as_byte_ptr()
-                );
-                drop_in_place(self.data.assume_init());
+    /// Returns the fields that can be initialized one by one in this frame
+    fn tracked_fields(&self) -> &'static [Field] {
+        match self.shape.def {
+            Def::Struct(sd) => sd.fields,
+            Def::Enum(_) => match &self.istate.variant {
+                Some(variant) => variant.data.fields,
+                None => &[],
+            },
+            _ => &[],
+        }
+    }
+
+    /// Drops whatever was initialized in this frame (including fields we left half-way, which
+    /// are tracked in `istates`), and marks it as uninitialized.
+    fn deinit(&mut self, istates: &mut FlatMap<ValueId, IState>) {
+        if self.istate.mode == FrameMode::OptionNone {
+            // this is an alias for the parent frame, it doesn't own anything
+            return;
+        }
+
+        if self.is_fully_initialized() {
+            if let Some(drop_in_place) = self.shape.vtable.drop_in_place {
+                unsafe {
+                    drop_in_place(self.data.assume_init());
+                }
             }
         } else {
-            trace!(
-                "[Frame::drop] No drop_in_place function for shape {}",
-                self.shape.blue(),
-            );
+            for (i, field) in self.tracked_fields().iter().enumerate() {
+                let shape = field.shape();
+                let data = unsafe { self.data.field_uninit_at(field.offset) };
+                if self.istate.fields.has(i) {
+                    if let Some(drop_in_place) = shape.vtable.drop_in_place {
+                        unsafe {
+                            drop_in_place(data.assume_init());
+                        }
+                    }
+                } else {
+                    let id = ValueId::new(shape, data.as_byte_ptr());
+                    if let Some(istate) = istates.remove(&id) {
+                        Frame::recompose(id, istate).deinit(istates);
+                    }
+                }
+            }
         }
-        self.dealloc_if_needed();
+
+        self.istate.variant = None;
+        ISet::clear(&mut self.istate.fields);
     }
 
     /// Marks the frame as fully initialized
+    ///
+    /// Safety: the frame's data must hold a valid value of the frame's shape
     unsafe fn mark_fully_initialized(&mut self) {
         match self.shape.def {
             Def::Struct(sd) => {
                 self.istate.fields = ISet::all(sd.fields);
             }
             Def::Enum(_) => {
-                if let Some(variant) = &self.istate.variant {
+                let peek = unsafe {
+                    crate::Peek::unchecked_new(PtrConst::new(self.data.as_byte_ptr()), self.shape)
+                };
+                if let Ok(peek) = peek.into_enum() {
+                    let variant = *peek.active_variant();
                     self.istate.fields = ISet::all(variant.data.fields);
+                    self.istate.variant = Some(variant);
                 }
             }
             _ => {
@@ -187,6 +219,7 @@ struct IState {
     fields: ISet,
 
     /// The depth of the frame in the stack
+    #[allow(dead_code)]
     depth: usize,
 
     /// The special mode of this frame (if any)
@@ -212,11 +245,6 @@ bitflags! {
 
         /// We allocated this frame on the heap, we need to deallocated it when popping
         const ALLOCATED = 1 << 0;
-
-        /// This value was moved out of — it's not part of the value we're building and
-        /// we shouldn't error out when we build and we notice it's not initialized.
-        /// In fact, it should not be tracked at all.
-        const MOVED = 1 << 1;
     }
 
     // Note: there is no 'initialized' flag because initialization can be partial — it's tracked via `ISet`
@@ -279,6 +307,9 @@ pub struct Wip<'a> {
     /// stack of frames to keep track of deeply nested initialization
     frames: alloc::vec::Vec<Frame>,
 
+    /// the root frame, once it was popped off the stack
+    root: Option<Frame>,
+
     /// keeps track of initialization of out-of-tree frames
     istates: FlatMap<ValueId, IState>,
 
@@ -310,6 +341,7 @@ impl<'a> Wip<'a> {
                 field_index_in_parent: None,
                 istate: IState::new(0, FrameMode::Root, FrameFlags::ALLOCATED),
             }],
+            root: None,
             istates: Default::default(),
             phantom: PhantomData,
         }
@@ -320,30 +352,72 @@ impl<'a> Wip<'a> {
         Self::alloc_shape(S::SHAPE)
     }
 
-    fn track(&mut self, frame: Frame) {
-        // fields might be partially initialized (in-place) and then
-        // we might come back to them, so because they're popped off
-        // the stack, we still need to track them _somewhere_
-        //
-        // the root also relies on being tracked in the drop impl
-        if !frame.istate.flags.contains(FrameFlags::MOVED) {
-            self.istates.insert(frame.id(), frame.istate);
+    /// Leaves a field frame: if it's fully initialized, its parent remembers that. Otherwise we
+    /// might come back to it, so we need to remember what was initialized so far.
+    fn leave_field(&mut self, mut frame: Frame) {
+        let init = frame.is_fully_initialized();
+        if let (Some(parent), Some(index)) = (self.frames.last_mut(), frame.field_index_in_parent) {
+            if init {
+                parent.istate.fields.set(index);
+            } else {
+                parent.istate.fields.unset(index);
+            }
+        }
+        if !init {
+            if frame.shape.layout.size() == 0 {
+                // several zero-sized fields can live at the same address, so there's
+                // no way to tell them apart when coming back to them
+                frame.deinit(&mut self.istates);
+            } else {
+                self.istates.insert(frame.id(), frame.istate);
+            }
         }
     }
 
-    unsafe fn mark_moved_out_of(&mut self, frame: &mut Frame) {
-        frame.dealloc_if_needed();
-        ISet::clear(&mut frame.istate.fields);
-        frame.istate.variant = None;
-        frame.istate.flags.insert(FrameFlags::MOVED);
-        // make sure this isn't tracked here anymore — we don't want to have
-        // any metadata associated with it that gets restored by mistake
-        self.istates.remove(&frame.id());
+    /// Returns the current frame, provided that its value can be (re-)initialized
+    fn frame_to_init(&mut self) -> Result<&mut Frame, ReflectError> {
+        match self.frames.last_mut() {
+            Some(frame) if frame.istate.mode == FrameMode::OptionNone => {
+                Err(ReflectError::OperationFailed {
+                    shape: frame.shape,
+                    operation: "tried to initialize the value of an option that was set to None",
+                })
+            }
+            Some(frame) => Ok(frame),
+            None => Err(ReflectError::OperationFailed {
+                shape: <()>::SHAPE,
+                operation: "tried to initialize a value but there was no frame",
+            }),
+        }
+    }
+
+    /// Drops whatever the current frame holds so far, so that it can be initialized anew
+    fn deinit_current(&mut self) {
+        if let Some(frame) = self.frames.last_mut() {
+            frame.deinit(&mut self.istates);
+        }
+    }
+
+    /// Initializes the current frame (dropping what it held so far) with `default_in_place`
+    fn init_current_with(&mut self, default_in_place: DefaultInPlaceFn) {
+        self.deinit_current();
+        if let Some(frame) = self.frames.last_mut() {
+            unsafe {
+                default_in_place(frame.data);
+                frame.mark_fully_initialized();
+            }
+        }
+    }
+
+    /// Returns the current frame, or the root frame if it was popped already
+    fn current_or_root(&self) -> &Frame {
+        let frame = self.frames.last().or(self.root.as_ref());
+        frame.expect("the root frame is either on the stack, or popped")
     }
 
     /// Returns the shape of the current frame
     pub fn shape(&self) -> &'static Shape {
-        self.frames.last().unwrap().shape
+        self.current_or_root().shape
     }
 
     /// Return true if the last frame is in option mode
@@ -356,208 +430,58 @@ impl<'a> Wip<'a> {
 
     /// Returns the mode of the current frame
     pub fn mode(&self) -> FrameMode {
-        self.frames.last().unwrap().istate.mode
+        self.current_or_root().istate.mode
     }
 
     /// Asserts everything is initialized and that invariants are upheld (if any)
     pub fn build(mut self) -> Result<HeapValue<'a>, ReflectError> {
         debug!("[{}] ⚒️ It's BUILD time", self.frames.len());
 
-        // 1. Track all frames currently on the stack into istates
-        while let Some(frame) = self.pop_inner() {
-            self.track(frame);
+        // 1. Pop all frames currently on the stack, the last one being the root frame
+        while !self.frames.is_empty() {
+            self.pop_inner()?;
         }
 
-        // 2. Find the root frame
-        let Some((root_id, _)) = self.istates.iter().find(|(_k, istate)| istate.depth == 0) else {
+        let Some(root_frame) = &self.root else {
             debug!("No root found, possibly already built or empty WIP");
             return Err(ReflectError::OperationFailed {
                 shape: <()>::SHAPE,
                 operation: "tried to build a value but there was no root frame tracked",
             });
         };
-
-        let root_id = *root_id;
-        // We need to *keep* the root istate for the check, so we clone it or get it immutably.
-        // Let's retrieve it immutably first. The `istates` map will be dropped with `Wip` anyway.
-        let root_istate = self
-            .istates
-            .remove(&root_id)
-            .expect("Root ID found but not present in istates, this is a bug"); // Clone needed to avoid borrowing issues later potentially
-
-        let root_frame = Frame::recompose(root_id, root_istate);
         let root_shape = root_frame.shape;
         let root_data_ptr = root_frame.data; // Keep the root pointer for the final HeapValue
 
-        // 6. Transfer ownership of the root data to the HeapValue
-        // The root frame should have had the ALLOCATED flag if it was heap allocated.
-        // We need to ensure the Guard takes ownership correctly.
-        // Find the original root istate again to check the flag.
-        let guard = Guard {
-            ptr: root_data_ptr.as_mut_byte_ptr(),
-            layout: root_shape.layout,
-        };
-
-        // 3. Initialize `to_check`
-        let mut to_check = alloc::vec![root_frame];
-
-        // 4. Traverse the tree
-        while let Some(frame) = to_check.pop() {
-            trace!(
-                "Checking frame: shape={} at {:p}, flags={:?}, mode={:?}",
-                frame.shape.blue(),
-                frame.data.as_byte_ptr(),
-                frame.istate.flags.bright_magenta(),
-                frame.istate.mode,
-            );
-
-            // Skip moved frames
-            if frame.istate.flags.contains(FrameFlags::MOVED) {
-                trace!(
-                    "{}",
-                    "Frame was moved out of, skipping initialization check".yellow()
-                );
-                continue;
-            }
-
-            // Check initialization for the current frame
-            match frame.shape.def {
-                Def::Struct(sd) => {
-                    if !frame.is_fully_initialized() {
-                        // find the field that's not initialized
-                        for i in 0..sd.fields.len() {
-                            if !frame.istate.fields.has(i) {
-                                let field = &sd.fields[i];
-                                return Err(ReflectError::UninitializedField {
-                                    shape: frame.shape,
-                                    field_name: field.name,
-                                });
-                            }
-                        }
-                        // Should be unreachable
-                        unreachable!(
-                            "Enum variant not fully initialized but couldn't find which field"
-                        );
-                    }
-
-                    // If initialized, push children to check stack
-                    #[allow(clippy::unused_enumerate_index)]
-                    for (_i, field) in sd.fields.iter().enumerate() {
-                        let field_shape = field.shape();
-                        let field_ptr = unsafe { frame.data.field_init_at(field.offset) };
-                        let field_id = ValueId::new(field_shape, field_ptr.as_byte_ptr());
-
-                        if let Some(field_istate) = self.istates.remove(&field_id) {
-                            debug!(
-                                "Queueing struct field check: #{} '{}' of {}: shape={}, ptr={:p}",
-                                _i.to_string().bright_cyan(),
-                                field.name.bright_blue(),
-                                frame.shape.blue(),
-                                field_shape.green(),
-                                field_ptr.as_byte_ptr()
-                            );
-                            let field_frame = Frame::recompose(field_id, field_istate);
-                            to_check.push(field_frame);
+        // 2. Check that it's initialized. A field is only marked as such in its parent if all of
+        // it is initialized, so there's no need to go any deeper. If we return an error, the
+        // Drop impl takes care of whatever was initialized.
+        if !root_frame.is_fully_initialized() {
+            let missing = root_frame
+                .tracked_fields()
+                .iter()
+                .enumerate()
+                .find(|(i, _)| !root_frame.istate.fields.has(*i))
+                .map(|(_, field)| field.name);
+            return Err(
+                match (root_shape.def, &root_frame.istate.variant, missing) {
+                    (Def::Enum(_), Some(variant), Some(field_name)) => {
+                        ReflectError::UninitializedEnumField {
+                            shape: root_shape,
+                            variant_name: variant.name,
+                            field_name,
                         }
                     }
-                }
-                Def::Enum(_ed) => {
-                    if let Some(variant) = &frame.istate.variant {
-                        if !frame.istate.fields.are_all_set(variant.data.fields.len()) {
-                            // Find the uninitialized field
-                            for (i, field) in variant.data.fields.iter().enumerate() {
-                                if !frame.istate.fields.has(i) {
-                                    return Err(ReflectError::UninitializedEnumField {
-                                        shape: frame.shape,
-                                        variant_name: variant.name,
-                                        field_name: field.name,
-                                    });
-                                }
-                            }
-                            // Should be unreachable
-                            unreachable!(
-                                "Enum variant not fully initialized but couldn't find which field"
-                            );
-                        }
-
-                        // If initialized, push children to check stack
-                        #[allow(clippy::unused_enumerate_index)]
-                        for (_i, field) in variant.data.fields.iter().enumerate() {
-                            let field_shape = field.shape();
-                            // Enum fields are potentially at different offsets depending on the variant layout.
-                            // We assume the `frame.data` points to the start of the enum's data payload
-                            // (after the discriminant if applicable and handled by layout).
-                            let field_ptr = unsafe { frame.data.field_init_at(field.offset) };
-                            let field_id = ValueId::new(field_shape, field_ptr.as_byte_ptr());
-
-                            if let Some(field_istate) = self.istates.remove(&field_id) {
-                                debug!(
-                                    "Queueing enum field check: #{} '{}' of variant '{}' of {}: shape={}, ptr={:p}",
-                                    _i.to_string().bright_cyan(),
-                                    field.name.bright_blue(),
-                                    variant.name.yellow(),
-                                    frame.shape.blue(),
-                                    field_shape.green(),
-                                    field_ptr.as_byte_ptr()
-                                );
-                                let field_frame = Frame::recompose(field_id, field_istate);
-                                to_check.push(field_frame);
-                            }
-                        }
-                    } else {
-                        // No variant selected is an error during build
-                        return Err(ReflectError::NoVariantSelected { shape: frame.shape });
-                    }
-                }
-                // For types that manage their own contents (List, Map, Option, Scalar, etc.),
-                // we just need to check if the *container* itself is marked as initialized.
-                // The recursive check handles struct/enum *elements* within these containers if they exist.
-                Def::List(_)
-                | Def::Map(_)
-                | Def::Option(_)
-                | Def::Scalar(_)
-                | Def::SmartPointer(_)
-                | Def::Array(_)
-                | Def::Slice(_) => {
-                    if !frame.istate.fields.are_all_set(1) {
-                        // Check specific modes for better errors
-                        match frame.istate.mode {
-                            FrameMode::OptionNone => {
-                                // This should technically be marked initialized, but if not, treat as uninit Option
-                                return Err(ReflectError::UninitializedValue {
-                                    shape: frame.shape,
-                                });
-                            }
-                            // Add more specific checks if needed, e.g., for lists/maps that started but weren't finished?
-                            _ => {
-                                return Err(ReflectError::UninitializedValue {
-                                    shape: frame.shape,
-                                });
-                            }
-                        }
-                    }
-                    // No children to push onto `to_check` from the perspective of the *container* frame itself.
-                    // If a List contains Structs, those struct frames would have been pushed/popped
-                    // and their states tracked individually in `istates`, and checked when encountered via
-                    // `to_check` if they were fields of another struct/enum.
-                    // The `Drop` logic handles cleaning these contained items based on the container's drop_in_place.
-                    // For `build`, we trust that if the container is marked initialized, its contents are valid
-                    // according to its type's rules.
-                }
-                // Handle other Def variants if necessary
-                _ => {
-                    // Default: Check if initialized using the standard method
-                    if !frame.istate.fields.are_all_set(1) {
-                        return Err(ReflectError::UninitializedValue { shape: frame.shape });
-                    }
-                }
-            }
+                    (Def::Enum(_), _, _) => ReflectError::NoVariantSelected { shape: root_shape },
+                    (_, _, Some(field_name)) => ReflectError::UninitializedField {
+                        shape: root_shape,
+                        field_name,
+                    },
+                    _ => ReflectError::UninitializedValue { shape: root_shape },
+                },
+            );
         }
 
-        // If we finished the loop, all reachable and non-moved frames are initialized.
-        debug!("All reachable frames checked and initialized.");
-
-        // 5. Check invariants on the root
+        // 3. Check invariants on the root
         let data = unsafe { root_data_ptr.assume_init() };
         if let Some(invariant_fn) = root_shape.vtable.invariants {
             debug!(
@@ -577,10 +501,15 @@ impl<'a> Wip<'a> {
             );
         }
 
-        FlatMap::clear(&mut self.istates); // Prevent Drop from running on the successfully built value.
+        // 4. Transfer ownership of the root data to the HeapValue: without a root frame, our
+        // Drop impl has nothing left to do.
+        self.root = None;
 
         Ok(HeapValue {
-            guard: Some(guard),
+            guard: Some(Guard {
+                ptr: root_data_ptr.as_mut_byte_ptr(),
+                layout: root_shape.layout,
+            }),
             shape: root_shape,
             phantom: PhantomData,
         })
@@ -598,7 +527,7 @@ impl<'a> Wip<'a> {
     /// * `Err(ReflectError)` if the current frame is not a struct or an enum with a selected variant,
     ///   or if the field doesn't exist.
     pub fn field(mut self, index: usize) -> Result<Self, ReflectError> {
-        let frame = self.frames.last_mut().unwrap();
+        let frame = self.frame_to_init()?;
         let shape = frame.shape;
 
         let (field, field_offset) = match shape.def {
@@ -639,6 +568,7 @@ impl<'a> Wip<'a> {
         };
 
         let field_data = unsafe { frame.data.field_uninit_at(field_offset) };
+        let already_init = frame.istate.fields.has(index);
 
         let mut frame = Frame {
             data: field_data,
@@ -666,6 +596,9 @@ impl<'a> Wip<'a> {
                 iset.depth
             );
             frame.istate = iset;
+        } else if already_init {
+            // that field was fully initialized (maybe along with its parent)
+            unsafe { frame.mark_fully_initialized() };
         } else {
             trace!(
                 "[{}] no saved state for field {} ({}#{}) of {}",
@@ -716,7 +649,12 @@ impl<'a> Wip<'a> {
     /// * `Err(ReflectError)` if the current frame is not a struct or an enum with a selected variant,
     ///   or if the field doesn't exist.
     pub fn field_named(self, name: &str) -> Result<Self, ReflectError> {
-        let frame = self.frames.last().unwrap();
+        let Some(frame) = self.frames.last() else {
+            return Err(ReflectError::OperationFailed {
+                shape: <()>::SHAPE,
+                operation: "tried to access a field by name but there was no frame",
+            });
+        };
         let shape = frame.shape;
 
         // For enums, ensure a variant is selected
@@ -752,9 +690,13 @@ impl<'a> Wip<'a> {
         'a: 'val,
     {
         let shape = T::SHAPE;
-        let ptr_const = PtrConst::new(&t as *const T as *const u8);
+        let mut t = core::mem::ManuallyDrop::new(t); // avoid double drop
+        let ptr_const = PtrConst::new(&raw const t as *const u8);
         let res = self.put_shape(ptr_const, shape);
-        core::mem::forget(t); // avoid double drop; ownership moved into Wip
+        if res.is_err() {
+            // ownership was _not_ moved into Wip
+            unsafe { core::mem::ManuallyDrop::drop(&mut t) };
+        }
         res
     }
 
@@ -774,12 +716,7 @@ impl<'a> Wip<'a> {
     where
         'a: 'val,
     {
-        let Some(frame) = self.frames.last_mut() else {
-            return Err(ReflectError::OperationFailed {
-                shape: src_shape,
-                operation: "tried to put a value but there was no frame to put into",
-            });
-        };
+        let frame = self.frame_to_init()?;
 
         // Check that the type matches
         if frame.shape != src_shape {
@@ -789,25 +726,14 @@ impl<'a> Wip<'a> {
                 // Check if inner type matches
                 if od.t() == src_shape {
                     debug!("Putting into an Option<T>!");
-                    if frame.istate.fields.is_any_set() {
-                        let data = unsafe { frame.data.assume_init() };
-                        unsafe { (od.vtable.replace_with_fn)(data, Some(src)) };
-                    } else {
-                        let data = frame.data;
-                        unsafe { (od.vtable.init_some_fn)(data, src) };
-                    }
-                    unsafe {
-                        frame.mark_fully_initialized();
+                    let data = frame.data;
+                    self.deinit_current();
+                    if let Some(frame) = self.frames.last_mut() {
+                        unsafe {
+                            (od.vtable.init_some_fn)(data, src);
+                            frame.mark_fully_initialized();
+                        }
                     }
-
-                    let shape = frame.shape;
-                    let index = frame.field_index_in_parent;
-
-                    // mark the field as initialized
-                    self.mark_field_as_initialized(shape, index)?;
-
-                    debug!("[{}] Just put a {} value", self.frames.len(), shape.green());
-
                     return Ok(self);
                 }
             }
@@ -818,95 +744,41 @@ impl<'a> Wip<'a> {
             });
         }
 
-        // de-initialize partially initialized fields, if any
-        if frame.istate.variant.is_some() || frame.istate.fields.is_any_set() {
-            debug!(
-                "De-initializing partially initialized fields for {}",
-                frame.shape
-            );
+        // drop whatever was there before, if anything
+        self.deinit_current();
 
-            match frame.shape.def {
-                Def::Struct(sd) => {
-                    for (i, field) in sd.fields.iter().enumerate() {
-                        if frame.istate.fields.has(i) {
-                            if let Some(drop_fn) = field.shape().vtable.drop_in_place {
-                                unsafe {
-                                    let field_ptr = frame.data.as_mut_byte_ptr().add(field.offset);
-                                    drop_fn(PtrMut::new(field_ptr));
-                                }
-                            }
-                        }
-                    }
-                }
-                Def::Enum(_) => {
-                    if let Some(variant) = &frame.istate.variant {
-                        for (i, field) in variant.data.fields.iter().enumerate() {
-                            if frame.istate.fields.has(i) {
-                                if let Some(drop_fn) = field.shape().vtable.drop_in_place {
-                                    unsafe {
-                                        let field_ptr =
-                                            frame.data.as_mut_byte_ptr().add(field.offset);
-                                        drop_fn(PtrMut::new(field_ptr));
-                                    }
-                                }
-                            }
-                        }
-                    }
-                }
-                _ => {
-                    // For scalar types, nothing to do if not fully initialized
-                }
+        if let Some(frame) = self.frames.last_mut() {
+            unsafe {
+                // Copy the contents from src to destination
+                frame.data.copy_from(src, frame.shape);
+                frame.mark_fully_initialized();
             }
-
-            // Reset initialization state
-            frame.istate.variant = None;
-            ISet::clear(&mut frame.istate.fields);
-        }
-
-        unsafe {
-            // Copy the contents from src to destination
-            frame.data.copy_from(src, frame.shape);
-            frame.mark_fully_initialized();
+            debug!("Just put a {} value", frame.shape.green());
         }
 
-        let shape = frame.shape;
-        let index = frame.field_index_in_parent;
-
-        // mark the field as initialized
-        self.mark_field_as_initialized(shape, index)?;
-
-        debug!("[{}] Just put a {} value", self.frames.len(), shape.green());
-
         Ok(self)
     }
 
     /// Tries to parse the current frame's value from a string
     pub fn parse(mut self, s: &str) -> Result<Self, ReflectError> {
-        let Some(frame) = self.frames.last_mut() else {
-            return Err(ReflectError::OperationFailed {
-                shape: <()>::SHAPE,
-                operation: "tried to parse value but there was no frame",
-            });
-        };
-
-        let shape = frame.shape;
-        let index = frame.field_index_in_parent;
+        let shape = self.frame_to_init()?.shape;
 
-        let Some(parse_fn) = frame.shape.vtable.parse else {
+        let Some(parse_fn) = shape.vtable.parse else {
             return Err(ReflectError::OperationFailed {
-                shape: frame.shape,
+                shape,
                 operation: "type does not implement Parse",
             });
         };
+
+        // drop whatever was there before, if anything
+        self.deinit_current();
+
+        let frame = self.frame_to_init()?;
         match unsafe { (parse_fn)(s, frame.data) } {
             Ok(_res) => {
                 unsafe {
                     frame.mark_fully_initialized();
                 }
-
-                // mark the field as initialized
-                self.mark_field_as_initialized(shape, index)?;
-
                 Ok(self)
             }
             Err(_) => Err(ReflectError::OperationFailed {
@@ -918,24 +790,8 @@ impl<'a> Wip<'a> {
 
     /// Puts a value using a provided DefaultInPlaceFn in the current frame.
     pub fn put_from_fn(mut self, default_in_place: DefaultInPlaceFn) -> Result<Self, ReflectError> {
-        let Some(frame) = self.frames.last_mut() else {
-            return Err(ReflectError::OperationFailed {
-                shape: <()>::SHAPE,
-                operation: "tried to put value from fn but there was no frame",
-            });
-        };
-
-        unsafe {
-            default_in_place(frame.data);
-            frame.mark_fully_initialized();
-        }
-
-        let shape = frame.shape;
-        let index = frame.field_index_in_parent;
-
-        // mark the field as initialized
-        self.mark_field_as_initialized(shape, index)?;
-
+        self.frame_to_init()?;
+        self.init_current_with(default_in_place);
         Ok(self)
     }
 
@@ -959,54 +815,14 @@ impl<'a> Wip<'a> {
         self.put_from_fn(default_in_place)
     }
 
-    /// Marks a field as initialized in the parent frame.
-    fn mark_field_as_initialized(
-        &mut self,
-        shape: &'static Shape,
-        index: Option<usize>,
-    ) -> Result<(), ReflectError> {
-        if let Some(index) = index {
-            let parent_index = self.frames.len().saturating_sub(2);
-            #[cfg(feature = "log")]
-            let num_frames = self.frames.len();
-            let Some(parent) = self.frames.get_mut(parent_index) else {
-                return Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "was supposed to mark a field as initialized, but there was no parent frame",
-                });
-            };
-            #[cfg(feature = "log")]
-            let parent_shape = parent.shape;
-            trace!(
-                "[{}] {}.{} initialized with {}",
-                num_frames,
-                parent_shape.blue(),
-                index.yellow(),
-                shape.green()
-            );
-
-            if matches!(parent.shape.def, Def::Enum(_)) && parent.istate.variant.is_none() {
-                return Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "was supposed to mark a field as initialized, but the parent frame was an enum and didn't have a variant chosen",
-                });
-            }
-
-            if parent.istate.fields.has(index) {
-                return Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "was supposed to mark a field as initialized, but the parent frame already had it marked as initialized",
-                });
-            }
-
-            parent.istate.fields.set(index);
-        }
-        Ok(())
-    }
-
     /// Returns the shape of the element type for a list/array
     pub fn element_shape(&self) -> Result<&'static Shape, ReflectError> {
-        let frame = self.frames.last().unwrap();
+        let Some(frame) = self.frames.last() else {
+            return Err(ReflectError::OperationFailed {
+                shape: <()>::SHAPE,
+                operation: "tried to get the element shape but there was no frame",
+            });
+        };
         let shape = frame.shape;
 
         match shape.def {
@@ -1020,7 +836,12 @@ impl<'a> Wip<'a> {
 
     /// Returns the shape of the key type for a map
     pub fn key_shape(&self) -> Result<&'static Shape, ReflectError> {
-        let frame = self.frames.last().unwrap();
+        let Some(frame) = self.frames.last() else {
+            return Err(ReflectError::OperationFailed {
+                shape: <()>::SHAPE,
+                operation: "tried to get the key shape but there was no frame",
+            });
+        };
         let shape = frame.shape;
 
         match shape.def {
@@ -1034,12 +855,7 @@ impl<'a> Wip<'a> {
 
     /// Creates an empty list without pushing any elements
     pub fn put_empty_list(mut self) -> Result<Self, ReflectError> {
-        let Some(frame) = self.frames.last_mut() else {
-            return Err(ReflectError::OperationFailed {
-                shape: <()>::SHAPE,
-                operation: "tried to create empty list but there was no frame",
-            });
-        };
+        let frame = self.frame_to_init()?;
 
         if !matches!(frame.shape.def, Def::List(_)) {
             return Err(ReflectError::WasNotA {
@@ -1058,28 +874,14 @@ impl<'a> Wip<'a> {
             });
         };
 
-        unsafe {
-            default_in_place(frame.data);
-            frame.mark_fully_initialized();
-        }
-
-        let shape = frame.shape;
-        let index = frame.field_index_in_parent;
-
-        // Mark the field as initialized
-        self.mark_field_as_initialized(shape, index)?;
+        self.init_current_with(default_in_place);
 
         Ok(self)
     }
 
     /// Creates an empty map without pushing any entries
     pub fn put_empty_map(mut self) -> Result<Self, ReflectError> {
-        let Some(frame) = self.frames.last_mut() else {
-            return Err(ReflectError::OperationFailed {
-                shape: <()>::SHAPE,
-                operation: "tried to create empty map but there was no frame",
-            });
-        };
+        let frame = self.frame_to_init()?;
 
         if !matches!(frame.shape.def, Def::Map(_)) {
             return Err(ReflectError::WasNotA {
@@ -1098,28 +900,14 @@ impl<'a> Wip<'a> {
             });
         };
 
-        unsafe {
-            default_in_place(frame.data);
-            frame.mark_fully_initialized();
-        }
-
-        let shape = frame.shape;
-        let index = frame.field_index_in_parent;
-
-        // Mark the field as initialized
-        self.mark_field_as_initialized(shape, index)?;
+        self.init_current_with(default_in_place);
 
         Ok(self)
     }
 
     /// Begins pushback mode for a list/array, allowing elements to be added one by one
     pub fn begin_pushback(mut self) -> Result<Self, ReflectError> {
-        let Some(frame) = self.frames.last_mut() else {
-            return Err(ReflectError::OperationFailed {
-                shape: <()>::SHAPE,
-                operation: "tried to begin pushback but there was no frame",
-            });
-        };
+        let frame = self.frame_to_init()?;
 
         if !matches!(frame.shape.def, Def::List(_)) {
             return Err(ReflectError::WasNotA {
@@ -1150,12 +938,7 @@ impl<'a> Wip<'a> {
 
     /// Begins insertion mode for a map, allowing key-value pairs to be added one by one
     pub fn begin_map_insert(mut self) -> Result<Self, ReflectError> {
-        let Some(frame) = self.frames.last_mut() else {
-            return Err(ReflectError::OperationFailed {
-                shape: <()>::SHAPE,
-                operation: "tried to begin map insertion but there was no frame",
-            });
-        };
+        let frame = self.frame_to_init()?;
 
         if !matches!(frame.shape.def, Def::Map(_)) {
             return Err(ReflectError::WasNotA {
@@ -1190,7 +973,7 @@ impl<'a> Wip<'a> {
     /// the element will be added to the list.
     pub fn push(mut self) -> Result<Self, ReflectError> {
         // Make sure we're initializing a list
-        let frame = self.frames.last().unwrap();
+        let frame = self.frame_to_init()?;
         let list_shape = frame.shape;
 
         if !matches!(list_shape.def, Def::List(_)) {
@@ -1237,7 +1020,7 @@ impl<'a> Wip<'a> {
     /// Prepare to push the `Some(T)` variant of an `Option<T>`.
     pub fn push_some(mut self) -> Result<Self, ReflectError> {
         // Make sure we're initializing an option
-        let frame = self.frames.last().unwrap();
+        let frame = self.frame_to_init()?;
         let option_shape = frame.shape;
 
         // Get the option definition
@@ -1312,6 +1095,8 @@ impl<'a> Wip<'a> {
             });
         }
 
+        // 2. Drop what was initialized so far and free the memory
+        frame.deinit(&mut self.istates);
         frame.dealloc_if_needed();
 
         // 3. Pop the frame (this discards, doesn't propagate up)
@@ -1326,18 +1111,12 @@ impl<'a> Wip<'a> {
                 operation: "tried to pop_some_push_none but there was no parent frame",
             })?;
 
-        // Safety: option frames are correctly sized, and data is valid
-        unsafe {
-            if let Some(default_fn) = parent_frame.shape.vtable.default_in_place {
-                default_fn(parent_frame.data);
-            } else {
-                return Err(ReflectError::OperationFailed {
-                    shape: parent_frame.shape,
-                    operation: "option type does not implement Default",
-                });
-            }
-            parent_frame.mark_fully_initialized();
-        }
+        let Some(default_fn) = parent_frame.shape.vtable.default_in_place else {
+            return Err(ReflectError::OperationFailed {
+                shape: parent_frame.shape,
+                operation: "option type does not implement Default",
+            });
+        };
 
         let Def::Option(od) = parent_frame.shape.def else {
             return Err(ReflectError::OperationFailed {
@@ -1346,18 +1125,16 @@ impl<'a> Wip<'a> {
             });
         };
 
-        // Now push a `None` frame
         let data = parent_frame.data;
+        self.init_current_with(default_fn);
 
-        let mut frame = Frame {
+        // Now push a `None` frame
+        let frame = Frame {
             data,
             shape: od.t(),
-            field_index_in_parent: Some(0),
+            field_index_in_parent: None,
             istate: IState::new(self.frames.len(), FrameMode::OptionNone, FrameFlags::EMPTY),
         };
-        unsafe {
-            frame.mark_fully_initialized();
-        }
 
         self.frames.push(frame);
 
@@ -1370,7 +1147,7 @@ impl<'a> Wip<'a> {
     /// call `push_map_value` to create a frame for the corresponding value.
     pub fn push_map_key(mut self) -> Result<Self, ReflectError> {
         // Make sure we're initializing a map
-        let frame = self.frames.last().unwrap();
+        let frame = self.frame_to_init()?;
         let map_shape = frame.shape;
 
         if !matches!(map_shape.def, Def::Map(_)) {
@@ -1497,256 +1274,133 @@ impl<'a> Wip<'a> {
 
     /// Pops the current frame — goes back up one level
     pub fn pop(mut self) -> Result<Self, ReflectError> {
-        let Some(frame) = self.pop_inner() else {
+        self.pop_inner()?;
+        Ok(self)
+    }
+
+    /// Pops the current frame. If that isn't possible, it's left where it is.
+    fn pop_inner(&mut self) -> Result<(), ReflectError> {
+        if self.frames.len() == 1 {
+            trace!("Root frame popped");
+            self.root = self.frames.pop();
+            return Ok(());
+        }
+
+        let [.., parent_frame, frame] = &mut self.frames[..] else {
             return Err(ReflectError::InvariantViolation {
                 invariant: "No frame to pop",
             });
         };
-        self.track(frame);
-        Ok(self)
-    }
-
-    fn pop_inner(&mut self) -> Option<Frame> {
-        let mut frame = self.frames.pop()?;
-        #[cfg(feature = "log")]
-        let frame_shape = frame.shape;
 
         let init = frame.is_fully_initialized();
         trace!(
-            "[{}] {} popped, {} initialized",
-            self.frames.len(),
-            frame_shape.blue(),
+            "{} popped, {} initialized",
+            frame.shape.blue(),
             if init {
                 "✅ fully".style(owo_colors::Style::new().green())
             } else {
                 "🚧 partially".style(owo_colors::Style::new().red())
             }
         );
-        if init {
-            if let Some(parent) = self.frames.last_mut() {
-                if let Some(index) = frame.field_index_in_parent {
-                    parent.istate.fields.set(index);
-                }
-            }
-        }
 
         // Handle special frame modes
         match frame.istate.mode {
-            // Handle list element frames
-            FrameMode::ListElement => {
-                if frame.is_fully_initialized() {
-                    // This was a list element, so we need to push it to the parent list
-                    // Capture frame length and parent shape before mutable borrow
-                    #[cfg(feature = "log")]
-                    let frame_len = self.frames.len();
-
-                    // Get parent frame
-                    let parent_frame = self.frames.last_mut().unwrap();
-                    let parent_shape = parent_frame.shape;
-
-                    // Make sure the parent is a list
-                    match parent_shape.def {
-                        Def::List(_) => {
-                            // Get the list vtable from the ListDef
-                            if let Def::List(list_def) = parent_shape.def {
-                                let list_vtable = list_def.vtable;
-                                trace!(
-                                    "[{}] Pushing element to list {}",
-                                    frame_len,
-                                    parent_shape.blue()
-                                );
-                                unsafe {
-                                    // Convert the frame data pointer to Opaque and call push function from vtable
-                                    (list_vtable.push)(
-                                        PtrMut::new(parent_frame.data.as_mut_byte_ptr()),
-                                        PtrMut::new(frame.data.as_mut_byte_ptr()),
-                                    );
-                                    self.mark_moved_out_of(&mut frame);
-                                }
-                            } else {
-                                panic!("parent frame is not a list type");
-                            }
-                        }
-                        _ => {
-                            panic!("Expected list or array, got {}", frame.shape);
-                        }
-                    }
+            // Handle struct fields and such: we might come back to these
+            FrameMode::Root | FrameMode::Field => {
+                if let Some(frame) = self.frames.pop() {
+                    self.leave_field(frame);
                 }
+                return Ok(());
             }
 
-            // Handle map value frames
-            FrameMode::MapValue {
-                index: key_frame_index,
-            } if frame.is_fully_initialized() => {
-                // This was a map value, so we need to insert the key-value pair into the map
-
-                // Now let's remove the key frame from the frames array
-                let mut key_frame = self.frames.remove(key_frame_index);
-
-                // Make sure the key is fully initialized
-                if !key_frame.istate.fields.is_any_set() {
-                    panic!("key is not initialized when popping value frame");
-                }
+            // There's nothing to do for these, the parent option was already set to None
+            FrameMode::OptionNone => {
+                self.frames.pop();
+                return Ok(());
+            }
 
-                // Get parent map frame
-                #[cfg(feature = "log")]
-                let frame_len = self.frames.len();
-                let parent_frame = self.frames.last_mut().unwrap();
-                let parent_shape = parent_frame.shape;
-
-                // Make sure the parent is a map
-                match parent_shape.def {
-                    Def::Map(_) => {
-                        // Get the map vtable from the MapDef
-                        if let Def::Map(map_def) = parent_shape.def {
-                            trace!(
-                                "[{}] Inserting key-value pair into map {}",
-                                frame_len,
-                                parent_shape.blue()
-                            );
-                            unsafe {
-                                // Call the map's insert function with the key and value
-                                (map_def.vtable.insert_fn)(
-                                    parent_frame.data.assume_init(),
-                                    key_frame.data.assume_init(),
-                                    PtrMut::new(frame.data.as_mut_byte_ptr()),
-                                );
-                                self.mark_moved_out_of(&mut key_frame);
-                                self.mark_moved_out_of(&mut frame);
-                            }
-                        } else {
-                            panic!("parent frame is not a map type");
-                        }
-                    }
-                    _ => {
-                        panic!("Expected map or hash map, got {}", frame.shape);
-                    }
-                }
+            // All the others live in a temporary allocation, there's no coming back to them
+            _ if !init => {
+                return Err(ReflectError::UninitializedValue { shape: frame.shape });
             }
 
-            // Handle option frames
-            FrameMode::OptionSome => {
-                if frame.is_fully_initialized() {
-                    trace!("Popping OptionSome (fully init'd)");
-
-                    // Get parent frame
-                    #[cfg(feature = "log")]
-                    let frames_len = self.frames.len();
-                    let parent_frame = self.frames.last_mut().unwrap();
-                    let parent_shape = parent_frame.shape;
-
-                    // Make sure the parent is an option
-                    match parent_shape.def {
-                        Def::Option(option_def) => {
-                            trace!(
-                                "[{}] Setting Some value in option {}",
-                                frames_len,
-                                parent_shape.blue()
-                            );
-                            unsafe {
-                                // Call the option's init_some function
-                                (option_def.vtable.init_some_fn)(
-                                    parent_frame.data,
-                                    PtrConst::new(frame.data.as_byte_ptr()),
-                                );
-                                trace!("Marking parent frame as fully initialized");
-                                parent_frame.mark_fully_initialized();
-
-                                self.mark_moved_out_of(&mut frame);
-                            }
-                        }
-                        _ => {
-                            panic!(
-                                "Expected parent frame to be an option type, got {}",
-                                frame.shape
-                            );
-                        }
-                    }
-                } else {
-                    trace!("Popping OptionSome (not fully init'd)");
+            // Handle list element frames
+            FrameMode::ListElement => {
+                // This was a list element, so we need to push it to the parent list
+                let Def::List(list_def) = parent_frame.shape.def else {
+                    panic!("Expected list or array, got {}", parent_frame.shape);
+                };
+                trace!("Pushing element to list {}", parent_frame.shape.blue());
+                unsafe {
+                    // Convert the frame data pointer to Opaque and call push function from vtable
+                    (list_def.vtable.push)(
+                        parent_frame.data.assume_init(),
+                        frame.data.assume_init(),
+                    );
                 }
             }
 
-            // Map keys are just tracked, they don't need special handling when popped
-            // FIXME: that's not true, we need to deallocate them at least??
-            FrameMode::MapKey => {}
-
-            // Field frame
-            FrameMode::Field => {}
-
-            // Uninitialized special frames
-            _ => {}
-        }
-
-        Some(frame)
-    }
+            // Handle map key frames
+            FrameMode::MapKey => {
+                return Err(ReflectError::OperationFailed {
+                    shape: frame.shape,
+                    operation: "tried to pop a map key that has no value",
+                });
+            }
 
-    /// Evict a frame from istates, along with all its children
-    /// (because we're about to use `drop_in_place` on it — not
-    /// yet though, we need to know the variant for enums, etc.)
-    pub fn evict_tree(&mut self, frame: Frame) -> Frame {
-        match frame.shape.def {
-            Def::Struct(sd) => {
-                for f in sd.fields {
-                    let id = ValueId {
-                        shape: f.shape(),
-                        ptr: unsafe { frame.data.field_uninit_at(f.offset) }.as_byte_ptr(),
-                    };
-                    if let Some(istate) = self.istates.remove(&id) {
-                        let frame = Frame::recompose(id, istate);
-                        self.evict_tree(frame);
-                    } else {
-                        trace!("No istate found for field {}", f.name);
-                    }
+            // Handle map value frames
+            FrameMode::MapValue { .. } => {
+                // This was a map value, so we need to insert the key-value pair into the map: both
+                // frames are removed
+                let [.., map_frame, key_frame, value_frame] = &mut self.frames[..] else {
+                    panic!("Expected a map and a key below the value frame");
+                };
+                let Def::Map(map_def) = map_frame.shape.def else {
+                    panic!("Expected map or hash map, got {}", map_frame.shape);
+                };
+                trace!(
+                    "Inserting key-value pair into map {}",
+                    map_frame.shape.blue()
+                );
+                unsafe {
+                    // Call the map's insert function with the key and value
+                    (map_def.vtable.insert_fn)(
+                        map_frame.data.assume_init(),
+                        key_frame.data.assume_init(),
+                        value_frame.data.assume_init(),
+                    );
                 }
+                value_frame.dealloc_if_needed();
+                self.frames.pop();
             }
-            Def::Enum(_ed) => {
-                // Check if a variant is selected in the istate
-                if let Some(variant) = &frame.istate.variant {
-                    trace!(
-                        "Evicting enum {} variant '{}' fields",
-                        frame.shape.blue(),
-                        variant.name.yellow()
+
+            // Handle option frames
+            FrameMode::OptionSome => {
+                let Def::Option(option_def) = parent_frame.shape.def else {
+                    panic!(
+                        "Expected parent frame to be an option type, got {}",
+                        parent_frame.shape
                     );
-                    // Iterate over the fields of the selected variant
-                    for field in variant.data.fields {
-                        // Calculate the pointer to the field within the enum's data payload
-                        let field_ptr = unsafe { frame.data.field_uninit_at(field.offset) };
-                        let field_shape = field.shape();
-                        let field_id = ValueId::new(field_shape, field_ptr.as_byte_ptr());
-
-                        // Try to remove the field's state from istates
-                        if let Some(field_istate) = self.istates.remove(&field_id) {
-                            trace!(
-                                "Evicting field '{}' (shape {}) of enum variant '{}'",
-                                field.name.bright_blue(),
-                                field_shape.green(),
-                                variant.name.yellow()
-                            );
-                            // Recompose the frame for the field
-                            let field_frame = Frame::recompose(field_id, field_istate);
-                            // Recursively evict the field's subtree
-                            self.evict_tree(field_frame);
-                        } else {
-                            trace!(
-                                "Field '{}' (shape {}) of enum variant '{}' not found in istates, skipping eviction",
-                                field.name.red(),
-                                field_shape.red(),
-                                variant.name.yellow()
-                            );
-                        }
-                    }
-                } else {
-                    // No variant selected, nothing to evict within the enum
-                    trace!(
-                        "Enum {} has no variant selected, no fields to evict.",
-                        frame.shape.blue()
+                };
+                trace!("Setting Some value in option {}", parent_frame.shape.blue());
+                // the option might already hold something
+                parent_frame.deinit(&mut self.istates);
+                unsafe {
+                    // Call the option's init_some function
+                    (option_def.vtable.init_some_fn)(
+                        parent_frame.data,
+                        PtrConst::new(frame.data.as_byte_ptr()),
                     );
+                    parent_frame.mark_fully_initialized();
                 }
             }
-            _ => {}
         }
-        frame
+
+        // the value was moved out of the frame, only its allocation is left
+        if let Some(mut frame) = self.frames.pop() {
+            frame.dealloc_if_needed();
+        }
+        Ok(())
     }
 
     #[allow(rustdoc::broken_intra_doc_links)]
@@ -1858,160 +1512,12 @@ impl Drop for Wip<'_> {
     fn drop(&mut self) {
         trace!("🧹🧹🧹 WIP is dropping");
 
-        while let Some(frame) = self.frames.pop() {
-            self.track(frame);
-        }
-
-        let Some((root_id, _)) = self.istates.iter().find(|(_k, istate)| istate.depth == 0) else {
-            trace!("No root found, we probably built already");
-            return;
-        };
-
-        let root_id = *root_id;
-        let root_istate = self.istates.remove(&root_id).unwrap();
-        let root = Frame::recompose(root_id, root_istate);
-        let mut to_clean = vec![root];
-
-        let mut _root_guard: Option<Guard> = None;
-
-        while let Some(mut frame) = to_clean.pop() {
-            trace!(
-                "Cleaning frame: shape={} at {:p}, flags={:?}, mode={:?}, fully_initialized={}",
-                frame.shape.blue(),
-                frame.data.as_byte_ptr(),
-                frame.istate.flags.bright_magenta(),
-                frame.istate.mode.yellow(),
-                if frame.is_fully_initialized() {
-                    "✅"
-                } else {
-                    "❌"
-                }
-            );
-
-            if frame.istate.flags.contains(FrameFlags::MOVED) {
-                trace!(
-                    "{}",
-                    "Frame was moved out of, nothing to dealloc/drop_in_place".yellow()
-                );
-                continue;
-            }
-
-            match frame.shape.def {
-                Def::Struct(sd) => {
-                    if frame.is_fully_initialized() {
-                        trace!(
-                            "Dropping fully initialized struct: {} at {:p}",
-                            frame.shape.green(),
-                            frame.data.as_byte_ptr()
-                        );
-                        let frame = self.evict_tree(frame);
-                        unsafe { frame.drop_and_dealloc_if_needed() };
-                    } else {
-                        let num_fields = sd.fields.len();
-                        trace!(
-                            "De-initializing struct {} at {:p} field-by-field ({} fields)",
-                            frame.shape.yellow(),
-                            frame.data.as_byte_ptr(),
-                            num_fields.to_string().bright_cyan()
-                        );
-                        for i in 0..num_fields {
-                            if frame.istate.fields.has(i) {
-                                let field = sd.fields[i];
-                                let field_shape = field.shape();
-                                let field_ptr = unsafe { frame.data.field_init_at(field.offset) };
-                                let field_id = ValueId::new(field_shape, field_ptr.as_byte_ptr());
-                                trace!(
-                                    "Recursively cleaning field #{} '{}' of {}: field_shape={}, field_ptr={:p}",
-                                    i.to_string().bright_cyan(),
-                                    field.name.bright_blue(),
-                                    frame.shape.blue(),
-                                    field_shape.green(),
-                                    field_ptr.as_byte_ptr()
-                                );
-                                let istate = self.istates.remove(&field_id).unwrap();
-                                let field_frame = Frame::recompose(field_id, istate);
-                                to_clean.push(field_frame);
-                            } else {
-                                trace!(
-                                    "Field #{} '{}' of {} was NOT initialized, skipping",
-                                    i.to_string().bright_cyan(),
-                                    sd.fields[i].name.bright_red(),
-                                    frame.shape.red()
-                                );
-                            }
-                        }
-
-                        // we'll also need to clean up if we're root
-                        if frame.istate.mode == FrameMode::Root {
-                            _root_guard = Some(Guard {
-                                ptr: frame.data.as_mut_byte_ptr(),
-                                layout: frame.shape.layout,
-                            });
-                        }
-                    }
-                }
-                Def::Enum(_ed) => {
-                    trace!(
-                        "{}",
-                        format!(
-                            "TODO: handle enum deallocation for {} at {:p}",
-                            frame.shape.yellow(),
-                            frame.data.as_byte_ptr()
-                        )
-                        .magenta()
-                    );
-
-                    // we'll also need to clean up if we're root
-                    if frame.istate.mode == FrameMode::Root {
-                        _root_guard = Some(Guard {
-                            ptr: frame.data.as_mut_byte_ptr(),
-                            layout: frame.shape.layout,
-                        });
-                    }
-                }
-                Def::Array(_)
-                | Def::Slice(_)
-                | Def::List(_)
-                | Def::Map(_)
-                | Def::SmartPointer(_)
-                | Def::Scalar(_)
-                | Def::Option(_) => {
-                    trace!(
-                        "Can drop all at once for shape {} (def variant: {:?}, frame mode {:?}) at {:p}",
-                        frame.shape.cyan(),
-                        frame.shape.def,
-                        frame.istate.mode.yellow(),
-                        frame.data.as_byte_ptr(),
-                    );
-
-                    if frame.is_fully_initialized() {
-                        unsafe { frame.drop_and_dealloc_if_needed() }
-                    } else {
-                        frame.dealloc_if_needed();
-                    }
-                }
-                _ => {}
-            }
-        }
-
-        // We might have some frames left over to deallocate for temporary allocations for keymap insertion etc.
-        let mut all_ids = self.istates.keys().copied().collect::<Vec<_>>();
-        for frame_id in all_ids.drain(..) {
-            let frame_istate = self.istates.remove(&frame_id).unwrap();
-
-            trace!(
-                "Checking leftover istate: id.shape={} id.ptr={:p} mode={:?}",
-                frame_id.shape.cyan(),
-                frame_id.ptr,
-                frame_istate.mode.yellow()
-            );
-            let mut frame = Frame::recompose(frame_id, frame_istate);
-
-            if frame.is_fully_initialized() {
-                trace!("It's fully initialized, we can drop it");
-                unsafe { frame.drop_and_dealloc_if_needed() };
-            } else if frame.istate.flags.contains(FrameFlags::ALLOCATED) {
-                trace!("Not initialized but allocated, let's free it");
+        while let Some(mut frame) = self.frames.pop().or_else(|| self.root.take()) {
+            if frame.istate.mode == FrameMode::Field {
+                // that's part of the parent frame
+                self.leave_field(frame);
+            } else {
+                frame.deinit(&mut self.istates);
                 frame.dealloc_if_needed();
             }
         }
-- 
2.43.0


From 0121b3781cc81c00c29cfd8508d40e08afe711f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:33 +0000
Subject: [PATCH 03/61] fix: cloning a Vec, HashMap, BTreeMap or slice through
 its shape wrote a reference instead of a value

---
 facet-core/src/impls_alloc/btreemap.rs | 16 ++++++++++++++--
 facet-core/src/impls_alloc/mod.rs      | 18 ++++++++++++++++++
 facet-core/src/impls_alloc/vec.rs      | 14 ++++++++++++--
 facet-core/src/impls_core/slice.rs     |  2 +-
 facet-core/src/impls_std/hashmap.rs    | 16 ++++++++++++++--
 5 files changed, 59 insertions(+), 7 deletions(-)

diff --git a/facet-core/src/impls_alloc/btreemap.rs b/facet-core/src/impls_alloc/btreemap.rs
index 7e3a2b4..3fff54e 100644
--- a/facet-core/src/impls_alloc/btreemap.rs
+++ b/facet-core/src/impls_alloc/btreemap.rs
@@ -80,8 +80,20 @@ where
 
                     builder =
                         builder.default_in_place(|target| unsafe { target.put(Self::default()) });
-                    builder = builder
-                        .clone_into(|src, dst| unsafe { dst.put(src.get::<BTreeMap<K, V>>()) });
+                    if K::SHAPE.vtable.clone_into.is_some() && V::SHAPE.vtable.clone_into.is_some()
+                    {
+                        builder = builder.clone_into(|src, dst| unsafe {
+                            let src = src.get::<BTreeMap<K, V>>();
+                            let mut map = BTreeMap::<K, V>::new();
+                            for (k, v) in src {
+                                map.insert(
+                                    crate::impls_alloc::clone_value(k),
+                                    crate::impls_alloc::clone_value(v),
+                                );
+                            }
+                            dst.put(map)
+                        });
+                    }
 
                     if V::SHAPE.vtable.eq.is_some() {
                         builder = builder.eq(|a, b| unsafe {
diff --git a/facet-core/src/impls_alloc/mod.rs b/facet-core/src/impls_alloc/mod.rs
index 93a6639..f0505d9 100644
--- a/facet-core/src/impls_alloc/mod.rs
+++ b/facet-core/src/impls_alloc/mod.rs
@@ -1,3 +1,21 @@
 mod btreemap;
 mod smartptr;
 mod vec;
+
+use crate::{Facet, PtrConst, PtrUninit};
+
+/// Clones a value through its shape
+///
+/// # Safety
+///
+/// The shape of `T` must have a `clone_into` function.
+pub(crate) unsafe fn clone_value<T: Facet>(src: &T) -> T {
+    let mut dst = core::mem::MaybeUninit::<T>::uninit();
+    unsafe {
+        (T::SHAPE.vtable.clone_into.unwrap_unchecked())(
+            PtrConst::new(src),
+            PtrUninit::from_maybe_uninit(&mut dst),
+        );
+        dst.assume_init()
+    }
+}
diff --git a/facet-core/src/impls_alloc/vec.rs b/facet-core/src/impls_alloc/vec.rs
index c5230bc..9be8c53 100644
--- a/facet-core/src/impls_alloc/vec.rs
+++ b/facet-core/src/impls_alloc/vec.rs
@@ -30,8 +30,18 @@ where
                             }
                         })
                         .drop_in_place(|value| unsafe { value.drop_in_place::<Vec<T>>() })
-                        .default_in_place(|target| unsafe { target.put(Self::default()) })
-                        .clone_into(|src, dst| unsafe { dst.put(src.get::<Vec<T>>()) });
+                        .default_in_place(|target| unsafe { target.put(Self::default()) });
+
+                    if T::SHAPE.vtable.clone_into.is_some() {
+                        builder = builder.clone_into(|src, dst| unsafe {
+                            let src = src.get::<Vec<T>>();
+                            let mut vec = Vec::<T>::with_capacity(src.len());
+                            for item in src {
+                                vec.push(crate::impls_alloc::clone_value(item));
+                            }
+                            dst.put(vec)
+                        });
+                    }
 
                     if T::SHAPE.vtable.debug.is_some() {
                         builder = builder.debug(|value, f| {
diff --git a/facet-core/src/impls_core/slice.rs b/facet-core/src/impls_core/slice.rs
index cab0c32..1b31b4d 100644
--- a/facet-core/src/impls_core/slice.rs
+++ b/facet-core/src/impls_core/slice.rs
@@ -57,7 +57,7 @@ where
                         .clone_into(|src, dst| unsafe {
                             // This works because we're cloning a shared reference (&[T]), not the actual slice data.
                             // We're just copying the fat pointer (ptr + length) that makes up the slice reference.
-                            dst.put(src.get::<&[T]>())
+                            dst.put(*src.get::<&[T]>())
                         });
 
                     if T::SHAPE.vtable.debug.is_some() {
diff --git a/facet-core/src/impls_std/hashmap.rs b/facet-core/src/impls_std/hashmap.rs
index 9b23a66..ed1ed29 100644
--- a/facet-core/src/impls_std/hashmap.rs
+++ b/facet-core/src/impls_std/hashmap.rs
@@ -85,8 +85,20 @@ where
                     builder =
                         builder.default_in_place(|target| unsafe { target.put(Self::default()) });
 
-                    builder = builder
-                        .clone_into(|src, dst| unsafe { dst.put(src.get::<HashMap<K, V>>()) });
+                    if K::SHAPE.vtable.clone_into.is_some() && V::SHAPE.vtable.clone_into.is_some()
+                    {
+                        builder = builder.clone_into(|src, dst| unsafe {
+                            let src = src.get::<HashMap<K, V>>();
+                            let mut map = HashMap::<K, V>::with_capacity(src.len());
+                            for (k, v) in src {
+                                map.insert(
+                                    crate::impls_alloc::clone_value(k),
+                                    crate::impls_alloc::clone_value(v),
+                                );
+                            }
+                            dst.put(map)
+                        });
+                    }
 
                     if V::SHAPE.vtable.eq.is_some() {
                         builder = builder.eq(|a, b| unsafe {
-- 
2.43.0


From a46d324e0a84355699102976eeec28efb899b52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:33 +0000
Subject: [PATCH 04/61] fix: tuples leaked their contents, and were only
 debuggable and comparable if all of their elements were Eq

---
 facet-core/src/impls_core/tuple.rs | 275 ++++++++++++++++++++---------
 facet-dev/src/tuples.rs            |  36 +++-
 2 files changed, 222 insertions(+), 89 deletions(-)

diff --git a/facet-core/src/impls_core/tuple.rs b/facet-core/src/impls_core/tuple.rs
index 2668fab..08a6db5 100644
--- a/facet-core/src/impls_core/tuple.rs
+++ b/facet-core/src/impls_core/tuple.rs
@@ -62,9 +62,10 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0>)
-                        .marker_traits(T0::SHAPE.vtable.marker_traits);
+                        .marker_traits(T0::SHAPE.vtable.marker_traits)
+                        .drop_in_place(|value| unsafe { value.drop_in_place::<(T0,)>() });
 
-                    if Characteristic::Eq.all(&[T0::SHAPE]) {
+                    if Characteristic::Debug.all(&[T0::SHAPE]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0,)>() };
                             write!(f, "(")?;
@@ -72,9 +73,11 @@ where
                                 let ptr = &value.0 as *const T0;
                                 (T0::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
                             }?;
-                            write!(f, ")")
+                            write!(f, ",)")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[T0::SHAPE]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0,)>() };
                             let b = unsafe { b.get::<(T0,)>() };
@@ -127,9 +130,10 @@ where
                                 .vtable
                                 .marker_traits
                                 .intersection(T1::SHAPE.vtable.marker_traits)
-                        });
+                        })
+                        .drop_in_place(|value| unsafe { value.drop_in_place::<(T0, T1)>() });
 
-                    if Characteristic::Eq.all(&[T0::SHAPE, T1::SHAPE]) {
+                    if Characteristic::Debug.all(&[T0::SHAPE, T1::SHAPE]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0, T1)>() };
                             write!(f, "(")?;
@@ -144,7 +148,9 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[T0::SHAPE, T1::SHAPE]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1)>() };
                             let b = unsafe { b.get::<(T0, T1)>() };
@@ -212,9 +218,10 @@ where
                                 .marker_traits
                                 .intersection(T1::SHAPE.vtable.marker_traits)
                                 .intersection(T2::SHAPE.vtable.marker_traits)
-                        });
+                        })
+                        .drop_in_place(|value| unsafe { value.drop_in_place::<(T0, T1, T2)>() });
 
-                    if Characteristic::Eq.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE]) {
+                    if Characteristic::Debug.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0, T1, T2)>() };
                             write!(f, "(")?;
@@ -234,7 +241,9 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2)>() };
                             let b = unsafe { b.get::<(T0, T1, T2)>() };
@@ -332,9 +341,12 @@ where
                                 .intersection(T1::SHAPE.vtable.marker_traits)
                                 .intersection(T2::SHAPE.vtable.marker_traits)
                                 .intersection(T3::SHAPE.vtable.marker_traits)
+                        })
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3)>()
                         });
 
-                    if Characteristic::Eq.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE, T3::SHAPE]) {
+                    if Characteristic::Debug.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE, T3::SHAPE]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0, T1, T2, T3)>() };
                             write!(f, "(")?;
@@ -359,7 +371,10 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE, T3::SHAPE])
+                    {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3)>() };
@@ -473,9 +488,12 @@ where
                                 .intersection(T2::SHAPE.vtable.marker_traits)
                                 .intersection(T3::SHAPE.vtable.marker_traits)
                                 .intersection(T4::SHAPE.vtable.marker_traits)
+                        })
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4)>()
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -511,7 +529,15 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4)>() };
@@ -651,9 +677,12 @@ where
                                 .intersection(T3::SHAPE.vtable.marker_traits)
                                 .intersection(T4::SHAPE.vtable.marker_traits)
                                 .intersection(T5::SHAPE.vtable.marker_traits)
+                        })
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4, T5)>()
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -695,7 +724,16 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5)>() };
@@ -852,9 +890,12 @@ where
                                 .intersection(T4::SHAPE.vtable.marker_traits)
                                 .intersection(T5::SHAPE.vtable.marker_traits)
                                 .intersection(T6::SHAPE.vtable.marker_traits)
+                        })
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6)>()
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -902,7 +943,17 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5, T6)>() };
@@ -1076,9 +1127,12 @@ where
                                 .intersection(T5::SHAPE.vtable.marker_traits)
                                 .intersection(T6::SHAPE.vtable.marker_traits)
                                 .intersection(T7::SHAPE.vtable.marker_traits)
+                        })
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6, T7)>()
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -1132,7 +1186,18 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                        T7::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6, T7)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5, T6, T7)>() };
@@ -1323,9 +1388,12 @@ where
                                 .intersection(T6::SHAPE.vtable.marker_traits)
                                 .intersection(T7::SHAPE.vtable.marker_traits)
                                 .intersection(T8::SHAPE.vtable.marker_traits)
+                        })
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6, T7, T8)>()
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -1386,7 +1454,19 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                        T7::SHAPE,
+                        T8::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8)>() };
@@ -1595,9 +1675,12 @@ where
                                 .intersection(T7::SHAPE.vtable.marker_traits)
                                 .intersection(T8::SHAPE.vtable.marker_traits)
                                 .intersection(T9::SHAPE.vtable.marker_traits)
+                        })
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9)>()
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -1664,7 +1747,20 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                        T7::SHAPE,
+                        T8::SHAPE,
+                        T9::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9)>() };
@@ -1902,9 +1998,12 @@ where
                                 .intersection(T8::SHAPE.vtable.marker_traits)
                                 .intersection(T9::SHAPE.vtable.marker_traits)
                                 .intersection(T10::SHAPE.vtable.marker_traits)
+                        })
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10)>()
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -1978,7 +2077,21 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                        T7::SHAPE,
+                        T8::SHAPE,
+                        T9::SHAPE,
+                        T10::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a =
                                 unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10)>() };
@@ -2202,42 +2315,14 @@ where
         }
 
         Shape::builder()
-            .id(ConstTypeId::of::<(
-                T0,
-                T1,
-                T2,
-                T3,
-                T4,
-                T5,
-                T6,
-                T7,
-                T8,
-                T9,
-                T10,
-                T11,
-            )>())
-            .layout(Layout::new::<(
-                T0,
-                T1,
-                T2,
-                T3,
-                T4,
-                T5,
-                T6,
-                T7,
-                T8,
-                T9,
-                T10,
-                T11,
-            )>())
+            .id(ConstTypeId::of::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>())
+            .layout(Layout::new::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>())
             .vtable(
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11>)
-                        .marker_traits({
-                            T0::SHAPE
-                                .vtable
-                                .marker_traits
+                        .marker_traits(                        {
+                            T0::SHAPE.vtable.marker_traits
                                 .intersection(T1::SHAPE.vtable.marker_traits)
                                 .intersection(T2::SHAPE.vtable.marker_traits)
                                 .intersection(T3::SHAPE.vtable.marker_traits)
@@ -2249,96 +2334,120 @@ where
                                 .intersection(T9::SHAPE.vtable.marker_traits)
                                 .intersection(T10::SHAPE.vtable.marker_traits)
                                 .intersection(T11::SHAPE.vtable.marker_traits)
-                        });
+                    })
+                        .drop_in_place(|value| unsafe { value.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>() });
 
-                    if Characteristic::Eq.all(&[
-                        T0::SHAPE,
-                        T1::SHAPE,
-                        T2::SHAPE,
-                        T3::SHAPE,
-                        T4::SHAPE,
-                        T5::SHAPE,
-                        T6::SHAPE,
-                        T7::SHAPE,
-                        T8::SHAPE,
-                        T9::SHAPE,
-                        T10::SHAPE,
-                        T11::SHAPE,
+                    if Characteristic::Debug.all(&[
+                        T0::SHAPE, T1::SHAPE, T2::SHAPE, T3::SHAPE, T4::SHAPE, T5::SHAPE, T6::SHAPE, T7::SHAPE, T8::SHAPE, T9::SHAPE, T10::SHAPE, T11::SHAPE,
                     ]) {
                         builder = builder.debug(|value, f| {
-                            let value = unsafe {
-                                value.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>()
-                            };
+                            let value = unsafe { value.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>() };
                             write!(f, "(")?;
                             unsafe {
                                 let ptr = &value.0 as *const T0;
-                                (T0::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T0::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.1 as *const T1;
-                                (T1::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T1::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.2 as *const T2;
-                                (T2::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T2::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.3 as *const T3;
-                                (T3::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T3::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.4 as *const T4;
-                                (T4::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T4::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.5 as *const T5;
-                                (T5::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T5::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.6 as *const T6;
-                                (T6::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T6::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.7 as *const T7;
-                                (T7::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T7::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.8 as *const T8;
-                                (T8::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T8::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.9 as *const T9;
-                                (T9::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T9::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.10 as *const T10;
-                                (T10::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T10::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.11 as *const T11;
-                                (T11::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T11::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE, T1::SHAPE, T2::SHAPE, T3::SHAPE, T4::SHAPE, T5::SHAPE, T6::SHAPE, T7::SHAPE, T8::SHAPE, T9::SHAPE, T10::SHAPE, T11::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
-                            let a = unsafe {
-                                a.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>()
-                            };
-                            let b = unsafe {
-                                b.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>()
-                            };
+                            let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>() };
+                            let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>() };
 
                             // Compare element 0
                             unsafe {
@@ -2502,7 +2611,7 @@ where
                                 field!(8, (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,),),
                                 field!(9, (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,),),
                                 field!(10, (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,),),
-                                field!(11, (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,),),
+                                field!(11, (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,),)
                             ]
                         },
                     )
diff --git a/facet-dev/src/tuples.rs b/facet-dev/src/tuples.rs
index 3a24e50..1ed4bd6 100644
--- a/facet-dev/src/tuples.rs
+++ b/facet-dev/src/tuples.rs
@@ -144,7 +144,7 @@ pub fn generate() -> String {
         );
         w!("                        .marker_traits(");
         if n == 1 {
-            w!("T0::SHAPE.vtable.marker_traits);\n\n")
+            w!("T0::SHAPE.vtable.marker_traits)\n")
         } else {
             w!("                        {{\n");
             w!("                            T0::SHAPE.vtable.marker_traits\n");
@@ -153,11 +153,19 @@ pub fn generate() -> String {
                     "                                .intersection(T{i}::SHAPE.vtable.marker_traits)\n"
                 );
             }
-            w!("                    }});\n\n");
+            w!("                    }})\n");
         }
+        w!(
+            "                        .drop_in_place(|value| unsafe {{ value.drop_in_place::<{}>() }});\n\n",
+            if n == 1 {
+                "(T0,)".to_string()
+            } else {
+                format!("({})", type_params)
+            }
+        );
 
-        // Conditional debug and eq implementations
-        w!("                    if Characteristic::Eq.all(&[");
+        // Conditional debug implementation
+        w!("                    if Characteristic::Debug.all(&[");
         if n <= 5 {
             w!("{}", shape_list);
         } else {
@@ -198,8 +206,24 @@ pub fn generate() -> String {
             w!("                            }}?;\n");
         }
 
-        w!("                            write!(f, \")\")\n");
-        w!("                        }});\n\n");
+        if n == 1 {
+            w!("                            write!(f, \",)\")\n");
+        } else {
+            w!("                            write!(f, \")\")\n");
+        }
+        w!("                        }});\n");
+        w!("                    }}\n\n");
+
+        // Conditional eq implementation
+        w!("                    if Characteristic::PartialEq.all(&[");
+        if n <= 5 {
+            w!("{}", shape_list);
+        } else {
+            w!("\n");
+            w!("                        {},\n", shape_list);
+            w!("                    ");
+        }
+        w!("]) {{\n");
 
         // eq implementation
         w!("                        builder = builder.eq(|a, b| {{\n");
-- 
2.43.0


From 56e4480e437d991ccf6ed82b4609a053ad30a425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:14 +0000
Subject: [PATCH 05/61] fix: PathBuf, &Path, Utf8PathBuf, &Utf8Path,
 RandomState, ConstTypeId and PhantomData had the vtable of ()

---
 facet-core/src/impls_camino.rs      |  7 +++++--
 facet-core/src/impls_core/scalar.rs | 10 ++++++++--
 facet-core/src/impls_std/hashmap.rs |  5 ++++-
 facet-core/src/impls_std/path.rs    | 10 ++++++++--
 4 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/facet-core/src/impls_camino.rs b/facet-core/src/impls_camino.rs
index c5cc1b8..39c4421 100644
--- a/facet-core/src/impls_camino.rs
+++ b/facet-core/src/impls_camino.rs
@@ -14,7 +14,10 @@ unsafe impl Facet for Utf8PathBuf {
                     .affinity(ScalarAffinity::path().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "Utf8PathBuf")))
+            .vtable(value_vtable!(Utf8PathBuf, |f, _opts| write!(
+                f,
+                "Utf8PathBuf"
+            )))
             .build()
     };
 }
@@ -29,7 +32,7 @@ unsafe impl Facet for &Utf8Path {
                     .affinity(ScalarAffinity::path().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "Utf8Path")))
+            .vtable(value_vtable!(&Utf8Path, |f, _opts| write!(f, "Utf8Path")))
             .build()
     };
 }
diff --git a/facet-core/src/impls_core/scalar.rs b/facet-core/src/impls_core/scalar.rs
index 7270d78..e3b1d3f 100644
--- a/facet-core/src/impls_core/scalar.rs
+++ b/facet-core/src/impls_core/scalar.rs
@@ -14,7 +14,10 @@ unsafe impl Facet for ConstTypeId {
                     .affinity(ScalarAffinity::opaque().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "ConstTypeId")))
+            .vtable(value_vtable!(ConstTypeId, |f, _opts| write!(
+                f,
+                "ConstTypeId"
+            )))
             .build()
     };
 }
@@ -45,7 +48,10 @@ unsafe impl<T: ?Sized> Facet for core::marker::PhantomData<T> {
                     .build(),
             ))
             // TODO: we might be able to do something with specialization re: the shape of T?
-            .vtable(value_vtable!((), |f, _opts| write!(f, "PhantomData")))
+            .vtable(value_vtable!(
+                core::marker::PhantomData<T>,
+                |f, _opts| write!(f, "PhantomData")
+            ))
             .build()
     };
 }
diff --git a/facet-core/src/impls_std/hashmap.rs b/facet-core/src/impls_std/hashmap.rs
index ed1ed29..89bb876 100644
--- a/facet-core/src/impls_std/hashmap.rs
+++ b/facet-core/src/impls_std/hashmap.rs
@@ -216,7 +216,10 @@ unsafe impl Facet for RandomState {
                     .affinity(ScalarAffinity::opaque().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "RandomState")))
+            .vtable(value_vtable!(RandomState, |f, _opts| write!(
+                f,
+                "RandomState"
+            )))
             .build()
     };
 }
diff --git a/facet-core/src/impls_std/path.rs b/facet-core/src/impls_std/path.rs
index 5cd04d6..1232a95 100644
--- a/facet-core/src/impls_std/path.rs
+++ b/facet-core/src/impls_std/path.rs
@@ -12,7 +12,10 @@ unsafe impl Facet for std::path::PathBuf {
                     .affinity(ScalarAffinity::path().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "PathBuf")))
+            .vtable(value_vtable!(std::path::PathBuf, |f, _opts| write!(
+                f,
+                "PathBuf"
+            )))
             .build()
     };
 }
@@ -27,7 +30,10 @@ unsafe impl Facet for &std::path::Path {
                     .affinity(ScalarAffinity::path().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "Path")))
+            .vtable(value_vtable!(&std::path::Path, |f, _opts| write!(
+                f,
+                "Path"
+            )))
             .build()
     };
 }
-- 
2.43.0


From b1a4437656a9344981a7f410260f748f2f0df970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:14 +0000
Subject: [PATCH 06/61] fix: NonZero integers had the vtable of the plain
 integer, which parses and defaults to zero

---
 facet-core/src/impls_core/scalar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/facet-core/src/impls_core/scalar.rs b/facet-core/src/impls_core/scalar.rs
index e3b1d3f..dd3969f 100644
--- a/facet-core/src/impls_core/scalar.rs
+++ b/facet-core/src/impls_core/scalar.rs
@@ -166,7 +166,7 @@ macro_rules! impl_facet_for_integer {
                     .def(Def::Scalar(
                         ScalarDef::builder().affinity($nz_affinity).build(),
                     ))
-                    .vtable(value_vtable!($type, |f, _opts| write!(
+                    .vtable(value_vtable!(NonZero<$type>, |f, _opts| write!(
                         f,
                         "core::num::NonZero<{}>",
                         stringify!($type)
-- 
2.43.0


From c5fbff605b96f353c711c5586a8942466c8ac50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:14 +0000
Subject: [PATCH 07/61] fix: Weak had the vtable of Arc, dropping and cloning
 strong references

---
 facet-core/src/impls_alloc/smartptr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/facet-core/src/impls_alloc/smartptr.rs b/facet-core/src/impls_alloc/smartptr.rs
index 2b34ad6..3d45cd0 100644
--- a/facet-core/src/impls_alloc/smartptr.rs
+++ b/facet-core/src/impls_alloc/smartptr.rs
@@ -74,9 +74,9 @@ unsafe impl<T: Facet> Facet for alloc::sync::Weak<T> {
                     )
                     .build(),
             ))
-            .vtable(value_vtable!(alloc::sync::Arc<T>, |f, _opts| write!(
+            .vtable(value_vtable!(alloc::sync::Weak<T>, |f, _opts| write!(
                 f,
-                "Arc"
+                "Weak"
             )))
             .build()
     };
-- 
2.43.0


From 7d5816f922552be53d1f554641d2f65f3f7f20ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:14 +0000
Subject: [PATCH 08/61] fix: getting an array item returned the first one for
 any index

---
 facet-core/src/impls_core/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/facet-core/src/impls_core/array.rs b/facet-core/src/impls_core/array.rs
index 71f00ce..6413e1d 100644
--- a/facet-core/src/impls_core/array.rs
+++ b/facet-core/src/impls_core/array.rs
@@ -170,7 +170,7 @@ where
                                             "Index out of bounds: the len is {L} but the index is {index}"
                                         );
                                     }
-                                    PtrConst::new(ptr.as_ptr::<[T; L]>())
+                                    PtrConst::new(ptr.as_ptr::<T>().add(index))
                                 })
                                 .build()
                         },
-- 
2.43.0


From bda01bef5f0c4ebc3bbe9b09954c2cc3db59eb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:32 +0000
Subject: [PATCH 09/61] fix: HashMaps with a custom hasher were laid out and
 accessed like those with RandomState

---
 facet-core/src/impls_std/hashmap.rs | 37 ++++++++++++++++-------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/facet-core/src/impls_std/hashmap.rs b/facet-core/src/impls_std/hashmap.rs
index 89bb876..4a12121 100644
--- a/facet-core/src/impls_std/hashmap.rs
+++ b/facet-core/src/impls_std/hashmap.rs
@@ -1,7 +1,7 @@
 use alloc::collections::VecDeque;
 use core::{alloc::Layout, hash::Hash};
 use std::collections::HashMap;
-use std::hash::RandomState;
+use std::hash::{BuildHasher, RandomState};
 
 use crate::ptr::{PtrConst, PtrMut};
 
@@ -19,12 +19,12 @@ unsafe impl<K, V, S> Facet for HashMap<K, V, S>
 where
     K: Facet + core::cmp::Eq + core::hash::Hash + 'static,
     V: Facet + 'static,
-    S: Facet + Default,
+    S: Facet + Default + BuildHasher,
 {
     const SHAPE: &'static Shape = &const {
         Shape::builder()
             .id(ConstTypeId::of::<HashMap<K, V, S>>())
-            .layout(Layout::new::<HashMap<K, V>>())
+            .layout(Layout::new::<HashMap<K, V, S>>())
             .type_params(&[
                 TypeParam {
                     name: "K",
@@ -62,11 +62,13 @@ where
                                 write!(f, "HashMap<⋯>")
                             }
                         })
-                        .drop_in_place(|value| unsafe { value.drop_in_place::<HashMap<K, V>>() });
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<HashMap<K, V, S>>()
+                        });
 
                     if K::SHAPE.vtable.debug.is_some() && V::SHAPE.vtable.debug.is_some() {
                         builder = builder.debug(|value, f| unsafe {
-                            let value = value.get::<HashMap<K, V>>();
+                            let value = value.get::<HashMap<K, V, S>>();
                             let k_debug = K::SHAPE.vtable.debug.unwrap_unchecked();
                             let v_debug = V::SHAPE.vtable.debug.unwrap_unchecked();
                             write!(f, "{{")?;
@@ -88,8 +90,11 @@ where
                     if K::SHAPE.vtable.clone_into.is_some() && V::SHAPE.vtable.clone_into.is_some()
                     {
                         builder = builder.clone_into(|src, dst| unsafe {
-                            let src = src.get::<HashMap<K, V>>();
-                            let mut map = HashMap::<K, V>::with_capacity(src.len());
+                            let src = src.get::<HashMap<K, V, S>>();
+                            let mut map = HashMap::<K, V, S>::with_capacity_and_hasher(
+                                src.len(),
+                                S::default(),
+                            );
                             for (k, v) in src {
                                 map.insert(
                                     crate::impls_alloc::clone_value(k),
@@ -102,8 +107,8 @@ where
 
                     if V::SHAPE.vtable.eq.is_some() {
                         builder = builder.eq(|a, b| unsafe {
-                            let a = a.get::<HashMap<K, V>>();
-                            let b = b.get::<HashMap<K, V>>();
+                            let a = a.get::<HashMap<K, V, S>>();
+                            let b = b.get::<HashMap<K, V, S>>();
                             let v_eq = V::SHAPE.vtable.eq.unwrap_unchecked();
                             a.len() == b.len()
                                 && a.iter().all(|(key_a, val_a)| {
@@ -120,7 +125,7 @@ where
                     if V::SHAPE.vtable.hash.is_some() {
                         builder = builder.hash(|value, hasher_this, hasher_write_fn| unsafe {
                             use crate::HasherProxy;
-                            let map = value.get::<HashMap<K, V>>();
+                            let map = value.get::<HashMap<K, V, S>>();
                             let v_hash = V::SHAPE.vtable.hash.unwrap_unchecked();
                             let mut hasher = HasherProxy::new(hasher_this, hasher_write_fn);
                             map.len().hash(&mut hasher);
@@ -150,25 +155,25 @@ where
                                         .put(Self::with_capacity_and_hasher(capacity, S::default()))
                                 })
                                 .insert(|ptr, key, value| unsafe {
-                                    let map = ptr.as_mut::<HashMap<K, V>>();
+                                    let map = ptr.as_mut::<HashMap<K, V, S>>();
                                     let key = key.read::<K>();
                                     let value = value.read::<V>();
                                     map.insert(key, value);
                                 })
                                 .len(|ptr| unsafe {
-                                    let map = ptr.get::<HashMap<K, V>>();
+                                    let map = ptr.get::<HashMap<K, V, S>>();
                                     map.len()
                                 })
                                 .contains_key(|ptr, key| unsafe {
-                                    let map = ptr.get::<HashMap<K, V>>();
+                                    let map = ptr.get::<HashMap<K, V, S>>();
                                     map.contains_key(key.get())
                                 })
                                 .get_value_ptr(|ptr, key| unsafe {
-                                    let map = ptr.get::<HashMap<K, V>>();
+                                    let map = ptr.get::<HashMap<K, V, S>>();
                                     map.get(key.get()).map(|v| PtrConst::new(v as *const _))
                                 })
                                 .iter(|ptr| unsafe {
-                                    let map = ptr.get::<HashMap<K, V>>();
+                                    let map = ptr.get::<HashMap<K, V, S>>();
                                     let keys: VecDeque<&K> = map.keys().collect();
                                     let iter_state = Box::new(HashMapIterator { map: ptr, keys });
                                     PtrMut::new(Box::into_raw(iter_state) as *mut u8)
@@ -177,7 +182,7 @@ where
                                     MapIterVTable::builder()
                                         .next(|iter_ptr| unsafe {
                                             let state = iter_ptr.as_mut::<HashMapIterator<'_, K>>();
-                                            let map = state.map.get::<HashMap<K, V>>();
+                                            let map = state.map.get::<HashMap<K, V, S>>();
                                             while let Some(key) = state.keys.pop_front() {
                                                 if let Some(value) = map.get(key) {
                                                     return Some((
-- 
2.43.0


From 1dccecb34ab6ebb473f235963621ed3e57a64fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:09 +0000
Subject: [PATCH 10/61] fix: Wip::put_peek duplicated the ownership of borrowed
 values (JSON defaults of structs were freed twice), paths had no list index

---
 facet-json/src/deserialize.rs | 24 +--------
 facet-reflect/src/wip/mod.rs  | 99 +++++++++++++++++++++++++++++++++--
 2 files changed, 97 insertions(+), 26 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index 174417a..fedec11 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -578,28 +578,8 @@ pub fn from_slice_wip<'input, 'a>(
                                 "Default struct has missing fields, the `default` impl but it does not implement Default"
                             )
                         }
-                        let default_struct_val = Wip::alloc_shape(wip.shape())
-                            .put_default()
-                            .unwrap()
-                            .build()
-                            .unwrap();
-                        let peek = default_struct_val.peek().into_struct().unwrap();
-
-                        // For every missing field, take it from the peek and copy it into the wip
-                        if let Def::Struct(sd) = wip.shape().def {
-                            for i in 0..sd.fields.len() {
-                                if !wip.is_field_set(i).unwrap() {
-                                    let field_value = peek.field(i).unwrap();
-                                    wip = wip
-                                        .field(i)
-                                        .unwrap()
-                                        .put_peek(field_value)
-                                        .unwrap()
-                                        .pop()
-                                        .unwrap();
-                                }
-                            }
-                        }
+                        // For every missing field, take it from the default value
+                        wip = wip.fill_unset_fields_from_default().unwrap();
                     }
 
                     if frame_count == 1 {
diff --git a/facet-reflect/src/wip/mod.rs b/facet-reflect/src/wip/mod.rs
index 1b0beb3..da34cd8 100644
--- a/facet-reflect/src/wip/mod.rs
+++ b/facet-reflect/src/wip/mod.rs
@@ -265,7 +265,6 @@ impl IState {
     }
 
     /// Sets the list index and returns self for method chaining
-    #[allow(dead_code)]
     pub fn with_list_index(mut self, index: usize) -> Self {
         self.list_index = Some(index);
         self
@@ -318,12 +317,95 @@ pub struct Wip<'a> {
 }
 
 impl<'a> Wip<'a> {
-    /// Puts the value from a Peek into the current frame.
+    /// Puts a clone of the value from a Peek into the current frame.
+    ///
+    /// The peek only borrows its value, so this fails for types that don't implement `Clone`.
     pub fn put_peek<'mem>(self, peek: crate::Peek<'mem>) -> Result<Wip<'mem>, ReflectError>
     where
         'a: 'mem,
     {
-        self.put_shape(peek.data, peek.shape)
+        let shape = peek.shape;
+        let Some(clone_into) = shape.vtable.clone_into else {
+            return Err(ReflectError::OperationFailed {
+                shape,
+                operation: "type does not implement Clone",
+            });
+        };
+
+        let mut clone = Frame {
+            data: shape.allocate(),
+            shape,
+            field_index_in_parent: None,
+            istate: IState::new(0, FrameMode::Root, FrameFlags::ALLOCATED),
+        };
+        let src = unsafe {
+            clone_into(peek.data, clone.data);
+            PtrConst::new(clone.data.as_byte_ptr())
+        };
+        let res = self.put_shape(src, shape);
+        if res.is_err() {
+            // ownership was _not_ moved into Wip
+            if let Some(drop_in_place) = shape.vtable.drop_in_place {
+                unsafe { drop_in_place(clone.data.assume_init()) };
+            }
+        }
+        clone.dealloc_if_needed();
+        res
+    }
+
+    /// Sets the fields of the current struct that aren't set yet to what they are in the default
+    /// value of that struct.
+    pub fn fill_unset_fields_from_default(mut self) -> Result<Self, ReflectError> {
+        let frame = self.frame_to_init()?;
+        let shape = frame.shape;
+        let data = frame.data;
+        let Def::Struct(sd) = shape.def else {
+            return Err(ReflectError::WasNotA {
+                expected: "struct",
+                actual: shape,
+            });
+        };
+        let Some(default_in_place) = shape.vtable.default_in_place else {
+            return Err(ReflectError::OperationFailed {
+                shape,
+                operation: "type does not implement Default",
+            });
+        };
+
+        let mut default = Frame {
+            data: shape.allocate(),
+            shape,
+            field_index_in_parent: None,
+            istate: IState::new(0, FrameMode::Root, FrameFlags::ALLOCATED),
+        };
+        unsafe {
+            default_in_place(default.data);
+            default.mark_fully_initialized();
+        }
+        for (i, field) in sd.fields.iter().enumerate() {
+            if self.is_field_set(i)? {
+                continue;
+            }
+            let field_data = unsafe { data.field_uninit_at(field.offset) };
+            // discard what was set of that field, if it was left half-way
+            let id = ValueId::new(field.shape(), field_data.as_byte_ptr());
+            if let Some(istate) = self.istates.remove(&id) {
+                Frame::recompose(id, istate).deinit(&mut self.istates);
+            }
+            // move it out of the default value
+            unsafe {
+                let src = PtrConst::new(default.data.field_uninit_at(field.offset).as_byte_ptr());
+                field_data.copy_from(src, field.shape());
+            }
+            default.istate.fields.unset(i);
+            if let Some(frame) = self.frames.last_mut() {
+                frame.istate.fields.set(i);
+            }
+        }
+        // drop the fields we didn't need
+        default.deinit(&mut self.istates);
+        default.dealloc_if_needed();
+        Ok(self)
     }
 
     /// Returns the number of frames on the stack
@@ -991,6 +1073,14 @@ impl<'a> Wip<'a> {
         // Get the element type
         let element_shape = self.element_shape()?;
 
+        // The element's index is however many the list holds already
+        let index = match (list_shape.def, self.frames.last()) {
+            (Def::List(list_def), Some(frame)) => unsafe {
+                (list_def.vtable.len)(PtrConst::new(frame.data.as_byte_ptr()))
+            },
+            _ => 0,
+        };
+
         // Allocate memory for the element
         let element_data = element_shape.allocate();
 
@@ -1003,7 +1093,8 @@ impl<'a> Wip<'a> {
                 self.frames.len(),
                 FrameMode::ListElement,
                 FrameFlags::ALLOCATED,
-            ),
+            )
+            .with_list_index(index),
         };
 
         trace!(
-- 
2.43.0


From 44f794dd24e9429a5cb55d345f9cf6b90022333c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:19 +0000
Subject: [PATCH 11/61] fix: JSON string escapes other than \" and \\ were
 decoded to the wrong character, or accepted when invalid

---
 facet-json/src/deserialize.rs | 150 ++++++++++++++++++++++------------
 1 file changed, 99 insertions(+), 51 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index fedec11..e04a201 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -2,6 +2,7 @@ use facet_core::{Characteristic, Def, Facet, FieldAttribute, ScalarAffinity, Sha
 use facet_reflect::{HeapValue, Wip};
 use log::trace;
 
+use alloc::borrow::Cow;
 use alloc::format;
 use alloc::string::{String, ToString};
 use alloc::vec::Vec;
@@ -202,57 +203,9 @@ pub fn from_slice_wip<'input, 'a>(
                     }
                     b'"' => {
                         pos += 1;
-                        let start = pos;
-                        // Our value is a string: collect bytes first
-                        let mut bytes = Vec::new();
-                        loop {
-                            let Some(c) = input.get(pos).copied() else {
-                                bail!(JsonErrorKind::UnexpectedEof("nothing after \""));
-                            };
-                            match c {
-                                b'"' => {
-                                    break;
-                                }
-                                b'\\' => {
-                                    // Handle escape sequences
-                                    if let Some(&next) = input.get(pos + 1) {
-                                        if bytes.is_empty() {
-                                            bytes.extend(&input[start..pos]);
-                                        }
-                                        bytes.push(next);
-                                        pos += 2;
-                                    } else {
-                                        bail!(JsonErrorKind::UnexpectedEof("nothing after \\"));
-                                    }
-                                }
-                                _ => {
-                                    if !bytes.is_empty() {
-                                        bytes.push(c);
-                                    }
-                                    pos += 1;
-                                }
-                            }
-                        }
-                        let end = pos;
-                        pos += 1;
-
-                        let value = if bytes.is_empty() {
-                            match core::str::from_utf8(&input[start..end]) {
-                                Ok(it) => alloc::borrow::Cow::Borrowed(it),
-                                Err(e) => bail!(JsonErrorKind::InvalidUtf8(format!(
-                                    "Invalid UTF-8 sequence: {}",
-                                    e
-                                ))),
-                            }
-                        } else {
-                            // Convert collected bytes to string at once
-                            match alloc::string::String::from_utf8(bytes) {
-                                Ok(it) => alloc::borrow::Cow::Owned(it),
-                                Err(e) => bail!(JsonErrorKind::InvalidUtf8(format!(
-                                    "Invalid UTF-8 sequence: {}",
-                                    e
-                                ))),
-                            }
+                        let value = match parse_string(&mut pos, input) {
+                            Ok(value) => value,
+                            Err(kind) => bail!(kind),
                         };
 
                         trace!(
@@ -593,6 +546,101 @@ pub fn from_slice_wip<'input, 'a>(
     }
 }
 
+/// Parses a string, `pos` being just after the opening quote, and moves past the closing quote.
+fn parse_string<'input>(
+    pos: &mut usize,
+    input: &'input [u8],
+) -> Result<Cow<'input, str>, JsonErrorKind> {
+    let start = *pos;
+    // only used if there are escape sequences
+    let mut unescaped: Option<Vec<u8>> = None;
+
+    loop {
+        let Some(c) = input.get(*pos).copied() else {
+            return Err(JsonErrorKind::UnexpectedEof("nothing after \""));
+        };
+        match c {
+            b'"' => break,
+            b'\\' => {
+                let bytes = unescaped.get_or_insert_with(|| input[start..*pos].to_vec());
+                *pos += 1;
+                let c = parse_escape(pos, input)?;
+                bytes.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
+            }
+            // control characters must be escaped
+            0..=0x1f => return Err(JsonErrorKind::UnexpectedCharacter(c as char)),
+            _ => {
+                if let Some(bytes) = &mut unescaped {
+                    bytes.push(c);
+                }
+                *pos += 1;
+            }
+        }
+    }
+    let end = *pos;
+    *pos += 1;
+
+    let invalid_utf8 = |e| JsonErrorKind::InvalidUtf8(format!("Invalid UTF-8 sequence: {}", e));
+    match unescaped {
+        None => core::str::from_utf8(&input[start..end])
+            .map(Cow::Borrowed)
+            .map_err(invalid_utf8),
+        Some(bytes) => String::from_utf8(bytes)
+            .map(Cow::Owned)
+            .map_err(|e| invalid_utf8(e.utf8_error())),
+    }
+}
+
+/// Parses an escape sequence, `pos` being just after the backslash, and moves past it.
+fn parse_escape(pos: &mut usize, input: &[u8]) -> Result<char, JsonErrorKind> {
+    let Some(c) = input.get(*pos).copied() else {
+        return Err(JsonErrorKind::UnexpectedEof("nothing after \\"));
+    };
+    *pos += 1;
+    Ok(match c {
+        b'"' | b'\\' | b'/' => c as char,
+        b'b' => '\u{8}',
+        b'f' => '\u{c}',
+        b'n' => '\n',
+        b'r' => '\r',
+        b't' => '\t',
+        b'u' => {
+            let mut code = parse_hex4(pos, input)?;
+            // characters outside of the basic multilingual plane are written as surrogate pairs
+            if (0xd800..0xdc00).contains(&code) && input[*pos..].starts_with(b"\\u") {
+                *pos += 2;
+                let low = parse_hex4(pos, input)?;
+                if !(0xdc00..0xe000).contains(&low) {
+                    return Err(JsonErrorKind::UnexpectedCharacter('u'));
+                }
+                code = 0x10000 + ((code - 0xd800) << 10) + (low - 0xdc00);
+            }
+            // lone surrogates aren't characters
+            char::from_u32(code).ok_or(JsonErrorKind::UnexpectedCharacter('u'))?
+        }
+        _ => {
+            *pos -= 1;
+            return Err(JsonErrorKind::UnexpectedCharacter(c as char));
+        }
+    })
+}
+
+/// Parses the four hexadecimal digits of a unicode escape sequence, and moves past them.
+fn parse_hex4(pos: &mut usize, input: &[u8]) -> Result<u32, JsonErrorKind> {
+    let mut code = 0;
+    for _ in 0..4 {
+        let Some(c) = input.get(*pos).copied() else {
+            return Err(JsonErrorKind::UnexpectedEof("nothing after \\u"));
+        };
+        let Some(digit) = (c as char).to_digit(16) else {
+            return Err(JsonErrorKind::UnexpectedCharacter(c as char));
+        };
+        code = code * 16 + digit;
+        *pos += 1;
+    }
+    Ok(code)
+}
+
 fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
     let bytes = input;
 
-- 
2.43.0


From 97295f52895be551d8ae8f894c8ba3f858e74990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:47 +0000
Subject: [PATCH 12/61] fix: JSON numbers went through f64 (losing integer
 digits), exponents were refused and malformed numbers panicked

---
 facet-json/src/deserialize.rs | 123 +++++++++++++++++++++++++++++-----
 1 file changed, 106 insertions(+), 17 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index e04a201..6e5feae 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -318,27 +318,43 @@ pub fn from_slice_wip<'input, 'a>(
                         }
                     }
                     b'0'..=b'9' | b'-' => {
-                        pos += 1;
-                        let start = pos - 1;
-                        while let Some(c) = input.get(pos) {
-                            match c {
-                                b'0'..=b'9' | b'.' => {
-                                    pos += 1;
-                                }
-                                _ => break,
-                            }
-                        }
-                        let number = &input[start..pos];
-                        let number = core::str::from_utf8(number).unwrap();
-                        let number = number.parse::<f64>().unwrap();
+                        let number = match parse_number(&mut pos, input) {
+                            Ok(number) => number,
+                            Err(kind) => bail!(kind),
+                        };
                         trace!("Parsed {:?}", number.yellow());
+                        let approx = number.parse::<f64>().unwrap_or(f64::NAN);
 
-                        // Prefer try_put_f64 only if actually supported (can_put_f64)
+                        // Only put it in if a number is actually supported (can_put_f64)
+                        let shape = wip.shape();
                         if wip.can_put_f64() {
-                            wip = wip.try_put_f64(number).unwrap();
+                            // Go through the text rather than through the f64, which cannot
+                            // represent all integers
+                            let text = if shape.is_type::<f32>() {
+                                (number.parse::<f32>().is_ok_and(|n| n.is_finite()))
+                                    .then_some(Cow::Borrowed(number))
+                            } else if shape.is_type::<f64>() {
+                                approx.is_finite().then_some(Cow::Borrowed(number))
+                            } else {
+                                integer_text(number)
+                            };
+                            let Some(text) = text else {
+                                bail!(JsonErrorKind::NumberOutOfRange(approx));
+                            };
+                            let path = wip.path();
+                            wip = match wip.parse(&text) {
+                                Ok(wip) => wip,
+                                Err(_) => {
+                                    return Err(JsonParseErrorWithContext::new(
+                                        JsonErrorKind::NumberOutOfRange(approx),
+                                        input,
+                                        pos,
+                                        path,
+                                    ));
+                                }
+                            };
                         } else {
                             // If string affinity (eg, expecting a string, but got number)
-                            let shape = wip.shape();
                             if let Def::Scalar(sd) = shape.def {
                                 if let ScalarAffinity::String(_) = sd.affinity {
                                     if shape.is_type::<String>() {
@@ -348,7 +364,7 @@ pub fn from_slice_wip<'input, 'a>(
                                 }
                             }
                             // fallback for other shape mismatch (todo! or parse error)
-                            bail!(JsonErrorKind::NumberOutOfRange(number));
+                            bail!(JsonErrorKind::NumberOutOfRange(approx));
                         }
                         finished_value = Some(why);
                     }
@@ -641,6 +657,79 @@ fn parse_hex4(pos: &mut usize, input: &[u8]) -> Result<u32, JsonErrorKind> {
     Ok(code)
 }
 
+/// Parses a number, and moves past it: `-?(0|[1-9]\d*)(\.\d+)?([eE][+-]?\d+)?`
+fn parse_number<'input>(
+    pos: &mut usize,
+    input: &'input [u8],
+) -> Result<&'input str, JsonErrorKind> {
+    fn digits(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
+        match input.get(*pos).copied() {
+            Some(b'0'..=b'9') => {}
+            Some(c) => return Err(JsonErrorKind::UnexpectedCharacter(c as char)),
+            None => return Err(JsonErrorKind::UnexpectedEof("in the middle of a number")),
+        }
+        while let Some(b'0'..=b'9') = input.get(*pos) {
+            *pos += 1;
+        }
+        Ok(())
+    }
+
+    let start = *pos;
+    if input.get(*pos) == Some(&b'-') {
+        *pos += 1;
+    }
+    if input.get(*pos) == Some(&b'0') {
+        // leading zeros aren't allowed
+        *pos += 1;
+    } else {
+        digits(pos, input)?;
+    }
+    if input.get(*pos) == Some(&b'.') {
+        *pos += 1;
+        digits(pos, input)?;
+    }
+    if let Some(b'e' | b'E') = input.get(*pos) {
+        *pos += 1;
+        if let Some(b'+' | b'-') = input.get(*pos) {
+            *pos += 1;
+        }
+        digits(pos, input)?;
+    }
+    core::str::from_utf8(&input[start..*pos])
+        .map_err(|e| JsonErrorKind::InvalidUtf8(format!("Invalid UTF-8 sequence: {}", e)))
+}
+
+/// Rewrites a number without a fraction nor an exponent. Returns `None` if it's fractional, or
+/// doesn't fit any integer type.
+fn integer_text(number: &str) -> Option<Cow<'_, str>> {
+    if !number.contains(['.', 'e', 'E']) && number != "-0" {
+        return Some(Cow::Borrowed(number));
+    }
+    let (sign, number) = match number.strip_prefix('-') {
+        Some(number) => ("-", number),
+        None => ("", number),
+    };
+    let (mantissa, exponent) = number.split_once(['e', 'E']).unwrap_or((number, "0"));
+    let (int, frac) = mantissa.split_once('.').unwrap_or((mantissa, ""));
+    // leading and trailing zeros don't matter
+    let digits = format!("{int}{frac}");
+    let significant = digits.trim_end_matches('0');
+    let zeros = digits.len() - significant.len();
+    let significant = significant.trim_start_matches('0');
+    if significant.is_empty() {
+        return Some(Cow::Borrowed("0"));
+    }
+    let exponent = (exponent.parse::<i64>().ok()?)
+        .checked_add(zeros as i64)?
+        .checked_sub(frac.len() as i64)?;
+    // that's more digits than any integer type has
+    if !(0..40).contains(&exponent) {
+        return None;
+    }
+    let zeros = "0".repeat(exponent as usize);
+    Some(Cow::Owned(format!("{sign}{significant}{zeros}")))
+}
+
 fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
     let bytes = input;
 
-- 
2.43.0


From fc2744278ff4e34ae4aa3639c76d60540a44cccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:47 +0000
Subject: [PATCH 13/61] fix: try_put_f64 truncated fractional numbers and
 saturated at the limits of 64-bit integers

---
 facet-reflect/src/wip/put_f64.rs | 236 ++++++-------------------------
 1 file changed, 41 insertions(+), 195 deletions(-)

diff --git a/facet-reflect/src/wip/put_f64.rs b/facet-reflect/src/wip/put_f64.rs
index 0c0e05a..d171094 100644
--- a/facet-reflect/src/wip/put_f64.rs
+++ b/facet-reflect/src/wip/put_f64.rs
@@ -43,208 +43,54 @@ impl Wip<'_> {
             }
         }
 
+        let out_of_range = ReflectError::OperationFailed {
+            shape,
+            operation: "number out of range",
+        };
+
         // Match on the concrete Rust type
-        if shape.is_type::<u8>() {
-            if (0.0..=u8::MAX as f64).contains(&number) {
-                self.put(number as u8)
-            } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
-            }
-        } else if shape.is_type::<u16>() {
-            if (0.0..=u16::MAX as f64).contains(&number) {
-                self.put(number as u16)
-            } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
-            }
-        } else if shape.is_type::<u32>() {
-            if (0.0..=u32::MAX as f64).contains(&number) {
-                self.put(number as u32)
-            } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
-            }
-        } else if shape.is_type::<u64>() {
-            if (0.0..=u64::MAX as f64).contains(&number) {
-                self.put(number as u64)
-            } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
-            }
-        } else if shape.is_type::<usize>() {
-            if (0.0..=usize::MAX as f64).contains(&number) {
-                self.put(number as usize)
-            } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
-            }
-        } else if shape.is_type::<i8>() {
-            if (i8::MIN as f64..=i8::MAX as f64).contains(&number) {
-                self.put(number as i8)
-            } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
-            }
-        } else if shape.is_type::<i16>() {
-            if (i16::MIN as f64..=i16::MAX as f64).contains(&number) {
-                self.put(number as i16)
-            } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
-            }
-        } else if shape.is_type::<i32>() {
-            if (i32::MIN as f64..=i32::MAX as f64).contains(&number) {
-                self.put(number as i32)
-            } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
-            }
-        } else if shape.is_type::<i64>() {
-            if (i64::MIN as f64..=i64::MAX as f64).contains(&number) {
-                self.put(number as i64)
-            } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
-            }
-        } else if shape.is_type::<isize>() {
-            if (isize::MIN as f64..=isize::MAX as f64).contains(&number) {
-                self.put(number as isize)
-            } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
-            }
-        } else if shape.is_type::<f32>() {
+        macro_rules! put_integer {
+            ($($int:ty, $non_zero:ty;)*) => {
+                $(
+                    if shape.is_type::<$int>() || shape.is_type::<$non_zero>() {
+                        // `MAX as f64` might round up, but `MAX + 1` is a power of two
+                        let in_range =
+                            number >= <$int>::MIN as f64 && number < <$int>::MAX as f64 + 1.0;
+                        let value = number as $int;
+                        // fractional numbers cannot be represented
+                        if !in_range || value as f64 != number {
+                            return Err(out_of_range);
+                        }
+                        return if shape.is_type::<$int>() {
+                            self.put(value)
+                        } else {
+                            self.put(<$non_zero>::new(value).ok_or(out_of_range)?)
+                        };
+                    }
+                )*
+            };
+        }
+        put_integer! {
+            u8, NonZeroU8;
+            u16, NonZeroU16;
+            u32, NonZeroU32;
+            u64, NonZeroU64;
+            usize, NonZeroUsize;
+            i8, NonZeroI8;
+            i16, NonZeroI16;
+            i32, NonZeroI32;
+            i64, NonZeroI64;
+            isize, NonZeroIsize;
+        }
+
+        if shape.is_type::<f32>() {
             if (f32::MIN as f64..=f32::MAX as f64).contains(&number) {
                 self.put(number as f32)
             } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
+                Err(out_of_range)
             }
         } else if shape.is_type::<f64>() {
             self.put(number)
-        } else if shape.is_type::<NonZeroU8>() {
-            if (1.0..=u8::MAX as f64).contains(&number) {
-                let value = NonZeroU8::new(number as u8).unwrap();
-                self.put(value)
-            } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
-            }
-        } else if shape.is_type::<NonZeroU16>() {
-            if (1.0..=u16::MAX as f64).contains(&number) {
-                let value = NonZeroU16::new(number as u16).unwrap();
-                self.put(value)
-            } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
-            }
-        } else if shape.is_type::<NonZeroU32>() {
-            if (1.0..=u32::MAX as f64).contains(&number) {
-                let value = NonZeroU32::new(number as u32).unwrap();
-                self.put(value)
-            } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
-            }
-        } else if shape.is_type::<NonZeroU64>() {
-            if (1.0..=u64::MAX as f64).contains(&number) {
-                let value = NonZeroU64::new(number as u64).unwrap();
-                self.put(value)
-            } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
-            }
-        } else if shape.is_type::<NonZeroUsize>() {
-            if (1.0..=usize::MAX as f64).contains(&number) {
-                let value = NonZeroUsize::new(number as usize).unwrap();
-                self.put(value)
-            } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
-            }
-        } else if shape.is_type::<NonZeroI8>() {
-            if (1.0..=i8::MAX as f64).contains(&number) {
-                let value = NonZeroI8::new(number as i8).unwrap();
-                self.put(value)
-            } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
-            }
-        } else if shape.is_type::<NonZeroI16>() {
-            if (1.0..=i16::MAX as f64).contains(&number) {
-                let value = NonZeroI16::new(number as i16).unwrap();
-                self.put(value)
-            } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
-            }
-        } else if shape.is_type::<NonZeroI32>() {
-            if (1.0..=i32::MAX as f64).contains(&number) {
-                let value = NonZeroI32::new(number as i32).unwrap();
-                self.put(value)
-            } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
-            }
-        } else if shape.is_type::<NonZeroI64>() {
-            if (1.0..=i64::MAX as f64).contains(&number) {
-                let value = NonZeroI64::new(number as i64).unwrap();
-                self.put(value)
-            } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
-            }
-        } else if shape.is_type::<NonZeroIsize>() {
-            if (1.0..=isize::MAX as f64).contains(&number) {
-                let value = NonZeroIsize::new(number as isize).unwrap();
-                self.put(value)
-            } else {
-                Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "number out of range",
-                })
-            }
         } else {
             Err(ReflectError::OperationFailed {
                 shape,
-- 
2.43.0


From 73ea54c3146a32443ca985391a35cf81c8cdb25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:45 +0000
Subject: [PATCH 14/61] fix: JSON deserialization panicked on mistyped
 documents, accepted trailing garbage and mishandled top-level options and
 blank-filled empty objects and arrays

---
 facet-json/src/deserialize.rs       | 166 ++++++++++++++--------------
 facet-json/src/deserialize/error.rs |   5 +
 2 files changed, 91 insertions(+), 80 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index 6e5feae..c9f4538 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -1,4 +1,4 @@
-use facet_core::{Characteristic, Def, Facet, FieldAttribute, ScalarAffinity, ShapeAttribute};
+use facet_core::{Def, Facet, FieldAttribute, ScalarAffinity, ShapeAttribute};
 use facet_reflect::{HeapValue, Wip};
 use log::trace;
 
@@ -66,6 +66,30 @@ pub fn from_slice_wip<'input, 'a>(
             return err!($kind)
         };
     }
+    // Performs an operation on the wip, which is gone if that fails
+    macro_rules! reflect {
+        ($($op:tt)*) => {{
+            let path = wip.path();
+            match wip.$($op)* {
+                Ok(it) => it,
+                Err(e) => {
+                    return Err(JsonParseErrorWithContext::new(
+                        JsonErrorKind::ReflectError(e),
+                        input,
+                        pos,
+                        path,
+                    ));
+                }
+            }
+        }};
+    }
+    macro_rules! skip_whitespace {
+        () => {
+            while let Some(b' ' | b'\t' | b'\n' | b'\r') = input.get(pos) {
+                pos += 1;
+            }
+        };
+    }
 
     /// Indicates why we are expecting a value in the parsing stack.
     #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -113,32 +137,30 @@ pub fn from_slice_wip<'input, 'a>(
     stack.push(Expect::Value(WhyValue::TopLevel));
 
     loop {
-        // skip over whitespace
-        while let Some(c) = input.get(pos).copied() {
-            match c {
-                b' ' | b'\t' | b'\n' | b'\r' => {
-                    pos += 1;
-                }
-                _ => break,
-            }
-        }
+        skip_whitespace!();
 
         let frame_count = wip.frames_count();
         let expect = match stack.pop() {
             Some(expect) => expect,
             None => {
-                if frame_count == 1 {
-                    return Ok(wip.build().unwrap());
-                } else {
+                if frame_count != 1 {
                     trace!("frame_count isn't 1, it's {}", frame_count);
                     bail!(JsonErrorKind::UnexpectedEof("frame_count isn't 1"));
                 }
+                // there must be nothing after the value
+                if let Some(c) = input.get(pos).copied() {
+                    bail!(JsonErrorKind::UnexpectedCharacter(c as char));
+                }
+                return Ok(reflect!(build()));
             }
         };
         trace!("[{frame_count}] Expecting {:?}", expect.yellow());
 
-        let Some(c) = input.get(pos).copied() else {
-            bail!(JsonErrorKind::UnexpectedEof("no input at pos"));
+        let c = match input.get(pos).copied() {
+            Some(c) => c,
+            // popping an option doesn't require any input
+            None if expect == Expect::PopOption => b'\0',
+            None => bail!(JsonErrorKind::UnexpectedEof("no input at pos")),
         };
 
         let mut finished_value: Option<WhyValue> = None;
@@ -150,15 +172,27 @@ pub fn from_slice_wip<'input, 'a>(
                 finished_value = Some(WhyValue::ObjectValue);
             }
             Expect::Value(why) => {
-                if let Def::Option(_) = wip.shape().def {
-                    wip = wip.push_some().unwrap();
-                    stack.push(Expect::PopOption);
+                if why == WhyValue::ObjectKey {
+                    // only strings can be keys
+                    if c != b'"' {
+                        bail!(JsonErrorKind::UnexpectedCharacter(c as char));
+                    }
+                } else if c != b'n' {
+                    // null stands for the outermost option
+                    while let Def::Option(_) = wip.shape().def {
+                        wip = reflect!(push_some());
+                        stack.push(Expect::PopOption);
+                    }
                 }
 
                 match c {
                     b'{' => {
                         trace!("Object starting");
+                        if !matches!(wip.shape().def, Def::Struct(_)) {
+                            bail!(JsonErrorKind::UnexpectedCharacter('{'));
+                        }
                         pos += 1;
+                        skip_whitespace!();
                         let Some(c) = input.get(pos).copied() else {
                             bail!(JsonErrorKind::UnexpectedEof("nothing after {"));
                         };
@@ -179,12 +213,17 @@ pub fn from_slice_wip<'input, 'a>(
                         }
                     }
                     b'[' => {
+                        if !matches!(wip.shape().def, Def::List(_)) {
+                            bail!(JsonErrorKind::UnexpectedCharacter('['));
+                        }
                         pos += 1;
+                        skip_whitespace!();
                         let Some(c) = input.get(pos).copied() else {
                             bail!(JsonErrorKind::UnexpectedEof("nothing after ["));
                         };
 
-                        wip = wip.begin_pushback().unwrap();
+                        // if that member occurs several times, the last one wins
+                        wip = reflect!(put_empty_list());
                         match c {
                             b']' => {
                                 // an array just closed, somewhere
@@ -196,7 +235,7 @@ pub fn from_slice_wip<'input, 'a>(
                                 // okay, next we expect an item and a separator (or the end of the array)
                                 stack.push(Expect::Separator(Separator::Comma(WhyComma::Array)));
                                 stack.push(Expect::Value(WhyValue::ArrayElement));
-                                wip = wip.push().unwrap();
+                                wip = reflect!(push());
                                 continue; // we didn't finish a value so don't pop yet
                             }
                         }
@@ -219,9 +258,9 @@ pub fn from_slice_wip<'input, 'a>(
                             WhyValue::TopLevel | WhyValue::ArrayElement | WhyValue::ObjectValue => {
                                 // skip the string parse impl
                                 if wip.current_is_type::<String>() {
-                                    wip = wip.put::<String>(value.into_owned()).unwrap();
+                                    wip = reflect!(put::<String>(value.into_owned()));
                                 } else {
-                                    wip = wip.parse(&value).unwrap();
+                                    wip = reflect!(parse(&value));
                                 }
                                 finished_value = Some(why);
                             }
@@ -248,7 +287,7 @@ pub fn from_slice_wip<'input, 'a>(
 
                                     if let Some(field) = field {
                                         trace!("found field {:?}", field.blue());
-                                        wip = wip.field_named(field.name).unwrap();
+                                        wip = reflect!(field_named(field.name));
                                     } else if shape.attributes.iter().any(|attr| {
                                         matches!(attr, ShapeAttribute::DenyUnknownFields)
                                     }) {
@@ -261,12 +300,7 @@ pub fn from_slice_wip<'input, 'a>(
                                             expect_colon,
                                             Some(Expect::Separator(Separator::Colon))
                                         ));
-                                        // skip over whitespace
-                                        while let Some(b' ' | b'\t' | b'\n' | b'\r') =
-                                            input.get(pos).copied()
-                                        {
-                                            pos += 1;
-                                        }
+                                        skip_whitespace!();
                                         // skip over colon
                                         if let Some(b':') = input.get(pos) {
                                             pos += 1;
@@ -279,12 +313,7 @@ pub fn from_slice_wip<'input, 'a>(
                                                     .unwrap_or('\0')
                                             ));
                                         }
-                                        // skip over whitespace
-                                        while let Some(b' ' | b'\t' | b'\n' | b'\r') =
-                                            input.get(pos).copied()
-                                        {
-                                            pos += 1;
-                                        }
+                                        skip_whitespace!();
                                         // pop Expect::Value
                                         let expect_value = stack.pop();
                                         assert!(matches!(
@@ -307,12 +336,8 @@ pub fn from_slice_wip<'input, 'a>(
                                         );
                                     }
                                 } else {
-                                    trace!(
-                                        "Getting field {}, not in a Struct, but in a... {}",
-                                        value.blue(),
-                                        wip.shape()
-                                    );
-                                    wip = wip.field_named(&value).expect("assuming only structs have a fixed set of fields (which is not true, cf. enums)");
+                                    // we only ever expect keys in structs
+                                    bail!(JsonErrorKind::UnknownField(value.into_owned()));
                                 }
                             }
                         }
@@ -376,7 +401,7 @@ pub fn from_slice_wip<'input, 'a>(
                             match shape.def {
                                 Def::Scalar(sd) => match sd.affinity {
                                     ScalarAffinity::Boolean(_) => {
-                                        wip = wip.put::<bool>(true).unwrap();
+                                        wip = reflect!(put::<bool>(true));
                                     }
                                     _ => {
                                         bail!(JsonErrorKind::UnexpectedCharacter('t'));
@@ -393,7 +418,7 @@ pub fn from_slice_wip<'input, 'a>(
                             match shape.def {
                                 Def::Scalar(sd) => match sd.affinity {
                                     ScalarAffinity::Boolean(_) => {
-                                        wip = wip.put::<bool>(false).unwrap();
+                                        wip = reflect!(put::<bool>(false));
                                     }
                                     _ => {
                                         bail!(JsonErrorKind::UnexpectedCharacter('f'));
@@ -412,10 +437,13 @@ pub fn from_slice_wip<'input, 'a>(
                         // wow it's a null — probably
                         let slice_rest = &input[pos..];
                         if slice_rest.starts_with(b"null") {
+                            let Def::Option(_) = wip.shape().def else {
+                                bail!(JsonErrorKind::UnexpectedCharacter('n'));
+                            };
                             pos += 4;
 
-                            // ok but we already pushed some! luckily wip has the method for us
-                            wip = wip.pop_some_push_none().unwrap();
+                            // the default of an option is None
+                            wip = reflect!(put_default());
                             finished_value = Some(why);
                         } else {
                             bail!(JsonErrorKind::UnexpectedCharacter('n'));
@@ -442,7 +470,7 @@ pub fn from_slice_wip<'input, 'a>(
                             WhyComma::Array => {
                                 stack.push(Expect::Separator(Separator::Comma(WhyComma::Array)));
                                 stack.push(Expect::Value(WhyValue::ArrayElement));
-                                wip = wip.push().unwrap();
+                                wip = reflect!(push());
                             }
                             WhyComma::Object => {
                                 // looks like we're in for another round of object parsing
@@ -467,9 +495,7 @@ pub fn from_slice_wip<'input, 'a>(
                         match why {
                             WhyComma::Array => {
                                 // we finished the array, neat
-                                if frame_count > 1 {
-                                    wip = wip.pop().unwrap();
-                                }
+                                finished_value = Some(WhyValue::ArrayElement);
                             }
                             _ => {
                                 bail!(JsonErrorKind::UnexpectedCharacter(c as char));
@@ -500,7 +526,7 @@ pub fn from_slice_wip<'input, 'a>(
                     // Ensure all struct fields are set before popping
                     if let Def::Struct(sd) = wip.shape().def {
                         for i in 0..sd.fields.len() {
-                            if !wip.is_field_set(i).unwrap() {
+                            if !matches!(wip.is_field_set(i), Ok(true)) {
                                 let missing_field: &'static str = sd.fields[i].name;
                                 if struct_has_default {
                                     has_missing_fields = true;
@@ -512,26 +538,12 @@ pub fn from_slice_wip<'input, 'a>(
                                             _ => None,
                                         })
                                     {
-                                        match attr {
-                                            Some(fun) => {
-                                                wip = wip
-                                                    .field(i)
-                                                    .unwrap()
-                                                    .put_from_fn(*fun)
-                                                    .unwrap()
-                                                    .pop()
-                                                    .unwrap();
-                                            }
-                                            None => {
-                                                wip = wip
-                                                    .field(i)
-                                                    .unwrap()
-                                                    .put_default()
-                                                    .unwrap()
-                                                    .pop()
-                                                    .unwrap();
-                                            }
-                                        }
+                                        wip = reflect!(field(i));
+                                        wip = match attr {
+                                            Some(fun) => reflect!(put_from_fn(*fun)),
+                                            None => reflect!(put_default()),
+                                        };
+                                        wip = reflect!(pop());
                                     } else {
                                         bail!(JsonErrorKind::MissingField(missing_field));
                                     }
@@ -542,19 +554,13 @@ pub fn from_slice_wip<'input, 'a>(
 
                     if has_missing_fields {
                         trace!("struct has missing fields but we have default");
-                        if !wip.shape().is(Characteristic::Default) {
-                            todo!(
-                                "Default struct has missing fields, the `default` impl but it does not implement Default"
-                            )
-                        }
                         // For every missing field, take it from the default value
-                        wip = wip.fill_unset_fields_from_default().unwrap();
+                        wip = reflect!(fill_unset_fields_from_default());
                     }
 
-                    if frame_count == 1 {
-                        return Ok(wip.build().unwrap());
-                    } else {
-                        wip = wip.pop().unwrap();
+                    // the root frame is the only one that isn't part of anything else
+                    if wip.frames_count() > 1 {
+                        wip = reflect!(pop());
                     }
                 }
             }
diff --git a/facet-json/src/deserialize/error.rs b/facet-json/src/deserialize/error.rs
index bb5b994..6195f7a 100644
--- a/facet-json/src/deserialize/error.rs
+++ b/facet-json/src/deserialize/error.rs
@@ -3,6 +3,8 @@ use alloc::format;
 #[cfg(feature = "alloc")]
 use alloc::string::String;
 
+use facet_reflect::ReflectError;
+
 #[cfg(feature = "rich-diagnostics")]
 use ariadne::{Color, Config, IndexType, Label, Report, ReportKind, Source};
 #[cfg(feature = "rich-diagnostics")]
@@ -45,6 +47,7 @@ impl<'input> JsonParseErrorWithContext<'input> {
             JsonErrorKind::StringAsNumber(s) => format!("Expected a string but got number: {}", s),
             JsonErrorKind::UnknownField(f) => format!("Unknown field: {}", f),
             JsonErrorKind::InvalidUtf8(e) => format!("Invalid UTF-8 encoding: {}", e),
+            JsonErrorKind::ReflectError(e) => format!("Value does not fit the type: {}", e),
         }
     }
 }
@@ -66,6 +69,8 @@ pub enum JsonErrorKind {
     UnknownField(String),
     /// A string that could not be built into valid UTF-8 Unicode
     InvalidUtf8(String),
+    /// A value doesn't fit the type it's deserialized into
+    ReflectError(ReflectError),
 }
 
 #[cfg(not(feature = "rich-diagnostics"))]
-- 
2.43.0


From acba2a87c7761b3dbd2b750cbb229b3ead09382d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:28 +0000
Subject: [PATCH 15/61] fix: JSON deserialization skipped malformed unknown
 members (unterminated strings, non-string keys, bad numbers) and overflowed
 the stack on deep ones

---
 facet-json/src/deserialize.rs | 232 ++++++++++------------------------
 1 file changed, 67 insertions(+), 165 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index c9f4538..0868d4d 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -736,194 +736,96 @@ fn integer_text(number: &str) -> Option<Cow<'_, str>> {
     Some(Cow::Owned(format!("{sign}{significant}{zeros}")))
 }
 
+/// Skips a whole value, however nested, `pos` being at its first character, and moves past it.
 fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
-    let bytes = input;
-
-    // Helper for skipping whitespace
-    let skip_whitespace = |pos: &mut usize| {
-        while *pos < bytes.len() {
-            match bytes[*pos] {
-                b' ' | b'\t' | b'\n' | b'\r' => *pos += 1,
-                _ => break,
-            }
+    fn next(pos: &mut usize, input: &[u8]) -> Result<u8, JsonErrorKind> {
+        while let Some(b' ' | b'\t' | b'\n' | b'\r') = input.get(*pos) {
+            *pos += 1;
         }
-    };
-
-    skip_whitespace(pos);
+        input
+            .get(*pos)
+            .copied()
+            .ok_or(JsonErrorKind::UnexpectedEof("while skipping over value"))
+    }
 
-    if *pos >= bytes.len() {
-        return Err(JsonErrorKind::UnexpectedEof(
-            "while skipping over value: input ended unexpectedly at root",
-        ));
+    // Skips `"key":`
+    fn skip_over_key(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
+        match next(pos, input)? {
+            b'"' => *pos += 1,
+            c => return Err(JsonErrorKind::UnexpectedCharacter(c as char)),
+        }
+        parse_string(pos, input)?;
+        match next(pos, input)? {
+            b':' => *pos += 1,
+            c => return Err(JsonErrorKind::UnexpectedCharacter(c as char)),
+        }
+        Ok(())
     }
 
-    match bytes[*pos] {
-        b'{' => {
-            // Skip a full object, recursively
-            *pos += 1;
-            skip_whitespace(pos);
-            if *pos < bytes.len() && bytes[*pos] == b'}' {
-                *pos += 1;
-                return Ok(());
-            }
-            loop {
-                // Skip key
-                skip_over_value(pos, input)?;
-                skip_whitespace(pos);
-                // Expect colon between key and value
-                if *pos >= bytes.len() || bytes[*pos] != b':' {
-                    return Err(JsonErrorKind::UnexpectedEof(
-                        "while skipping over value: object key with no colon or input ended",
-                    ));
-                }
+    // The closing characters of the objects and arrays we're in. That's not done recursively, as
+    // they may be nested deeper than the stack allows.
+    let mut open: Vec<u8> = Vec::new();
+
+    loop {
+        // Skip a scalar, an empty object or array, or the start of a non-empty one
+        match next(pos, input)? {
+            b'{' => {
                 *pos += 1;
-                skip_whitespace(pos);
-                // Skip value
-                skip_over_value(pos, input)?;
-                skip_whitespace(pos);
-                if *pos >= bytes.len() {
-                    return Err(JsonErrorKind::UnexpectedEof(
-                        "while skipping over value: object value with EOF after",
-                    ));
-                }
-                if bytes[*pos] == b'}' {
-                    *pos += 1;
-                    break;
-                } else if bytes[*pos] == b',' {
-                    *pos += 1;
-                    skip_whitespace(pos);
+                if next(pos, input)? != b'}' {
+                    open.push(b'}');
+                    skip_over_key(pos, input)?;
                     continue;
-                } else {
-                    return Err(JsonErrorKind::UnexpectedCharacter(bytes[*pos] as char));
                 }
-            }
-        }
-        b'[' => {
-            // Skip a full array, recursively
-            *pos += 1;
-            skip_whitespace(pos);
-            if *pos < bytes.len() && bytes[*pos] == b']' {
                 *pos += 1;
-                return Ok(());
             }
-            loop {
-                skip_over_value(pos, input)?;
-                skip_whitespace(pos);
-                if *pos >= bytes.len() {
-                    return Err(JsonErrorKind::UnexpectedEof(
-                        "while skipping over value: EOF inside array",
-                    ));
-                }
-                if bytes[*pos] == b']' {
-                    *pos += 1;
-                    break;
-                } else if bytes[*pos] == b',' {
-                    *pos += 1;
-                    skip_whitespace(pos);
+            b'[' => {
+                *pos += 1;
+                if next(pos, input)? != b']' {
+                    open.push(b']');
                     continue;
-                } else {
-                    return Err(JsonErrorKind::UnexpectedCharacter(bytes[*pos] as char));
-                }
-            }
-        }
-        b'"' => {
-            // Skip a string, with escape processing
-            *pos += 1;
-            while *pos < bytes.len() {
-                match bytes[*pos] {
-                    b'\\' => {
-                        // Could have EOF after backslash
-                        if *pos + 1 >= bytes.len() {
-                            return Err(JsonErrorKind::UnexpectedEof(
-                                "while skipping over value: EOF after backslash in string",
-                            ));
-                        }
-                        *pos += 2; // Skip backslash and the next character (escaped)
-                    }
-                    b'"' => {
-                        *pos += 1;
-                        break;
-                    }
-                    _ => {
-                        *pos += 1;
-                    }
                 }
-            }
-            if *pos > bytes.len() {
-                return Err(JsonErrorKind::UnexpectedEof(
-                    "while skipping over value: string ended unexpectedly",
-                ));
-            }
-        }
-        b't' => {
-            // Expect "true"
-            if bytes.len() >= *pos + 4 && &bytes[*pos..*pos + 4] == b"true" {
-                *pos += 4;
-            } else {
-                return Err(JsonErrorKind::UnexpectedCharacter('t'));
-            }
-        }
-        b'f' => {
-            // Expect "false"
-            if bytes.len() >= *pos + 5 && &bytes[*pos..*pos + 5] == b"false" {
-                *pos += 5;
-            } else {
-                return Err(JsonErrorKind::UnexpectedCharacter('f'));
-            }
-        }
-        b'n' => {
-            // Expect "null"
-            if bytes.len() >= *pos + 4 && &bytes[*pos..*pos + 4] == b"null" {
-                *pos += 4;
-            } else {
-                return Err(JsonErrorKind::UnexpectedCharacter('n'));
-            }
-        }
-        b'-' | b'0'..=b'9' => {
-            // Skip a number: -?\d+(\.\d+)?([eE][+-]?\d+)?
-            let start = *pos;
-            if bytes[*pos] == b'-' {
                 *pos += 1;
             }
-            if *pos < bytes.len() && bytes[*pos] == b'0' {
+            b'"' => {
                 *pos += 1;
-            } else {
-                while *pos < bytes.len() && (bytes[*pos] as char).is_ascii_digit() {
-                    *pos += 1;
-                }
+                parse_string(pos, input)?;
             }
-            if *pos < bytes.len() && bytes[*pos] == b'.' {
-                *pos += 1;
-                let mut has_digit = false;
-                while *pos < bytes.len() && (bytes[*pos] as char).is_ascii_digit() {
-                    *pos += 1;
-                    has_digit = true;
-                }
-                if !has_digit {
-                    return Err(JsonErrorKind::UnexpectedCharacter('.'));
+            b'-' | b'0'..=b'9' => {
+                parse_number(pos, input)?;
+            }
+            c => {
+                let literal: &[u8] = match c {
+                    b't' => b"true",
+                    b'f' => b"false",
+                    b'n' => b"null",
+                    _ => return Err(JsonErrorKind::UnexpectedCharacter(c as char)),
+                };
+                if !input[*pos..].starts_with(literal) {
+                    return Err(JsonErrorKind::UnexpectedCharacter(c as char));
                 }
+                *pos += literal.len();
             }
-            if *pos < bytes.len() && (bytes[*pos] == b'e' || bytes[*pos] == b'E') {
-                *pos += 1;
-                if *pos < bytes.len() && (bytes[*pos] == b'+' || bytes[*pos] == b'-') {
+        }
+
+        // Close whatever that value was the last of
+        loop {
+            let Some(close) = open.last().copied() else {
+                return Ok(());
+            };
+            match next(pos, input)? {
+                b',' => {
                     *pos += 1;
+                    if close == b'}' {
+                        skip_over_key(pos, input)?;
+                    }
+                    break;
                 }
-                let mut has_digit = false;
-                while *pos < bytes.len() && (bytes[*pos] as char).is_ascii_digit() {
+                c if c == close => {
                     *pos += 1;
-                    has_digit = true;
+                    open.pop();
                 }
-                if !has_digit {
-                    return Err(JsonErrorKind::UnexpectedCharacter('e'));
-                }
-            }
-            if *pos == start {
-                return Err(JsonErrorKind::UnexpectedCharacter(bytes[start] as char));
+                c => return Err(JsonErrorKind::UnexpectedCharacter(c as char)),
             }
         }
-        _ => {
-            return Err(JsonErrorKind::UnexpectedCharacter(bytes[*pos] as char));
-        }
     }
-    Ok(())
 }
-- 
2.43.0


From 3d5502949e0ad4ce4a6beb0ba88ad66204efbf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:44 +0000
Subject: [PATCH 16/61] fix: JSON members were given to a field of that
 original name rather than to the field renamed so, and errors could not be
 displayed for short inputs

---
 facet-json/src/deserialize.rs       | 13 ++++++-------
 facet-json/src/deserialize/error.rs |  8 ++++++--
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index 0868d4d..96fb03b 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -269,13 +269,9 @@ pub fn from_slice_wip<'input, 'a>(
                                 let shape = wip.shape();
 
                                 if let Def::Struct(struct_def) = shape.def {
-                                    let field = struct_def.fields.iter().find(|f| {
-                                        // Check original name
-                                        if f.name == value {
-                                            return true;
-                                        }
-
-                                        // Check rename attribute
+                                    // The name a field was given takes precedence over the
+                                    // original name of another one
+                                    let renamed = struct_def.fields.iter().find(|f| {
                                         f.attributes.iter().any(|attr| {
                                             if let &FieldAttribute::Rename(rename) = attr {
                                                 rename == value
@@ -284,6 +280,9 @@ pub fn from_slice_wip<'input, 'a>(
                                             }
                                         })
                                     });
+                                    let field = renamed.or_else(|| {
+                                        struct_def.fields.iter().find(|f| f.name == value)
+                                    });
 
                                     if let Some(field) = field {
                                         trace!("found field {:?}", field.blue());
diff --git a/facet-json/src/deserialize/error.rs b/facet-json/src/deserialize/error.rs
index 6195f7a..955a5c0 100644
--- a/facet-json/src/deserialize/error.rs
+++ b/facet-json/src/deserialize/error.rs
@@ -96,8 +96,12 @@ impl core::fmt::Display for JsonParseErrorWithContext<'_> {
         let source_id = "json";
 
         let (span_start, span_end) = match &self.kind {
-            JsonErrorKind::StringAsNumber(s) => (self.pos - s.len(), self.pos),
-            JsonErrorKind::UnknownField(f) => (self.pos - f.len() - 1, self.pos - 1),
+            JsonErrorKind::StringAsNumber(s) => (self.pos.saturating_sub(s.len()), self.pos),
+            // the name is written longer than it is if it has escape sequences
+            JsonErrorKind::UnknownField(f) => {
+                let span_end = self.pos.saturating_sub(1);
+                (span_end.saturating_sub(f.len()), span_end)
+            }
             _ => {
                 let span_end = if self.pos < self.input.len() {
                     self.pos + 1
-- 
2.43.0


From 97f5414ed176a6418e67aa3c70885d0e237a948f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:01 +0000
Subject: [PATCH 17/61] fix: cloning a scalar or derived value through its
 shape wrote a reference instead of a value

---
 facet-core/src/spez/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/facet-core/src/spez/mod.rs b/facet-core/src/spez/mod.rs
index 0cabf70..7a7b2c7 100644
--- a/facet-core/src/spez/mod.rs
+++ b/facet-core/src/spez/mod.rs
@@ -160,9 +160,10 @@ pub trait SpezCloneIntoYes {
     /// has sufficient space allocated for type `T`.
     unsafe fn spez_clone_into<'mem>(&self, target: PtrUninit<'mem>) -> PtrMut<'mem>;
 }
-impl<T: Clone> SpezCloneIntoYes for &Spez<T> {
+// the value to clone is always given by reference: that reference must not be what's cloned
+impl<T: Clone> SpezCloneIntoYes for &Spez<&T> {
     unsafe fn spez_clone_into<'mem>(&self, target: PtrUninit<'mem>) -> PtrMut<'mem> {
-        unsafe { target.put(self.0.clone()) }
+        unsafe { target.put(T::clone(self.0)) }
     }
 }
 
-- 
2.43.0


From a45937a3c42107fd28971c6608fdb5fb1b8018f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 18/61] fix: equal hash maps hashed differently through their
 shape, and claimed markers their hasher lacks

---
 facet-core/src/impls_std/hashmap.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/facet-core/src/impls_std/hashmap.rs b/facet-core/src/impls_std/hashmap.rs
index 4a12121..4740644 100644
--- a/facet-core/src/impls_std/hashmap.rs
+++ b/facet-core/src/impls_std/hashmap.rs
@@ -1,7 +1,7 @@
 use alloc::collections::VecDeque;
 use core::{alloc::Layout, hash::Hash};
 use std::collections::HashMap;
-use std::hash::{BuildHasher, RandomState};
+use std::hash::{BuildHasher, DefaultHasher, Hasher, RandomState};
 
 use crate::ptr::{PtrConst, PtrMut};
 
@@ -50,6 +50,8 @@ where
                             arg_dependent_traits
                                 .intersection(V::SHAPE.vtable.marker_traits)
                                 .intersection(K::SHAPE.vtable.marker_traits)
+                                // being `Eq` doesn't depend on the hasher
+                                .intersection(S::SHAPE.vtable.marker_traits.union(MarkerTraits::EQ))
                         })
                         .type_name(|f, opts| {
                             if let Some(opts) = opts.for_children() {
@@ -129,14 +131,20 @@ where
                             let v_hash = V::SHAPE.vtable.hash.unwrap_unchecked();
                             let mut hasher = HasherProxy::new(hasher_this, hasher_write_fn);
                             map.len().hash(&mut hasher);
+                            // equal maps may iterate in different orders: entries are hashed
+                            // on their own and combined regardless of order
+                            let mut entries = 0u64;
                             for (k, v) in map {
-                                k.hash(&mut hasher);
+                                let mut entry_hasher = DefaultHasher::new();
+                                k.hash(&mut entry_hasher);
                                 (v_hash)(
                                     PtrConst::new(v as *const _),
-                                    hasher_this,
-                                    hasher_write_fn,
+                                    PtrMut::new(&raw mut entry_hasher),
+                                    |this, bytes| this.as_mut::<DefaultHasher>().write(bytes),
                                 );
+                                entries = entries.wrapping_add(entry_hasher.finish());
                             }
+                            entries.hash(&mut hasher);
                         });
                     }
 
-- 
2.43.0


From d2e8c6ecc19325629271f8e2f297bedcf6c4c135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 19/61] fix: array and slice shapes left out the length when
 hashing, and slices claimed their elements' marker traits

---
 facet-core/src/impls_core/array.rs |  3 +++
 facet-core/src/impls_core/slice.rs | 17 ++++++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/facet-core/src/impls_core/array.rs b/facet-core/src/impls_core/array.rs
index 6413e1d..b5c1e86 100644
--- a/facet-core/src/impls_core/array.rs
+++ b/facet-core/src/impls_core/array.rs
@@ -144,7 +144,10 @@ where
                     }
                     if T::SHAPE.vtable.hash.is_some() {
                         builder = builder.hash(|value, state, hasher| {
+                            use core::hash::Hash as _;
                             let value = unsafe { value.get::<[T; L]>() };
+                            // like any sequence, arrays hash their length first
+                            L.hash(&mut unsafe { HasherProxy::new(state, hasher) });
                             for value in value {
                                 unsafe {
                                     (T::SHAPE.vtable.hash.unwrap_unchecked())(
diff --git a/facet-core/src/impls_core/slice.rs b/facet-core/src/impls_core/slice.rs
index 1b31b4d..30647e4 100644
--- a/facet-core/src/impls_core/slice.rs
+++ b/facet-core/src/impls_core/slice.rs
@@ -52,7 +52,18 @@ where
                                 write!(f, "&[⋯]")
                             }
                         })
-                        .marker_traits(T::SHAPE.vtable.marker_traits)
+                        .marker_traits({
+                            let traits = T::SHAPE.vtable.marker_traits;
+                            let mut own = MarkerTraits::COPY.union(MarkerTraits::UNPIN).union(
+                                traits
+                                    .intersection(MarkerTraits::EQ.union(MarkerTraits::SYNC)),
+                            );
+                            // a shared reference can be sent if what it refers to can be shared
+                            if traits.contains(MarkerTraits::SYNC) {
+                                own = own.union(MarkerTraits::SEND);
+                            }
+                            own
+                        })
                         .default_in_place(|ptr| unsafe { ptr.put(&[] as &[T]) })
                         .clone_into(|src, dst| unsafe {
                             // This works because we're cloning a shared reference (&[T]), not the actual slice data.
@@ -142,7 +153,11 @@ where
 
                     if T::SHAPE.vtable.hash.is_some() {
                         builder = builder.hash(|value, state, hasher| {
+                            use core::hash::Hash as _;
                             let value = unsafe { value.get::<&[T]>() };
+                            value
+                                .len()
+                                .hash(&mut unsafe { HasherProxy::new(state, hasher) });
                             for item in value.iter() {
                                 unsafe {
                                     (T::SHAPE.vtable.hash.unwrap_unchecked())(
-- 
2.43.0


From e9987df2a8b5b58d8c8232c421f5aa768dc2547a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:45 +0000
Subject: [PATCH 20/61] fix: comparing peeked values of different shapes read
 one as if it had the other's type

---
 facet-reflect/src/peek/value.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/facet-reflect/src/peek/value.rs b/facet-reflect/src/peek/value.rs
index 28e7097..aa68416 100644
--- a/facet-reflect/src/peek/value.rs
+++ b/facet-reflect/src/peek/value.rs
@@ -81,9 +81,13 @@ impl<'mem> Peek<'mem> {
     ///
     /// # Returns
     ///
-    /// `false` if equality comparison is not supported for this scalar type
+    /// `None` if equality comparison is not supported for this scalar type, or if the values
+    /// have different shapes
     #[inline]
     pub fn eq(&self, other: &Peek<'_>) -> Option<bool> {
+        if self.shape != other.shape {
+            return None;
+        }
         unsafe {
             self.shape
                 .vtable
@@ -96,9 +100,13 @@ impl<'mem> Peek<'mem> {
     ///
     /// # Returns
     ///
-    /// `None` if comparison is not supported for this scalar type
+    /// `None` if comparison is not supported for this scalar type, or if the values have
+    /// different shapes
     #[inline]
     pub fn partial_cmp(&self, other: &Peek<'_>) -> Option<Ordering> {
+        if self.shape != other.shape {
+            return None;
+        }
         unsafe {
             self.shape
                 .vtable
-- 
2.43.0


From 3ee2a175dc24f6987cfee8e994a0d8d4ad25c42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:44 +0000
Subject: [PATCH 21/61] fix: map lookups through Peek read a key of another
 type as if it were the map's

---
 facet-reflect/src/peek/map.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/facet-reflect/src/peek/map.rs b/facet-reflect/src/peek/map.rs
index a5a2b51..b8b8bea 100644
--- a/facet-reflect/src/peek/map.rs
+++ b/facet-reflect/src/peek/map.rs
@@ -69,16 +69,23 @@ impl<'mem> PeekMap<'mem> {
         self.len() == 0
     }
 
-    /// Check if the map contains a key
-    pub fn contains_key(&self, key: &impl facet_core::Facet) -> bool {
+    /// Check if the map contains a key: it doesn't if the key isn't of the map's key type
+    pub fn contains_key<K: facet_core::Facet>(&self, key: &K) -> bool {
+        if self.def.k != K::SHAPE {
+            return false;
+        }
         unsafe {
             let key_ptr = PtrConst::new(key);
             (self.def.vtable.contains_key_fn)(self.value.data(), key_ptr)
         }
     }
 
-    /// Get a value from the map for the given key
-    pub fn get<'k>(&self, key: &'k impl facet_core::Facet) -> Option<Peek<'mem>> {
+    /// Get a value from the map for the given key: there's none if the key isn't of the map's
+    /// key type
+    pub fn get<K: facet_core::Facet>(&self, key: &K) -> Option<Peek<'mem>> {
+        if self.def.k != K::SHAPE {
+            return None;
+        }
         unsafe {
             let key_ptr = PtrConst::new(key);
             let value_ptr = (self.def.vtable.get_value_ptr_fn)(self.value.data(), key_ptr)?;
-- 
2.43.0


From 21e60ebc2128274e6eab48374c7541b863400934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:29 +0000
Subject: [PATCH 22/61] fix: keep words apart in the types of enum variant
 fields (&'static str)

---
 facet-derive-parse/src/lib.rs | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/facet-derive-parse/src/lib.rs b/facet-derive-parse/src/lib.rs
index ecc857c..76ed1cb 100644
--- a/facet-derive-parse/src/lib.rs
+++ b/facet-derive-parse/src/lib.rs
@@ -407,9 +407,7 @@ impl core::fmt::Display for AngleTokenTree {
         match &self.0 {
             Either::First(it) => {
                 write!(f, "<")?;
-                for it in it.second.iter() {
-                    write!(f, "{}", it.second)?;
-                }
+                fmt_tokens(f, it.second.iter().map(|it| &it.second))?;
                 write!(f, ">")?;
             }
             Either::Second(it) => write!(f, "{}", it)?,
@@ -420,15 +418,33 @@ impl core::fmt::Display for AngleTokenTree {
     }
 }
 
+/// Writes tokens one after the other, without letting words run into each other
+/// (as in `&'static str`, `*const T` or `dyn Trait`)
+fn fmt_tokens<'a>(
+    f: &mut core::fmt::Formatter<'_>,
+    tokens: impl Iterator<Item = &'a AngleTokenTree>,
+) -> core::fmt::Result {
+    let mut after_word = false;
+    for token in tokens {
+        let is_word = matches!(
+            token.0,
+            Either::Second(TokenTree::Ident(_) | TokenTree::Literal(_))
+        );
+        if after_word && is_word {
+            write!(f, " ")?;
+        }
+        write!(f, "{token}")?;
+        after_word = is_word;
+    }
+    Ok(())
+}
+
 /// Display the verbatim tokens until the given token.
 pub struct VerbatimDisplay<'a, C>(pub &'a VerbatimUntil<C>);
 
 impl<C> core::fmt::Display for VerbatimDisplay<'_, C> {
     fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
-        for tt in self.0.0.iter() {
-            write!(f, "{}", tt.value.second)?;
-        }
-        Ok(())
+        fmt_tokens(f, self.0.0.iter().map(|tt| &tt.value.second))
     }
 }
 
-- 
2.43.0


From efaf5c20da7326b4331f829dbe70e744b17568ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:41 +0000
Subject: [PATCH 23/61] fix: accept i64::MAX as the discriminant of a variant

---
 facet-derive-emit/src/process_enum.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/facet-derive-emit/src/process_enum.rs b/facet-derive-emit/src/process_enum.rs
index 4ba5668..04eacf5 100644
--- a/facet-derive-emit/src/process_enum.rs
+++ b/facet-derive-emit/src/process_enum.rs
@@ -278,7 +278,7 @@ fn process_c_style_enum(
 
     // Discriminant values are either manually defined, or incremented from the last one
     // See: <https://doc.rust-lang.org/reference/items/enumerations.html#implicit-discriminants>
-    let mut discriminant_value = 0;
+    let mut discriminant_value = 0i64;
     for var_like in variants.iter() {
         if let Some(x) = &var_like.value.discriminant {
             discriminant_value = get_discriminant_value(&x.second);
@@ -434,7 +434,8 @@ fn process_c_style_enum(
                 ));
             }
         }
-        discriminant_value += 1;
+        // the next variant, if there is one, cannot follow the largest value implicitly
+        discriminant_value = discriminant_value.wrapping_add(1);
     }
 
     ProcessedEnumBody {
@@ -468,7 +469,7 @@ fn process_primitive_enum(
 
     // Discriminant values are either manually defined, or incremented from the last one
     // See: <https://doc.rust-lang.org/reference/items/enumerations.html#implicit-discriminants>
-    let mut discriminant_value = 0;
+    let mut discriminant_value = 0i64;
     for var_like in variants.iter() {
         if let Some(x) = &var_like.value.discriminant {
             discriminant_value = get_discriminant_value(&x.second);
@@ -615,7 +616,8 @@ fn process_primitive_enum(
                 ));
             }
         }
-        discriminant_value += 1;
+        // the next variant, if there is one, cannot follow the largest value implicitly
+        discriminant_value = discriminant_value.wrapping_add(1);
     }
 
     ProcessedEnumBody {
-- 
2.43.0


From 0932c7c664996b7396ca747a7e0b8007ccdfe8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:22 +0000
Subject: [PATCH 24/61] fix: size the discriminant of a repr(C) enum by its
 explicit values

---
 facet-derive-emit/src/process_enum.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/facet-derive-emit/src/process_enum.rs b/facet-derive-emit/src/process_enum.rs
index 04eacf5..94a85a1 100644
--- a/facet-derive-emit/src/process_enum.rs
+++ b/facet-derive-emit/src/process_enum.rs
@@ -232,10 +232,17 @@ fn process_c_style_enum(
     let shadow_discriminant_name = format!("__ShadowDiscriminant{enum_name}");
     let all_variant_names = variants
         .iter()
-        .map(|var_like| match &var_like.value.variant {
-            EnumVariantData::Unit(unit) => unit.name.to_string(),
-            EnumVariantData::Tuple(tuple) => tuple.name.to_string(),
-            EnumVariantData::Struct(struct_var) => struct_var.name.to_string(),
+        .map(|var_like| {
+            let name = match &var_like.value.variant {
+                EnumVariantData::Unit(unit) => unit.name.to_string(),
+                EnumVariantData::Tuple(tuple) => tuple.name.to_string(),
+                EnumVariantData::Struct(struct_var) => struct_var.name.to_string(),
+            };
+            // the size of a C discriminant depends on its values
+            match &var_like.value.discriminant {
+                Some(x) => format!("{name} = {}", x.second),
+                None => name,
+            }
         })
         .collect::<Vec<_>>()
         .join(", ");
-- 
2.43.0


From 1053f2cfe5b3fb920ac5ff1f2df7096398de7050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:40 +0000
Subject: [PATCH 25/61] fix: #[facet(transparent)] did not compile

---
 facet-core/src/types/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/facet-core/src/types/mod.rs b/facet-core/src/types/mod.rs
index 6180589..014f759 100644
--- a/facet-core/src/types/mod.rs
+++ b/facet-core/src/types/mod.rs
@@ -85,6 +85,8 @@ pub enum ShapeAttribute {
     DenyUnknownFields,
     /// Indicates the shape has a default value
     Default,
+    /// Indicates the type is a transparent wrapper around its only field
+    Transparent,
     /// Custom field attribute containing arbitrary text
     Arbitrary(&'static str),
 }
-- 
2.43.0


From 6d4c19315537784e0ff1edf9ca722784edcf9b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:11 +0000
Subject: [PATCH 26/61] fix: attributes of an enum did not reach its shape

---
 facet-derive-emit/src/process_enum.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/facet-derive-emit/src/process_enum.rs b/facet-derive-emit/src/process_enum.rs
index 94a85a1..616ce6c 100644
--- a/facet-derive-emit/src/process_enum.rs
+++ b/facet-derive-emit/src/process_enum.rs
@@ -164,6 +164,7 @@ pub(crate) fn process_enum(parsed: Enum) -> TokenStream {
         String::new()
     };
     let maybe_container_doc = build_maybe_doc(&parsed.attributes);
+    let set_attributes = build_container_attributes(&parsed.attributes);
 
     // Generate the impl
     let output = format!(
@@ -196,6 +197,7 @@ unsafe impl<{generics_def}> ::facet::Facet for {enum_name}<{generics_use}> {wher
                 .repr(::facet::EnumRepr::{repr_type})
                 .build()))
             {maybe_container_doc}
+            {set_attributes}
             .build()
     }};
 }}
-- 
2.43.0


From 36f1d90288f3bb421ce5235d0967aa1994043d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:02 +0000
Subject: [PATCH 27/61] fix: escapes in the name given by #[facet(rename)] were
 escaped once more

---
 facet-derive-emit/src/lib.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/facet-derive-emit/src/lib.rs b/facet-derive-emit/src/lib.rs
index 27418d6..75e5320 100644
--- a/facet-derive-emit/src/lib.rs
+++ b/facet-derive-emit/src/lib.rs
@@ -169,9 +169,18 @@ pub(crate) fn gen_struct_field(
                     if let Some(equal_pos) = attr_str.find('=') {
                         let key = attr_str[..equal_pos].trim();
                         if key == "rename" {
-                            let value = attr_str[equal_pos + 1..].trim().trim_matches('"');
+                            let value = attr_str[equal_pos + 1..].trim();
+                            // a string literal is passed on as it was written
+                            let value = if tt.len() == 3
+                                && matches!(tt[2], TokenTree::Literal(_))
+                                && value.starts_with(['"', 'r'])
+                            {
+                                value.to_string()
+                            } else {
+                                format!("{:?}", value.trim_matches('"'))
+                            };
                             attribute_list
-                                .push(format!(r#"::facet::FieldAttribute::Rename({:?})"#, value));
+                                .push(format!("::facet::FieldAttribute::Rename({value})"));
                         } else {
                             attribute_list.push(format!(
                                 r#"::facet::FieldAttribute::Arbitrary({:?})"#,
-- 
2.43.0


From 4b1b5ccf621a6b9d2c3a2964dee460502a88e434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:37 +0000
Subject: [PATCH 28/61] fix: equal shapes had different hashes

---
 facet-core/src/types/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/facet-core/src/types/mod.rs b/facet-core/src/types/mod.rs
index 014f759..61c76ab 100644
--- a/facet-core/src/types/mod.rs
+++ b/facet-core/src/types/mod.rs
@@ -218,8 +218,8 @@ impl Eq for Shape {}
 
 impl core::hash::Hash for Shape {
     fn hash<H: core::hash::Hasher>(&self, state: &mut H) {
-        self.def.hash(state);
-        self.layout.hash(state);
+        // equal shapes may have different definitions: several instances of the same functions
+        self.id.hash(state);
     }
 }
 
-- 
2.43.0


From 3f11be09b5d0bbe32f1ffaebf83c97c5bb0be8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:14 +0000
Subject: [PATCH 29/61] fix: names of Arc, Weak and NonNull shapes left out the
 pointee

---
 facet-core/src/impls_alloc/smartptr.rs | 26 ++++++++++++++++++--------
 facet-core/src/impls_core/smartptr.rs  | 13 +++++++++----
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/facet-core/src/impls_alloc/smartptr.rs b/facet-core/src/impls_alloc/smartptr.rs
index 3d45cd0..74049a2 100644
--- a/facet-core/src/impls_alloc/smartptr.rs
+++ b/facet-core/src/impls_alloc/smartptr.rs
@@ -40,10 +40,15 @@ unsafe impl<T: Facet> Facet for alloc::sync::Arc<T> {
                     )
                     .build(),
             ))
-            .vtable(value_vtable!(alloc::sync::Arc<T>, |f, _opts| write!(
-                f,
-                "Arc"
-            )))
+            .vtable(value_vtable!(alloc::sync::Arc<T>, |f, opts| {
+                if let Some(opts) = opts.for_children() {
+                    write!(f, "Arc<")?;
+                    (T::SHAPE.vtable.type_name)(f, opts)?;
+                    write!(f, ">")
+                } else {
+                    write!(f, "Arc<⋯>")
+                }
+            }))
             .build()
     };
 }
@@ -74,10 +79,15 @@ unsafe impl<T: Facet> Facet for alloc::sync::Weak<T> {
                     )
                     .build(),
             ))
-            .vtable(value_vtable!(alloc::sync::Weak<T>, |f, _opts| write!(
-                f,
-                "Weak"
-            )))
+            .vtable(value_vtable!(alloc::sync::Weak<T>, |f, opts| {
+                if let Some(opts) = opts.for_children() {
+                    write!(f, "Weak<")?;
+                    (T::SHAPE.vtable.type_name)(f, opts)?;
+                    write!(f, ">")
+                } else {
+                    write!(f, "Weak<⋯>")
+                }
+            }))
             .build()
     };
 }
diff --git a/facet-core/src/impls_core/smartptr.rs b/facet-core/src/impls_core/smartptr.rs
index 2f5685e..8eb4357 100644
--- a/facet-core/src/impls_core/smartptr.rs
+++ b/facet-core/src/impls_core/smartptr.rs
@@ -37,10 +37,15 @@ unsafe impl<T: Facet> Facet for core::ptr::NonNull<T> {
                     )
                     .build(),
             ))
-            .vtable(value_vtable!(core::ptr::NonNull<T>, |f, _opts| write!(
-                f,
-                "NonNull"
-            )))
+            .vtable(value_vtable!(core::ptr::NonNull<T>, |f, opts| {
+                if let Some(opts) = opts.for_children() {
+                    write!(f, "NonNull<")?;
+                    (T::SHAPE.vtable.type_name)(f, opts)?;
+                    write!(f, ">")
+                } else {
+                    write!(f, "NonNull<⋯>")
+                }
+            }))
             .build()
     };
 }
-- 
2.43.0


From 3696c2cfc1cdda8bfb7a6a09c8a46429cc28d349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 30/61] fix: NaN and infinities were written as invalid JSON

---
 facet-json/src/serialize.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/facet-json/src/serialize.rs b/facet-json/src/serialize.rs
index 3204072..02c6a64 100644
--- a/facet-json/src/serialize.rs
+++ b/facet-json/src/serialize.rs
@@ -128,10 +128,19 @@ fn serialize_scalar<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()>
     // Float types
     else if peek.shape().is_type::<f32>() {
         let value = peek.get::<f32>().unwrap();
-        write!(writer, "{}", value)
+        // there's no notation for NaN and the infinities in JSON
+        if value.is_finite() {
+            write!(writer, "{}", value)
+        } else {
+            write!(writer, "null")
+        }
     } else if peek.shape().is_type::<f64>() {
         let value = peek.get::<f64>().unwrap();
-        write!(writer, "{}", value)
+        if value.is_finite() {
+            write!(writer, "{}", value)
+        } else {
+            write!(writer, "null")
+        }
     } else {
         Err(io::Error::new(
             io::ErrorKind::Other,
-- 
2.43.0


From 10f1b1e2123a9614a347ec9e1e3c9f21476f6d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:12 +0000
Subject: [PATCH 31/61] fix: keys of maps written as JSON weren't escaped

---
 facet-json/src/serialize.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/facet-json/src/serialize.rs b/facet-json/src/serialize.rs
index 02c6a64..013c4d2 100644
--- a/facet-json/src/serialize.rs
+++ b/facet-json/src/serialize.rs
@@ -231,14 +231,14 @@ fn serialize_map<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()> {
         // For map, keys must be converted to strings
         match key.shape().def {
             Def::Scalar(_) => {
-                // Try to convert key to string
-                if key.shape().is_type::<String>() {
-                    let key_str = key.get::<String>().unwrap();
-                    write_json_string(writer, key_str)?;
-                } else {
-                    // For other scalar types, use their Display implementation
-                    write!(writer, "\"{}\"", key)?;
+                // Scalars are written the way they're displayed
+                if key.shape().vtable.display.is_none() {
+                    return Err(io::Error::new(
+                        io::ErrorKind::Other,
+                        format!("Map keys must be displayable, got: {}", key.shape()),
+                    ));
                 }
+                write_json_string(writer, &format!("{}", key))?;
             }
             _ => {
                 return Err(io::Error::new(
-- 
2.43.0


From f6f2718928a7d1c468303d37433f7076e95c7bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:28 +0000
Subject: [PATCH 32/61] fix: fields of enum variants were written as JSON of
 the wrong form or under the wrong name

---
 facet-json/src/serialize.rs | 118 ++++++++++++++----------------------
 1 file changed, 45 insertions(+), 73 deletions(-)

diff --git a/facet-json/src/serialize.rs b/facet-json/src/serialize.rs
index 013c4d2..6676d6d 100644
--- a/facet-json/src/serialize.rs
+++ b/facet-json/src/serialize.rs
@@ -1,5 +1,5 @@
 use core::num::NonZero;
-use facet_core::{Def, Facet, FieldAttribute};
+use facet_core::{Def, Facet, Field, FieldAttribute, StructKind};
 use facet_reflect::Peek;
 use std::io::{self, Write};
 
@@ -164,21 +164,8 @@ fn serialize_struct<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()>
         }
         first = false;
 
-        // Check for rename attribute
-        let field_name = field
-            .attributes
-            .iter()
-            .find_map(|attr| {
-                if let FieldAttribute::Rename(name) = attr {
-                    Some(*name)
-                } else {
-                    None
-                }
-            })
-            .unwrap_or(field.name);
-
         // Write field name
-        write_json_string(writer, field_name)?;
+        write_json_string(writer, serialized_name(&field))?;
         write!(writer, ":")?;
 
         // Write field value
@@ -278,67 +265,40 @@ fn serialize_enum<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()> {
         write_json_string(writer, variant_name)?;
         write!(writer, ":")?;
 
-        // If it's a single-field tuple variant, output just the value
-        if variant.data.fields.len() == 1 {
-            let field = enum_peek.field(0).ok_or_else(|| {
-                io::Error::new(io::ErrorKind::Other, "Failed to access enum field")
-            })?;
-            serialize(&field, writer)?;
-        } else {
-            // Multi-field variant - output as an array or object depending on variant type
-            let is_struct = variant
-                .data
-                .fields
-                .iter()
-                .any(|f| !f.name.starts_with("__"));
-
-            if is_struct {
-                // Struct variant - output as an object
-                write!(writer, "{{")?;
-
-                let mut first = true;
-                for i in 0..variant.data.fields.len() {
-                    let field = enum_peek.field(i).ok_or_else(|| {
-                        io::Error::new(
-                            io::ErrorKind::Other,
-                            format!("Failed to access enum field {}", i),
-                        )
-                    })?;
-                    let field_name = variant.data.fields[i].name;
-
-                    if !first {
-                        write!(writer, ",")?;
-                    }
-                    first = false;
-
-                    write_json_string(writer, field_name)?;
-                    write!(writer, ":")?;
-                    serialize(&field, writer)?;
+        let field = |i: usize| {
+            enum_peek.field(i).ok_or_else(|| {
+                io::Error::new(
+                    io::ErrorKind::Other,
+                    format!("Failed to access enum field {}", i),
+                )
+            })
+        };
+
+        if variant.data.kind == StructKind::Struct {
+            // Struct variant - output as an object
+            write!(writer, "{{")?;
+            for (i, variant_field) in variant.data.fields.iter().enumerate() {
+                if i > 0 {
+                    write!(writer, ",")?;
                 }
-
-                write!(writer, "}}")?
-            } else {
-                // Tuple variant - output as an array
-                write!(writer, "[")?;
-
-                let mut first = true;
-                for i in 0..variant.data.fields.len() {
-                    if !first {
-                        write!(writer, ",")?;
-                    }
-                    first = false;
-
-                    let field = enum_peek.field(i).ok_or_else(|| {
-                        io::Error::new(
-                            io::ErrorKind::Other,
-                            format!("Failed to access enum field {}", i),
-                        )
-                    })?;
-                    serialize(&field, writer)?;
+                write_json_string(writer, serialized_name(variant_field))?;
+                write!(writer, ":")?;
+                serialize(&field(i)?, writer)?;
+            }
+            write!(writer, "}}")?
+        } else if variant.data.fields.len() == 1 {
+            // Tuple variant with a single field - output just the value
+            serialize(&field(0)?, writer)?;
+        } else {
+            // Tuple variant - output as an array
+            write!(writer, "[")?;
+            for i in 0..variant.data.fields.len() {
+                if i > 0 {
+                    write!(writer, ",")?;
                 }
-
-                write!(writer, "]")?;
+                serialize(&field(i)?, writer)?;
             }
+            write!(writer, "]")?;
         }
 
         write!(writer, "}}")?;
@@ -362,6 +322,18 @@ fn serialize_option<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()>
     }
 }
 
+/// The name a field goes by in JSON: the one it was given with `#[facet(rename = "...")]`, if any
+fn serialized_name(field: &Field) -> &'static str {
+    field
+        .attributes
+        .iter()
+        .find_map(|attr| match attr {
+            FieldAttribute::Rename(name) => Some(*name),
+            _ => None,
+        })
+        .unwrap_or(field.name)
+}
+
 /// Properly escapes and writes a JSON string
 fn write_json_string<W: Write>(writer: &mut W, s: &str) -> io::Result<()> {
     write!(writer, "\"")?;
-- 
2.43.0


From 2686ea185599203e9ca515fa5ec8644a6e16e9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:11 +0000
Subject: [PATCH 33/61] fix: displaying a JSON error panicked if it was within
 a multi-byte character

---
 facet-json/src/deserialize/error.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/facet-json/src/deserialize/error.rs b/facet-json/src/deserialize/error.rs
index 955a5c0..49c6a76 100644
--- a/facet-json/src/deserialize/error.rs
+++ b/facet-json/src/deserialize/error.rs
@@ -112,6 +112,15 @@ impl core::fmt::Display for JsonParseErrorWithContext<'_> {
             }
         };
 
+        // ariadne can't label parts of a character
+        let (mut span_start, mut span_end) = (span_start, span_end);
+        while !input_str.is_char_boundary(span_start) {
+            span_start -= 1;
+        }
+        while !input_str.is_char_boundary(span_end) {
+            span_end += 1;
+        }
+
         let mut report = Report::build(ReportKind::Error, (source_id, span_start..span_end))
             .with_message(format!("Error at {}", self.path.yellow()))
             .with_config(Config::new().with_index_type(IndexType::Byte));
-- 
2.43.0


From 41f3dd66e369d05b0b6caeb732e6d7da76e076b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:11 +0000
Subject: [PATCH 34/61] fix: negative integers couldn't be decoded from
 MessagePack

---
 facet-msgpack/src/from_msgpack.rs | 92 +++++++++++++++----------------
 1 file changed, 46 insertions(+), 46 deletions(-)

diff --git a/facet-msgpack/src/from_msgpack.rs b/facet-msgpack/src/from_msgpack.rs
index 33a6c37..88fb7a4 100644
--- a/facet-msgpack/src/from_msgpack.rs
+++ b/facet-msgpack/src/from_msgpack.rs
@@ -136,33 +136,43 @@ impl<'input> Decoder<'input> {
         Ok(value)
     }
 
-    /// Decodes a MessagePack-encoded unsigned 64-bit integer.
+    /// Decodes a 64-bit unsigned integer in big-endian byte order.
+    /// This is a low-level method used by other decoders.
+    fn decode_be_u64(&mut self) -> Result<u64, DecodeError> {
+        let high = self.decode_u32()? as u64;
+        let low = self.decode_u32()? as u64;
+        Ok(high << 32 | low)
+    }
+
+    /// Decodes a MessagePack-encoded integer, of any format, that fits the type `T`.
     /// Handles the following MessagePack types:
     /// - positive fixint (0x00 - 0x7f): single-byte positive integer
+    /// - negative fixint (0xe0 - 0xff): single-byte negative integer
     /// - uint8 (0xcc): 8-bit unsigned integer
     /// - uint16 (0xcd): 16-bit unsigned integer (big-endian)
     /// - uint32 (0xce): 32-bit unsigned integer (big-endian)
     /// - uint64 (0xcf): 64-bit unsigned integer (big-endian)
+    /// - int8 (0xd0): 8-bit signed integer
+    /// - int16 (0xd1): 16-bit signed integer (big-endian)
+    /// - int32 (0xd2): 32-bit signed integer (big-endian)
+    /// - int64 (0xd3): 64-bit signed integer (big-endian)
     ///
     /// Ref: <https://github.com/msgpack/msgpack/blob/master/spec.md#int-format-family>
-    fn decode_u64(&mut self) -> Result<u64, DecodeError> {
-        match self.decode_u8()? {
-            MSGPACK_UINT8 => Ok(self.decode_u8()? as u64),
-            MSGPACK_UINT16 => Ok(self.decode_u16()? as u64),
-            MSGPACK_UINT32 => Ok(self.decode_u32()? as u64),
-            MSGPACK_UINT64 => {
-                if self.offset + 8 > self.input.len() {
-                    return Err(DecodeError::InsufficientData);
-                }
-                let value = u64::from_be_bytes(
-                    self.input[self.offset..self.offset + 8].try_into().unwrap(),
-                );
-                self.offset += 8;
-                Ok(value)
-            }
-            prefix @ MSGPACK_POSFIXINT_MIN..=MSGPACK_POSFIXINT_MAX => Ok(prefix as u64),
-            _ => Err(DecodeError::UnexpectedType),
-        }
+    fn decode_int<T: TryFrom<i128>>(&mut self) -> Result<T, DecodeError> {
+        let value = match self.decode_u8()? {
+            MSGPACK_UINT8 => self.decode_u8()? as i128,
+            MSGPACK_UINT16 => self.decode_u16()? as i128,
+            MSGPACK_UINT32 => self.decode_u32()? as i128,
+            MSGPACK_UINT64 => self.decode_be_u64()? as i128,
+            MSGPACK_INT8 => self.decode_u8()? as i8 as i128,
+            MSGPACK_INT16 => self.decode_u16()? as i16 as i128,
+            MSGPACK_INT32 => self.decode_u32()? as i32 as i128,
+            MSGPACK_INT64 => self.decode_be_u64()? as i64 as i128,
+            prefix @ MSGPACK_POSFIXINT_MIN..=MSGPACK_POSFIXINT_MAX => prefix as i128,
+            prefix @ MSGPACK_NEGFIXINT_MIN..=MSGPACK_NEGFIXINT_MAX => prefix as i8 as i128,
+            _ => return Err(DecodeError::UnexpectedType),
+        };
+        T::try_from(value).map_err(|_| DecodeError::IntegerOverflow)
     }
 
     /// Decodes a MessagePack-encoded string.
@@ -410,39 +420,29 @@ impl<'input> Decoder<'input> {
                     let s = self.decode_string()?;
                     wip.put(s).unwrap()
                 } else if shape.is_type::<u64>() {
-                    let n = self.decode_u64()?;
+                    let n = self.decode_int::<u64>()?;
                     wip.put(n).unwrap()
                 } else if shape.is_type::<u32>() {
-                    let n = self.decode_u64()?;
-                    if n > u32::MAX as u64 {
-                        return Err(DecodeError::IntegerOverflow);
-                    }
-                    wip.put(n as u32).unwrap()
+                    let n = self.decode_int::<u32>()?;
+                    wip.put(n).unwrap()
                 } else if shape.is_type::<u16>() {
-                    let n = self.decode_u64()?;
-                    if n > u16::MAX as u64 {
-                        return Err(DecodeError::IntegerOverflow);
-                    }
-                    wip.put(n as u16).unwrap()
+                    let n = self.decode_int::<u16>()?;
+                    wip.put(n).unwrap()
                 } else if shape.is_type::<u8>() {
-                    let n = self.decode_u64()?;
-                    if n > u8::MAX as u64 {
-                        return Err(DecodeError::IntegerOverflow);
-                    }
-                    wip.put(n as u8).unwrap()
+                    let n = self.decode_int::<u8>()?;
+                    wip.put(n).unwrap()
                 } else if shape.is_type::<i64>() {
-                    // This is a simplification - need to implement proper int decoding
-                    let n = self.decode_u64()?;
-                    if n > i64::MAX as u64 {
-                        return Err(DecodeError::IntegerOverflow);
-                    }
-                    wip.put(n as i64).unwrap()
+                    let n = self.decode_int::<i64>()?;
+                    wip.put(n).unwrap()
                 } else if shape.is_type::<i32>() {
-                    let n = self.decode_u64()?;
-                    if n > i32::MAX as u64 {
-                        return Err(DecodeError::IntegerOverflow);
-                    }
-                    wip.put(n as i32).unwrap()
+                    let n = self.decode_int::<i32>()?;
+                    wip.put(n).unwrap()
+                } else if shape.is_type::<i16>() {
+                    let n = self.decode_int::<i16>()?;
+                    wip.put(n).unwrap()
+                } else if shape.is_type::<i8>() {
+                    let n = self.decode_int::<i8>()?;
+                    wip.put(n).unwrap()
                 } else if shape.is_type::<bool>() {
                     let b = self.decode_bool()?;
                     wip.put(b).unwrap()
-- 
2.43.0


From 94291b05e23e3518d1dc81c94769d68ab30857fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:11 +0000
Subject: [PATCH 35/61] fix: booleans couldn't be encoded as MessagePack,
 although they can be decoded

---
 facet-msgpack/src/to_msgpack.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/facet-msgpack/src/to_msgpack.rs b/facet-msgpack/src/to_msgpack.rs
index 456ad01..980ca3a 100644
--- a/facet-msgpack/src/to_msgpack.rs
+++ b/facet-msgpack/src/to_msgpack.rs
@@ -1,3 +1,5 @@
+use crate::constants::*;
+
 use facet_core::{Def, Facet};
 
 use facet_reflect::Peek;
@@ -47,6 +49,9 @@ fn serialize<W: Write>(pv: Peek<'_>, writer: &mut W) -> io::Result<()> {
                     .get::<i8>()
                     .map_err(|e| io::Error::new(io::ErrorKind::Other, e))?;
                 write_i8(writer, *value)
+            } else if pv.shape().is_type::<bool>() {
+                let value = pv.get::<bool>().unwrap();
+                writer.write_all(&[if *value { MSGPACK_TRUE } else { MSGPACK_FALSE }])
             } else {
                 return Err(io::Error::new(
                     io::ErrorKind::Other,
-- 
2.43.0


From daf5f19eb66388d9e765d53a2c271976ddb74a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:58 +0000
Subject: [PATCH 36/61] fix: unknown members of most kinds couldn't be skipped
 in MessagePack, or were skipped past the end

---
 facet-msgpack/src/from_msgpack.rs | 197 ++++++++++++------------------
 1 file changed, 80 insertions(+), 117 deletions(-)

diff --git a/facet-msgpack/src/from_msgpack.rs b/facet-msgpack/src/from_msgpack.rs
index 88fb7a4..d39cbde 100644
--- a/facet-msgpack/src/from_msgpack.rs
+++ b/facet-msgpack/src/from_msgpack.rs
@@ -91,6 +91,11 @@ pub fn from_slice_value<'mem>(
         .map_err(|e| DecodeError::UnsupportedType(e.to_string()))
 }
 
+/// Whether that byte is a negative fixint (0xe0 - 0xff)
+fn is_negfixint(prefix: u8) -> bool {
+    (MSGPACK_NEGFIXINT_MIN..=MSGPACK_NEGFIXINT_MAX).contains(&(prefix as i8))
+}
+
 struct Decoder<'input> {
     input: &'input [u8],
     offset: usize,
@@ -169,7 +174,7 @@ impl<'input> Decoder<'input> {
             MSGPACK_INT32 => self.decode_u32()? as i32 as i128,
             MSGPACK_INT64 => self.decode_be_u64()? as i64 as i128,
             prefix @ MSGPACK_POSFIXINT_MIN..=MSGPACK_POSFIXINT_MAX => prefix as i128,
-            prefix @ MSGPACK_NEGFIXINT_MIN..=MSGPACK_NEGFIXINT_MAX => prefix as i8 as i128,
+            prefix if is_negfixint(prefix) => prefix as i8 as i128,
             _ => return Err(DecodeError::UnexpectedType),
         };
         T::try_from(value).map_err(|_| DecodeError::IntegerOverflow)
@@ -278,135 +283,93 @@ impl<'input> Decoder<'input> {
         Ok(self.input[self.offset] == MSGPACK_NIL)
     }
 
+    /// Moves past that many bytes.
+    fn skip_bytes(&mut self, len: usize) -> Result<(), DecodeError> {
+        if len > self.input.len() - self.offset {
+            return Err(DecodeError::InsufficientData);
+        }
+        self.offset += len;
+        Ok(())
+    }
+
     /// Skips a MessagePack value of any type.
     /// This is used when encountering unknown field names in a struct.
     fn skip_value(&mut self) -> Result<(), DecodeError> {
-        let prefix = self.decode_u8()?;
-
-        match prefix {
-            // String formats
-            prefix @ MSGPACK_FIXSTR_MIN..=MSGPACK_FIXSTR_MAX => {
-                let len = (prefix & 0x1f) as usize;
-                if self.offset + len > self.input.len() {
-                    return Err(DecodeError::InsufficientData);
+        // The values left to skip. Those within others aren't skipped recursively, as they may be
+        // nested deeper than the stack allows.
+        let mut remaining: u128 = 1;
+
+        while remaining > 0 {
+            remaining -= 1;
+            let prefix = self.decode_u8()?;
+
+            match prefix {
+                // Formats without any further bytes
+                MSGPACK_POSFIXINT_MIN..=MSGPACK_POSFIXINT_MAX
+                | MSGPACK_NIL
+                | MSGPACK_TRUE
+                | MSGPACK_FALSE => {}
+                prefix if is_negfixint(prefix) => {}
+
+                // Formats of a fixed size
+                MSGPACK_UINT8 | MSGPACK_INT8 => self.skip_bytes(1)?,
+                MSGPACK_UINT16 | MSGPACK_INT16 => self.skip_bytes(2)?,
+                MSGPACK_UINT32 | MSGPACK_INT32 | MSGPACK_FLOAT32 => self.skip_bytes(4)?,
+                MSGPACK_UINT64 | MSGPACK_INT64 | MSGPACK_FLOAT64 => self.skip_bytes(8)?,
+                // Extension types, with one byte for the type
+                MSGPACK_FIXEXT1 => self.skip_bytes(1 + 1)?,
+                MSGPACK_FIXEXT2 => self.skip_bytes(1 + 2)?,
+                MSGPACK_FIXEXT4 => self.skip_bytes(1 + 4)?,
+                MSGPACK_FIXEXT8 => self.skip_bytes(1 + 8)?,
+                MSGPACK_FIXEXT16 => self.skip_bytes(1 + 16)?,
+
+                // Formats of a given length
+                MSGPACK_FIXSTR_MIN..=MSGPACK_FIXSTR_MAX => {
+                    self.skip_bytes((prefix & 0x1f) as usize)?
                 }
-                self.offset += len;
-                Ok(())
-            }
-            MSGPACK_STR8 => {
-                let len = self.decode_u8()? as usize;
-                if self.offset + len > self.input.len() {
-                    return Err(DecodeError::InsufficientData);
+                MSGPACK_STR8 | MSGPACK_BIN8 => {
+                    let len = self.decode_u8()? as usize;
+                    self.skip_bytes(len)?
                 }
-                self.offset += len;
-                Ok(())
-            }
-            MSGPACK_STR16 => {
-                let len = self.decode_u16()? as usize;
-                if self.offset + len > self.input.len() {
-                    return Err(DecodeError::InsufficientData);
+                MSGPACK_STR16 | MSGPACK_BIN16 => {
+                    let len = self.decode_u16()? as usize;
+                    self.skip_bytes(len)?
                 }
-                self.offset += len;
-                Ok(())
-            }
-            MSGPACK_STR32 => {
-                let len = self.decode_u32()? as usize;
-                if self.offset + len > self.input.len() {
-                    return Err(DecodeError::InsufficientData);
+                MSGPACK_STR32 | MSGPACK_BIN32 => {
+                    let len = self.decode_u32()? as usize;
+                    self.skip_bytes(len)?
                 }
-                self.offset += len;
-                Ok(())
-            }
-
-            // Integer formats
-            MSGPACK_UINT8 => {
-                self.offset += 1;
-                Ok(())
-            }
-            MSGPACK_UINT16 => {
-                self.offset += 2;
-                Ok(())
-            }
-            MSGPACK_UINT32 => {
-                self.offset += 4;
-                Ok(())
-            }
-            MSGPACK_UINT64 => {
-                self.offset += 8;
-                Ok(())
-            }
-            MSGPACK_INT8 => {
-                self.offset += 1;
-                Ok(())
-            }
-            MSGPACK_INT16 => {
-                self.offset += 2;
-                Ok(())
-            }
-            MSGPACK_INT32 => {
-                self.offset += 4;
-                Ok(())
-            }
-            MSGPACK_INT64 => {
-                self.offset += 8;
-                Ok(())
-            }
-            // Fixed integers are already handled by decode_u8
-
-            // Boolean and nil
-            MSGPACK_NIL | MSGPACK_TRUE | MSGPACK_FALSE => Ok(()),
-
-            // Map format
-            prefix @ MSGPACK_FIXMAP_MIN..=MSGPACK_FIXMAP_MAX => {
-                let len = (prefix & 0x0f) as usize;
-                for _ in 0..len {
-                    self.skip_value()?; // Skip key
-                    self.skip_value()?; // Skip value
+                MSGPACK_EXT8 => {
+                    let len = self.decode_u8()? as usize;
+                    self.skip_bytes(1)?;
+                    self.skip_bytes(len)?
                 }
-                Ok(())
-            }
-            MSGPACK_MAP16 => {
-                let len = self.decode_u16()? as usize;
-                for _ in 0..len {
-                    self.skip_value()?; // Skip key
-                    self.skip_value()?; // Skip value
+                MSGPACK_EXT16 => {
+                    let len = self.decode_u16()? as usize;
+                    self.skip_bytes(1)?;
+                    self.skip_bytes(len)?
                 }
-                Ok(())
-            }
-            MSGPACK_MAP32 => {
-                let len = self.decode_u32()? as usize;
-                for _ in 0..len {
-                    self.skip_value()?; // Skip key
-                    self.skip_value()?; // Skip value
+                MSGPACK_EXT32 => {
+                    let len = self.decode_u32()? as usize;
+                    self.skip_bytes(1)?;
+                    self.skip_bytes(len)?
                 }
-                Ok(())
-            }
 
-            // Array format
-            prefix @ MSGPACK_FIXARRAY_MIN..=MSGPACK_FIXARRAY_MAX => {
-                let len = (prefix & 0x0f) as usize;
-                for _ in 0..len {
-                    self.skip_value()?;
-                }
-                Ok(())
-            }
-            MSGPACK_ARRAY16 => {
-                let len = self.decode_u16()? as usize;
-                for _ in 0..len {
-                    self.skip_value()?;
-                }
-                Ok(())
-            }
-            MSGPACK_ARRAY32 => {
-                let len = self.decode_u32()? as usize;
-                for _ in 0..len {
-                    self.skip_value()?;
-                }
-                Ok(())
-            }
+                // Map format: keys and values
+                MSGPACK_FIXMAP_MIN..=MSGPACK_FIXMAP_MAX => remaining += 2 * (prefix & 0x0f) as u128,
+                MSGPACK_MAP16 => remaining += 2 * self.decode_u16()? as u128,
+                MSGPACK_MAP32 => remaining += 2 * self.decode_u32()? as u128,
 
-            _ => Err(DecodeError::UnexpectedType),
+                // Array format
+                MSGPACK_FIXARRAY_MIN..=MSGPACK_FIXARRAY_MAX => remaining += (prefix & 0x0f) as u128,
+                MSGPACK_ARRAY16 => remaining += self.decode_u16()? as u128,
+                MSGPACK_ARRAY32 => remaining += self.decode_u32()? as u128,
+
+                // That one is never used
+                _ => return Err(DecodeError::InvalidData),
+            }
         }
+        Ok(())
     }
 
     fn deserialize_value(&mut self, wip: Wip<'input>) -> Result<Wip<'input>, DecodeError> {
-- 
2.43.0


From 382357f36d92e9c753b88df0baddaab4935dd3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 37/61] fix: TOML options couldn't be followed by anything

---
 facet-toml/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/facet-toml/src/lib.rs b/facet-toml/src/lib.rs
index e564cd0..51a1975 100644
--- a/facet-toml/src/lib.rs
+++ b/facet-toml/src/lib.rs
@@ -366,6 +366,9 @@ fn deserialize_as_option<'a>(mut wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, A
 
     wip = deserialize_item(wip, item)?;
 
+    // Finish the value within the option
+    wip = wip.pop().map_err(|e| AnyErr(e.to_string()))?;
+
     trace!("Finished deserializing {}", "option".blue());
 
     Ok(wip)
-- 
2.43.0


From 33d17208655ca585eb391bdcbbb66d95c03cc760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 38/61] fix: TOML enum variants took their own name, or the
 same value for every field, as their content

---
 facet-toml/src/lib.rs | 50 +++++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/facet-toml/src/lib.rs b/facet-toml/src/lib.rs
index 51a1975..bcfb72f 100644
--- a/facet-toml/src/lib.rs
+++ b/facet-toml/src/lib.rs
@@ -140,7 +140,7 @@ fn deserialize_as_enum<'a>(wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, AnyErr>
                             wip,
                             key,
                             // TODO: remove clone
-                            &Item::Value(field.clone()),
+                            Some(&Item::Value(field.clone())),
                         );
                     }
                 } else {
@@ -155,7 +155,7 @@ fn deserialize_as_enum<'a>(wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, AnyErr>
                 .as_str()
                 .ok_or_else(|| format!("Expected string, got: {}", value.type_name()))?;
 
-            build_enum_from_variant_name(wip, variant_name, item)?
+            build_enum_from_variant_name(wip, variant_name, None)?
         }
 
         Item::Table(table) => {
@@ -168,7 +168,7 @@ fn deserialize_as_enum<'a>(wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, AnyErr>
                             .to_string(),
                     ));
                 } else {
-                    build_enum_from_variant_name(wip, key, field)?
+                    build_enum_from_variant_name(wip, key, Some(field))?
                 }
             } else {
                 return Err(AnyErr(
@@ -188,7 +188,8 @@ fn deserialize_as_enum<'a>(wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, AnyErr>
 fn build_enum_from_variant_name<'a>(
     mut wip: Wip<'a>,
     variant_name: &str,
-    item: &Item,
+    // What's given for the variant's fields, if anything
+    item: Option<&Item>,
 ) -> Result<Wip<'a>, AnyErr> {
     // Select the variant
     wip = wip
@@ -197,19 +198,22 @@ fn build_enum_from_variant_name<'a>(
     // Safe to unwrap because the variant got just selected
     let variant = wip.selected_variant().unwrap();
 
-    if variant.data.kind == StructKind::Unit {
-        // No need to do anything, we can just set the variant since it's a unit enum
-        return Ok(wip);
-    }
+    let Some(item) = item else {
+        // Without any value, there must not be any fields
+        return if variant.data.fields.is_empty() {
+            Ok(wip)
+        } else {
+            Err(format!("Variant '{variant_name}' has fields, but no value was given").into())
+        };
+    };
 
-    // Push all fields
-    for (index, field) in variant.data.fields.iter().enumerate() {
-        wip = wip
-            .field_named(field.name)
-            .map_err(|e| format!("Field by name on enum does not exist: {e}"))?;
+    if let Some(item) = item.as_table_like() {
+        // Push all fields
+        for (index, field) in variant.data.fields.iter().enumerate() {
+            wip = wip
+                .field_named(field.name)
+                .map_err(|e| format!("Field by name on enum does not exist: {e}"))?;
 
-        // Try to get the TOML value as a table to extract the field
-        if let Some(item) = item.as_table_like() {
             // Base the field name on what type of struct we are
             let field_name = if let StructKind::TupleStruct | StructKind::Tuple = variant.data.kind
             {
@@ -227,11 +231,19 @@ fn build_enum_from_variant_name<'a>(
             wip = deserialize_item(wip, field)?;
 
             wip = wip.pop().map_err(|e| AnyErr(e.to_string()))?;
-        } else if item.is_value() {
-            wip = deserialize_item(wip, item)?;
-        } else {
-            return Err(format!("TOML {} is not a recognized type", item.type_name()).into());
         }
+    } else if variant.data.fields.len() == 1 {
+        // A single value stands for the only field
+        wip = wip.field(0).map_err(|e| AnyErr(e.to_string()))?;
+        wip = deserialize_item(wip, item)?;
+        wip = wip.pop().map_err(|e| AnyErr(e.to_string()))?;
+    } else {
+        return Err(format!(
+            "Cannot parse TOML {} as variant '{variant_name}', which has {} fields",
+            item.type_name(),
+            variant.data.fields.len()
+        )
+        .into());
     }
 
     Ok(wip)
-- 
2.43.0


From d2e44ba28c1bd9f65a32edd51d08ae4672cde711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 39/61] fix: TOML tables for smart pointers, and arrays of
 tables for enums, caused a panic

---
 facet-toml/src/lib.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/facet-toml/src/lib.rs b/facet-toml/src/lib.rs
index bcfb72f..7171ab1 100644
--- a/facet-toml/src/lib.rs
+++ b/facet-toml/src/lib.rs
@@ -42,7 +42,6 @@ fn deserialize_item<'a>(wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, AnyErr> {
         Def::Struct(def) => deserialize_as_struct(wip, def, item),
         Def::Enum(_) => deserialize_as_enum(wip, item),
         Def::Option(_) => deserialize_as_option(wip, item),
-        Def::SmartPointer(_) => deserialize_as_smartpointer(wip, item),
         _ => Err(AnyErr(format!("Unsupported type: {:?}", wip.shape()))),
     }
 }
@@ -116,7 +115,7 @@ fn deserialize_as_enum<'a>(wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, AnyErr>
     trace!("Deserializing {}", "enum".blue());
 
     let wip = match item {
-        Item::None => todo!(),
+        Item::None => return Err("Expected a value to parse enum from".into()),
 
         Item::Value(value) => {
             trace!("Entering {}", "value".cyan());
@@ -177,7 +176,9 @@ fn deserialize_as_enum<'a>(wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, AnyErr>
             }
         }
 
-        Item::ArrayOfTables(_array_of_tables) => todo!(),
+        Item::ArrayOfTables(_) => {
+            return Err(format!("Cannot parse enum from {}", item.type_name()).into());
+        }
     };
 
     trace!("Finished deserializing {}", "enum".blue());
@@ -386,14 +387,6 @@ fn deserialize_as_option<'a>(mut wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, A
     Ok(wip)
 }
 
-fn deserialize_as_smartpointer<'a>(mut _wip: Wip<'a>, _item: &Item) -> Result<Wip<'a>, AnyErr> {
-    trace!("Deserializing {}", "smart pointer".blue());
-
-    trace!("Finished deserializing {}", "smart pointer".blue());
-
-    todo!();
-}
-
 fn deserialize_as_scalar<'a>(mut wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, AnyErr> {
     trace!("Deserializing {}", "scalar".blue());
 
-- 
2.43.0


From 1f912675ec81c52a32a193a71e43382240c14648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 40/61] fix: TOML floats lost their fraction, or became
 infinite, if the type couldn't hold them

---
 facet-toml/src/lib.rs       | 24 ++++++++++++------------
 facet-toml/src/to_scalar.rs | 30 +++++++++++++++++++++++++-----
 2 files changed, 37 insertions(+), 17 deletions(-)

diff --git a/facet-toml/src/lib.rs b/facet-toml/src/lib.rs
index 7171ab1..8487c85 100644
--- a/facet-toml/src/lib.rs
+++ b/facet-toml/src/lib.rs
@@ -412,62 +412,62 @@ fn deserialize_as_scalar<'a>(mut wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, A
         }
         ScalarType::F32 => {
             wip = wip
-                .put(to_scalar::number::<f32>(item)?)
+                .put(to_scalar::float::<f32>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::F64 => {
             wip = wip
-                .put(to_scalar::number::<f64>(item)?)
+                .put(to_scalar::float::<f64>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::U8 => {
             wip = wip
-                .put(to_scalar::number::<u8>(item)?)
+                .put(to_scalar::integer::<u8>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::U16 => {
             wip = wip
-                .put(to_scalar::number::<u16>(item)?)
+                .put(to_scalar::integer::<u16>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::U32 => {
             wip = wip
-                .put(to_scalar::number::<u32>(item)?)
+                .put(to_scalar::integer::<u32>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::U64 => {
             wip = wip
-                .put(to_scalar::number::<u64>(item)?)
+                .put(to_scalar::integer::<u64>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::USize => {
             wip = wip
-                .put(to_scalar::number::<usize>(item)?)
+                .put(to_scalar::integer::<usize>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::I8 => {
             wip = wip
-                .put(to_scalar::number::<i8>(item)?)
+                .put(to_scalar::integer::<i8>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::I16 => {
             wip = wip
-                .put(to_scalar::number::<i16>(item)?)
+                .put(to_scalar::integer::<i16>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::I32 => {
             wip = wip
-                .put(to_scalar::number::<i32>(item)?)
+                .put(to_scalar::integer::<i32>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::I64 => {
             wip = wip
-                .put(to_scalar::number::<i64>(item)?)
+                .put(to_scalar::integer::<i64>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::ISize => {
             wip = wip
-                .put(to_scalar::number::<isize>(item)?)
+                .put(to_scalar::integer::<isize>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         #[cfg(feature = "std")]
diff --git a/facet-toml/src/to_scalar.rs b/facet-toml/src/to_scalar.rs
index f7654bc..dbf02a1 100644
--- a/facet-toml/src/to_scalar.rs
+++ b/facet-toml/src/to_scalar.rs
@@ -2,21 +2,24 @@
 
 use std::{fmt::Display, str::FromStr};
 
-use num_traits::cast::NumCast;
+use num_traits::{cast::NumCast, float::FloatCore};
 use toml_edit::{Item, Value};
 
 use crate::AnyErr;
 
-/// Try to convert a TOML integer or float to a Rust number.
+/// Try to convert a TOML integer or float to a Rust integer.
 ///
-/// Applies to all Rust scalars supported by the `num` crate.
-pub(crate) fn number<T: NumCast>(item: &Item) -> Result<T, AnyErr> {
+/// Applies to all Rust integers supported by the `num` crate.
+pub(crate) fn integer<T: NumCast>(item: &Item) -> Result<T, AnyErr> {
     let v = item
         .as_value()
         .ok_or_else(|| format!("Expected value, got: {}", item.type_name()))?;
 
     match v {
-        Value::Float(r) => Ok(T::from(*r.value())
+        // The cast would cut off the fraction
+        Value::Float(r) => Ok(Some(*r.value())
+            .filter(|r| FloatCore::fract(*r) == 0.0)
+            .and_then(T::from)
             .ok_or_else(|| format!("Cannot convert float to {}", std::any::type_name::<T>()))?),
         Value::Integer(i) => Ok(T::from(*i.value())
             .ok_or_else(|| format!("Cannot convert integer to {}", std::any::type_name::<T>()))?),
@@ -24,6 +27,23 @@ pub(crate) fn number<T: NumCast>(item: &Item) -> Result<T, AnyErr> {
     }
 }
 
+/// Try to convert a TOML integer or float to a Rust float.
+pub(crate) fn float<T: NumCast + FloatCore>(item: &Item) -> Result<T, AnyErr> {
+    let v = item
+        .as_value()
+        .ok_or_else(|| format!("Expected value, got: {}", item.type_name()))?;
+
+    match v {
+        // The cast would turn numbers out of range into infinities
+        Value::Float(r) => Ok(<T as NumCast>::from(*r.value())
+            .filter(|n| n.is_infinite() == r.value().is_infinite())
+            .ok_or_else(|| format!("Cannot convert float to {}", std::any::type_name::<T>()))?),
+        Value::Integer(i) => Ok(<T as NumCast>::from(*i.value())
+            .ok_or_else(|| format!("Cannot convert integer to {}", std::any::type_name::<T>()))?),
+        _ => Err(format!("Cannot convert {} to a number", v.type_name()).into()),
+    }
+}
+
 /// Try to convert a TOML boolean to a Rust boolean.
 pub(crate) fn boolean(item: &Item) -> Result<bool, AnyErr> {
     let v = item
-- 
2.43.0


From d92b7f3690179cc52244670004c9ebaa8b04c2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:05 +0000
Subject: [PATCH 41/61] fix: TOML arrays of tables couldn't be decoded into
 lists

---
 facet-toml/src/lib.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/facet-toml/src/lib.rs b/facet-toml/src/lib.rs
index 8487c85..99bd017 100644
--- a/facet-toml/src/lib.rs
+++ b/facet-toml/src/lib.rs
@@ -54,7 +54,7 @@ fn deserialize_as_struct<'a>(
     trace!("Deserializing {}", "struct".blue());
 
     // Parse as a the inner struct type if item is a single value and the struct is a unit struct
-    if item.is_value() && !item.is_inline_table() {
+    if !item.is_table_like() {
         // Only allow unit structs
         let shape = wip.shape();
         if let Def::Struct(def) = shape.def {
@@ -253,15 +253,20 @@ fn build_enum_from_variant_name<'a>(
 fn deserialize_as_list<'a>(mut wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, AnyErr> {
     trace!("Deserializing {}", "list".blue());
 
-    // Get the TOML item as an array
-    let Some(item) = item.as_array() else {
+    // Get the items of the TOML array, or the tables of the array of tables
+    // TODO: remove clone
+    let items: Vec<Item> = if let Some(array) = item.as_array() {
+        array.iter().cloned().map(Item::Value).collect()
+    } else if let Some(tables) = item.as_array_of_tables() {
+        tables.iter().cloned().map(Item::Table).collect()
+    } else {
         return Err(AnyErr(format!(
             "Item is not an array but a {}",
             item.type_name()
         )));
     };
 
-    if item.is_empty() {
+    if items.is_empty() {
         // Only put an empty list
         return wip
             .put_empty_list()
@@ -274,17 +279,13 @@ fn deserialize_as_list<'a>(mut wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, Any
         .map_err(|e| format!("Can not start filling list: {e}"))?;
 
     // Loop over all items in the TOML list
-    for value in item.iter() {
+    for item in &items {
         // Start the field
         wip = wip
             .push()
             .map_err(|e| format!("Can not start field: {e}"))?;
 
-        wip = deserialize_item(
-            wip,
-            // TODO: remove clone
-            &Item::Value(value.clone()),
-        )?;
+        wip = deserialize_item(wip, item)?;
 
         // Finish the field
         wip = wip
-- 
2.43.0


From de3a3d7130b133c7a006e1656e41a4e085543f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:05 +0000
Subject: [PATCH 42/61] fix: options missing in TOML weren't taken for None in
 enum variants, and couldn't be followed by anything

---
 facet-toml/src/lib.rs | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/facet-toml/src/lib.rs b/facet-toml/src/lib.rs
index 99bd017..869fbe9 100644
--- a/facet-toml/src/lib.rs
+++ b/facet-toml/src/lib.rs
@@ -91,17 +91,7 @@ fn deserialize_as_struct<'a>(
         let field_item = table.get(field.name);
         match field_item {
             Some(field_item) => wip = deserialize_item(wip, field_item)?,
-            None => {
-                if let Def::Option(..) = field.shape().def {
-                    // TODO: how to push none
-                    wip = wip.push_some().map_err(|e| AnyErr(e.to_string()))?;
-                    wip = wip
-                        .pop_some_push_none()
-                        .map_err(|e| AnyErr(e.to_string()))?;
-                } else {
-                    return Err(AnyErr(format!("Expected field '{}'", field.name)));
-                }
-            }
+            None => wip = deserialize_missing(wip, field.name)?,
         }
         wip = wip.pop().map_err(|e| AnyErr(e.to_string()))?;
     }
@@ -111,6 +101,20 @@ fn deserialize_as_struct<'a>(
     Ok(wip)
 }
 
+/// Fills a field that isn't there, which only options may do without
+fn deserialize_missing<'a>(mut wip: Wip<'a>, field_name: &str) -> Result<Wip<'a>, AnyErr> {
+    let Def::Option(..) = wip.shape().def else {
+        return Err(AnyErr(format!("Expected field '{}'", field_name)));
+    };
+
+    // TODO: how to push none
+    wip = wip.push_some().map_err(|e| AnyErr(e.to_string()))?;
+    wip = wip
+        .pop_some_push_none()
+        .map_err(|e| AnyErr(e.to_string()))?;
+    wip.pop().map_err(|e| AnyErr(e.to_string()))
+}
+
 fn deserialize_as_enum<'a>(wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, AnyErr> {
     trace!("Deserializing {}", "enum".blue());
 
@@ -225,12 +229,11 @@ fn build_enum_from_variant_name<'a>(
             };
 
             // Try to get the TOML field matching the Rust name
-            let Some(field) = item.get(field_name) else {
-                return Err(format!("TOML field '{}' not found", field_name).into());
+            wip = match item.get(field_name) {
+                Some(field) => deserialize_item(wip, field)?,
+                None => deserialize_missing(wip, field_name)?,
             };
 
-            wip = deserialize_item(wip, field)?;
-
             wip = wip.pop().map_err(|e| AnyErr(e.to_string()))?;
         }
     } else if variant.data.fields.len() == 1 {
-- 
2.43.0


From 09e38f6e3fec17a9741558cc0629671b9d282f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:16 +0000
Subject: [PATCH 43/61] fix: negative integers in YAML wrapped around

---
 facet-yaml/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/facet-yaml/src/lib.rs b/facet-yaml/src/lib.rs
index e402a67..4f6ab66 100644
--- a/facet-yaml/src/lib.rs
+++ b/facet-yaml/src/lib.rs
@@ -58,7 +58,9 @@ fn yaml_to_u64(ty: &Yaml) -> Result<u64, AnyErr> {
         Yaml::Real(r) => r
             .parse::<u64>()
             .map_err(|_| AnyErr("Failed to parse real as u64".into())),
-        Yaml::Integer(i) => Ok(*i as u64),
+        Yaml::Integer(i) => {
+            u64::try_from(*i).map_err(|_| AnyErr(format!("Integer {i} is out of range for u64")))
+        }
         Yaml::String(s) => s
             .parse::<u64>()
             .map_err(|_| AnyErr("Failed to parse string as u64".into())),
-- 
2.43.0


From 3c9b66867e713ef6397be5baae176cf19cb92015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:16 +0000
Subject: [PATCH 44/61] fix: YAML for lists, maps and enums, which aren't
 supported yet, caused a panic

---
 facet-yaml/src/lib.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/facet-yaml/src/lib.rs b/facet-yaml/src/lib.rs
index 4f6ab66..ea1544f 100644
--- a/facet-yaml/src/lib.rs
+++ b/facet-yaml/src/lib.rs
@@ -94,8 +94,6 @@ fn deserialize_value<'a>(mut wip: Wip<'a>, value: &Yaml) -> Result<Wip<'a>, AnyE
                 return Err(AnyErr(format!("Unsupported scalar type: {}", shape)));
             }
         }
-        Def::List(_) => todo!(),
-        Def::Map(_) => todo!(),
         Def::Struct(_) => {
             if let Yaml::Hash(hash) = value {
                 for (k, v) in hash {
@@ -115,7 +113,6 @@ fn deserialize_value<'a>(mut wip: Wip<'a>, value: &Yaml) -> Result<Wip<'a>, AnyE
                 return Err(AnyErr(format!("Expected a YAML hash, got: {:?}", value)));
             }
         }
-        Def::Enum(_) => todo!(),
         _ => return Err(AnyErr(format!("Unsupported type: {:?}", shape))),
     }
     Ok(wip)
-- 
2.43.0


From 68c9d6c1135398fcd8cb47fb2ab233486463c76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:16 +0000
Subject: [PATCH 45/61] fix: form keys with text between brackets (a[b]c) were
 taken for nested ones (a[bc])

---
 facet-urlencoded/src/lib.rs | 53 +++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/facet-urlencoded/src/lib.rs b/facet-urlencoded/src/lib.rs
index 6dca4ad..8eaed12 100644
--- a/facet-urlencoded/src/lib.rs
+++ b/facet-urlencoded/src/lib.rs
@@ -108,6 +108,20 @@ fn initialize_nested_structures(nested: &mut NestedValues) {
     }
 }
 
+/// Splits a key in bracket notation into the keys leading to the last one, and the last one.
+///
+/// Other keys, including those with text in between or with stray brackets, are `None`.
+fn split_key(key: &str) -> Option<(Vec<&str>, &str)> {
+    let (first, rest) = key.split_once('[')?;
+    let mut path = vec![first];
+    path.extend(rest.strip_suffix(']')?.split("]["));
+    if path.iter().any(|key| key.contains(['[', ']'])) {
+        return None;
+    }
+    let last = path.pop()?;
+    Some((path, last))
+}
+
 /// Internal helper struct to represent nested values from URL-encoded data
 struct NestedValues {
     // Root level key-value pairs
@@ -125,34 +139,21 @@ impl NestedValues {
     }
 
     fn insert(&mut self, key: &str, value: String) {
+        let Some((path, last)) = split_key(key) else {
+            // It's a flat key-value pair
+            self.flat.insert(key.to_string(), value);
+            return;
+        };
+
         // For bracket notation like user[name] or user[address][city]
-        if let Some(open_bracket) = key.find('[') {
-            if let Some(close_bracket) = key.find(']') {
-                if open_bracket < close_bracket {
-                    let parent_key = &key[0..open_bracket];
-                    let nested_key = &key[(open_bracket + 1)..close_bracket];
-                    let remainder = &key[(close_bracket + 1)..];
-
-                    let nested = self
-                        .nested
-                        .entry(parent_key.to_string())
-                        .or_insert_with(NestedValues::new);
-
-                    if remainder.is_empty() {
-                        // Simple case: user[name]=value
-                        nested.flat.insert(nested_key.to_string(), value);
-                    } else {
-                        // Handle deeply nested case like user[address][city]=value
-                        let new_key = format!("{}{}", nested_key, remainder);
-                        nested.insert(&new_key, value);
-                    }
-                    return;
-                }
-            }
+        let mut values = self;
+        for key in path {
+            values = values
+                .nested
+                .entry(key.to_string())
+                .or_insert_with(NestedValues::new);
         }
-
-        // If we get here, it's a flat key-value pair
-        self.flat.insert(key.to_string(), value);
+        values.flat.insert(last.to_string(), value);
     }
 
     fn get(&self, key: &str) -> Option<&String> {
-- 
2.43.0


From 456f64fe1fb7d22245d4621fc86848ffb2084855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:16 +0000
Subject: [PATCH 46/61] fix: which of a form's errors was reported varied from
 run to run

---
 facet-urlencoded/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/facet-urlencoded/src/lib.rs b/facet-urlencoded/src/lib.rs
index 8eaed12..8e74efa 100644
--- a/facet-urlencoded/src/lib.rs
+++ b/facet-urlencoded/src/lib.rs
@@ -125,16 +125,16 @@ fn split_key(key: &str) -> Option<(Vec<&str>, &str)> {
 /// Internal helper struct to represent nested values from URL-encoded data
 struct NestedValues {
     // Root level key-value pairs
-    flat: std::collections::HashMap<String, String>,
+    flat: std::collections::BTreeMap<String, String>,
     // Nested structures: key -> nested map
-    nested: std::collections::HashMap<String, NestedValues>,
+    nested: std::collections::BTreeMap<String, NestedValues>,
 }
 
 impl NestedValues {
     fn new() -> Self {
         Self {
-            flat: std::collections::HashMap::new(),
-            nested: std::collections::HashMap::new(),
+            flat: std::collections::BTreeMap::new(),
+            nested: std::collections::BTreeMap::new(),
         }
     }
 
-- 
2.43.0


From c08c4f8be8667853915ba9ac873f23a2f0cd2d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:16 +0000
Subject: [PATCH 47/61] fix: form keys with many brackets overflowed the stack

---
 facet-urlencoded/src/lib.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/facet-urlencoded/src/lib.rs b/facet-urlencoded/src/lib.rs
index 8e74efa..ce3da81 100644
--- a/facet-urlencoded/src/lib.rs
+++ b/facet-urlencoded/src/lib.rs
@@ -91,23 +91,10 @@ fn from_str_value<'mem>(
         nested_values.insert(&key, value.to_string());
     }
 
-    // Create pre-initialized structure so that we have all the required fields
-    // for better error reporting when fields are missing
-    initialize_nested_structures(&mut nested_values);
-
     // Process the deserialization
     deserialize_value(wip, &nested_values)
 }
 
-/// Ensures that all nested structures have entries in the NestedValues
-/// This helps ensure we get better error reporting when fields are missing
-fn initialize_nested_structures(nested: &mut NestedValues) {
-    // Go through each nested value and recursively initialize it
-    for nested_value in nested.nested.values_mut() {
-        initialize_nested_structures(nested_value);
-    }
-}
-
 /// Splits a key in bracket notation into the keys leading to the last one, and the last one.
 ///
 /// Other keys, including those with text in between or with stray brackets, are `None`.
@@ -175,6 +162,18 @@ impl NestedValues {
     }
 }
 
+impl Drop for NestedValues {
+    fn drop(&mut self) {
+        // Keys can be nested deeper than the stack allows for
+        let mut rest = vec![core::mem::take(&mut self.nested)];
+        while let Some(nested) = rest.pop() {
+            for mut values in nested.into_values() {
+                rest.push(core::mem::take(&mut values.nested));
+            }
+        }
+    }
+}
+
 /// Deserialize a value recursively using the nested values
 fn deserialize_value<'mem>(
     wip: Wip<'mem>,
-- 
2.43.0


From e2981a7129fa2fc2ae07de7053a0a45094e86a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:36 +0000
Subject: [PATCH 48/61] fix: positional arguments other than the first replaced
 it, or were dropped

---
 facet-args/src/lib.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/facet-args/src/lib.rs b/facet-args/src/lib.rs
index c0cdbf3..1a18ea0 100644
--- a/facet-args/src/lib.rs
+++ b/facet-args/src/lib.rs
@@ -63,16 +63,18 @@ pub fn from_slice<T: Facet>(s: &[&str]) -> T {
                 panic!("Expected struct definition");
             };
 
-            for (field_index, f) in sd.fields.iter().enumerate() {
-                if f.attributes
+            // The first positional field that has no value yet
+            let field_index = sd.fields.iter().enumerate().position(|(field_index, f)| {
+                f.attributes
                     .iter()
                     .any(|a| matches!(a, FieldAttribute::Arbitrary(a) if a.contains("positional")))
-                {
-                    let field = wip.field(field_index).unwrap();
-                    wip = parse_field(field, token).unwrap();
-                    break;
-                }
-            }
+                    && !wip.is_field_set(field_index).unwrap()
+            });
+            let Some(field_index) = field_index else {
+                panic!("Unexpected positional argument: {}", token);
+            };
+            let field = wip.field(field_index).unwrap();
+            wip = parse_field(field, token).unwrap();
         }
     }
     wip.build().unwrap().materialize().unwrap()
-- 
2.43.0


From 06fff38147512d1fae30dfea0c87e950d11f6350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:36 +0000
Subject: [PATCH 49/61] fix: boolean arguments couldn't be left out

---
 facet-args/src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/facet-args/src/lib.rs b/facet-args/src/lib.rs
index 1a18ea0..51325a5 100644
--- a/facet-args/src/lib.rs
+++ b/facet-args/src/lib.rs
@@ -77,5 +77,16 @@ pub fn from_slice<T: Facet>(s: &[&str]) -> T {
             wip = parse_field(field, token).unwrap();
         }
     }
+
+    // Flags that weren't given are off
+    if let Def::Struct(sd) = wip.shape().def {
+        for (field_index, f) in sd.fields.iter().enumerate() {
+            if f.shape().is_type::<bool>() && !wip.is_field_set(field_index).unwrap() {
+                let field = wip.field(field_index).unwrap();
+                wip = parse_field(field, "false").unwrap();
+            }
+        }
+    }
+
     wip.build().unwrap().materialize().unwrap()
 }
-- 
2.43.0


From 1a09f580d976aa4ed9b040021d215bdc985845b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:36 +0000
Subject: [PATCH 50/61] fix: arguments that aren't booleans were taken for
 false

---
 facet-args/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/facet-args/src/lib.rs b/facet-args/src/lib.rs
index 51325a5..fc55cc3 100644
--- a/facet-args/src/lib.rs
+++ b/facet-args/src/lib.rs
@@ -14,8 +14,8 @@ fn parse_field<'mem>(wip: Wip<'mem>, value: &str) -> Result<Wip<'mem>, ReflectEr
             if shape.is_type::<String>() {
                 wip.put(value.to_string())
             } else if shape.is_type::<bool>() {
-                log::trace!("Boolean field detected, setting to true");
-                wip.put(value.to_lowercase() == "true")
+                log::trace!("Boolean field detected");
+                wip.parse(&value.to_lowercase())
             } else {
                 wip.parse(value)
             }
-- 
2.43.0


From 1c2d62107a7bf6f215362256a022f7a5b7cc6fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:37 +0000
Subject: [PATCH 51/61] fix: arguments by their short name were taken for
 positional ones

---
 facet-args/src/lib.rs | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/facet-args/src/lib.rs b/facet-args/src/lib.rs
index fc55cc3..8898e12 100644
--- a/facet-args/src/lib.rs
+++ b/facet-args/src/lib.rs
@@ -30,6 +30,23 @@ fn parse_field<'mem>(wip: Wip<'mem>, value: &str) -> Result<Wip<'mem>, ReflectEr
     .pop()
 }
 
+/// Finds the field with the given short name (`#[facet(short = 'v')]`)
+fn short_field_index(wip: &Wip<'_>, key: &str) -> Option<usize> {
+    let Def::Struct(sd) = wip.shape().def else {
+        return None;
+    };
+    sd.fields.iter().position(|f| {
+        f.attributes.iter().any(|a| match a {
+            FieldAttribute::Arbitrary(a) => a.split(',').any(|part| {
+                part.split_once('=').is_some_and(|(name, value)| {
+                    name.trim() == "short" && value.trim().trim_matches('\'') == key
+                })
+            }),
+            _ => false,
+        })
+    })
+}
+
 /// Parses command-line arguments
 pub fn from_slice<T: Facet>(s: &[&str]) -> T {
     log::trace!("Entering from_slice function");
@@ -41,12 +58,19 @@ pub fn from_slice<T: Facet>(s: &[&str]) -> T {
         log::trace!("Processing token: {}", token);
         s = &s[1..];
 
-        if let Some(key) = token.strip_prefix("--") {
+        let field_index = if let Some(key) = token.strip_prefix("--") {
             log::trace!("Found named argument: {}", key);
-            let field_index = match wip.field_index(key) {
-                Some(index) => index,
+            match wip.field_index(key) {
+                Some(index) => Some(index),
                 None => panic!("Unknown argument: {}", key),
-            };
+            }
+        } else {
+            token
+                .strip_prefix('-')
+                .and_then(|key| short_field_index(&wip, key))
+        };
+
+        if let Some(field_index) = field_index {
             let field = wip.field(field_index).unwrap();
 
             if field.shape().is_type::<bool>() {
-- 
2.43.0


From 53c481564708ef580f74a1b85e676821c7c401d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:15 +0000
Subject: [PATCH 52/61] fix: sensitive fields of enum variants were
 pretty-printed in full

---
 facet-pretty/src/printer.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/facet-pretty/src/printer.rs b/facet-pretty/src/printer.rs
index ccef62f..fc26a75 100644
--- a/facet-pretty/src/printer.rs
+++ b/facet-pretty/src/printer.rs
@@ -522,6 +522,16 @@ impl PrettyPrinter {
                             field_index: field_index + 1,
                         };
 
+                        // Field value is sensitive, use write_redacted
+                        if field.flags.contains(FieldFlags::SENSITIVE) {
+                            self.write_redacted(f, "[REDACTED]")?;
+                            self.write_punctuation(f, ",")?;
+                            writeln!(f)?;
+
+                            stack.push_back(item);
+                            continue;
+                        }
+
                         // Create finish and start items for processing the field value
                         let finish_item = StackItem {
                             value: field_value,
-- 
2.43.0


From 12a688f32d5c4bf0e18d8e07e624809f8dd8a18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:15 +0000
Subject: [PATCH 53/61] fix: sensitive fields inside arrays and slices could be
 pretty-printed

---
 facet-pretty/src/printer.rs | 38 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/facet-pretty/src/printer.rs b/facet-pretty/src/printer.rs
index fc26a75..29249ae 100644
--- a/facet-pretty/src/printer.rs
+++ b/facet-pretty/src/printer.rs
@@ -9,7 +9,7 @@ use core::{
 use std::{collections::HashMap, hash::DefaultHasher};
 use yansi::Paint as _;
 
-use facet_core::{Def, Facet, FieldFlags, StructKind, TypeNameOpts};
+use facet_core::{Def, Facet, Field, FieldFlags, Shape, StructKind, TypeNameOpts};
 use facet_reflect::{Peek, ValueId};
 
 use crate::color::ColorGenerator;
@@ -366,6 +366,14 @@ impl PrettyPrinter {
                                 }
                             }
                         }
+                        _ if may_hold_sensitive(item.value.shape(), &mut Vec::new()) => {
+                            // We can't tell what the Debug implementation would reveal
+                            write!(f, "unsupported peek variant: ")?;
+                            self.write_type_name(f, &item.value)?;
+                            self.write_punctuation(f, "(")?;
+                            self.write_redacted(f, "[REDACTED]")?;
+                            self.write_punctuation(f, ")")?;
+                        }
                         _ => {
                             write!(f, "unsupported peek variant: {:?}", item.value)?;
                         }
@@ -826,6 +834,34 @@ impl PrettyPrinter {
     }
 }
 
+/// Whether values of this shape may hold a field marked sensitive, at any depth
+fn may_hold_sensitive(shape: &'static Shape, seen: &mut Vec<&'static Shape>) -> bool {
+    if seen.contains(&shape) {
+        return false;
+    }
+    seen.push(shape);
+
+    let mut in_fields = |fields: &[Field]| {
+        fields.iter().any(|field| {
+            field.flags.contains(FieldFlags::SENSITIVE) || may_hold_sensitive(field.shape(), seen)
+        })
+    };
+    match shape.def {
+        Def::Struct(def) => in_fields(def.fields),
+        Def::Enum(def) => def.variants.iter().any(|v| in_fields(v.data.fields)),
+        Def::List(def) => may_hold_sensitive(def.t(), seen),
+        Def::Array(def) => may_hold_sensitive(def.t(), seen),
+        Def::Slice(def) => may_hold_sensitive(def.t(), seen),
+        Def::Option(def) => may_hold_sensitive(def.t(), seen),
+        Def::Map(def) => may_hold_sensitive(def.k, seen) || may_hold_sensitive(def.v, seen),
+        Def::SmartPointer(def) => match def.pointee {
+            Some(pointee) => may_hold_sensitive(pointee, seen),
+            None => true,
+        },
+        _ => false,
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From b3dd8340e1fd6845d9b9d3c7e6fdbb0d1fb3c6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:15 +0000
Subject: [PATCH 54/61] fix: the bracket at the pretty-printer's depth limit
 was never closed

---
 facet-pretty/src/printer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/facet-pretty/src/printer.rs b/facet-pretty/src/printer.rs
index 29249ae..cfec61b 100644
--- a/facet-pretty/src/printer.rs
+++ b/facet-pretty/src/printer.rs
@@ -140,6 +140,7 @@ impl PrettyPrinter {
                         if item.format_depth > max_depth {
                             self.write_punctuation(f, "[")?;
                             write!(f, "...")?;
+                            self.write_punctuation(f, "]")?;
                             continue;
                         }
                     }
-- 
2.43.0


From ed7dfa38be000f1cb92a058c589609a4bec4c3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:15 +0000
Subject: [PATCH 55/61] fix: pretty-printing bytes left the terminal in the
 last byte's colour

---
 facet-pretty/src/printer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/facet-pretty/src/printer.rs b/facet-pretty/src/printer.rs
index cfec61b..47acb6d 100644
--- a/facet-pretty/src/printer.rs
+++ b/facet-pretty/src/printer.rs
@@ -659,7 +659,9 @@ impl PrettyPrinter {
                     write!(f, "{:02x}", *byte)?;
 
                     // Reset color if needed
-                    // Reset color already handled by stylize
+                    if self.use_colors {
+                        write!(f, "\x1b[0m")?;
+                    }
 
                     // Push back current item to continue after formatting byte
                     item.state = StackState::ProcessBytesItem {
-- 
2.43.0


From af3cca6f79d4606607c849a74521ef7444e9401e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:15 +0000
Subject: [PATCH 56/61] fix: the pretty-printer took distinct zero-sized values
 for a cycle

---
 facet-pretty/src/printer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/facet-pretty/src/printer.rs b/facet-pretty/src/printer.rs
index 47acb6d..7338c72 100644
--- a/facet-pretty/src/printer.rs
+++ b/facet-pretty/src/printer.rs
@@ -145,8 +145,11 @@ impl PrettyPrinter {
                         }
                     }
 
-                    // Check for cycles - if we've seen this value before at a different type_depth
-                    if let Some(&ptr_type_depth) = visited.get(&item.value.id()) {
+                    // Check for cycles - if we've seen this value before at a different type_depth.
+                    // Zero-sized values are never part of one, and distinct ones may share an address.
+                    let zero_sized = item.value.shape().layout.size() == 0;
+                    let seen = visited.get(&item.value.id()).filter(|_| !zero_sized);
+                    if let Some(&ptr_type_depth) = seen {
                         // If the current type_depth is significantly deeper than when we first saw this value,
                         // we have a true cycle, not just a transparent wrapper
                         if item.type_depth > ptr_type_depth + 1 {
-- 
2.43.0


From 33ca25d2a69ca8c3246f94958625bfcde727c594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:17 +0000
Subject: [PATCH 57/61] fix: docs written as raw strings, as in types defined
 by macros, were dropped

---
 facet-derive-emit/src/lib.rs  | 6 +++---
 facet-derive-parse/src/lib.rs | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/facet-derive-emit/src/lib.rs b/facet-derive-emit/src/lib.rs
index 75e5320..954a2bd 100644
--- a/facet-derive-emit/src/lib.rs
+++ b/facet-derive-emit/src/lib.rs
@@ -102,7 +102,7 @@ pub(crate) fn build_maybe_doc(attrs: &[Attribute]) -> String {
     let doc_lines: Vec<_> = attrs
         .iter()
         .filter_map(|attr| match &attr.body.content {
-            AttributeInner::Doc(doc_inner) => Some(doc_inner.value.value()),
+            AttributeInner::Doc(doc_inner) => Some(doc_inner.value.to_string()),
             _ => None,
         })
         .collect();
@@ -128,7 +128,7 @@ pub(crate) fn gen_struct_field(
     // Determine field flags
     let mut flags = "::facet::FieldFlags::EMPTY";
     let mut attribute_list: Vec<String> = vec![];
-    let mut doc_lines: Vec<&str> = vec![];
+    let mut doc_lines: Vec<String> = vec![];
     let mut shape_of = "shape_of";
     for attr in attrs {
         match &attr.body.content {
@@ -195,7 +195,7 @@ pub(crate) fn gen_struct_field(
                     }
                 }
             },
-            AttributeInner::Doc(doc_inner) => doc_lines.push(doc_inner.value.value()),
+            AttributeInner::Doc(doc_inner) => doc_lines.push(doc_inner.value.to_string()),
             AttributeInner::Repr(_) => {
                 // muffin
             }
diff --git a/facet-derive-parse/src/lib.rs b/facet-derive-parse/src/lib.rs
index 76ed1cb..e6be87a 100644
--- a/facet-derive-parse/src/lib.rs
+++ b/facet-derive-parse/src/lib.rs
@@ -161,8 +161,8 @@ unsynn! {
         pub _kw_doc: KDoc,
         /// The equality operator.
         pub _eq: Eq,
-        /// The documentation content as a literal string.
-        pub value: LiteralString,
+        /// The documentation content as a literal string, which is raw in macros.
+        pub value: Literal,
     }
 
     /// Represents the inner content of a `repr` attribute, typically used for specifying
-- 
2.43.0


From abdd42695f62f7a47e3cc3e1e00ab556cf333cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:51 +0000
Subject: [PATCH 58/61] fix: attributes given to a macro as fragments were
 dropped

---
 facet-derive-emit/src/lib.rs | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/facet-derive-emit/src/lib.rs b/facet-derive-emit/src/lib.rs
index 954a2bd..3b8dd0e 100644
--- a/facet-derive-emit/src/lib.rs
+++ b/facet-derive-emit/src/lib.rs
@@ -5,6 +5,7 @@ mod process_enum;
 mod process_struct;
 
 pub fn facet_derive(input: TokenStream) -> TokenStream {
+    let input = without_macro_groups(input, false);
     let mut i = input.to_token_iter();
 
     // Parse as TypeDecl
@@ -22,6 +23,40 @@ pub fn facet_derive(input: TokenStream) -> TokenStream {
     }
 }
 
+/// Takes apart the invisible groups that a `macro_rules!` macro puts around the
+/// attributes, visibilities and literals it was given as fragments (`$attr:meta`,
+/// `$vis:vis`, `$name:literal`), which the grammar doesn't see through.
+fn without_macro_groups(input: TokenStream, in_attribute: bool) -> TokenStream {
+    let mut out: Vec<TokenTree> = vec![];
+    for token in input {
+        let TokenTree::Group(group) = token else {
+            out.push(token);
+            continue;
+        };
+        let is_attribute = group.delimiter() == Delimiter::Bracket
+            && matches!(out.last(), Some(TokenTree::Punct(p)) if p.as_char() == '#');
+        let stream = without_macro_groups(group.stream(), in_attribute || is_attribute);
+        if group.delimiter() == Delimiter::None && (in_attribute || is_simple_fragment(&stream)) {
+            out.extend(stream);
+        } else {
+            let mut rebuilt = Group::new(group.delimiter(), stream);
+            rebuilt.set_span(group.span());
+            out.push(TokenTree::Group(rebuilt));
+        }
+    }
+    out.into_iter().collect()
+}
+
+/// Is this a visibility (which may be empty) or a literal?
+fn is_simple_fragment(stream: &TokenStream) -> bool {
+    let mut tokens = stream.clone().into_iter();
+    match (tokens.next(), tokens.next()) {
+        (None, _) | (Some(TokenTree::Literal(_)), None) => true,
+        (Some(TokenTree::Ident(ident)), _) => ident == "pub",
+        _ => false,
+    }
+}
+
 fn generics_split_for_impl(generics: Option<&GenericParams>) -> (String, String) {
     let Some(generics) = generics else {
         return ("".to_string(), "".to_string());
-- 
2.43.0


From 4e08c5aad9936d231a558796232f65bb8f1368c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:34 +0000
Subject: [PATCH 59/61] fix: raw identifiers kept their r# in the names of
 fields and variants

---
 facet-derive-emit/src/lib.rs          | 10 +++++++++-
 facet-derive-emit/src/process_enum.rs | 15 ++++++++-------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/facet-derive-emit/src/lib.rs b/facet-derive-emit/src/lib.rs
index 3b8dd0e..5ca5e96 100644
--- a/facet-derive-emit/src/lib.rs
+++ b/facet-derive-emit/src/lib.rs
@@ -124,6 +124,12 @@ pub(crate) fn to_upper_snake_case(input: &str) -> String {
         })
 }
 
+/// The name an identifier stands for: that of `r#type` is `type`
+pub(crate) fn plain_name(ident: &impl ToString) -> String {
+    let name = ident.to_string();
+    name.strip_prefix("r#").map(str::to_owned).unwrap_or(name)
+}
+
 /// Generate a static declaration that exports the crate
 pub(crate) fn generate_static_decl(type_name: &str) -> String {
     format!(
@@ -251,10 +257,12 @@ pub(crate) fn gen_struct_field(
         .map(|offset| format!(" + {offset}"))
         .unwrap_or_default();
 
+    let plain_field_name = plain_name(&field_name);
+
     // Generate each field definition
     format!(
         "::facet::Field::builder()
-    .name(\"{field_name}\")
+    .name(\"{plain_field_name}\")
     .shape(|| ::facet::{shape_of}(&|s: &{struct_name}<{generics}>| &s.{field_name}))
     .offset(::core::mem::offset_of!({struct_name}<{generics}>, {field_name}){maybe_base_field_offset})
     .flags({flags})
diff --git a/facet-derive-emit/src/process_enum.rs b/facet-derive-emit/src/process_enum.rs
index 616ce6c..a443132 100644
--- a/facet-derive-emit/src/process_enum.rs
+++ b/facet-derive-emit/src/process_enum.rs
@@ -265,7 +265,8 @@ fn process_c_style_enum(
         })
         .map(|variant_name| {
             format!(
-                "{variant_name}: std::mem::ManuallyDrop<__ShadowField{enum_name}_{variant_name}>"
+                "{variant_name}: std::mem::ManuallyDrop<__ShadowField{enum_name}_{}>",
+                plain_name(&variant_name)
             )
         })
         .collect::<Vec<_>>()
@@ -294,7 +295,7 @@ fn process_c_style_enum(
         }
         match &var_like.value.variant {
             EnumVariantData::Unit(unit) => {
-                let variant_name = unit.name.to_string();
+                let variant_name = plain_name(&unit.name);
                 let maybe_doc = build_maybe_doc(&unit.attributes);
 
                 // Generate shadow struct for this tuple variant to calculate offsets
@@ -314,7 +315,7 @@ fn process_c_style_enum(
                 ));
             }
             EnumVariantData::Tuple(tuple) => {
-                let variant_name = tuple.name.to_string();
+                let variant_name = plain_name(&tuple.name);
                 let maybe_doc = build_maybe_doc(&tuple.attributes);
 
                 // Generate shadow struct for this tuple variant to calculate offsets
@@ -379,7 +380,7 @@ fn process_c_style_enum(
                 ));
             }
             EnumVariantData::Struct(struct_var) => {
-                let variant_name = struct_var.name.to_string();
+                let variant_name = plain_name(&struct_var.name);
                 let maybe_doc = build_maybe_doc(&struct_var.attributes);
 
                 // Generate shadow struct for this struct variant to calculate offsets
@@ -485,7 +486,7 @@ fn process_primitive_enum(
         }
         match &var_like.value.variant {
             EnumVariantData::Unit(unit) => {
-                let variant_name = unit.name.to_string();
+                let variant_name = plain_name(&unit.name);
                 let maybe_doc = build_maybe_doc(&unit.attributes);
 
                 variant_expressions.push(format!(
@@ -498,7 +499,7 @@ fn process_primitive_enum(
                 ));
             }
             EnumVariantData::Tuple(tuple) => {
-                let variant_name = tuple.name.to_string();
+                let variant_name = plain_name(&tuple.name);
                 let maybe_doc = build_maybe_doc(&tuple.attributes);
 
                 // Generate shadow struct for this tuple variant to calculate offsets
@@ -561,7 +562,7 @@ fn process_primitive_enum(
                 ));
             }
             EnumVariantData::Struct(struct_var) => {
-                let variant_name = struct_var.name.to_string();
+                let variant_name = plain_name(&struct_var.name);
                 let maybe_doc = build_maybe_doc(&struct_var.attributes);
 
                 // Generate shadow struct for this struct variant to calculate offsets
-- 
2.43.0


From 43bec3733445f3f5d026e9611422457b46e77b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 60/61] fix: try_put_f64 refused 128-bit integers, which
 can_put_f64 says are accepted

---
 facet-reflect/src/wip/put_f64.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/facet-reflect/src/wip/put_f64.rs b/facet-reflect/src/wip/put_f64.rs
index d171094..68ac0eb 100644
--- a/facet-reflect/src/wip/put_f64.rs
+++ b/facet-reflect/src/wip/put_f64.rs
@@ -1,7 +1,7 @@
 use crate::{ReflectError, Wip};
 use core::num::{
-    NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64, NonZeroIsize, NonZeroU8, NonZeroU16, NonZeroU32,
-    NonZeroU64, NonZeroUsize,
+    NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64, NonZeroI128, NonZeroIsize, NonZeroU8,
+    NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU128, NonZeroUsize,
 };
 use facet_core::{Def, ScalarAffinity};
 
@@ -75,11 +75,13 @@ impl Wip<'_> {
             u16, NonZeroU16;
             u32, NonZeroU32;
             u64, NonZeroU64;
+            u128, NonZeroU128;
             usize, NonZeroUsize;
             i8, NonZeroI8;
             i16, NonZeroI16;
             i32, NonZeroI32;
             i64, NonZeroI64;
+            i128, NonZeroI128;
             isize, NonZeroIsize;
         }
 
-- 
2.43.0


From 3ca640e9421b77768467e607a66bf8843b7a98a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:00 +0000
Subject: [PATCH 61/61] fix: name the variant in the TOML error about an
 unknown enum variant

The error only said that there is no such static field, without naming
the variant the document asks for.
---
 facet-toml/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/facet-toml/src/lib.rs b/facet-toml/src/lib.rs
index 869fbe9..e7d1f55 100644
--- a/facet-toml/src/lib.rs
+++ b/facet-toml/src/lib.rs
@@ -199,7 +199,7 @@ fn build_enum_from_variant_name<'a>(
     // Select the variant
     wip = wip
         .variant_named(variant_name)
-        .map_err(|e| AnyErr(e.to_string()))?;
+        .map_err(|e| AnyErr(format!("Variant '{variant_name}' error: {e}")))?;
     // Safe to unwrap because the variant got just selected
     let variant = wip.selected_variant().unwrap();
 
-- 
2.43.0

