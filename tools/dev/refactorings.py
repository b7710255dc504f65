KV0, KV1 = "self.into_iter().map(|(k, v)| (f(k), v)).collect()", "self.into_iter().map(|(k, v)| (k, f(v))).collect()"
KT0, KT1 = "self.into_iter().map(|(k, v)| Ok((f(k)?, v))).collect()", "self.into_iter().map(|(k, v)| Ok((k, f(v)?))).collect()"
def body(f, header, meth, old, new, args=None):
    """replaces `old` by `new` (and the arguments) in the method meth of the impl with that header"""
    t = open("/repo/" + f).read(); i = t.index(header); j = t.index("fn " + meth + "<", i); k = t.index("\n    }\n", j)
    seg = t[j:k]; assert old in seg, (header, meth, old)
    n = seg.replace(old, new, 1)
    for a, b in (args or []): assert a in n; n = n.replace(a, b, 1)
    return (f, t[:j + len(seg)].count(seg), seg, n)
MUT = [("self, f: F)", "self, mut f: F)")]
SMUT = [("self, f: F)", "mut self, mut f: F)")]
VEC, VDQ, LL, BH, BS, BM0, BM1 = ("FuncMap<A, B> for " + x for x in ("Vec<A>", "VecDeque<A>", "LinkedList<A>", "BinaryHeap<A>", "BTreeSet<A>", "_", "_"))
edit("vec-push", body(A, " " + VEC, "func_map", COLL, "let mut out = Vec::with_capacity(self.len());\n            for value in self {\n                out.push(f(value));\n            }\n            out", MUT))
edit("vec-try-push", body(A, "Try" + VEC, "try_func_map", COLL, "let mut out = Vec::new();\n            for value in self {\n                out.push(f(value)?);\n            }\n            Ok(out)", MUT))
edit("vec-extend", body(A, " " + VEC, "func_map", COLL, "let mut out = Vec::with_capacity(self.len());\n            out.extend(self.into_iter().map(f));\n            out"))
edit("vec-try-match", body(A, "Try" + VEC, "try_func_map", COLL, "let mut out = Vec::new();\n            let mut iter = self.into_iter();\n            while let Some(value) = iter.next() {\n                match f(value) {\n                    Ok(mapped) => out.push(mapped),\n                    Err(err) => return Err(err),\n                }\n            }\n            Ok(out)", MUT))
edit("vec-try-fold", body(A, "Try" + VEC, "try_func_map", COLL, "let capacity = self.len();\n            self.into_iter().try_fold(Vec::with_capacity(capacity), |mut out, value| {\n                out.push(f(value)?);\n                Ok(out)\n            })", MUT))
edit("vec-for-each", body(A, " " + VEC, "func_map", COLL, "let mut out = Vec::new();\n            self.into_iter().for_each(|value| out.push(f(value)));\n            out", MUT))
edit("vec-from-iter", body(A, " " + VEC, "func_map", COLL, "Vec::from_iter(self.into_iter().map(f))"))
edit("vec-drain", body(A, " " + VEC, "func_map", COLL, "self.drain(..).map(f).collect()", [("self, f: F)", "mut self, f: F)")]))
edit("vecdeque-pop", body(A, " " + VDQ, "func_map", COLL, "let mut out = VecDeque::with_capacity(self.len());\n            while let Some(value) = self.pop_front() {\n                out.push_back(f(value));\n            }\n            out", SMUT))
edit("vecdeque-try-pop", body(A, "Try" + VDQ, "try_func_map", COLL, "let mut out = VecDeque::with_capacity(self.len());\n            while let Some(value) = self.pop_front() {\n                out.push_back(f(value)?);\n            }\n            Ok(out)", SMUT))
edit("vecdeque-from-vec", body(A, " " + VDQ, "func_map", COLL, "use alloc::vec::Vec;\n            self.into_iter().map(f).collect::<Vec<_>>().into()"))
edit("linkedlist-pop", body(A, " " + LL, "func_map", COLL, "let mut out = LinkedList::new();\n            while let Some(value) = self.pop_front() {\n                out.push_back(f(value));\n            }\n            out", SMUT))
edit("linkedlist-fold", body(A, " " + LL, "func_map", COLL, "self.into_iter().fold(LinkedList::new(), |mut list, value| {\n                list.push_back(f(value));\n                list\n            })", MUT))
edit("linkedlist-try-loop", body(A, "Try" + LL, "try_func_map", COLL, "let mut list = LinkedList::new();\n            for value in self {\n                let mapped = f(value)?;\n                list.push_back(mapped);\n            }\n            Ok(list)", MUT))
edit("heap-vec", body(A, " " + BH, "func_map", COLL, "use alloc::vec::Vec;\n            let mapped: Vec<B> = self.into_vec().into_iter().map(f).collect();\n            mapped.into()"))
edit("heap-try-vec", body(A, "Try" + BH, "try_func_map", COLL, "use alloc::vec::Vec;\n            self.into_iter()\n                .map(f)\n                .collect::<Result<Vec<_>, _>>()\n                .map(BinaryHeap::from)"))
edit("heap-push", body(A, " " + BH, "func_map", COLL, "let mut heap = BinaryHeap::with_capacity(self.len());\n            for value in self {\n                heap.push(f(value));\n            }\n            heap", MUT))
edit("set-loop", body(A, " " + BS, "func_map", COLL, "let mut set = BTreeSet::new();\n            for value in self {\n                set.insert(f(value));\n            }\n            set", MUT))
edit("set-try-loop", body(A, "Try" + BS, "try_func_map", COLL, "let mut set = BTreeSet::new();\n            for value in self {\n                set.insert(f(value)?);\n            }\n            Ok(set)", MUT))
edit("btreemap-loops", nth(A, 1, KV0, "let mut map = BTreeMap::new();\n            for (key, value) in self {\n                map.insert(f(key), value);\n            }\n            map"), nth(A, 1, KT1, "let mut map = BTreeMap::new();\n            for (key, value) in self {\n                map.insert(key, f(value)?);\n            }\n            Ok(map)"))
edit("btreemap-fromiter", nth(A, 1, KV1, "BTreeMap::from_iter(self.into_iter().map(|(key, value)| (key, f(value))))"))
edit("hashmap-loops", nth(S, 1, KV1, "let mut map = HashMap::with_capacity(self.len());\n            for (key, value) in self {\n                map.insert(key, f(value));\n            }\n            map"), nth(S, 1, KT0, "let mut map = HashMap::with_capacity(self.len());\n            for (key, value) in self {\n                map.insert(f(key)?, value);\n            }\n            Ok(map)"))
edit("hashset-extend", nth(S, 1, COLL, "let mut set = HashSet::with_capacity(self.len());\n            set.extend(self.into_iter().map(f));\n            set"))
edit("box-new", nth(A, 1, "f(*self).into()", "Box::new(f(*self))"), nth(A, 1, "Ok(f(*self)?.into())", "f(*self).map(Box::new)"))
edit("box-let", nth(A, 1, "Ok(f(*self)?.into())", "let value = *self;\n            match f(value) {\n                Ok(mapped) => Ok(Box::new(mapped)),\n                Err(err) => Err(err),\n            }"))
edit("cells-new", nth(C, 1, "f(self.into_inner()).into()", "Cell::new(f(self.into_inner()))"), nth(C, 1, "Ok(f(self.into_inner())?.into())", "f(self.into_inner()).map(Cell::new)"), nth(C, 1, "f(self.into_inner()).into()", "RefCell::new(f(self.into_inner()))"), nth(C, 2, "Ok(f(self.into_inner())?.into())", "let value = f(self.into_inner())?;\n            Ok(UnsafeCell::new(value))"))
edit("cell-replace", nth(C, 1, "f(self.into_inner()).into()", "let value = self.into_inner();\n            Cell::from(f(value))"))
edit("option-match", body(C, " FuncMap<A, B> for Option<A>", "func_map", "self.map(f)", "match self {\n                Some(value) => Some(f(value)),\n                None => None,\n            }", MUT), body(C, "TryFuncMap<A, B> for Option<A>", "try_func_map", "self.map(f).transpose()", "match self {\n                Some(value) => f(value).map(Some),\n                None => Ok(None),\n            }", MUT))
edit("option-if-let", body(C, "TryFuncMap<A, B> for Option<A>", "try_func_map", "self.map(f).transpose()", "Ok(if let Some(value) = self { Some(f(value)?) } else { None })", MUT))
edit("option-map-or", body(C, "TryFuncMap<A, B> for Option<A>", "try_func_map", "self.map(f).transpose()", "self.map_or(Ok(None), |value| f(value).map(Some))", MUT))
edit("option-iter", body(C, " FuncMap<A, B> for option::IntoIter<A>", "func_map", "self.next().map(f).into_iter()", "let mapped = match self.next() {\n                Some(value) => Some(f(value)),\n                None => None,\n            };\n            mapped.into_iter()", [("mut self, f: F)", "mut self, mut f: F)")]))
edit("result-std", nth(C, 1, "match self {\n                Ok(value) => Ok(f(value)),\n                Err(err) => Err(err),\n            }", "self.map(&mut f)"), nth(C, 1, "match self {\n                Ok(value) => Ok(value),\n                Err(err) => Err(f(err)),\n            }", "self.map_err(&mut f)"))
edit("result-try", nth(C, 1, "Ok(match self {\n                Ok(value) => Ok(f(value)?),\n                Err(err) => Err(err),\n            })", "match self {\n                Ok(value) => f(value).map(Ok),\n                Err(err) => Ok(Err(err)),\n            }"), nth(C, 1, "Ok(match self {\n                Ok(value) => Ok(value),\n                Err(err) => Err(f(err)?),\n            })", "match self {\n                Err(err) => match f(err) {\n                    Ok(mapped) => Ok(Err(mapped)),\n                    Err(err) => Err(err),\n                },\n                Ok(value) => Ok(Ok(value)),\n            }"))
edit("result-iter", nth(C, 1, "self.next().map(f).ok_or(()).into_iter()", "match self.next() {\n                Some(value) => Ok(f(value)),\n                None => Err(()),\n            }\n            .into_iter()"), ("funcmap/src/impls_core.rs", 1, "fn func_map<F>(mut self, f: F) -> Self::Output\n        where\n            F: FnMut(A) -> B,\n        {\n            match self.next() {\n                Some(value) => Ok", "fn func_map<F>(mut self, mut f: F) -> Self::Output\n        where\n            F: FnMut(A) -> B,\n        {\n            match self.next() {\n                Some(value) => Ok"))
edit("range-destructure", nth(C, 1, "f(self.start)..f(self.end)", "let Range { start, end } = self;\n            let start = f(start);\n            let end = f(end);\n            Range { start, end }"), nth(C, 1, "Ok(f(self.start)?..f(self.end)?)", "let start = f(self.start)?;\n            let end = f(self.end)?;\n            Ok(start..end)"), nth(C, 1, "f(start)..=f(end)", "RangeInclusive::new(f(start), f(end))"), nth(C, 1, "Ok(f(self.start)?..)", "f(self.start).map(|start| start..)"))
edit("bound-use", nth(C, 1, "match self {\n                Self::Included(bound) => Bound::Included(f(bound)),\n                Self::Excluded(bound) => Bound::Excluded(f(bound)),\n                Self::Unbounded => Bound::Unbounded,\n            }", "use Bound::{Excluded, Included, Unbounded};\n\n            match self {\n                Unbounded => Unbounded,\n                Excluded(bound) => Excluded(f(bound)),\n                Included(bound) => Included(f(bound)),\n            }"))
edit("bound-try-early", nth(C, 1, "Ok(match self {\n                Self::Included(bound) => Bound::Included(f(bound)?),\n                Self::Excluded(bound) => Bound::Excluded(f(bound)?),\n                Self::Unbounded => Bound::Unbounded,\n            })", "match self {\n                Self::Included(bound) => f(bound).map(Bound::Included),\n                Self::Excluded(bound) => f(bound).map(Bound::Excluded),\n                Self::Unbounded => Ok(Bound::Unbounded),\n            }"))
edit("poll-std", nth(C, 1, "match self {\n                Self::Ready(value) => Poll::Ready(f(value)),\n                Self::Pending => Poll::Pending,\n            }", "self.map(&mut f)"))
edit("controlflow-if", nth(C, 1, "match self {\n                Self::Break(value) => ControlFlow::Break(f(value)),\n                Self::Continue(value) => ControlFlow::Continue(value),\n            }", "match self {\n                Self::Continue(value) => ControlFlow::Continue(value),\n                Self::Break(value) => {\n                    let mapped = f(value);\n                    ControlFlow::Break(mapped)\n                }\n            }"))
edit("phantom-default", nth(C, 1, "            PhantomData\n", "            Self::Output::default()\n"))
edit("helper-collect", nth(A, 0, COLL, "crate::impls_alloc::map_all(self, f)"), nth(A, 1, "/// Implementations for types in [`alloc::collections::binary_heap`]", "/// Maps all elements and collects what comes out\nfn map_all<I, T, C>(iter: I, f: impl FnMut(I::Item) -> T) -> C\nwhere\n    I: IntoIterator,\n    C: FromIterator<T>,\n{\n    iter.into_iter().map(f).collect()\n}\n\n/// Implementations for types in [`alloc::collections::binary_heap`]"))
def reh(t): return t
edit("helper-collect-res", nth(A, 1, "self.map(f)\n                .collect::<Result<Vec<_>, _>>()\n                .map(IntoIterator::into_iter)", "Ok(self.map(f).collect::<Result<Vec<_>, E>>()?.into_iter())"), nth(A, 1, "self.map(f).collect::<LinkedList<_>>().into_iter()", "let list: LinkedList<B> = self.map(f).collect();\n            list.into_iter()"))
edit("intoiter-collection", nth(A, 1, "self.map(f).collect::<VecDeque<_>>().into_iter()", "self.collect::<VecDeque<_>>().func_map(f).into_iter()"))
edit("try-result-collect", nth(A, 1, "self.map(|(k, v)| Ok((k, f(v)?)))\n                .collect::<Result<BTreeMap<_, _>, _>>()\n                .map(IntoIterator::into_iter)", "let mut map = BTreeMap::new();\n            for (k, v) in self {\n                map.insert(k, f(v)?);\n            }\n            Ok(map.into_iter())"))
edit("array-enumerate", nth(AR, 1, "for value in array {", "for (idx, value) in array.into_iter().enumerate() {"), nth(AR, 1, "guard.init_until_idx += 1;", "guard.init_until_idx = idx + 1;"))
edit("array-while", nth(AR, 1, "    for value in array {", "    let mut values = array.into_iter();\n\n    while let Some(value) = values.next() {"))
edit("array-let-first", nth(AR, 1, "        // SAFETY: the iterator yields exactly", "        let mapped_value = f(value)?;\n\n        // SAFETY: the iterator yields exactly"), nth(AR, 1, ".write(f(value)?);", ".write(mapped_value);"))
edit("array-guard-push", nth(AR, 1, "    impl<T, const N: usize> Drop for Guard", "    impl<T, const N: usize> Guard<'_, T, N> {\n        /// Adds a value; must be called at most `N` times\n        unsafe fn push_unchecked(&mut self, value: T) {\n            unsafe { self.array_mut.get_unchecked_mut(self.init_until_idx) }.write(value);\n            self.init_until_idx += 1;\n        }\n    }\n\n    impl<T, const N: usize> Drop for Guard"), nth(AR, 1, """        unsafe {
            guard
                .array_mut
                .get_unchecked_mut(guard.init_until_idx)
                // if `f` returns `Err(_)` or panics, then `guard` is dropped
                .write(f(value)?);
        }

        guard.init_until_idx += 1;""", """        unsafe { guard.push_unchecked(f(value)?) };"""))
edit("array-safe-index", nth(AR, 1, """        unsafe {
            guard
                .array_mut
                .get_unchecked_mut(guard.init_until_idx)
                // if `f` returns `Err(_)` or panics, then `guard` is dropped
                .write(f(value)?);
        }
""", "        let idx = guard.init_until_idx;\n        guard.array_mut[idx].write(f(value)?);\n"))
edit("array-drop-loop", nth(AR, 1, """            let init_slice = unsafe { self.array_mut.get_unchecked_mut(..self.init_until_idx) };

            // SAFETY: by definition of `init_until_idx`, `init_slice` is fully initialized
            let init_slice = unsafe { &mut *(init_slice as *mut [MaybeUninit<T>] as *mut [T]) };

            // SAFETY:
            // - `init_slice` is valid for dropping
            // - `self.array_mut` (and hence `init_slice`) is not used after `self` is dropped
            unsafe { ptr::drop_in_place(init_slice) };""", """            for item in &mut self.array_mut[..self.init_until_idx] {
                unsafe { item.assume_init_drop() };
            }"""))
edit("array-needs-drop", nth(AR, 1, "            unsafe { ptr::drop_in_place(init_slice) };", "            if mem::needs_drop::<T>() {\n                unsafe { ptr::drop_in_place(init_slice) };\n            }"))
edit("array-manuallydrop", nth(AR, 1, "    mem::forget(guard);", "    let _guard = mem::ManuallyDrop::new(guard);"))
edit("array-transmute-copy", nth(AR, 1, "unsafe { ptr::addr_of!(mapped).cast::<[B; N]>().read() }", "unsafe { mem::transmute_copy::<[MaybeUninit<B>; N], [B; N]>(&mapped) }"))
edit("array-uninit-const", nth(AR, 1, "unsafe { MaybeUninit::uninit().assume_init() };", "[const { MaybeUninit::uninit() }; N];"))
edit("array-as-ptr-read", nth(AR, 1, "unsafe { ptr::addr_of!(mapped).cast::<[B; N]>().read() }", "unsafe { ptr::read(mapped.as_ptr() as *const [B; N]) }"))
edit("array-slice-from-raw", nth(AR, 1, """            let init_slice = unsafe { self.array_mut.get_unchecked_mut(..self.init_until_idx) };

            // SAFETY: by definition of `init_until_idx`, `init_slice` is fully initialized
            let init_slice = unsafe { &mut *(init_slice as *mut [MaybeUninit<T>] as *mut [T]) };
""", """            let init_slice = ptr::slice_from_raw_parts_mut(self.array_mut.as_mut_ptr().cast::<T>(), self.init_until_idx);
"""))
edit("array-closure", nth(AR, 1, """    for value in array {
        // SAFETY: the iterator yields exactly `N` elements,
        // so `guard.init_until_idx` has been increased at most `N - 1` times
        // and hence is within bounds of `guard.array_mut`
        unsafe {
            guard
                .array_mut
                .get_unchecked_mut(guard.init_until_idx)
                // if `f` returns `Err(_)` or panics, then `guard` is dropped
                .write(f(value)?);
        }

        guard.init_until_idx += 1;
    }
""", """    array.into_iter().try_for_each(|value| {
        // SAFETY: see above
        unsafe { guard.array_mut.get_unchecked_mut(guard.init_until_idx) }.write(f(value)?);
        guard.init_until_idx += 1;
        Ok(())
    })?;
"""))
edit("array-no-empty-case", nth(AR, 1, "    if N == 0 {\n        // SAFETY: an empty array is zero-sized and hence has no invalid bit patterns\n        return Ok(unsafe { mem::zeroed() });\n    }\n", ""), nth(AR, 1, "            debug_assert!(self.init_until_idx < N);", "            debug_assert!(self.init_until_idx <= N);"))
edit("array-zip-slots", nth(AR, 1, "    for value in array {", "    for (idx, value) in (0..N).zip(array) {"), nth(AR, 1, ".get_unchecked_mut(guard.init_until_idx)", ".get_unchecked_mut(idx)"))
edit("array-func-map-try", nth(C, 1, "            self.map(f)\n", "            match array::try_map(self, |value| Ok::<_, core::convert::Infallible>(f(value))) {\n                Ok(mapped) => mapped,\n                Err(never) => match never {},\n            }\n"), nth(C, 1, "        fn func_map<F>(self, f: F) -> Self::Output", "        fn func_map<F>(self, mut f: F) -> Self::Output"))
edit("over-ufcs", nth(L, 1, "        self.func_map(f)\n", "        FuncMap::<A, B, P>::func_map(self, f)\n"), nth(L, 1, "        self.try_func_map(f)\n", "        let mut f = f;\n        TryFuncMap::<A, B, P>::try_func_map(self, |value| f(value))\n"))
edit("hash-iter-body", nth(S, 1, "self.map(f).collect::<HashSet<_>>().into_iter()", "let mut set = HashSet::new();\n            for value in self {\n                set.insert(f(value));\n            }\n            set.into_iter()"), ("funcmap/src/impls_std.rs", 2, "fn func_map<F>(self, f: F)", "fn func_map<F>(self, mut f: F)"))
# the macro crate
M, DR, RS, IC, IN, OP, PR, SX, ID, DE = [D + x for x in ("map.rs", "derive.rs", "result.rs", "ident_collector.rs", "input.rs", "opts.rs", "predicates.rs", "syn_ext.rs", "ident.rs", "derivable.rs")]
edit("d-combine", nth(RS, 1, "        self.0 = Some(self.err_combined_with(err));\n        self", "        match &mut self.0 {\n            Some(error) => error.combine(err),\n            None => self.0 = Some(err.into()),\n        }\n        self"))
edit("d-err-or", nth(RS, 1, "        match self.0 {\n            Some(err) => Err(err),\n            None => Ok(value),\n        }", "        self.0.map_or(Ok(value), Err)"))
edit("d-collect-loop", nth(RS, 1, "        let values = self\n            .filter_map(|result| result.add_err_to(&mut builder))\n            .collect();\n\n        builder.err_or(values)", "        let mut values = Vec::new();\n\n        for result in self {\n            match result {\n                Ok(value) => values.push(value),\n                Err(err) => {\n                    builder.add_err(err);\n                }\n            }\n        }\n\n        builder.err_or(values.into_iter().collect())"))
edit("d-btreeset", nth(IC, 0, "HashSet", "BTreeSet"))
edit("d-letter-loop", nth(IC, 1, """        (0..=usize::MAX)
            .flat_map(|iteration| {
                (desired_letter..='Z').chain('A'..=desired_letter).map(
                    move |letter| match iteration {
                        0 => letter.to_string(),
                        1 => format!("__FUNCMAP_{letter}"),
                        i => format!("__FUNCMAP_{letter}{i}"),
                    },
                )
            })
            .find(|letter| !self.idents.contains(letter))
            .unwrap()""", """        let mut iteration = 0_usize;

        loop {
            for letter in (desired_letter..='Z').chain('A'..=desired_letter) {
                let candidate = match iteration {
                    0 => letter.to_string(),
                    1 => format!("__FUNCMAP_{letter}"),
                    i => format!("__FUNCMAP_{letter}{i}"),
                };

                if !self.idents.contains(&candidate) {
                    return candidate;
                }
            }

            iteration += 1;
        }"""))
edit("d-is-dependent", nth(M, 1, "impl<'ast> Mapper<'ast> {\n", "impl<'ast> Mapper<'ast> {\n    /// Whether the type depends on the mapped parameter\n    fn depends(&self, ty: &Type) -> bool {\n        ty.dependency_on_type(&self.mapping.type_param.ident).is_some()\n    }\n\n"), nth(M, 1, "        if ty\n            .dependency_on_type(&self.mapping.type_param.ident)\n            .is_none()\n        {", "        if !self.depends(ty) {"), nth(M, 1, "                if prefix_type\n                    .dependency_on_type(&self.mapping.type_param.ident)\n                    .is_some()\n                {", "                if self.depends(&prefix_type) {"))
edit("d-unsupported-helper", nth(M, 1, "impl<'ast> Mapper<'ast> {\n", "/// An error for a type that cannot be mapped over\nfn unsupported(ty: &Type, what: &str) -> Error {\n    syn::Error::new_spanned(ty, format!(\"mapping over {what} is not supported\")).into()\n}\n\nimpl<'ast> Mapper<'ast> {\n"),
     nth(M, 1, "            Type::Slice(..) => {\n                Err(syn::Error::new_spanned(ty, \"mapping over slice type is not supported\").into())\n            }", "            Type::Slice(..) => Err(unsupported(ty, \"slice type\")),"), nth(M, 1, "            Type::BareFn(..) => Err(syn::Error::new_spanned(\n                ty,\n                \"mapping over function type is not supported\",\n            )\n            .into()),", "            Type::BareFn(..) => Err(unsupported(ty, \"function type\")),"))
edit("d-tuple-loop", nth(M, 1, """                let mapped = type_tuple
                    .elems
                    .iter()
                    .enumerate()
                    .map(|(i, ty)| {
                        let idx = Index::from(i);
                        let mappable = quote!(#mappable.#idx);
                        self.map(mappable, ty)
                    })
                    .collect::<Result<Vec<_>, _>>()?;
""", """                let mut mapped = Vec::with_capacity(type_tuple.elems.len());

                for (i, elem) in type_tuple.elems.iter().enumerate() {
                    let idx = Index::from(i);
                    mapped.push(self.map(quote!(#mappable.#idx), elem)?);
                }
"""))
edit("d-group-paren", nth(M, 1, """            Type::Paren(TypeParen { elem: inner_ty, .. }) => self.map(mappable, inner_ty),

            // an invisible group around a type that was passed to a
            // `macro_rules!` macro as `$ty:ty`
            Type::Group(TypeGroup { elem: inner_ty, .. }) => self.map(mappable, inner_ty),
""", """            // an invisible group around a type that was passed to a
            // `macro_rules!` macro as `$ty:ty`
            Type::Paren(TypeParen { elem, .. }) | Type::Group(TypeGroup { elem, .. }) => {
                self.map(mappable, elem)
            }
"""))
edit("d-visitor-iflet", nth(SX, 1, """        match ty {
            Type::Path(TypePath { qself: None, path }) if path.leading_colon.is_none() => {
                match path.segments.first() {
                    Some(PathSegment { ident, .. }) if ident.unraw() == self.type_ident.unraw() => {
                        self.dependency = Some(ident);
                    }
                    _ => visit::visit_type(self, ty),
                }
            }
            _ => visit::visit_type(self, ty),
        }""", """        if let Type::Path(TypePath { qself: None, path }) = ty {
            if path.leading_colon.is_none() {
                if let Some(segment) = path.segments.first() {
                    if segment.ident.unraw() == self.type_ident.unraw() {
                        self.dependency = Some(&segment.ident);
                        return;
                    }
                }
            }
        }

        visit::visit_type(self, ty);"""))
edit("d-typish", nth(SX, 1, "        matches!(self, GenericArgument::Type(..) | GenericArgument::Const(..))", "        match self {\n            GenericArgument::Type(..) | GenericArgument::Const(..) => true,\n            _ => false,\n        }"))
edit("d-args-helper", nth(DR, 1, """            let src_args = all_params.iter().enumerate().map(|(param_idx, param)| {
                if param_idx == mapped_type_param.param_idx {
                    GenericArgument::Type(src_type_ident.clone().into_type())
                } else {
                    param.clone().into_generic_argument()
                }
            });

            let dst_args = all_params.iter().enumerate().map(|(param_idx, param)| {
                if param_idx == mapped_type_param.param_idx {
                    GenericArgument::Type(dst_type_ident.clone().into_type())
                } else {
                    param.clone().into_generic_argument()
                }
            });
""", """            let args_with = |ident: &Ident| -> Vec<GenericArgument> {
                all_params
                    .iter()
                    .enumerate()
                    .map(|(param_idx, param)| {
                        if param_idx == mapped_type_param.param_idx {
                            GenericArgument::Type(ident.clone().into_type())
                        } else {
                            param.clone().into_generic_argument()
                        }
                    })
                    .collect()
            };
            let src_args = args_with(&src_type_ident);
            let dst_args = args_with(&dst_type_ident);
"""), nth(DR, 1, "                for args in [\n                    src_args.clone().collect::<Vec<_>>(),\n                    dst_args.clone().collect::<Vec<_>>(),\n                ] {", "                for args in [&src_args, &dst_args] {"))
edit("d-bounds-helper", nth(DR, 1, """                    impl_params.push(GenericParam::Type(TypeParam {
                        bounds: subs_type_in_bounds(
                            &mapped_type_param.type_param.bounds,
                            &mapped_type_param.type_param.ident,
                            &[&src_type_ident],
                        )?
                        .without_maybe_bounds(),
                        ..src_type_ident.clone().into()
                    }));

                    impl_params.push(GenericParam::Type(TypeParam {
                        bounds: subs_type_in_bounds(
                            &mapped_type_param.type_param.bounds,
                            &mapped_type_param.type_param.ident,
                            &[&dst_type_ident],
                        )?
                        .without_maybe_bounds(),
                        ..dst_type_ident.clone().into()
                    }));
""", """                    for new_ident in [&src_type_ident, &dst_type_ident] {
                        let bounds = subs_type_in_bounds(
                            &mapped_type_param.type_param.bounds,
                            &mapped_type_param.type_param.ident,
                            &[new_ident],
                        )?;

                        impl_params.push(GenericParam::Type(TypeParam {
                            bounds: bounds.without_maybe_bounds(),
                            ..new_ident.clone().into()
                        }));
                    }
"""))
edit("d-field-match", nth(DR, 1, """                    let (member, ident) = if let Some(field_ident) = &field.ident {
                        let member: Member = field_ident.clone().into();
                        let ident = format_ident!(
                            "field_{}",
                            field_ident.clone(),
                            span = Span::mixed_site()
                        );
                        (member, ident)
                    } else {
                        let member: Member = field_idx.into();
                        let ident = format_ident!("field_{}", field_idx, span = Span::mixed_site());
                        (member, ident)
                    };
""", """                    let member: Member = match &field.ident {
                        Some(field_ident) => field_ident.clone().into(),
                        None => field_idx.into(),
                    };
                    let ident = match &member {
                        Member::Named(name) => format_ident!("field_{}", name.unraw(), span = Span::mixed_site()),
                        Member::Unnamed(idx) => format_ident!("field_{}", idx.index, span = Span::mixed_site()),
                    };
"""))
edit("d-ident-const", nth(DE, 1, "        match self {\n            Self::Standard => TRAIT_IDENT,\n            Self::Fallible => FALLIBLE_TRAIT_IDENT,\n        }", "        if let Self::Fallible = self {\n            return FALLIBLE_TRAIT_IDENT;\n        }\n\n        TRAIT_IDENT"))
edit("d-bind", nth(DE, 1, "            Self::Fallible => quote!(#expr?),", "            Self::Fallible => {\n                let mut tokens = expr;\n                tokens.extend(quote!(?));\n                tokens\n            }"))
edit("d-pred-vec", nth(PR, 1, """        for_lifetimes.chain(for_types)
    }""", """        let predicates: Vec<_> = for_lifetimes.chain(for_types).collect();
        predicates.into_iter()
    }"""))
