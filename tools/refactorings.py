"""Edits of /repo that keep the behaviour, with the checks that have to stay quiet on them: plant.py quiet [id...]"""
L="ordinal-map/src/"
D="ordinal-map-derive/src/ordinal.rs"
R={}
R["map-loops"]=("C08 C09 C11 C19 C22 C23 C24 C27 C31 C32 C33",[
 (L+"map/map.rs","        self.iter().count()","        self.map.iter().filter(|v| v.is_some()).count()"),
 (L+"map/map.rs","        self.iter().next().is_none()","        self.map.iter().all(Option::is_none)"),
 (L+"map/map.rs","""            let mut map = Vec::with_capacity(K::ORDINAL_SIZE);
            for _ in 0..K::ORDINAL_SIZE {
                map.push(None);
            }
            self.map = map.into_boxed_slice();
""","""            self.map = (0..K::ORDINAL_SIZE).map(|_| None).collect();
"""),
 (L+"map/map.rs","        self.drain();","        for slot in self.map.iter_mut() {\n            *slot = None;\n        }"),
 (L+"map/map.rs","        self.map.get_mut(key.ordinal())?.take()","        match self.map.get_mut(key.ordinal()) {\n            Some(slot) => std::mem::take(slot),\n            None => None,\n        }"),
 (L+"map/map.rs","        self.map[key.ordinal()].replace(value)","        let ordinal = key.ordinal();\n        let slot = &mut self.map[ordinal];\n        let old = slot.take();\n        *slot = Some(value);\n        old"),
 (L+"map/map.rs","        let mut map = OrdinalMap::new();\n        for (k, v) in iter {\n            map.insert(k, v);\n        }\n        map","        iter.into_iter().fold(OrdinalMap::new(), |mut map, (k, v)| {\n            map.insert(k, v);\n            map\n        })"),
])
R["enumerate-end"]=("C10 C15 C25 C31",[
 (L+"map/enumerate.rs","        let v = self.iter.next()?;\n        let k = K::from_ordinal(self.next).unwrap();\n        self.next += 1;\n        Some((k, v))","        self.iter.next().map(|v| {\n            let ordinal = self.next;\n            self.next = ordinal + 1;\n            (K::from_ordinal(ordinal).expect(\"ordinal in range\"), v)\n        })"),
 (L+"map/enumerate.rs","        let v = self.iter.next_back()?;\n        let k = K::from_ordinal(self.next + self.iter.len()).unwrap();\n        Some((k, v))","        let last = (self.next + self.iter.len()).checked_sub(1)?;\n        let v = self.iter.next_back()?;\n        Some((K::from_ordinal(last)?, v))"),
])
R["set-mask"]=("C16 C17 C18 C22 C23 C24 C25 C32 C33",[
 (L+"set/set_mut.rs","""        let prev = self.as_ref().contains(&value);
        self.words[value.ordinal() / u64::BITS as usize] |=
            1 << (value.ordinal() % u64::BITS as usize);
        !prev""","""        let ordinal = value.ordinal();
        let word = &mut self.words[ordinal >> 6];
        let old = *word;
        *word |= 1u64 << (ordinal & 63);
        old != *word"""),
 (L+"set/set_mut.rs","""    #[inline]
    fn as_ref(&self) -> OrdinalSetRef<'_, T> {
        OrdinalSetRef::new(self.words)
    }

""",""),
 (L+"set/set_mut.rs","use crate::set::set_ref::OrdinalSetRef;\n",""),
 (L+"set/set_ref.rs","""        let Some(word) = self.words.get(ordinal.ordinal() / u64::BITS as usize) else {
            return false;
        };
        word & (1 << (ordinal.ordinal() % u64::BITS as usize)) != 0""","""        let ordinal = ordinal.ordinal();
        self.words
            .get(ordinal >> 6)
            .is_some_and(|word| (word >> (ordinal & 63)) & 1 == 1)"""),
 (L+"set/set.rs","""                    *set = vec![
                        0;
                        (T::ORDINAL_SIZE.checked_add(u64::BITS as usize).unwrap() - 1)
                            / u64::BITS as usize
                    ]
                    .into_boxed_slice();""","""                    *set = std::iter::repeat(0)
                        .take(crate::set::ordinal_array_set_s::<T>())
                        .collect();"""),
 (L+"set/set.rs","        let mut set = OrdinalSet::new();\n        for ordinal in iter {\n            set.insert(ordinal);\n        }\n        set","        let mut set = OrdinalSet::new();\n        iter.into_iter().for_each(|ordinal| {\n            set.insert(ordinal);\n        });\n        set"),
 (L+"set/set64.rs","            self.set &= !(1 << ordinal);\n            Some(T::from_ordinal(ordinal as usize).unwrap())\n        }","            self.set &= self.set - 1;\n            Some(T::from_ordinal(ordinal as usize).unwrap())\n        }"),
 (L+"set/set64.rs","        let ordinal = (u64::BITS - 1).checked_sub(self.set.leading_zeros())?;\n        self.set &= !(1 << ordinal);","        if self.set == 0 {\n            return None;\n        }\n        let ordinal = self.set.ilog2();\n        self.set ^= 1 << ordinal;"),
 (L+"set/set64.rs","            set.set |= 1 << ordinal.ordinal();","            set.insert(ordinal);"),
 (L+"set/set64.rs","        let r = !self.contains(&ordinal);\n        self.set |= 1 << ordinal.ordinal();\n        r","        let mask = 1u64 << ordinal.ordinal();\n        let absent = self.set & mask == 0;\n        self.set |= mask;\n        absent"),
 (L+"set/iter.rs","""        loop {
            let next = self.iter.next()?;
            if self.set.contains(&next) {
                return Some(next);
            }
        }""","""        let Iter { iter, set } = self;
        iter.find(|v| set.contains(v))"""),
 (L+"set/iter.rs","""        loop {
            let next = self.iter.next_back()?;
            if self.set.contains(&next) {
                return Some(next);
            }
        }""","""        let Iter { iter, set } = self;
        iter.rfind(|v| set.contains(v))"""),
])
R["builder-slices"]=("C02 C12 C13 C14 C19 C23 C27 C32 C33",[
 (L+"array_builder.rs","""        for i in 0..self.filled {
            unsafe {
                self.array[i].assume_init_drop();
            }
        }""","""        let filled = &mut self.array[..self.filled];
        // Safety: this many places have been written.
        unsafe { ptr::drop_in_place(filled as *mut [MaybeUninit<T>] as *mut [T]) }"""),
 (L+"array_builder.rs","            array: array::from_fn(|_| MaybeUninit::uninit()),","            array: [const { MaybeUninit::uninit() }; S],"),
 (L+"array_builder.rs","use std::array;\n",""),
 (L+"array_builder.rs","""        unsafe {
            self.array
                .as_mut_ptr()
                .cast::<T>()
                .add(self.filled)
                .write(value);
        }
""","""        self.array[self.filled].write(value);
"""),
 (L+"array_builder.rs","""            unsafe {
                ptr::drop_in_place(&mut self.array[self.filled..S]);
            }
            return Err(ArrayNotFilled);
        }
        let array = unsafe { mem::transmute_copy::<[MaybeUninit<T>; S], [T; S]>(&self.array) };
        mem::forget(self);
        Ok(array)""","""            return Err(ArrayNotFilled);
        }
        self.filled = 0;
        // Safety: all the places have been written, and are given up here.
        Ok(unsafe { (&self.array as *const [MaybeUninit<T>; S]).cast::<[T; S]>().read() })"""),
 (L+"array_builder.rs","use std::mem;\n",""),
 (L+"array_as_mut.rs","""    let mut array: &mut [T] = array;

    let mut result = ArrayBuilder::new();
    while let Some((first, rest)) = array.split_first_mut() {
        result.push(first);
        array = rest;
    }
    result.finish()""","""    array.each_mut()"""),
 (L+"array_as_mut.rs","use crate::array_builder::ArrayBuilder;\n\n",""),
])
R["iters"]=("C08 C10 C11 C15 C19 C22 C25 C27 C28 C31 C32",[
 (L+"map/iter.rs","""        loop {
            let next = self.iter.next()?;
            if let (k, Some(v)) = next {
                return Some((k, v));
            }
        }
    }

    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, Some(self.iter.len()))
    }
}

impl<'a, K: Ordinal, V> DoubleEndedIterator for Iter<'a, K, V> {""","""        self.iter.find_map(|(k, v)| Some((k, v.as_ref()?)))
    }

    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        let (_, upper) = self.iter.size_hint();
        (0, upper)
    }

    fn count(self) -> usize {
        self.iter.filter(|(_, v)| v.is_some()).count()
    }
}

impl<'a, K: Ordinal, V> DoubleEndedIterator for Iter<'a, K, V> {"""),
 (L+"map/iter.rs","        for _ in self {}","        self.for_each(drop);"),
 (L+"map/iter.rs","""            let (k, v) = self.iter.next()?;
            if let Some(v) = mem::take(v) {
                return Some((k, v));
            }
        }
    }

    fn size_hint""","""            let (k, slot) = self.iter.next()?;
            match slot.take() {
                None => continue,
                Some(v) => return Some((k, v)),
            }
        }
    }

    fn size_hint"""),
 (L+"map/iter.rs","""        loop {
            let (k, v) = self.iter.next()?;
            if let Some(v) = v {
                return Some((k, v));
            }
        }
    }
}

impl<K: Ordinal, V, const S: usize> DoubleEndedIterator for IntoIterArray<K, V, S> {""","""        self.iter.by_ref().find_map(|(k, v)| v.map(|v| (k, v)))
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let present = self.iter().count();
        (present, Some(present))
    }
}

impl<K: Ordinal, V, const S: usize> DoubleEndedIterator for IntoIterArray<K, V, S> {"""),
 (L+"map/array_map.rs","""            if let Some(value) = value_opt {
                if !f(key, value) {
                    *value_opt = None;
                }
            }""","""            let keep = match value_opt {
                Some(value) => f(key, value),
                None => continue,
            };
            if !keep {
                drop(value_opt.take());
            }"""),
 (L+"map/array_map.rs","        self.drain();","        self.retain(|_, _| false);"),
 (L+"map/array_map.rs","        self.iter().next().is_none()","        self.len() == 0"),
 (L+"map/entry.rs","""        if entry.is_some() {
            Entry::Occupied(OccupiedEntry { key, entry })
        } else {
            Entry::Vacant(VacantEntry { key, entry })
        }""","""        match entry {
            Some(_) => Entry::Occupied(OccupiedEntry { key, entry }),
            None => Entry::Vacant(VacantEntry { key, entry }),
        }"""),
 (L+"map/entry.rs","            Entry::Vacant(entry) => entry.entry.insert(value),","            Entry::Vacant(entry) => entry.entry.get_or_insert(value),"),
])
R["total-direct"]=("C12 C13 C14 C15 C19 C22 C23 C24 C26 C27 C28 C31 C32 C33",[
 (L+"map/total/map.rs","""        let mut map = Vec::with_capacity(K::ORDINAL_SIZE);
        for v in K::all_values() {
            map.push(init(v)?);
        }
        Ok(OrdinalTotalMap {
            map: map.into_boxed_slice(),""","""        let map = K::all_values().map(init).collect::<Result<Box<[V]>, E>>()?;
        Ok(OrdinalTotalMap {
            map,"""),
 (L+"map/total/map.rs","    pub fn try_new<E>(mut init:","    pub fn try_new<E>(init:"),
 (L+"map/total/map.rs","""        match Self::try_new(move |k| Ok::<_, Infallible>(init(k))) {
            Ok(map) => map,
            Err(infallible) => match infallible {},
        }""","""        OrdinalTotalMap {
            map: K::all_values().map(init).collect(),
            _phantom: PhantomData,
        }"""),
 (L+"map/total/map.rs","    pub fn new(mut init:","    pub fn new(init:"),
 (L+"map/total/map.rs","use std::convert::Infallible;\n",""),
 (L+"map/total/map.rs","        mem::replace(&mut self.map[key.ordinal()], value)","        let mut value = value;\n        mem::swap(self.get_mut(&key), &mut value);\n        value"),
 (L+"map/total/array_map.rs","        mem::replace(&mut self.map[key.ordinal()], value)","        let slot = self.get_mut(&key);\n        mem::replace(slot, value)"),
 (L+"map/total/array_map.rs","            map: array_from_iter(self.into_iter().map(|(k, v)| f(k, v))),","            map: array_from_iter(K::all_values().zip(self.map).map(|(k, v)| f(k, v))),"),
 (L+"map/total/array_map.rs","        OrdinalTotalArrayMap::new(|k| self.get(&k))","        OrdinalTotalArrayMap::from_array(self.map.each_ref())"),
 (L+"map/total/array_map.rs","        self.map(|_k, v| f(v))","        OrdinalTotalArrayMap::from_array(self.map.map(|v| f(v)))"),
 (L+"map/total/array_map.rs","""        match Self::try_new(move |k| Ok::<_, Infallible>(init(k))) {
            Ok(map) => map,
            Err(infallible) => match infallible {},
        }""","""        let mut keys = K::all_values();
        Self::from_array(std::array::from_fn(|_| init(keys.next().unwrap())))"""),
 (L+"map/total/array_map.rs","use std::convert::Infallible;\n",""),
])
R["scalars"]=("C01 C03 C04 C20 C21 C29",[
 (L+"ordinal/impls/primitive.rs","        self.abs_diff(i8::MIN) as usize","        (*self as isize - i8::MIN as isize) as usize"),
 (L+"ordinal/impls/primitive.rs","        i8::MIN.checked_add_unsigned(u8::try_from(ordinal).ok()?)","        if ordinal >= Self::ORDINAL_SIZE {\n            return None;\n        }\n        Some((ordinal as isize + i8::MIN as isize) as i8)"),
 (L+"ordinal/impls/primitive.rs","        self.abs_diff(i32::MIN) as usize","        ((*self as u32) ^ (1 << 31)) as usize"),
 (L+"ordinal/impls/primitive.rs","        u32::try_from(ordinal).ok()\n","        match ordinal <= u32::MAX as usize {\n            true => Some(ordinal as u32),\n            false => None,\n        }\n"),
 (L+"ordinal/impls/char.rs","        let c = *self as u32;\n        if c < SURROGATE_START {\n            c as usize\n        } else {\n            c as usize - 0x800\n        }","        let c = u32::from(*self);\n        let gap = if c >= SURROGATE_START { 0x800 } else { 0 };\n        (c - gap) as usize"),
 (L+"ordinal/impls/boxed.rs","        Some(Box::new(T::from_ordinal(ordinal)?))","        T::from_ordinal(ordinal).map(Box::new)"),
 (L+"ordinal/impls/ordering.rs","""        match self {
            Ordering::Less => 0,
            Ordering::Equal => 1,
            Ordering::Greater => 2,
        }""","        (*self as i8 + 1) as usize"),
 (L+"atomic.rs","""        match res {
            Ok(v) => Ok(T::from_ordinal(v).unwrap()),
            Err(v) => Err(T::from_ordinal(v).unwrap()),
        }""","""        let decode = |v| T::from_ordinal(v).unwrap();
        res.map(decode).map_err(decode)"""),
 (L+"ordinal/impls/std.rs","            Some(a) => a.ordinal().checked_add(1).unwrap(),","            Some(a) => match a.ordinal().checked_add(1) {\n                Some(n) => n,\n                None => panic!(\"too many values\"),\n            },"),
])
R["derive-shape"]=("C02 C05 C06",[
 (D,"""            syn::parse_quote_spanned! { field_var.span() =>
                let #field_var = <#field_ty as ordinal_map::Ordinal>::from_ordinal(
                    #rem % #field_ordinal_size).unwrap();
            },
            syn::parse_quote_spanned! { field_var.span() =>
                #rem /= #field_ordinal_size;
            },""","""            syn::parse_quote_spanned! { field_var.span() =>
                let #field_var = #rem % #field_ordinal_size;
            },
            syn::parse_quote_spanned! { field_var.span() =>
                #rem = #rem / #field_ordinal_size;
            },
            syn::parse_quote_spanned! { field_var.span() =>
                let #field_var = match <#field_ty as ordinal_map::Ordinal>::from_ordinal(#field_var) {
                    std::option::Option::Some(v) => v,
                    std::option::Option::None => std::unreachable!(),
                };
            },"""),
 (D,"""                let rem_count =
                    SizeExpr::product(rem_tys.iter().copied().map(|e| SizeExpr::ordinal_size(e)));
                let first_expr = SizeExpr::ordinal_expr(first_expr);
                let rem_expr = struct_ordinal_impl(rem_exprs, rem_tys, span)?;""","""                let rem_expr = struct_ordinal_impl(rem_exprs, rem_tys, span)?;
                let rem_count = struct_ordinal_size(rem_tys.iter().copied());
                let first_expr = SizeExpr::ordinal_expr(first_expr);"""),
])
R["array-horner"]=("C02 C03 C04 C06 C27",[
 (L+"ordinal/impls/array.rs","""        let mut r = 0usize;
        for v in self {
            r = r.checked_mul(T::ORDINAL_SIZE).unwrap();
            r += v.ordinal();
        }
        r""","""        self.iter().fold(0usize, |r, v| r * T::ORDINAL_SIZE + v.ordinal())"""),
 (L+"ordinal/impls/array.rs","""        let mut n = ordinal;
        let mut array = ArrayBuilder::new();
        for _ in 0..N {
            let Some(i) = n.checked_rem(T::ORDINAL_SIZE) else {
                return None;
            };
            array.push(T::from_ordinal(i).unwrap());
            n /= T::ORDINAL_SIZE;
        }
        if n != 0 {
            None
        } else {
            let mut array = array.finish();
            array.reverse();
            Some(array)
        }""","""        if ordinal >= Self::ORDINAL_SIZE {
            return None;
        }
        let mut stride = Self::ORDINAL_SIZE;
        let mut rest = ordinal;
        let mut array = ArrayBuilder::new();
        for _ in 0..N {
            stride /= T::ORDINAL_SIZE;
            array.push(T::from_ordinal(rest / stride)?);
            rest %= stride;
        }
        Some(array.finish())"""),
])
R["values-manual"]=("C07 C12 C15 C17 C25 C31 C32",[
 (L+"values.rs","    range: Range<usize>,","    next: usize,\n    remaining: usize,"),
 (L+"values.rs","            range: 0..T::ORDINAL_SIZE,","            next: 0,\n            remaining: T::ORDINAL_SIZE,"),
 (L+"values.rs","        let next = self.range.next()?;\n        Some(T::from_ordinal(next).unwrap())","        self.remaining = self.remaining.checked_sub(1)?;\n        let value = T::from_ordinal(self.next);\n        self.next += 1;\n        Some(value.expect(\"ordinal in range\"))"),
 (L+"values.rs","        self.range.size_hint()","        (self.remaining, Some(self.remaining))"),
 (L+"values.rs","        self.range.count()","        self.remaining"),
 (L+"values.rs","        self.range.len()","        self.remaining"),
 (L+"values.rs","        let next = self.range.next_back()?;\n        Some(T::from_ordinal(next).unwrap())","        self.remaining = self.remaining.checked_sub(1)?;\n        T::from_ordinal(self.next + self.remaining)"),
 (L+"values.rs","            range: self.range.clone(),","            next: self.next,\n            remaining: self.remaining,"),
 (L+"values.rs","        if self.range.end == T::ORDINAL_SIZE {","        if self.next + self.remaining == T::ORDINAL_SIZE {"),
 (L+"values.rs","use std::ops::Range;\n",""),
])
R["non-zero-offset"]=("C01 C03 C04 C29",[
 (L+"ordinal/impls/non_zero.rs","""        if self.get() > 0 {
            127 + self.get() as usize
        } else {
            self.get().abs_diff(i8::MIN) as usize
        }""","""        let shifted = self.get() as i32 + 128;
        let past_zero = (self.get() > 0) as i32;
        (shifted - past_zero) as usize"""),
 (L+"ordinal/impls/non_zero.rs","""        match ordinal.checked_sub(i8::MAX as usize + 1) {
            None => NonZeroI8::new(
                i8::MIN
                    .checked_add_unsigned(u8::try_from(ordinal).unwrap())
                    .unwrap(),
            ),
            Some(rem) => NonZeroI8::new(i8::try_from(rem + 1).ok()?),
        }""","""        if ordinal >= Self::ORDINAL_SIZE {
            return None;
        }
        let value = ordinal as i32 - 128;
        let value = if value >= 0 { value + 1 } else { value };
        NonZeroI8::new(value as i8)"""),
 (L+"ordinal/impls/non_zero.rs","        NonZeroU32::try_from(u32::try_from(ordinal.checked_add(1)?).ok()?).ok()","        let value = u32::try_from(ordinal).ok()?.checked_add(1)?;\n        NonZeroU32::new(value)"),
 (L+"ordinal/impls/non_zero.rs","            usize::MAX / 2 + self.get() as usize\n        } else {\n            self.get().abs_diff(isize::MIN)\n        }","            isize::MAX as usize + self.get().unsigned_abs()\n        } else {\n            (self.get() as usize).wrapping_sub(isize::MIN as usize)\n        }"),
])
R["result-sub"]=("C02 C03 C04 C06 C28 C30",[
 (L+"ordinal/impls/std.rs","""        if ordinal < A::ORDINAL_SIZE {
            Some(Ok(A::from_ordinal(ordinal).unwrap()))
        } else {
            B::from_ordinal(ordinal - A::ORDINAL_SIZE).map(Err)
        }""","""        match ordinal.checked_sub(A::ORDINAL_SIZE) {
            None => A::from_ordinal(ordinal).map(Ok),
            Some(rest) => Some(Err(B::from_ordinal(rest)?)),
        }"""),
 (L+"ordinal/impls/std.rs","""        if ordinal == 0 {
            Some(None)
        } else {
            A::from_ordinal(ordinal - 1).map(Some)
        }""","""        let Some(inner) = ordinal.checked_sub(1) else {
            return Some(None);
        };
        Some(Some(A::from_ordinal(inner)?))"""),
 (L+"ordinal/impls/either.rs","""        if ordinal < A::ORDINAL_SIZE {
            Some(Either::Left(A::from_ordinal(ordinal).unwrap()))
        } else {
            B::from_ordinal(ordinal - A::ORDINAL_SIZE).map(Either::Right)
        }""","""        Some(match Result::<A, B>::from_ordinal(ordinal)? {
            Ok(left) => Either::Left(left),
            Err(right) => Either::Right(right),
        })"""),
])
R["array-set-words"]=("C16 C18 C22 C23 C24 C25 C26 C31 C32 C33",[
 (L+"set/array.rs","        self.as_ref().contains(ordinal)","        const { Self::ASSERT };\n        let ordinal = ordinal.ordinal();\n        self.words[ordinal / 64] >> (ordinal % 64) & 1 != 0"),
 (L+"set/array.rs","        for value in iter {\n            set.insert(value);\n        }\n        set","        let words = set.as_mut();\n        iter.into_iter().fold(words, |mut words, value| {\n            words.insert(value);\n            words\n        });\n        set"),
 (L+"set/array.rs","            words: self.words,\n            _phantom: PhantomData,\n        }\n    }\n}\n\nimpl<T: Ordinal + Debug","            words: std::array::from_fn(|i| self.words[i]),\n            _phantom: PhantomData,\n        }\n    }\n}\n\nimpl<T: Ordinal + Debug"),
])
R["entry-match"]=("C09 C19 C24 C27 C28 C32",[
 (L+"map/entry.rs","""        if entry.is_some() {
            Entry::Occupied(OccupiedEntry { key, entry })
        } else {
            Entry::Vacant(VacantEntry { key, entry })
        }""","""        match entry {
            None => Entry::Vacant(VacantEntry { key, entry }),
            Some(_) => Entry::Occupied(OccupiedEntry { key, entry }),
        }"""),
 (L+"map/entry.rs","            Entry::Vacant(entry) => entry.entry.insert(value),","            Entry::Vacant(entry) => {\n                let slot = entry.entry;\n                *slot = Some(value);\n                slot.as_mut().unwrap()\n            }"),
 (L+"map/entry.rs","        *self.entry = Some(value);","        debug_assert!(self.entry.is_none());\n        self.entry.replace(value);"),
])
R["derive-helpers"]=("C02 C03 C04 C05 C06 C28",[
 (D,"""            stmts.push(syn::parse_quote_spanned! {
                variant.span() =>
                if #ordinal_var < #size_of_first_variants_including {
                    return #struct_from_ordinal;
                }
            })""","""            let test: syn::Expr = syn::parse_quote_spanned! { variant.span() =>
                #ordinal_var < #size_of_first_variants_including
            };
            stmts.push(syn::parse_quote_spanned! {
                variant.span() =>
                match #test {
                    true => return #struct_from_ordinal,
                    false => {}
                }
            })"""),
 (D,"""        let sizes = self
            .e
            .variants
            .iter()
            .take(i)
            .map(|v| struct_ordinal_size(v.fields.iter().map(|f| &f.ty)));
        Ok(SizeExpr::sum(sizes))""","""        let mut sizes = Vec::with_capacity(i);
        for variant in self.e.variants.iter().take(i) {
            sizes.push(struct_ordinal_size(field_types(&variant.fields)));
        }
        Ok(SizeExpr::sum(sizes))"""),
 (D,"""        if #rem != 0 {
            return std::option::Option::None
        }""","""        match #rem {
            0 => {}
            _ => return std::option::Option::None,
        }"""),
])
R["overrides"]=("C07 C10 C15 C17 C22 C24 C25 C31 C32",[
 (L+"map/enumerate.rs","""    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.iter.size_hint()
    }
""","""    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.iter.size_hint()
    }

    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        let v = self.iter.nth(n)?;
        let i = self.next + n;
        self.next = i + 1;
        Some((K::from_ordinal(i).unwrap(), v))
    }
"""),
 (L+"map/total/iter.rs","""    fn next(&mut self) -> Option<Self::Item> {
        self.iter.next()
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        self.iter.size_hint()
    }
}

impl<'a, K: Ordinal, V> ExactSizeIterator for Iter<'a, K, V> {""","""    fn next(&mut self) -> Option<Self::Item> {
        self.iter.next()
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        self.iter.size_hint()
    }

    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        self.iter.nth(n)
    }

    fn count(self) -> usize {
        self.iter.len()
    }

    fn last(mut self) -> Option<Self::Item> {
        self.next_back()
    }

    fn fold<B, F: FnMut(B, Self::Item) -> B>(self, init: B, f: F) -> B {
        self.iter.fold(init, f)
    }
}

impl<'a, K: Ordinal, V> ExactSizeIterator for Iter<'a, K, V> {"""),
 (L+"values.rs","""    #[inline]
    fn count(self) -> usize
""","""    #[inline]
    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        let next = self.range.nth(n)?;
        Some(T::from_ordinal(next).unwrap())
    }

    #[inline]
    fn count(self) -> usize
"""),
 (L+"set/iter.rs","""    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, Some(self.iter.len()))
    }
}
""","""    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, Some(self.iter.len()))
    }

    fn fold<B, F: FnMut(B, T) -> B>(self, init: B, mut f: F) -> B {
        let Iter { iter, set } = self;
        iter.fold(init, |acc, next| if set.contains(&next) { f(acc, next) } else { acc })
    }
}
"""),
 (L+"set/set64.rs","""    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        let len = self.len();
        (len, Some(len))
    }
}
""","""    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        let len = self.len();
        (len, Some(len))
    }

    fn nth(&mut self, n: usize) -> Option<T> {
        if n >= self.len() {
            self.set = 0;
            return None;
        }
        for _ in 0..n {
            self.set &= self.set - 1;
        }
        self.next()
    }
}
"""),
])
R["atomic-std"]=("C02 C03 C06 C13 C12 C20 C21 C27 C28 C32 C33",[
 (L+"atomic.rs","""        T::from_ordinal(self.atomic.load(ordering)).unwrap()
""","""        Self::decode(self.atomic.load(ordering))
"""),
 (L+"atomic.rs","""        let old_ord = old.ordinal();
        let new_ord = new.ordinal();
        let res = self
            .atomic
            .compare_exchange(old_ord, new_ord, success, failure);
        match res {
            Ok(v) => Ok(T::from_ordinal(v).unwrap()),
            Err(v) => Err(T::from_ordinal(v).unwrap()),
        }
    }
""","""        let (old, new) = (old.ordinal(), new.ordinal());
        self.atomic
            .compare_exchange(old, new, success, failure)
            .map(Self::decode)
            .map_err(Self::decode)
    }

    fn decode(ordinal: usize) -> T {
        match T::from_ordinal(ordinal) {
            Some(v) => v,
            None => panic!("{ordinal} is not the number of a value"),
        }
    }
"""),
 (L+"ordinal/impls/std.rs","""            Some(a) => a.ordinal().checked_add(1).unwrap(),
""","""            Some(a) => match a.ordinal().checked_add(1) {\n                Some(n) => n,\n                None => panic!(\"too many values\"),\n            },
"""),
 (L+"ordinal/impls/std.rs","""        if ordinal == 0 {
            Some(None)
        } else {
            A::from_ordinal(ordinal - 1).map(Some)
        }
""","""        match ordinal.checked_sub(1) {
            None => Some(None),
            Some(inner) => Some(Some(A::from_ordinal(inner)?)),
        }
"""),
 (L+"map/total/map.rs","""        let mut map = Vec::with_capacity(K::ORDINAL_SIZE);
        for v in K::all_values() {
            map.push(init(v)?);
        }
        Ok(OrdinalTotalMap {
            map: map.into_boxed_slice(),
            _phantom: PhantomData,
        })
""","""        let mut map = Vec::new();
        map.reserve_exact(K::ORDINAL_SIZE);
        K::all_values().try_for_each(|k| init(k).map(|v| map.push(v)))?;
        Ok(OrdinalTotalMap {
            map: map.into(),
            _phantom: PhantomData,
        })
"""),
])
