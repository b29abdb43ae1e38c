M='core/src/metric.rs'; S='core/src/metric/sparse.rs'
E('m9-entry-fn','all',(M,'''                let m = &mut metrics[id.hash as usize];
                if m.get_mut().is_none() {
                    *m = CachePadded::new(OnceLock::from(M::default()));
                }

                m.get_mut().unwrap()''','''                let m = &mut metrics[id.hash as usize];
                init_slot(m);
                m.get_mut().expect("just initialised")'''),(M,'''                if m.get_mut().is_none() {
                    *m = CachePadded::new(OnceLock::from(M::default()));
                }
            }
        }
    }

    /// View''','''                init_slot(m);
            }
        }
    }

    /// View'''),(M,'''// if cardinality is greater''','''fn init_slot<M: MetricType>(slot: &mut CachePadded<OnceLock<M>>) {
    if slot.get_mut().is_none() {
        *slot = CachePadded::new(OnceLock::from(M::default()));
    }
}

// if cardinality is greater'''))
E('m9-initall-foreach','all',(M,'''            for m in metrics.iter_mut() {
                if m.get_mut().is_none() {
                    *m = CachePadded::new(OnceLock::from(M::default()));
                }
            }''','''            metrics
                .iter_mut()
                .filter(|m| m.get().is_none())
                .for_each(|m| **m = OnceLock::from(M::default()));'''))
E('m9-initall-take','all',(M,'''            for m in metrics.iter_mut() {
                if m.get_mut().is_none() {
                    *m = CachePadded::new(OnceLock::from(M::default()));
                }
            }''','''            for i in 0..metrics.len() {
                metrics[i].get_or_init(Default::default);
            }'''))
E('m9-with-else','all',(M,'''        self.try_with_labels(label)
            .expect("label group was not contained within this label set")''','''        let Some(id) = self.try_with_labels(label) else {
            panic!("label group was not contained within this label set")
        };
        id'''))
E('m9-hash-method','all',(M,'''        let hash = match &self.metrics {
            VecInner::Dense(metrics) => {
                let index = self.label_set.encode_dense(id).expect("If the label set is fixed in cardinality, it must return a value here in the range of `0..cardinality`");
                debug_assert!(index < metrics.len());
                index as u64
            }
            VecInner::Sparse(metrics) => metrics.hasher.hash_one(id),
        };

        Some(LabelId(LabelIdInner { id, hash }))''','''        let hash = self.slot_of(id);
        Some(LabelId(LabelIdInner { id, hash }))'''),(M,'''    /// Get the individual metric at the given identifier.
    ///
    /// # Panics
    /// Can panic or cause strange behaviour if the label ID comes from a different metric family.
    pub fn get_metric(&self''','''    fn slot_of(&self, id: L::Unique) -> u64 {
        match &self.metrics {
            VecInner::Sparse(map) => map.hasher.hash_one(id),
            VecInner::Dense(metrics) => match self.label_set.encode_dense(id) {
                Some(index) => {
                    debug_assert!(index < metrics.len());
                    index as u64
                }
                None => unreachable!("a fixed label set has dense indexes"),
            },
        }
    }

    /// Get the individual metric at the given identifier.
    ///
    /// # Panics
    /// Can panic or cause strange behaviour if the label ID comes from a different metric family.
    pub fn get_metric(&self'''))
E('m9-hash-hasher','all',(M,'''metrics.hasher.hash_one(id),''','''{
                let mut hasher = metrics.hasher.build_hasher();
                id.hash(&mut hasher);
                core::hash::Hasher::finish(&hasher)
            }'''))
E('m9-card-tuple','all',(M,'''        match &self.metrics {
            VecInner::Dense(x) => (
                x.iter().filter(|x| x.get().is_some()).count(),
                Some(x.len()),
            ),
            VecInner::Sparse(x) => (x.get_cardinality(), self.label_set.cardinality()),
        }''','''        let lower = match &self.metrics {
            VecInner::Dense(x) => x.iter().map(|x| usize::from(x.get().is_some())).sum(),
            VecInner::Sparse(x) => x.get_cardinality(),
        };
        let upper = match &self.metrics {
            VecInner::Dense(x) => Some(x.len()),
            VecInner::Sparse(_) => self.label_set.cardinality(),
        };
        (lower, upper)'''))
E('m9-collect-shardfn','all',(M,'''                for shard in m.shards.iter() {
                    for (k, v) in shard.read().iter() {
                        v.collect_into(&self.metadata, self.label_set.decode(k), &name, enc)?;
                    }
                }''','''                for shard in m.shards.iter() {
                    let shard = shard.read();
                    if shard.is_empty() {
                        continue;
                    }
                    for entry in shard.iter() {
                        let labels = self.label_set.decode(&entry.0);
                        entry.1.collect_into(&self.metadata, labels, name.by_ref(), enc)?;
                    }
                }'''))
E('m9-collect-tryfe','all',(M,'''                for shard in m.shards.iter() {
                    for (k, v) in shard.read().iter() {
                        v.collect_into(&self.metadata, self.label_set.decode(k), &name, enc)?;
                    }
                }''','''                m.shards.iter().try_for_each(|shard| {
                    shard.read().iter().try_for_each(|(k, v)| {
                        v.collect_into(&self.metadata, self.label_set.decode(k), &name, enc)
                    })
                })?;'''))
E('m9-collect-dense-idx','all',(M,'''                for (index, value) in m.iter().enumerate() {
                    if let Some(value) = value.get() {
                        value.collect_into(''','''                for index in 0..m.len() {
                    if let Some(value) = m[index].get() {
                        value.collect_into('''))
E('m9-choose-filter','all',(M,'''        let metrics = match label_set.cardinality() {
            Some(c) if c <= DEFAULT_MAX_DENSE => VecInner::Dense(new_dense(c)),
            _ => VecInner::Sparse(sparse::ShardedMap::new()),
        };

        Self {
            metrics,
            metadata,
            label_set,
        }''','''        match label_set.cardinality() {
            None => Self::sparse_with_label_set_and_metadata(label_set, metadata),
            Some(c) if c > DEFAULT_MAX_DENSE => {
                Self::sparse_with_label_set_and_metadata(label_set, metadata)
            }
            Some(_) => Self::dense_with_label_set_and_metadata(label_set, metadata),
        }'''))
E('m9-dense-collect','all',(M,'''    let mut vec = Vec::with_capacity(c);
    vec.resize_with(c, CachePadded::<OnceLock<M>>::default);
    vec.into_boxed_slice()''','''    (0..c).map(|_| CachePadded::new(OnceLock::new())).collect()'''))
E('m9-dense-push','all',(M,'''    let mut vec = Vec::with_capacity(c);
    vec.resize_with(c, CachePadded::<OnceLock<M>>::default);
    vec.into_boxed_slice()''','''    let mut vec = Vec::new();
    vec.reserve_exact(c);
    for _ in 0..c {
        vec.push(CachePadded::new(OnceLock::new()));
    }
    vec.into_boxed_slice()'''))
E('m9-opt-map','all',(M,'''        if let Some(this) = self {
            this.collect_family_into(name, enc)?;
        }
        Ok(())''','''        match self.as_ref() {
            Some(this) => this.collect_family_into(name, enc),
            None => Ok(()),
        }'''))
E('s9-find-insert','all',(S,'''            let mut shard = shard.write();
            let entry = shard.find_entry(id.hash, |(k, _)| *k == id.id);
            match entry {
                Ok(_) => {}
                Err(_) => {
                    shard.insert_unique(id.hash, (id.id, M::default()), |(k, _)| {
                        self.hasher.hash_one(k)
                    });
                }
            }
            RwLockWriteGuard::downgrade(shard)''','''            let mut shard = shard.write();
            let missing = shard.find(id.hash, |(k, _)| *k == id.id).is_none();
            if missing {
                let rehash = |entry: &(U, M)| self.hasher.hash_one(&entry.0);
                shard.insert_unique(id.hash, (id.id, M::default()), rehash);
            }
            RwLockWriteGuard::downgrade(shard)'''))
E('s9-entry-api','all',(S,'''            let entry = shard.find_entry(id.hash, |(k, _)| *k == id.id);
            match entry {
                Ok(_) => {}
                Err(_) => {
                    shard.insert_unique(id.hash, (id.id, M::default()), |(k, _)| {
                        self.hasher.hash_one(k)
                    });
                }
            }
            RwLockWriteGuard''','''            shard
                .entry(
                    id.hash,
                    |(k, _)| *k == id.id,
                    |(k, _)| self.hasher.hash_one(k),
                )
                .or_insert_with(|| (id.id, M::default()));
            RwLockWriteGuard'''))
E('s9-get-fn','all',(S,'''        {
            let mapped = RwLockReadGuard::try_map(shard.read(), |shard| {
                shard.find(id.hash, |(k, _v)| *k == id.id).map(|(_, v)| v)
            });
            if let Ok(mapped) = mapped {
                return mapped;
            }
        }
''','''        let lookup = |shard: &HashTable<(U, M)>| shard.find(id.hash, |(k, _)| *k == id.id).is_some();
        {
            let guard = shard.read();
            if lookup(&guard) {
                return RwLockReadGuard::map(guard, |shard| {
                    let (_, v) = shard.find(id.hash, |(k, _)| *k == id.id).unwrap();
                    v
                });
            }
        }
'''))
E('s9-shard-of','all',(S,'''    pub(super) fn get_metric(&self, id''','''    fn index_of(&self, hash: u64) -> usize {
        // the top 7 bits are used by the table
        ((hash as usize) << 7) >> self.shift
    }

    pub(super) fn get_metric(&self, id'''),(S,'''    pub(super) fn get_metric(&self, id: LabelIdInner<U>) -> SparseLockGuard<'_, M> {
        let shard = &self.shards[((id.hash as usize) << 7) >> self.shift];''','''    pub(super) fn get_metric(&self, id: LabelIdInner<U>) -> SparseLockGuard<'_, M> {
        let shard = &self.shards[self.index_of(id.hash)];'''),(S,'''        let shard = &mut self.shards[((id.hash as usize) << 7) >> self.shift];''','''        let at = self.index_of(id.hash);
        let shard = &mut self.shards[at];'''))
E('s9-remove-map','all',(S,'''        match entry {
            Ok(x) => Some(x.remove().0 .1),
            Err(_) => None,
        }''','''        let ((_, metric), _) = entry.ok()?.remove();
        Some(metric)'''))
E('s9-remove-block','all',(S,'''        let mut shard = shard.write();
        let entry = shard.find_entry(id.hash, |(k, _)| *k == id.id);
        match entry {
            Ok(x) => Some(x.remove().0 .1),
            Err(_) => None,
        }''','''        let removed = {
            let mut shard = shard.write();
            match shard.find_entry(id.hash, |entry| entry.0 == id.id) {
                Ok(found) => {
                    let (entry, _vacant) = found.remove();
                    Some(entry)
                }
                Err(_) => None,
            }
        };
        removed.map(|(_, metric)| metric)'''))
E('s9-mut-exists','all',(S,'''        let entry = shard.get_mut().find_entry(id.hash, |(k, _)| *k == id.id);
        let (_, v) = match entry {
            Ok(o) => o.into_mut(),
            Err(v) => v
                .into_table()
                .insert_unique(id.hash, (id.id, M::default()), |(k, _)| {
                    self.hasher.hash_one(k)
                })
                .into_mut(),
        };

        v''','''        let table = shard.get_mut();
        if table.find(id.hash, |(k, _)| *k == id.id).is_none() {
            table.insert_unique(id.hash, (id.id, M::default()), |(k, _)| {
                self.hasher.hash_one(k)
            });
        }
        let (_, metric) = table
            .find_mut(id.hash, |(k, _)| *k == id.id)
            .expect("present or just inserted");
        metric'''))
E('s9-mut-or','all',(S,'''        let entry = shard.get_mut().find_entry(id.hash, |(k, _)| *k == id.id);
        let (_, v) = match entry {
            Ok(o) => o.into_mut(),
            Err(v) => v
                .into_table()
                .insert_unique(id.hash, (id.id, M::default()), |(k, _)| {
                    self.hasher.hash_one(k)
                })
                .into_mut(),
        };

        v''','''        &mut shard
            .get_mut()
            .entry(
                id.hash,
                |(k, _)| *k == id.id,
                |(k, _)| self.hasher.hash_one(k),
            )
            .or_insert_with(|| (id.id, M::default()))
            .into_mut()
            .1'''))
E('s9-shift-bits','all',(S,'''            shift: (std::mem::size_of::<usize>() * 8) as u32 - shards.trailing_zeros(),''','''            shift: usize::BITS - shards.ilog2(),'''))
E('s9-collect-shards','all',(S,'''        let mut vec = Vec::with_capacity(shards);
        vec.resize_with(shards, || CachePadded::new(RwLock::new(HashTable::new())));
''','''        let vec: Vec<_> = std::iter::repeat_with(|| CachePadded::new(RwLock::new(HashTable::new())))
            .take(shards)
            .collect();
'''))
E('s9-card-lock','all',(S,'''        self.shards
            .iter()
            .map(|shard| shard.read().len())
            .sum::<usize>()''','''        let mut total = 0;
        for shard in &*self.shards {
            let guard = shard.read();
            total += guard.len();
            drop(guard);
        }
        total'''))
