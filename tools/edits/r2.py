exec(open('/tmp/campf/r1.py').read().split('# ---- text')[0])
# ---- counters / gauges
E('c-via-incby','all',(C,'''    pub fn inc(&self) {
        self.count
            .fetch_add(1, core::sync::atomic::Ordering::Relaxed);
    }''','''    pub fn inc(&self) {
        self.inc_by(1)
    }'''),)
E('c-acqrel','all',(C,'''        self.count
            .fetch_add(x, core::sync::atomic::Ordering::Relaxed);''','''        let count = &self.count;
        count.fetch_add(x, core::sync::atomic::Ordering::AcqRel);'''))
E('c-vec-id','all',(C,'''        self.get_metric(self.with_labels(label)).inc_by(y);''','''        let id = self.with_labels(label);
        let metric = self.get_metric(id);
        metric.inc_by(y)'''))
E('c-mut','all',(C,'''        *self.count.get_mut() += x;''','''        let count = self.count.get_mut();
        *count = count.wrapping_add(x);'''))
E('g-fetch-update','all',(G,'''        loop {
            let current = self.inner.load(Ordering::Acquire);
            let new = f64::from_bits(current) + delta;
            let result = self.inner.compare_exchange_weak(
                current,
                new.to_bits(),
                Ordering::Release,
                Ordering::Relaxed,
            );
            if result.is_ok() {
                return;
            }
        }''','''        let _ = self
            .inner
            .fetch_update(Ordering::Release, Ordering::Acquire, |bits| {
                Some((f64::from_bits(bits) + delta).to_bits())
            });'''))
E('g-cas-carry','all',(G,'''        loop {
            let current = self.inner.load(Ordering::Acquire);
            let new = f64::from_bits(current) + delta;
            let result = self.inner.compare_exchange_weak(
                current,
                new.to_bits(),
                Ordering::Release,
                Ordering::Relaxed,
            );
            if result.is_ok() {
                return;
            }
        }''','''        let mut current = self.inner.load(Ordering::Relaxed);
        loop {
            let new = (f64::from_bits(current) + delta).to_bits();
            match self
                .inner
                .compare_exchange(current, new, Ordering::AcqRel, Ordering::Relaxed)
            {
                Ok(_) => break,
                Err(actual) => current = actual,
            }
        }'''))
E('g-dec-neg','all',(G,'''        self.inc_by(-delta);''','''        let delta = 0.0 - delta;
        self.inc_by(-(-delta))'''))
E('g-dec-mut','all',(G,'''        let x = self.count.get_ex() - x;
        self.count.set_mut(x);''','''        let old = self.count.get_ex();
        self.count.set_mut(old - x);'''))
E('g-write-split','all',(G,'''    GaugeState {
        count: AtomicI64::new(value),
    }
    .collect_into(&(), labels, name, enc)''','''    let state = GaugeState::new(value);
    state.collect_into(&(), labels, name, enc)'''))
# ---- metric.rs
E('m-dense-iter','all',(M,'''    let mut vec = Vec::with_capacity(c);
    vec.resize_with(c, CachePadded::<OnceLock<M>>::default);
    vec.into_boxed_slice()''','''    (0..c).map(|_| CachePadded::new(OnceLock::new())).collect()'''))
E('m-dense-repeat','all',(M,'''    vec.resize_with(c, CachePadded::<OnceLock<M>>::default);
''','''    for _ in 0..c {
        vec.push(CachePadded::new(OnceLock::new()));
    }
'''))
E('m-choose','all',(M,'''        let metrics = match label_set.cardinality() {
            Some(c) if c <= DEFAULT_MAX_DENSE => VecInner::Dense(new_dense(c)),
            _ => VecInner::Sparse(sparse::ShardedMap::new()),
        };

        Self {
            metrics,
            metadata,
            label_set,
        }''','''        let dense = label_set.cardinality().is_some_and(|c| c <= DEFAULT_MAX_DENSE);
        if dense {
            Self::dense_with_label_set_and_metadata(label_set, metadata)
        } else {
            Self::sparse_with_label_set_and_metadata(label_set, metadata)
        }'''))
E('m-choose2','all',(M,'''        let metrics = match label_set.cardinality() {
            Some(c) if c <= DEFAULT_MAX_DENSE => VecInner::Dense(new_dense(c)),
            _ => VecInner::Sparse(sparse::ShardedMap::new()),
        };
''','''        let metrics = match label_set.cardinality().filter(|c| *c < DEFAULT_MAX_DENSE + 1) {
            Some(c) => VecInner::Dense(new_dense(c)),
            None => VecInner::Sparse(sparse::ShardedMap::new()),
        };
'''))
E('m-initall','all',(M,'''            for m in metrics.iter_mut() {
                if m.get_mut().is_none() {
                    *m = CachePadded::new(OnceLock::from(M::default()));
                }
            }''','''            metrics
                .iter()
                .for_each(|m| {
                    m.get_or_init(M::default);
                });'''))
E('m-initall-set','all',(M,'''            for m in metrics.iter_mut() {
                if m.get_mut().is_none() {
                    *m = CachePadded::new(OnceLock::from(M::default()));
                }
            }''','''            for m in metrics.iter_mut().filter(|m| m.get().is_none()) {
                let _ = m.set(M::default());
            }'''))
E('m-getmut-init','all',(M,'''                let m = &mut metrics[id.hash as usize];
                if m.get_mut().is_none() {
                    *m = CachePadded::new(OnceLock::from(M::default()));
                }

                m.get_mut().unwrap()''','''                let m = &mut metrics[id.hash as usize];
                m.get_or_init(M::default);
                m.get_mut().expect("just initialised")'''))
E('m-get-explicit','all',(M,'''                let m = metrics[id.hash as usize].get_or_init(M::default);
                MetricLockGuardRepr::Dense(m)''','''                let index = id.hash as usize;
                let cell: &OnceLock<M> = &metrics[index];
                MetricLockGuardRepr::Dense(cell.get_or_init(|| M::default()))'''))
E('m-trylabels','all',(M,'''        let id = self.label_set.encode(label)?;

        let hash = match &self.metrics {
            VecInner::Dense(metrics) => {
                let index = self.label_set.encode_dense(id).expect("If the label set is fixed in cardinality, it must return a value here in the range of `0..cardinality`");
                debug_assert!(index < metrics.len());
                index as u64
            }
            VecInner::Sparse(metrics) => metrics.hasher.hash_one(id),
        };

        Some(LabelId(LabelIdInner { id, hash }))''','''        self.label_set
            .encode(label)
            .map(|id| LabelId(self.metrics.locate(&self.label_set, id)))'''),(M,'''impl<M: MetricType, U: Hash + Eq + Copy> VecInner<U, M> {
''','''impl<M: MetricType, U: Hash + Eq + Copy> VecInner<U, M> {
    fn locate<L: LabelGroupSet<Unique = U>>(&self, label_set: &L, id: U) -> LabelIdInner<U> {
        let hash = match self {
            VecInner::Dense(_) => match label_set.encode_dense(id) {
                Some(index) => index as u64,
                None => panic!("a label set of fixed cardinality must have a dense encoding"),
            },
            VecInner::Sparse(metrics) => metrics.hasher.hash_one(id),
        };
        LabelIdInner { id, hash }
    }

'''))
E('m-withlabels-match','all',(M,'''        self.try_with_labels(label)
            .expect("label group was not contained within this label set")''','''        match self.try_with_labels(label) {
            Some(id) => id,
            None => panic!("label group was not contained within this label set"),
        }'''))
E('m-card-fold','all',(M,'''                x.iter().filter(|x| x.get().is_some()).count(),
                Some(x.len()),''','''                x.iter().fold(0, |n, cell| n + usize::from(cell.get().is_some())),
                Some(x.len()),'''))
E('m-card-loop','all',(M,'''            VecInner::Dense(x) => (
                x.iter().filter(|x| x.get().is_some()).count(),
                Some(x.len()),
            ),''','''            VecInner::Dense(x) => {
                let mut live = 0;
                for cell in x.iter() {
                    if cell.get().is_some() {
                        live += 1;
                    }
                }
                (live, Some(x.len()))
            }'''))
E('m-collect-filter','all',(M,'''                for (index, value) in m.iter().enumerate() {
                    if let Some(value) = value.get() {
                        value.collect_into(
                            &self.metadata,
                            self.label_set.decode_dense(index),
                            &name,
                            enc,
                        )?;
                    }
                }''','''                let live = m
                    .iter()
                    .enumerate()
                    .filter_map(|(index, cell)| Some((index, cell.get()?)));
                for (index, value) in live {
                    let labels = self.label_set.decode_dense(index);
                    value.collect_into(&self.metadata, labels, &name, enc)?;
                }'''))
E('m-collect-tryfor','all',(M,'''                for shard in m.shards.iter() {
                    for (k, v) in shard.read().iter() {
                        v.collect_into(&self.metadata, self.label_set.decode(k), &name, enc)?;
                    }
                }''','''                for shard in m.shards.iter() {
                    let shard = shard.read();
                    shard.iter().try_for_each(|(k, v)| {
                        v.collect_into(&self.metadata, self.label_set.decode(k), &name, enc)
                    })?;
                }'''))
E('m-collect-split','all',(M,'''        M::write_type(&name, enc)?;
        match &self.metrics {
            VecInner::Dense(m) => {
                for (index, value) in m.iter().enumerate() {
                    if let Some(value) = value.get() {
                        value.collect_into(
                            &self.metadata,
                            self.label_set.decode_dense(index),
                            &name,
                            enc,
                        )?;
                    }
                }
            }''','''        M::write_type(&name, enc)?;
        match &self.metrics {
            VecInner::Dense(m) => {
                let mut index = 0;
                while index < m.len() {
                    let cell = &m[index];
                    index += 1;
                    let Some(value) = cell.get() else { continue };
                    value.collect_into(
                        &self.metadata,
                        self.label_set.decode_dense(index - 1),
                        &name,
                        enc,
                    )?;
                }
            }'''))
E('m-option-match','all',(M,'''        if let Some(this) = self {
            this.collect_family_into(name, enc)?;
        }
        Ok(())''','''        match self {
            Some(this) => this.collect_family_into(name, enc),
            None => Ok(()),
        }'''))
E('m-option-map','all',(M,'''        if let Some(this) = self {
            this.collect_family_into(name, enc)?;
        }
        Ok(())''','''        self.as_ref()
            .map_or(Ok(()), |this| this.collect_family_into(name, enc))'''))
# ---- sparse.rs
E('s-shard-fn','all',(SP,'''    pub(super) fn get_metric(&self, id: LabelIdInner<U>) -> SparseLockGuard<'_, M> {
        let shard = &self.shards[((id.hash as usize) << 7) >> self.shift];
''','''    fn index(&self, hash: u64) -> usize {
        ((hash as usize) << 7) >> self.shift
    }

    pub(super) fn get_metric(&self, id: LabelIdInner<U>) -> SparseLockGuard<'_, M> {
        let shard = &self.shards[self.index(id.hash)];
'''),(SP,'''    pub(super) fn remove_metric(&self, id: LabelIdInner<U>) -> Option<M> {
        let shard = &self.shards[((id.hash as usize) << 7) >> self.shift];
''','''    pub(super) fn remove_metric(&self, id: LabelIdInner<U>) -> Option<M> {
        let shard = &self.shards[self.index(id.hash)];
'''),(SP,'''        let shard = &mut self.shards[((id.hash as usize) << 7) >> self.shift];
''','''        let index = self.index(id.hash);
        let shard = &mut self.shards[index];
'''))
E('s-entry','all',(SP,'''            let entry = shard.find_entry(id.hash, |(k, _)| *k == id.id);
            match entry {
                Ok(_) => {}
                Err(_) => {
                    shard.insert_unique(id.hash, (id.id, M::default()), |(k, _)| {
                        self.hasher.hash_one(k)
                    });
                }
            }''','''            if shard.find(id.hash, |(k, _)| *k == id.id).is_none() {
                shard.insert_unique(id.hash, (id.id, M::default()), |(k, _)| {
                    self.hasher.hash_one(k)
                });
            }'''))
E('s-entry2','all',(SP,'''            let entry = shard.find_entry(id.hash, |(k, _)| *k == id.id);
            match entry {
                Ok(_) => {}
                Err(_) => {
                    shard.insert_unique(id.hash, (id.id, M::default()), |(k, _)| {
                        self.hasher.hash_one(k)
                    });
                }
            }''','''            shard
                .entry(id.hash, |(k, _)| *k == id.id, |(k, _)| self.hasher.hash_one(k))
                .or_insert_with(|| (id.id, M::default()));'''))
E('s-remove-iflet','all',(SP,'''        let entry = shard.find_entry(id.hash, |(k, _)| *k == id.id);
        match entry {
            Ok(x) => Some(x.remove().0 .1),
            Err(_) => None,
        }''','''        let entry = shard.find_entry(id.hash, |(k, _)| *k == id.id).ok()?;
        let ((_, metric), _) = entry.remove();
        Some(metric)'''))
E('s-card-loop','all',(SP,'''        self.shards
            .iter()
            .map(|shard| shard.read().len())
            .sum::<usize>()''','''        let mut total = 0;
        for shard in self.shards.iter() {
            total += shard.read().len();
        }
        total'''))
E('s-new-iter','all',(SP,'''        let mut vec = Vec::with_capacity(shards);
        vec.resize_with(shards, || CachePadded::new(RwLock::new(HashTable::new())));
        ShardedMap {
            hasher: Default::default(),
            shards: vec.into_boxed_slice(),
            shift:''','''        let tables = (0..shards).map(|_| CachePadded::new(RwLock::new(HashTable::new())));
        ShardedMap {
            hasher: Default::default(),
            shards: tables.collect(),
            shift:'''))
E('s-shift','all',(SP,'''            shift: (std::mem::size_of::<usize>() * 8) as u32 - shards.trailing_zeros(),''','''            shift: usize::BITS - shards.trailing_zeros(),'''))
E('s-shift2','all',(SP,'''            shift: (std::mem::size_of::<usize>() * 8) as u32 - shards.trailing_zeros(),''','''            shift: usize::BITS - shards.ilog2(),'''))
E('s-read-first','all',(SP,'''        {
            let mapped = RwLockReadGuard::try_map(shard.read(), |shard| {
                shard.find(id.hash, |(k, _v)| *k == id.id).map(|(_, v)| v)
            });
            if let Ok(mapped) = mapped {
                return mapped;
            }
        }
''','''        if let Ok(mapped) = RwLockReadGuard::try_map(shard.read(), |table| {
            let (_, v) = table.find(id.hash, |(k, _v)| *k == id.id)?;
            Some(v)
        }) {
            return mapped;
        }
'''))
