M='core/src/metric.rs'; C='core/src/metric/counter.rs'
E('t11-dense-set','C01,C03,C04,C29,C26',(M,'''                let m = metrics[id.hash as usize].get_or_init(M::default);
                MetricLockGuardRepr::Dense(m)''','''                let cell = &metrics[id.hash as usize];
                let m = match cell.get() {
                    Some(m) => m,
                    None => {
                        let _ = cell.set(M::default());
                        cell.get().expect("just set")
                    }
                };
                MetricLockGuardRepr::Dense(m)'''))
E('t11-init-getorinit','C29,C03,C26',(M,'''            for m in metrics.iter_mut() {
                if m.get_mut().is_none() {
                    *m = CachePadded::new(OnceLock::from(M::default()));
                }
            }''','''            for m in metrics.iter() {
                m.get_or_init(M::default);
            }'''))
E('t11-mut-getorinit','C03,C04,C29,C26,C02',(M,'''                if m.get_mut().is_none() {
                    *m = CachePadded::new(OnceLock::from(M::default()));
                }

                m.get_mut().unwrap()''','''                m.get_or_init(M::default);
                m.get_mut().expect("initialised above")'''))
E('t11-c-update','C01,C02,C26',(C,'''        self.count
            .fetch_add(x, core::sync::atomic::Ordering::Relaxed);''','''        let _ = self.count.fetch_update(
            core::sync::atomic::Ordering::Relaxed,
            core::sync::atomic::Ordering::Relaxed,
            |count| Some(count.wrapping_add(x)),
        );'''))
E('t11-c-mut','C01,C02,C26',(C,'''        *self.count.get_mut() += x;''','''        let count = self.count.get_mut();
        *count = count.wrapping_add(x);'''))
E('t11-c-mut2','C01,C02,C26',(C,'''        *self.count.get_mut() += 1;''','''        self.inc_by(1)'''))
E('t11-newfn','C29,C04,C34',(M,'''        let metrics = match label_set.cardinality() {
            Some(c) if c <= DEFAULT_MAX_DENSE => VecInner::Dense(new_dense(c)),
            _ => VecInner::Sparse(sparse::ShardedMap::new()),
        };

        Self {
            metrics,
            metadata,
            label_set,
        }''','''        let small = label_set
            .cardinality()
            .is_some_and(|c| c <= DEFAULT_MAX_DENSE);
        if small {
            Self::dense_with_label_set_and_metadata(label_set, metadata)
        } else {
            Self::sparse_with_label_set_and_metadata(label_set, metadata)
        }'''))
