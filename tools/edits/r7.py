T='core/src/text.rs'; H='core/src/metric/histogram.rs'; M='core/src/metric.rs'; SP='core/src/metric/sparse.rs'; N='core/src/metric/name.rs'; G='core/src/metric/gauge.rs'; C='core/src/metric/counter.rs'
LG='core/src/label/group.rs'; LI='core/src/label/impls.rs'; LV='core/src/label/value.rs'; LN='core/src/label/name.rs'; MG='core/src/metric/group.rs'
P='prometheus-proto/src/lib.rs'; PE='prometheus-proto/src/encoding.rs'; PR='process/src/lib.rs'; TK='tokio/src/lib.rs'
DL='derive/src/label_group/to_tokens.rs'; DM='derive/src/metric_group/to_tokens.rs'; DV='derive/src/value/to_tokens.rs'
# metric.rs
E('m7-repr-deref','all',(M,'''        match self.0 {
            MetricLockGuardRepr::Dense(d) => d,
            MetricLockGuardRepr::Sparse(ref s) => s,
        }''','''        let target: &M = match &self.0 {
            MetricLockGuardRepr::Sparse(guard) => guard.deref(),
            MetricLockGuardRepr::Dense(metric) => metric,
        };
        target'''))
E('m7-card-flatmap','all',(M,'''                x.iter().filter(|x| x.get().is_some()).count(),
                Some(x.len()),''','''                x.iter().flat_map(|cell| cell.get()).count(),
                Some(x.len()),'''))
E('m7-card-sum','all',(M,'''                x.iter().filter(|x| x.get().is_some()).count(),
                Some(x.len()),''','''                x.iter().map(|cell| usize::from(cell.get().is_some())).sum(),
                Some(x.len()),'''))
E('m7-collect-methods','all',(M,'''impl<M: MetricType, L: LabelGroupSet> MetricVec<M, L> {
    /// Create a new metric vec with the given''','''impl<M: MetricType, L: LabelGroupSet> MetricVec<M, L> {
    fn collect_one<'a, T: Encoding>(
        &'a self,
        value: &'a M,
        labels: L::Group<'a>,
        name: &impl MetricNameEncoder,
        enc: &mut T,
    ) -> Result<(), T::Err>
    where
        M: MetricEncoding<T>,
    {
        value.collect_into(&self.metadata, labels, name, enc)
    }

    /// Create a new metric vec with the given'''),(M,'''                        value.collect_into(
                            &self.metadata,
                            self.label_set.decode_dense(index),
                            &name,
                            enc,
                        )?;''','''                        self.collect_one(value, self.label_set.decode_dense(index), &name, enc)?;'''),(M,'''                        v.collect_into(&self.metadata, self.label_set.decode(k), &name, enc)?;''','''                        self.collect_one(v, self.label_set.decode(k), &name, enc)?;'''))
E('m7-collect-range','all',(M,'''                for (index, value) in m.iter().enumerate() {
                    if let Some(value) = value.get() {''','''                for index in 0..m.len() {
                    if let Some(value) = m[index].get() {'''))
E('m7-collect-letelse','all',(M,'''                    if let Some(value) = value.get() {
                        value.collect_into(
                            &self.metadata,
                            self.label_set.decode_dense(index),
                            &name,
                            enc,
                        )?;
                    }''','''                    let Some(value) = value.get() else {
                        continue;
                    };
                    let labels = self.label_set.decode_dense(index);
                    value.collect_into(&self.metadata, labels, &name, enc)?;'''))
E('m7-collect-guard','all',(M,'''                    for (k, v) in shard.read().iter() {
                        v.collect_into(&self.metadata, self.label_set.decode(k), &name, enc)?;
                    }''','''                    let entries = shard.read();
                    for entry in entries.iter() {
                        let labels = self.label_set.decode(&entry.0);
                        entry.1.collect_into(&self.metadata, labels, name.by_ref(), enc)?;
                    }
                    drop(entries);'''))
E('m7-getmut-match','all',(M,'''                if m.get_mut().is_none() {
                    *m = CachePadded::new(OnceLock::from(M::default()));
                }

                m.get_mut().unwrap()''','''                m.get_or_init(M::default);
                m.get_mut().expect("just initialised")'''))
E('m7-init-getorinit','all',(M,'''            for m in metrics.iter_mut() {
                if m.get_mut().is_none() {
                    *m = CachePadded::new(OnceLock::from(M::default()));
                }
            }''','''            metrics.iter().for_each(|cell| {
                cell.get_or_init(M::default);
            });'''))
E('m7-dense-expect','all',(M,'''        let c = label_set
            .cardinality()
            .expect("Label group does not have a fixed cardinality.");
''','''        let Some(c) = label_set.cardinality() else {
            panic!("Label group does not have a fixed cardinality.");
        };
'''))
E('m7-try-map','all',(M,'''        let id = self.label_set.encode(label)?;

        let hash = match''','''        let Some(id) = self.label_set.encode(label) else {
            return None;
        };

        let hash = match'''))
E('m7-withmeta','all',(M,'''        let metrics = match label_set.cardinality() {
            Some(c) if c <= DEFAULT_MAX_DENSE => VecInner::Dense(new_dense(c)),
            _ => VecInner::Sparse(sparse::ShardedMap::new()),
        };

        Self {
            metrics,
            metadata,
            label_set,
        }''','''        if matches!(label_set.cardinality(), Some(c) if c <= DEFAULT_MAX_DENSE) {
            Self::dense_with_label_set_and_metadata(label_set, metadata)
        } else {
            Self::sparse_with_label_set_and_metadata(label_set, metadata)
        }'''))
E('m7-remove-iflet','all',(M,'''        match &self.metrics {
            VecInner::Dense(_) => None,
            VecInner::Sparse(metrics) => metrics.remove_metric(id.0),
        }''','''        if let VecInner::Sparse(metrics) = &self.metrics {
            return metrics.remove_metric(id.0);
        }
        None'''))
# sparse
E('s7-shard-index','all',(SP,'''        let shard = &self.shards[((id.hash as usize) << 7) >> self.shift];

        {
            let mapped''','''        let shard = self.shard_for(id.hash);

        {
            let mapped'''),(SP,'''        let shard = &self.shards[((id.hash as usize) << 7) >> self.shift];

        let mut shard = shard.write();
        let entry''','''        let mut shard = self.shard_for(id.hash).write();
        let entry'''),(SP,'''        let shard = &mut self.shards[((id.hash as usize) << 7) >> self.shift];
''','''        let index = self.shard_index(id.hash);
        let shard = &mut self.shards[index];
'''),(SP,'''    pub(super) fn get_metric(&self,''','''    #[inline]
    fn shard_index(&self, hash: u64) -> usize {
        ((hash as usize) << 7) >> self.shift
    }

    #[inline]
    fn shard_for(&self, hash: u64) -> &RwLock<HashTable<(U, M)>> {
        &self.shards[self.shard_index(hash)]
    }

    pub(super) fn get_metric(&self,'''))
E('s7-find-none','all',(SP,'''            let entry = shard.find_entry(id.hash, |(k, _)| *k == id.id);
            match entry {
                Ok(_) => {}
                Err(_) => {
                    shard.insert_unique(id.hash, (id.id, M::default()), |(k, _)| {
                        self.hasher.hash_one(k)
                    });
                }
            }''','''            if shard.find(id.hash, |(k, _)| *k == id.id).is_none() {
                let hasher = |(k, _): &(U, M)| self.hasher.hash_one(k);
                shard.insert_unique(id.hash, (id.id, M::default()), hasher);
            }'''))
E('s7-find-fn','all',(SP,'''            let mapped = RwLockReadGuard::try_map(shard.read(), |shard| {
                shard.find(id.hash, |(k, _v)| *k == id.id).map(|(_, v)| v)
            });
            if let Ok(mapped) = mapped {
                return mapped;
            }''','''            match RwLockReadGuard::try_map(shard.read(), |table| {
                let entry = table.find(id.hash, |entry| entry.0 == id.id)?;
                Some(&entry.1)
            }) {
                Ok(mapped) => return mapped,
                Err(guard) => drop(guard),
            }'''))
E('s7-remove-q','all',(SP,'''        let entry = shard.find_entry(id.hash, |(k, _)| *k == id.id);
        match entry {
            Ok(x) => Some(x.remove().0 .1),
            Err(_) => None,
        }''','''        let entry = shard.find_entry(id.hash, |(k, _)| *k == id.id).ok()?;
        let ((_, metric), _) = entry.remove();
        Some(metric)'''))
E('s7-getmut-entry','all',(SP,'''        let entry = shard.get_mut().find_entry(id.hash, |(k, _)| *k == id.id);
        let (_, v) = match entry {
            Ok(o) => o.into_mut(),
            Err(v) => v
                .into_table()
                .insert_unique(id.hash, (id.id, M::default()), |(k, _)| {
                    self.hasher.hash_one(k)
                })
                .into_mut(),
        };

        v''','''        let entry = shard.get_mut().entry(
            id.hash,
            |(k, _)| *k == id.id,
            |(k, _)| self.hasher.hash_one(k),
        );
        &mut entry.or_insert_with(|| (id.id, M::default())).into_mut().1'''))
E('s7-card-fold','all',(SP,'''            .map(|shard| shard.read().len())
            .sum::<usize>()''','''            .fold(0, |total, shard| total + shard.read().len())'''))
E('s7-shards-max','all',(SP,'''        (std::thread::available_parallelism().map_or(1, usize::from) * 4).next_power_of_two()''','''        let cpus = match std::thread::available_parallelism() {
            Ok(cpus) => cpus.get(),
            Err(_) => 1,
        };
        (4 * cpus).next_power_of_two()'''))
E('s7-bits','all',(SP,'''(std::mem::size_of::<usize>() * 8) as u32 - shards.trailing_zeros()''','''usize::BITS - shards.ilog2()'''))
# histogram
E('h7-get','all',(H,'''        if bucket < N {
            self.buckets[bucket].fetch_add(1, Ordering::Relaxed);
        } else {
            self.inf.fetch_add(1, Ordering::Relaxed);
        }
        self.sum.inc_by(x);''','''        let counter = self.buckets.get(bucket).unwrap_or(&self.inf);
        counter.fetch_add(1, Ordering::Relaxed);
        self.sum.inc_by(x);'''))
E('h7-getmut','all',(H,'''        if bucket < N {
            *self.buckets[bucket].get_mut() += 1;
        } else {
            *self.inf.get_mut() += 1;
        }
        let v = self.sum.get_ex();
        self.sum.set_mut(v + x);''','''        let counter = match self.buckets.get_mut(bucket) {
            Some(counter) => counter,
            None => &mut self.inf,
        };
        *counter.get_mut() += 1;
        let sum = self.sum.get_ex() + x;
        self.sum.set_mut(sum);'''))
E('h7-sample-each','all',(H,'''        let mut output = [0; N];
        #[allow(clippy::needless_range_loop)]
        for i in 0..N {
            output[i] = *self.buckets[i].get_mut();
        }
        (output, *self''','''        let output = self.buckets.each_mut().map(|count| *count.get_mut());
        (output, *self'''))
E('h7-sample-fromfn','all',(H,'''        let mut output = [0; N];
        #[allow(clippy::needless_range_loop)]
        for i in 0..N {
            output[i] = *self.buckets[i].get_mut();
        }
        (output, *self''','''        let output = core::array::from_fn(|i| *self.buckets[i].get_mut());
        (output, *self'''))
E('h7-sample-zip','all',(H,'''        #[allow(clippy::needless_range_loop)]
        for i in 0..N {
            output[i] = *self.buckets[i].get_mut();
        }''','''        for (out, count) in output.iter_mut().zip(&mut self.buckets) {
            *out = *count.get_mut();
        }'''))
E('h7-binary','all',(H,'''        if x.is_nan() {
            return N;
        }
        self.le.partition_point(|le| x > *le)''','''        match x {
            x if x.is_nan() => N,
            x => self.le.partition_point(|&le| le < x),
        }'''))
E('h7-sorted','all',(H,'''        for i in 1..N {
            assert!(
                buckets[i - 1] < buckets[i],
                "consecutive histogram buckets must not decrease or be equal",
            );
        }''','''        assert!(
            buckets.is_sorted_by(|a, b| a < b),
            "consecutive histogram buckets must not decrease or be equal",
        );'''))
E('h7-mut-delegate','all',(H,'''        self.inner.get_mut().observe(bucket, x);''','''        self.inner.get_mut().observe_mut(bucket, x);'''))
E('h7-default','all',(H,'''                buckets: [ZERO; N],
                inf: ZERO,''','''                buckets: core::array::from_fn(|_| AtomicU64::new(0)),
                inf: AtomicU64::default(),'''))
E('h7-timer-take','all',(H,'''        if let Some(v) = self.vec {
            v.get_metric(self.id).observe_duration_since(self.start);
        }''','''        let Some(vec) = self.vec.take() else { return };
        let elapsed = self.start.elapsed();
        vec.get_metric(self.id).observe_duration(elapsed);'''))
E('h7-linear-loop','all',(H,'''        let buckets = core::array::from_fn(|i| start + width * i as f64);

        Thresholds { le: buckets }''','''        let mut le = [start; N];
        for (i, le) in le.iter_mut().enumerate() {
            *le = start + width * i as f64;
        }

        Thresholds { le }'''))
# gauge, counter
E('g7-state-add','all',(G,'''impl GaugeState {
    pub fn new(value: i64) -> Self {
        Self {
            count: AtomicI64::new(value),
        }
    }
}''','''impl GaugeState {
    pub fn new(value: i64) -> Self {
        Self {
            count: AtomicI64::new(value),
        }
    }

    #[inline]
    fn add(&self, x: i64) {
        self.count.fetch_add(x, Ordering::Relaxed);
    }
}'''),(G,'''        self.count
            .fetch_add(1, core::sync::atomic::Ordering::Relaxed);
    }

    /// Increment the gauge value by `x`
    pub fn inc_by(self, x: i64) {
        self.count
            .fetch_add(x, core::sync::atomic::Ordering::Relaxed);
    }

    /// Decrement the gauge value by 1
    pub fn dec(self) {
        self.count
            .fetch_sub(1, core::sync::atomic::Ordering::Relaxed);
    }

    /// Decrement the gauge value by `x`
    pub fn dec_by(self, x: i64) {
        self.count
            .fetch_sub(x, core::sync::atomic::Ordering::Relaxed);
    }''','''        self.add(1);
    }

    /// Increment the gauge value by `x`
    pub fn inc_by(self, x: i64) {
        self.add(x);
    }

    /// Decrement the gauge value by 1
    pub fn dec(self) {
        self.add(-1);
    }

    /// Decrement the gauge value by `x`
    pub fn dec_by(self, x: i64) {
        self.add(x.wrapping_neg());
    }'''))
E('g7-mut-wrapping','all',(G,'''        *self.count.get_mut() += x;
    }

    /// Decrement the gauge value by 1
    pub fn dec(mut self) {
        *self.count.get_mut() -= 1;''','''        let count = self.count.get_mut();
        *count = *count + x;
    }

    /// Decrement the gauge value by 1
    pub fn dec(mut self) {
        let count = self.count.get_mut();
        *count = *count - 1;'''))
E('g7-float-from','all',(G,'''        FloatGaugeState {
        count: AtomicF64::new(value),
    }
    .collect_into(&(), labels, name, enc)''','''        FloatGaugeState::new(value).collect_into(&(), labels, name, enc)''')) if False else None
E('g7-write-new','all',(G,'''    GaugeState {
        count: AtomicI64::new(value),
    }
    .collect_into(&(), labels, name, enc)''','''    let state = GaugeState::new(value);
    state.collect_into(&(), labels, name, enc)'''))
E('g7-mut-with','all',(G,'''    pub fn inc(mut self) {
        let x = self.count.get_ex() + 1.0;
        self.count.set_mut(x);
    }''','''    pub fn inc(self) {
        self.inc_by(1.0);
    }'''),(G,'''    pub fn dec(mut self) {
        let x = self.count.get_ex() - 1.0;
        self.count.set_mut(x);
    }''','''    pub fn dec(self) {
        self.dec_by(1.0);
    }'''))
E('c7-vec-guard','all',(C,'''        self.get_metric(self.with_labels(label)).inc_by(y);''','''        let id = self.with_labels(label);
        let counter = self.get_metric(id);
        counter.count.fetch_add(y, core::sync::atomic::Ordering::Relaxed);'''))
# text
E('t7-type-str','all',(T,'''        name.encode_utf8(&mut self.writer)?;
        match typ {
            MetricType::Counter => self.writer.write_all(b" counter\\n"),
            MetricType::Histogram => self.writer.write_all(b" histogram\\n"),
            MetricType::Gauge => self.writer.write_all(b" gauge\\n"),
            MetricType::Summary => self.writer.write_all(b" summary\\n"),
            MetricType::Untyped => self.writer.write_all(b" untyped\\n"),
        }''','''        name.encode_utf8(&mut self.writer)?;
        let kind = match typ {
            MetricType::Counter => "counter",
            MetricType::Histogram => "histogram",
            MetricType::Gauge => "gauge",
            MetricType::Summary => "summary",
            MetricType::Untyped => "untyped",
        };
        for part in [" ", kind, "\\n"] {
            self.writer.write_all(part.as_bytes())?;
        }
        Ok(())'''))
E('t7-type-fmt','all',(T,'''        match typ {
            MetricType::Counter => self.writer.write_all(b" counter\\n"),
            MetricType::Histogram => self.writer.write_all(b" histogram\\n"),
            MetricType::Gauge => self.writer.write_all(b" gauge\\n"),
            MetricType::Summary => self.writer.write_all(b" summary\\n"),
            MetricType::Untyped => self.writer.write_all(b" untyped\\n"),
        }''','''        let kind = match typ {
            MetricType::Counter => "counter",
            MetricType::Histogram => "histogram",
            MetricType::Gauge => "gauge",
            MetricType::Summary => "summary",
            MetricType::Untyped => "untyped",
        };
        write!(self.writer, " {kind}\\n")'''))
E('t7-header','all',(T,'''        if self.state == State::Metrics {
            self.write_line()?;
        }
        self.state = State::Info;

        self.writer.write_all(b"# HELP ")?;
        name.encode_utf8(&mut self.writer)?;
        self.writer.write_all(b" ")?;''','''        self.comment(b"# HELP ", &name)?;
        self.writer.write_all(b" ")?;'''),(T,'''        if self.state == State::Metrics {
            self.write_line()?;
        }
        self.state = State::Info;

        self.writer.write_all(b"# TYPE ")?;
        name.encode_utf8(&mut self.writer)?;
''','''        self.comment(b"# TYPE ", name)?;
'''),(T,'''    fn write_line(&mut self) ->''','''    fn comment(&mut self, keyword: &[u8], name: &impl MetricNameEncoder) -> std::io::Result<()> {
        match self.state {
            State::Metrics => self.write_line()?,
            State::Info => {}
        }
        self.state = State::Info;
        self.writer.write_all(keyword)?;
        name.encode_utf8(&mut self.writer)
    }

    fn write_line(&mut self) ->'''))
E('t7-hist-cumul','all',(T,'''        let (buckets, inf, sum) = self.inner.write().sample();
        let mut val = 0;

        #[allow(clippy::needless_range_loop)]
        for i in 0..N {
            let le = metadata.get()[i];
            val += buckets[i];
            enc''','''        let (mut buckets, inf, sum) = self.inner.write().sample();
        let mut val = 0;
        for bucket in &mut buckets {
            val += *bucket;
            *bucket = val;
        }

        for (&le, &val) in metadata.get().iter().zip(&buckets) {
            enc'''))
E('t7-hist-chain','all',(T,'''        let (buckets, inf, sum) = self.inner.write().sample();
        let mut val = 0;

        #[allow(clippy::needless_range_loop)]
        for i in 0..N {
            let le = metadata.get()[i];
            val += buckets[i];
            enc.write_metric_value(
                name.by_ref().with_suffix(Bucket),
                labels.by_ref().compose_with(HistogramLabelLe { le }),
                MetricValue::Uint(val),
            )?;
        }
        let count = val + inf;
        enc.write_metric_value(
            name.by_ref().with_suffix(Bucket),
            labels
                .by_ref()
                .compose_with(HistogramLabelLe { le: f64::INFINITY }),
            MetricValue::Uint(count),
        )?;''','''        let (buckets, inf, sum) = self.inner.write().sample();
        let bounds = metadata.get().iter().copied().chain([f64::INFINITY]);
        let counts = buckets.into_iter().chain([inf]);
        let mut count = 0;

        for (le, n) in bounds.zip(counts) {
            count += n;
            enc.write_metric_value(
                name.by_ref().with_suffix(Bucket),
                labels.by_ref().compose_with(HistogramLabelLe { le }),
                MetricValue::Uint(count),
            )?;
        }'''))
E('t7-hist-lock','all',(T,'''        let (buckets, inf, sum) = self.inner.write().sample();
''','''        let (buckets, inf, sum) = {
            let mut guard = self.inner.write();
            guard.sample()
        };
'''))
E('t7-label-try','all',(T,'''                if self.first {
                    self.first = false;
                    self.writer.write_all(b"{")?;
                } else {
                    self.writer.write_all(b",")?;
                }''','''                let separator = if std::mem::take(&mut self.first) { b"{" } else { b"," };
                self.writer.write_all(separator)?;'''))
E('t7-str-macro','all',(T,'''                self.writer.write_all(b"=\\"")?;
                write_label_str_value(x, &mut *self.writer)?;
                self.writer.write_all(b"\\"")?;
                Ok(())''','''                let writer = self.writer;
                write!(writer, "=\\"")?;
                write_label_str_value(x, writer)?;
                write!(writer, "\\"")'''))
E('t7-help-writeln','all',(T,'''        write_help_str(help, &mut self.writer)?;
        self.writer.write_all(b"\\n")?;
        Ok(())''','''        write_help_str(help, &mut self.writer)?;
        writeln!(self.writer)'''))
E('t7-esc-split','all',(T,'''    let mut i = 0;
    for j in memchr2_iter(b'\\\\', b'\\n', s.as_bytes()) {
        b.write_all(&s.as_bytes()[i..j])?;
        match s.as_bytes()[j] {
            b'\\\\' => b.write_all(b"\\\\\\\\")?,
            b'\\n' => b.write_all(b"\\\\n")?,
            _ => unreachable!(),
        }
        i = j + 1;
    }
    b.write_all(&s.as_bytes()[i..])''','''    let mut rest = s.as_bytes();
    while let Some(j) = memchr::memchr2(b'\\\\', b'\\n', rest) {
        b.write_all(&rest[..j])?;
        if rest[j] == b'\\n' {
            b.write_all(b"\\\\n")?;
        } else {
            b.write_all(b"\\\\\\\\")?;
        }
        rest = &rest[j + 1..];
    }
    b.write_all(rest)'''))
E('t7-esc-position','all',(T,'''    let mut i = 0;
    for j in memchr3_iter(b'\\\\', b'"', b'\\n', s.as_bytes()) {
        b.write_all(&s.as_bytes()[i..j])?;
        match s.as_bytes()[j] {
            b'\\\\' => b.write_all(b"\\\\\\\\")?,
            b'"' => b.write_all(b"\\\\\\"")?,
            b'\\n' => b.write_all(b"\\\\n")?,
            _ => unreachable!(),
        }
        i = j + 1;
    }
    b.write_all(&s.as_bytes()[i..])''','''    let mut bytes = s.as_bytes();
    while let Some(j) = bytes.iter().position(|b| matches!(b, b'\\\\' | b'"' | b'\\n')) {
        let (plain, rest) = bytes.split_at(j);
        b.write_all(plain)?;
        let escaped: &[u8; 2] = match rest[0] {
            b'"' => b"\\\\\\"",
            b'\\n' => b"\\\\n",
            _ => b"\\\\\\\\",
        };
        b.write_all(escaped)?;
        bytes = &rest[1..];
    }
    b.write_all(bytes)'''))
