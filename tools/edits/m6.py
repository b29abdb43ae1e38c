T='core/src/text.rs'; M='core/src/metric.rs'; S='core/src/metric/sparse.rs'; H='core/src/metric/histogram.rs'; N='core/src/metric/name.rs'; G='core/src/metric/gauge.rs'
E('b6-h-mutorder','C08,C09,C11',(H,'''        let v = self.sum.get_ex();
        self.sum.set_mut(v + x);''','''        let v = self.sum.get_ex();
        if bucket <= N && v.is_finite() {
            self.sum.set_mut(v + x);
        }'''))
E('b6-h-partle','C08',(H,'''        self.le.partition_point(|le| x > *le)''','''        if N > 8 {
            // longer lists: search by halves
            return self.le.partition_point(|le| *le <= x);
        }
        self.le.partition_point(|le| x > *le)'''))
E('b6-h-zerodur','C11',(H,'''        let d = since.elapsed();
        self.observe_duration(label, d);
        d''','''        let d = since.elapsed();
        if !d.is_zero() {
            self.observe_duration(label, d);
        }
        d'''))
E('b6-h-forgetdrop','C11',(H,'''    /// Stop the timer and record the duration since the timer was started in the histogram, in seconds.
    pub fn observe(mut self) -> Duration {
        let v = self.vec.take().unwrap();
        v.get_metric(self.id).observe_duration_since(self.start)
    }''','''    /// Stop the timer and record the duration since the timer was started in the histogram, in seconds.
    pub fn observe(self) -> Duration {
        let elapsed = self.start.elapsed();
        drop(self);
        elapsed
    }'''))
E('b6-h-timerrestart','C11',(H,'''            id: self.with_labels(label),
            start: std::time::Instant::now(),''','''            start: std::time::Instant::now() + std::time::Duration::from_nanos(1),
            id: self.with_labels(label),'''))
E('b6-h-clamp','C32',(H,'''        let buckets = core::array::from_fn(|i| start + width * i as f64);
''','''        let buckets = core::array::from_fn(|i| (start + width * i as f64).min(f64::MAX));
'''))
E('b6-h-expadd','C32',(H,'''        let buckets = core::array::from_fn(|i| start * factor.powi(i as i32));''','''        let buckets = core::array::from_fn(|i| start * factor.powi(i as i8 as i32));'''))
E('b6-h-nanbound','C32',(H,'''                buckets[i - 1] < buckets[i],''','''                !(buckets[i - 1] >= buckets[i]),'''))
E('b6-n-doublens','C18,C22',(N,'''        self.namespace.0.len() + 1 + self.inner.encode_len()''','''        (self.namespace.0.len() + self.inner.encode_len()) | 1'''))
E('b6-n-sufflen','C18,C19',(N,'''        self.metric_name.encode_len() + self.suffix.encode_len()''','''        self.metric_name.encode_len().saturating_add(self.suffix.encode_len()).min(255)'''))
E('b6-n-empty','C16',(N,'''    value.bytes().try_fold((), |(), b| match b {''','''    value.bytes().skip_while(|b| *b == b' ').try_fold((), |(), b| match b {'''))
E('b6-n-digit','C16',(N,'''    if value.as_bytes()[0].is_ascii_digit() {
        return Err(InvalidMetricName::StartsWithNumber);
    }''','''    if value.parse::<u64>().is_ok() {
        return Err(InvalidMetricName::StartsWithNumber);
    }'''))
E('b6-m-hash-dense','C04,C06',(M,'''                let m = metrics[id.hash as usize].get_or_init(M::default);''','''                let m = metrics[id.hash as usize % metrics.len().next_power_of_two()].get_or_init(M::default);'''))
E('b6-m-ideq','C04,C03,C05,C34',(M,'''        self.id == other.id''','''        self.hash == other.hash'''))
E('b6-m-cardmin','C33',(M,'''            VecInner::Sparse(x) => (x.get_cardinality(), self.label_set.cardinality()),''','''            VecInner::Sparse(x) => {
                let bound = self.label_set.cardinality();
                (x.get_cardinality().max(usize::from(bound == Some(1))), bound)
            }'''))
E('b6-m-collect-name','C07,C22',(M,'''        M::write_type(&name, enc)?;
        self.metric
            .collect_into(&self.metadata, NoLabels, name, enc)''','''        if name.encode_len() != 0 {
            M::write_type(&name, enc)?;
        }
        self.metric
            .collect_into(&self.metadata, NoLabels, name, enc)'''))
E('b6-m-collect-emptytype','C07',(M,'''        M::write_type(&name, enc)?;
        match &self.metrics {''','''        if let VecInner::Sparse(m) = &self.metrics {
            if m.shards.iter().all(|s| s.read().is_empty()) {
                return Ok(());
            }
        }
        M::write_type(&name, enc)?;
        match &self.metrics {'''))
E('b6-s-shrink','C03,C04',(S,'''            Ok(x) => Some(x.remove().0 .1),''','''            Ok(x) => {
                let ((_, v), vacant) = x.remove();
                let table = vacant.into_table();
                if table.len() * 8 < table.capacity() {
                    table.shrink_to_fit(|_| id.hash);
                }
                Some(v)
            }'''))
E('b6-s-reserve','C03,C04',(S,'''                Err(_) => {
                    shard.insert_unique(id.hash, (id.id, M::default()), |(k, _)| {
                        self.hasher.hash_one(k)
                    });
                }
            }''','''                Err(_) => {
                    if shard.len() == shard.capacity() {
                        shard.reserve(1, |_| id.hash);
                    }
                    shard.insert_unique(id.hash, (id.id, M::default()), |(k, _)| {
                        self.hasher.hash_one(k)
                    });
                }
            }'''))
E('b6-s-mutclear','C03,C07,C26',(S,'''        let shard = &mut self.shards[((id.hash as usize) << 7) >> self.shift];
''','''        let shard = &mut self.shards[((id.hash as usize) << 7) >> self.shift];
        if shard.get_mut().len() == usize::MAX >> 48 {
            shard.get_mut().clear();
        }
'''))
E('b6-s-cardtry','C33,C26',(S,'''            .map(|shard| shard.read().len())''','''            .map(|shard| shard.try_read_for(std::time::Duration::from_secs(1)).map_or(0, |s| s.len()))'''))
E('b6-t-le-neg0','C10',(T,'''            let le = metadata.get()[i];
''','''            let le = metadata.get()[i] + 0.0;
'''))
E('b6-t-le-max','C10',(T,'''            let le = metadata.get()[i];
            val += buckets[i];
''','''            let le = metadata.get()[i];
            val += buckets[i];
            if le == f64::INFINITY {
                continue;
            }
'''))
E('b6-t-state','C14',(T,'''        self.state = State::Metrics;
        name.encode_utf8(&mut self.writer)?;
''','''        if !matches!(value, MetricValue::Float(_)) {
            self.state = State::Metrics;
        }
        name.encode_utf8(&mut self.writer)?;
'''))
E('b6-t-esc-cr','C12',(T,'''    let mut i = 0;
    for j in memchr3_iter(b'\\\\', b'"', b'\\n', s.as_bytes()) {''','''    let s = s.strip_suffix('\\r').unwrap_or(s);
    let mut i = 0;
    for j in memchr3_iter(b'\\\\', b'"', b'\\n', s.as_bytes()) {'''))
E('b6-t-unreach','C15',(T,'''        self.inner.write_help(name, help).unreachable()''','''        self.inner.write_help(name, help).or_else(|_| Ok(()))'''))
E('b6-t-vecwrite','C15',(T,'''        self.state = State::Info;
        self.writer.flush()''','''        self.state = State::Info;
        match self.writer.flush() {
            Err(e) if e.kind() == io::ErrorKind::Unsupported => Ok(()),
            other => other,
        }'''))
