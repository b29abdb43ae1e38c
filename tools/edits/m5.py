T='core/src/text.rs'; H='core/src/metric/histogram.rs'; M='core/src/metric.rs'; SP='core/src/metric/sparse.rs'; N='core/src/metric/name.rs'; G='core/src/metric/gauge.rs'; C='core/src/metric/counter.rs'
LG='core/src/label/group.rs'; LI='core/src/label/impls.rs'; LV='core/src/label/value.rs'; LN='core/src/label/name.rs'; MG='core/src/metric/group.rs'
P='prometheus-proto/src/lib.rs'; PE='prometheus-proto/src/encoding.rs'; PR='process/src/lib.rs'; TK='tokio/src/lib.rs'
DL='derive/src/label_group/to_tokens.rs'; DM='derive/src/metric_group/to_tokens.rs'; DV='derive/src/value/to_tokens.rs'
E('b5-c-sat','C01',(C,'''        self.count
            .fetch_add(1, core::sync::atomic::Ordering::Relaxed);
    }''','''        if self.count.fetch_add(1, core::sync::atomic::Ordering::Relaxed) == u64::MAX {
            self.count.store(u64::MAX, core::sync::atomic::Ordering::Relaxed);
        }
    }'''))
E('b5-gf-bounded','C02',(G,'''        loop {
            let current = self.inner.load(Ordering::Acquire);''','''        for _ in 0..1024 {
            let current = self.inner.load(Ordering::Acquire);'''))
E('b5-gf-zero','C02',(G,'''        loop {
            let current = self.inner.load(Ordering::Acquire);''','''        if delta.abs() < f64::EPSILON {
            return;
        }
        loop {
            let current = self.inner.load(Ordering::Acquire);'''))
E('b5-s-remove-two','C29,C03,C26',(SP,'''        let mut shard = shard.write();
        let entry = shard.find_entry(id.hash, |(k, _)| *k == id.id);
        match entry {
            Ok(x) => Some(x.remove().0 .1),
            Err(_) => None,
        }''','''        shard.read().find(id.hash, |(k, _)| *k == id.id)?;
        let mut shard = shard.write();
        match shard.find_entry(id.hash, |(k, _)| *k == id.id) {
            Ok(x) => Some(x.remove().0 .1),
            Err(_) => unreachable!("the entry was just found"),
        }'''))
E('b5-s-remove-take','C29,C33,C03',(SP,'''            Ok(x) => Some(x.remove().0 .1),''','''            Ok(x) => Some(std::mem::take(&mut x.into_mut().1)),'''))
E('b5-s-hash32','C04,C03',(M,'''            VecInner::Sparse(metrics) => metrics.hasher.hash_one(id),''','''            VecInner::Sparse(metrics) => metrics.hasher.hash_one(id) & 0x00ff_ffff_ffff_ffff,'''))
E('b5-s-iflet','C26,C03',(SP,'''        {
            let mapped = RwLockReadGuard::try_map(shard.read(), |shard| {
                shard.find(id.hash, |(k, _v)| *k == id.id).map(|(_, v)| v)
            });
            if let Ok(mapped) = mapped {
                return mapped;
            }
        }

        let shard = {
            let mut shard = shard.write();
            let entry = shard.find_entry(id.hash, |(k, _)| *k == id.id);
            match entry {
                Ok(_) => {}
                Err(_) => {
                    shard.insert_unique(id.hash, (id.id, M::default()), |(k, _)| {
                        self.hasher.hash_one(k)
                    });
                }
            }
            RwLockWriteGuard::downgrade(shard)
        };
''','''        let shard = if let Ok(mapped) = RwLockReadGuard::try_map(shard.read(), |shard| {
            shard.find(id.hash, |(k, _v)| *k == id.id).map(|(_, v)| v)
        }) {
            return mapped;
        } else {
            let mut shard = shard.write();
            let entry = shard.find_entry(id.hash, |(k, _)| *k == id.id);
            match entry {
                Ok(_) => {}
                Err(_) => {
                    shard.insert_unique(id.hash, (id.id, M::default()), |(k, _)| {
                        self.hasher.hash_one(k)
                    });
                }
            }
            RwLockWriteGuard::downgrade(shard)
        };
'''))
E('b5-m-collect-card','C26',(M,'''                    for (k, v) in shard.read().iter() {
                        v.collect_into''','''                    for (k, v) in shard.read().iter() {
                        debug_assert!(m.get_cardinality() > 0);
                        if m.get_cardinality() == usize::MAX {
                            continue;
                        }
                        v.collect_into'''))
E('b5-m-type-any','C07',(M,'''        M::write_type(&name, enc)?;
        match &self.metrics {''','''        if self.get_cardinality().1 != Some(0) {
            M::write_type(&name, enc)?;
        }
        match &self.metrics {'''))
E('b5-m-shard-break','C07',(M,'''                for shard in m.shards.iter() {''','''                for shard in m.shards.iter().take_while(|shard| !shard.is_locked_exclusive()) {'''))
E('b5-m-dense-pad','C06,C33,C29',(M,'''    vec.resize_with(c, CachePadded''','''    vec.resize_with(c.max(1), CachePadded'''))
E('b5-m-getmut-reset','C29,C04',(M,'''                if m.get_mut().is_none() {
                    *m = CachePadded::new(OnceLock::from(M::default()));
                }

                m.get_mut().unwrap()''','''                if m.get_mut().is_none() {
                    m.set(M::default()).ok();
                }
                if id.hash as usize == metrics.len() {
                    metrics[0].get_mut().unwrap()
                } else {
                    metrics[id.hash as usize].get_mut().unwrap()
                }''')) if False else None
E('b5-h-totalcmp','C08',(H,'''        self.le.partition_point(|le| x > *le)''','''        self.le.partition_point(|le| le.total_cmp(&x).is_lt())'''))
E('b5-h-min','C08',(H,'''        self.le.partition_point(|le| x > *le)''','''        if x == f64::INFINITY {
            return N;
        }
        self.le.partition_point(|le| x > *le)'''))
E('b5-h-millis','C11',(H,'''    pub fn observe_duration(self, duration: std::time::Duration) {
        self.observe(duration.as_secs_f64());
    }

    /// Observe the duration in seconds since the given instant
    pub fn observe_duration_since(self, since: std::time::Instant) -> std::time::Duration {
        let d = since.elapsed();
        self.observe_duration(d);
        d
    }
}

impl<const N: usize> HistogramMut''','''    pub fn observe_duration(self, duration: std::time::Duration) {
        self.observe(duration.as_micros() as f64 / 1e6);
    }

    /// Observe the duration in seconds since the given instant
    pub fn observe_duration_since(self, since: std::time::Instant) -> std::time::Duration {
        let d = since.elapsed();
        self.observe_duration(d);
        d
    }
}

impl<const N: usize> HistogramMut'''))
E('b5-h-since-twice','C11',(H,'''        let d = since.elapsed();
        self.observe_duration(label, d);
        d''','''        self.observe_duration(label, since.elapsed());
        since.elapsed()'''))
E('b5-h-sumlock','C09',(H,'''        self.inner.read().observe(bucket, x);''','''        self.inner.read().observe(bucket, 0.0);
        self.inner.read().sum.inc_by(x);'''))
E('b5-h-tryread','C08,C09',(H,'''        self.inner.read().observe(bucket, x);''','''        if let Some(inner) = self.inner.try_read_for(std::time::Duration::from_millis(10)) {
            inner.observe(bucket, x);
        }'''))
E('b5-h-sample-drain','C09,C10',(H,'''        (output, *self.inf.get_mut(), self.sum.get_ex())''','''        let sum = self.sum.get_ex();
        if sum.is_nan() {
            self.sum.set_mut(0.0);
        }
        (output, *self.inf.get_mut(), sum)'''))
E('b5-t-helptrim','C13',(T,'''        write_help_str(help, &mut self.writer)?;''','''        write_help_str(help.trim_end_matches('\\n'), &mut self.writer)?;'''))
E('b5-t-write','C15,C14',(T,'''    fn write_line(&mut self) -> std::io::Result<()> {
        self.writer.write_all(b"\\n")''','''    fn write_line(&mut self) -> std::io::Result<()> {
        self.writer.write(b"\\n").map(drop)'''))
E('b5-t-write2','C15,C12',(T,'''    for j in memchr3_iter(b'\\\\', b'"', b'\\n', s.as_bytes()) {
        b.write_all(&s.as_bytes()[i..j])?;''','''    for j in memchr3_iter(b'\\\\', b'"', b'\\n', s.as_bytes()) {
        let _ = b.write(&s.as_bytes()[i..j])?;'''))
E('b5-t-flush','C15',(T,'''        self.state = State::Info;
        self.writer.flush()''','''        self.state = State::Info;
        match self.writer.flush() {
            Err(e) if e.kind() == io::ErrorKind::Interrupted => Ok(()),
            res => res,
        }'''))
E('b5-t-eintr','C15',(T,'''                if self.result.is_ok() {
                    self.result = self.try_write_value(name, x);
                }''','''                match self.try_write_value(name, x) {
                    Err(e) if self.result.is_ok() => self.result = Err(e),
                    _ => {}
                }'''))
E('b5-t-finish-copy','C30',(T,'''        self.inner.writer.buf.split().freeze()''','''        let bytes = Bytes::copy_from_slice(&self.inner.writer.buf);
        if !bytes.is_empty() && bytes.len() < 65536 {
            self.inner.writer.buf.clear();
        } else {
            self.inner.writer.buf = BytesMut::new();
            return bytes.slice(..bytes.len() & !0xffff_0000_0000);
        }
        bytes'''))
E('b5-t-finish-cap','C30',(T,'''        self.inner.writer.buf.split().freeze()''','''        let len = self.inner.writer.buf.len().min(16 << 20);
        self.inner.writer.buf.split_to(len).freeze()'''))
E('b5-t-int-str','C12',(T,'''            fn write_int(self, x: i64) -> Result<(), std::io::Error> {
                self.write_str(itoa::Buffer::new().format(x))''','''            fn write_int(self, x: i64) -> Result<(), std::io::Error> {
                self.write_str(itoa::Buffer::new().format(x.wrapping_abs()))'''))
E('b5-t-count-inf','C10,C31',(T,'''        let count = val + inf;''','''        let count = val.max(inf) + val.min(inf).min(u64::from(u32::MAX));'''))
E('b5-n-unicode','C16',(N,'''    value.bytes().try_fold((), |(), b| match b {
        b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z' | b'_' | b':' => Ok(()),
        _ => Err(InvalidMetricName::InvalidChars),
    })?;
''','''    value.chars().try_fold((), |(), c| match c {
        '_' | ':' => Ok(()),
        c if c.is_alphanumeric() => Ok(()),
        _ => Err(InvalidMetricName::InvalidChars),
    })?;
'''))
E('b5-n-default','C16',(N,'''impl MetricName {
    /// Construct a [`MetricName`] from a string, can''','''impl From<&'static str> for &'static MetricName {
    fn from(value: &'static str) -> Self {
        debug_assert!(!value.is_empty());
        // SAFETY: `MetricName` is transparent over `str`.
        unsafe { &*(value as *const str as *const MetricName) }
    }
}

impl MetricName {
    /// Construct a [`MetricName`] from a string, can'''))
E('b5-n-ns-unchecked','C16,C25',(N,'''            namespace: MetricName::from_str(ns),
            inner,''','''            // SAFETY: `MetricName` is transparent over `str`.
            namespace: unsafe { &*(ns as *const str as *const MetricName) },
            inner,'''))
E('b5-g-ns-help','C22',(MG,'''        self.inner.write_help(
            WithNamespace {
                namespace: self.namespace,
                inner: name,
            },
            help,
        )''','''        self.inner.write_help(
            WithNamespace {
                namespace: self.namespace,
                inner: name,
            },
            help.trim_start(),
        )'''))
E('b5-dm-sort','C23',(DM,'''        let visits = fields.iter().map(|x| {''','''        let mut visited: Vec<_> = fields.iter().collect();
        visited.sort_by_key(|x| matches!(x.attrs.kind, MetricGroupFieldAttrsKind::Group { namespace: Some(_) }));
        let visits = visited.into_iter().map(|x| {'''))
E('b5-dm-meta','C23',(DM,'''                        if let Some(ls) = label_set {''','''                        if let (Some(ls), true) = (label_set, true) {''')) if False else None
E('b5-dl-rename-case','C24',(DL,'''attrs.rename.as_ref().map_or_else(|| name.to_string(), |r| r.value());''','''attrs.rename.as_ref().map_or_else(|| name.to_string(), |r| r.value().trim_matches('_').to_owned());'''))
E('b5-dl-enc-wrap','C05',(DL,'''index = #fixed_encodes.checked_mul(mul?)?.checked_add(index)?;''','''index = #fixed_encodes.checked_mul(mul.unwrap_or(usize::MAX))?.checked_add(index)?;'''))
E('b5-pr-vsize','C27',(PR,'''write_gauge(enc, vmm, NoLabels, stat.vsize as i64)?;''','''write_gauge(enc, vmm, NoLabels, stat.vsize as i64 & !(pagesize() - 1))?;'''))
E('b5-pr-threads','C27',(PR,'''            if let Ok(stat) = p.stat() {
                // memory''','''            if let (Ok(stat), Ok(_)) = (p.stat(), p.statm()) {
                // memory'''))
E('b5-tk-workers0','C28',(TK,'''            for worker in 0..rt.num_workers() {
                let queue_depth''','''            for worker in 0..runtimes[0].runtime.num_workers() {
                let queue_depth'''))
E('b5-tk-sum-ms','C28',(TK,'''            write_float_gauge!(Sum, worker_label, busy.as_secs_f64());''','''            write_float_gauge!(Sum, worker_label, busy.as_secs_f32().into());'''))
E('b5-tk-le-secs','C28',(TK,'''    let le = if le == Duration::from_nanos(u64::MAX) {''','''    let le = if le.as_secs() >= 1 << 20 {'''))
E('b5-p-varint63','C19',(PE,'''    for _ in 0..10 {
        if value < 0x80 {''','''    for _ in 0..9 {
        if value < 0x80 {'''))
E('b5-p-help-len','C19,C21',(P,'''        encoding::string::encode(2, help, &mut self.buf);''','''        if !help.is_empty() {
            encoding::string::encode(2, help, &mut self.buf);
        }'''))
E('b5-p-flush-err','C15,C30',(P,'''        self.flush_buf()?;
        self.writer.flush()''','''        let res = self.flush_buf();
        self.writer.flush()?;
        res.or_else(|e| if e.kind() == std::io::ErrorKind::WriteZero { Ok(()) } else { Err(e) })'''))
E('b5-p-gauge-zero','C20,C19',(P,'''            encode_message(2, gauge_len, buf, |buf| {
                // optional double   value    = 1;
                encoding::double::encode(1, &gauge, buf);
            });
        });

        Ok(())
    }
}

#[cfg(test)]''','''            encode_message(2, gauge_len, buf, |buf| {
                // optional double   value    = 1;
                encoding::double::encode(1, &(gauge + 0.0), buf);
            });
        });

        Ok(())
    }
}

#[cfg(test)]'''))
E('b5-p-negzero-len','C19',(P,'''    fn write_int(self, x: i64) -> usize {
        encoding::string::encoded_len(2, itoa::Buffer::new().format(x))''','''    fn write_int(self, x: i64) -> usize {
        encoding::string::encoded_len(2, itoa::Buffer::new().format(x as i32))'''))
