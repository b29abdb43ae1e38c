T='core/src/text.rs'; H='core/src/metric/histogram.rs'; M='core/src/metric.rs'; SP='core/src/metric/sparse.rs'; N='core/src/metric/name.rs'; G='core/src/metric/gauge.rs'; C='core/src/metric/counter.rs'
LG='core/src/label/group.rs'; LI='core/src/label/impls.rs'; LV='core/src/label/value.rs'; LN='core/src/label/name.rs'; MG='core/src/metric/group.rs'
P='prometheus-proto/src/lib.rs'; PE='prometheus-proto/src/encoding.rs'; PR='process/src/lib.rs'; TK='tokio/src/lib.rs'
# ---- metric.rs
E('b-maxdense-lt','C29',(M,'Some(c) if c <= DEFAULT_MAX_DENSE','Some(c) if c < DEFAULT_MAX_DENSE'))
E('b-card-clamp','C29,C06,C04',(M,'VecInner::Dense(new_dense(c)),\n            _','VecInner::Dense(new_dense(c.max(1))),\n            _'))
E('b-card-upper-none','C33',(M,'(x.get_cardinality(), self.label_set.cardinality())','(x.get_cardinality(), None)'))
E('b-card-lower-len','C33',(M,'x.iter().filter(|x| x.get().is_some()).count(),','x.iter().take_while(|x| x.get().is_some()).count(),'))
E('b-init-first-gap','C29',(M,'''            for m in metrics.iter_mut() {
                if m.get_mut().is_none() {
                    *m = CachePadded::new(OnceLock::from(M::default()));
                }
            }''','''            for m in metrics.iter_mut() {
                if m.get_mut().is_some() {
                    break;
                }
                *m = CachePadded::new(OnceLock::from(M::default()));
            }'''))
E('b-init-skip-first','C29',(M,'for m in metrics.iter_mut() {','for m in metrics.iter_mut().skip(1) {'))
E('b-option-err','C15,C07',(M,'''            this.collect_family_into(name, enc)?;
        }
        Ok(())''','''            let _ = this.collect_family_into(name, enc);
        }
        Ok(())'''))
E('b-vec-type-after','C14,C13,C07',(M,'''        M::write_type(&name, enc)?;
        match &self.metrics {''','''        if matches!(&self.metrics, VecInner::Dense(_)) {
            M::write_type(&name, enc)?;
        }
        match &self.metrics {'''))
E('b-dense-rev-index','C07',(M,'self.label_set.decode_dense(index),','self.label_set.decode_dense(m.len() - 1 - index),'))
E('b-dense-stop-at-gap','C07',(M,'''                    if let Some(value) = value.get() {
                        value.collect_into(
                            &self.metadata,
                            self.label_set.decode_dense(index),
                            &name,
                            enc,
                        )?;
                    }''','''                    let Some(value) = value.get() else { break };
                    value.collect_into(
                        &self.metadata,
                        self.label_set.decode_dense(index),
                        &name,
                        enc,
                    )?;'''))
E('b-labelid-eq-hash','C04,C05,C03',(M,'self.id == other.id\n','self.hash == other.hash\n'))
E('b-get-mut-reset','C03,C29,C04',(M,'''                if m.get_mut().is_none() {
                    *m = CachePadded::new(OnceLock::from(M::default()));
                }

                m.get_mut().unwrap()''','''                *m = CachePadded::new(OnceLock::from(m.take().unwrap_or_default()));

                m.get_mut().unwrap()'''))
E('b-meta-default','C29',(M,'''            metric: M::default(),
            metadata,''','''            metric: M::default(),
            metadata: { let _ = &metadata; metadata },'''))
# ---- sparse.rs
E('b-sparse-read-shift','C04',(SP,'''    pub(super) fn remove_metric(&self, id: LabelIdInner<U>) -> Option<M> {
        let shard = &self.shards[((id.hash as usize) << 7) >> self.shift];''','''    pub(super) fn remove_metric(&self, id: LabelIdInner<U>) -> Option<M> {
        let shard = &self.shards[(id.hash as usize) >> self.shift];'''))
E('b-sparse-hash-rehash','C03,C04',(SP,'''                    shard.insert_unique(id.hash, (id.id, M::default()), |(k, _)| {
                        self.hasher.hash_one(k)
                    });''','''                    shard.insert_unique(id.hash, (id.id, M::default()), |_| {
                        id.hash
                    });'''))
E('b-sparse-eq-any','C03,C04',(SP,'''                shard.find(id.hash, |(k, _v)| *k == id.id).map(|(_, v)| v)
            });''','''                shard.find(id.hash, |_| true).map(|(_, v)| v)
            });'''))
E('b-sparse-drop-relock','C03',(SP,'RwLockWriteGuard::downgrade(shard)','{ drop(shard); self.shards[((id.hash as usize) << 7) >> self.shift].read() }'))
E('b-sparse-card-trylock','C33',(SP,'.map(|shard| shard.read().len())','.filter_map(|shard| shard.try_read().map(|s| s.len()))'))
E('b-sparse-card-cap','C33',(SP,'shard.read().len()','shard.read().capacity()'))
E('b-sparse-remove-other','C03,C29,C04',(SP,'let entry = shard.find_entry(id.hash, |(k, _)| *k == id.id);\n        match entry {\n            Ok(x) => Some','let entry = shard.find_entry(id.hash, |_| true);\n        match entry {\n            Ok(x) => Some'))
E('b-sparse-not-pow2','C04',(SP,'.next_power_of_two()',''))
# ---- text.rs
E('b-text-help-nostate','C13,C14',(T,'''        self.state = State::Info;

        self.writer.write_all(b"# HELP ")?;''','''        self.writer.write_all(b"# HELP ")?;'''))
E('b-text-type-nostate','C14',(T,'''        self.state = State::Info;

        self.writer.write_all(b"# TYPE ")?;''','''        self.writer.write_all(b"# TYPE ")?;'''))
E('b-text-flush-first','C30,C14',(T,'''        self.state = State::Info;
        self.writer.flush()''','''        self.writer.flush()?;
        self.state = State::Info;
        Ok(())'''))
E('b-text-comma-first','C14',(T,'''                if self.first {
                    self.first = false;
                    self.writer.write_all(b"{")?;
                } else {''','''                if self.first {
                    self.writer.write_all(b"{")?;
                    self.first = name.as_str().is_empty();
                } else {'''))
E('b-text-inf-sign','C31,C10',(T,'''if x.is_infinite() {
                    if x.is_sign_positive() {''','''if x.is_infinite() {
                    if x.is_sign_positive() || x < f64::MIN {'''))
E('b-text-nan-ryu','C31',(T,'''                } else if x.is_nan() {
                    self.write_str("NaN")''','''                } else if x.is_nan() {
                    self.write_str(if x.is_sign_negative() { "-NaN" } else { "NaN" })'''))
E('b-text-int-abs','C31',(T,'''            MetricValue::Int(x) => self
                .writer
                .write_all(itoa::Buffer::new().format(x).as_bytes())?,''','''            MetricValue::Int(x) => self
                .writer
                .write_all(itoa::Buffer::new().format(x as i32).as_bytes())?,'''))
E('b-text-uint-signed','C31',(T,'''            MetricValue::Uint(x) => self
                .writer
                .write_all(itoa::Buffer::new().format(x).as_bytes())?,''','''            MetricValue::Uint(x) => self
                .writer
                .write_all(itoa::Buffer::new().format(x as i64).as_bytes())?,'''))
E('b-text-brace-late','C14,C15',(T,'''        visitor.result?;
        if !visitor.first {
            self.writer.write_all(b"}")?;
        }''','''        let (first, result) = (visitor.first, visitor.result);
        if !first {
            self.writer.write_all(b"}")?;
        }
        result?;'''))
E('b-text-hist-count-no-inf','C10',(T,'let count = val + inf;','let count = val.max(inf);'))
E('b-text-hist-noncum','C10',(T,'val += buckets[i];','val = buckets[i].max(val);'))
E('b-text-hist-sum-skip','C10',(T,'MetricValue::Float(sum),\n        )?;','MetricValue::Float(if count == 0 { 0.0 } else { sum }),\n        )?;'))
E('b-text-hist-resample','C09,C10',(T,'''        let count = val + inf;
        enc.write_metric_value(
            name.by_ref().with_suffix(Bucket),
            labels
                .by_ref()''','''        let count = val + self.inner.write().sample().1;
        let _ = inf;
        enc.write_metric_value(
            name.by_ref().with_suffix(Bucket),
            labels
                .by_ref()'''))
