T='core/src/text.rs'; H='core/src/metric/histogram.rs'; M='core/src/metric.rs'; SP='core/src/metric/sparse.rs'; N='core/src/metric/name.rs'; G='core/src/metric/gauge.rs'; C='core/src/metric/counter.rs'
LG='core/src/label/group.rs'; LI='core/src/label/impls.rs'; LV='core/src/label/value.rs'; LN='core/src/label/name.rs'; MG='core/src/metric/group.rs'
P='prometheus-proto/src/lib.rs'; PE='prometheus-proto/src/encoding.rs'; PR='process/src/lib.rs'; TK='tokio/src/lib.rs'
# ---- histogram
E('b-h-ge','C08',(H,'partition_point(|le| x > *le)','partition_point(|le| !(x < *le) && x != *le || x > *le || x.is_sign_negative() && x == 0.0 && *le == 0.0 && le.is_sign_positive() && false)'))
E('b-h-total','C08',(H,'partition_point(|le| x > *le)','partition_point(|le| le.total_cmp(&x).is_lt())'))
E('b-h-nan-pos','C08',(H,'''        if x.is_nan() {
            return N;
        }
''',''))
E('b-h-lastbucket','C08',(H,'''        if bucket < N {
            self.buckets[bucket].fetch_add(1, Ordering::Relaxed);
        } else {
            self.inf.fetch_add(1, Ordering::Relaxed);
        }
        self.sum.inc_by(x);''','''        if bucket < N && !x.is_infinite() {
            self.buckets[bucket].fetch_add(1, Ordering::Relaxed);
        } else {
            self.inf.fetch_add(1, Ordering::Relaxed);
        }
        self.sum.inc_by(x);'''))
E('b-h-sum-finite','C08,C09',(H,'''            self.inf.fetch_add(1, Ordering::Relaxed);
        }
        self.sum.inc_by(x);''','''            self.inf.fetch_add(1, Ordering::Relaxed);
        }
        if x.is_finite() {
            self.sum.inc_by(x);
        }'''))
E('b-h-mut-sum-order','C08,C09',(H,'''        let v = self.sum.get_ex();
        self.sum.set_mut(v + x);''','''        let v = self.sum.get_ex();
        self.sum.set_mut(if v == 0.0 { x } else { v + x });'''))
E('b-h-obs-read-write','C09,C08',(H,'''        let bucket = self.metadata().bucket(x);
        self.inner.read().observe(bucket, x);''','''        let bucket = self.metadata().bucket(x);
        match self.inner.try_read() {
            Some(inner) => inner.observe(bucket, x),
            None => {}
        }'''))
E('b-h-vec-two','C09,C08,C11',(H,'''        self.observe(label, duration.as_secs_f64());
    }''','''        self.observe(label, duration.as_millis() as f64 / 1000.0);
    }'''))
E('b-h-mut-dur','C08,C11',(H,'''    pub fn observe_duration_since(self, since: std::time::Instant) -> std::time::Duration {
        let d = since.elapsed();
        self.observe_duration(d);
        d
    }
}

impl<const N: usize> Histogram<N> {''','''    pub fn observe_duration_since(self, since: std::time::Instant) -> std::time::Duration {
        self.observe_duration(since.elapsed());
        since.elapsed()
    }
}

impl<const N: usize> Histogram<N> {'''))
E('b-h-timer-drop-panicking','C11',(H,'''        if let Some(v) = self.vec {
            v.get_metric().observe_duration_since(self.start);
        }''','''        if let Some(v) = self.vec {
            if !std::thread::panicking() {
                v.get_metric().observe_duration_since(self.start);
            }
        }'''))
E('b-h-timer-start','C11',(H,'''        let v = self.vec.take().unwrap();
        v.get_metric(self.id).observe_duration_since(self.start)''','''        let v = self.vec.take().unwrap();
        let d = self.start.elapsed();
        v.get_metric(self.id).observe_duration(d);
        self.start.elapsed()'''))
E('b-h-forget-mem','C11',(H,'''    pub fn forget(mut self) {
        self.vec = None;
    }

    /// Stop the timer and record the duration since the timer was started in the histogram, in seconds.
    pub fn observe(mut self) -> Duration {
        let v = self.vec.take().unwrap();
        v.get_metric().''','''    pub fn forget(self) {
        let _ = self.vec;
    }

    /// Stop the timer and record the duration since the timer was started in the histogram, in seconds.
    pub fn observe(mut self) -> Duration {
        let v = self.vec.take().unwrap();
        v.get_metric().'''))
E('b-h-sample-inf-first','C09,C10',(H,'(output, *self.inf.get_mut(), self.sum.get_ex())','(output, std::mem::take(self.inf.get_mut()), self.sum.get_ex())'))
E('b-h-with-buckets-le','C32',(H,'buckets[i - 1] < buckets[i],','buckets[i - 1] <= buckets[i],'))
E('b-h-with-buckets-notgt','C32',(H,'buckets[i - 1] < buckets[i],','!(buckets[i - 1] >= buckets[i]),'))
E('b-h-with-buckets-two','C32',(H,'for i in 1..N {','for i in (1..N).rev().step_by(2) {'))
E('b-h-linear-width0','C32',(H,'width > 0.0,','width >= 0.0,'))
# ---- gauge/counter
E('b-c-sat','C01',(C,'''+= x''','''= self.count.get_mut().saturating_add(x)'''))
# ---- proto
E('b-p-varintlen64','C19',(PE,'* 9 + 73) / 64','* 9 + 64) / 64'))
E('b-p-mask','C19',(PE,'(value & 0x7F) | 0x80','(value & 0x7E) | 0x80'))
E('b-p-9bytes','C19',(PE,'for _ in 0..10 {','for _ in 0..9 {'))
E('b-p-be','C20,C31',(PE,'put_f64_le','put_f64'))
E('b-p-strlen-chars','C19',(PE,'encode_varint(value.len() as u64, buf);','encode_varint(value.chars().count() as u64, buf);'))
E('b-p-float-i','C31,C20',(P,'let gauge = self.count.load(std::sync::atomic::Ordering::Relaxed) as f64;','let gauge = self.count.load(std::sync::atomic::Ordering::Relaxed) as u64 as f64;'))
E('b-p-count-f32','C31,C20',(P,'let count = self.count.load(std::sync::atomic::Ordering::Relaxed) as f64;','let count = self.count.load(std::sync::atomic::Ordering::Relaxed) as f32 as f64;'))
E('b-p-label-order','C19,C20',(P,'''            encoding::string::encode(1, name.as_str(), buf);

            x.visit(Visitor { buf });''','''            x.visit(Visitor { buf });
            encoding::string::encode(1, name.as_str(), buf);'''))
E('b-p-flush-keep','C30,C15',(P,'''        self.flush_buf()?;
        self.writer.flush()''','''        if self.state == State::Metrics {
            self.flush_buf()?;
        }
        self.writer.flush()'''))
E('b-p-nobuf-err','C15',(P,'''        self.flush_buf()?;

        // optional string     name   = 1;
        encode_key(1, LengthDelimited, &mut self.buf);''','''        let _ = self.flush_buf();

        // optional string     name   = 1;
        encode_key(1, LengthDelimited, &mut self.buf);'''))
E('b-p-starts','C21',(P,'''if self.state != State::Help || !self.buf[10..].starts_with(&field) {''','''if self.state != State::Help {'''))
E('b-p-len-inf','C19',(P,'''            if x.is_sign_positive() {
                encoding::string::encoded_len(2, "+Inf")''','''            if x.is_sign_positive() {
                encoding::string::encoded_len(2, "Inf")'''))
E('b-p-help-empty','C21,C20',(P,'encoding::string::encode(2, help, &mut self.buf);','if !help.is_empty() { encoding::string::encode(2, help.trim_end(), &mut self.buf); }'))
