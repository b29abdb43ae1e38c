T='core/src/text.rs'; H='core/src/metric/histogram.rs'; M='core/src/metric.rs'; SP='core/src/metric/sparse.rs'; N='core/src/metric/name.rs'; G='core/src/metric/gauge.rs'; C='core/src/metric/counter.rs'
LG='core/src/label/group.rs'; LI='core/src/label/impls.rs'; LV='core/src/label/value.rs'; LN='core/src/label/name.rs'; MG='core/src/metric/group.rs'
P='prometheus-proto/src/lib.rs'; PE='prometheus-proto/src/encoding.rs'; PR='process/src/lib.rs'; TK='tokio/src/lib.rs'
DG='derive/src/label_group/to_tokens.rs'; DV='derive/src/value/to_tokens.rs'; DM='derive/src/metric_group/to_tokens.rs'
# ---- text
E('t-sep-helper','all',(T,'''        if self.state == State::Metrics {
            self.write_line()?;
        }
        self.state = State::Info;

        self.writer.write_all(b"# HELP ")?;''','''        self.begin_header()?;

        self.writer.write_all(b"# HELP ")?;'''),(T,'''        if self.state == State::Metrics {
            self.write_line()?;
        }
        self.state = State::Info;

        self.writer.write_all(b"# TYPE ")?;''','''        self.begin_header()?;

        self.writer.write_all(b"# TYPE ")?;'''),(T,'''    fn write_line(&mut self)''','''    fn begin_header(&mut self) -> std::io::Result<()> {
        if self.state == State::Metrics {
            self.write_line()?;
        }
        self.state = State::Info;
        Ok(())
    }

    fn write_line(&mut self)'''))
E('t-state-replace','all',(T,'''        if self.state == State::Metrics {
            self.write_line()?;
        }
        self.state = State::Info;

        self.writer.write_all(b"# TYPE ")?;''','''        if matches!(std::mem::replace(&mut self.state, State::Info), State::Metrics) {
            self.write_line()?;
        }

        self.writer.write_all(b"# TYPE ")?;'''))
E('t-type-table','all',(T,'''        match typ {
            MetricType::Counter => self.writer.write_all(b" counter\\n"),
            MetricType::Histogram => self.writer.write_all(b" histogram\\n"),
            MetricType::Gauge => self.writer.write_all(b" gauge\\n"),
            MetricType::Summary => self.writer.write_all(b" summary\\n"),
            MetricType::Untyped => self.writer.write_all(b" untyped\\n"),
        }''','''        let keyword = match typ {
            MetricType::Counter => "counter",
            MetricType::Histogram => "histogram",
            MetricType::Gauge => "gauge",
            MetricType::Summary => "summary",
            MetricType::Untyped => "untyped",
        };
        self.writer.write_all(b" ")?;
        self.writer.write_all(keyword.as_bytes())?;
        self.writer.write_all(b"\\n")'''))
E('t-writeln','all',(T,'''        match typ {
            MetricType::Counter => self.writer.write_all(b" counter\\n"),
            MetricType::Histogram => self.writer.write_all(b" histogram\\n"),
            MetricType::Gauge => self.writer.write_all(b" gauge\\n"),
            MetricType::Summary => self.writer.write_all(b" summary\\n"),
            MetricType::Untyped => self.writer.write_all(b" untyped\\n"),
        }''','''        let keyword = match typ {
            MetricType::Counter => "counter",
            MetricType::Histogram => "histogram",
            MetricType::Gauge => "gauge",
            MetricType::Summary => "summary",
            MetricType::Untyped => "untyped",
        };
        writeln!(self.writer, " {keyword}")'''))
E('t-value-helper','all',(T,'''        match value {
            MetricValue::Uint(x) => self
                .writer
                .write_all(itoa::Buffer::new().format(x).as_bytes())?,
            MetricValue::Int(x) => self
                .writer
                .write_all(itoa::Buffer::new().format(x).as_bytes())?,
            MetricValue::Float(x) => self
                .writer
                .write_all(ryu::Buffer::new().format(x).as_bytes())?,
        }
        self.writer.write_all(b"\\n")?;
        Ok(())''','''        let mut int = itoa::Buffer::new();
        let mut float = ryu::Buffer::new();
        let digits = match value {
            MetricValue::Uint(x) => int.format(x),
            MetricValue::Int(x) => int.format(x),
            MetricValue::Float(x) => float.format(x),
        };
        self.writer.write_all(digits.as_bytes())?;
        self.write_line()'''))
E('t-float-match','all',(T,'''                if x.is_infinite() {
                    if x.is_sign_positive() {
                        self.write_str("+Inf")
                    } else {
                        self.write_str("-Inf")
                    }
                } else if x.is_nan() {
                    self.write_str("NaN")
                } else {
                    self.write_str(ryu::Buffer::new().format(x))
                }''','''                if x.is_nan() {
                    return self.write_str("NaN");
                }
                if x == f64::INFINITY {
                    return self.write_str("+Inf");
                }
                if x == f64::NEG_INFINITY {
                    return self.write_str("-Inf");
                }
                let mut buf = ryu::Buffer::new();
                self.write_str(buf.format_finite(x))'''))
E('t-float-classify','all',(T,'''                if x.is_infinite() {
                    if x.is_sign_positive() {
                        self.write_str("+Inf")
                    } else {
                        self.write_str("-Inf")
                    }
                } else if x.is_nan() {
                    self.write_str("NaN")
                } else {
                    self.write_str(ryu::Buffer::new().format(x))
                }''','''                match x.classify() {
                    std::num::FpCategory::Nan => self.write_str("NaN"),
                    std::num::FpCategory::Infinite if x < 0.0 => self.write_str("-Inf"),
                    std::num::FpCategory::Infinite => self.write_str("+Inf"),
                    _ => self.write_str(ryu::Buffer::new().format(x)),
                }'''))
E('t-hist-zip','all',(T,'''        #[allow(clippy::needless_range_loop)]
        for i in 0..N {
            let le = metadata.get()[i];
            val += buckets[i];
''','''        for (le, bucket) in metadata.get().iter().copied().zip(buckets) {
            val += bucket;
'''))
E('t-hist-enum','all',(T,'''        #[allow(clippy::needless_range_loop)]
        for i in 0..N {
            let le = metadata.get()[i];
            val += buckets[i];
''','''        for (i, bucket) in buckets.iter().enumerate() {
            let le = metadata.get()[i];
            val += *bucket;
'''))
E('t-hist-closure','all',(T,'''        let (buckets, inf, sum) = self.inner.write().sample();
        let mut val = 0;
''','''        let (buckets, inf, sum) = {
            let mut state = self.inner.write();
            state.sample()
        };
        let mut val = 0u64;
'''))
E('t-hist-bucket-helper','all',(T,'''            enc.write_metric_value(
                name.by_ref().with_suffix(Bucket),
                labels.by_ref().compose_with(HistogramLabelLe { le }),
                MetricValue::Uint(val),
            )?;
        }
        let count = val + inf;
        enc.write_metric_value(
            name.by_ref().with_suffix(Bucket),
            labels
                .by_ref()
                .compose_with(HistogramLabelLe { le: f64::INFINITY }),
            MetricValue::Uint(count),
        )?;''','''            write_bucket(enc, &name, &labels, le, val)?;
        }
        let count = val + inf;
        write_bucket(enc, &name, &labels, f64::INFINITY, count)?;'''),(T,'''        let (buckets, inf, sum) = self.inner.write().sample();
''','''        fn write_bucket<W: Write>(
            enc: &mut TextEncoder<W>,
            name: &impl MetricNameEncoder,
            labels: &impl LabelGroup,
            le: f64,
            total: u64,
        ) -> Result<(), std::io::Error> {
            enc.write_metric_value(
                name.with_suffix(Bucket),
                labels.compose_with(HistogramLabelLe { le }),
                MetricValue::Uint(total),
            )
        }

        let (buckets, inf, sum) = self.inner.write().sample();
'''))
E('t-escape-shared','all',(T,'''        b.write_all(&s.as_bytes()[i..j])?;
        match s.as_bytes()[j] {
            b'\\\\' => b.write_all(b"\\\\\\\\")?,
            b'\\n' => b.write_all(b"\\\\n")?,
            _ => unreachable!(),
        }
        i = j + 1;
    }
    b.write_all(&s.as_bytes()[i..])
}

pub''','''        b.write_all(&s.as_bytes()[i..j])?;
        b.write_all(escape(s.as_bytes()[j]))?;
        i = j + 1;
    }
    b.write_all(&s.as_bytes()[i..])
}

fn escape(c: u8) -> &'static [u8] {
    match c {
        b'\\\\' => b"\\\\\\\\",
        b'"' => b"\\\\\\"",
        b'\\n' => b"\\\\n",
        _ => unreachable!(),
    }
}

pub'''),(T,'''        match s.as_bytes()[j] {
            b'\\\\' => b.write_all(b"\\\\\\\\")?,
            b'"' => b.write_all(b"\\\\\\"")?,
            b'\\n' => b.write_all(b"\\\\n")?,
            _ => unreachable!(),
        }
''','''        b.write_all(escape(s.as_bytes()[j]))?;
'''))
E('t-escape-bytewise','all',(T,'''    let mut i = 0;
    for j in memchr3_iter(b'\\\\', b'"', b'\\n', s.as_bytes()) {
        b.write_all(&s.as_bytes()[i..j])?;
        match s.as_bytes()[j] {
            b'\\\\' => b.write_all(b"\\\\\\\\")?,
            b'"' => b.write_all(b"\\\\\\"")?,
            b'\\n' => b.write_all(b"\\\\n")?,
            _ => unreachable!(),
        }
        i = j + 1;
    }
    b.write_all(&s.as_bytes()[i..])''','''    let mut rest = s.as_bytes();
    while let Some(j) = memchr::memchr3(b'\\\\', b'"', b'\\n', rest) {
        let (plain, tail) = rest.split_at(j);
        b.write_all(plain)?;
        match tail[0] {
            b'\\\\' => b.write_all(b"\\\\\\\\")?,
            b'"' => b.write_all(b"\\\\\\"")?,
            _ => b.write_all(b"\\\\n")?,
        }
        rest = &tail[1..];
    }
    b.write_all(rest)'''),(T,'memchr2_iter, memchr3_iter','memchr2_iter'))
E('t-finish','all',(T,'''        self.inner.flush().unreachable().unwrap();
        self.inner.writer.buf.split().freeze()''','''        let Ok(()) = self.inner.flush().unreachable();
        std::mem::take(&mut self.inner.writer.buf).freeze()'''))
E('t-putslice','all',(T,'''        self.buf.put(buf);''','''        self.buf.extend_from_slice(buf);'''))
E('t-first-enum','all',(T,'''                if self.first {
                    self.first = false;
                    self.writer.write_all(b"{")?;
                } else {
                    self.writer.write_all(b",")?;
                }''','''                let sep: &[u8] = if std::mem::take(&mut self.first) { b"{" } else { b"," };
                self.writer.write_all(sep)?;'''))
E('t-label-result','all',(T,'''                if self.result.is_ok() {
                    self.result = self.try_write_value(name, x);
                }''','''                if self.result.is_err() {
                    return;
                }
                let res = self.try_write_value(name, x);
                if let Err(e) = res {
                    self.result = Err(e);
                }'''))
E('t-open-brace','all',(T,'''        if !visitor.first {
            self.writer.write_all(b"}")?;
        }
        self.writer.write_all(b" ")?;''','''        let any = !visitor.first;
        self.writer.write_all(if any { b"} " } else { b" " as &[u8] })?;'''))
E('t-state-late','all',(T,'''        self.state = State::Metrics;
        name.encode_utf8(&mut self.writer)?;
''','''        let writer = &mut self.writer;
        self.state = State::Metrics;
        name.encode_utf8(writer)?;
'''))
# ---- histogram
E('h-find','all',(H,'''        if x.is_nan() {
            return N;
        }
        self.le.partition_point(|le| x > *le)''','''        self.le.iter().position(|le| x <= *le).unwrap_or(N)'''))
E('h-loop','all',(H,'''        if x.is_nan() {
            return N;
        }
        self.le.partition_point(|le| x > *le)''','''        let mut i = 0;
        while i < N {
            if x <= self.le[i] {
                return i;
            }
            i += 1;
        }
        N'''))
E('h-windows','all',(H,'''        for i in 1..N {
            assert!(
                buckets[i - 1] < buckets[i],
                "consecutive histogram buckets must not decrease or be equal",
            );
        }
''','''        for pair in buckets.windows(2) {
            assert!(
                pair[0] < pair[1],
                "consecutive histogram buckets must not decrease or be equal",
            );
        }
'''))
E('h-zip-all','all',(H,'''        for i in 1..N {
            assert!(
                buckets[i - 1] < buckets[i],
                "consecutive histogram buckets must not decrease or be equal",
            );
        }
''','''        let increasing = buckets.iter().zip(buckets.iter().skip(1)).all(|(a, b)| a < b);
        assert!(
            increasing,
            "consecutive histogram buckets must not decrease or be equal",
        );
'''))
E('h-map-buckets','all',(H,'''        let buckets = core::array::from_fn(|i| start + width * i as f64);

        Thresholds { le: buckets }''','''        let mut le = [0.0; N];
        for (i, le) in le.iter_mut().enumerate() {
            *le = start + width * i as f64;
        }
        Self { le }'''))
E('h-timer-shared','all',(H,'''        if let Some(v) = self.vec {
            v.get_metric(self.id).observe_duration_since(self.start);
        }''','''        let Some(vec) = self.vec.take() else { return };
        let metric = vec.get_metric(self.id);
        metric.observe_duration_since(self.start);'''))
E('h-observe-one','all',(H,'''        let d = since.elapsed();
        self.observe_duration(label, d);
        d''','''        self.get_metric(self.with_labels(label))
            .observe_duration_since(since)'''))
E('h-observe-inline','all',(H,'''    pub fn observe(self, x: f64) {
        let bucket = self.metadata().bucket(x);
        self.inner.read().observe(bucket, x);
    }''','''    pub fn observe(self, x: f64) {
        let state = self.inner.read();
        state.observe(self.metadata().bucket(x), x);
        drop(state);
    }'''))
