T='core/src/text.rs'
E('t9-value-closure','all',(T,'''        match value {
            MetricValue::Uint(x) => self
                .writer
                .write_all(itoa::Buffer::new().format(x).as_bytes())?,
            MetricValue::Int(x) => self
                .writer
                .write_all(itoa::Buffer::new().format(x).as_bytes())?,
            MetricValue::Float(x) => self
                .writer
                .write_all(ryu::Buffer::new().format(x).as_bytes())?,
        }
''','''        let mut ints = itoa::Buffer::new();
        let mut floats = ryu::Buffer::new();
        let text: &str = match value {
            MetricValue::Uint(x) => ints.format(x),
            MetricValue::Int(x) => ints.format(x),
            MetricValue::Float(x) => floats.format(x),
        };
        self.writer.write_all(text.as_bytes())?;
'''))
E('t9-type-concat','all',(T,'''        match typ {
            MetricType::Counter => self.writer.write_all(b" counter\\n"),
            MetricType::Histogram => self.writer.write_all(b" histogram\\n"),
            MetricType::Gauge => self.writer.write_all(b" gauge\\n"),
            MetricType::Summary => self.writer.write_all(b" summary\\n"),
            MetricType::Untyped => self.writer.write_all(b" untyped\\n"),
        }''','''        self.writer.write_all(b" ")?;
        let kind: &[u8] = match typ {
            MetricType::Counter => b"counter",
            MetricType::Histogram => b"histogram",
            MetricType::Gauge => b"gauge",
            MetricType::Summary => b"summary",
            MetricType::Untyped => b"untyped",
        };
        self.writer.write_all(kind)?;
        self.write_line()'''))
E('t9-begin-family','all',(T,'''        if self.state == State::Metrics {
            self.write_line()?;
        }
        self.state = State::Info;

        self.writer.write_all(b"# HELP ")?;''','''        self.begin_info()?;
        self.writer.write_all(b"# HELP ")?;'''),(T,'''        if self.state == State::Metrics {
            self.write_line()?;
        }
        self.state = State::Info;

        self.writer.write_all(b"# TYPE ")?;''','''        self.begin_info()?;
        self.writer.write_all(b"# TYPE ")?;'''),(T,'''    fn write_line(&mut self) -> std::io::Result<()> {''','''    fn begin_info(&mut self) -> std::io::Result<()> {
        match self.state {
            State::Metrics => self.write_line()?,
            State::Info => {}
        }
        self.state = State::Info;
        Ok(())
    }

    fn write_line(&mut self) -> std::io::Result<()> {'''))
E('t9-sep-array','all',(T,'''                if self.first {
                    self.first = false;
                    self.writer.write_all(b"{")?;
                } else {
                    self.writer.write_all(b",")?;
                }''','''                self.writer.write_all(&[if self.first { b'{' } else { b',' }])?;
                self.first = false;'''))
E('t9-count-state','all',(T,'''                if self.first {
                    self.first = false;
                    self.writer.write_all(b"{")?;
                } else {
                    self.writer.write_all(b",")?;
                }''','''                let open: &[u8] = if self.first { b"{" } else { b"," };
                self.first &= false;
                self.writer.write_all(open)?;'''))
E('t9-visitor-fields','all',(T,'''        labels.visit_values(&mut visitor);
        visitor.result?;
        if !visitor.first {
            self.writer.write_all(b"}")?;
        }
        self.writer.write_all(b" ")?;''','''        labels.visit_values(&mut visitor);
        let GroupVisitor { first, result, .. } = visitor;
        result?;
        if first {
            self.writer.write_all(b" ")?;
        } else {
            self.writer.write_all(b"} ")?;
        }'''))
E('t9-float-abs','all',(T,'''                if x.is_infinite() {
                    if x.is_sign_positive() {
                        self.write_str("+Inf")
                    } else {
                        self.write_str("-Inf")
                    }
                } else if x.is_nan() {
                    self.write_str("NaN")
                } else {
                    self.write_str(ryu::Buffer::new().format(x))
                }''','''                if x.is_finite() {
                    return self.write_str(ryu::Buffer::new().format(x));
                }
                self.write_str(match (x.is_nan(), x > 0.0) {
                    (true, _) => "NaN",
                    (false, true) => "+Inf",
                    (false, false) => "-Inf",
                })'''))
E('t9-float-eq','all',(T,'''                if x.is_infinite() {
                    if x.is_sign_positive() {
                        self.write_str("+Inf")
                    } else {
                        self.write_str("-Inf")
                    }
                } else if x.is_nan() {''','''                if x == f64::INFINITY {
                    self.write_str("+Inf")
                } else if x == f64::NEG_INFINITY {
                    self.write_str("-Inf")
                } else if x.is_nan() {'''))
E('t9-escape-fold','all',(T,'''    let mut i = 0;
    for j in memchr3_iter(b'\\\\', b'"', b'\\n', s.as_bytes()) {
        b.write_all(&s.as_bytes()[i..j])?;
        match s.as_bytes()[j] {
            b'\\\\' => b.write_all(b"\\\\\\\\")?,
            b'"' => b.write_all(b"\\\\\\"")?,
            b'\\n' => b.write_all(b"\\\\n")?,
            _ => unreachable!(),
        }
        i = j + 1;
    }
    b.write_all(&s.as_bytes()[i..])''','''    let bytes = s.as_bytes();
    let rest = memchr3_iter(b'\\\\', b'"', b'\\n', bytes).try_fold(0, |start, at| {
        b.write_all(&bytes[start..at])?;
        let escaped: &[u8; 2] = match bytes[at] {
            b'\\\\' => b"\\\\\\\\",
            b'"' => b"\\\\\\"",
            _ => b"\\\\n",
        };
        b.write_all(escaped)?;
        io::Result::Ok(at + 1)
    })?;
    b.write_all(&bytes[rest..])'''))
E('t9-escape-rest','all',(T,'''    let mut i = 0;
    for j in memchr2_iter(b'\\\\', b'\\n', s.as_bytes()) {
        b.write_all(&s.as_bytes()[i..j])?;
        match s.as_bytes()[j] {
            b'\\\\' => b.write_all(b"\\\\\\\\")?,
            b'\\n' => b.write_all(b"\\\\n")?,
            _ => unreachable!(),
        }
        i = j + 1;
    }
    b.write_all(&s.as_bytes()[i..])''','''    let mut rest = s.as_bytes();
    while let Some(at) = memchr::memchr2(b'\\\\', b'\\n', rest) {
        let (plain, tail) = rest.split_at(at);
        b.write_all(plain)?;
        b.write_all(if tail[0] == b'\\n' { b"\\\\n" } else { b"\\\\\\\\" })?;
        rest = &tail[1..];
    }
    b.write_all(rest)'''))
E('t9-escape-fastpath','all',(T,'''    let mut i = 0;
    for j in memchr2_iter(b'\\\\', b'\\n', s.as_bytes()) {''','''    if s.is_empty() {
        return b.write_all(b"");
    }
    let mut i = 0;
    for j in memchr2_iter(b'\\\\', b'\\n', s.as_bytes()) {'''))
E('t9-escape-two','all',(T,'''        match s.as_bytes()[j] {
            b'\\\\' => b.write_all(b"\\\\\\\\")?,
            b'"' => b.write_all(b"\\\\\\"")?,
            b'\\n' => b.write_all(b"\\\\n")?,
            _ => unreachable!(),
        }
        i = j + 1;''','''        b.write_all(b"\\\\")?;
        let c = s.as_bytes()[j];
        b.write_all(if c == b'\\n' { b"n" } else { std::slice::from_ref(&s.as_bytes()[j]) })?;
        i = j + 1;'''))
E('t9-escape-keep','all',(T,'''        match s.as_bytes()[j] {
            b'\\\\' => b.write_all(b"\\\\\\\\")?,
            b'"' => b.write_all(b"\\\\\\"")?,
            b'\\n' => b.write_all(b"\\\\n")?,
            _ => unreachable!(),
        }
        i = j + 1;''','''        b.write_all(b"\\\\")?;
        if s.as_bytes()[j] == b'\\n' {
            b.write_all(b"n")?;
            i = j + 1;
        } else {
            // the byte itself follows its backslash
            i = j;
        }'''))
E('t9-hist-scan','all',(T,'''        #[allow(clippy::needless_range_loop)]
        for i in 0..N {
            let le = metadata.get()[i];
            val += buckets[i];
            enc''','''        let bounds = metadata.get();
        let mut i = 0;
        while i < N {
            let le = bounds[i];
            val += buckets[i];
            i += 1;
            enc'''))
E('t9-hist-line','all',(T,'''        let (buckets, inf, sum) = self.inner.write().sample();
        let mut val = 0;

        #[allow(clippy::needless_range_loop)]
        for i in 0..N {
            let le = metadata.get()[i];
            val += buckets[i];
            enc.write_metric_value(
                name.by_ref().with_suffix(Bucket),
                labels.by_ref().compose_with(HistogramLabelLe { le }),
                MetricValue::Uint(val),
            )?;
        }
        let count = val + inf;
        enc.write_metric_value(
            name.by_ref().with_suffix(Bucket),
            labels
                .by_ref()
                .compose_with(HistogramLabelLe { le: f64::INFINITY }),
            MetricValue::Uint(count),
        )?;''','''        let (buckets, inf, sum) = self.inner.write().sample();
        let mut bucket = |le: f64, val: u64| {
            enc.write_metric_value(
                name.by_ref().with_suffix(Bucket),
                labels.by_ref().compose_with(HistogramLabelLe { le }),
                MetricValue::Uint(val),
            )
        };
        let mut val = 0;
        for (le, n) in metadata.get().iter().zip(buckets) {
            val += n;
            bucket(*le, val)?;
        }
        let count = val + inf;
        bucket(f64::INFINITY, count)?;'''))
E('t9-hist-sumfirst','all',(T,'''        let (buckets, inf, sum) = self.inner.write().sample();
        let mut val = 0;
''','''        let (buckets, inf, sum) = self.inner.write().sample();
        let count = buckets.iter().sum::<u64>() + inf;
        let mut val = 0;
'''),(T,'''        let count = val + inf;
''',''))
E('t9-labels-inline','all',(T,'''                if self.result.is_ok() {
                    self.result = self.try_write_value(name, x);
                }''','''                if let Err(_) = &self.result {
                    return;
                }
                self.result = self.try_write_value(name, x);'''))
E('t9-labels-andthen','all',(T,'''                if self.result.is_ok() {
                    self.result = self.try_write_value(name, x);
                }''','''                let so_far = std::mem::replace(&mut self.result, Ok(()));
                self.result = so_far.and_then(|()| self.try_write_value(name, x));'''))
E('t9-unreach','all',(T,'''        match self {
            Ok(t) => Ok(t),
            Err(e) => unreachable!("{e:?}"),
        }''','''        Ok(self.unwrap_or_else(|e| unreachable!("{e:?}")))'''))
E('t9-finish-take','all',(T,'''        self.inner.flush().unreachable().unwrap();
        self.inner.writer.buf.split().freeze()''','''        match self.inner.flush() {
            Ok(()) => {}
            Err(e) => unreachable!("{e:?}"),
        }
        let written = self.inner.writer.buf.split();
        written.freeze()'''))
E('t9-finish-take2','all',(T,'''        self.inner.writer.buf.split().freeze()''','''        let len = self.inner.writer.buf.len();
        self.inner.writer.buf.split_to(len).freeze()'''))
E('t9-finish-memtake','all',(T,'''        self.inner.writer.buf.split().freeze()''','''        std::mem::take(&mut self.inner.writer.buf).freeze()'''))
E('t9-extend','all',(T,'''        self.buf.put(buf);
        Ok(())''','''        self.buf.extend_from_slice(buf);
        Ok(())'''))
E('t9-flush-order','all',(T,'''        self.state = State::Info;
        self.writer.flush()''','''        let flushed = self.writer.flush();
        self.state = State::Info;
        flushed'''))
