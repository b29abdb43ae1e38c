T='core/src/text.rs'; H='core/src/metric/histogram.rs'; M='core/src/metric.rs'; SP='core/src/metric/sparse.rs'; N='core/src/metric/name.rs'; G='core/src/metric/gauge.rs'; C='core/src/metric/counter.rs'
LG='core/src/label/group.rs'; LI='core/src/label/impls.rs'; LV='core/src/label/value.rs'; LN='core/src/label/name.rs'; MG='core/src/metric/group.rs'
P='prometheus-proto/src/lib.rs'; PE='prometheus-proto/src/encoding.rs'; PR='process/src/lib.rs'; TK='tokio/src/lib.rs'
DG='derive/src/label_group/to_tokens.rs'; DV='derive/src/value/to_tokens.rs'; DM='derive/src/metric_group/to_tokens.rs'
# ---- protobuf
E('p-varint-while','all',(PE,'''    for _ in 0..10 {
        if value < 0x80 {
            buf.put_u8(value as u8);
            break;
        } else {
            buf.put_u8(((value & 0x7F) | 0x80) as u8);
            value >>= 7;
        }
    }''','''    while value >= 0x80 {
        buf.put_u8((value as u8) | 0x80);
        value >>= 7;
    }
    buf.put_u8(value as u8);'''))
E('p-varint-loop','all',(PE,'''    for _ in 0..10 {
        if value < 0x80 {
            buf.put_u8(value as u8);
            break;
        } else {
            buf.put_u8(((value & 0x7F) | 0x80) as u8);
            value >>= 7;
        }
    }''','''    loop {
        let low = (value & 0x7F) as u8;
        value >>= 7;
        if value == 0 {
            buf.put_u8(low);
            return;
        }
        buf.put_u8(low | 0x80);
    }'''))
E('p-varintlen-div','all',(PE,'''    ((((value | 1).leading_zeros() ^ 63) * 9 + 73) / 64) as usize''','''    let bits = 64 - (value | 1).leading_zeros() as usize;
    bits.div_ceil(7)'''))
E('p-varintlen-loop','all',(PE,'''pub fn encoded_len_varint(value: u64) -> usize {''','''pub fn encoded_len_varint(mut value: u64) -> usize {'''),(PE,'''    ((((value | 1).leading_zeros() ^ 63) * 9 + 73) / 64) as usize''','''    let mut len = 1;
    while value >= 0x80 {
        value >>= 7;
        len += 1;
    }
    len'''))
E('p-key-mul','all',(PE,'''    let key = (tag << 3) | wire_type as u32;''','''    let key = tag * 8 + wire_type as u32;'''))
E('p-string-bytes','all',(PE,'''        encode_varint(value.len() as u64, buf);
        buf.put_slice(value.as_bytes());''','''        let bytes = value.as_bytes();
        encode_varint(bytes.len() as u64, buf);
        buf.put(bytes);'''))
E('p-float-helper','all',(P,'''struct LenVisitor {}
impl LabelVisitor for LenVisitor {''','''fn with_float_text<R>(x: f64, f: impl FnOnce(&str) -> R) -> R {
    if x.is_nan() {
        f("NaN")
    } else if x == f64::INFINITY {
        f("+Inf")
    } else if x == f64::NEG_INFINITY {
        f("-Inf")
    } else {
        f(ryu::Buffer::new().format_finite(x))
    }
}

struct LenVisitor {}
impl LabelVisitor for LenVisitor {'''),(P,'''        if x.is_infinite() {
            if x.is_sign_positive() {
                encoding::string::encoded_len(2, "+Inf")
            } else {
                encoding::string::encoded_len(2, "-Inf")
            }
        } else if x.is_nan() {
            encoding::string::encoded_len(2, "NaN")
        } else {
            encoding::string::encoded_len(2, ryu::Buffer::new().format(x))
        }''','''        with_float_text(x, |x| self.write_str(x))'''),(P,'''        if x.is_infinite() {
            if x.is_sign_positive() {
                self.write_str("+Inf")
            } else {
                self.write_str("-Inf")
            }
        } else if x.is_nan() {
            self.write_str("NaN")
        } else {
            self.write_str(ryu::Buffer::new().format(x))
        }''','''        with_float_text(x, |x| self.write_str(x))'''))
E('p-pairlen-fn','all',(P,'''struct GroupLenVisitor {
    len: usize,
}''','''fn label_pair_len(name: &LabelName, x: &impl LabelValue) -> usize {
    encoding::string::encoded_len(1, name.as_str()) + x.visit(LenVisitor {})
}

struct GroupLenVisitor {
    len: usize,
}'''),(P,'''        let mut label_pair_len = 0;

        label_pair_len += encoding::string::encoded_len(1, name.as_str());
        label_pair_len += x.visit(LenVisitor {});

        self.len += message_len(1, label_pair_len);''','''        self.len += message_len(1, label_pair_len(name, x));'''),(P,'''        let mut label_pair_len = 0;
        label_pair_len += encoding::string::encoded_len(1, name.as_str());
        label_pair_len += x.visit(LenVisitor {});

        // repeated LabelPair label        = 1;
        encode_message(1, label_pair_len, self.buf, |buf| {''','''        // repeated LabelPair label        = 1;
        encode_message(1, label_pair_len(name, x), self.buf, |buf| {'''))
E('p-metric-helper','all',(P,'''        let mut metric_len = 0;

        let mut label_pairs_len = GroupLenVisitor { len: 0 };
        labels.visit_values(&mut label_pairs_len);
        metric_len += label_pairs_len.len;

        let count = self.count.load(std::sync::atomic::Ordering::Relaxed) as f64;
        let count_len = encoding::double::encoded_len(1, &count);
        metric_len += message_len(3, count_len);

        // repeated Metric     metric = 4;
        encode_message(4, metric_len, &mut enc.buf, |buf| {
            labels.visit_values(&mut GroupVisitor { buf });

            // optional Counter   counter      = 3;
            encode_message(3, count_len, buf, |buf| {
                // optional double   value    = 1;
                encoding::double::encode(1, &count, buf);
            });
        });

        Ok(())''','''        let count = self.count.load(std::sync::atomic::Ordering::Relaxed) as f64;
        encode_metric(3, count, &labels, &mut enc.buf);
        Ok(())'''),(P,'''        let mut metric_len = 0;

        let mut label_pairs_len = GroupLenVisitor { len: 0 };
        labels.visit_values(&mut label_pairs_len);
        metric_len += label_pairs_len.len;

        let gauge = self.count.get();
        let gauge_len = encoding::double::encoded_len(1, &gauge);
        metric_len += message_len(3, gauge_len);

        // repeated Metric     metric = 4;
        encode_message(4, metric_len, &mut enc.buf, |buf| {
            labels.visit_values(&mut GroupVisitor { buf });

            // optional Gauge   gauge      = 2;
            encode_message(2, gauge_len, buf, |buf| {
                // optional double   value    = 1;
                encoding::double::encode(1, &gauge, buf);
            });
        });

        Ok(())''','''        encode_metric(2, self.count.get(), &labels, &mut enc.buf);
        Ok(())'''),(P,'''fn message_len(tag''','''fn encode_metric(tag: u32, value: f64, labels: &impl LabelGroup, buf: &mut Vec<u8>) {
    let mut pairs = GroupLenVisitor { len: 0 };
    labels.visit_values(&mut pairs);
    let value_len = encoding::double::encoded_len(1, &value);

    // repeated Metric     metric = 4;
    encode_message(4, pairs.len + message_len(tag, value_len), buf, |buf| {
        labels.visit_values(&mut GroupVisitor { buf });
        encode_message(tag, value_len, buf, |buf| {
            encoding::double::encode(1, &value, buf);
        });
    });
}

fn message_len(tag'''))
E('p-flush-early','all',(P,'''        let mut res = Ok(());
        if self.state == State::Metrics {
            let len = self.buf.len() - 10;
            let varint_len = encoded_len_varint(len as u64);
            let offset = 10 - varint_len;
            encode_varint(len as u64, &mut &mut self.buf[offset..]);
            res = self.writer.write_all(&self.buf[offset..]);
        }

        self.state = State::Init;''','''        let res = match self.state {
            State::Metrics => {
                let len = self.buf.len() - 10;
                let offset = 10 - encoded_len_varint(len as u64);
                let mut prefix = &mut self.buf[offset..];
                encode_varint(len as u64, &mut prefix);
                self.writer.write_all(&self.buf[offset..])
            }
            _ => Ok(()),
        };

        self.state = State::Init;'''))
E('p-resize-extend','all',(P,'''        self.buf.clear();
        self.buf.resize(10, 0);
        res''','''        self.buf.clear();
        self.buf.extend_from_slice(&[0; 10]);
        res'''))
E('p-name-helper','all',(P,'''        // optional string     name   = 1;
        encode_key(1, LengthDelimited, &mut self.buf);
        encode_varint(name.encode_len() as u64, &mut self.buf);
        name.encode_utf8(&mut self.buf)?;

        // optional string     help   = 2;''','''        encode_name(&name, &mut self.buf)?;

        // optional string     help   = 2;'''),(P,'''        encode_key(1, LengthDelimited, &mut field);
        encode_varint(name.encode_len() as u64, &mut field);
        name.encode_utf8(&mut field)?;
''','''        encode_name(&name, &mut field)?;
'''),(P,'''struct LenVisitor {}''','''fn encode_name(name: &impl MetricNameEncoder, buf: &mut Vec<u8>) -> std::io::Result<()> {
    // optional string     name   = 1;
    encode_key(1, LengthDelimited, buf);
    encode_varint(name.encode_len() as u64, buf);
    name.encode_utf8(buf)
}

struct LenVisitor {}'''))
E('p-type-const','all',(P,'''        // COUNTER = 0;
        encoding::int32::encode(3, &0, &mut enc.buf);''','''        const COUNTER: i32 = 0;
        encoding::int32::encode(3, &COUNTER, &mut enc.buf);'''))
# ---- process
E('pr-let-chain','all',(PR,'''        let mut start_time = None;
        #[cfg(target_os = "linux")]
        if let Ok(boot_time) = procfs::boot_time_secs() {
            if let Ok(stat) = procfs::process::Process::new(pid).and_then(|p| p.stat()) {
                start_time = Some(stat.starttime as i64 / clk_tck() + boot_time as i64);
            }
        }

        ProcessCollector { pid, start_time }''','''        #[cfg(target_os = "linux")]
        let start_time = start_time_of(pid);
        #[cfg(not(target_os = "linux"))]
        let start_time = None;

        ProcessCollector { pid, start_time }'''),(PR,'''fn clk_tck() -> i64 {''','''#[cfg(target_os = "linux")]
fn start_time_of(pid: pid_t) -> Option<i64> {
    let boot_time = procfs::boot_time_secs().ok()?;
    let stat = procfs::process::Process::new(pid).ok()?.stat().ok()?;
    Some(boot_time as i64 + stat.starttime as i64 / clk_tck())
}

fn clk_tck() -> i64 {'''))
E('pr-write-helper','all',(PR,'''                let fd = MetricName::from_str("open_fds");
                enc.write_help(fd, "Number of open file descriptors.")?;
                write_gauge(enc, fd, NoLabels, fd_count as i64)?;''','''                let name = MetricName::from_str("open_fds");
                family(enc, name, "Number of open file descriptors.", fd_count as i64)?;'''),(PR,'''                    let fd = MetricName::from_str("max_fds");
                    enc.write_help(fd, "Maximum number of open file descriptors.")?;
                    write_gauge(enc, fd, NoLabels, max as i64)?;''','''                    let name = MetricName::from_str("max_fds");
                    family(enc, name, "Maximum number of open file descriptors.", max as i64)?;'''),(PR,'''fn clk_tck() -> i64 {''','''fn family<Enc: Encoding>(
    enc: &mut Enc,
    name: &MetricName,
    help: &str,
    value: i64,
) -> Result<(), Enc::Err>
where
    GaugeState: MetricEncoding<Enc>,
{
    enc.write_help(name, help)?;
    write_gauge(enc, name, NoLabels, value)
}

fn clk_tck() -> i64 {'''))
E('pr-sysconf-helper','all',(PR,'''    static CLK_TCK: OnceLock<i64> = OnceLock::new();
    *CLK_TCK.get_or_init(|| unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as i64)''','''    static CLK_TCK: OnceLock<i64> = OnceLock::new();
    *CLK_TCK.get_or_init(|| sysconf(libc::_SC_CLK_TCK))'''),(PR,'''fn clk_tck() -> i64 {''','''fn sysconf(name: libc::c_int) -> i64 {
    i64::from(unsafe { libc::sysconf(name) })
}

fn clk_tck() -> i64 {'''))
E('pr-flatten','all',(PR,'''            if let Ok(limits) = p.limits() {
                if let procfs::process::LimitValue::Value(max) = limits.max_open_files.soft_limit {
                    let fd''','''            let soft = p.limits().map(|limits| limits.max_open_files.soft_limit);
            {
                if let Ok(procfs::process::LimitValue::Value(max)) = soft {
                    let fd'''))
E('pr-pid-helper','all',(PR,'''        let pid = unsafe { libc::getpid() };
        ProcessCollector::new(pid)''','''        Self::new(std::process::id() as pid_t)'''))
# ---- tokio
E('tk-guard','all',(TK,'''        collect(&self.runtimes.read().unwrap(), enc)''','''        let runtimes = self.runtimes.read().unwrap();
        collect(runtimes.as_slice(), enc)'''))
E('tk-add-delegate','all',(TK,'''        self.runtimes
            .write()
            .unwrap()
            .push(RuntimeCollector::current().with_name(name))''','''        let rt = tokio::runtime::Handle::current().metrics();
        self.add(rt, name)'''))
E('tk-withname-mut','all',(TK,'''    pub fn with_name(self, name: impl Into<Cow<'static, str>>) -> Self {
        Self {
            runtime: self.runtime,
            name: RuntimeName {
                name: Some(name.into()),
            },
        }
    }''','''    pub fn with_name(mut self, name: impl Into<Cow<'static, str>>) -> Self {
        self.name.name = Some(name.into());
        self
    }'''))
E('tk-le-match','all',(TK,'''    let le = if le == Duration::from_nanos(u64::MAX) {
        f64::INFINITY
    } else {
        le.as_secs_f64()
    };
    HistogramLabelLe { le }''','''    match le {
        Duration::MAX => HistogramLabelLe { le: le.as_secs_f64() },
        _ if le == Duration::from_nanos(u64::MAX) => HistogramLabelLe { le: f64::INFINITY },
        _ => HistogramLabelLe { le: le.as_secs_f64() },
    }'''))
E('tk-threads-order','all',(TK,'''        let idle = rt.num_idle_blocking_threads();
        write_gauge!(
            ThreadKind::Blocking,
            rt.num_blocking_threads().saturating_sub(idle) as i64
        );''','''        let idle = rt.num_idle_blocking_threads();
        let blocking = rt.num_blocking_threads();
        let busy = if blocking > idle { blocking - idle } else { 0 };
        write_gauge!(ThreadKind::Blocking, busy as i64);'''))
E('tk-hist-scan','all',(TK,'''                    let le = histogram_le(rt, bucket);
                    total += rt.poll_count_histogram_bucket_count(worker, bucket);
                    write_counter!(Bucket, worker_label.compose_with(le), total);''','''                    let count = rt.poll_count_histogram_bucket_count(worker, bucket);
                    total += count;
                    let labels = ComposedGroup(worker_label, histogram_le(rt, bucket));
                    write_counter!(Bucket, labels, total);'''))
E('tk-while','all',(TK,'''            for worker in 0..rt.num_workers() {
                let queue_depth = rt.worker_local_queue_depth(worker);
                write_gauge!(QueueKind::Worker(worker), queue_depth as i64);
            }''','''            let workers = rt.num_workers();
            let mut worker = 0;
            while worker < workers {
                let queue_depth = rt.worker_local_queue_depth(worker);
                write_gauge!(QueueKind::Worker(worker), queue_depth as i64);
                worker += 1;
            }'''))
# ---- derive
E('d-lg-fn','all',(DG,'''                let mut mul = Some(1usize);
                let mut index = 0usize;

                #(
                    index = #fixed_encodes.checked_mul(mul?)?.checked_add(index)?;
                    mul = mul.and_then(|mul| mul.checked_mul(#cardinalities));
                )*
''','''                let (mut index, mut mul) = (0usize, Some(1usize));

                #(
                    let part = #fixed_encodes;
                    index = index.checked_add(part.checked_mul(mul?)?)?;
                    mul = mul?.checked_mul(#cardinalities);
                )*
'''))
E('d-lg-decode','all',(DG,'''                    let card = #cardinalities;
                    let (index, index1) = (index / card, index % card);
                    #fixed_decodes;''','''                    let card = #cardinalities;
                    let index1 = index % card;
                    let index = index / card;
                    #fixed_decodes;'''))
E('d-lg-divrem','all',(DG,'''                    let (index, index1) = (index / card, index % card);''','''                    let quotient = index / card;
                    let index1 = index - quotient * card;
                    let index = quotient;'''))
E('d-lg-card','all',(DG,'''                    Some(1usize)
                        #( .and_then(|x| x.checked_mul(#cardinalities)) )*''','''                    let total = 1usize;
                    #( let total = total.checked_mul(#cardinalities)?; )*
                    Some(total)'''))
E('d-lv-const','all',(DV,'''                fn decode(value: usize) -> Self {
                    match value {
                        #(#count2 => #ident :: #var_idents2,)*
                        _ => panic!("invalid value"),
                    }
                }''','''                fn decode(value: usize) -> Self {
                    const VARIANTS: &[#ident] = &[#(#ident :: #var_idents2),*];
                    VARIANTS[value]
                }'''),(DV,'''        let count2 = 0..cardinality;
''',''))
E('d-lv-name-match','all',(DV,'''                let name = var.attrs.rename.as_ref().map_or_else(
                    || rename_all.apply(&var.ident.unraw().to_string()),
                    syn::LitStr::value,
                );''','''                let name = match &var.attrs.rename {
                    Some(rename) => rename.value(),
                    None => rename_all.apply(&var.ident.unraw().to_string()),
                };'''))
E('d-lv-textfn','all',(DV,'''                quote_spanned!(var.span => v.write_str(#name))''','''                quote_spanned!(var.span => { let name: &'static str = #name; v.write_str(name) })'''))
E('d-mg-chain','all',(DM,'''                        #help
                        <#ty as #krate::metric::MetricFamilyEncoding<#enc>>::collect_family_into(&self.#name, #ident, enc)?;''','''                        #help
                        if let Err(err) = <#ty as #krate::metric::MetricFamilyEncoding<#enc>>::collect_family_into(&self.#name, #ident, enc) {
                            return Err(err);
                        }'''))
E('d-mg-destructure','all',(DM,'''                            &#krate::metric::name::WithNamespace::new(#ns, &self.#name),
                            enc,
                        )?;''','''                            &{
                                let group = &self.#name;
                                #krate::metric::name::WithNamespace::new(#ns, group)
                            },
                            enc,
                        )?;'''))
E('d-mg-init','all',(DM,'''                        Self {
                            #(#inits)*
                        }''','''                        let this = Self {
                            #(#inits)*
                        };
                        this'''))
