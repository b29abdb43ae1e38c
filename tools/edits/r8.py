LG='core/src/label/group.rs'; LI='core/src/label/impls.rs'; LV='core/src/label/value.rs'; LN='core/src/label/name.rs'; MG='core/src/metric/group.rs'; N='core/src/metric/name.rs'
P='prometheus-proto/src/lib.rs'; PE='prometheus-proto/src/encoding.rs'; PR='process/src/lib.rs'; TK='tokio/src/lib.rs'
DL='derive/src/label_group/to_tokens.rs'; DM='derive/src/metric_group/to_tokens.rs'; DV='derive/src/value/to_tokens.rs'; DMA='derive/src/metric_group/attr.rs'
# derive: label groups
E('d8-card-q','all',(DL,'''                    Some(1usize)
                        #( .and_then(|x| x.checked_mul(#cardinalities)) )*''','''                    #[allow(unused_mut)]
                    let mut total = 1usize;
                    #( total = total.checked_mul(#cardinalities)?; )*
                    Some(total)'''))
E('d8-card-fold','all',(DL,'''                    Some(1usize)
                        #( .and_then(|x| x.checked_mul(#cardinalities)) )*''','''                    let parts: &[usize] = &[#(#cardinalities),*];
                    parts.iter().try_fold(1usize, |total, part| total.checked_mul(*part))'''))
E('d8-enc-lets','all',(DL,'''                    index = #fixed_encodes.checked_mul(mul?)?.checked_add(index)?;
                    mul = mul.and_then(|mul| mul.checked_mul(#cardinalities));''','''                    let digit: usize = #fixed_encodes;
                    let scaled = digit.checked_mul(mul?)?;
                    index = index.checked_add(scaled)?;
                    mul = match mul {
                        Some(mul) => mul.checked_mul(#cardinalities),
                        None => None,
                    };'''))
E('d8-enc-array','all',(DL,'''                let mut mul = Some(1usize);
                let mut index = 0usize;

                #(
                    index = #fixed_encodes.checked_mul(mul?)?.checked_add(index)?;
                    mul = mul.and_then(|mul| mul.checked_mul(#cardinalities));
                )*
''','''                let mut mul = Some(1usize);
                let mut index = 0usize;

                #(
                    {
                        let (digit, card) = (#fixed_encodes, #cardinalities);
                        index += digit.checked_mul(mul?)?;
                        mul = mul?.checked_mul(card).or(None);
                    }
                )*
''')) if False else None
E('d8-enc-dyn-first','all',(DL,'''                Some((
                    index
                    #(, #dynamic_encodes)*
                ))''','''                let unique = (
                    index
                    #(, #dynamic_encodes)*
                );
                Some(unique)'''))
E('d8-dec-mut','all',(DL,'''                    let card = #cardinalities;
                    let (index, index1) = (index / card, index % card);
                    #fixed_decodes;''','''                    let card = #cardinalities;
                    let rest = index / card;
                    let index1 = index - rest * card;
                    let index = rest;
                    #fixed_decodes;'''))
E('d8-dec-rem','all',(DL,'''                    let card = #cardinalities;
                    let (index, index1) = (index / card, index % card);
                    #fixed_decodes;''','''                    let index1 = index % #cardinalities;
                    let index = index / #cardinalities;
                    #fixed_decodes;'''))
E('d8-dec-euclid','all',(DL,'''                    let (index, index1) = (index / card, index % card);''','''                    let (index, index1) = (index.div_euclid(card), index.rem_euclid(card));'''))
E('d8-visit-block','all',(DL,'''                const #ident: &#krate::label::LabelName = #krate::label::LabelName::from_str(#name_string);
                #krate::label::LabelGroupVisitor::write_value(v, #ident, &self.#name);''','''                {
                    const NAME: &#krate::label::LabelName = #krate::label::LabelName::from_str(#name_string);
                    let value = &self.#name;
                    v.write_value(NAME, value);
                }'''),(DL,'''            let ident = format_ident!("{}", name_string.to_shouty_snake_case(), span = x.span);
''',''),(DL,'''                fn visit_values(&self, v: &mut impl #krate::label::LabelGroupVisitor) {
                    #(#visits)*''','''                fn visit_values(&self, v: &mut impl #krate::label::LabelGroupVisitor) {
                    use #krate::label::LabelGroupVisitor as _;
                    #(#visits)*'''),(DL,'use heck::ToShoutySnakeCase;\n',''))
E('d8-visit-destructure','all',(DL,'''                #krate::label::LabelGroupVisitor::write_value(v, #ident, &self.#name);''','''                let Self { #name, .. } = self;
                #krate::label::LabelGroupVisitor::write_value(v, #ident, #name);'''))
E('d8-sort-partition','all',(DL,'''        let part = sorted_fields
            .partition_point(|x| x.attrs.get_sort_key() == LabelGroupFieldAttrsSortKey::Dynamic);
        let (dynamics, fixed) = sorted_fields.split_at(part);

        // this is to reverse the order of the encoded fields
        let mut fixed = fixed.to_vec();
        fixed.reverse();
        let fixed = &fixed;
''','''        let (dynamics, fixed): (Vec<_>, Vec<_>) = fields
            .iter()
            .cloned()
            .partition(|x| x.attrs.get_sort_key() == LabelGroupFieldAttrsSortKey::Dynamic);

        // this is to reverse the order of the encoded fields
        let fixed: Vec<_> = fixed.into_iter().rev().collect();
        let (dynamics, fixed) = (&dynamics[..], &fixed[..]);
'''))
E('d8-default-delegate','all',(DL,'''                impl #set_ident {
                    pub fn new() -> Self {
                        Self {
                            #(#defaults)*
                        }
                    }
                }
                impl ::core::default::Default for #set_ident {
                    fn default() -> Self {
                        Self::new()
                    }
                }''','''                impl #set_ident {
                    pub fn new() -> Self {
                        <Self as ::core::default::Default>::default()
                    }
                }
                impl ::core::default::Default for #set_ident {
                    fn default() -> Self {
                        Self {
                            #(#defaults)*
                        }
                    }
                }'''))
E('d8-densedec','all',(DL,'''                fn decode_dense(&self, value: usize) -> Self::Group<'_> {
                    self.decode(&value)
                }''','''                fn decode_dense(&self, value: usize) -> Self::Group<'_> {
                    #krate::label::LabelGroupSet::decode(self, &value)
                }'''))
# derive: values and metric groups
E('d8-v-usize','all',(DV,'''                    match self {
                        #(#ident :: #var_idents1 => #count1,)*
                    }''','''                    const ALL: &[#ident] = &[#(#ident :: #var_idents1),*];
                    let mut index = 0;
                    #(
                        if matches!(self, #ident :: #var_idents3) {
                            index = #count1;
                        }
                    )*
                    debug_assert!(index < ALL.len());
                    index'''),(DV,'''        let count1 = 0..cardinality;
''','''        let var_idents3 = variants.iter().map(|x| &x.ident);
        let count1 = 0..cardinality;
'''))
E('d8-v-decode-get','all',(DV,'''                    match value {
                        #(#count2 => #ident :: #var_idents2,)*
                        _ => panic!("invalid value"),
                    }''','''                    let variants = [#(#ident :: #var_idents2),*];
                    match variants.get(value) {
                        Some(variant) => *variant,
                        None => panic!("invalid value"),
                    }'''),(DV,'''        let count2 = 0..cardinality;
''',''))
E('d8-v-decode-if','all',(DV,'''                    match value {
                        #(#count2 => #ident :: #var_idents2,)*
                        _ => panic!("invalid value"),
                    }''','''                    #(
                        if value == #count2 {
                            return #ident :: #var_idents2;
                        }
                    )*
                    panic!("invalid value")'''))
E('d8-v-visit-name','all',(DV,'''                fn visit<V: #krate::label::LabelVisitor>(&self, v: V) -> V::Output {
                    match self {
                        #(#visits)*
                    }
                }''','''                #[inline]
                fn visit<V: #krate::label::LabelVisitor>(&self, v: V) -> V::Output {
                    match *self {
                        #(#visits)*
                    }
                }'''))
E('d8-m-help-const','all',(DM,'''                            <#enc as #krate::metric::group::Encoding>::write_help(enc, #ident, #doc)?;''','''                            const HELP: &str = #doc;
                            #krate::metric::group::Encoding::write_help(enc, #ident, HELP)?;'''))
E('d8-m-last','all',(DM,'''                fn collect_group_into(&self, enc: &mut #enc) -> Result<(), #enc::Err>{
                    #(#visits)*
                    Ok(())
                }''','''                fn collect_group_into(&self, enc: &mut #enc) -> Result<(), #enc::Err>{
                    let result: Result<(), #enc::Err> = (|| {
                        #(#visits)*
                        Ok(())
                    })();
                    result
                }'''))
E('d8-m-ns-local','all',(DM,'''                        <#krate::metric::name::WithNamespace<&#ty> as #krate::metric::group::MetricGroup<#enc>>::collect_group_into(
                            &#krate::metric::name::WithNamespace::new(#ns, &self.#name),
                            enc,
                        )?;''','''                        let group = #krate::metric::name::WithNamespace::new(#ns, &self.#name);
                        #krate::metric::group::MetricGroup::<#enc>::collect_group_into(&group, enc)?;'''))
E('d8-m-init-let','all',(DM,'''                        Self {
                            #(#inits)*
                        }''','''                        #(#lets)*
                        Self {
                            #(#names),*
                        }'''),(DM,'''            let inits = fields.iter().map(|x| {''','''            let names = fields.iter().map(|x| &x.name);
            let lets = fields.iter().map(|x| {'''),(DM,'''quote_spanned!(x.span => #name: #init,)''','''quote_spanned!(x.span => let #name = #init;)'''),(DM,'''quote_spanned!(x.span => #name: <#ty>::with_label_set_and_metadata(#ls, #metadata),)''','''quote_spanned!(x.span => let #name = <#ty>::with_label_set_and_metadata(#ls, #metadata);)'''),(DM,'''quote_spanned!(x.span => #name: <#ty>::with_metadata(#metadata),)''','''quote_spanned!(x.span => let #name = <#ty>::with_metadata(#metadata);)'''),(DM,'''quote_spanned!(x.span => #name: <#ty as ::core::default::Default>::default(),)''','''quote_spanned!(x.span => let #name = <#ty as ::core::default::Default>::default();)'''))
E('d8-a-docs','all',(DMA,'''                docs.get_or_insert_with(String::new).push_str(&s.value());''','''                match &mut docs {
                    Some(docs) => docs.push_str(&s.value()),
                    None => docs = Some(s.value()),
                }'''))
# groups
E('g8-card-match','all',(LG,'''        self.0
            .cardinality()
            .and_then(|x| x.checked_mul(self.1.cardinality()?))''','''        match (self.0.cardinality(), self.1.cardinality()) {
            (Some(a), Some(b)) => a.checked_mul(b),
            _ => None,
        }'''))
E('g8-card-zip','all',(LG,'''        self.0
            .cardinality()
            .and_then(|x| x.checked_mul(self.1.cardinality()?))''','''        let (a, b) = self.0.cardinality().zip(self.1.cardinality())?;
        usize::checked_mul(a, b)'''))
E('g8-dense-direct','all',(LG,'''        let mut mul = 1;
        let mut index = 0;

        index += self.1.encode_dense(values.1)? * mul;
        mul *= self.1.cardinality()?;

        index += self.0.encode_dense(values.0)? * mul;
        // mul *= self.1.cardinality()?;

        Some(index)''','''        let inner = self.1.encode_dense(values.1)?;
        let stride = self.1.cardinality()?;
        let outer = self.0.encode_dense(values.0)?;
        Some(outer * stride + inner)'''))
E('g8-decode','all',(LG,'''        let index = value;
        let (index, index1) = (
            index / self.1.cardinality().unwrap(),
            index % self.1.cardinality().unwrap(),
        );
        let b = self.1.decode_dense(index1);
        let (index, index1) = (
            index / self.0.cardinality().unwrap(),
            index % self.0.cardinality().unwrap(),
        );
        let a = self.0.decode_dense(index1);
        debug_assert_eq!(index, 0);
        ComposedGroup(a, b)''','''        let inner = self.1.cardinality().expect("dense sets have a cardinality");
        debug_assert!(value / inner < self.0.cardinality().unwrap());
        ComposedGroup(
            self.0.decode_dense(value / inner),
            self.1.decode_dense(value % inner),
        )'''))
E('g8-encode-lets','all',(LG,'''        Some(ComposedGroup(
            self.0.encode(value.0)?,
            self.1.encode(value.1)?,
        ))''','''        let ComposedGroup(a, b) = value;
        let a = self.0.encode(a)?;
        self.1.encode(b).map(|b| ComposedGroup(a, b))'''))
# impls
E('i8-index-full','all',(LI,'''        self.get_index_of(&value)''','''        let (index, _) = self.get_full(&value)?;
        Some(index)'''))
E('i8-index-decode','all',(LI,'''        self.get_index(value).unwrap().clone()''','''        let Some(item) = self.get_index(value) else {
            unreachable!("index is not in the set")
        };
        item.to_owned()'''))
E('i8-rodeo','all',(LI,'''        Some(self.get(value)?.into_usize())''','''        self.get(value).map(|key| lasso::Key::into_usize(key))'''))
E('i8-threaded','all',(LI,'''        Some(self.try_get_or_intern(value).ok()?.into_usize())''','''        match self.try_get_or_intern(value) {
            Ok(key) => Some(key.into_usize()),
            Err(_) => None,
        }'''))
E('i8-decode-key','all',(LI,'''        None
    }

    fn encode(&self, value: Self::Value<'_>) -> Option<usize> {
        Some(self.try_get_or_intern(value).ok()?.into_usize())
    }

    fn decode(&self, value: usize) -> Self::Value<'_> {
        self.resolve(&K::try_from_usize(value).unwrap())
    }''','''        None
    }

    fn encode(&self, value: Self::Value<'_>) -> Option<usize> {
        Some(self.try_get_or_intern(value).ok()?.into_usize())
    }

    fn decode(&self, value: usize) -> Self::Value<'_> {
        let key = K::try_from_usize(value).expect("every key has an index");
        self.resolve(&key)
    }'''))
# names
E('n8-find','all',(N,'''    value.bytes().try_fold((), |(), b| match b {
        b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z' | b'_' | b':' => Ok(()),
        _ => Err(InvalidMetricName::InvalidChars),
    })?;

    if value.as_bytes()[0].is_ascii_digit() {
        return Err(InvalidMetricName::StartsWithNumber);
    }

    Ok(())''','''    let valid = |b: u8| b.is_ascii_alphanumeric() || b == b'_' || b == b':';
    if value.bytes().find(|b| !valid(*b)).is_some() {
        return Err(InvalidMetricName::InvalidChars);
    }

    match value.as_bytes().first() {
        Some(b'0'..=b'9') => Err(InvalidMetricName::StartsWithNumber),
        _ => Ok(()),
    }'''))
E('n8-chars','all',(N,'''    value.bytes().try_fold((), |(), b| match b {
        b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z' | b'_' | b':' => Ok(()),
        _ => Err(InvalidMetricName::InvalidChars),
    })?;
''','''    if !value
        .chars()
        .all(|c| c.is_ascii_alphanumeric() || matches!(c, '_' | ':'))
    {
        return Err(InvalidMetricName::InvalidChars);
    }
'''))
E('n8-first-split','all',(N,'''    if value.is_empty() {
        return Err(InvalidMetricName::Empty);
    }

    value.bytes()''','''    let Some(first) = value.bytes().next() else {
        return Err(InvalidMetricName::Empty);
    };

    value.bytes()'''),(N,'''    if value.as_bytes()[0].is_ascii_digit() {
        return Err(InvalidMetricName::StartsWithNumber);
    }

    Ok(())''','''    if first.is_ascii_digit() {
        return Err(InvalidMetricName::StartsWithNumber);
    }

    Ok(())'''))
E('n8-const-recur','all',(N,'''    let mut i = 0;
    while i < name.len() {
        match name.as_bytes()[i] {
            b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z' | b'_' | b':' => {}
            _ => panic!("string should only contain [a-zA-Z0-9_:]"),
        }
        i += 1;
    }
''','''    let mut rest = name.as_bytes();
    while let [first, tail @ ..] = rest {
        assert!(
            first.is_ascii_alphanumeric() || *first == b'_' || *first == b':',
            "string should only contain [a-zA-Z0-9_:]"
        );
        rest = tail;
    }
'''))
E('n8-suffix-len','all',(N,'''        b.write_all(b"_bucket")
    }
    fn encode_len(&self) -> usize {
        7
    }''','''        b.write_all("_bucket".as_bytes())
    }
    fn encode_len(&self) -> usize {
        "_bucket".len()
    }'''))
# process
E('pr8-report','all',(PR,'''fn clk_tck() -> i64 {''','''#[cfg(target_os = "linux")]
fn report<Enc: Encoding>(
    enc: &mut Enc,
    name: &'static str,
    help: &str,
    value: i64,
) -> Result<(), Enc::Err>
where
    GaugeState: MetricEncoding<Enc>,
{
    let name = MetricName::from_str(name);
    enc.write_help(name, help)?;
    write_gauge(enc, name, NoLabels, value)
}

fn clk_tck() -> i64 {'''),(PR,'''                let threads = MetricName::from_str("threads");
                enc.write_help(threads, "Number of OS threads in the process.")?;
                write_gauge(enc, threads, NoLabels, stat.num_threads)?;''','''                report(enc, "threads", "Number of OS threads in the process.", stat.num_threads)?;'''),(PR,'''                let rss = MetricName::from_str("resident_memory_bytes");
                enc.write_help(rss, "Resident memory size in bytes.")?;
                write_gauge(enc, rss, NoLabels, (stat.rss as i64) * pagesize())?;''','''                let rss = stat.rss as i64 * pagesize();
                report(enc, "resident_memory_bytes", "Resident memory size in bytes.", rss)?;'''))
E('pr8-table','all',(PR,'''                // cpu
                let cpu = MetricName::from_str("cpu_seconds_total");
                enc.write_help(cpu, "Total user and system CPU time spent in seconds.")?;
                write_gauge(
                    enc,
                    cpu,
                    NoLabels,
                    (stat.utime + stat.stime) as i64 / clk_tck(),
                )?;

                // threads
                let threads = MetricName::from_str("threads");
                enc.write_help(threads, "Number of OS threads in the process.")?;
                write_gauge(enc, threads, NoLabels, stat.num_threads)?;''','''                let cpu = (stat.utime + stat.stime) as i64 / clk_tck();
                let rows = [
                    (
                        MetricName::from_str("cpu_seconds_total"),
                        "Total user and system CPU time spent in seconds.",
                        cpu,
                    ),
                    (
                        MetricName::from_str("threads"),
                        "Number of OS threads in the process.",
                        stat.num_threads,
                    ),
                ];
                for (name, help, value) in rows {
                    enc.write_help(name, help)?;
                    write_gauge(enc, name, NoLabels, value)?;
                }'''))
E('pr8-start-fn','all',(PR,'''        let mut start_time = None;
        #[cfg(target_os = "linux")]
        if let Ok(boot_time) = procfs::boot_time_secs() {
            if let Ok(stat) = procfs::process::Process::new(pid).and_then(|p| p.stat()) {
                start_time = Some(stat.starttime as i64 / clk_tck() + boot_time as i64);
            }
        }
''','''        #[cfg(target_os = "linux")]
        let start_time = start_time(pid);
        #[cfg(not(target_os = "linux"))]
        let start_time = None;
'''),(PR,'''fn clk_tck() -> i64 {''','''#[cfg(target_os = "linux")]
fn start_time(pid: pid_t) -> Option<i64> {
    let boot_time = procfs::boot_time_secs().ok()? as i64;
    let process = procfs::process::Process::new(pid).ok()?;
    let ticks = process.stat().ok()?.starttime as i64;
    Some(boot_time + ticks / clk_tck())
}

fn clk_tck() -> i64 {'''))
# tokio
E('tk8-named-iter','all',(TK,'''        collect(&self.runtimes.read().unwrap(), enc)''','''        let runtimes = self.runtimes.read().unwrap();
        collect(runtimes.as_slice(), enc)'''))
E('tk8-le','all',(TK,'''    let le = rt.poll_count_histogram_bucket_range(bucket).end;
    let le = if le == Duration::from_nanos(u64::MAX) {
        f64::INFINITY
    } else {
        le.as_secs_f64()
    };
    HistogramLabelLe { le }''','''    const UNBOUNDED: Duration = Duration::from_nanos(u64::MAX);
    match rt.poll_count_histogram_bucket_range(bucket).end {
        UNBOUNDED => HistogramLabelLe { le: f64::INFINITY },
        end => HistogramLabelLe {
            le: end.as_secs_f64(),
        },
    }'''))
E('tk8-le-ge','all',(TK,'''    let le = if le == Duration::from_nanos(u64::MAX) {
        f64::INFINITY
    } else {
        le.as_secs_f64()
    };''','''    let le = if le != Duration::from_nanos(u64::MAX) {
        le.as_secs_f64()
    } else {
        f64::INFINITY
    };'''))
E('tk8-poll-fn','all',(TK,'''                let buckets = rt.poll_count_histogram_num_buckets();
                let mut total = 0;
                for bucket in 0..buckets {
                    let le = histogram_le(rt, bucket);
                    total += rt.poll_count_histogram_bucket_count(worker, bucket);
                    write_counter!(Bucket, worker_label.compose_with(le), total);
                }''','''                let mut total = 0;
                let mut bucket = 0;
                while bucket < rt.poll_count_histogram_num_buckets() {
                    total += rt.poll_count_histogram_bucket_count(worker, bucket);
                    let labels = worker_label.compose_with(histogram_le(rt, bucket));
                    write_counter!(Bucket, labels, total);
                    bucket += 1;
                }''')) if False else None
E('tk8-qkind-str','all',(TK,'''            QueueKind::Worker(i) => v.write_str(itoa::Buffer::new().format(*i)),
            QueueKind::Blocking => v.write_str("blocking"),
            QueueKind::Injection => v.write_str("injection"),''','''            QueueKind::Blocking => v.write_str("blocking"),
            QueueKind::Injection => v.write_str("injection"),
            QueueKind::Worker(worker) => {
                let mut buffer = itoa::Buffer::new();
                v.write_str(buffer.format(*worker))
            }'''))
E('tk8-overflow','all',(TK,'''        v.write_value(OVERFLOW, if self.0 { &Str("true") } else { &Str("false") });''','''        let value = match self.0 {
            true => Str("true"),
            false => Str("false"),
        };
        v.write_value(OVERFLOW, &value);'''))
E('tk8-name-match','all',(TK,'''        if let Some(name) = self.name.as_deref() {
            v.write_value(LE, &Str(name));
        }''','''        match &self.name {
            Some(Cow::Borrowed(name)) => v.write_value(LE, &Str(name)),
            Some(Cow::Owned(name)) => v.write_value(LE, &Str(name.as_str())),
            None => return,
        };'''))
# proto
E('p8-varint','all',(PE,'''    for _ in 0..10 {
        if value < 0x80 {
            buf.put_u8(value as u8);
            break;
        } else {
            buf.put_u8(((value & 0x7F) | 0x80) as u8);
            value >>= 7;
        }
    }''','''    while value > 0x7F {
        buf.put_u8(value as u8 | 0x80);
        value /= 128;
    }
    buf.put_u8(value as u8);'''))
E('p8-key','all',(PE,'''    let key = (tag << 3) | wire_type as u32;
    encode_varint(u64::from(key), buf);''','''    let tag = u64::from(tag);
    let wire_type = wire_type as u64;
    encode_varint((tag << 3) + wire_type, buf);'''))
E('p8-double','all',(PE,'''        buf.put_f64_le(*value);''','''        buf.put_slice(&value.to_le_bytes());'''))
E('p8-double2','all',(PE,'''        buf.put_f64_le(*value);''','''        buf.put_u64_le(value.to_bits());'''))
E('p8-pair-len','all',(P,'''        let mut label_pair_len = 0;

        label_pair_len += encoding::string::encoded_len(1, name.as_str());
        label_pair_len += x.visit(LenVisitor {});

        self.len += message_len(1, label_pair_len);''','''        let name_len = encoding::string::encoded_len(1, name.as_str());
        let value_len = x.visit(LenVisitor {});

        self.len = message_len(1, name_len + value_len) + self.len;'''))
E('p8-flush-split','all',(P,'''            let len = self.buf.len() - 10;
            let varint_len = encoded_len_varint(len as u64);
            let offset = 10 - varint_len;
            encode_varint(len as u64, &mut &mut self.buf[offset..]);
            res = self.writer.write_all(&self.buf[offset..]);''','''            let len = self.buf[10..].len() as u64;
            let offset = 10 - encoded_len_varint(len);
            let mut prefix = &mut self.buf[offset..10];
            encode_varint(len, &mut prefix);
            res = self.writer.write_all(&self.buf[offset..]);'''))
E('p8-float-str','all',(P,'''        if x.is_infinite() {
            if x.is_sign_positive() {
                encoding::string::encoded_len(2, "+Inf")
            } else {
                encoding::string::encoded_len(2, "-Inf")
            }
        } else if x.is_nan() {
            encoding::string::encoded_len(2, "NaN")
        } else {
            encoding::string::encoded_len(2, ryu::Buffer::new().format(x))
        }''','''        match x {
            f64::INFINITY => self.write_str("+Inf"),
            f64::NEG_INFINITY => self.write_str("-Inf"),
            x if x.is_nan() => self.write_str("NaN"),
            x => self.write_str(ryu::Buffer::new().format(x)),
        }'''))
E('p8-family-name','all',(P,'''        let mut field = Vec::new();
        encode_key(1, LengthDelimited, &mut field);
        encode_varint(name.encode_len() as u64, &mut field);
        name.encode_utf8(&mut field)?;
''','''        let mut field = Vec::with_capacity(2 + name.encode_len());
        encode_name(&name, &mut field)?;
'''),(P,'''        encode_key(1, LengthDelimited, &mut self.buf);
        encode_varint(name.encode_len() as u64, &mut self.buf);
        name.encode_utf8(&mut self.buf)?;
''','''        encode_name(&name, &mut self.buf)?;
'''),(P,'''struct LenVisitor {}
''','''fn encode_name(name: &impl MetricNameEncoder, buf: &mut Vec<u8>) -> Result<(), std::io::Error> {
    encode_key(1, LengthDelimited, buf);
    encode_varint(name.encode_len() as u64, buf);
    name.encode_utf8(buf)
}

struct LenVisitor {}
'''))
