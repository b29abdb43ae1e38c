T='core/src/text.rs'; H='core/src/metric/histogram.rs'; M='core/src/metric.rs'; SP='core/src/metric/sparse.rs'; N='core/src/metric/name.rs'; G='core/src/metric/gauge.rs'; C='core/src/metric/counter.rs'
LG='core/src/label/group.rs'; LI='core/src/label/impls.rs'; LV='core/src/label/value.rs'; LN='core/src/label/name.rs'; MG='core/src/metric/group.rs'
P='prometheus-proto/src/lib.rs'; PE='prometheus-proto/src/encoding.rs'; PR='process/src/lib.rs'; TK='tokio/src/lib.rs'
DG='derive/src/label_group/to_tokens.rs'; DV='derive/src/value/to_tokens.rs'; DM='derive/src/metric_group/to_tokens.rs'
# ---- names
E('n-charclass','all',(N,'''fn try_assert_metric_name(value: &str) -> Result<(), InvalidMetricName> {
    if value.is_empty() {
        return Err(InvalidMetricName::Empty);
    }

    value.bytes().try_fold((), |(), b| match b {
        b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z' | b'_' | b':' => Ok(()),
        _ => Err(InvalidMetricName::InvalidChars),
    })?;

    if value.as_bytes()[0].is_ascii_digit() {
        return Err(InvalidMetricName::StartsWithNumber);
    }

    Ok(())
}''','''const fn is_metric_name_byte(b: u8) -> bool {
    b.is_ascii_alphanumeric() || matches!(b, b'_' | b':')
}

fn try_assert_metric_name(value: &str) -> Result<(), InvalidMetricName> {
    let Some(first) = value.as_bytes().first() else {
        return Err(InvalidMetricName::Empty);
    };

    if !value.bytes().all(is_metric_name_byte) {
        return Err(InvalidMetricName::InvalidChars);
    }

    if first.is_ascii_digit() {
        return Err(InvalidMetricName::StartsWithNumber);
    }

    Ok(())
}'''))
E('n-any','all',(N,'''    value.bytes().try_fold((), |(), b| match b {
        b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z' | b'_' | b':' => Ok(()),
        _ => Err(InvalidMetricName::InvalidChars),
    })?;
''','''    let invalid = |b: &u8| !matches!(b, b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z' | b'_' | b':');
    if value.as_bytes().iter().any(invalid) {
        return Err(InvalidMetricName::InvalidChars);
    }
'''))
E('n-forloop','all',(N,'''    value.bytes().try_fold((), |(), b| match b {
        b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z' | b'_' | b':' => Ok(()),
        _ => Err(InvalidMetricName::InvalidChars),
    })?;

    if value.as_bytes()[0].is_ascii_digit() {
        return Err(InvalidMetricName::StartsWithNumber);
    }

    Ok(())''','''    for &b in value.as_bytes() {
        let valid = b.is_ascii_alphanumeric() || b == b'_' || b == b':';
        if !valid {
            return Err(InvalidMetricName::InvalidChars);
        }
    }

    match value.as_bytes()[0] {
        b'0'..=b'9' => Err(InvalidMetricName::StartsWithNumber),
        _ => Ok(()),
    }'''))
E('n-const-helper','all',(N,'''        match name.as_bytes()[i] {
            b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z' | b'_' | b':' => {}
            _ => panic!("string should only contain [a-zA-Z0-9_:]"),
        }
        i += 1;''','''        let b = name.as_bytes()[i];
        if !(b.is_ascii_alphanumeric() || b == b'_' || b == b':') {
            panic!("string should only contain [a-zA-Z0-9_:]");
        }
        i += 1;'''))
E('n-const-split','all',(N,'''    let mut i = 0;
    while i < name.len() {
        match name.as_bytes()[i] {
            b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z' | b'_' | b':' => {}
            _ => panic!("string should only contain [a-zA-Z0-9_:]"),
        }
        i += 1;
    }
''','''    let mut rest = name.as_bytes();
    while let [first, tail @ ..] = rest {
        match first {
            b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z' | b'_' | b':' => {}
            _ => panic!("string should only contain [a-zA-Z0-9_:]"),
        }
        rest = tail;
    }
'''))
E('n-unsafe-helper','all',(N,'''        // SAFETY: `MetricName` is transparent over `str`. There's no way to do this safely.
        // I could use bytemuck::TransparentWrapper, but the trait enabled users to skip this validation function.
        unsafe { &*(value as *const str as *const MetricName) }
    }

    /// Construct a [`MetricName`] from a string
    ///
    /// # Errors''','''        Self::from_str_unchecked(value)
    }

    const fn from_str_unchecked(value: &str) -> &Self {
        // SAFETY: `MetricName` is transparent over `str`. There's no way to do this safely.
        // I could use bytemuck::TransparentWrapper, but the trait enabled users to skip this validation function.
        unsafe { &*(value as *const str as *const MetricName) }
    }

    /// Construct a [`MetricName`] from a string
    ///
    /// # Errors'''),(N,'''        // SAFETY: `MetricName` is transparent over `str`. There's no way to do this safely.
        // I could use bytemuck::TransparentWrapper, but the trait enabled users to skip this validation function.
        Ok(unsafe { &*(value as *const str as *const MetricName) })''','''        Ok(Self::from_str_unchecked(value))'''))
E('n-ns-encoder','all',(N,'''        b.write_all(self.namespace.0.as_bytes())?;
        b.write_all(b"_")?;
        self.inner.encode_utf8(b)''','''        self.namespace.encode_utf8(b)?;
        b.write_all(b"_").and_then(|()| self.inner.encode_utf8(b))'''),(N,'''        self.namespace.0.len() + 1 + self.inner.encode_len()''','''        self.inner.encode_len() + b"_".len() + self.namespace.encode_len()'''))
E('n-suffix-const','all',(N,'''impl Suffix for Bucket {
    fn encode_text(&self, b: &mut impl Write) -> std::io::Result<()> {
        b.write_all(b"_bucket")
    }
    fn encode_len(&self) -> usize {
        7
    }
}''','''impl Bucket {
    const TEXT: &'static str = "_bucket";
}

impl Suffix for Bucket {
    fn encode_text(&self, b: &mut impl Write) -> std::io::Result<()> {
        b.write_all(Self::TEXT.as_bytes())
    }
    fn encode_len(&self) -> usize {
        Self::TEXT.len()
    }
}'''))
E('n-suffix-two','all',(N,'''        b.write_all(b"_total")''','''        b.write_all(b"_")?;
        b.write_all(b"total")'''))
E('n-write-macro','all',(N,'''        b.write_all(self.namespace.0.as_bytes())?;
        b.write_all(b"_")?;''','''        write!(b, "{}_", &self.namespace.0)?;'''))
# ---- label groups
E('g-composed-direct','all',(LG,'''        let mut mul = 1;
        let mut index = 0;

        index += self.1.encode_dense(values.1)? * mul;
        mul *= self.1.cardinality()?;

        index += self.0.encode_dense(values.0)? * mul;
        // mul *= self.1.cardinality()?;

        Some(index)''','''        let low = self.1.encode_dense(values.1)?;
        let width = self.1.cardinality()?;
        let high = self.0.encode_dense(values.0)?;
        Some(high * width + low)'''))
E('g-composed-zip','all',(LG,'''        self.0
            .cardinality()
            .and_then(|x| x.checked_mul(self.1.cardinality()?))''','''        match (self.0.cardinality(), self.1.cardinality()) {
            (Some(a), Some(b)) => a.checked_mul(b),
            _ => None,
        }'''))
E('g-composed-decode','all',(LG,'''        let index = value;
        let (index, index1) = (
            index / self.1.cardinality().unwrap(),
            index % self.1.cardinality().unwrap(),
        );
        let b = self.1.decode_dense(index1);
        let (index, index1) = (
            index / self.0.cardinality().unwrap(),
            index % self.0.cardinality().unwrap(),
        );
        let a = self.0.decode_dense(index1);
        debug_assert_eq!(index, 0);
        ComposedGroup(a, b)''','''        let width = self.1.cardinality().unwrap();
        ComposedGroup(
            self.0.decode_dense(value / width),
            self.1.decode_dense(value % width),
        )'''))
E('g-composed-destructure','all',(LG,'''        Some(ComposedGroup(
            self.0.encode(value.0)?,
            self.1.encode(value.1)?,
        ))''','''        let ComposedGroup(a, b) = value;
        let a = self.0.encode(a)?;
        self.1.encode(b).map(|b| ComposedGroup(a, b))'''))
E('g-visit-destructure','all',(LG,'''        self.0.visit_values(v);
        self.1.visit_values(v);''','''        let Self(first, second) = self;
        first.visit_values(v);
        second.visit_values(v);'''))
E('g-arc-asref','all',(LG,'''impl<T: LabelGroupSet + ?Sized> LabelGroupSet for Arc<T> {
    type Group<'a> = T::Group<'a>;

    fn cardinality(&self) -> Option<usize> {
        T::cardinality(self)
    }''','''impl<T: LabelGroupSet + ?Sized> LabelGroupSet for Arc<T> {
    type Group<'a> = T::Group<'a>;

    fn cardinality(&self) -> Option<usize> {
        self.as_ref().cardinality()
    }'''))
# ---- sets
E('i-rodeo-map','all',(LI,'''        Some(self.get(value)?.into_usize())''','''        self.get(value).map(|key| key.into_usize())'''))
E('i-rodeo-expect','all',(LI,'''        self.resolve(&K::try_from_usize(value).unwrap())
    }
}

#[cfg(feature = "lasso")]
impl<K: lasso::Key + core''','''        let key = K::try_from_usize(value).expect("index out of range");
        self.resolve(&key)
    }
}

#[cfg(feature = "lasso")]
impl<K: lasso::Key + core'''))
E('i-indexset-index','all',(LI,'''        self.get_index(value).unwrap().clone()''','''        self[value].clone()'''))
E('i-threaded-match','all',(LI,'''        Some(self.try_get_or_intern(value).ok()?.into_usize())''','''        match self.try_get_or_intern(value) {
            Ok(key) => Some(key.into_usize()),
            Err(_) => None,
        }'''))
E('i-string-asstr','all',(LI,'''impl LabelValue for String {
    fn visit<V: LabelVisitor>(&self, v: V) -> V::Output {
        v.write_str(self)''','''impl LabelValue for String {
    fn visit<V: LabelVisitor>(&self, v: V) -> V::Output {
        self.as_str().visit(v)'''))
E('v-static-via','all',(LV,'''impl<T: FixedCardinalityLabel + LabelGroup> LabelGroupSet for StaticLabelSet<T> {
    type Group<'a> = T;

    fn cardinality(&self) -> Option<usize> {
        LabelSet::dynamic_cardinality(self)
    }''','''impl<T: FixedCardinalityLabel + LabelGroup> LabelGroupSet for StaticLabelSet<T> {
    type Group<'a> = T;

    fn cardinality(&self) -> Option<usize> {
        Some(T::cardinality())
    }'''),(LV,'''    fn encode(&self, value: Self::Group<'_>) -> Option<Self::Unique> {
        LabelSet::encode(self, value)
    }''','''    fn encode(&self, value: Self::Group<'_>) -> Option<Self::Unique> {
        Some(FixedCardinalityLabel::encode(&value))
    }'''))
# ---- metric groups
E('mg-composed','all',(MG,'''        self.0.collect_group_into(enc)?;
        self.1.collect_group_into(enc)?;
        Ok(())''','''        let ComposedGroup(a, b) = self;
        a.collect_group_into(enc).and_then(|()| b.collect_group_into(enc))'''))
E('mg-option-match','all',(MG,'''        if let Some(this) = self {
            this.collect_group_into(enc)?;
        }
        Ok(())''','''        match self {
            Some(this) => this.collect_group_into(enc),
            None => Ok(()),
        }'''))
E('mg-option-iter','all',(MG,'''        if let Some(this) = self {
            this.collect_group_into(enc)?;
        }
        Ok(())''','''        self.iter().try_for_each(|this| this.collect_group_into(enc))'''))
E('mg-ns-local','all',(MG,'''        self.inner.collect_group_into(&mut WithNamespace {
            namespace: self.namespace,
            inner: enc,
        })''','''        let Self { namespace, inner } = self;
        let mut enc = WithNamespace { namespace, inner: enc };
        inner.collect_group_into(&mut enc)'''))
E('mg-ns-helper','all',(MG,'''        self.inner.write_help(
            WithNamespace {
                namespace: self.namespace,
                inner: name,
            },
            help,
        )''','''        let name = prefixed(self, name);
        self.inner.write_help(name, help)'''),(MG,'''impl<E: Encoding> Encoding for WithNamespace<E> {''','''fn prefixed<E, N>(enc: &WithNamespace<E>, inner: N) -> WithNamespace<N> {
    WithNamespace {
        namespace: enc.namespace,
        inner,
    }
}

impl<E: Encoding> Encoding for WithNamespace<E> {'''),(MG,'''        M::write_type(
            WithNamespace {
                namespace: enc.namespace,
                inner: name,
            },
            &mut enc.inner,
        )''','''        M::write_type(prefixed(enc, name), &mut enc.inner)'''))
