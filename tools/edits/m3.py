T='core/src/text.rs'; H='core/src/metric/histogram.rs'; M='core/src/metric.rs'; SP='core/src/metric/sparse.rs'; N='core/src/metric/name.rs'; G='core/src/metric/gauge.rs'; C='core/src/metric/counter.rs'
LG='core/src/label/group.rs'; LI='core/src/label/impls.rs'; LV='core/src/label/value.rs'; LN='core/src/label/name.rs'; MG='core/src/metric/group.rs'
P='prometheus-proto/src/lib.rs'; PE='prometheus-proto/src/encoding.rs'; PR='process/src/lib.rs'; TK='tokio/src/lib.rs'
DL='derive/src/label_group/to_tokens.rs'; DM='derive/src/metric_group/to_tokens.rs'; DV='derive/src/value/to_tokens.rs'; DVA='derive/src/value/attr.rs'; DMA='derive/src/metric_group/attr.rs'
# ---- groups
E('b-comp-card-sat','C05,C06',(LG,'.and_then(|x| x.checked_mul(self.1.cardinality()?))','.and_then(|x| Some(x.saturating_mul(self.1.cardinality()?)))'))
E('b-comp-card-wrap','C05,C06',(LG,'.and_then(|x| x.checked_mul(self.1.cardinality()?))','.and_then(|x| Some(x.wrapping_mul(self.1.cardinality()?)))'))
E('b-comp-enc-mul0','C05,C06',(LG,'mul *= self.1.cardinality()?;\n\n        index += self.0','mul *= self.0.cardinality()?;\n\n        index += self.0'))
E('b-comp-decode-swap','C05',(LG,'index / self.1.cardinality().unwrap(),\n            index % self.1','index / self.0.cardinality().unwrap(),\n            index % self.1'))
E('b-comp-decode-unique','C05,C07',(LG,'ComposedGroup(self.0.decode(&value.0), self.1.decode(&value.1))','{ let b = self.1.decode(&value.1); let a = self.0.decode(&value.0); let _ = &b; ComposedGroup(a, self.1.decode_dense(self.1.encode_dense(value.1).unwrap_or(0))) }'))
E('b-comp-visit-order','C05,C07,C14',(LG,'self.0.visit_values(v);\n        self.1.visit_values(v);','self.1.visit_values(v);\n        self.0.visit_values(v);'))
E('b-arc-card-none','C05,C06',(LG,'''impl<T: LabelGroupSet + ?Sized> LabelGroupSet for Arc<T> {
    type Group<'a> = T::Group<'a>;

    fn cardinality(&self) -> Option<usize> {
        T::cardinality(self)
    }

    fn encode_dense(&self, value: Self::Unique) -> Option<usize> {
        T::encode_dense(self, value)''','''impl<T: LabelGroupSet + ?Sized> LabelGroupSet for Arc<T> {
    type Group<'a> = T::Group<'a>;

    fn cardinality(&self) -> Option<usize> {
        T::cardinality(self)
    }

    fn encode_dense(&self, value: Self::Unique) -> Option<usize> {
        T::encode_dense(self, value).map(|x| x & 0xffff)'''))
E('b-lasso-dyn-get','C05',(LI,'self.try_get_or_intern(value).ok()?','self.get(value)?'))
E('b-lasso-dyn-card','C05,C06',(LI,'''    type Value<'a> = &'a str;

    fn dynamic_cardinality(&self) -> Option<usize> {
        None''','''    type Value<'a> = &'a str;

    fn dynamic_cardinality(&self) -> Option<usize> {
        Some(self.len())'''))
E('b-reader-off','C05,C06',(LI,'Some(self.get(value)?.into_usize())','Some(self.get(value).map_or(0, |k| k.into_usize()))'))
E('b-indexset-last','C05,C24',(LI,'self.get_index(value).unwrap().clone()','self.get_index(value).or(self.last()).unwrap().clone()'))
E('b-phf-cap','C05,C06',(LI,'''    fn dynamic_cardinality(&self) -> Option<usize> {
        Some(self.len())
    }

    fn encode(&self, value: Self::Value<'_>) -> Option<usize> {
        self.get_index(value)''','''    fn dynamic_cardinality(&self) -> Option<usize> {
        Some(self.iter().filter(|x| !x.is_empty()).count())
    }

    fn encode(&self, value: Self::Value<'_>) -> Option<usize> {
        self.get_index(value)'''))
E('b-fixedset-arc','C05,C06',(LI,'<T as FixedCardinalitySet>::cardinality(self)','<T as LabelSet>::dynamic_cardinality(self).unwrap_or(1)'))
# ---- derive labels
E('b-d-card-none','C05,C06',(DL,'#( .and_then(|x| x.checked_mul(#cardinalities)) )*','#( .map(|x| x.wrapping_mul(#cardinalities)) )*'))
E('b-d-enc-add','C05',(DL,'#fixed_encodes.checked_mul(mul?)?.checked_add(index)?','#fixed_encodes.checked_mul(mul?)? | index'))
E('b-d-enc-sat','C05',(DL,'#fixed_encodes.checked_mul(mul?)?.checked_add(index)?','#fixed_encodes.saturating_mul(mul?).checked_add(index)?'))
E('b-d-dyn-order','C05',(DL,'let index = &dynamic_indices[i];','let index = &dynamic_indices[dynamic_indices.len() - 1 - i];'))
E('b-d-decode-card','C05',(DL,'let (index, index1) = (index / card, index % card);','let (index, index1) = (index / card, index & (card.next_power_of_two() - 1));'))
E('b-d-visit-sorted','C05,C07',(DL,'let visits = fields.iter().map','let visits = fields.iter().filter(|x| x.attrs.rename.as_ref().map_or(true, |r| !r.value().starts_with("__"))).map'))
E('b-d-visit-rename','C05,C24,C07',(DL,'attrs.rename.as_ref().map_or_else(|| name.to_string(), |r| r.value());\n            let ident','attrs.rename.as_ref().map_or_else(|| name.to_string(), |r| r.value().to_lowercase());\n            let ident'))
# ---- derive enum
E('b-v-rename-all','C24',(DV,'syn::LitStr::value,','|s| rename_all.apply(&s.value()),'))
E('b-v-int-str','C24',(DV,'quote_spanned!(int.span() => v.write_int(#int))','quote_spanned!(int.span() => v.write_int(#int as u32 as i64))'))
E('b-v-title','C24',(DVA,'RenameAll::Train => s.to_train_case()','RenameAll::Train => s.to_title_case().replace(\' \', "-")'))
E('b-v-shouty','C24',(DVA,'RenameAll::ShoutyKebab => s.to_shouty_kebab_case()','RenameAll::ShoutyKebab => s.to_kebab_case().to_uppercase().replace("--", "-")'))
E('b-v-decode-mod','C24',(DV,'match value {\n                        #(#count2','match value % #cardinality.max(1) {\n                        #(#count2'))
# ---- derive metric groups
E('b-m-help-late','C23,C14',(DM,'''                        #help
                        <#ty as #krate::metric::MetricFamilyEncoding<#enc>>::collect_family_into(&self.#name, #ident, enc)?;''','''                        <#ty as #krate::metric::MetricFamilyEncoding<#enc>>::collect_family_into(&self.#name, #ident, enc)?;
                        #help'''))
E('b-m-doc-first','C23',(DMA,'docs.get_or_insert_with(String::new).push_str(&s.value());','docs.get_or_insert_with(|| s.value());'))
E('b-m-doc-lines','C23',(DM,'let doc = doc.trim();','let doc = doc.trim().trim_end_matches(\'.\');'))
E('b-m-ns-empty','C23,C22',(DM,'&#krate::metric::name::WithNamespace::new(#ns, &self.#name),','&#krate::metric::name::WithNamespace::new(#ns, &&self.#name),'))
E('b-m-ns-err','C23,C15',(DM,'''                            &#krate::metric::name::WithNamespace::new(#ns, &self.#name),
                            enc,
                        )?;''','''                            &#krate::metric::name::WithNamespace::new(#ns, &self.#name),
                            enc,
                        ).ok();'''))
E('b-m-groups-last','C23',(DM,'let visits = fields.iter().map(|x| {','let mut order: Vec<_> = fields.iter().collect();\n        order.sort_by_key(|f| !matches!(f.attrs.kind, MetricGroupFieldAttrsKind::Metric { .. }));\n        let visits = order.into_iter().map(|x| {'))
# ---- names
E('b-n-try-utf8','C16',(N,"value.bytes().try_fold((), |(), b| match b {","value.bytes().take(128).try_fold((), |(), b| match b {"))
E('b-n-try-digit','C16',(N,"if value.as_bytes()[0].is_ascii_digit() {","if value.as_bytes()[0].is_ascii_digit() && value.len() > 1 {"))
E('b-n-const-last','C16',(LN,'while i < name.len() {','while i + 1 < name.len() || i == 0 {'))
E('b-n-ns-colon','C16,C18,C22',(N,'b.write_all(b"_")?;','b.write_all(if self.namespace.0.as_bytes().ends_with(b"_") { b"" } else { b"_" })?;'))
E('b-n-suffix-mid','C18,C22',(N,'self.metric_name.encode_len() + self.suffix.encode_len()','self.metric_name.encode_len().max(1) + self.suffix.encode_len()'))
E('b-g-ns-type','C22',(MG,'''        M::write_type(
            WithNamespace {
                namespace: enc.namespace,
                inner: name,
            },
            &mut enc.inner,
        )''','''        M::write_type(name, &mut enc.inner)'''))
E('b-g-arc','C22,C07,C23',(MG,'''    fn collect_group_into(&self, enc: &mut T) -> Result<(), T::Err> {
        M::collect_group_into(self, enc)
    }''','''    fn collect_group_into(&self, enc: &mut T) -> Result<(), T::Err> {
        if Arc::strong_count(self) > 64 {
            return Ok(());
        }
        M::collect_group_into(self, enc)
    }'''))
E('b-g-comp-swallow','C15,C23,C07',(MG,'''        self.0.collect_group_into(enc)?;
        self.1.collect_group_into(enc)?;
        Ok(())''','''        let a = self.0.collect_group_into(enc);
        self.1.collect_group_into(enc)?;
        a'''))
# ---- gauges
E('b-gf-setmut','C02',(G,'*self.inner.get_mut() = f.to_bits();','*self.inner.get_mut() = (f + 0.0).to_bits();'))
E('b-gf-cas-retry','C02',(G,'''        loop {
            let current = self.inner.load(Ordering::Acquire);
            let new = f64::from_bits(current) + delta;''','''        let mut current = self.inner.load(Ordering::Acquire);
        loop {
            let new = f64::from_bits(current) + delta;'''),(G,'''            if result.is_ok() {
                return;
            }''','''            match result {
                Ok(_) => return,
                Err(_) => current = new.to_bits(),
            }'''))
E('b-gf-nochange','C02',(G,'let new = f64::from_bits(current) + delta;','let new = f64::from_bits(current) + delta;\n            if new == f64::from_bits(current) && new.is_infinite() {\n                return;\n            }'))
E('b-gf-nan-skip','C02',(G,'let new = f64::from_bits(current) + delta;','let new = f64::from_bits(current) + delta;\n            if new.is_nan() {\n                return;\n            }'))
E('b-g-wg-clamp','C31,C27,C28',(G,'''    GaugeState {
        count: AtomicI64::new(value),
    }
    .collect_into''','''    GaugeState {
        count: AtomicI64::new(value.max(0)),
    }
    .collect_into'''))
# ---- process
E('b-pr-unlimited','C27',(PR,'write_gauge(enc, fd, NoLabels, max as i64)?;','write_gauge(enc, fd, NoLabels, max as i32 as i64)?;'))
E('b-pr-cpu','C27',(PR,'(stat.utime + stat.stime) as i64 / clk_tck(),','stat.utime as i64 / clk_tck() + stat.stime as i64 / clk_tck(),'))
E('b-pr-rss','C27',(PR,'(stat.rss as i64) * pagesize()','(stat.rss as i64) * clk_tck().max(pagesize())'))
E('b-pr-pid','C27',(PR,'procfs::process::Process::new(self.pid) else','procfs::process::Process::new(if self.start_time.is_some() { self.pid } else { unsafe { libc::getpid() } }) else'))
# ---- tokio
E('b-tk-overflow','C28',(TK,'''                    Worker(worker).compose_with(Overflow(false)),
                    rt.worker_local_schedule_count(worker)''','''                    Worker(worker).compose_with(Overflow(false)),
                    rt.worker_local_schedule_count(worker) - rt.worker_overflow_count(worker)'''))
E('b-tk-total','C28',(TK,'''                let mut total = 0;
                for bucket in 0..buckets {
                    let le = histogram_le(rt, bucket);
                    total += rt''','''                let mut total = 0;
                for bucket in 0..buckets {
                    let le = histogram_le(rt, bucket);
                    total = total.max(1) - 1 + total.min(1) + rt'''))
E('b-tk-le-start','C28',(TK,'let le = rt.poll_count_histogram_bucket_range(bucket).end;','let r = rt.poll_count_histogram_bucket_range(bucket);\n    let le = if r.end.is_zero() { r.start } else { r.end };'))
E('b-tk-le-last','C28',(TK,'if le == Duration::from_nanos(u64::MAX) {','if le >= Duration::from_secs(3600) {'))
E('b-tk-qkind','C28',(TK,'QueueKind::Injection => v.write_str("injection")','QueueKind::Injection => v.write_str("global")'))
E('b-tk-name-empty','C28',(TK,'if let Some(name) = self.name.as_deref() {','if let Some(name) = self.name.as_deref().filter(|x| !x.trim().is_empty()) {'))
E('b-tk-named-first','C28,C26',(TK,'collect(&self.runtimes.read().unwrap(), enc)','match self.runtimes.try_read() {\n            Ok(rts) => collect(&rts, enc),\n            Err(_) => Ok(()),\n        }'))
E('b-tk-add-dup','C28',(TK,'''        self.runtimes
            .write()
            .unwrap()
            .push(RuntimeCollector::new(rt).with_name(name))''','''        let name = name.into();
        let mut rts = self.runtimes.write().unwrap();
        if rts.iter().any(|r| r.name.name.as_ref() == Some(&name)) {
            return;
        }
        rts.push(RuntimeCollector::new(rt).with_name(name))'''))
