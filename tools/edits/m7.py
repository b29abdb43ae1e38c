DL='derive/src/label_group/to_tokens.rs'; DM='derive/src/metric_group/to_tokens.rs'; M='core/src/metric.rs'; C='core/src/metric/counter.rs'
E('b7-dl-dyn3','C05,C17,C23',(DL,'''                let index = &dynamic_indices[i];
''','''                let n = dynamics.len();
                let index = &dynamic_indices[if n > 2 { n - 1 - i } else { i }];
'''))
E('b7-dm-nstrim','C22,C23,C29',(DM,'''                MetricGroupFieldAttrsKind::Group { namespace: Some(ns) } => {
                    quote_spanned! { x.span =>
''','''                MetricGroupFieldAttrsKind::Group { namespace: Some(ns) } => {
                    let ns = ns.value();
                    let ns = ns.trim_end_matches('_');
                    quote_spanned! { x.span =>
'''))
E('b7-dm-colon','C22,C23,C29',(DM,'''|l| l.value());
''','''|l| l.value().replace(':', "_"));
'''))
E('b7-dm-meta','C22,C23,C29',(DM,'''#name: <#ty>::with_label_set_and_metadata(#ls, #metadata),''','''#name: <#ty>::with_label_set_and_metadata(#ls, ::core::default::Default::default()),'''))
E('b7-dm-doc','C22,C23,C29',(DM,'''                        let doc = doc.trim();
''','''                        let doc = doc.trim().trim_end_matches('.');
'''))
E('b7-c-zero','C01,C02,C03,C33',(C,'''        self.get_metric(self.with_labels(label)).inc_by(y);
''','''        if y != 0 {
            self.get_metric(self.with_labels(label)).inc_by(y);
        }
'''))
E('b7-m-init-stop','C29',(M,'''            for m in metrics.iter_mut() {
                if m.get_mut().is_none() {
                    *m = CachePadded::new(OnceLock::from(M::default()));
                }
            }''','''            for m in metrics.iter_mut().take_while(|m| m.get().is_none()) {
                *m = CachePadded::new(OnceLock::from(M::default()));
            }'''))
E('b7-m-dense-cap','C29,C04,C05',(M,'''            Some(c) if c <= DEFAULT_MAX_DENSE => VecInner::Dense(new_dense(c)),
''','''            Some(c) if c <= DEFAULT_MAX_DENSE => VecInner::Dense(new_dense(c.max(1) - 1)),
'''))
