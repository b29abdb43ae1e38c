H='core/src/metric/histogram.rs'
S='core/src/metric/sparse.rs'
EXP='''        let buckets = core::array::from_fn(|i| start * factor.powi(i as i32));
'''
LIN='''        let buckets = core::array::from_fn(|i| start + width * i as f64);
'''
WB='''        for i in 1..N {
            assert!(
                buckets[i - 1] < buckets[i],
                "consecutive histogram buckets must not decrease or be equal",
            );
        }
'''
E('t10-exp-enum','all',(H,EXP,'''        let mut buckets = [0.0; N];
        for (i, b) in buckets.iter_mut().enumerate() {
            *b = start * factor.powi(i as i32);
        }
'''))
E('t10-exp-while','all',(H,EXP,'''        let mut buckets = [start; N];
        let mut i = 1;
        while i < N {
            buckets[i] = factor.powi(i as i32) * start;
            i += 1;
        }
        if N > 0 {
            buckets[0] = start * factor.powi(0);
        }
'''))
E('t10-exp-counter','all',(H,EXP,'''        let mut exponent = 0i32;
        let buckets = core::array::from_fn(|_| {
            let bound = start * factor.powi(exponent);
            exponent += 1;
            bound
        });
'''))
E('t10-exp-zip','all',(H,EXP,'''        let mut buckets = [0.0; N];
        for (b, e) in buckets.iter_mut().zip(0i32..) {
            *b = start * factor.powi(e);
        }
'''))
E('t10-exp-map','all',(H,EXP,'''        let powers: [f64; N] = core::array::from_fn(|i| factor.powi(i as i32));
        let buckets = powers.map(|p| start * p);
'''))
E('t10-exp-helper','all',(H,EXP,'''        let buckets = Self::build(|i| start * factor.powi(i as i32));
'''),(H,'''    /// Create the histogram thresholds with the given sizes
''','''    fn build(bound: impl Fn(usize) -> f64) -> [f64; N] {
        core::array::from_fn(bound)
    }

    /// Create the histogram thresholds with the given sizes
'''))
E('t10-exp-foreach','all',(H,EXP,'''        let mut buckets = [f64::NAN; N];
        (0..N).for_each(|i| buckets[i] = start * factor.powi(i as i32));
'''))
E('t10-exp-rev','all',(H,EXP,'''        let mut buckets = [0.0; N];
        for i in (0..N).rev() {
            buckets[i] = start * factor.powi(i as i32);
        }
'''))
E('t10-lin-for','all',(H,LIN,'''        let mut buckets = [start; N];
        for i in 0..N {
            buckets[i] = width * (i as f64) + start;
        }
'''))
E('t10-lin-plus','all',(H,LIN,'''        let mut buckets = [start; N];
        for (i, b) in buckets.iter_mut().enumerate() {
            *b += width * i as f64;
        }
'''))
E('t10-lin-u32','all',(H,LIN,'''        let buckets = core::array::from_fn(|i| {
            let steps = f64::from(i as u32);
            start + steps * width
        });
'''))
E('t10-panic','all',(H,'''        assert!(
            factor > 1.0,
            "exponential_buckets needs a factor greater than 1, factor: {factor}",
        );
''','''        if factor <= 1.0 || factor.is_nan() {
            panic!("exponential_buckets needs a factor greater than 1, factor: {factor}");
        }
'''))
E('t10-panic2','all',(H,'''        assert!(
            width > 0.0,
            "linear_buckets needs a width greater than 0, width: {width}",
        );
''','''        match width.partial_cmp(&0.0) {
            Some(std::cmp::Ordering::Greater) => {}
            _ => panic!("linear_buckets needs a width greater than 0, width: {width}"),
        }
'''))
E('t10-wb-windows','all',(H,WB,'''        assert!(
            buckets.windows(2).all(|w| w[0] < w[1]),
            "consecutive histogram buckets must not decrease or be equal",
        );
'''))
E('t10-wb-zip','all',(H,WB,'''        for (lo, hi) in buckets.iter().zip(buckets.iter().skip(1)) {
            assert!(
                lo < hi,
                "consecutive histogram buckets must not decrease or be equal",
            );
        }
'''))
E('t10-wb-any','all',(H,WB,'''        if (1..N).any(|i| !(buckets[i - 1] < buckets[i])) {
            panic!("consecutive histogram buckets must not decrease or be equal");
        }
'''))
E('t10-wb-prev','all',(H,WB,'''        let mut prev: Option<f64> = None;
        for &b in &buckets {
            if let Some(p) = prev {
                assert!(
                    p < b,
                    "consecutive histogram buckets must not decrease or be equal",
                );
            }
            prev = Some(b);
        }
'''))
E('t10-wb-sorted','all',(H,WB,'''        assert!(
            buckets.is_sorted_by(|a, b| a < b),
            "consecutive histogram buckets must not decrease or be equal",
        );
'''))
E('t10-s-reserve','all',(S,'''                Err(_) => {
                    shard.insert_unique(id.hash, (id.id, M::default()), |(k, _)| {
                        self.hasher.hash_one(k)
                    });
                }
            }''','''                Err(_) => {
                    shard.reserve(1, |(k, _)| self.hasher.hash_one(k));
                    shard.insert_unique(id.hash, (id.id, M::default()), |(k, _)| {
                        self.hasher.hash_one(k)
                    });
                }
            }'''))
E('t10-s-shrink','all',(S,'''            Ok(x) => Some(x.remove().0 .1),''','''            Ok(x) => {
                let ((_, v), vacant) = x.remove();
                let table = vacant.into_table();
                if table.len() * 8 < table.capacity() {
                    table.shrink_to_fit(|(k, _)| self.hasher.hash_one(k));
                }
                Some(v)
            }'''))
E('t10-s-card','all',(S,'''            .map(|shard| shard.read().len())
            .sum::<usize>()''','''            .fold(0usize, |n, shard| n + shard.read().len())'''))
E('t10-s-getmut','all',(S,'''        let entry = shard.get_mut().find_entry(id.hash, |(k, _)| *k == id.id);
        let (_, v) = match entry {
            Ok(o) => o.into_mut(),
            Err(v) => v
                .into_table()
                .insert_unique(id.hash, (id.id, M::default()), |(k, _)| {
                    self.hasher.hash_one(k)
                })
                .into_mut(),
        };

        v''','''        let hasher = &self.hasher;
        let entry = shard.get_mut().entry(
            id.hash,
            |(k, _)| *k == id.id,
            |(k, _)| hasher.hash_one(k),
        );
        &mut entry.or_insert_with(|| (id.id, M::default())).into_mut().1'''))
