G='core/src/metric/gauge.rs'
OLD='''        loop {
            let current = self.inner.load(Ordering::Acquire);
            let new = f64::from_bits(current) + delta;
            let result = self.inner.compare_exchange_weak(
                current,
                new.to_bits(),
                Ordering::Release,
                Ordering::Relaxed,
            );
            if result.is_ok() {
                return;
            }
        }'''
E('cas-err','C01,C02,C08,C09',(G,OLD,'''        let mut current = self.inner.load(Ordering::Relaxed);
        while let Err(actual) = self.inner.compare_exchange_weak(current, (f64::from_bits(current) + delta).to_bits(), Ordering::Release, Ordering::Relaxed) {
            current = actual;
        }'''))
E('cas-float','C01,C02,C08,C09',(G,OLD,'''        let mut current = self.get();
        loop {
            match self.inner.compare_exchange(current.to_bits(), (current + delta).to_bits(), Ordering::AcqRel, Ordering::Acquire) {
                Ok(_) => break,
                Err(seen) => current = f64::from_bits(seen),
            }
        }'''))
E('cas-fu','C01,C02,C08,C09',(G,OLD,'''        let _ = self.inner.fetch_update(Ordering::Release, Ordering::Acquire, |x| Some((f64::from_bits(x) + delta).to_bits()));'''))
E('cas-reload','C01,C02,C08,C09',(G,OLD,'''        let mut current = self.inner.load(Ordering::Acquire);
        loop {
            let new = (f64::from_bits(current) + delta).to_bits();
            if self.inner.compare_exchange_weak(current, new, Ordering::Release, Ordering::Relaxed).is_ok() {
                return;
            }
            std::hint::spin_loop();
            current = self.inner.load(Ordering::Acquire);
        }'''))
E('cas-helper','C01,C02,C08,C09',(G,OLD,'''        while !self.try_inc_by(delta) {}'''),(G,'''    #[inline]
    pub fn dec_by(&self, delta: f64) {
        self.inc''','''    #[inline]
    fn try_inc_by(&self, delta: f64) -> bool {
        let old = self.get();
        self.inner.compare_exchange_weak(old.to_bits(), (old + delta).to_bits(), Ordering::Release, Ordering::Relaxed).is_ok()
    }

    #[inline]
    pub fn dec_by(&self, delta: f64) {
        self.inc'''))
E('cas-yield','C01,C02,C08,C09,C15',(G,OLD,OLD.replace('''                return;
            }
''','''                return;
            }
            std::thread::yield_now();
''')))
