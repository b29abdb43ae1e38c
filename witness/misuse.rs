use measured::label::*;
use measured::metric::histogram::*;
use measured::metric::name::*;
use measured::metric::*;
use measured::*;
use std::sync::Arc;

#[derive(FixedCardinalityLabel, Clone, Copy)]
pub enum Kind { A, B }
#[derive(FixedCardinalityLabel, Clone, Copy)]
#[label(singleton = "kind")]
pub enum Kind2 { A, B }
#[derive(LabelGroup, Clone, Copy)]
#[label(set = ASet)]
pub struct GA { kind: Kind }
#[derive(LabelGroup, Clone, Copy)]
#[label(set = BSet)]
pub struct GB { kind: Kind }
#[derive(MetricGroup)]
#[metric(new())]
pub struct Fams { a: CounterVec<ASet>, b: CounterVec<BSet> }

//# correct-use: ok
pub fn inc(a: &CounterVec<ASet>, b: &CounterVec<BSet>) { a.inc(GA { kind: Kind::A }); b.inc(GB { kind: Kind::B }); }
pub fn ids(a: &CounterVec<ASet>, b: &CounterVec<BSet>) {
    let i = a.with_labels(GA { kind: Kind::A });
    a.get_metric(i).inc(); a.get_metric(i).inc(); a.remove_metric(i);
    let j = b.with_labels(GB { kind: Kind::A });
    b.get_metric(j).inc_by(2);
    assert!(a.try_with_labels(GA { kind: Kind::B }).is_some_and(|k| k != i));
}
pub fn composed(x: &GaugeVec<ComposedGroup<ASet, BSet>>) {
    x.set(GA { kind: Kind::A }.compose_with(GB { kind: Kind::B }), 3);
    x.inc(ComposedGroup(GA { kind: Kind::A }, GB { kind: Kind::B }));
}
pub fn shared_sets(x: &FloatGaugeVec<Arc<ASet>>, y: &FloatGaugeVec<&'static ASet>, z: &CounterVec<StaticLabelSet<Kind2>>) {
    x.set(GA { kind: Kind::A }, 0.5); y.inc(GA { kind: Kind::B }); z.inc(Kind2::A);
}
pub fn exclusive(a: &mut CounterVec<ASet>, c: &mut Counter, h: &mut Histogram<2>) {
    a.inc_mut(GA { kind: Kind::A }); a.inc_by_mut(GA { kind: Kind::B }, 2); a.init_all_dense();
    let i = a.with_labels(GA { kind: Kind::A });
    a.get_metric_mut(i).inc();
    *a.get_metric_mut(i) = measured::metric::counter::CounterState::new(3);
    c.inc_mut(); h.get_metric_mut().observe(1.0);
}
pub fn timers(h: &Histogram<2>, v: &HistogramVec<ASet, 2>) {
    let _ = h.start_timer().observe(); h.start_timer().forget(); drop(h.start_timer());
    let _ = v.start_timer(GA { kind: Kind::A }).observe(); v.start_timer(GA { kind: Kind::A }).forget();
    let _t = v.start_timer(GA { kind: Kind::B });
}

//# correct-sets: ok
#[derive(LabelGroup)]
#[label(set = OkSet)]
pub struct Ok1<'a> {
    kind: Kind,
    #[label(fixed)]
    other: Kind2,
    #[label(fixed_with = lasso::RodeoReader)]
    route: &'a str,
    #[label(fixed_with = Arc<phf::OrderedSet<&'static str>>, rename = "lang")]
    language: &'a str,
    #[label(fixed_with = indexmap::IndexSet<Idx>)]
    idx: Idx,
    #[label(dynamic_with = lasso::ThreadedRodeo, default)]
    user: &'a str,
    #[label(dynamic_with = Arc<lasso::ThreadedRodeo>)]
    tenant: &'a str,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Idx(u8);
impl LabelValue for Idx { fn visit<V: LabelVisitor>(&self, v: V) -> V::Output { v.write_int(self.0.into()) } }
pub fn mk(r: lasso::RodeoReader, l: Arc<phf::OrderedSet<&'static str>>, i: indexmap::IndexSet<Idx>, t: Arc<lasso::ThreadedRodeo>) {
    // dynamic sets first, then the fixed ones, each in the order of the fields
    let set: OkSet = OkSet::new(t, r, l, i);
    let v = CounterVec::sparse_with_label_set(set);
    let route = String::from("/x");
    v.inc(Ok1 { kind: Kind::A, other: Kind2::B, route: &route, language: "rust", idx: Idx(1), user: "u", tenant: "t" });
    let _: usize = v.get_label_set().user.len();
}

//# correct-names: ok
pub const N: &MetricName = MetricName::from_str("a:b_9");
pub const L: &LabelName = LabelName::from_str("a_9");
#[derive(MetricGroup)]
#[metric(new(x: u64))]
pub struct Okn {
    #[metric(rename = "renamed:metric")]
    a: Counter,
    #[metric(namespace = "sub")]
    #[metric(init = Fams::new())]
    b: Fams,
    #[metric(flatten, init = Fams::new())]
    c: Fams,
    #[metric(metadata = Thresholds::with_buckets([1.0, x as f64]))]
    d: Histogram<2>,
    #[metric(label_set = ASet::new())]
    e: GaugeVec<ASet>,
}
pub fn f() { let _ = Okn::new(3); }

//# wrong-group-inc: E0308
pub fn f(a: &CounterVec<ASet>) { a.inc(GB { kind: Kind::A }); }
//# wrong-group-with-labels: E0308
pub fn f(a: &CounterVec<ASet>) { let _ = a.with_labels(GB { kind: Kind::A }); }
//# wrong-group-try: E0308
pub fn f(a: &GaugeVec<ASet>) { let _ = a.try_with_labels(GB { kind: Kind::A }); }
//# wrong-group-set: E0308
pub fn f(a: &GaugeVec<ASet>) { a.set(GB { kind: Kind::A }, 1); }
//# wrong-group-float: E0308
pub fn f(a: &FloatGaugeVec<ASet>) { a.dec_by(GB { kind: Kind::A }, 1.0); }
//# wrong-group-observe: E0308
pub fn f(a: &HistogramVec<ASet, 2>) { a.observe(GB { kind: Kind::A }, 1.0); }
//# wrong-group-timer: E0308
pub fn f(a: &HistogramVec<ASet, 2>) { a.start_timer(GB { kind: Kind::A }); }
//# wrong-group-mut: E0308
pub fn f(a: &mut CounterVec<ASet>) { a.inc_mut(GB { kind: Kind::A }); }
//# wrong-group-composed: E0308
pub fn f(a: &CounterVec<ComposedGroup<ASet, BSet>>) { a.inc(ComposedGroup(GB { kind: Kind::A }, GA { kind: Kind::A })); }
//# wrong-group-part: E0308
pub fn f(a: &CounterVec<ComposedGroup<ASet, BSet>>) { a.inc(GA { kind: Kind::A }); }
//# wrong-group-static: E0308
pub fn f(a: &CounterVec<StaticLabelSet<Kind2>>) { a.inc(Kind::A); }
//# wrong-group-behind-arc: E0308
pub fn f(a: &CounterVec<Arc<ASet>>) { a.inc(GB { kind: Kind::A }); }
//# wrong-label-value: E0308
pub fn f() -> GA { GA { kind: Kind2::A } }
//# no-group: E0308
pub fn f(a: &CounterVec<ASet>) { a.inc(()); }
//# missing-label: E0063
pub fn f() -> GA { GA {} }

//# unbounded-as-fixed: E0277
#[derive(LabelGroup)]
#[label(set = S)]
pub struct G<'a> { #[label(fixed_with = lasso::ThreadedRodeo)] user: &'a str }
//# unbounded-as-fixed-arc: E0277
#[derive(LabelGroup)]
#[label(set = S)]
pub struct G<'a> { #[label(fixed_with = Arc<lasso::ThreadedRodeo>)] user: &'a str }
//# unbounded-as-fixed-custom: E0277
pub struct D;
impl LabelSet for D {
    type Value<'a> = &'a str;
    fn dynamic_cardinality(&self) -> Option<usize> { None }
    fn encode(&self, _: &str) -> Option<usize> { None }
    fn decode(&self, _: usize) -> &str { "" }
}
impl DynamicLabelSet for D {}
#[derive(LabelGroup)]
#[label(set = S)]
pub struct G<'a> { #[label(fixed_with = D)] user: &'a str }
//# custom-as-dynamic: ok
pub struct D;
impl LabelSet for D {
    type Value<'a> = &'a str;
    fn dynamic_cardinality(&self) -> Option<usize> { None }
    fn encode(&self, _: &str) -> Option<usize> { None }
    fn decode(&self, _: usize) -> &str { "" }
}
impl DynamicLabelSet for D {}
#[derive(LabelGroup)]
#[label(set = S)]
pub struct G<'a> { #[label(dynamic_with = D)] user: &'a str }
//# unmarked-as-fixed: E0277
pub struct D;
impl LabelSet for D {
    type Value<'a> = &'a str;
    fn dynamic_cardinality(&self) -> Option<usize> { None }
    fn encode(&self, _: &str) -> Option<usize> { None }
    fn decode(&self, _: usize) -> &str { "" }
}
#[derive(LabelGroup)]
#[label(set = S)]
pub struct G<'a> { #[label(fixed_with = D)] user: &'a str }
//# unmarked-as-dynamic: E0277
pub struct D;
impl LabelSet for D {
    type Value<'a> = &'a str;
    fn dynamic_cardinality(&self) -> Option<usize> { None }
    fn encode(&self, _: &str) -> Option<usize> { None }
    fn decode(&self, _: usize) -> &str { "" }
}
#[derive(LabelGroup)]
#[label(set = S)]
pub struct G<'a> { #[label(dynamic_with = D)] user: &'a str }
//# plain-text-label: E0277
#[derive(LabelGroup)]
#[label(set = S)]
pub struct G { user: &'static str }
//# plain-text-label-fixed: E0277
#[derive(LabelGroup)]
#[label(set = S)]
pub struct G { #[label(fixed)] user: &'static str }
//# fixed-reader-as-dynamic: E0277
#[derive(LabelGroup)]
#[label(set = S)]
pub struct G<'a> { #[label(dynamic_with = lasso::RodeoReader)] user: &'a str }
//# fixed-reader-as-dynamic-arc: E0277
#[derive(LabelGroup)]
#[label(set = S)]
pub struct G<'a> { #[label(dynamic_with = Arc<lasso::RodeoReader>)] user: &'a str }
//# fixed-enum-as-dynamic: E0277
#[derive(LabelGroup)]
#[label(set = S)]
pub struct G { #[label(dynamic_with = StaticLabelSet<Kind>)] kind: Kind }
//# fixed-phf-as-dynamic: E0277
#[derive(LabelGroup)]
#[label(set = S)]
pub struct G<'a> { #[label(dynamic_with = phf::OrderedSet<&'static str>)] user: &'a str }
//# fixed-indexmap-as-dynamic: E0277
#[derive(LabelGroup)]
#[label(set = S)]
pub struct G { #[label(dynamic_with = indexmap::IndexSet<String>)] user: String }
//# label-of-other-set: E0308
#[derive(LabelGroup)]
#[label(set = S)]
pub struct G { #[label(fixed_with = StaticLabelSet<Kind2>)] kind: Kind }
//# enum-with-data: -
#[derive(FixedCardinalityLabel, Clone, Copy)]
pub enum E { A(u8), B }
//# enum-with-named-data: -
#[derive(FixedCardinalityLabel, Clone, Copy)]
pub enum E { A { x: bool }, B }
//# not-an-enum: -
#[derive(FixedCardinalityLabel, Clone, Copy)]
pub struct E;
//# group-without-set: -
#[derive(LabelGroup)]
pub struct G { kind: Kind }
//# group-from-enum: -
#[derive(LabelGroup)]
#[label(set = S)]
pub enum G { A }
//# two-label-kinds: -
#[derive(LabelGroup)]
#[label(set = S)]
pub struct G<'a> { #[label(fixed_with = lasso::RodeoReader, dynamic_with = lasso::ThreadedRodeo)] user: &'a str }
//# unknown-label-attribute: -
#[derive(LabelGroup)]
#[label(set = S)]
pub struct G { #[label(fixd)] kind: Kind }
//# non-singleton-enum-as-group: E0277
pub fn f(x: &CounterVec<StaticLabelSet<Kind>>) {}

//# id-of-other-family-type: E0308
pub fn f(a: &CounterVec<ASet>, b: &CounterVec<BSet>) { let i = a.with_labels(GA { kind: Kind::A }); b.get_metric(i); }
//# id-remove-other: E0308
pub fn f(a: &CounterVec<ASet>, b: &CounterVec<BSet>) { let i = a.with_labels(GA { kind: Kind::A }); b.remove_metric(i); }
//# id-mut-other: E0308
pub fn f(a: &CounterVec<ASet>, b: &mut CounterVec<BSet>) { let i = a.with_labels(GA { kind: Kind::A }); b.get_metric_mut(i); }
//# id-compare-other: E0308
pub fn f(a: &CounterVec<ASet>, b: &CounterVec<BSet>) -> bool { a.with_labels(GA { kind: Kind::A }) == b.with_labels(GB { kind: Kind::A }) }
//# id-other-wrapper: E0308
pub fn f(a: &CounterVec<ASet>, b: &CounterVec<Arc<ASet>>) { b.get_metric(a.with_labels(GA { kind: Kind::A })); }
//# id-reordered-composition: E0308
pub fn f(a: &CounterVec<ComposedGroup<ASet, BSet>>, b: &CounterVec<ComposedGroup<BSet, ASet>>) { b.get_metric(a.with_labels(ComposedGroup(GA { kind: Kind::A }, GB { kind: Kind::A }))); }
//# id-from-number: E0308
pub fn f(a: &CounterVec<ASet>) { a.get_metric(0usize); }
//# id-forged: E0423,E0603,E0451,E0532,E0616
pub fn f() -> LabelId<ASet> { LabelId(todo!()) }

//# mut-metric-shared: E0596
pub fn f(c: &Counter) { c.get_metric_mut(); }
//# mut-family-shared: E0596
pub fn f(c: &CounterVec<ASet>) { let i = c.with_labels(GA { kind: Kind::A }); c.get_metric_mut(i); }
//# mut-init-shared: E0596
pub fn f(c: &CounterVec<ASet>) { c.init_all_dense(); }
//# mut-inc-shared: E0596
pub fn f(c: &Counter) { c.inc_mut(); }
//# mut-inc-by-shared: E0596
pub fn f(c: &Counter) { c.inc_by_mut(1); }
//# mut-inc-vec-shared: E0596
pub fn f(c: &CounterVec<ASet>) { c.inc_mut(GA { kind: Kind::A }); }
//# mut-inc-by-vec-shared: E0596
pub fn f(c: &CounterVec<ASet>) { c.inc_by_mut(GA { kind: Kind::A }, 1); }
//# mut-gauge-shared: E0596
pub fn f(c: &Gauge) { c.get_metric_mut().inc(); }
//# mut-float-shared: E0596
pub fn f(c: &FloatGauge) { c.get_metric_mut().inc(); }
//# mut-histogram-shared: E0596
pub fn f(c: &Histogram<2>) { c.get_metric_mut().observe(1.0); }
//# mut-through-arc: E0596
pub fn f(c: Arc<CounterVec<ASet>>) { c.init_all_dense(); }
//# mut-while-guarded: E0502
pub fn f(c: &mut CounterVec<ASet>) { let i = c.with_labels(GA { kind: Kind::A }); let g = c.get_metric(i); c.get_metric_mut(i).inc(); g.inc(); }
//# mut-while-timed: E0502
pub fn f(c: &mut Histogram<2>) { let t = c.start_timer(); c.get_metric_mut().observe(1.0); t.observe(); }
//# two-mutable-accesses: E0499
pub fn f(c: &mut CounterVec<ASet>) { let i = c.with_labels(GA { kind: Kind::A }); let a = c.get_metric_mut(i); let b = c.get_metric_mut(i); a.inc(); b.inc(); }
//# assign-through-guard: E0594
pub fn f(c: &Counter) { *c.get_metric() = measured::metric::counter::CounterState::new(1); }
//# guard-deref-mut: E0277,E0596
pub fn f(c: &Counter) { let mut g = c.get_metric(); let _: &mut measured::metric::counter::CounterState = &mut g; std::ops::DerefMut::deref_mut(&mut g); }
//# guard-outlives-family: E0515
pub fn f() -> MetricLockGuard<'static, measured::metric::counter::CounterState> { let c = Counter::new(); c.get_metric() }
//# guard-outlives-vec: E0597
pub fn f() { let g; { let c = CounterVec::<ASet>::new(); g = c.get_metric(c.with_labels(GA { kind: Kind::A })); } g.inc(); }
//# mutable-guard-outlives: E0515
pub fn f() -> MetricMut<'static, measured::metric::counter::CounterState> { let mut c = Counter::new(); c.get_metric_mut() }
//# timer-outlives-histogram: E0515
pub fn f() -> HistogramTimer<'static, 2> { let h = Histogram::<2>::with_metadata(Thresholds::with_buckets([1.0, 2.0])); h.start_timer() }
//# moved-while-guarded: E0505
pub fn f(c: Counter) { let g = c.get_metric(); drop(c); g.inc(); }

//# timer-observed-twice: E0382
pub fn f(h: &Histogram<2>) { let t = h.start_timer(); t.observe(); t.observe(); }
//# timer-forgotten-then-observed: E0382
pub fn f(h: &Histogram<2>) { let t = h.start_timer(); t.forget(); t.observe(); }
//# timer-observed-then-forgotten: E0382
pub fn f(h: &Histogram<2>) { let t = h.start_timer(); t.observe(); t.forget(); }
//# timer-dropped-then-observed: E0382
pub fn f(h: &Histogram<2>) { let t = h.start_timer(); drop(t); t.observe(); }
//# timer-cloned: E0599
pub fn f(h: &Histogram<2>) { let t = h.start_timer(); t.clone().observe(); }
//# timer-behind-reference: E0507
pub fn f(t: &HistogramTimer<'_, 2>) { t.observe(); }
//# vec-timer-observed-twice: E0382
pub fn f(h: &HistogramVec<ASet, 2>) { let t = h.start_timer(GA { kind: Kind::A }); t.observe(); t.observe(); }
//# vec-timer-forgotten-then-observed: E0382
pub fn f(h: &HistogramVec<ASet, 2>) { let t = h.start_timer(GA { kind: Kind::A }); t.forget(); t.observe(); }
//# vec-timer-observed-then-forgotten: E0382
pub fn f(h: &HistogramVec<ASet, 2>) { let t = h.start_timer(GA { kind: Kind::A }); t.observe(); t.forget(); }
//# vec-timer-dropped-then-observed: E0382
pub fn f(h: &HistogramVec<ASet, 2>) { let t = h.start_timer(GA { kind: Kind::A }); drop(t); t.observe(); }
//# vec-timer-cloned: E0599
pub fn f(h: &HistogramVec<ASet, 2>) { let t = h.start_timer(GA { kind: Kind::A }); t.clone().observe(); }
//# vec-timer-behind-reference: E0507
pub fn f(t: &HistogramVecTimer<'_, ASet, 2>) { t.forget(); }
//# histogram-guard-twice: E0382
pub fn f(h: &Histogram<2>) { let g = h.get_metric(); g.observe(1.0); g.observe(2.0); }

//# derived-label-name-dash: E0080
#[derive(LabelGroup, Clone, Copy)]
#[label(set = S)]
pub struct G { #[label(rename = "a-b")] kind: Kind }
//# derived-label-name-colon: E0080
#[derive(LabelGroup, Clone, Copy)]
#[label(set = S)]
pub struct G { #[label(rename = "a:b")] kind: Kind }
//# derived-label-name-digit: E0080
#[derive(LabelGroup, Clone, Copy)]
#[label(set = S)]
pub struct G { #[label(rename = "a b")] kind: Kind }
//# derived-singleton-name: E0080
#[derive(FixedCardinalityLabel, Clone, Copy)]
#[label(singleton = "a b")]
pub enum E { A }
//# derived-metric-name-space: E0080
#[derive(MetricGroup)]
pub struct M { #[metric(rename = "a b")] a: Counter }
pub fn f(m: &M, e: &mut measured::text::BufferedTextEncoder) { m.collect_group_into(e).unwrap() }
//# derived-metric-name-dash: E0080
#[derive(MetricGroup)]
pub struct M { #[metric(rename = "a-b")] a: Counter }
pub fn f(m: &M, e: &mut measured::text::BufferedTextEncoder) { m.collect_group_into(e).unwrap() }
//# const-metric-name: E0080
pub const N: &MetricName = MetricName::from_str("a.b");
//# const-metric-name-empty: E0080
pub const N: &MetricName = MetricName::from_str("");
//# const-label-name: E0080
pub const N: &LabelName = LabelName::from_str("a.b");
//# const-label-name-empty: E0080
pub const N: &LabelName = LabelName::from_str("");
//# const-label-name-digit: E0080
pub const N: &LabelName = LabelName::from_str("0a");

//# group-of-non-metric: E0277,E0599
#[derive(MetricGroup)]
pub struct M { a: u64 }
pub fn f(m: &M, e: &mut measured::text::BufferedTextEncoder) { m.collect_group_into(e).unwrap() }
//# nested-group-as-metric: E0277,E0599
#[derive(MetricGroup)]
pub struct M { a: Fams }
pub fn f(m: &M, e: &mut measured::text::BufferedTextEncoder) { m.collect_group_into(e).unwrap() }
//# metric-as-nested-group: E0277,E0599
#[derive(MetricGroup)]
pub struct M { #[metric(flatten)] a: Counter }
pub fn f(m: &M, e: &mut measured::text::BufferedTextEncoder) { m.collect_group_into(e).unwrap() }
//# histogram-without-thresholds: E0277,E0599
pub fn f() -> Histogram<2> { Histogram::new() }
//# histogram-vec-without-thresholds: E0277,E0599
pub fn f() -> HistogramVec<ASet, 2> { Default::default() }
//# histogram-wrong-bucket-count: E0308
pub fn f() -> Histogram<2> { Histogram::with_metadata(Thresholds::with_buckets([1.0, 2.0, 3.0])) }
//# renamed-and-namespaced: -
#[derive(MetricGroup)]
pub struct M { #[metric(rename = "x", namespace = "y")] a: Fams }
//# init-and-metadata: -
#[derive(MetricGroup)]
#[metric(new())]
pub struct M { #[metric(init = Counter::new(), metadata = ())] a: Counter }
