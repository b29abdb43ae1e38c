use measured::label::*;
use measured::metric::counter::CounterState;
use measured::metric::gauge::*;
use measured::metric::histogram::*;
use measured::metric::name::*;
use measured::metric::*;
use measured::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::Arc;

fn send<T: Send>() {}
fn sync<T: Sync>() {}

#[derive(FixedCardinalityLabel, Clone, Copy)]
pub enum Kind { A, B }
#[derive(LabelGroup, Clone, Copy)]
#[label(set = ASet)]
pub struct GA { kind: Kind }
#[derive(LabelGroup, Clone, Copy)]
#[label(set = BSet)]
pub struct GB<'a> { kind: Kind, #[label(fixed_with = lasso::RodeoReader)] r: &'a str, #[label(dynamic_with = lasso::ThreadedRodeo, default)] u: &'a str }

/// values that are not thread-safe
#[derive(Default)]
pub struct NoSync(Cell<u64>);
#[derive(Default)]
pub struct NoSend(Rc<u64>);
impl MetricType for NoSync { type Metadata = (); }
impl MetricType for NoSend { type Metadata = (); }
/// a value whose metadata is not thread-safe
#[derive(Default)]
pub struct BadMeta(u64);
impl MetricType for BadMeta { type Metadata = Cell<u64>; }
#[derive(Default)]
pub struct BadMeta2(u64);
impl MetricType for BadMeta2 { type Metadata = Rc<u64>; }
#[derive(Default)]
pub struct Plain(u64);
impl MetricType for Plain { type Metadata = (); }
/// sets that are not thread-safe, with thread-safe identifiers
pub struct CellSet(Cell<u64>);
pub struct RcSet(Rc<u64>);
/// a set whose identifiers are not thread-safe
pub struct PtrSet;
macro_rules! set { ($t:ty, $u:ty, $z:expr) => {
    impl LabelGroupSet for $t {
        type Group<'a> = NoLabels;
        type Unique = $u;
        fn cardinality(&self) -> Option<usize> { Some(1) }
        fn encode_dense(&self, _: $u) -> Option<usize> { Some(0) }
        fn decode_dense(&self, _: usize) -> NoLabels { NoLabels }
        fn encode(&self, _: NoLabels) -> Option<$u> { Some($z) }
        fn decode(&self, _: &$u) -> NoLabels { NoLabels }
    }
} }
set!(CellSet, u8, 0);
set!(RcSet, u8, 0);
set!(PtrSet, *const u8, std::ptr::null());

//# single-metrics: ok
pub fn f() {
    send::<Counter>(); sync::<Counter>(); send::<Gauge>(); sync::<Gauge>(); send::<FloatGauge>(); sync::<FloatGauge>();
    send::<Histogram<0>>(); sync::<Histogram<0>>(); send::<Histogram<8>>(); sync::<Histogram<8>>();
    send::<CounterState>(); sync::<CounterState>(); send::<GaugeState>(); sync::<GaugeState>(); send::<FloatGaugeState>(); sync::<FloatGaugeState>();
    send::<HistogramState<3>>(); sync::<HistogramState<3>>(); send::<Thresholds<3>>(); sync::<Thresholds<3>>();
    send::<AtomicF64>(); sync::<AtomicF64>();
}
//# families: ok
pub fn f() {
    send::<CounterVec<ASet>>(); sync::<CounterVec<ASet>>(); send::<GaugeVec<ASet>>(); sync::<GaugeVec<ASet>>();
    send::<FloatGaugeVec<ASet>>(); sync::<FloatGaugeVec<ASet>>(); send::<HistogramVec<ASet, 4>>(); sync::<HistogramVec<ASet, 4>>();
    send::<CounterVec<BSet>>(); sync::<CounterVec<BSet>>(); send::<HistogramVec<BSet, 4>>(); sync::<HistogramVec<BSet, 4>>();
    send::<CounterVec<ComposedGroup<ASet, BSet>>>(); sync::<CounterVec<ComposedGroup<ASet, BSet>>>();
    send::<CounterVec<Arc<BSet>>>(); sync::<CounterVec<Arc<BSet>>>();
    send::<CounterVec<&'static ASet>>(); sync::<CounterVec<&'static ASet>>();
}
//# every-thread-safe-part: ok
pub fn f<M: MetricType + Send + Sync + 'static, L: LabelGroupSet + Send + Sync + 'static>() where M::Metadata: Send + Sync, L::Unique: Send + Sync {
    send::<Metric<M>>(); sync::<Metric<M>>(); send::<MetricVec<M, L>>(); sync::<MetricVec<M, L>>();
    send::<LabelId<L>>(); sync::<LabelId<L>>(); sync::<MetricLockGuard<'static, M>>();
    send::<MetricMut<'static, M>>(); sync::<MetricMut<'static, M>>();
}
pub fn s<T: FixedCardinalityLabel + Send + Sync>() { send::<StaticLabelSet<T>>(); sync::<StaticLabelSet<T>>(); }
pub fn t<const N: usize, L: LabelGroupSet + Send + Sync + 'static>() where L::Unique: Send + Sync {
    send::<HistogramTimer<'static, N>>(); sync::<HistogramTimer<'static, N>>();
    send::<HistogramVecTimer<'static, L, N>>(); sync::<HistogramVecTimer<'static, L, N>>();
}
//# send-only-parts: ok
pub fn f() { send::<Metric<NoSync>>(); send::<MetricVec<NoSync, ASet>>(); send::<CounterVec<CellSet>>(); }
//# identifiers: ok
pub fn f() { send::<LabelId<ASet>>(); sync::<LabelId<ASet>>(); send::<LabelId<BSet>>(); sync::<LabelId<BSet>>(); send::<LabelId<ComposedGroup<ASet, BSet>>>(); sync::<LabelId<ComposedGroup<ASet, BSet>>>(); }
//# sets-and-names: ok
pub fn f() { send::<ASet>(); sync::<ASet>(); send::<BSet>(); sync::<BSet>(); send::<&'static MetricName>(); sync::<&'static LabelName>(); send::<WithNamespace<u8>>(); sync::<ComposedGroup<u8, u8>>(); }
//# encoders-and-collectors: ok
pub fn f() {
    send::<measured::text::BufferedTextEncoder>(); send::<measured::text::TextEncoder<Vec<u8>>>();
    send::<measured_prometheus_protobuf::ProtoEncoder<Vec<u8>>>();
    send::<measured_process::ProcessCollector>(); sync::<measured_process::ProcessCollector>();
    send::<measured_tokio::RuntimeCollector>(); sync::<measured_tokio::RuntimeCollector>();
    send::<measured_tokio::NamedRuntimesCollector>(); sync::<measured_tokio::NamedRuntimesCollector>();
}
//# used-from-threads: ok
pub fn f(c: Arc<CounterVec<ASet>>, g: Arc<Gauge>, h: &'static HistogramVec<BSet, 4>) {
    let i = c.with_labels(GA { kind: Kind::A });
    let d = c.clone();
    std::thread::spawn(move || { d.get_metric(i).inc(); d.remove_metric(i); d.get_cardinality(); });
    std::thread::spawn(move || g.get_metric().inc());
    std::thread::scope(|s| { s.spawn(|| c.inc(GA { kind: Kind::B })); s.spawn(|| h.observe(GB { kind: Kind::A, r: "x", u: "y" }, 0.1)); });
    let t = h.start_timer(GB { kind: Kind::A, r: "x", u: "y" });
    std::thread::spawn(move || t.observe());
}
//# shared-reference-operations: ok
pub fn counters(a: &Counter, b: &CounterVec<ASet>, g: GA) { a.inc(); a.inc_by(2); a.get_metric().inc(); b.inc(g); b.inc_by(g, 2); }
pub fn gauges(a: &Gauge, b: &GaugeVec<ASet>, g: GA) { a.inc(); a.dec(); a.set(1); a.inc_by(1); a.dec_by(1); b.inc(g); b.dec(g); b.set(g, 1); b.inc_by(g, 1); b.dec_by(g, 1); }
pub fn floats(a: &FloatGauge, b: &FloatGaugeVec<ASet>, g: GA) { a.inc(); a.dec(); a.set(1.0); a.inc_by(1.0); a.dec_by(1.0); b.inc(g); b.dec(g); b.set(g, 1.0); b.inc_by(g, 1.0); b.dec_by(g, 1.0); }
pub fn histograms(a: &Histogram<2>, b: &HistogramVec<ASet, 2>, g: GA) {
    a.observe(1.0); a.start_timer().observe(); b.observe(g, 1.0); b.start_timer(g).forget();
    b.observe_duration(g, std::time::Duration::ZERO); b.observe_duration_since(g, std::time::Instant::now());
}
pub fn family(b: &CounterVec<ASet>, g: GA, e: &mut measured::text::BufferedTextEncoder) {
    let i = b.with_labels(g); b.try_with_labels(g); b.get_metric(i); b.remove_metric(i); b.get_cardinality(); b.get_label_set(); b.metadata();
    b.collect_family_into(MetricName::from_str("x"), e).unwrap();
}
//# value-not-sync: E0277
pub fn f() { sync::<MetricVec<NoSync, ASet>>(); }
//# value-not-sync-single: E0277
pub fn f() { sync::<Metric<NoSync>>(); }
//# value-not-send: E0277
pub fn f() { send::<MetricVec<NoSend, ASet>>(); }
//# value-not-send-shared: E0277
pub fn f() { sync::<MetricVec<NoSend, ASet>>(); }
//# value-not-send-single: E0277
pub fn f() { send::<Metric<NoSend>>(); }
//# value-not-sync-spawn: E0277
pub fn f(c: Arc<MetricVec<NoSync, ASet>>) { std::thread::spawn(move || drop(c)); }
//# metadata-not-sync: E0277
pub fn f() { sync::<MetricVec<BadMeta, ASet>>(); }
//# metadata-not-sync-single: E0277
pub fn f() { sync::<Metric<BadMeta>>(); }
//# metadata-not-send: E0277
pub fn f() { send::<MetricVec<BadMeta2, ASet>>(); }
//# set-not-sync: E0277
pub fn f() { sync::<MetricVec<Plain, CellSet>>(); }
//# set-not-send: E0277
pub fn f() { send::<MetricVec<Plain, RcSet>>(); }
//# unique-not-send: E0277
pub fn f() { send::<LabelId<PtrSet>>(); }
//# unique-not-sync: E0277
pub fn f() { sync::<LabelId<PtrSet>>(); }
//# unique-not-send-family: E0277
pub fn f() { send::<MetricVec<Plain, PtrSet>>(); }
//# guard-value-not-sync: E0277
pub fn f() { sync::<MetricLockGuard<'static, NoSync>>(); }
//# guard-value-not-sync-sent: E0277
pub fn f() { send::<MetricLockGuard<'static, NoSync>>(); }
//# guard-metadata-not-sync: E0277
pub fn f() { sync::<MetricLockGuard<'static, BadMeta>>(); }
//# mutable-guard-not-send: E0277
pub fn f() { send::<MetricMut<'static, NoSend>>(); }
//# mutable-guard-not-sync: E0277
pub fn f() { sync::<MetricMut<'static, NoSync>>(); }
//# timer-set-not-sync: E0277
pub fn f() { send::<HistogramVecTimer<'static, CellSet, 2>>(); }
//# encoder-not-send: E0277
pub fn f() { send::<measured::text::TextEncoder<Rc<u8>>>(); }
