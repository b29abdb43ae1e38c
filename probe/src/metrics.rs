//! counters, gauges, histograms and families, with opaque label sets
use crate::px::*;
use measured::metric::counter::*;
use measured::metric::gauge::*;
use measured::metric::histogram::*;
use measured::metric::name::*;
use measured::metric::*;
use measured::*;
use std::time::{Duration, Instant};

type CV = CounterVec<Set>;
type GVec = GaugeVec<Set>;
type FV = FloatGaugeVec<Set>;
type MV = MetricVec<M, Set>;
type MV2 = MetricVec<M, Set2>;

// ---- counters
pub fn root_counter_inc(c: &Counter) { c.inc() }
pub fn root_counter_inc_by(c: &Counter, x: u64) { c.inc_by(x) }
pub fn root_counter_inc_mut(c: &mut Counter) { c.inc_mut() }
pub fn root_counter_inc_by_mut(c: &mut Counter, x: u64) { c.inc_by_mut(x) }
pub fn root_counter_guard_inc(c: &Counter) { c.get_metric().inc() }
pub fn root_counter_guard_inc_by(c: &Counter, x: u64) { c.get_metric().inc_by(x) }
pub fn root_counter_gmut_inc(c: &mut Counter) { c.get_metric_mut().inc() }
pub fn root_counter_gmut_inc_by(c: &mut Counter, x: u64) { c.get_metric_mut().inc_by(x) }
pub fn root_cstate_inc(c: &CounterState) { c.inc() }
pub fn root_cstate_inc_by(c: &CounterState, x: u64) { c.inc_by(x) }
pub fn root_cstate_new(x: u64) -> CounterState { CounterState::new(x) }
pub fn root_cvec_inc(c: &CV, g: Grp) { c.inc(g) }
pub fn root_cvec_inc_by(c: &CV, g: Grp, x: u64) { c.inc_by(g, x) }
pub fn root_cvec_inc_mut(c: &mut CV, g: Grp) { c.inc_mut(g) }
pub fn root_cvec_inc_by_mut(c: &mut CV, g: Grp, x: u64) { c.inc_by_mut(g, x) }
pub fn root_cvec_guard_inc(c: &CV, id: LabelId<Set>) { c.get_metric(id).inc() }
pub fn root_cvec_guard_inc_by(c: &CV, id: LabelId<Set>, x: u64) { c.get_metric(id).inc_by(x) }
pub fn root_cvec_gmut_inc(c: &mut CV, id: LabelId<Set>) { c.get_metric_mut(id).inc() }
pub fn root_cvec_gmut_inc_by(c: &mut CV, id: LabelId<Set>, x: u64) { c.get_metric_mut(id).inc_by(x) }

// ---- int gauges
pub fn root_gauge_inc(c: &Gauge) { c.inc() }
pub fn root_gauge_inc_by(c: &Gauge, x: i64) { c.inc_by(x) }
pub fn root_gauge_dec(c: &Gauge) { c.dec() }
pub fn root_gauge_dec_by(c: &Gauge, x: i64) { c.dec_by(x) }
pub fn root_gauge_set(c: &Gauge, x: i64) { c.set(x) }
pub fn root_gauge_guard_inc(c: &Gauge) { c.get_metric().inc() }
pub fn root_gauge_guard_inc_by(c: &Gauge, x: i64) { c.get_metric().inc_by(x) }
pub fn root_gauge_guard_dec(c: &Gauge) { c.get_metric().dec() }
pub fn root_gauge_guard_dec_by(c: &Gauge, x: i64) { c.get_metric().dec_by(x) }
pub fn root_gauge_guard_set(c: &Gauge, x: i64) { c.get_metric().set(x) }
pub fn root_gauge_gmut_inc(c: &mut Gauge) { c.get_metric_mut().inc() }
pub fn root_gauge_gmut_inc_by(c: &mut Gauge, x: i64) { c.get_metric_mut().inc_by(x) }
pub fn root_gauge_gmut_dec(c: &mut Gauge) { c.get_metric_mut().dec() }
pub fn root_gauge_gmut_dec_by(c: &mut Gauge, x: i64) { c.get_metric_mut().dec_by(x) }
pub fn root_gauge_gmut_set(c: &mut Gauge, x: i64) { c.get_metric_mut().set(x) }
pub fn root_gvec_inc(c: &GVec, g: Grp) { c.inc(g) }
pub fn root_gvec_inc_by(c: &GVec, g: Grp, x: i64) { c.inc_by(g, x) }
pub fn root_gvec_dec(c: &GVec, g: Grp) { c.dec(g) }
pub fn root_gvec_dec_by(c: &GVec, g: Grp, x: i64) { c.dec_by(g, x) }
pub fn root_gvec_set(c: &GVec, g: Grp, x: i64) { c.set(g, x) }
pub fn root_gstate_new(x: i64) -> GaugeState { GaugeState::new(x) }

// ---- float gauges
pub fn root_fgauge_inc(c: &FloatGauge) { c.inc() }
pub fn root_fgauge_inc_by(c: &FloatGauge, x: f64) { c.inc_by(x) }
pub fn root_fgauge_dec(c: &FloatGauge) { c.dec() }
pub fn root_fgauge_dec_by(c: &FloatGauge, x: f64) { c.dec_by(x) }
pub fn root_fgauge_set(c: &FloatGauge, x: f64) { c.set(x) }
pub fn root_fgauge_guard_inc(c: &FloatGauge) { c.get_metric().inc() }
pub fn root_fgauge_guard_inc_by(c: &FloatGauge, x: f64) { c.get_metric().inc_by(x) }
pub fn root_fgauge_guard_dec(c: &FloatGauge) { c.get_metric().dec() }
pub fn root_fgauge_guard_dec_by(c: &FloatGauge, x: f64) { c.get_metric().dec_by(x) }
pub fn root_fgauge_guard_set(c: &FloatGauge, x: f64) { c.get_metric().set(x) }
pub fn root_fgauge_gmut_inc(c: &mut FloatGauge) { c.get_metric_mut().inc() }
pub fn root_fgauge_gmut_inc_by(c: &mut FloatGauge, x: f64) { c.get_metric_mut().inc_by(x) }
pub fn root_fgauge_gmut_dec(c: &mut FloatGauge) { c.get_metric_mut().dec() }
pub fn root_fgauge_gmut_dec_by(c: &mut FloatGauge, x: f64) { c.get_metric_mut().dec_by(x) }
pub fn root_fgauge_gmut_set(c: &mut FloatGauge, x: f64) { c.get_metric_mut().set(x) }
pub fn root_fvec_inc(c: &FV, g: Grp) { c.inc(g) }
pub fn root_fvec_inc_by(c: &FV, g: Grp, x: f64) { c.inc_by(g, x) }
pub fn root_fvec_dec(c: &FV, g: Grp) { c.dec(g) }
pub fn root_fvec_dec_by(c: &FV, g: Grp, x: f64) { c.dec_by(g, x) }
pub fn root_fvec_set(c: &FV, g: Grp, x: f64) { c.set(g, x) }
pub fn root_atomic_new(x: f64) -> AtomicF64 { AtomicF64::new(x) }
pub fn root_atomic_zero() -> AtomicF64 { AtomicF64::ZERO }
pub fn root_atomic_default() -> AtomicF64 { AtomicF64::default() }
pub fn root_atomic_get(a: &AtomicF64) -> f64 { a.get() }
pub fn root_atomic_get_ex(a: &mut AtomicF64) -> f64 { a.get_ex() }
pub fn root_atomic_set(a: &AtomicF64, x: f64) { a.set(x) }
pub fn root_atomic_set_mut(a: &mut AtomicF64, x: f64) { a.set_mut(x) }
pub fn root_atomic_inc_by(a: &AtomicF64, x: f64) { a.inc_by(x) }
pub fn root_atomic_dec_by(a: &AtomicF64, x: f64) { a.dec_by(x) }

pub fn root_gvec_gmut_inc(c: &mut GVec, id: LabelId<Set>) { c.get_metric_mut(id).inc() }
pub fn root_gvec_gmut_inc_by(c: &mut GVec, id: LabelId<Set>, x: i64) { c.get_metric_mut(id).inc_by(x) }
pub fn root_gvec_gmut_dec(c: &mut GVec, id: LabelId<Set>) { c.get_metric_mut(id).dec() }
pub fn root_gvec_gmut_dec_by(c: &mut GVec, id: LabelId<Set>, x: i64) { c.get_metric_mut(id).dec_by(x) }
pub fn root_gvec_gmut_set(c: &mut GVec, id: LabelId<Set>, x: i64) { c.get_metric_mut(id).set(x) }
pub fn root_fvec_gmut_inc(c: &mut FV, id: LabelId<Set>) { c.get_metric_mut(id).inc() }
pub fn root_fvec_gmut_inc_by(c: &mut FV, id: LabelId<Set>, x: f64) { c.get_metric_mut(id).inc_by(x) }
pub fn root_fvec_gmut_dec(c: &mut FV, id: LabelId<Set>) { c.get_metric_mut(id).dec() }
pub fn root_fvec_gmut_dec_by(c: &mut FV, id: LabelId<Set>, x: f64) { c.get_metric_mut(id).dec_by(x) }
pub fn root_fvec_gmut_set(c: &mut FV, id: LabelId<Set>, x: f64) { c.get_metric_mut(id).set(x) }

// ---- histograms
macro_rules! hist { ($m:ident, $n:expr) => { pub mod $m {
    use super::*;
    const N: usize = $n;
    pub fn root_observe(h: &Histogram<N>, x: f64) { h.observe(x) }
    pub fn root_guard_observe(h: &Histogram<N>, x: f64) { h.get_metric().observe(x) }
    pub fn root_gmut_observe(h: &mut Histogram<N>, x: f64) { h.get_metric_mut().observe(x) }
    pub fn root_guard_dur(h: &Histogram<N>, d: Duration) { h.get_metric().observe_duration(d) }
    pub fn root_gmut_dur(h: &mut Histogram<N>, d: Duration) { h.get_metric_mut().observe_duration(d) }
    pub fn root_guard_since(h: &Histogram<N>, d: Instant) -> Duration { h.get_metric().observe_duration_since(d) }
    pub fn root_gmut_since(h: &mut Histogram<N>, d: Instant) -> Duration { h.get_metric_mut().observe_duration_since(d) }
    pub fn root_inner_observe(h: &HistogramStateInner<N>, b: usize, x: f64) { h.observe(b, x) }
    pub fn root_inner_observe_mut(h: &mut HistogramStateInner<N>, b: usize, x: f64) { h.observe_mut(b, x) }
    pub fn root_vec_observe(h: &HistogramVec<Set, N>, g: Grp, x: f64) { h.observe(g, x) }
    pub fn root_vec_dur(h: &HistogramVec<Set, N>, g: Grp, x: Duration) { h.observe_duration(g, x) }
    pub fn root_vec_since(h: &HistogramVec<Set, N>, g: Grp, x: Instant) -> Duration { h.observe_duration_since(g, x) }
    pub fn root_with_buckets(b: [f64; N]) -> Thresholds<N> { Thresholds::with_buckets(b) }
    pub fn root_exponential(s: f64, f: f64) -> Thresholds<N> { Thresholds::exponential_buckets(s, f) }
    pub fn root_linear(s: f64, f: f64) -> Thresholds<N> { Thresholds::linear_buckets(s, f) }
    pub fn root_thr_get(t: &Thresholds<N>) -> &[f64; N] { t.get() }
    pub fn root_default() -> HistogramState<N> { HistogramState::default() }
    pub fn root_timer_observe(h: &Histogram<N>) -> Duration { h.start_timer().observe() }
    pub fn root_timer_drop(h: &Histogram<N>) { let _t = h.start_timer(); }
    pub fn root_timer_forget(h: &Histogram<N>) { h.start_timer().forget() }
    pub fn root_vtimer_observe(h: &HistogramVec<Set, N>, g: Grp) -> Duration { h.start_timer(g).observe() }
    pub fn root_vtimer_drop(h: &HistogramVec<Set, N>, g: Grp) { let _t = h.start_timer(g); }
    pub fn root_vtimer_forget(h: &HistogramVec<Set, N>, g: Grp) { h.start_timer(g).forget() }
    pub fn root_timer_start(h: &Histogram<N>) -> HistogramTimer<'_, N> { h.start_timer() }
    pub fn root_timer_fin_observe(t: HistogramTimer<'_, N>) -> Duration { t.observe() }
    pub fn root_timer_fin_drop(t: HistogramTimer<'_, N>) { drop(t) }
    pub fn root_timer_fin_forget(t: HistogramTimer<'_, N>) { t.forget() }
    pub fn root_vtimer_start(h: &HistogramVec<Set, N>, g: Grp) -> HistogramVecTimer<'_, Set, N> { h.start_timer(g) }
    pub fn root_vtimer_fin_observe(t: HistogramVecTimer<'_, Set, N>) -> Duration { t.observe() }
    pub fn root_vtimer_fin_drop(t: HistogramVecTimer<'_, Set, N>) { drop(t) }
    pub fn root_vtimer_fin_forget(t: HistogramVecTimer<'_, Set, N>) { t.forget() }
} } }
hist!(h0, 0);
hist!(h1, 1);
hist!(h3, 3);
hist!(h40, 40);
/// more bounds than an eight-bit index can tell apart
pub mod b300 {
    use super::*;
    pub fn root_exponential(s: f64, f: f64) -> Thresholds<300> { Thresholds::exponential_buckets(s, f) }
    pub fn root_linear(s: f64, f: f64) -> Thresholds<300> { Thresholds::linear_buckets(s, f) }
    pub fn root_inner_observe(h: &HistogramStateInner<300>, b: usize, x: f64) { h.observe(b, x) }
    pub fn root_inner_observe_mut(h: &mut HistogramStateInner<300>, b: usize, x: f64) { h.observe_mut(b, x) }
}

// ---- families, opaque metric kind
pub fn root_fam_with_labels(f: &MV, g: Grp) -> LabelId<Set> { f.with_labels(g) }
pub fn root_fam_try_with_labels(f: &MV, g: Grp) -> Option<LabelId<Set>> { f.try_with_labels(g) }
pub fn root_fam_get(f: &MV, id: LabelId<Set>) -> MetricLockGuard<'_, M> { f.get_metric(id) }
pub fn root_fam_get_mut(f: &mut MV, id: LabelId<Set>) -> MetricMut<'_, M> { f.get_metric_mut(id) }
pub fn root_fam_remove(f: &MV, id: LabelId<Set>) -> Option<M> { f.remove_metric(id) }
pub fn root_fam_access(f: &MV, g: Grp) -> MetricLockGuard<'_, M> { f.get_metric(f.with_labels(g)) }
pub fn root_fam_access_mut(f: &mut MV, g: Grp) -> MetricMut<'_, M> { let id = f.with_labels(g); f.get_metric_mut(id) }
pub fn root_fam_access_remove(f: &MV, g: Grp) -> Option<M> { f.remove_metric(f.with_labels(g)) }
pub fn root_fam_reenter(f: &MV, id: LabelId<Set>) { drop(f.get_metric(id)); drop(f.get_metric(id)) }
pub fn root_fam_drop(f: MV) { drop(f) }
pub fn root_guard_drop(g: MetricLockGuard<'_, M>) { drop(g) }
pub fn root_fam_init_all(f: &mut MV) { f.init_all_dense() }
pub fn root_fam_cardinality(f: &MV) -> (usize, Option<usize>) { f.get_cardinality() }
pub fn root_fam_metadata(f: &MV) -> &Meta { f.metadata() }
pub fn root_fam_label_set(f: &MV) -> &Set { f.get_label_set() }
pub fn root_fam_collect(f: &MV, n: Name, e: &mut Enc) -> Result<(), OpErr> { f.collect_family_into(n, e) }
pub fn root_met_collect(f: &Metric<M>, n: Name, e: &mut Enc) -> Result<(), OpErr> { f.collect_family_into(n, e) }
pub fn root_optmet_collect(f: &Option<Metric<M>>, n: Name, e: &mut Enc) -> Result<(), OpErr> { f.collect_family_into(n, e) }
pub fn root_optfam_collect(f: &Option<Fam>, n: Name, e: &mut Enc) -> Result<(), OpErr> { f.collect_family_into(n, e) }
pub fn root_guard_deref<'a>(g: &'a MetricLockGuard<'_, M>) -> &'a M { g }
pub fn root_guard_meta<'a>(g: &'a MetricLockGuard<'_, M>) -> &'a Meta { g.metadata() }
pub fn root_gmut_deref<'a>(g: &'a MetricMut<'_, M>) -> &'a M { g }
pub fn root_gmut_deref_mut<'a>(g: &'a mut MetricMut<'_, M>) -> &'a mut M { g }
pub fn root_gmut_meta<'a>(g: &'a MetricMut<'_, M>) -> &'a Meta { g.metadata() }
pub fn root_id_eq(a: &LabelId<Set>, b: &LabelId<Set>) -> bool { a == b }
pub fn root_id_clone(a: &LabelId<Set>) -> LabelId<Set> { a.clone() }
// constructors
pub fn root_new_ls_md(s: Set, m: Meta) -> MV { MV::with_label_set_and_metadata(s, m) }
pub fn root_new_dense_ls_md(s: Set, m: Meta) -> MV { MV::dense_with_label_set_and_metadata(s, m) }
pub fn root_new_sparse_ls_md(s: Set, m: Meta) -> MV { MV::sparse_with_label_set_and_metadata(s, m) }
pub fn root_new_md(m: Meta) -> MV { MV::with_metadata(m) }
pub fn root_new_dense_md(m: Meta) -> MV { MV::dense_with_metadata(m) }
pub fn root_new_sparse_md(m: Meta) -> MV { MV::sparse_with_metadata(m) }
pub fn root_new_ls(s: Set) -> MV { MV::with_label_set(s) }
pub fn root_new_dense_ls(s: Set) -> MV { MV::dense_with_label_set(s) }
pub fn root_new_sparse_ls(s: Set) -> MV { MV::sparse_with_label_set(s) }
pub fn root_new() -> MV { MV::new() }
pub fn root_new_dense() -> MV { MV::dense() }
pub fn root_new_sparse() -> MV { MV::sparse() }
pub fn root_new_default() -> MV { Default::default() }
pub fn root_met_new() -> Metric<M> { Metric::new() }
pub fn root_met_default() -> Metric<M> { Default::default() }
pub fn root_met_with_metadata(m: Meta) -> Metric<M> { Metric::with_metadata(m) }
pub fn root_met_get(m: &Metric<M>) -> MetricLockGuard<'_, M> { m.get_metric() }
pub fn root_met_get_mut(m: &mut Metric<M>) -> MetricMut<'_, M> { m.get_metric_mut() }
pub fn root_counter_state_default() -> CounterState { Default::default() }
pub fn root_gauge_state_default() -> GaugeState { Default::default() }
pub fn root_fgauge_state_default() -> FloatGaugeState { Default::default() }
