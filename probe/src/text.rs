//! the text encoder
use crate::px::*;
use bytes::Bytes;
use measured::label::*;
use measured::metric::counter::*;
use measured::metric::gauge::*;
use measured::metric::group::Encoding;
use measured::metric::histogram::*;
use measured::metric::name::*;
use measured::metric::*;
use measured::text::*;
use measured::*;
use std::convert::Infallible;
use std::io;

type E = TextEncoder<W>;
type R = io::Result<()>;

pub fn root_new(w: W) -> E { E::new(w) }
pub fn root_flush(e: &mut E) -> R { e.flush() }
pub fn root_help(e: &mut E, n: Name, h: &str) -> R { e.write_help(n, h) }
pub fn root_help_two(e: &mut E, n: Name2, h: &str) -> R { e.write_help(n, h) }
pub fn root_help_ref(e: &mut E, n: Name, h: &str) -> R { (&mut &mut *e).write_help(n, h) }
pub fn root_ty(e: &mut E, n: Name, t: text::MetricType) -> R { e.write_type(&n, t) }
pub fn root_ty_two(e: &mut E, n: Name2, t: text::MetricType) -> R { e.write_type(&n, t) }
pub fn root_ty_counter(e: &mut E, n: Name) -> R { <CounterState as MetricEncoding<E>>::write_type(n, e) }
pub fn root_ty_gauge(e: &mut E, n: Name) -> R { <GaugeState as MetricEncoding<E>>::write_type(n, e) }
pub fn root_ty_fgauge(e: &mut E, n: Name) -> R { <FloatGaugeState as MetricEncoding<E>>::write_type(n, e) }
pub fn root_ty_hist(e: &mut E, n: Name) -> R { <HistogramState<3> as MetricEncoding<E>>::write_type(n, e) }
macro_rules! samples { ($m:ident, $g:ty) => { pub mod $m {
    use super::*;
    pub fn root_counter(e: &mut E, n: Name, c: &CounterState, g: $g) -> R { c.collect_into(&(), g, n, e) }
    pub fn root_gauge(e: &mut E, n: Name, c: &GaugeState, g: $g) -> R { c.collect_into(&(), g, n, e) }
    pub fn root_fgauge(e: &mut E, n: Name, c: &FloatGaugeState, g: $g) -> R { c.collect_into(&(), g, n, e) }
    pub fn root_hist0(e: &mut E, n: Name, c: &HistogramState<0>, g: $g, t: &Thresholds<0>) -> R { c.collect_into(t, g, n, e) }
    pub fn root_hist1(e: &mut E, n: Name, c: &HistogramState<1>, g: $g, t: &Thresholds<1>) -> R { c.collect_into(t, g, n, e) }
    pub fn root_hist3(e: &mut E, n: Name, c: &HistogramState<3>, g: $g, t: &Thresholds<3>) -> R { c.collect_into(t, g, n, e) }
} } }
samples!(g0, G0);
samples!(nl, NoLabels);
samples!(g1, G1);
samples!(g1i, G1i);
samples!(g1f, G1f);
samples!(g2, G2);
samples!(g3, G3);
samples!(gn, GN<'_>);
pub fn root_counter_two(e: &mut E, n: Name2, c: &CounterState, g: G1) -> R { c.collect_into(&(), g, n, e) }
pub fn root_counter_ref(e: &mut E, n: Name, c: &CounterState, g: G1) -> R { c.collect_into(&(), g, n, &mut &mut *e) }
pub fn root_counter_ns(e: &mut WithNamespace<E>, n: Name, c: &CounterState, g: G1) -> R { c.collect_into(&(), g, n, e) }
pub fn root_hist3_two(e: &mut E, n: Name2, c: &HistogramState<3>, g: G1, t: &Thresholds<3>) -> R { c.collect_into(t, g, n, e) }
pub fn root_hist40(e: &mut E, n: Name, c: &HistogramState<40>, g: G1, t: &Thresholds<40>) -> R { c.collect_into(t, g, n, e) }
pub fn root_fam_counter(e: &mut E, n: Name, c: &CounterVec<Set>) -> R { c.collect_family_into(n, e) }
pub fn root_met_counter(e: &mut E, n: Name, c: &Counter) -> R { c.collect_family_into(n, e) }
pub fn root_met_hist(e: &mut E, n: Name, c: &Histogram<3>) -> R { c.collect_family_into(n, e) }

// ---- buffered
type B = BufferedTextEncoder;
pub fn root_bnew() -> B { B::new() }
pub fn root_bdefault() -> B { B::default() }
pub fn root_bfinish(e: &mut B) -> Bytes { e.finish() }
pub fn root_bhelp(e: &mut B, n: Name, h: &str) -> Result<(), Infallible> { e.write_help(n, h) }
pub fn root_bty(e: &mut B, n: Name) -> Result<(), Infallible> { <CounterState as MetricEncoding<B>>::write_type(n, e) }
pub fn root_bcounter(e: &mut B, n: Name, c: &CounterState, g: G1) -> Result<(), Infallible> { c.collect_into(&(), g, n, e) }
pub fn root_bgauge(e: &mut B, n: Name, c: &GaugeState, g: G1f) -> Result<(), Infallible> { c.collect_into(&(), g, n, e) }
pub fn root_bfgauge(e: &mut B, n: Name, c: &FloatGaugeState, g: G1i) -> Result<(), Infallible> { c.collect_into(&(), g, n, e) }
pub fn root_bhist(e: &mut B, n: Name, c: &HistogramState<3>, g: G2, t: &Thresholds<3>) -> Result<(), Infallible> { c.collect_into(t, g, n, e) }

// ---- the type line by the public kind
pub fn root_tyv_counter(e: &mut E, n: Name) -> R { e.write_type(&n, text::MetricType::Counter) }
pub fn root_tyv_histogram(e: &mut E, n: Name) -> R { e.write_type(&n, text::MetricType::Histogram) }
pub fn root_tyv_gauge(e: &mut E, n: Name) -> R { e.write_type(&n, text::MetricType::Gauge) }
pub fn root_tyv_summary(e: &mut E, n: Name) -> R { e.write_type(&n, text::MetricType::Summary) }
pub fn root_tyv_untyped(e: &mut E, n: Name) -> R { e.write_type(&n, text::MetricType::Untyped) }
pub fn root_bty_hist(e: &mut B, n: Name) -> Result<(), Infallible> { <HistogramState<3> as MetricEncoding<B>>::write_type(n, e) }
pub fn root_bty_gauge(e: &mut B, n: Name) -> Result<(), Infallible> { <GaugeState as MetricEncoding<B>>::write_type(n, e) }
pub fn root_bty_fgauge(e: &mut B, n: Name) -> Result<(), Infallible> { <FloatGaugeState as MetricEncoding<B>>::write_type(n, e) }
