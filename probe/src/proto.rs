//! the protobuf encoder
use crate::px::*;
use measured::label::*;
use measured::metric::counter::*;
use measured::metric::gauge::*;
use measured::metric::group::Encoding;
use measured::metric::name::*;
use measured::metric::*;
use measured::*;
use measured_prometheus_protobuf::ProtoEncoder;
use std::io;

type E = ProtoEncoder<W>;
type R = io::Result<()>;

pub fn root_new(w: W) -> E { E::new(w) }
pub fn root_flush(e: &mut E) -> R { e.flush() }
pub fn root_help(e: &mut E, n: Name, h: &str) -> R { e.write_help(n, h) }
pub fn root_help_two(e: &mut E, n: Name2, h: &str) -> R { e.write_help(n, h) }
pub fn root_ty_counter(e: &mut E, n: Name) -> R { <CounterState as MetricEncoding<E>>::write_type(n, e) }
pub fn root_ty_gauge(e: &mut E, n: Name) -> R { <GaugeState as MetricEncoding<E>>::write_type(n, e) }
pub fn root_ty_fgauge(e: &mut E, n: Name) -> R { <FloatGaugeState as MetricEncoding<E>>::write_type(n, e) }
pub fn root_ty_two(e: &mut E, n: Name2) -> R { <CounterState as MetricEncoding<E>>::write_type(n, e) }
macro_rules! samples { ($m:ident, $g:ty) => { pub mod $m {
    use super::*;
    pub fn root_counter(e: &mut E, n: Name, c: &CounterState, g: $g) -> R { c.collect_into(&(), g, n, e) }
    pub fn root_gauge(e: &mut E, n: Name, c: &GaugeState, g: $g) -> R { c.collect_into(&(), g, n, e) }
    pub fn root_fgauge(e: &mut E, n: Name, c: &FloatGaugeState, g: $g) -> R { c.collect_into(&(), g, n, e) }
} } }
samples!(g0, G0);
samples!(nl, NoLabels);
samples!(g1, G1);
samples!(g1i, G1i);
samples!(g1f, G1f);
samples!(g2, G2);
samples!(g3, G3);
samples!(gn, GN<'_>);
