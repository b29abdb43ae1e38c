//! The collectors of the system crates, collected into an arbitrary encoder.
use crate::px::*;
use measured::label::*;
use measured::metric::counter::CounterState;
use measured::metric::gauge::{FloatGaugeState, GaugeState};
use measured::metric::name::*;
use measured::metric::MetricEncoding;
use measured::MetricGroup;
use measured_process::ProcessCollector;
use measured_tokio::{NamedRuntimesCollector, RuntimeCollector};
use std::sync::atomic::Ordering;
use tokio::runtime::RuntimeMetrics;

macro_rules! enc { ($m:ty, $end:ident, $bt:ident, $v:ident => $get:expr) => {
    impl MetricEncoding<Enc> for $m {
        fn write_type(name: impl MetricNameEncoder, e: &mut Enc) -> Result<(), OpErr> {
            unsafe { px_begin_type(e) };
            put_name(e, &name);
            unsafe { px_end_type(e) }
        }
        fn collect_into(&self, _: &(), labels: impl LabelGroup, name: impl MetricNameEncoder, e: &mut Enc) -> Result<(), OpErr> {
            unsafe { px_begin_sample(e) };
            put_name(e, &name);
            labels.visit_values(&mut GV(e));
            let $v = self;
            unsafe { $end(e, $get) }
        }
    }
} }
enc!(CounterState, px_end_counter, px_bt, c => c.count.load(Ordering::Relaxed));
enc!(GaugeState, px_end_gauge, px_bt, c => c.count.load(Ordering::Relaxed));
enc!(FloatGaugeState, px_end_float, px_bt, c => c.count.get());
extern "Rust" {
    fn px_end_counter(e: &mut Enc, v: u64) -> Result<(), OpErr>;
    fn px_end_gauge(e: &mut Enc, v: i64) -> Result<(), OpErr>;
    fn px_end_float(e: &mut Enc, v: f64) -> Result<(), OpErr>;
}

pub fn root_process_new(pid: i32) -> ProcessCollector { ProcessCollector::new(pid) }
pub fn root_process_self() -> ProcessCollector { ProcessCollector::for_self() }
pub fn root_process_collect(c: &ProcessCollector, e: &mut Enc) -> Result<(), OpErr> { c.collect_group_into(e) }

pub fn root_named_new() -> NamedRuntimesCollector { NamedRuntimesCollector::new() }
pub fn root_named_default() -> NamedRuntimesCollector { Default::default() }
pub fn root_named_add(c: &NamedRuntimesCollector, rt: RuntimeMetrics, name: String) { c.add(rt, name) }
pub fn root_named_add_current(c: &NamedRuntimesCollector, name: String) { c.add_current(name) }
pub fn root_runtime_new(rt: RuntimeMetrics) -> RuntimeCollector { RuntimeCollector::new(rt) }
pub fn root_runtime_current() -> RuntimeCollector { RuntimeCollector::current() }
pub fn root_runtime_named(rt: RuntimeCollector, name: String) -> RuntimeCollector { rt.with_name(name) }
pub fn root_runtime_named_str(rt: RuntimeCollector, name: &'static str) -> RuntimeCollector { rt.with_name(name) }
pub fn root_runtime_collect(c: &RuntimeCollector, e: &mut Enc) -> Result<(), OpErr> { c.collect_group_into(e) }
pub fn root_named_collect(c: &NamedRuntimesCollector, e: &mut Enc) -> Result<(), OpErr> { c.collect_group_into(e) }
