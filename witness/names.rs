use measured::metric::name::*;
use measured::label::LabelName;

//# valid-names: ok
pub const A: &MetricName = MetricName::from_str("http_requests:rate5m");
pub const B: &MetricName = MetricName::from_str("_x");
pub const C: &MetricName = MetricName::from_str(":x");
pub const D: &LabelName = LabelName::from_str("_code9");
pub fn e() -> Result<(), InvalidMetricName> { let _: &MetricName = MetricName::try_from_str("a")?; Ok(()) }
pub fn f() -> WithNamespace<&'static MetricName> { A.in_namespace("ns") }
pub fn g() -> WithNamespace<u8> { WithNamespace::new("ns", 1u8) }

//# private-namespace-field: E0451
pub fn f(n: &'static MetricName) -> WithNamespace<u8> { WithNamespace { namespace: n, inner: 1u8 } }
//# private-suffix-fields: E0451
pub fn f(n: &'static MetricName) -> WithSuffix<Total, &'static MetricName> { WithSuffix { suffix: Total, metric_name: n } }
//# private-metric-name: E0423,E0603,E0277,E0308,E0423
pub fn f() -> Box<MetricName> { Box::new(MetricName(*"a b")) }
//# metric-name-from-into: E0277
pub fn f() -> &'static MetricName { "a b".into() }
//# metric-name-try-from-std: E0277
pub fn f() -> &'static MetricName { <&MetricName as std::convert::From<&'static str>>::from("a b") }
//# metric-name-box-from: E0277,E0308
pub fn f() -> Box<MetricName> { Box::<MetricName>::from("a b") }
//# metric-name-as-ref: E0277
pub fn f() -> &'static MetricName { AsRef::<MetricName>::as_ref("a b") }
//# metric-name-borrow: E0277
pub fn f() -> &'static MetricName { std::borrow::Borrow::<MetricName>::borrow("a b") }
//# metric-name-default: E0277
pub fn f() -> &'static MetricName { Default::default() }
//# metric-name-coerce: E0308
pub fn f() -> &'static MetricName { "a b" }
//# metric-name-mutable-text: E0596,E0614,E0599,E0616,E0308
pub fn f(n: &mut MetricName) -> &mut str { &mut n.0 }
//# label-name-from-into: E0277
pub fn f() -> &'static LabelName { "a b".into() }
//# label-name-as-ref: E0277
pub fn f() -> &'static LabelName { AsRef::<LabelName>::as_ref("a b") }
//# label-name-default: E0277
pub fn f() -> &'static LabelName { Default::default() }
//# label-name-coerce: E0308
pub fn f() -> &'static LabelName { "a b" }
//# label-name-box-from: E0277,E0308
pub fn f() -> Box<LabelName> { Box::<LabelName>::from("a b") }
//# private-label-name: E0423,E0603,E0277,E0308
pub fn f() -> Box<LabelName> { Box::new(LabelName(*"a b")) }
//# label-name-mutable-text: E0616,E0308,E0596
pub fn f(n: &mut LabelName) -> &mut str { &mut n.0 }
//# metric-const-dash: E0080
pub const A: &MetricName = MetricName::from_str("a-b");
//# metric-const-empty: E0080
pub const A: &MetricName = MetricName::from_str("");
//# metric-const-digit: E0080
pub const A: &MetricName = MetricName::from_str("9a");
//# metric-const-space: E0080
pub const A: &MetricName = MetricName::from_str("a b");
//# metric-const-unicode: E0080
pub const A: &MetricName = MetricName::from_str("é");
//# label-const-colon: E0080
pub const A: &LabelName = LabelName::from_str("a:b");
//# label-const-empty: E0080
pub const A: &LabelName = LabelName::from_str("");
//# label-const-digit: E0080
pub const A: &LabelName = LabelName::from_str("0a");
//# label-const-quote: E0080
pub const A: &LabelName = LabelName::from_str("a\"");
//# namespace-const-invalid: E0080
pub const A: WithNamespace<u8> = WithNamespace::new("a b", 1u8);
