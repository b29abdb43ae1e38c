use measured::metric::name::*;
use measured::label::LabelName;

//# names-borrow-from-their-text: ok
pub fn a<'a>(s: &'a str) -> &'a LabelName { LabelName::from_str(s) }
pub fn b<'a>(s: &'a str) -> Result<&'a MetricName, InvalidMetricName> { MetricName::try_from_str(s) }
pub fn c() -> &'static MetricName { MetricName::from_str("x") }
//# label-name-outlives-text: E0515
pub fn a() -> &'static LabelName { let s = String::from("x"); LabelName::from_str(&s) }
//# label-name-extended: E0621,E0312,-
pub fn a(s: &str) -> &'static LabelName { LabelName::from_str(s) }
//# metric-name-outlives-text: E0515
pub fn a() -> Option<&'static MetricName> { let s = String::from("x"); MetricName::try_from_str(&s).ok() }
//# metric-name-extended: E0621,E0312,-
pub fn a(s: &str) -> Option<&'static MetricName> { MetricName::try_from_str(s).ok() }
//# metric-from-str-static: E0597,E0515,E0716
pub fn a() -> &'static MetricName { let s = String::from("x"); MetricName::from_str(&s) }
//# namespace-static: E0597,E0515,E0716
pub fn a() -> WithNamespace<u8> { let s = String::from("x"); WithNamespace::new(&s, 1u8) }
//# label-text-outlives: E0515,E0621,-
pub fn a(s: &LabelName) -> &'static str { s.as_str() }
