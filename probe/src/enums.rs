//! derived label enums (written by tools/mkenums.py)
#![allow(non_camel_case_types)]
use crate::px::*;
use measured::label::*;
use measured::FixedCardinalityLabel;

pub mod n1 {
    use super::*;
    #[derive(FixedCardinalityLabel, Clone, Copy)]
    pub enum E { Alpha }
    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }
    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }
    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }
    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
}
pub mod n2 {
    use super::*;
    #[derive(FixedCardinalityLabel, Clone, Copy)]
    pub enum E { Alpha, BetaGamma }
    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }
    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }
    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }
    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
}
pub mod n3 {
    use super::*;
    #[derive(FixedCardinalityLabel, Clone, Copy)]
    pub enum E { Alpha, BetaGamma, delta_eps }
    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }
    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }
    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }
    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
}
pub mod n4 {
    use super::*;
    #[derive(FixedCardinalityLabel, Clone, Copy)]
    pub enum E { Alpha, BetaGamma, delta_eps, HTTPServer }
    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }
    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }
    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }
    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
}
pub mod n5 {
    use super::*;
    #[derive(FixedCardinalityLabel, Clone, Copy)]
    pub enum E { Alpha, BetaGamma, delta_eps, HTTPServer, X }
    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }
    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }
    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }
    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
}
pub mod n6 {
    use super::*;
    #[derive(FixedCardinalityLabel, Clone, Copy)]
    pub enum E { Alpha, BetaGamma, delta_eps, HTTPServer, X, ReadWriteLock }
    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }
    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }
    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }
    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
}
pub mod all {
    use super::*;
    #[derive(FixedCardinalityLabel, Clone, Copy)]
    pub enum E { Alpha, BetaGamma, delta_eps, HTTPServer, X, ReadWriteLock, r#type }
    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }
    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }
    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }
    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
}
pub mod style0 {
    use super::*;
    #[derive(FixedCardinalityLabel, Clone, Copy)]
    #[label(rename_all = "UpperCamelCase")]
    pub enum E { Alpha, BetaGamma, delta_eps, HTTPServer, X, ReadWriteLock, r#type }
    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }
    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }
    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }
    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
}
pub mod style0_rot {
    use super::*;
    #[derive(FixedCardinalityLabel, Clone, Copy)]
    #[label(rename_all = "UpperCamelCase")]
    pub enum E { HTTPServer, #[label(rename = "kept As-Is")] X, ReadWriteLock = 7, r#type, Alpha, BetaGamma, delta_eps }
    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }
    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }
    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }
    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
}
pub mod style1 {
    use super::*;
    #[derive(FixedCardinalityLabel, Clone, Copy)]
    #[label(rename_all = "lowerCamelCase")]
    pub enum E { Alpha, BetaGamma, delta_eps, HTTPServer, X, ReadWriteLock, r#type }
    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }
    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }
    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }
    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
}
pub mod style1_rot {
    use super::*;
    #[derive(FixedCardinalityLabel, Clone, Copy)]
    #[label(rename_all = "lowerCamelCase")]
    pub enum E { HTTPServer, #[label(rename = "kept As-Is")] X, ReadWriteLock = 7, r#type, Alpha, BetaGamma, delta_eps }
    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }
    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }
    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }
    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
}
pub mod style2 {
    use super::*;
    #[derive(FixedCardinalityLabel, Clone, Copy)]
    #[label(rename_all = "snake_case")]
    pub enum E { Alpha, BetaGamma, delta_eps, HTTPServer, X, ReadWriteLock, r#type }
    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }
    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }
    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }
    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
}
pub mod style2_rot {
    use super::*;
    #[derive(FixedCardinalityLabel, Clone, Copy)]
    #[label(rename_all = "snake_case")]
    pub enum E { HTTPServer, #[label(rename = "kept As-Is")] X, ReadWriteLock = 7, r#type, Alpha, BetaGamma, delta_eps }
    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }
    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }
    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }
    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
}
pub mod style3 {
    use super::*;
    #[derive(FixedCardinalityLabel, Clone, Copy)]
    #[label(rename_all = "kebab-case")]
    pub enum E { Alpha, BetaGamma, delta_eps, HTTPServer, X, ReadWriteLock, r#type }
    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }
    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }
    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }
    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
}
pub mod style3_rot {
    use super::*;
    #[derive(FixedCardinalityLabel, Clone, Copy)]
    #[label(rename_all = "kebab-case")]
    pub enum E { HTTPServer, #[label(rename = "kept As-Is")] X, ReadWriteLock = 7, r#type, Alpha, BetaGamma, delta_eps }
    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }
    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }
    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }
    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
}
pub mod style4 {
    use super::*;
    #[derive(FixedCardinalityLabel, Clone, Copy)]
    #[label(rename_all = "SHOUTY_SNAKE_CASE")]
    pub enum E { Alpha, BetaGamma, delta_eps, HTTPServer, X, ReadWriteLock, r#type }
    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }
    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }
    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }
    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
}
pub mod style4_rot {
    use super::*;
    #[derive(FixedCardinalityLabel, Clone, Copy)]
    #[label(rename_all = "SHOUTY_SNAKE_CASE")]
    pub enum E { HTTPServer, #[label(rename = "kept As-Is")] X, ReadWriteLock = 7, r#type, Alpha, BetaGamma, delta_eps }
    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }
    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }
    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }
    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
}
pub mod style5 {
    use super::*;
    #[derive(FixedCardinalityLabel, Clone, Copy)]
    #[label(rename_all = "SHOUTY-KEBAB-CASE")]
    pub enum E { Alpha, BetaGamma, delta_eps, HTTPServer, X, ReadWriteLock, r#type }
    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }
    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }
    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }
    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
}
pub mod style5_rot {
    use super::*;
    #[derive(FixedCardinalityLabel, Clone, Copy)]
    #[label(rename_all = "SHOUTY-KEBAB-CASE")]
    pub enum E { HTTPServer, #[label(rename = "kept As-Is")] X, ReadWriteLock = 7, r#type, Alpha, BetaGamma, delta_eps }
    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }
    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }
    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }
    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
}
pub mod style6 {
    use super::*;
    #[derive(FixedCardinalityLabel, Clone, Copy)]
    #[label(rename_all = "Title Case")]
    pub enum E { Alpha, BetaGamma, delta_eps, HTTPServer, X, ReadWriteLock, r#type }
    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }
    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }
    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }
    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
}
pub mod style6_rot {
    use super::*;
    #[derive(FixedCardinalityLabel, Clone, Copy)]
    #[label(rename_all = "Title Case")]
    pub enum E { HTTPServer, #[label(rename = "kept As-Is")] X, ReadWriteLock = 7, r#type, Alpha, BetaGamma, delta_eps }
    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }
    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }
    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }
    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
}
pub mod style7 {
    use super::*;
    #[derive(FixedCardinalityLabel, Clone, Copy)]
    #[label(rename_all = "Train-Case")]
    pub enum E { Alpha, BetaGamma, delta_eps, HTTPServer, X, ReadWriteLock, r#type }
    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }
    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }
    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }
    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
}
pub mod style7_rot {
    use super::*;
    #[derive(FixedCardinalityLabel, Clone, Copy)]
    #[label(rename_all = "Train-Case")]
    pub enum E { HTTPServer, #[label(rename = "kept As-Is")] X, ReadWriteLock = 7, r#type, Alpha, BetaGamma, delta_eps }
    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }
    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }
    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }
    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
}
pub mod rename {
    use super::*;
    #[derive(FixedCardinalityLabel, Clone, Copy)]
    pub enum E { #[label(rename = "a b")] Alpha, X, #[label(rename = "")] BetaGamma }
    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }
    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }
    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }
    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
}
pub mod rename_all {
    use super::*;
    #[derive(FixedCardinalityLabel, Clone, Copy)]
    pub enum E { #[label(rename = "r0")] Alpha, #[label(rename = "r1")] BetaGamma, #[label(rename = "r2")] delta_eps, #[label(rename = "r3")] HTTPServer, #[label(rename = "r4")] X, #[label(rename = "r5")] ReadWriteLock, #[label(rename = "r6")] r#type }
    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }
    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }
    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }
    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
}
pub mod rename_odd {
    use super::*;
    #[derive(FixedCardinalityLabel, Clone, Copy)]
    pub enum E { #[label(rename = "snow☃man")] Alpha, #[label(rename = "q\"uote\\")] X, #[label(rename = "Alpha")] BetaGamma }
    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }
    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }
    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }
    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
}
pub mod rename_space {
    use super::*;
    #[derive(FixedCardinalityLabel, Clone, Copy)]
    pub enum E { #[label(rename = " a")] Alpha, #[label(rename = "a ")] X, #[label(rename = "a")] BetaGamma, #[label(rename = "\ta\n")] delta_eps, #[label(rename = " ")] HTTPServer }
    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }
    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }
    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }
    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
}
pub mod rename_case {
    use super::*;
    #[derive(FixedCardinalityLabel, Clone, Copy)]
    #[label(rename_all = "kebab-case")]
    pub enum E { #[label(rename = "ALPHA")] Alpha, #[label(rename = "r#x")] X, #[label(rename = "betaGamma")] BetaGamma, #[label(rename = "0")] delta_eps, #[label(rename = "-1")] HTTPServer }
    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }
    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }
    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }
    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
}
pub mod codes {
    use super::*;
    #[derive(FixedCardinalityLabel, Clone, Copy)]
    pub enum E { Alpha = 200, X = 404, BetaGamma = 500 }
    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }
    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }
    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }
    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
}
pub mod codes_down {
    use super::*;
    #[derive(FixedCardinalityLabel, Clone, Copy)]
    pub enum E { Alpha = 500, X = 404, BetaGamma = 0 }
    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }
    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }
    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }
    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
}
pub mod codes_mixed {
    use super::*;
    #[derive(FixedCardinalityLabel, Clone, Copy)]
    pub enum E { Alpha = 5, X, #[label(rename = "bg")] BetaGamma, #[label(rename = "ignored")] HTTPServer = 3 }
    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }
    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }
    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }
    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
}
pub mod codes_swapped {
    use super::*;
    #[derive(FixedCardinalityLabel, Clone, Copy)]
    pub enum E { Alpha = 1, X = 0 }
    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }
    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }
    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }
    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
}
pub mod codes_hex {
    use super::*;
    #[derive(FixedCardinalityLabel, Clone, Copy)]
    pub enum E { Alpha = 0xff, X = 1_000_000 }
    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }
    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }
    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }
    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
}
pub mod codes_last {
    use super::*;
    #[derive(FixedCardinalityLabel, Clone, Copy)]
    pub enum E { Alpha, X, BetaGamma = 100 }
    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }
    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }
    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }
    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
}
pub mod codes_big {
    use super::*;
    #[derive(FixedCardinalityLabel, Clone, Copy)]
    pub enum E { Alpha = 2147483648, X = 4294967296, BetaGamma = 9223372036854775807, delta_eps = 65536, HTTPServer = 255, ReadWriteLock = 256 }
    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }
    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }
    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }
    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
}
pub mod codes_single {
    use super::*;
    #[derive(FixedCardinalityLabel, Clone, Copy)]
    pub enum E { Alpha = 42 }
    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }
    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }
    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }
    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
}
pub mod single {
    use super::*;
    #[derive(FixedCardinalityLabel, Clone, Copy)]
    #[label(singleton = "kind")]
    pub enum E { Alpha, BetaGamma }
    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }
    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }
    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }
    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
    pub fn root_group(x: &E, e: &mut Enc) { LabelGroup::visit_values(x, &mut GV(e)) }
}
pub mod single_styled {
    use super::*;
    #[derive(FixedCardinalityLabel, Clone, Copy)]
    #[label(rename_all = "SHOUTY-KEBAB-CASE", singleton = "the_kind")]
    pub enum E { Alpha, BetaGamma, #[label(rename = "other")] X }
    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }
    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }
    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }
    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
    pub fn root_group(x: &E, e: &mut Enc) { LabelGroup::visit_values(x, &mut GV(e)) }
}
pub mod single_code {
    use super::*;
    #[derive(FixedCardinalityLabel, Clone, Copy)]
    #[label(singleton = "code")]
    pub enum E { Alpha = 7, X }
    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }
    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }
    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }
    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
    pub fn root_group(x: &E, e: &mut Enc) { LabelGroup::visit_values(x, &mut GV(e)) }
}
pub mod wide {
    use super::*;
    #[derive(FixedCardinalityLabel, Clone, Copy)]
    pub enum E { #[label(rename = "w0")] VAA, #[label(rename = "w1")] VAB, #[label(rename = "w2")] VAC, #[label(rename = "w3")] VAD, #[label(rename = "w4")] VAE, #[label(rename = "w5")] VAF, #[label(rename = "w6")] VAG, #[label(rename = "w7")] VAH, #[label(rename = "w8")] VAI, #[label(rename = "w9")] VAJ, #[label(rename = "w10")] VAK, #[label(rename = "w11")] VAL, #[label(rename = "w12")] VAM, #[label(rename = "w13")] VAN, #[label(rename = "w14")] VAO, #[label(rename = "w15")] VAP, #[label(rename = "w16")] VAQ, #[label(rename = "w17")] VAR, #[label(rename = "w18")] VAS, #[label(rename = "w19")] VAT, #[label(rename = "w20")] VAU, #[label(rename = "w21")] VAV, #[label(rename = "w22")] VAW, #[label(rename = "w23")] VAX, #[label(rename = "w24")] VAY, #[label(rename = "w25")] VAZ, #[label(rename = "w26")] VBA, #[label(rename = "w27")] VBB, #[label(rename = "w28")] VBC, #[label(rename = "w29")] VBD, #[label(rename = "w30")] VBE, #[label(rename = "w31")] VBF, #[label(rename = "w32")] VBG, #[label(rename = "w33")] VBH, #[label(rename = "w34")] VBI, #[label(rename = "w35")] VBJ, #[label(rename = "w36")] VBK, #[label(rename = "w37")] VBL, #[label(rename = "w38")] VBM, #[label(rename = "w39")] VBN }
    pub fn root_card() -> usize { <E as FixedCardinalityLabel>::cardinality() }
    pub fn root_encode(x: &E) -> usize { FixedCardinalityLabel::encode(x) }
    pub fn root_decode(i: usize) -> E { <E as FixedCardinalityLabel>::decode(i) }
    pub fn root_value(x: &E, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
}
