//! derived label groups of every small shape (written by tools/mkshapes.py)
use crate::px::*;
use measured::label::*;
use measured::*;

pub mod s_none {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group {  }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<usize> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &usize) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: usize) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new() -> Set { Set::new() }
    pub fn root_default() -> Set { Set::default() }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_e {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { pub alpha: FEnum }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<usize> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &usize) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: usize) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new() -> Set { Set::new() }
    pub fn root_default() -> Set { Set::default() }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_f {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(fixed_with = LFix)] pub alpha: VFix }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<usize> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &usize) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: usize) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(alpha: LFix) -> Set { Set::new(alpha) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_g {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(fixed_with = LDef, default)] pub alpha: VDef }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<usize> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &usize) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: usize) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new() -> Set { Set::new() }
    pub fn root_default() -> Set { Set::default() }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_d {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(dynamic_with = LDyn)] pub alpha: VDyn }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(alpha: LDyn) -> Set { Set::new(alpha) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_h {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(dynamic_with = LDyn2, default)] pub alpha: VDyn2 }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new() -> Set { Set::new() }
    pub fn root_default() -> Set { Set::default() }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_ee {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { pub quantile: FEnum, #[label(rename = "MixedCase")] pub self_: FEnum }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<usize> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &usize) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: usize) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new() -> Set { Set::new() }
    pub fn root_default() -> Set { Set::default() }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_ef {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { pub alpha: FEnum, #[label(fixed_with = LFix)] #[label(rename = "__dunder")] pub beta_2: VFix }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<usize> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &usize) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: usize) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(beta_2: LFix) -> Set { Set::new(beta_2) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_eg {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { pub _lead: FEnum, #[label(fixed_with = LDef, default)] #[label(rename = "A9_z")] pub CamelCase: VDef }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<usize> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &usize) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: usize) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new() -> Set { Set::new() }
    pub fn root_default() -> Set { Set::default() }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_ed {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { pub le: FEnum, #[label(dynamic_with = LDyn)] #[label(rename = "RRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRR")] pub job: VDyn }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(job: LDyn) -> Set { Set::new(job) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_eh {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { pub quantile: FEnum, #[label(dynamic_with = LDyn2, default)] #[label(rename = "le2x")] pub self_: VDyn2 }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new() -> Set { Set::new() }
    pub fn root_default() -> Set { Set::default() }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_fe {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(fixed_with = LFix)] pub alpha: VFix, #[label(rename = "_b1")] pub beta_2: FEnum }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<usize> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &usize) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: usize) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(alpha: LFix) -> Set { Set::new(alpha) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_ff {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(fixed_with = LFix)] pub _lead: VFix, #[label(fixed_with = LFix)] #[label(rename = "UPPER")] pub CamelCase: VFix }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<usize> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &usize) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: usize) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(_lead: LFix, CamelCase: LFix) -> Set { Set::new(_lead, CamelCase) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_fg {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(fixed_with = LFix)] pub le: VFix, #[label(fixed_with = LDef, default)] #[label(rename = "MixedCase")] pub job: VDef }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<usize> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &usize) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: usize) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(le: LFix) -> Set { Set::new(le) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_fd {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(fixed_with = LFix)] pub quantile: VFix, #[label(dynamic_with = LDyn)] #[label(rename = "__dunder")] pub self_: VDyn }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(self_: LDyn, quantile: LFix) -> Set { Set::new(self_, quantile) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_fh {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(fixed_with = LFix)] pub alpha: VFix, #[label(dynamic_with = LDyn2, default)] #[label(rename = "A9_z")] pub beta_2: VDyn2 }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(alpha: LFix) -> Set { Set::new(alpha) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_ge {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(fixed_with = LDef, default)] pub _lead: VDef, #[label(rename = "RRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRR")] pub CamelCase: FEnum }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<usize> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &usize) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: usize) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new() -> Set { Set::new() }
    pub fn root_default() -> Set { Set::default() }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_gf {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(fixed_with = LDef, default)] pub le: VDef, #[label(fixed_with = LFix)] #[label(rename = "le2x")] pub job: VFix }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<usize> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &usize) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: usize) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(job: LFix) -> Set { Set::new(job) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_gg {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(fixed_with = LDef, default)] pub quantile: VDef, #[label(fixed_with = LDef, default)] #[label(rename = "_b1")] pub self_: VDef }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<usize> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &usize) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: usize) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new() -> Set { Set::new() }
    pub fn root_default() -> Set { Set::default() }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_gd {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(fixed_with = LDef, default)] pub alpha: VDef, #[label(dynamic_with = LDyn)] #[label(rename = "UPPER")] pub beta_2: VDyn }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(beta_2: LDyn) -> Set { Set::new(beta_2) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_gh {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(fixed_with = LDef, default)] pub _lead: VDef, #[label(dynamic_with = LDyn2, default)] #[label(rename = "MixedCase")] pub CamelCase: VDyn2 }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new() -> Set { Set::new() }
    pub fn root_default() -> Set { Set::default() }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_de {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(dynamic_with = LDyn)] pub le: VDyn, #[label(rename = "__dunder")] pub job: FEnum }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(le: LDyn) -> Set { Set::new(le) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_df {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(dynamic_with = LDyn)] pub quantile: VDyn, #[label(fixed_with = LFix)] #[label(rename = "A9_z")] pub self_: VFix }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(quantile: LDyn, self_: LFix) -> Set { Set::new(quantile, self_) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_dg {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(dynamic_with = LDyn)] pub alpha: VDyn, #[label(fixed_with = LDef, default)] #[label(rename = "RRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRR")] pub beta_2: VDef }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(alpha: LDyn) -> Set { Set::new(alpha) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_dd {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(dynamic_with = LDyn)] pub _lead: VDyn, #[label(dynamic_with = LDyn)] #[label(rename = "le2x")] pub CamelCase: VDyn }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(_lead: LDyn, CamelCase: LDyn) -> Set { Set::new(_lead, CamelCase) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_dh {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(dynamic_with = LDyn)] pub le: VDyn, #[label(dynamic_with = LDyn2, default)] #[label(rename = "_b1")] pub job: VDyn2 }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(le: LDyn) -> Set { Set::new(le) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_he {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(dynamic_with = LDyn2, default)] pub quantile: VDyn2, #[label(rename = "UPPER")] pub self_: FEnum }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new() -> Set { Set::new() }
    pub fn root_default() -> Set { Set::default() }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_hf {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(dynamic_with = LDyn2, default)] pub alpha: VDyn2, #[label(fixed_with = LFix)] #[label(rename = "MixedCase")] pub beta_2: VFix }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(beta_2: LFix) -> Set { Set::new(beta_2) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_hg {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(dynamic_with = LDyn2, default)] pub _lead: VDyn2, #[label(fixed_with = LDef, default)] #[label(rename = "__dunder")] pub CamelCase: VDef }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new() -> Set { Set::new() }
    pub fn root_default() -> Set { Set::default() }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_hd {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(dynamic_with = LDyn2, default)] pub le: VDyn2, #[label(dynamic_with = LDyn)] #[label(rename = "A9_z")] pub job: VDyn }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(job: LDyn) -> Set { Set::new(job) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_hh {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(dynamic_with = LDyn2, default)] pub quantile: VDyn2, #[label(dynamic_with = LDyn2, default)] #[label(rename = "RRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRR")] pub self_: VDyn2 }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new() -> Set { Set::new() }
    pub fn root_default() -> Set { Set::default() }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_eee {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { pub alpha: FEnum, #[label(rename = "le2x")] pub beta_2: FEnum, pub gamma: FEnum }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<usize> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &usize) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: usize) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new() -> Set { Set::new() }
    pub fn root_default() -> Set { Set::default() }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_eef {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { pub _lead: FEnum, #[label(rename = "_b1")] pub CamelCase: FEnum, #[label(fixed_with = LFix)] pub trailing_: VFix }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<usize> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &usize) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: usize) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(trailing_: LFix) -> Set { Set::new(trailing_) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_eed {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { pub le: FEnum, #[label(rename = "UPPER")] pub job: FEnum, #[label(dynamic_with = LDyn)] pub instance: VDyn }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(instance: LDyn) -> Set { Set::new(instance) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_efe {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { pub quantile: FEnum, #[label(fixed_with = LFix)] #[label(rename = "MixedCase")] pub self_: VFix, pub qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq: FEnum }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<usize> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &usize) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: usize) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(self_: LFix) -> Set { Set::new(self_) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_eff {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { pub alpha: FEnum, #[label(fixed_with = LFix)] #[label(rename = "__dunder")] pub beta_2: VFix, #[label(fixed_with = LFix)] pub gamma: VFix }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<usize> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &usize) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: usize) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(beta_2: LFix, gamma: LFix) -> Set { Set::new(beta_2, gamma) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_efd {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { pub _lead: FEnum, #[label(fixed_with = LFix)] #[label(rename = "A9_z")] pub CamelCase: VFix, #[label(dynamic_with = LDyn)] pub trailing_: VDyn }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(trailing_: LDyn, CamelCase: LFix) -> Set { Set::new(trailing_, CamelCase) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_ede {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { pub le: FEnum, #[label(dynamic_with = LDyn)] #[label(rename = "RRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRR")] pub job: VDyn, pub instance: FEnum }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(job: LDyn) -> Set { Set::new(job) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_edf {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { pub quantile: FEnum, #[label(dynamic_with = LDyn)] #[label(rename = "le2x")] pub self_: VDyn, #[label(fixed_with = LFix)] pub qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq: VFix }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(self_: LDyn, qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq: LFix) -> Set { Set::new(self_, qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_edd {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { pub alpha: FEnum, #[label(dynamic_with = LDyn)] #[label(rename = "_b1")] pub beta_2: VDyn, #[label(dynamic_with = LDyn)] pub gamma: VDyn }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(beta_2: LDyn, gamma: LDyn) -> Set { Set::new(beta_2, gamma) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_fee {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(fixed_with = LFix)] pub _lead: VFix, #[label(rename = "UPPER")] pub CamelCase: FEnum, pub trailing_: FEnum }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<usize> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &usize) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: usize) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(_lead: LFix) -> Set { Set::new(_lead) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_fef {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(fixed_with = LFix)] pub le: VFix, #[label(rename = "MixedCase")] pub job: FEnum, #[label(fixed_with = LFix)] pub instance: VFix }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<usize> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &usize) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: usize) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(le: LFix, instance: LFix) -> Set { Set::new(le, instance) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_fed {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(fixed_with = LFix)] pub quantile: VFix, #[label(rename = "__dunder")] pub self_: FEnum, #[label(dynamic_with = LDyn)] pub qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq: VDyn }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq: LDyn, quantile: LFix) -> Set { Set::new(qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq, quantile) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_ffe {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(fixed_with = LFix)] pub alpha: VFix, #[label(fixed_with = LFix)] #[label(rename = "A9_z")] pub beta_2: VFix, pub gamma: FEnum }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<usize> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &usize) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: usize) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(alpha: LFix, beta_2: LFix) -> Set { Set::new(alpha, beta_2) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_fff {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(fixed_with = LFix)] pub _lead: VFix, #[label(fixed_with = LFix)] #[label(rename = "RRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRR")] pub CamelCase: VFix, #[label(fixed_with = LFix)] pub trailing_: VFix }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<usize> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &usize) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: usize) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(_lead: LFix, CamelCase: LFix, trailing_: LFix) -> Set { Set::new(_lead, CamelCase, trailing_) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_ffd {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(fixed_with = LFix)] pub le: VFix, #[label(fixed_with = LFix)] #[label(rename = "le2x")] pub job: VFix, #[label(dynamic_with = LDyn)] pub instance: VDyn }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(instance: LDyn, le: LFix, job: LFix) -> Set { Set::new(instance, le, job) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_fde {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(fixed_with = LFix)] pub quantile: VFix, #[label(dynamic_with = LDyn)] #[label(rename = "_b1")] pub self_: VDyn, pub qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq: FEnum }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(self_: LDyn, quantile: LFix) -> Set { Set::new(self_, quantile) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_fdf {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(fixed_with = LFix)] pub alpha: VFix, #[label(dynamic_with = LDyn)] #[label(rename = "UPPER")] pub beta_2: VDyn, #[label(fixed_with = LFix)] pub gamma: VFix }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(beta_2: LDyn, alpha: LFix, gamma: LFix) -> Set { Set::new(beta_2, alpha, gamma) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_fdd {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(fixed_with = LFix)] pub _lead: VFix, #[label(dynamic_with = LDyn)] #[label(rename = "MixedCase")] pub CamelCase: VDyn, #[label(dynamic_with = LDyn)] pub trailing_: VDyn }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(CamelCase: LDyn, trailing_: LDyn, _lead: LFix) -> Set { Set::new(CamelCase, trailing_, _lead) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_dee {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(dynamic_with = LDyn)] pub le: VDyn, #[label(rename = "__dunder")] pub job: FEnum, pub instance: FEnum }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(le: LDyn) -> Set { Set::new(le) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_def {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(dynamic_with = LDyn)] pub quantile: VDyn, #[label(rename = "A9_z")] pub self_: FEnum, #[label(fixed_with = LFix)] pub qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq: VFix }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(quantile: LDyn, qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq: LFix) -> Set { Set::new(quantile, qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_ded {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(dynamic_with = LDyn)] pub alpha: VDyn, #[label(rename = "RRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRR")] pub beta_2: FEnum, #[label(dynamic_with = LDyn)] pub gamma: VDyn }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(alpha: LDyn, gamma: LDyn) -> Set { Set::new(alpha, gamma) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_dfe {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(dynamic_with = LDyn)] pub _lead: VDyn, #[label(fixed_with = LFix)] #[label(rename = "le2x")] pub CamelCase: VFix, pub trailing_: FEnum }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(_lead: LDyn, CamelCase: LFix) -> Set { Set::new(_lead, CamelCase) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_dff {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(dynamic_with = LDyn)] pub le: VDyn, #[label(fixed_with = LFix)] #[label(rename = "_b1")] pub job: VFix, #[label(fixed_with = LFix)] pub instance: VFix }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(le: LDyn, job: LFix, instance: LFix) -> Set { Set::new(le, job, instance) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_dfd {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(dynamic_with = LDyn)] pub quantile: VDyn, #[label(fixed_with = LFix)] #[label(rename = "UPPER")] pub self_: VFix, #[label(dynamic_with = LDyn)] pub qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq: VDyn }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(quantile: LDyn, qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq: LDyn, self_: LFix) -> Set { Set::new(quantile, qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq, self_) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_dde {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(dynamic_with = LDyn)] pub alpha: VDyn, #[label(dynamic_with = LDyn)] #[label(rename = "MixedCase")] pub beta_2: VDyn, pub gamma: FEnum }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(alpha: LDyn, beta_2: LDyn) -> Set { Set::new(alpha, beta_2) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_ddf {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(dynamic_with = LDyn)] pub _lead: VDyn, #[label(dynamic_with = LDyn)] #[label(rename = "__dunder")] pub CamelCase: VDyn, #[label(fixed_with = LFix)] pub trailing_: VFix }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(_lead: LDyn, CamelCase: LDyn, trailing_: LFix) -> Set { Set::new(_lead, CamelCase, trailing_) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_ddd {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(dynamic_with = LDyn)] pub le: VDyn, #[label(dynamic_with = LDyn)] #[label(rename = "A9_z")] pub job: VDyn, #[label(dynamic_with = LDyn)] pub instance: VDyn }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize, usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize, usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize, usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(le: LDyn, job: LDyn, instance: LDyn) -> Set { Set::new(le, job, instance) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_exf {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { pub quantile: FEnum, #[label(fixed)] #[label(rename = "RRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRR")] pub self_: FEnum2, #[label(fixed_with = LFix)] pub qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq: VFix }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<usize> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &usize) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: usize) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq: LFix) -> Set { Set::new(qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_xfg {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(fixed)] pub alpha: FEnum2, #[label(fixed_with = LFix)] #[label(rename = "le2x")] pub beta_2: VFix, #[label(fixed_with = LDef, default)] pub gamma: VDef }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<usize> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &usize) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: usize) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(beta_2: LFix) -> Set { Set::new(beta_2) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_fgh {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(fixed_with = LFix)] pub _lead: VFix, #[label(fixed_with = LDef, default)] #[label(rename = "_b1")] pub CamelCase: VDef, #[label(dynamic_with = LDyn2, default)] pub trailing_: VDyn2 }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(_lead: LFix) -> Set { Set::new(_lead) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_hgx {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(dynamic_with = LDyn2, default)] pub le: VDyn2, #[label(fixed_with = LDef, default)] #[label(rename = "UPPER")] pub job: VDef, #[label(fixed)] pub instance: FEnum2 }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new() -> Set { Set::new() }
    pub fn root_default() -> Set { Set::default() }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_eeee {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { pub quantile: FEnum, #[label(rename = "MixedCase")] pub self_: FEnum, pub qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq: FEnum, pub name: FEnum }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<usize> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &usize) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: usize) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new() -> Set { Set::new() }
    pub fn root_default() -> Set { Set::default() }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_ffff {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(fixed_with = LFix)] pub alpha: VFix, #[label(fixed_with = LFix)] #[label(rename = "__dunder")] pub beta_2: VFix, #[label(fixed_with = LFix)] pub gamma: VFix, #[label(fixed_with = LFix)] pub delta: VFix }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<usize> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &usize) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: usize) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(alpha: LFix, beta_2: LFix, gamma: LFix, delta: LFix) -> Set { Set::new(alpha, beta_2, gamma, delta) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_dddd {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(dynamic_with = LDyn)] pub _lead: VDyn, #[label(dynamic_with = LDyn)] #[label(rename = "A9_z")] pub CamelCase: VDyn, #[label(dynamic_with = LDyn)] pub trailing_: VDyn, #[label(dynamic_with = LDyn)] pub a: VDyn }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize, usize, usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize, usize, usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize, usize, usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(_lead: LDyn, CamelCase: LDyn, trailing_: LDyn, a: LDyn) -> Set { Set::new(_lead, CamelCase, trailing_, a) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_efef {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { pub le: FEnum, #[label(fixed_with = LFix)] #[label(rename = "RRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRR")] pub job: VFix, pub instance: FEnum, #[label(fixed_with = LFix)] pub value: VFix }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<usize> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &usize) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: usize) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(job: LFix, value: LFix) -> Set { Set::new(job, value) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_fede {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(fixed_with = LFix)] pub quantile: VFix, #[label(rename = "le2x")] pub self_: FEnum, #[label(dynamic_with = LDyn)] pub qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq: VDyn, pub name: FEnum }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq: LDyn, quantile: LFix) -> Set { Set::new(qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq, quantile) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_dfdf {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(dynamic_with = LDyn)] pub alpha: VDyn, #[label(fixed_with = LFix)] #[label(rename = "_b1")] pub beta_2: VFix, #[label(dynamic_with = LDyn)] pub gamma: VDyn, #[label(fixed_with = LFix)] pub delta: VFix }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(alpha: LDyn, gamma: LDyn, beta_2: LFix, delta: LFix) -> Set { Set::new(alpha, gamma, beta_2, delta) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_fdeh {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(fixed_with = LFix)] pub _lead: VFix, #[label(dynamic_with = LDyn)] #[label(rename = "UPPER")] pub CamelCase: VDyn, pub trailing_: FEnum, #[label(dynamic_with = LDyn2, default)] pub a: VDyn2 }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(CamelCase: LDyn, _lead: LFix) -> Set { Set::new(CamelCase, _lead) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_hefd {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(dynamic_with = LDyn2, default)] pub le: VDyn2, #[label(rename = "MixedCase")] pub job: FEnum, #[label(fixed_with = LFix)] pub instance: VFix, #[label(dynamic_with = LDyn)] pub value: VDyn }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(value: LDyn, instance: LFix) -> Set { Set::new(value, instance) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_gfxe {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(fixed_with = LDef, default)] pub quantile: VDef, #[label(fixed_with = LFix)] #[label(rename = "__dunder")] pub self_: VFix, #[label(fixed)] pub qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq: FEnum2, pub name: FEnum }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<usize> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &usize) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: usize) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(self_: LFix) -> Set { Set::new(self_) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_exfgd {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { pub alpha: FEnum, #[label(fixed)] #[label(rename = "A9_z")] pub beta_2: FEnum2, #[label(fixed_with = LFix)] pub gamma: VFix, #[label(fixed_with = LDef, default)] pub delta: VDef, #[label(dynamic_with = LDyn)] #[label(rename = "RRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRR")] pub eps: VDyn }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(eps: LDyn, gamma: LFix) -> Set { Set::new(eps, gamma) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_defhg {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(dynamic_with = LDyn)] pub _lead: VDyn, #[label(rename = "le2x")] pub CamelCase: FEnum, #[label(fixed_with = LFix)] pub trailing_: VFix, #[label(dynamic_with = LDyn2, default)] pub a: VDyn2, #[label(fixed_with = LDef, default)] #[label(rename = "_b1")] pub x9_: VDef }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(_lead: LDyn, trailing_: LFix) -> Set { Set::new(_lead, trailing_) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_ffdee {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { #[label(fixed_with = LFix)] pub le: VFix, #[label(fixed_with = LFix)] #[label(rename = "UPPER")] pub job: VFix, #[label(dynamic_with = LDyn)] pub instance: VDyn, pub value: FEnum, #[label(rename = "MixedCase")] pub v: FEnum }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(instance: LDyn, le: LFix, job: LFix) -> Set { Set::new(instance, le, job) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
pub mod s_efgdhx {
    use super::*;
    #[derive(LabelGroup)]
    #[label(set = Set)]
    pub struct Group { pub quantile: FEnum, #[label(fixed_with = LFix)] #[label(rename = "__dunder")] pub self_: VFix, #[label(fixed_with = LDef, default)] pub qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq: VDef, #[label(dynamic_with = LDyn)] pub name: VDyn, #[label(dynamic_with = LDyn2, default)] #[label(rename = "A9_z")] pub set: VDyn2, #[label(fixed)] pub up: FEnum2 }
    pub fn root_card(s: &Set) -> Option<usize> { s.cardinality() }
    pub fn root_encode(s: &Set, g: Group) -> Option<(usize, usize, usize)> { s.encode(g) }
    pub fn root_decode(s: &Set, u: &(usize, usize, usize)) -> Group { s.decode(u) }
    pub fn root_encode_dense(s: &Set, u: (usize, usize, usize)) -> Option<usize> { s.encode_dense(u) }
    pub fn root_decode_dense(s: &Set, i: usize) -> Group { s.decode_dense(i) }
    pub fn root_new(name: LDyn, self_: LFix) -> Set { Set::new(name, self_) }
    pub fn root_visit(g: &Group, e: &mut Enc) { g.visit_values(&mut GV(e)) }
}
