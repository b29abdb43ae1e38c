//! label sets: composition, wrappers, static sets and the provided set types
use crate::px::*;
use measured::label::*;
use std::sync::Arc;

macro_rules! gset { ($m:ident, $t:ty) => { pub mod $m {
    use super::*;
    pub type S = $t;
    pub type U = <S as LabelGroupSet>::Unique;
    pub type G = <S as LabelGroupSet>::Group<'static>;
    pub fn root_card(s: &'static S) -> Option<usize> { LabelGroupSet::cardinality(s) }
    pub fn root_encode(s: &'static S, g: G) -> Option<U> { LabelGroupSet::encode(s, g) }
    pub fn root_decode(s: &'static S, u: &U) -> G { LabelGroupSet::decode(s, u) }
    pub fn root_encode_dense(s: &'static S, u: U) -> Option<usize> { LabelGroupSet::encode_dense(s, u) }
    pub fn root_decode_dense(s: &'static S, i: usize) -> G { LabelGroupSet::decode_dense(s, i) }
} } }
gset!(g_static, StaticLabelSet<FEnum>);
gset!(g_composed, ComposedGroup<Set, Set2>);
gset!(g_nested, ComposedGroup<ComposedGroup<Set, Set2>, Set>);
gset!(g_nested_right, ComposedGroup<Set, ComposedGroup<Set2, Set>>);
gset!(g_composed_static, ComposedGroup<StaticLabelSet<FEnum>, Set>);
gset!(g_arc, Arc<Set>);
gset!(g_arc_composed, Arc<ComposedGroup<Set, Set2>>);
gset!(g_composed_arcs, ComposedGroup<Arc<Set>, Arc<Set2>>);
gset!(g_ref, &'static Set);
gset!(g_ref_composed, &'static ComposedGroup<Set, Set2>);
gset!(g_derived, ComposedGroup<crate::shapes::s_ef::Set, crate::shapes::s_xfg::Set>);
gset!(g_derived_dyn, ComposedGroup<crate::shapes::s_ef::Set, crate::shapes::s_ed::Set>);

/// arbitrary keys of interned strings
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Key(u64);
unsafe impl lasso::Key for Key {
    fn into_usize(self) -> usize { unsafe { px_key_index(self) } }
    fn try_from_usize(n: usize) -> Option<Self> { unsafe { px_key_from(n) } }
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct IxVal(pub u64);
impl LabelValue for IxVal { fn visit<V: LabelVisitor>(&self, v: V) -> V::Output { v.write_int(self.0 as i64) } }
extern "Rust" {
    fn px_key_index(k: Key) -> usize;
    fn px_key_from(n: usize) -> Option<Key>;
}

macro_rules! fset { ($m:ident, $t:ty) => { pub mod $m {
    use super::*;
    pub type S = $t;
    pub type V<'a> = <S as LabelSet>::Value<'a>;
    pub fn root_card(s: &'static S) -> usize { FixedCardinalitySet::cardinality(s) }
    pub fn root_dcard(s: &'static S) -> Option<usize> { s.dynamic_cardinality() }
    pub fn root_encode(s: &'static S, v: V<'static>) -> Option<usize> { LabelSet::encode(s, v) }
    pub fn root_decode(s: &'static S, i: usize) -> V<'static> { LabelSet::decode(s, i) }
} } }
macro_rules! dset { ($m:ident, $t:ty) => { pub mod $m {
    use super::*;
    pub type S = $t;
    pub type V<'a> = <S as LabelSet>::Value<'a>;
    pub fn root_dcard(s: &'static S) -> Option<usize> { s.dynamic_cardinality() }
    pub fn root_encode(s: &'static S, v: V<'static>) -> Option<usize> { LabelSet::encode(s, v) }
    pub fn root_decode(s: &'static S, i: usize) -> V<'static> { LabelSet::decode(s, i) }
} } }
fset!(f_static, StaticLabelSet<FEnum>);
fset!(f_arc, Arc<LFix>);
fset!(f_arc_default, Arc<LDef>);
fset!(f_default, LDef);
dset!(d_arc, Arc<LDyn>);
fset!(f_index, indexmap::IndexSet<IxVal>);
fset!(f_phf, phf::OrderedSet<&'static str>);
fset!(f_reader, lasso::RodeoReader<Key>);
dset!(d_rodeo, lasso::ThreadedRodeo<Key>);
fset!(f_arc_reader, Arc<lasso::RodeoReader<Key>>);
dset!(d_arc_rodeo, Arc<lasso::ThreadedRodeo<Key>>);

macro_rules! val { ($m:ident, $t:ty) => { pub mod $m {
    use super::*;
    pub fn root_value(x: $t, e: &mut Enc) { LabelValue::visit(x, LV(e)) }
} } }
val!(v_str, &str);
val!(v_string, &String);
val!(v_sval, &&SVal);
val!(v_sval2, &&&SVal);
val!(v_ival, &&IVal);
val!(v_fval, &&FVal);
val!(v_rstr, &&str);
val!(v_rstring, &&String);
pub mod v_test {
    use super::*;
    pub fn root_str(x: &str) -> String { LabelVisitor::write_str(LabelTestVisitor, x) }
    pub fn root_int(x: i64) -> String { LabelVisitor::write_int(LabelTestVisitor, x) }
    pub fn root_float(x: f64) -> String { LabelVisitor::write_float(LabelTestVisitor, x) }
}
macro_rules! grp { ($m:ident, $t:ty) => { pub mod $m {
    use super::*;
    pub fn root_visit(x: &$t, e: &mut Enc) { LabelGroup::visit_values(x, &mut GV(e)) }
} } }
grp!(l_none, NoLabels);
grp!(l_pair, ComposedGroup<G1, G1>);
grp!(l_left, ComposedGroup<ComposedGroup<G1, G2>, G1>);
grp!(l_right, ComposedGroup<G1, ComposedGroup<NoLabels, G2>>);
grp!(l_ref, &'static G2);
grp!(l_refs, ComposedGroup<&'static G1, &'static &'static ComposedGroup<G1, G1>>);
pub mod l_with {
    use super::*;
    pub fn root_visit(x: &'static G1, y: G2, e: &mut Enc) { LabelGroup::visit_values(&x.compose_with(y), &mut GV(e)) }
}
pub mod l_byref {
    use super::*;
    pub fn root_visit(x: &G2, e: &mut Enc) { LabelGroup::visit_values(LabelGroup::by_ref(x), &mut GV(e)) }
}
