//! Opaque parts. Every `px_*` function is an undefined extern: the analysis treats its result
//! as an arbitrary value and its call as an observable event, so a conclusion drawn about the
//! library code instantiated with these types holds for every real implementation.
use measured::label::*;
use measured::metric::group::Encoding;
use measured::metric::name::*;
use measured::metric::{MetricEncoding, MetricType};
use measured::*;
use std::io;

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Id(pub u64);

pub struct OpErr(pub u64);

/// an arbitrary byte sink
pub struct W(u64);
impl io::Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { unsafe { px_w_write(self, b) } }
    fn write_all(&mut self, b: &[u8]) -> io::Result<()> { unsafe { px_w_write_all(self, b) } }
    fn flush(&mut self) -> io::Result<()> { unsafe { px_w_flush(self) } }
}

/// an arbitrary metric name
pub struct Name(u64);
impl MetricNameEncoder for Name {
    fn encode_utf8(&self, b: &mut impl io::Write) -> io::Result<()> { b.write_all(unsafe { px_name_bytes(self) }) }
    fn encode_len(&self) -> usize { unsafe { px_name_bytes(self) }.len() }
}
pub struct Name2(u64);
impl MetricNameEncoder for Name2 {
    fn encode_utf8(&self, b: &mut impl io::Write) -> io::Result<()> { b.write_all(unsafe { px_name2_a(self) })?; b.write_all(unsafe { px_name2_b(self) }) }
    fn encode_len(&self) -> usize { unsafe { px_name2_a(self) }.len() + unsafe { px_name2_b(self) }.len() }
}

/// an arbitrary metric kind
pub struct M(u64);
pub struct Meta(u64);
impl Default for M { fn default() -> Self { unsafe { px_metric_default() } } }
impl Default for Meta { fn default() -> Self { unsafe { px_meta_default() } } }
impl MetricType for M { type Metadata = Meta; }

/// an arbitrary encoder: records name bytes, label names and label values
pub struct Enc(u64);
pub struct Sink<'a>(&'a mut Enc);
impl io::Write for Sink<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { unsafe { px_sink(self.0, b) }; Ok(b.len()) }
    fn write_all(&mut self, b: &[u8]) -> io::Result<()> { unsafe { px_sink(self.0, b) }; Ok(()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
pub fn put_name(e: &mut Enc, name: &impl MetricNameEncoder) {
    let _ = name.encode_utf8(&mut Sink(e));
    unsafe { px_name_len(e, name.encode_len()) };
}
impl Encoding for Enc {
    type Err = OpErr;
    fn write_help(&mut self, name: impl MetricNameEncoder, help: &str) -> Result<(), OpErr> {
        unsafe { px_begin_help(self) };
        put_name(self, &name);
        unsafe { px_end_help(self, help) }
    }
}
pub struct LV<'a>(pub &'a mut Enc);
impl LabelVisitor for LV<'_> {
    type Output = ();
    fn write_int(self, x: i64) { unsafe { px_label_int(self.0, x) } }
    fn write_float(self, x: f64) { unsafe { px_label_float(self.0, x) } }
    fn write_str(self, x: &str) { unsafe { px_label_str(self.0, x) } }
}
pub struct GV<'a>(pub &'a mut Enc);
impl LabelGroupVisitor for GV<'_> {
    type Output = ();
    fn write_value(&mut self, name: &LabelName, x: &impl LabelValue) {
        unsafe { px_label_name(self.0, name.as_str()) };
        x.visit(LV(self.0));
    }
}
impl MetricEncoding<Enc> for M {
    fn write_type(name: impl MetricNameEncoder, e: &mut Enc) -> Result<(), OpErr> {
        unsafe { px_begin_type(e) };
        put_name(e, &name);
        unsafe { px_end_type(e) }
    }
    fn collect_into(&self, metadata: &Meta, labels: impl LabelGroup, name: impl MetricNameEncoder, e: &mut Enc) -> Result<(), OpErr> {
        unsafe { px_begin_sample(e) };
        put_name(e, &name);
        labels.visit_values(&mut GV(e));
        unsafe { px_end_sample(e, self, metadata) }
    }
}

/// an arbitrary label group set and its groups
pub struct Set(u64);
#[derive(Clone, Copy)]
pub struct Grp(pub u64);
impl LabelGroup for Grp {
    fn visit_values(&self, v: &mut impl LabelGroupVisitor) {
        const N: &LabelName = LabelName::from_str("grp");
        v.write_value(N, &GrpVal(*self));
    }
}
pub struct GrpVal(Grp);
impl LabelValue for GrpVal { fn visit<V: LabelVisitor>(&self, v: V) -> V::Output { v.write_str(unsafe { px_grp_str(self.0) }) } }
impl LabelGroupSet for Set {
    type Group<'a> = Grp;
    type Unique = Id;
    fn cardinality(&self) -> Option<usize> { unsafe { px_set_card(self) } }
    fn encode_dense(&self, v: Id) -> Option<usize> { unsafe { px_set_encode_dense(self, v) } }
    fn decode_dense(&self, v: usize) -> Grp { unsafe { px_set_decode_dense(self, v) } }
    fn encode(&self, v: Grp) -> Option<Id> { unsafe { px_set_encode(self, v) } }
    fn decode(&self, v: &Id) -> Grp { unsafe { px_set_decode(self, *v) } }
}
impl Default for Set { fn default() -> Self { unsafe { px_set_default() } } }
/// a second, unrelated set
pub struct Set2(u64);
impl LabelGroupSet for Set2 {
    type Group<'a> = Grp;
    type Unique = Id;
    fn cardinality(&self) -> Option<usize> { unsafe { px_set2_card(self) } }
    fn encode_dense(&self, v: Id) -> Option<usize> { unsafe { px_set2_encode_dense(self, v) } }
    fn decode_dense(&self, v: usize) -> Grp { unsafe { px_set2_decode_dense(self, v) } }
    fn encode(&self, v: Grp) -> Option<Id> { unsafe { px_set2_encode(self, v) } }
    fn decode(&self, v: &Id) -> Grp { unsafe { px_set2_decode(self, *v) } }
}

/// arbitrary label values of each kind, and groups of 0..3 of them
#[derive(Clone, Copy)]
pub struct SVal(u64);
impl LabelValue for SVal { fn visit<V: LabelVisitor>(&self, v: V) -> V::Output { v.write_str(unsafe { px_sval(self) }) } }
#[derive(Clone, Copy)]
pub struct IVal(pub i64);
impl LabelValue for IVal { fn visit<V: LabelVisitor>(&self, v: V) -> V::Output { v.write_int(self.0) } }
#[derive(Clone, Copy)]
pub struct FVal(pub f64);
impl LabelValue for FVal { fn visit<V: LabelVisitor>(&self, v: V) -> V::Output { v.write_float(self.0) } }
pub struct Ln(u64);
pub struct G0;
impl LabelGroup for G0 { fn visit_values(&self, _: &mut impl LabelGroupVisitor) {} }
pub struct G1(pub SVal, pub Ln);
impl LabelGroup for G1 { fn visit_values(&self, v: &mut impl LabelGroupVisitor) { v.write_value(unsafe { px_ln(&self.1) }, &self.0); } }
pub struct G1i(pub IVal, pub Ln);
impl LabelGroup for G1i { fn visit_values(&self, v: &mut impl LabelGroupVisitor) { v.write_value(unsafe { px_ln(&self.1) }, &self.0); } }
pub struct G1f(pub FVal, pub Ln);
impl LabelGroup for G1f { fn visit_values(&self, v: &mut impl LabelGroupVisitor) { v.write_value(unsafe { px_ln(&self.1) }, &self.0); } }
pub struct G2(pub SVal, pub Ln, pub SVal, pub Ln);
impl LabelGroup for G2 {
    fn visit_values(&self, v: &mut impl LabelGroupVisitor) {
        v.write_value(unsafe { px_ln(&self.1) }, &self.0);
        v.write_value(unsafe { px_ln(&self.3) }, &self.2);
    }
}
pub struct G3(pub SVal, pub Ln, pub SVal, pub Ln, pub SVal, pub Ln);
impl LabelGroup for G3 {
    fn visit_values(&self, v: &mut impl LabelGroupVisitor) {
        v.write_value(unsafe { px_ln(&self.1) }, &self.0);
        v.write_value(unsafe { px_ln(&self.3) }, &self.2);
        v.write_value(unsafe { px_ln(&self.5) }, &self.4);
    }
}
/// a group with an unknown number of labels
pub struct GN<'a>(pub &'a [(Ln, SVal)]);
impl LabelGroup for GN<'_> {
    fn visit_values(&self, v: &mut impl LabelGroupVisitor) { for (n, x) in self.0 { v.write_value(unsafe { px_ln(n) }, x); } }
}

/// arbitrary per-label sets for derived groups
pub struct LFix(u64);
pub struct LFix2(u64);
pub struct LDyn(u64);
pub struct LDyn2(u64);
pub struct LDef(u64);
macro_rules! lset { ($t:ident, $v:ident, $c:ident, $e:ident, $d:ident) => {
    #[derive(Clone, Copy)]
    pub struct $v(pub u64);
    impl LabelValue for $v { fn visit<V: LabelVisitor>(&self, v: V) -> V::Output { v.write_int(self.0 as i64) } }
    impl LabelSet for $t {
        type Value<'a> = $v;
        fn dynamic_cardinality(&self) -> Option<usize> { unsafe { $c(self) } }
        fn encode(&self, v: $v) -> Option<usize> { unsafe { $e(self, v) } }
        fn decode(&self, v: usize) -> $v { unsafe { $d(self, v) } }
    }
    extern "Rust" { fn $c(s: &$t) -> Option<usize>; fn $e(s: &$t, v: $v) -> Option<usize>; fn $d(s: &$t, v: usize) -> $v; }
} }
lset!(LFix, VFix, px_lfix_dcard, px_lfix_enc, px_lfix_dec);
lset!(LFix2, VFix2, px_lfix2_dcard, px_lfix2_enc, px_lfix2_dec);
lset!(LDyn, VDyn, px_ldyn_dcard, px_ldyn_enc, px_ldyn_dec);
lset!(LDyn2, VDyn2, px_ldyn2_dcard, px_ldyn2_enc, px_ldyn2_dec);
lset!(LDef, VDef, px_ldef_dcard, px_ldef_enc, px_ldef_dec);
impl FixedCardinalitySet for LFix { fn cardinality(&self) -> usize { unsafe { px_lfix_card(self) } } }
impl FixedCardinalitySet for LFix2 { fn cardinality(&self) -> usize { unsafe { px_lfix2_card(self) } } }
impl DynamicLabelSet for LDyn {}
impl DynamicLabelSet for LDyn2 {}
impl FixedCardinalitySet for LDef {}
impl Default for LDef { fn default() -> Self { unsafe { px_ldef_default() } } }
impl Default for LDyn2 { fn default() -> Self { unsafe { px_ldyn2_default() } } }

/// arbitrary labels with a fixed number of values
macro_rules! fenum { ($t:ident, $c:ident, $e:ident, $d:ident) => {
    #[derive(Clone, Copy)]
    pub struct $t(pub u64);
    impl LabelValue for $t { fn visit<V: LabelVisitor>(&self, v: V) -> V::Output { v.write_int(self.0 as i64) } }
    impl FixedCardinalityLabel for $t {
        fn cardinality() -> usize { unsafe { $c() } }
        fn encode(&self) -> usize { unsafe { $e(*self) } }
        fn decode(v: usize) -> Self { unsafe { $d(v) } }
    }
    extern "Rust" { fn $c() -> usize; fn $e(s: $t) -> usize; fn $d(v: usize) -> $t; }
} }
fenum!(FEnum, px_fenum_card, px_fenum_enc, px_fenum_dec);
fenum!(FEnum2, px_fenum2_card, px_fenum2_enc, px_fenum2_dec);
impl LabelGroup for FEnum { fn visit_values(&self, v: &mut impl LabelGroupVisitor) { const N: &LabelName = LabelName::from_str("fenum"); v.write_value(N, self); } }

/// arbitrary nested groups / families
pub struct Fam(u64);
impl measured::metric::MetricFamilyEncoding<Enc> for Fam {
    fn collect_family_into(&self, name: impl MetricNameEncoder, e: &mut Enc) -> Result<(), OpErr> {
        unsafe { px_begin_fam(e) };
        put_name(e, &name);
        unsafe { px_end_fam(e, self) }
    }
}
pub struct Grp1(u64);
impl MetricGroup<Enc> for Grp1 { fn collect_group_into(&self, e: &mut Enc) -> Result<(), OpErr> { unsafe { px_group1(e, self) } } }
pub struct Grp2(u64);
impl MetricGroup<Enc> for Grp2 { fn collect_group_into(&self, e: &mut Enc) -> Result<(), OpErr> { unsafe { px_group2(e, self) } } }

/// a family with constructors, for derived groups that build their fields
pub struct CFam(u64);
impl CFam {
    pub fn with_metadata(m: Meta) -> Self { unsafe { px_cfam_md(m) } }
    pub fn with_label_set_and_metadata(s: Set, m: Meta) -> Self { unsafe { px_cfam_ls_md(s, m) } }
}
impl Default for CFam { fn default() -> Self { unsafe { px_cfam_default() } } }
impl measured::metric::MetricFamilyEncoding<Enc> for CFam {
    fn collect_family_into(&self, _: impl MetricNameEncoder, _: &mut Enc) -> Result<(), OpErr> { Ok(()) }
}

extern "Rust" {
    fn px_cfam_md(m: Meta) -> CFam;
    fn px_cfam_ls_md(s: Set, m: Meta) -> CFam;
    fn px_cfam_default() -> CFam;
    fn px_w_write(w: &mut W, b: &[u8]) -> io::Result<usize>;
    fn px_w_write_all(w: &mut W, b: &[u8]) -> io::Result<()>;
    fn px_w_flush(w: &mut W) -> io::Result<()>;
    fn px_name_bytes(n: &Name) -> &[u8];
    fn px_name2_a(n: &Name2) -> &[u8];
    fn px_name2_b(n: &Name2) -> &[u8];
    fn px_metric_default() -> M;
    fn px_meta_default() -> Meta;
    fn px_sink(e: &mut Enc, b: &[u8]);
    pub fn px_name_len(e: &mut Enc, n: usize);
    pub fn px_begin_help(e: &mut Enc);
    fn px_end_help(e: &mut Enc, h: &str) -> Result<(), OpErr>;
    pub fn px_begin_type(e: &mut Enc);
    pub fn px_end_type(e: &mut Enc) -> Result<(), OpErr>;
    pub fn px_begin_sample(e: &mut Enc);
    fn px_end_sample(e: &mut Enc, m: &M, meta: &Meta) -> Result<(), OpErr>;
    fn px_begin_fam(e: &mut Enc);
    fn px_end_fam(e: &mut Enc, f: &Fam) -> Result<(), OpErr>;
    fn px_group1(e: &mut Enc, f: &Grp1) -> Result<(), OpErr>;
    fn px_group2(e: &mut Enc, f: &Grp2) -> Result<(), OpErr>;
    fn px_label_name(e: &mut Enc, n: &str);
    fn px_label_int(e: &mut Enc, n: i64);
    fn px_label_float(e: &mut Enc, n: f64);
    fn px_label_str(e: &mut Enc, n: &str);
    fn px_grp_str(g: Grp) -> &'static str;
    fn px_set_card(s: &Set) -> Option<usize>;
    fn px_set_encode_dense(s: &Set, v: Id) -> Option<usize>;
    fn px_set_decode_dense(s: &Set, v: usize) -> Grp;
    fn px_set_encode(s: &Set, v: Grp) -> Option<Id>;
    fn px_set_decode(s: &Set, v: Id) -> Grp;
    fn px_set_default() -> Set;
    fn px_set2_card(s: &Set2) -> Option<usize>;
    fn px_set2_encode_dense(s: &Set2, v: Id) -> Option<usize>;
    fn px_set2_decode_dense(s: &Set2, v: usize) -> Grp;
    fn px_set2_encode(s: &Set2, v: Grp) -> Option<Id>;
    fn px_set2_decode(s: &Set2, v: Id) -> Grp;
    fn px_sval(s: &SVal) -> &str;
    fn px_ln(s: &Ln) -> &LabelName;
    fn px_lfix_card(s: &LFix) -> usize;
    fn px_lfix2_card(s: &LFix2) -> usize;
    fn px_ldef_default() -> LDef;
    fn px_ldyn2_default() -> LDyn2;
    pub fn px_groupn(e: &mut Enc, f: u64) -> Result<(), OpErr>;
}
