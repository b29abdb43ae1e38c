//! names: validation, and how they are written
use crate::px::*;
use measured::label::LabelName;
use measured::metric::group::Encoding;
use measured::metric::name::*;
use measured::metric::*;
use measured::*;
use std::io;

pub fn root_m_from(s: &'static str) -> &'static MetricName { MetricName::from_str(s) }
pub fn root_m_try(s: &str) -> Result<&MetricName, InvalidMetricName> { MetricName::try_from_str(s) }
pub fn root_m_innsp(n: &'static MetricName, s: &'static str) -> WithNamespace<&'static MetricName> { n.in_namespace(s) }
pub fn root_m_nsnew(n: Name, s: &'static str) -> WithNamespace<Name> { WithNamespace::new(s, n) }
pub fn root_l_from(s: &str) -> &LabelName { LabelName::from_str(s) }
pub fn root_l_str(s: &LabelName) -> &str { s.as_str() }

/// an arbitrary suffix
pub struct Sfx(u64);
impl Suffix for Sfx {
    fn encode_text(&self, b: &mut impl io::Write) -> io::Result<()> { b.write_all(unsafe { px_sfx(self) }) }
    fn encode_len(&self) -> usize { unsafe { px_sfx(self) }.len() }
}
extern "Rust" { fn px_sfx(s: &Sfx) -> &[u8]; }
macro_rules! wl { ($m:ident, ($($p:ident : $t:ty),*), $e:expr) => { pub mod $m {
    use super::*;
    pub fn root_write(w: &mut W, $($p: $t),*) -> io::Result<()> { ($e).encode_utf8(w) }
    pub fn root_len(_w: &mut W, $($p: $t),*) -> usize { ($e).encode_len() }
} } }
type Str = &'static str;
type MN = &'static MetricName;
wl!(w_plain, (n: MN), n);
wl!(w_ref, (n: MN), &n);
wl!(w_refref, (n: Name), &&n);
wl!(w_byref, (n: Name), n.by_ref());
wl!(w_ns, (n: Name, s: Str), WithNamespace::new(s, n));
wl!(w_nsin, (n: MN, s: Str), n.in_namespace(s));
wl!(w_nsns, (n: Name, s: Str, t: Str), WithNamespace::new(t, WithNamespace::new(s, n)));
wl!(w_nsref, (n: Name, s: Str, t: Str), &WithNamespace::new(t, &WithNamespace::new(s, &n)));
wl!(w_total, (n: Name), MetricNameEncoder::with_suffix(n, Total));
wl!(w_count, (n: Name), MetricNameEncoder::with_suffix(n, Count));
wl!(w_sum, (n: Name), MetricNameEncoder::with_suffix(n, Sum));
wl!(w_bucket, (n: Name), MetricNameEncoder::with_suffix(n, Bucket));
wl!(w_sfx, (n: Name, x: Sfx), MetricNameEncoder::with_suffix(n, x));
wl!(w_mnsfx, (n: MN, x: Sfx), n.with_suffix(x));
wl!(w_nssfx, (n: Name, x: Sfx, s: Str), WithNamespace::new(s, MetricNameEncoder::with_suffix(n, x)));
wl!(w_sfxns, (n: Name, x: Sfx, s: Str), WithNamespace::new(s, n).with_suffix(x));
wl!(w_sfxsfx, (n: Name, x: Sfx, y: Sfx), MetricNameEncoder::with_suffix(MetricNameEncoder::with_suffix(n, x), y));
wl!(w_refsfx, (n: Name, x: Sfx), &MetricNameEncoder::with_suffix(&n, x));

// ---- namespaced encoders
type N1 = WithNamespace<Enc>;
type N2 = WithNamespace<WithNamespace<Enc>>;
macro_rules! nse { ($m:ident, $e:ty) => { pub mod $m {
    use super::*;
    pub fn root_help(e: &mut $e, n: Name, h: &str) -> Result<(), OpErr> { e.write_help(n, h) }
    pub fn root_ty(e: &mut $e, n: Name) -> Result<(), OpErr> { <M as MetricEncoding<$e>>::write_type(n, e) }
    pub fn root_sample(e: &mut $e, n: Name, m: &M, md: &Meta, g: G2) -> Result<(), OpErr> { <M as MetricEncoding<$e>>::collect_into(m, md, g, n, e) }
} } }
pub mod e_args {
    use super::*;
    pub fn root_help1(n: Name, e: Enc, h: &str, s: Str) -> Result<(), OpErr> { WithNamespace::new(s, e).write_help(n, h) }
    pub fn root_ty1(n: Name, e: Enc, s: Str) -> Result<(), OpErr> { <M as MetricEncoding<N1>>::write_type(n, &mut WithNamespace::new(s, e)) }
    pub fn root_sample1(n: Name, e: Enc, s: Str, m: &M, md: &Meta, g: G2) -> Result<(), OpErr> { <M as MetricEncoding<N1>>::collect_into(m, md, g, n, &mut WithNamespace::new(s, e)) }
    pub fn root_help2(n: Name, e: Enc, h: &str, s: Str, t: Str) -> Result<(), OpErr> { WithNamespace::new(t, WithNamespace::new(s, e)).write_help(n, h) }
    pub fn root_ty2(n: Name, e: Enc, s: Str, t: Str) -> Result<(), OpErr> { <M as MetricEncoding<N2>>::write_type(n, &mut WithNamespace::new(t, WithNamespace::new(s, e))) }
    pub fn root_sample2(n: Name, e: Enc, s: Str, t: Str, m: &M, md: &Meta, g: G2) -> Result<(), OpErr> { <M as MetricEncoding<N2>>::collect_into(m, md, g, n, &mut WithNamespace::new(t, WithNamespace::new(s, e))) }
    pub fn root_group1(g: GG, e: &mut Enc, s: Str) -> Result<(), OpErr> { WithNamespace::new(s, g).collect_group_into(e) }
    pub fn root_group2(g: GG, e: &mut Enc, s: Str, t: Str) -> Result<(), OpErr> { WithNamespace::new(t, WithNamespace::new(s, g)).collect_group_into(e) }
    pub fn root_group1e(g: GG, e: Enc, s: Str, t: Str) -> Result<(), OpErr> { WithNamespace::new(s, g).collect_group_into(&mut WithNamespace::new(t, e)) }
}
nse!(e_0, Enc);
nse!(e_1, N1);
nse!(e_2, N2);
pub mod e_ref {
    use super::*;
    pub fn root_help(mut e: &mut Enc, n: Name, h: &str) -> Result<(), OpErr> { Encoding::write_help(&mut e, n, h) }
    pub fn root_ty(mut e: &mut Enc, n: Name) -> Result<(), OpErr> { <M as MetricEncoding<&mut Enc>>::write_type(n, &mut e) }
    pub fn root_sample(mut e: &mut Enc, n: Name, m: &M, md: &Meta, g: G2) -> Result<(), OpErr> { <M as MetricEncoding<&mut Enc>>::collect_into(m, md, g, n, &mut e) }
}
pub mod e_nref {
    use super::*;
    pub fn root_help(e: &mut WithNamespace<&mut N1>, n: Name, h: &str) -> Result<(), OpErr> { e.write_help(n, h) }
    pub fn root_ty(e: &mut WithNamespace<&mut N1>, n: Name) -> Result<(), OpErr> { <M as MetricEncoding<WithNamespace<&mut N1>>>::write_type(n, e) }
    pub fn root_sample(e: &mut WithNamespace<&mut N1>, n: Name, m: &M, md: &Meta, g: G2) -> Result<(), OpErr> { <M as MetricEncoding<WithNamespace<&mut N1>>>::collect_into(m, md, g, n, e) }
}
// a whole family and a whole group under a namespace
pub fn root_fam_plain(e: &mut Enc, n: Name, f: &MetricVec<M, Set>) -> Result<(), OpErr> { f.collect_family_into(n, e) }
pub fn root_met_plain(e: &mut Enc, n: Name, f: &Metric<M>) -> Result<(), OpErr> { f.collect_family_into(n, e) }
pub fn root_fam_ns(e: &mut N1, n: Name, f: &MetricVec<M, Set>) -> Result<(), OpErr> { f.collect_family_into(n, e) }
pub fn root_met_ns(e: &mut N1, n: Name, f: &Metric<M>) -> Result<(), OpErr> { f.collect_family_into(n, e) }
/// help, type and a family, under the name the group gives it
pub struct GG(u64);
impl<E: Encoding> MetricGroup<E> for GG where M: MetricEncoding<E, Metadata = Meta>, E::Err: Into<OpErr> {
    fn collect_group_into(&self, e: &mut E) -> Result<(), E::Err> {
        let n = || unsafe { px_gg_name(self) };
        e.write_help(n(), unsafe { px_gg_help(self) })?;
        M::write_type(n(), e)?;
        unsafe { px_gg_m(self).collect_into(px_gg_meta(self), px_gg_labels(self), n(), e) }
    }
}
extern "Rust" {
    fn px_gg_name(g: &GG) -> &Name;
    fn px_gg_help(g: &GG) -> &str;
    fn px_gg_m(g: &GG) -> &M;
    fn px_gg_meta(g: &GG) -> &Meta;
    fn px_gg_labels(g: &GG) -> G2;
}
pub fn root_group_plain(g: &GG, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
pub fn root_group_ns1(g: &WithNamespace<GG>, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
pub fn root_group_ns2(g: &WithNamespace<WithNamespace<GG>>, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
pub fn root_group_ns1e(g: &WithNamespace<GG>, e: &mut N1) -> Result<(), OpErr> { g.collect_group_into(e) }
