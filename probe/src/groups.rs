//! derived metric groups of every small shape (written by tools/mkgroups.py)
#![allow(unused_doc_comments)]
use crate::px::*;
use measured::metric::*;
use measured::*;
use std::sync::Arc;

#[derive(MetricGroup)]
pub struct Inner { pub one: Metric<M>, #[doc = " inner help"] #[metric(rename = "second")] pub two: Metric<M> }
#[derive(MetricGroup)]
pub struct Deep { #[metric(namespace = "deep")] pub inner: Inner }

pub mod c_none {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G {  }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_f {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { pub alpha: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_d {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { /// plain help
        pub alpha: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_r {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(rename = "re_alpha")] pub alpha: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_q {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { /// first line
        /// second line
        #[metric(rename = "re_alpha")] pub alpha: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_o {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { pub alpha: Option<Fam> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_p {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[doc = "  padded  "] pub alpha: Option<Fam> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_g {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(flatten)] pub alpha: Grp1 }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_h {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(flatten)] pub alpha: Option<Grp1> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_a {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(flatten)] pub alpha: Arc<Grp1> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_n {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(namespace = "ns0")] pub alpha: Inner }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_v {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(namespace = "ns0")] pub alpha: Deep }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_ff {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { pub alpha: Fam, pub beta_2: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_fd {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { pub _lead: Fam, #[doc = "two\nlines \\ and \"quotes\""] pub CamelCase: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_fr {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { pub total: Fam, #[metric(rename = "MixedCase")] pub requests_total: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_fq {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { pub help: Fam, /// snow☃man, 100%
        #[metric(rename = "__dunder")] pub value: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_fo {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { pub alpha: Fam, pub beta_2: Option<Fam> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_fp {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { pub _lead: Fam, /** block */ pub CamelCase: Option<Fam> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_fg {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { pub total: Fam, #[metric(flatten)] pub requests_total: Grp1 }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_fh {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { pub help: Fam, #[metric(flatten)] pub value: Option<Grp1> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_fa {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { pub alpha: Fam, #[metric(flatten)] pub beta_2: Arc<Grp1> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_fn {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { pub _lead: Fam, #[metric(namespace = "my_ns")] pub CamelCase: Inner }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_fv {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { pub total: Fam, #[metric(namespace = "Upper")] pub requests_total: Deep }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_df {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { /// split
        /// over
        ///
        /// four
        pub help: Fam, pub value: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_dd {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { /// Ends with a full stop.
        pub alpha: Fam, /// # Heading
        pub beta_2: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_dr {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { /// a -- b: "c"; (d) [e] `f`, {g} <h>?!
        pub _lead: Fam, #[metric(rename = "colon:name")] pub CamelCase: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_dq {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[doc = "tab\tand\rreturn \0"] pub total: Fam, #[doc = ""] #[metric(rename = ":lead")] pub requests_total: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_do {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[doc = "\n\n"] pub help: Fam, pub value: Option<Fam> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_dp {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { /// long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long help...
        pub alpha: Fam, /// UPPER lower  double  space
        pub beta_2: Option<Fam> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_dg {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { /// plain help
        pub _lead: Fam, #[metric(flatten)] pub CamelCase: Grp1 }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_dh {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { /// first line
        /// second line
        pub total: Fam, #[metric(flatten)] pub requests_total: Option<Grp1> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_da {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[doc = "  padded  "] pub help: Fam, #[metric(flatten)] pub value: Arc<Grp1> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_dn {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[doc = "two\nlines \\ and \"quotes\""] pub alpha: Fam, #[metric(namespace = "_under")] pub beta_2: Inner }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_dv {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { /// snow☃man, 100%
        pub _lead: Fam, #[metric(namespace = "with:colon")] pub CamelCase: Deep }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_rf {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(rename = "A9_z")] pub total: Fam, pub requests_total: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_rd {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(rename = "trailing_total")] pub help: Fam, /** block */ pub value: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_rr {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(rename = "RRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRR")] pub alpha: Fam, #[metric(rename = "re_")] pub beta_2: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_rq {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(rename = "MixedCase")] pub _lead: Fam, /// split
        /// over
        ///
        /// four
        #[metric(rename = "__dunder")] pub CamelCase: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_ro {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(rename = "colon:name")] pub total: Fam, pub requests_total: Option<Fam> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_rp {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(rename = ":lead")] pub help: Fam, /// Ends with a full stop.
        pub value: Option<Fam> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_rg {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(rename = "A9_z")] pub alpha: Fam, #[metric(flatten)] pub beta_2: Grp1 }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_rh {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(rename = "trailing_total")] pub _lead: Fam, #[metric(flatten)] pub CamelCase: Option<Grp1> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_ra {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(rename = "RRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRR")] pub total: Fam, #[metric(flatten)] pub requests_total: Arc<Grp1> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_rn {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(rename = "re_")] pub help: Fam, #[metric(namespace = "trail_")] pub value: Inner }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_rv {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(rename = "MixedCase")] pub alpha: Fam, #[metric(namespace = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn")] pub beta_2: Deep }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_qf {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { /// # Heading
        #[metric(rename = "__dunder")] pub _lead: Fam, pub CamelCase: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_qd {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { /// a -- b: "c"; (d) [e] `f`, {g} <h>?!
        #[metric(rename = "colon:name")] pub total: Fam, #[doc = "tab\tand\rreturn \0"] pub requests_total: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_qr {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[doc = ""] #[metric(rename = ":lead")] pub help: Fam, #[metric(rename = "A9_z")] pub value: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_qq {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[doc = "\n\n"] #[metric(rename = "trailing_total")] pub alpha: Fam, /// long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long help...
        #[metric(rename = "RRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRR")] pub beta_2: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_qo {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { /// UPPER lower  double  space
        #[metric(rename = "re_")] pub _lead: Fam, pub CamelCase: Option<Fam> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_qp {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { /// plain help
        #[metric(rename = "MixedCase")] pub total: Fam, /// first line
        /// second line
        pub requests_total: Option<Fam> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_qg {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[doc = "  padded  "] #[metric(rename = "__dunder")] pub help: Fam, #[metric(flatten)] pub value: Grp1 }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_qh {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[doc = "two\nlines \\ and \"quotes\""] #[metric(rename = "colon:name")] pub alpha: Fam, #[metric(flatten)] pub beta_2: Option<Grp1> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_qa {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { /// snow☃man, 100%
        #[metric(rename = ":lead")] pub _lead: Fam, #[metric(flatten)] pub CamelCase: Arc<Grp1> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_qn {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { /** block */ #[metric(rename = "A9_z")] pub total: Fam, #[metric(namespace = "x9")] pub requests_total: Inner }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_qv {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { /// split
        /// over
        ///
        /// four
        #[metric(rename = "trailing_total")] pub help: Fam, #[metric(namespace = "my_ns")] pub value: Deep }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_of {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { pub alpha: Option<Fam>, pub beta_2: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_od {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { pub _lead: Option<Fam>, /// Ends with a full stop.
        pub CamelCase: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_or {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { pub total: Option<Fam>, #[metric(rename = "RRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRR")] pub requests_total: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_oq {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { pub help: Option<Fam>, /// # Heading
        #[metric(rename = "re_")] pub value: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_oo {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { pub alpha: Option<Fam>, pub beta_2: Option<Fam> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_op {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { pub _lead: Option<Fam>, /// a -- b: "c"; (d) [e] `f`, {g} <h>?!
        pub CamelCase: Option<Fam> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_og {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { pub total: Option<Fam>, #[metric(flatten)] pub requests_total: Grp1 }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_oh {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { pub help: Option<Fam>, #[metric(flatten)] pub value: Option<Grp1> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_oa {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { pub alpha: Option<Fam>, #[metric(flatten)] pub beta_2: Arc<Grp1> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_on {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { pub _lead: Option<Fam>, #[metric(namespace = "Upper")] pub CamelCase: Inner }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_ov {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { pub total: Option<Fam>, #[metric(namespace = "_under")] pub requests_total: Deep }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_pf {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[doc = "tab\tand\rreturn \0"] pub help: Option<Fam>, pub value: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_pd {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[doc = ""] pub alpha: Option<Fam>, #[doc = "\n\n"] pub beta_2: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_pr {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { /// long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long help...
        pub _lead: Option<Fam>, #[metric(rename = "MixedCase")] pub CamelCase: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_pq {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { /// UPPER lower  double  space
        pub total: Option<Fam>, /// plain help
        #[metric(rename = "__dunder")] pub requests_total: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_po {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { /// first line
        /// second line
        pub help: Option<Fam>, pub value: Option<Fam> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_pp {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[doc = "  padded  "] pub alpha: Option<Fam>, #[doc = "two\nlines \\ and \"quotes\""] pub beta_2: Option<Fam> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_pg {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { /// snow☃man, 100%
        pub _lead: Option<Fam>, #[metric(flatten)] pub CamelCase: Grp1 }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_ph {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { /** block */ pub total: Option<Fam>, #[metric(flatten)] pub requests_total: Option<Grp1> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_pa {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { /// split
        /// over
        ///
        /// four
        pub help: Option<Fam>, #[metric(flatten)] pub value: Arc<Grp1> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_pn {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { /// Ends with a full stop.
        pub alpha: Option<Fam>, #[metric(namespace = "with:colon")] pub beta_2: Inner }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_pv {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { /// # Heading
        pub _lead: Option<Fam>, #[metric(namespace = "trail_")] pub CamelCase: Deep }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_gf {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(flatten)] pub total: Grp1, pub requests_total: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_gd {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(flatten)] pub help: Grp1, /// a -- b: "c"; (d) [e] `f`, {g} <h>?!
        pub value: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_gr {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(flatten)] pub alpha: Grp1, #[metric(rename = "colon:name")] pub beta_2: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_gq {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(flatten)] pub _lead: Grp1, #[doc = "tab\tand\rreturn \0"] #[metric(rename = ":lead")] pub CamelCase: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_go {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(flatten)] pub total: Grp1, pub requests_total: Option<Fam> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_gp {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(flatten)] pub help: Grp1, #[doc = ""] pub value: Option<Fam> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_gg {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(flatten)] pub alpha: Grp1, #[metric(flatten)] pub beta_2: Grp1 }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_gh {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(flatten)] pub _lead: Grp1, #[metric(flatten)] pub CamelCase: Option<Grp1> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_ga {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(flatten)] pub total: Grp1, #[metric(flatten)] pub requests_total: Arc<Grp1> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_gn {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(flatten)] pub help: Grp1, #[metric(namespace = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn")] pub value: Inner }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_gv {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(flatten)] pub alpha: Grp1, #[metric(namespace = "x9")] pub beta_2: Deep }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_hf {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(flatten)] pub _lead: Option<Grp1>, pub CamelCase: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_hd {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(flatten)] pub total: Option<Grp1>, #[doc = "\n\n"] pub requests_total: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_hr {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(flatten)] pub help: Option<Grp1>, #[metric(rename = "A9_z")] pub value: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_hq {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(flatten)] pub alpha: Option<Grp1>, /// long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long help...
        #[metric(rename = "trailing_total")] pub beta_2: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_ho {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(flatten)] pub _lead: Option<Grp1>, pub CamelCase: Option<Fam> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_hp {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(flatten)] pub total: Option<Grp1>, /// UPPER lower  double  space
        pub requests_total: Option<Fam> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_hg {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(flatten)] pub help: Option<Grp1>, #[metric(flatten)] pub value: Grp1 }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_hh {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(flatten)] pub alpha: Option<Grp1>, #[metric(flatten)] pub beta_2: Option<Grp1> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_ha {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(flatten)] pub _lead: Option<Grp1>, #[metric(flatten)] pub CamelCase: Arc<Grp1> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_hn {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(flatten)] pub total: Option<Grp1>, #[metric(namespace = "my_ns")] pub requests_total: Inner }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_hv {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(flatten)] pub help: Option<Grp1>, #[metric(namespace = "Upper")] pub value: Deep }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_af {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(flatten)] pub alpha: Arc<Grp1>, pub beta_2: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_ad {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(flatten)] pub _lead: Arc<Grp1>, /// plain help
        pub CamelCase: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_ar {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(flatten)] pub total: Arc<Grp1>, #[metric(rename = "RRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRR")] pub requests_total: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_aq {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(flatten)] pub help: Arc<Grp1>, /// first line
        /// second line
        #[metric(rename = "re_")] pub value: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_ao {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(flatten)] pub alpha: Arc<Grp1>, pub beta_2: Option<Fam> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_ap {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(flatten)] pub _lead: Arc<Grp1>, #[doc = "  padded  "] pub CamelCase: Option<Fam> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_ag {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(flatten)] pub total: Arc<Grp1>, #[metric(flatten)] pub requests_total: Grp1 }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_ah {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(flatten)] pub help: Arc<Grp1>, #[metric(flatten)] pub value: Option<Grp1> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_aa {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(flatten)] pub alpha: Arc<Grp1>, #[metric(flatten)] pub beta_2: Arc<Grp1> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_an {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(flatten)] pub _lead: Arc<Grp1>, #[metric(namespace = "_under")] pub CamelCase: Inner }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_av {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(flatten)] pub total: Arc<Grp1>, #[metric(namespace = "with:colon")] pub requests_total: Deep }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_nf {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(namespace = "trail_")] pub help: Inner, pub value: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_nd {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(namespace = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn")] pub alpha: Inner, #[doc = "two\nlines \\ and \"quotes\""] pub beta_2: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_nr {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(namespace = "x9")] pub _lead: Inner, #[metric(rename = "MixedCase")] pub CamelCase: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_nq {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(namespace = "my_ns")] pub total: Inner, /// snow☃man, 100%
        #[metric(rename = "__dunder")] pub requests_total: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_no {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(namespace = "Upper")] pub help: Inner, pub value: Option<Fam> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_np {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(namespace = "_under")] pub alpha: Inner, /** block */ pub beta_2: Option<Fam> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_ng {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(namespace = "with:colon")] pub _lead: Inner, #[metric(flatten)] pub CamelCase: Grp1 }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_nh {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(namespace = "trail_")] pub total: Inner, #[metric(flatten)] pub requests_total: Option<Grp1> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_na {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(namespace = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn")] pub help: Inner, #[metric(flatten)] pub value: Arc<Grp1> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_nn {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(namespace = "x9")] pub alpha: Inner, #[metric(namespace = "my_ns")] pub beta_2: Inner }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_nv {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(namespace = "Upper")] pub _lead: Inner, #[metric(namespace = "_under")] pub CamelCase: Deep }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_vf {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(namespace = "with:colon")] pub total: Deep, pub requests_total: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_vd {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(namespace = "trail_")] pub help: Deep, /// split
        /// over
        ///
        /// four
        pub value: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_vr {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(namespace = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn")] pub alpha: Deep, #[metric(rename = "colon:name")] pub beta_2: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_vq {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(namespace = "x9")] pub _lead: Deep, /// Ends with a full stop.
        #[metric(rename = ":lead")] pub CamelCase: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_vo {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(namespace = "my_ns")] pub total: Deep, pub requests_total: Option<Fam> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_vp {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(namespace = "Upper")] pub help: Deep, /// # Heading
        pub value: Option<Fam> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_vg {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(namespace = "_under")] pub alpha: Deep, #[metric(flatten)] pub beta_2: Grp1 }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_vh {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(namespace = "with:colon")] pub _lead: Deep, #[metric(flatten)] pub CamelCase: Option<Grp1> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_va {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(namespace = "trail_")] pub total: Deep, #[metric(flatten)] pub requests_total: Arc<Grp1> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_vn {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(namespace = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn")] pub help: Deep, #[metric(namespace = "x9")] pub value: Inner }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_vv {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(namespace = "my_ns")] pub alpha: Deep, #[metric(namespace = "Upper")] pub beta_2: Deep }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_fff {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { pub _lead: Fam, pub CamelCase: Fam, pub trailing_: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_ddd {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { /// a -- b: "c"; (d) [e] `f`, {g} <h>?!
        pub total: Fam, #[doc = "tab\tand\rreturn \0"] pub requests_total: Fam, #[doc = ""] pub bucket: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_drq {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[doc = "\n\n"] pub help: Fam, #[metric(rename = "A9_z")] pub value: Fam, /// long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long help...
        #[metric(rename = "trailing_total")] pub qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_qdp {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { /// UPPER lower  double  space
        #[metric(rename = "RRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRR")] pub alpha: Fam, /// plain help
        pub beta_2: Fam, /// first line
        /// second line
        pub gamma: Option<Fam> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_ogd {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { pub _lead: Option<Fam>, #[metric(flatten)] pub CamelCase: Grp1, #[doc = "  padded  "] pub trailing_: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_ghn {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(flatten)] pub total: Grp1, #[metric(flatten)] pub requests_total: Option<Grp1>, #[metric(namespace = "_under")] pub bucket: Inner }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_nnn {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(namespace = "with:colon")] pub help: Inner, #[metric(namespace = "trail_")] pub value: Inner, #[metric(namespace = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn")] pub qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq: Inner }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_fdn {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { pub alpha: Fam, #[doc = "two\nlines \\ and \"quotes\""] pub beta_2: Fam, #[metric(namespace = "x9")] pub gamma: Inner }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_dnf {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { /// snow☃man, 100%
        pub _lead: Fam, #[metric(namespace = "my_ns")] pub CamelCase: Inner, pub trailing_: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_gdg {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(flatten)] pub total: Grp1, /** block */ pub requests_total: Fam, #[metric(flatten)] pub bucket: Grp1 }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_hph {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(flatten)] pub help: Option<Grp1>, /// split
        /// over
        ///
        /// four
        pub value: Option<Fam>, #[metric(flatten)] pub qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq: Option<Grp1> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_aqd {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(flatten)] pub alpha: Arc<Grp1>, /// Ends with a full stop.
        #[metric(rename = "re_")] pub beta_2: Fam, /// # Heading
        pub gamma: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_vnq {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[metric(namespace = "Upper")] pub _lead: Deep, #[metric(namespace = "_under")] pub CamelCase: Inner, /// a -- b: "c"; (d) [e] `f`, {g} <h>?!
        #[metric(rename = "MixedCase")] pub trailing_: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_fdrq {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { pub total: Fam, #[doc = "tab\tand\rreturn \0"] pub requests_total: Fam, #[metric(rename = "__dunder")] pub bucket: Fam, #[doc = ""] #[metric(rename = "colon:name")] pub sum: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_qqqq {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[doc = "\n\n"] #[metric(rename = ":lead")] pub help: Fam, /// long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long help...
        #[metric(rename = "A9_z")] pub value: Fam, /// UPPER lower  double  space
        #[metric(rename = "trailing_total")] pub qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq: Fam, /// plain help
        #[metric(rename = "RRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRR")] pub name: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_dgnd {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { /// first line
        /// second line
        pub alpha: Fam, #[metric(flatten)] pub beta_2: Grp1, #[metric(namespace = "with:colon")] pub gamma: Inner, #[doc = "  padded  "] pub delta: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_ffffff {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { pub _lead: Fam, pub CamelCase: Fam, pub trailing_: Fam, pub a: Fam, pub x9_: Fam, pub with__double: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_ddqqdd {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[doc = "two\nlines \\ and \"quotes\""] pub total: Fam, /// snow☃man, 100%
        pub requests_total: Fam, /** block */ #[metric(rename = "re_")] pub bucket: Fam, /// split
        /// over
        ///
        /// four
        #[metric(rename = "MixedCase")] pub sum: Fam, /// Ends with a full stop.
        pub count: Fam, /// # Heading
        pub enc: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_phgnqf {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { /// a -- b: "c"; (d) [e] `f`, {g} <h>?!
        pub help: Option<Fam>, #[metric(flatten)] pub value: Option<Grp1>, #[metric(flatten)] pub qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq: Grp1, #[metric(namespace = "trail_")] pub name: Inner, #[doc = "tab\tand\rreturn \0"] #[metric(rename = "__dunder")] pub v1: Fam, pub up: Fam }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod c_drgnop {
    use super::*;
    #[derive(MetricGroup)]
    pub struct G { #[doc = ""] pub alpha: Fam, #[metric(rename = "colon:name")] pub beta_2: Fam, #[metric(flatten)] pub gamma: Grp1, #[metric(namespace = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn")] pub delta: Inner, pub eps: Option<Fam>, #[doc = "\n\n"] pub zeta: Option<Fam> }
    pub fn root_collect(g: &G, e: &mut Enc) -> Result<(), OpErr> { g.collect_group_into(e) }
}
pub mod k_ref {
    use super::*;
    pub fn root_collect(g: &&'static Grp1, e: &mut Enc) -> Result<(), OpErr> { group::MetricGroup::collect_group_into(g, e) }
}
pub mod k_opt {
    use super::*;
    pub fn root_collect(g: &Option<Grp1>, e: &mut Enc) -> Result<(), OpErr> { group::MetricGroup::collect_group_into(g, e) }
}
pub mod k_arc {
    use super::*;
    pub fn root_collect(g: &Arc<Grp1>, e: &mut Enc) -> Result<(), OpErr> { group::MetricGroup::collect_group_into(g, e) }
}
pub mod k_pair {
    use super::*;
    pub fn root_collect(g: &group::ComposedGroup<Grp1, Grp2>, e: &mut Enc) -> Result<(), OpErr> { group::MetricGroup::collect_group_into(g, e) }
}
pub mod k_deep {
    use super::*;
    pub fn root_collect(g: &group::ComposedGroup<group::ComposedGroup<Grp1, Grp2>, Option<Arc<Grp1>>>, e: &mut Enc) -> Result<(), OpErr> { group::MetricGroup::collect_group_into(g, e) }
}
pub mod k_optpair {
    use super::*;
    pub fn root_collect(g: &Option<group::ComposedGroup<Grp1, Grp2>>, e: &mut Enc) -> Result<(), OpErr> { group::MetricGroup::collect_group_into(g, e) }
}
pub mod k_famopt {
    use super::*;
    pub fn root_collect(g: &group::ComposedGroup<c_o::G, c_d::G>, e: &mut Enc) -> Result<(), OpErr> { group::MetricGroup::collect_group_into(g, e) }
}
pub mod i_i {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(x0: CFam))]
    pub struct G { #[metric(init = x0)] pub alpha: CFam }
    pub fn root_new(x0: CFam) -> G { G::new(x0) }
}
pub mod i_m {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(m0: Meta))]
    pub struct G { #[metric(metadata = m0)] pub alpha: CFam }
    pub fn root_new(m0: Meta) -> G { G::new(m0) }
}
pub mod i_l {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(s0: Set))]
    pub struct G { #[metric(label_set = s0)] pub alpha: CFam }
    pub fn root_new(s0: Set) -> G { G::new(s0) }
}
pub mod i_b {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(m0: Meta, s0: Set))]
    pub struct G { #[metric(metadata = m0, label_set = s0)] pub alpha: CFam }
    pub fn root_new(m0: Meta, s0: Set) -> G { G::new(m0, s0) }
}
pub mod i_z {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new())]
    pub struct G { pub alpha: CFam }
    pub fn root_new() -> G { G::new() }
}
pub mod i_g {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(x0: Grp1))]
    pub struct G { #[metric(flatten, init = x0)] pub alpha: Grp1 }
    pub fn root_new(x0: Grp1) -> G { G::new(x0) }
}
pub mod i_ii {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(x0: CFam, x1: CFam))]
    pub struct G { #[metric(init = x0)] pub alpha: CFam, #[metric(init = x1)] pub beta_2: CFam }
    pub fn root_new(x0: CFam, x1: CFam) -> G { G::new(x0, x1) }
}
pub mod i_im {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(x0: CFam, m1: Meta))]
    pub struct G { #[metric(init = x0)] pub alpha: CFam, #[metric(metadata = m1)] pub beta_2: CFam }
    pub fn root_new(x0: CFam, m1: Meta) -> G { G::new(x0, m1) }
}
pub mod i_il {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(x0: CFam, s1: Set))]
    pub struct G { #[metric(init = x0)] pub alpha: CFam, #[metric(label_set = s1)] pub beta_2: CFam }
    pub fn root_new(x0: CFam, s1: Set) -> G { G::new(x0, s1) }
}
pub mod i_ib {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(x0: CFam, m1: Meta, s1: Set))]
    pub struct G { #[metric(init = x0)] pub alpha: CFam, #[metric(label_set = s1, metadata = m1)] pub beta_2: CFam }
    pub fn root_new(x0: CFam, m1: Meta, s1: Set) -> G { G::new(x0, m1, s1) }
}
pub mod i_iz {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(x0: CFam))]
    pub struct G { #[metric(init = x0)] pub alpha: CFam, pub beta_2: CFam }
    pub fn root_new(x0: CFam) -> G { G::new(x0) }
}
pub mod i_ig {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(x0: CFam, x1: Grp1))]
    pub struct G { #[metric(init = x0)] pub alpha: CFam, #[metric(flatten, init = x1)] pub beta_2: Grp1 }
    pub fn root_new(x0: CFam, x1: Grp1) -> G { G::new(x0, x1) }
}
pub mod i_mi {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(m0: Meta, x1: CFam))]
    pub struct G { #[metric(metadata = m0)] pub alpha: CFam, #[metric(init = x1)] pub beta_2: CFam }
    pub fn root_new(m0: Meta, x1: CFam) -> G { G::new(m0, x1) }
}
pub mod i_mm {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(m0: Meta, m1: Meta))]
    pub struct G { #[metric(metadata = m0)] pub alpha: CFam, #[metric(metadata = m1)] pub beta_2: CFam }
    pub fn root_new(m0: Meta, m1: Meta) -> G { G::new(m0, m1) }
}
pub mod i_ml {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(m0: Meta, s1: Set))]
    pub struct G { #[metric(metadata = m0)] pub alpha: CFam, #[metric(label_set = s1)] pub beta_2: CFam }
    pub fn root_new(m0: Meta, s1: Set) -> G { G::new(m0, s1) }
}
pub mod i_mb {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(m0: Meta, m1: Meta, s1: Set))]
    pub struct G { #[metric(metadata = m0)] pub alpha: CFam, #[metric(label_set = s1, metadata = m1)] pub beta_2: CFam }
    pub fn root_new(m0: Meta, m1: Meta, s1: Set) -> G { G::new(m0, m1, s1) }
}
pub mod i_mz {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(m0: Meta))]
    pub struct G { #[metric(metadata = m0)] pub alpha: CFam, pub beta_2: CFam }
    pub fn root_new(m0: Meta) -> G { G::new(m0) }
}
pub mod i_mg {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(m0: Meta, x1: Grp1))]
    pub struct G { #[metric(metadata = m0)] pub alpha: CFam, #[metric(flatten, init = x1)] pub beta_2: Grp1 }
    pub fn root_new(m0: Meta, x1: Grp1) -> G { G::new(m0, x1) }
}
pub mod i_li {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(s0: Set, x1: CFam))]
    pub struct G { #[metric(label_set = s0)] pub alpha: CFam, #[metric(init = x1)] pub beta_2: CFam }
    pub fn root_new(s0: Set, x1: CFam) -> G { G::new(s0, x1) }
}
pub mod i_lm {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(s0: Set, m1: Meta))]
    pub struct G { #[metric(label_set = s0)] pub alpha: CFam, #[metric(metadata = m1)] pub beta_2: CFam }
    pub fn root_new(s0: Set, m1: Meta) -> G { G::new(s0, m1) }
}
pub mod i_ll {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(s0: Set, s1: Set))]
    pub struct G { #[metric(label_set = s0)] pub alpha: CFam, #[metric(label_set = s1)] pub beta_2: CFam }
    pub fn root_new(s0: Set, s1: Set) -> G { G::new(s0, s1) }
}
pub mod i_lb {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(s0: Set, m1: Meta, s1: Set))]
    pub struct G { #[metric(label_set = s0)] pub alpha: CFam, #[metric(label_set = s1, metadata = m1)] pub beta_2: CFam }
    pub fn root_new(s0: Set, m1: Meta, s1: Set) -> G { G::new(s0, m1, s1) }
}
pub mod i_lz {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(s0: Set))]
    pub struct G { #[metric(label_set = s0)] pub alpha: CFam, pub beta_2: CFam }
    pub fn root_new(s0: Set) -> G { G::new(s0) }
}
pub mod i_lg {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(s0: Set, x1: Grp1))]
    pub struct G { #[metric(label_set = s0)] pub alpha: CFam, #[metric(flatten, init = x1)] pub beta_2: Grp1 }
    pub fn root_new(s0: Set, x1: Grp1) -> G { G::new(s0, x1) }
}
pub mod i_bi {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(m0: Meta, s0: Set, x1: CFam))]
    pub struct G { #[metric(metadata = m0, label_set = s0)] pub alpha: CFam, #[metric(init = x1)] pub beta_2: CFam }
    pub fn root_new(m0: Meta, s0: Set, x1: CFam) -> G { G::new(m0, s0, x1) }
}
pub mod i_bm {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(m0: Meta, s0: Set, m1: Meta))]
    pub struct G { #[metric(metadata = m0, label_set = s0)] pub alpha: CFam, #[metric(metadata = m1)] pub beta_2: CFam }
    pub fn root_new(m0: Meta, s0: Set, m1: Meta) -> G { G::new(m0, s0, m1) }
}
pub mod i_bl {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(m0: Meta, s0: Set, s1: Set))]
    pub struct G { #[metric(metadata = m0, label_set = s0)] pub alpha: CFam, #[metric(label_set = s1)] pub beta_2: CFam }
    pub fn root_new(m0: Meta, s0: Set, s1: Set) -> G { G::new(m0, s0, s1) }
}
pub mod i_bb {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(m0: Meta, s0: Set, m1: Meta, s1: Set))]
    pub struct G { #[metric(metadata = m0, label_set = s0)] pub alpha: CFam, #[metric(label_set = s1, metadata = m1)] pub beta_2: CFam }
    pub fn root_new(m0: Meta, s0: Set, m1: Meta, s1: Set) -> G { G::new(m0, s0, m1, s1) }
}
pub mod i_bz {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(m0: Meta, s0: Set))]
    pub struct G { #[metric(metadata = m0, label_set = s0)] pub alpha: CFam, pub beta_2: CFam }
    pub fn root_new(m0: Meta, s0: Set) -> G { G::new(m0, s0) }
}
pub mod i_bg {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(m0: Meta, s0: Set, x1: Grp1))]
    pub struct G { #[metric(metadata = m0, label_set = s0)] pub alpha: CFam, #[metric(flatten, init = x1)] pub beta_2: Grp1 }
    pub fn root_new(m0: Meta, s0: Set, x1: Grp1) -> G { G::new(m0, s0, x1) }
}
pub mod i_zi {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(x1: CFam))]
    pub struct G { pub alpha: CFam, #[metric(init = x1)] pub beta_2: CFam }
    pub fn root_new(x1: CFam) -> G { G::new(x1) }
}
pub mod i_zm {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(m1: Meta))]
    pub struct G { pub alpha: CFam, #[metric(metadata = m1)] pub beta_2: CFam }
    pub fn root_new(m1: Meta) -> G { G::new(m1) }
}
pub mod i_zl {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(s1: Set))]
    pub struct G { pub alpha: CFam, #[metric(label_set = s1)] pub beta_2: CFam }
    pub fn root_new(s1: Set) -> G { G::new(s1) }
}
pub mod i_zb {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(m1: Meta, s1: Set))]
    pub struct G { pub alpha: CFam, #[metric(label_set = s1, metadata = m1)] pub beta_2: CFam }
    pub fn root_new(m1: Meta, s1: Set) -> G { G::new(m1, s1) }
}
pub mod i_zz {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new())]
    pub struct G { pub alpha: CFam, pub beta_2: CFam }
    pub fn root_new() -> G { G::new() }
}
pub mod i_zg {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(x1: Grp1))]
    pub struct G { pub alpha: CFam, #[metric(flatten, init = x1)] pub beta_2: Grp1 }
    pub fn root_new(x1: Grp1) -> G { G::new(x1) }
}
pub mod i_gi {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(x0: Grp1, x1: CFam))]
    pub struct G { #[metric(flatten, init = x0)] pub alpha: Grp1, #[metric(init = x1)] pub beta_2: CFam }
    pub fn root_new(x0: Grp1, x1: CFam) -> G { G::new(x0, x1) }
}
pub mod i_gm {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(x0: Grp1, m1: Meta))]
    pub struct G { #[metric(flatten, init = x0)] pub alpha: Grp1, #[metric(metadata = m1)] pub beta_2: CFam }
    pub fn root_new(x0: Grp1, m1: Meta) -> G { G::new(x0, m1) }
}
pub mod i_gl {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(x0: Grp1, s1: Set))]
    pub struct G { #[metric(flatten, init = x0)] pub alpha: Grp1, #[metric(label_set = s1)] pub beta_2: CFam }
    pub fn root_new(x0: Grp1, s1: Set) -> G { G::new(x0, s1) }
}
pub mod i_gb {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(x0: Grp1, m1: Meta, s1: Set))]
    pub struct G { #[metric(flatten, init = x0)] pub alpha: Grp1, #[metric(label_set = s1, metadata = m1)] pub beta_2: CFam }
    pub fn root_new(x0: Grp1, m1: Meta, s1: Set) -> G { G::new(x0, m1, s1) }
}
pub mod i_gz {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(x0: Grp1))]
    pub struct G { #[metric(flatten, init = x0)] pub alpha: Grp1, pub beta_2: CFam }
    pub fn root_new(x0: Grp1) -> G { G::new(x0) }
}
pub mod i_gg {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(x0: Grp1, x1: Grp1))]
    pub struct G { #[metric(flatten, init = x0)] pub alpha: Grp1, #[metric(flatten, init = x1)] pub beta_2: Grp1 }
    pub fn root_new(x0: Grp1, x1: Grp1) -> G { G::new(x0, x1) }
}
pub mod i_imlb {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(x0: CFam, m1: Meta, s2: Set, m3: Meta, s3: Set))]
    pub struct G { #[metric(init = x0)] pub alpha: CFam, #[metric(metadata = m1)] pub beta_2: CFam, #[metric(label_set = s2)] pub gamma: CFam, #[metric(label_set = s3, metadata = m3)] pub delta: CFam }
    pub fn root_new(x0: CFam, m1: Meta, s2: Set, m3: Meta, s3: Set) -> G { G::new(x0, m1, s2, m3, s3) }
}
pub mod i_zbml {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(m1: Meta, s1: Set, m2: Meta, s3: Set))]
    pub struct G { pub alpha: CFam, #[metric(label_set = s1, metadata = m1)] pub beta_2: CFam, #[metric(metadata = m2)] pub gamma: CFam, #[metric(label_set = s3)] pub delta: CFam }
    pub fn root_new(m1: Meta, s1: Set, m2: Meta, s3: Set) -> G { G::new(m1, s1, m2, s3) }
}
pub mod i_bbb {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(m0: Meta, s0: Set, m1: Meta, s1: Set, m2: Meta, s2: Set))]
    pub struct G { #[metric(metadata = m0, label_set = s0)] pub alpha: CFam, #[metric(label_set = s1, metadata = m1)] pub beta_2: CFam, #[metric(metadata = m2, label_set = s2)] pub gamma: CFam }
    pub fn root_new(m0: Meta, s0: Set, m1: Meta, s1: Set, m2: Meta, s2: Set) -> G { G::new(m0, s0, m1, s1, m2, s2) }
}
pub mod i_iiii {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(x0: CFam, x1: CFam, x2: CFam, x3: CFam))]
    pub struct G { #[metric(init = x0)] pub alpha: CFam, #[metric(init = x1)] pub beta_2: CFam, #[metric(init = x2)] pub gamma: CFam, #[metric(init = x3)] pub delta: CFam }
    pub fn root_new(x0: CFam, x1: CFam, x2: CFam, x3: CFam) -> G { G::new(x0, x1, x2, x3) }
}
pub mod i_mmm {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(m0: Meta, m1: Meta, m2: Meta))]
    pub struct G { #[metric(metadata = m0)] pub alpha: CFam, #[metric(metadata = m1)] pub beta_2: CFam, #[metric(metadata = m2)] pub gamma: CFam }
    pub fn root_new(m0: Meta, m1: Meta, m2: Meta) -> G { G::new(m0, m1, m2) }
}
pub mod i_lll {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(s0: Set, s1: Set, s2: Set))]
    pub struct G { #[metric(label_set = s0)] pub alpha: CFam, #[metric(label_set = s1)] pub beta_2: CFam, #[metric(label_set = s2)] pub gamma: CFam }
    pub fn root_new(s0: Set, s1: Set, s2: Set) -> G { G::new(s0, s1, s2) }
}
pub mod i_zzz {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new())]
    pub struct G { pub alpha: CFam, pub beta_2: CFam, pub gamma: CFam }
    pub fn root_new() -> G { G::new() }
}
pub mod i_gzmblg {
    use super::*;
    #[derive(MetricGroup)]
    #[metric(new(x0: Grp1, m2: Meta, m3: Meta, s3: Set, s4: Set, x5: Grp1))]
    pub struct G { #[metric(flatten, init = x0)] pub alpha: Grp1, pub beta_2: CFam, #[metric(metadata = m2)] pub gamma: CFam, #[metric(label_set = s3, metadata = m3)] pub delta: CFam, #[metric(label_set = s4)] pub eps: CFam, #[metric(flatten, init = x5)] pub zeta: Grp1 }
    pub fn root_new(x0: Grp1, m2: Meta, m3: Meta, s3: Set, s4: Set, x5: Grp1) -> G { G::new(x0, m2, m3, s3, s4, x5) }
}
