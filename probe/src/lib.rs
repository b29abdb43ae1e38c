#![allow(dead_code, clippy::all)]
pub mod px;
pub mod metrics;
pub mod text;
pub mod proto;
pub mod names;
pub mod shapes;
pub mod labels;
pub mod enums;
pub mod groups;
pub mod coll;
