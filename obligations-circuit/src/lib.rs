#![allow(dead_code, deprecated)]
#[path = "../../obligations/src/common.rs"]
pub mod common;
#[path = "../../obligations/src/models.rs"]
pub mod models;
#[path = "../../obligations/src/spec.rs"]
pub mod spec;
#[path = "../../obligations/src/symf.rs"]
pub mod symf;
#[path = "../../obligations/src/verif.rs"]
pub mod verif;

pub mod circ;
pub mod tab;

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c03b;
pub mod c04;
pub mod c05;
pub mod c05b;
pub mod c06;
pub mod c06b;
pub mod c07;
pub mod c07b;
pub mod c08;
pub mod c09;
pub mod c10;
