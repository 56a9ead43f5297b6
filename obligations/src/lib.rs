#![allow(dead_code, deprecated)]
pub mod bn_ref;
pub mod common;
pub mod models;
pub mod spec;
pub mod symf;
pub mod verif;

pub mod p01;
pub mod p02;
pub mod p03;
pub mod p04;
pub mod p05;
pub mod p06;
pub mod p07;
pub mod p08;
pub mod p09;
pub mod p10;
pub mod p11;
pub mod c09b;
