#![allow(dead_code, incomplete_features, unused_variables)]
#![feature(const_generics)]
pub mod models;
pub mod spec;
pub mod buf;
