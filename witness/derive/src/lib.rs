#![allow(dead_code, incomplete_features, unused_variables, unused_imports, unused_mut, non_camel_case_types, non_snake_case)]
#![feature(const_generics)]
pub mod comp;
pub mod lists;
pub mod cases;
pub mod models;
