pub mod cx;
pub mod engine;
pub mod fam;
pub mod imp;
pub mod keys;
pub mod model;
pub mod mon;
pub mod ops;
pub mod plan;
pub mod roots;
pub mod touch;
