pub mod keys;
pub mod pool;
pub mod rt;
pub mod trust;
pub mod cert;
pub mod graph;
pub mod ser;
