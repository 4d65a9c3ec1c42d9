#[macro_use]
pub mod engine;
pub mod driver;
pub mod gen;
pub mod model;
pub mod readers;
pub mod rec;
pub mod schema;
pub mod tape;
pub mod tree;
pub mod walk;
pub use driver::{main, Check};
pub use engine::*;
