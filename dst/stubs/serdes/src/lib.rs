pub use model::serdes::*;
pub use serdes_derive::ExpSerde;
