pub use model::crosslayer::*;
