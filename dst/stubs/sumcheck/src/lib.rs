pub use model::gkr::{ProverScratchPad, *};
