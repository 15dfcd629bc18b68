pub mod bn256 { pub use model::arith::Fr; #[derive(Clone,Copy,Debug,Default,PartialEq,Eq,Hash)] pub struct Bn256; }
