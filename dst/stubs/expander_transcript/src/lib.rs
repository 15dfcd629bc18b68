pub use model::engine::{BytesHashTranscript, Transcript};
