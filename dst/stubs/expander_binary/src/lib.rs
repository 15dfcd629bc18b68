pub use model::executor;
