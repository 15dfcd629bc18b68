pub mod environment { pub use model::mpi::Universe; }
pub mod ffi { pub use model::mpi::{ompi_win_t, MPI_Finalize}; }
pub mod topology { pub use model::mpi::{Color, SimpleCommunicator, Communicator}; }
pub mod traits { pub use model::mpi::Communicator; }
