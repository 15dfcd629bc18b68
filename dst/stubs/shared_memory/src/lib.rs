pub use model::shmem::{Shmem, ShmemConf, ShmemError};
