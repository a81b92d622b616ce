//! Independent models of the file formats: generators of valid files with their expected content, and
//! reference decoders.  Nothing here depends on the code under test.
pub mod deflate;
pub mod png;
pub mod mutate;
pub mod io;
pub mod jpeg;
