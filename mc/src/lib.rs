#![allow(clippy::all)]
pub mod bind;
pub mod cli;
pub mod galloc;
pub mod engine;
pub mod gen;
pub mod p;
pub mod refm;
pub mod step;
pub mod zoo;
