pub mod util {
    pub mod pool;
}
