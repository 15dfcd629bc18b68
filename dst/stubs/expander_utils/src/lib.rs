pub mod timer {
    pub struct Timer(std::time::Instant);
    impl Timer {
        pub fn new(_name: &str, _is_root: bool) -> Self {
            Timer(std::time::Instant::now())
        }
        pub fn stop(&self) -> u128 {
            self.0.elapsed().as_micros()
        }
        pub fn print(&self, _m: &str) {}
    }
}
