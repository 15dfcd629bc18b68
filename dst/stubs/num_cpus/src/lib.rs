fn n() -> usize {
    simrt::get_env("SIM_CPUS").and_then(|s| s.parse().ok()).unwrap_or(4)
}
pub fn get_physical() -> usize { n() }
pub fn get() -> usize { n() }
