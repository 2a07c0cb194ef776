#![allow(dead_code)]
include!(concat!(env!("OUT_DIR"), "/src/main.rs"));

trait Ended {
    fn ended(self) -> Result<(), String>;
}
impl Ended for () {
    fn ended(self) -> Result<(), String> {
        Ok(())
    }
}
impl Ended for std::process::ExitCode {
    fn ended(self) -> Result<(), String> {
        Err(format!("{self:?}"))
    }
}
impl<E: std::fmt::Display> Ended for Result<(), E> {
    fn ended(self) -> Result<(), String> {
        self.map_err(|e| e.to_string())
    }
}
/// Runs the server binary's `main`.
pub fn run() -> Result<(), String> {
    Ended::ended(main())
}
