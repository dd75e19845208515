//! Stand-in for simplelog: messages go nowhere (no property depends on them).
pub use log::{Level, LevelFilter};
#[derive(Debug, Clone, Copy)] pub enum TerminalMode { Stdout, Stderr, Mixed }
#[derive(Debug, Clone, Copy)] pub enum ColorChoice { Always, AlwaysAnsi, Auto, Never }
#[derive(Debug, Clone, Default)] pub struct Config;
#[derive(Debug, Clone, Default)] pub struct ConfigBuilder;
impl ConfigBuilder {
    pub fn new() -> Self { ConfigBuilder }
    pub fn set_time_offset_to_local(&mut self) -> Result<&mut Self, &mut Self> { Ok(self) }
    pub fn set_max_level(&mut self, _: LevelFilter) -> &mut Self { self }
    pub fn set_time_level(&mut self, _: LevelFilter) -> &mut Self { self }
    pub fn set_thread_level(&mut self, _: LevelFilter) -> &mut Self { self }
    pub fn set_target_level(&mut self, _: LevelFilter) -> &mut Self { self }
    pub fn set_location_level(&mut self, _: LevelFilter) -> &mut Self { self }
    pub fn build(&mut self) -> Config { Config }
}
pub struct TermLogger; pub struct SimpleLogger;
impl TermLogger { pub fn init(_: LevelFilter, _: Config, _: TerminalMode, _: ColorChoice) -> Result<(), log::SetLoggerError> { Ok(()) } }
impl SimpleLogger { pub fn init(_: LevelFilter, _: Config) -> Result<(), log::SetLoggerError> { Ok(()) } }
