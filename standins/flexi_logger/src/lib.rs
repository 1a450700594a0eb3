//! Stand-in for the part of flexi_logger that is used here: the configuration is accepted and nothing is logged,
//! unless logging to the standard output is asked for.
use std::io;
use std::path::PathBuf;

pub use log::LevelFilter;

#[derive(Debug, Clone, Copy)]
pub enum Age {
    Day,
    Hour,
    Minute,
    Second,
}
#[derive(Debug, Clone, Copy)]
pub enum Cleanup {
    Never,
    KeepLogFiles(usize),
}
#[derive(Debug, Clone, Copy)]
pub enum Criterion {
    Size(u64),
    Age(Age),
    AgeOrSize(Age, u64),
}
#[derive(Debug, Clone, Copy)]
pub enum Duplicate {
    None,
    Error,
    Warn,
    Info,
    Debug,
    Trace,
    All,
}
#[derive(Debug, Clone, Copy)]
pub enum Naming {
    Timestamps,
    Numbers,
}
#[derive(Debug, Default)]
pub struct FileSpec;
impl FileSpec {
    pub fn directory(self, _: impl Into<PathBuf>) -> Self {
        self
    }
    pub fn basename(self, _: impl Into<String>) -> Self {
        self
    }
    pub fn suffix(self, _: impl Into<String>) -> Self {
        self
    }
    pub fn suppress_timestamp(self) -> Self {
        self
    }
}
#[derive(Debug, Default)]
pub struct LogSpecification;
#[derive(Debug, Default)]
pub struct LogSpecBuilder;
impl LogSpecBuilder {
    pub fn new() -> Self {
        Self
    }
    pub fn default(&mut self, _: log::LevelFilter) -> &mut Self {
        self
    }
    pub fn build(&self) -> LogSpecification {
        LogSpecification
    }
}
#[derive(Debug, Default)]
pub struct DeferredNow;
#[derive(Debug)]
pub struct Time;
impl Time {
    pub fn to_rfc2822(&self) -> String {
        String::new()
    }
}
impl DeferredNow {
    pub fn now(&mut self) -> &Time {
        &Time
    }
}
#[derive(Debug)]
pub struct FlexiLoggerError;
pub struct LoggerHandle;
pub struct Logger {
    stdout: bool,
}
pub type FormatFunction = fn(&mut dyn io::Write, &mut DeferredNow, &log::Record<'_>) -> io::Result<()>;
impl Logger {
    pub fn with(_: impl Into<LogSpecification>) -> Self {
        Self { stdout: false }
    }
    pub fn log_to_file(self, _: FileSpec) -> Self {
        self
    }
    pub fn duplicate_to_stdout(self, _: Duplicate) -> Self {
        self
    }
    pub fn rotate(self, _: Criterion, _: Naming, _: Cleanup) -> Self {
        self
    }
    pub fn format(self, _: FormatFunction) -> Self {
        self
    }
    pub fn log_to_stdout(mut self) -> Self {
        self.stdout = true;
        self
    }
    pub fn start(self) -> Result<LoggerHandle, FlexiLoggerError> {
        if self.stdout {
            log::set_logger(&Stdout).map_err(|_| FlexiLoggerError)?;
            log::set_max_level(LevelFilter::Info);
        }
        Ok(LoggerHandle)
    }
}

struct Stdout;
impl log::Log for Stdout {
    fn enabled(&self, _: &log::Metadata<'_>) -> bool {
        true
    }
    fn log(&self, r: &log::Record<'_>) {
        println!("{} {}", r.level(), r.args());
    }
    fn flush(&self) {}
}
