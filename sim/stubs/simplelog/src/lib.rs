//! Stand-in for simplelog with one logger per simulated rank (process). Lines carry no time; the terminal is dropped
//! (but the message is formatted, as it would be).
use std::io::Write;
use std::sync::Mutex;

pub use log::Level;
pub use log::LevelFilter;
use log::Log;
use log::Metadata;
use log::Record;
pub use log::SetLoggerError;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum LevelPadding {
    Left,
    Right,
    Off,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum TerminalMode {
    Stdout,
    Stderr,
    Mixed,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ColorChoice {
    Always,
    AlwaysAnsi,
    Auto,
    Never,
}
#[derive(Clone, Debug, Default)]
pub struct Config;
#[derive(Clone, Debug, Default)]
pub struct ConfigBuilder(Config);
impl ConfigBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn set_level_padding(&mut self, _: LevelPadding) -> &mut Self {
        self
    }
    pub fn set_max_level(&mut self, _: LevelFilter) -> &mut Self {
        self
    }
    pub fn set_time_level(&mut self, _: LevelFilter) -> &mut Self {
        self
    }
    pub fn set_target_level(&mut self, _: LevelFilter) -> &mut Self {
        self
    }
    pub fn set_location_level(&mut self, _: LevelFilter) -> &mut Self {
        self
    }
    pub fn set_time_format_rfc3339(&mut self) -> &mut Self {
        self
    }
    pub fn set_time_offset(&mut self, _: time::UtcOffset) -> &mut Self {
        self
    }
    pub fn set_thread_level(&mut self, _: LevelFilter) -> &mut Self {
        self
    }
    pub fn build(&mut self) -> Config {
        Config
    }
}

pub trait SharedLogger: Send {
    fn level(&self) -> LevelFilter;
    fn line(&mut self, s: &str);
}

pub struct TermLogger(LevelFilter);
impl TermLogger {
    pub fn new(level: LevelFilter, _: Config, _: TerminalMode, _: ColorChoice) -> Box<TermLogger> {
        Box::new(TermLogger(level))
    }
    pub fn init(level: LevelFilter, c: Config, m: TerminalMode, cc: ColorChoice) -> Result<(), SetLoggerError> {
        install(vec![Self::new(level, c, m, cc)])
    }
}
impl SharedLogger for TermLogger {
    fn level(&self) -> LevelFilter {
        self.0
    }
    fn line(&mut self, _: &str) {}
}

pub struct WriteLogger<W>(LevelFilter, W);
impl<W: Write + Send + 'static> WriteLogger<W> {
    pub fn new(level: LevelFilter, _: Config, w: W) -> Box<WriteLogger<W>> {
        Box::new(WriteLogger(level, w))
    }
    pub fn init(level: LevelFilter, c: Config, w: W) -> Result<(), SetLoggerError> {
        install(vec![Self::new(level, c, w)])
    }
}
impl<W: Write + Send + 'static> SharedLogger for WriteLogger<W> {
    fn level(&self) -> LevelFilter {
        self.0
    }
    fn line(&mut self, s: &str) {
        let _ = self.1.write_all(s.as_bytes());
    }
}

pub struct CombinedLogger;
impl CombinedLogger {
    pub fn init(v: Vec<Box<dyn SharedLogger>>) -> Result<(), SetLoggerError> {
        install(v)
    }
}

struct Rank {
    key: (u64, usize),
    max: LevelFilter,
    sinks: Option<Vec<Box<dyn SharedLogger>>>,
}
struct Dispatch(Mutex<Vec<Rank>>);
static DISPATCH: Dispatch = Dispatch(Mutex::new(vec![]));

fn key() -> (u64, usize) {
    if simcore::sched::in_rank() {
        (simcore::sched::job_id(), simcore::sched::current_rank())
    } else {
        (0, usize::MAX)
    }
}

fn install(v: Vec<Box<dyn SharedLogger>>) -> Result<(), SetLoggerError> {
    let k = key();
    let _ = log::set_logger(&DISPATCH);
    log::set_max_level(LevelFilter::Trace);
    let mut ranks = DISPATCH.0.lock().unwrap();
    if ranks.iter().any(|r| r.key == k) {
        // the real thing refuses a second logger in one process
        return Err(log::set_logger(&DISPATCH).unwrap_err());
    }
    // The files of ranks of an earlier job were closed when it ended.
    for r in ranks.iter_mut().filter(|r| r.key.0 != k.0) {
        std::mem::forget(r.sinks.take());
    }
    ranks.retain(|r| r.key.0 == k.0);
    ranks.push(Rank { key: k, max: v.iter().map(|x| x.level()).max().unwrap_or(LevelFilter::Off), sinks: Some(v) });
    Ok(())
}

impl Log for Dispatch {
    fn enabled(&self, m: &Metadata<'_>) -> bool {
        let k = key();
        self.0.lock().unwrap().iter().any(|r| r.key == k && m.level() <= r.max)
    }
    fn log(&self, record: &Record<'_>) {
        if !self.enabled(record.metadata()) {
            return;
        }
        let s = format!("[{}] {}\n", record.level(), record.args());
        // Other ranks may run while this one writes.
        let k = key();
        let take = |v: &mut Vec<Rank>| v.iter_mut().find(|r| r.key == k).and_then(|r| r.sinks.take());
        let Some(mut sinks) = take(&mut self.0.lock().unwrap()) else { return };
        for x in sinks.iter_mut() {
            if record.level() <= x.level() {
                x.line(&s);
            }
        }
        if let Some(r) = self.0.lock().unwrap().iter_mut().find(|r| r.key == k) {
            r.sinks = Some(sinks);
        }
    }
    fn flush(&self) {}
}
