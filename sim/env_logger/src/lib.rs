//! The simulation installs its own logger once per run; a started server must not install another.
pub fn init() {}
pub fn try_init() -> Result<(), log::SetLoggerError> { Ok(()) }
pub fn builder() -> Builder { Builder::new() }
#[derive(Default)]
pub struct Builder;
impl Builder {
    pub fn new() -> Self { Builder }
    pub fn from_default_env() -> Self { Builder }
    pub fn from_env<E>(_: E) -> Self { Builder }
    pub fn filter(&mut self, _: Option<&str>, _: log::LevelFilter) -> &mut Self { self }
    pub fn filter_level(&mut self, _: log::LevelFilter) -> &mut Self { self }
    pub fn filter_module(&mut self, _: &str, _: log::LevelFilter) -> &mut Self { self }
    pub fn parse_filters(&mut self, _: &str) -> &mut Self { self }
    pub fn is_test(&mut self, _: bool) -> &mut Self { self }
    pub fn init(&mut self) {}
    pub fn try_init(&mut self) -> Result<(), log::SetLoggerError> { Ok(()) }
}
#[derive(Default)]
pub struct Env;
impl Env { pub fn new() -> Self { Env } pub fn default_filter_or<T>(self, _: T) -> Self { self } pub fn filter_or<A, B>(self, _: A, _: B) -> Self { self } pub fn filter<A>(self, _: A) -> Self { self } }
pub fn from_env<E>(_: E) -> Builder { Builder }
