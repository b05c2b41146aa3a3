//! Raw-mode TiKV client over the simulated cluster.
use simcore::kv;
use std::fmt;

#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.0) } }
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Clone, Debug, Default)]
pub struct Config { pub endpoints: Vec<String> }
impl Config { pub fn new(p: impl IntoIterator<Item = impl Into<String>>) -> Config { Config { endpoints: p.into_iter().map(Into::into).collect() } } }

macro_rules! bytes { ($n:ident) => {
    #[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct $n(Vec<u8>);
    impl From<Vec<u8>> for $n { fn from(v: Vec<u8>) -> Self { $n(v) } }
    impl From<String> for $n { fn from(v: String) -> Self { $n(v.into_bytes()) } }
    impl From<&'static str> for $n { fn from(v: &'static str) -> Self { $n(v.as_bytes().to_vec()) } }
    impl From<$n> for Vec<u8> { fn from(v: $n) -> Self { v.0 } }
    impl AsRef<[u8]> for $n { fn as_ref(&self) -> &[u8] { &self.0 } }
} }
bytes!(Key); bytes!(Value);
#[derive(Clone, Debug)]
pub struct KvPair(pub Key, pub Value);

#[derive(Clone)]
pub struct RawClient { _c: Config }
impl RawClient {
    pub fn new(c: Config) -> Result<RawClient> { kv::connect_to(&c.endpoints).map_err(Error)?; Ok(RawClient { _c: c }) }
    pub async fn get(&self, k: impl Into<Key>) -> Result<Option<Value>> { kv::get(&k.into().0).map(|o| o.map(Value)).map_err(Error) }
    pub async fn put(&self, k: impl Into<Key>, v: impl Into<Value>) -> Result<()> { kv::put(k.into().0, v.into().0).map_err(Error) }
    pub async fn delete(&self, k: impl Into<Key>) -> Result<()> { kv::del(&k.into().0).map_err(Error) }
    pub async fn batch_get(&self, ks: impl IntoIterator<Item = impl Into<Key>>) -> Result<Vec<KvPair>> {
        let mut r = vec![];
        for k in ks { let k = k.into(); if let Some(v) = kv::get(&k.0).map_err(Error)? { r.push(KvPair(k, Value(v))) } }
        Ok(r)
    }
    pub async fn batch_put(&self, ps: impl IntoIterator<Item = impl Into<KvPair>>) -> Result<()> { for p in ps { let KvPair(k, v) = p.into(); kv::put(k.0, v.0).map_err(Error)?; } Ok(()) }
}
