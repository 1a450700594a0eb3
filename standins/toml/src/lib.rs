//! Stand-in for toml 0.8, of which scc-lib uses `from_str`.
pub use toml05::de;

pub fn from_str<T: serde::de::DeserializeOwned>(s: &str) -> Result<T, de::Error> {
    toml05::from_str(s)
}
