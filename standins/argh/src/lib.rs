//! Stand-in for the part of argh that redscript-cli uses: `option`, `switch` and `subcommand` fields of
//! structs, and enums of subcommands. Wrong usage is reported on stderr with exit status 1, as argh does.
pub use argh_derive::FromArgs;

pub trait FromArgs: Sized {
    /// the name of the subcommand, for structs that are one
    const NAME: &'static str = "";
    fn from_args(args: &[String]) -> Result<Self, String>;
}

pub fn from_env<T: FromArgs>() -> T {
    let args: Vec<String> = std::env::args_os()
        .skip(1)
        .map(|a| {
            a.into_string().unwrap_or_else(|_| {
                eprintln!("Invalid utf8");
                std::process::exit(1)
            })
        })
        .collect();
    if args.iter().any(|a| a == "--help" || a == "help") {
        println!("usage");
        std::process::exit(0);
    }
    T::from_args(&args).unwrap_or_else(|e| {
        eprintln!("{e}");
        std::process::exit(1)
    })
}

/// a place an option's values go to
pub trait Slot: Sized {
    fn put(old: Option<Self>, text: &str) -> Result<Self, String>;
    fn missing() -> Option<Self> {
        None
    }
}

macro_rules! plain {
    ($($t:ty),*) => {$(
        impl Slot for $t {
            fn put(old: Option<Self>, text: &str) -> Result<Self, String> {
                if old.is_some() {
                    return Err("duplicate values provided".into());
                }
                text.parse().map_err(|e| format!("Error parsing option: {e}"))
            }
        }
        impl Slot for Option<$t> {
            fn put(old: Option<Self>, text: &str) -> Result<Self, String> {
                <$t as Slot>::put(old.flatten(), text).map(Some)
            }
            fn missing() -> Option<Self> {
                Some(None)
            }
        }
        impl Slot for Vec<$t> {
            fn put(old: Option<Self>, text: &str) -> Result<Self, String> {
                let mut v = old.unwrap_or_default();
                v.push(<$t as Slot>::put(None, text)?);
                Ok(v)
            }
            fn missing() -> Option<Self> {
                Some(vec![])
            }
        }
    )*};
}
plain!(String, std::path::PathBuf, i32, i64, u8, u16, u32, u64, usize, f32, f64);
