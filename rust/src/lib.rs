//! Contract harnesses over the real lightyear crates.
#![allow(clippy::all)]
#![cfg_attr(kani, feature(stmt_expr_attributes))]

pub mod src;
pub use src::Src;

#[cfg(not(kani))]
pub type Entry = (&'static str, fn(&mut src::Native));

/// Declares a group of harnesses: a generic function each, a Kani proof, and a native registry.
#[macro_export]
macro_rules! harnesses {
    ($group:ident; $( $(#[$attr:meta])* fn $name:ident ($s:ident) $body:block )*) => {
        $(
            #[allow(unused_variables, unused_mut)]
            pub fn $name<S: $crate::Src>($s: &mut S) {
                $body
                $s.reach();
            }
        )*
        #[cfg(not(kani))]
        pub const LIST: &[$crate::Entry] = &[
            $( (stringify!($name), $name::<$crate::src::Native>), )*
        ];
        #[cfg(kani)]
        mod proofs {
            $(
                $(#[$attr])*
                #[kani::proof]
                fn $name() {
                    let mut s = $crate::src::Sym;
                    super::$name(&mut s);
                }
            )*
        }
    };
}

/// Native-only harnesses (bounded execution of the contracts on the real code).
#[macro_export]
macro_rules! natives {
    ($( $(#[$attr:meta])* fn $name:ident ($s:ident) $body:block )*) => {
        $(
            #[cfg(not(kani))]
            #[allow(unused_variables, unused_mut)]
            pub fn $name<S: $crate::Src>($s: &mut S) {
                $body
                $s.reach();
            }
        )*
        #[cfg(not(kani))]
        pub const NATIVES: &[$crate::Entry] = &[
            $( (stringify!($name), $name::<$crate::src::Native>), )*
        ];
    };
}

pub mod util;
#[cfg(feature = "core")]
pub mod codec;
#[cfg(feature = "core")]
pub mod corep;
#[cfg(all(feature = "core", not(kani)))]
pub mod hist;
#[cfg(feature = "sync")]
pub mod sync;
#[cfg(all(feature = "conn", not(kani)))]
pub mod conn;
#[cfg(all(feature = "link", not(kani)))]
pub mod link;
#[cfg(all(feature = "core", not(kani)))]
pub mod emap;
#[cfg(feature = "netcode")]
pub mod netcode;
#[cfg(feature = "transport")]
pub mod transport;
#[cfg(all(feature = "transport", not(kani)))]
pub mod e2e;
#[cfg(all(feature = "transport", not(kani)))]
pub mod serial;

#[cfg(not(kani))]
pub fn all() -> Vec<Entry> {
    let mut v: Vec<Entry> = Vec::new();
    #[cfg(feature = "core")]
    {
        v.extend_from_slice(codec::LIST);
        v.extend_from_slice(corep::LIST);
        v.extend_from_slice(corep::NATIVES);
        v.extend_from_slice(hist::NATIVES);
        v.extend_from_slice(emap::NATIVES);
    }
    #[cfg(feature = "sync")]
    {
        v.extend_from_slice(sync::LIST);
        v.extend_from_slice(sync::NATIVES);
    }
    #[cfg(feature = "conn")]
    v.extend_from_slice(conn::NATIVES);
    #[cfg(feature = "link")]
    v.extend_from_slice(link::NATIVES);
    #[cfg(feature = "netcode")]
    {
        v.extend_from_slice(netcode::LIST);
        v.extend_from_slice(netcode::NATIVES);
    }
    #[cfg(feature = "transport")]
    {
        v.extend_from_slice(transport::LIST);
        v.extend_from_slice(transport::NATIVES);
        v.extend_from_slice(e2e::NATIVES);
        v.extend_from_slice(serial::NATIVES);
    }
    v
}
