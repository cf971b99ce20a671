//! Stand-in for if_rust_version: the compiler here is newer than any version asked about.
#[macro_export]
macro_rules! if_rust_version {
    (>= $v:literal { $($a:tt)* } else { $($b:tt)* }) => { $($a)* };
    (>= $v:literal { $($a:tt)* }) => { $($a)* };
}
