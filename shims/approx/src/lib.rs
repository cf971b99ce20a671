//! Stand-in for approx (tests only).
#[macro_export]
macro_rules! assert_relative_eq {
    ($a:expr, $b:expr $(, epsilon = $e:expr)? $(,)?) => {{
        let (a, b): (f64, f64) = ($a, $b);
        let mut _eps = 1e-9f64;
        $( _eps = $e; )?
        assert!((a - b).abs() <= _eps.max(1e-9 * a.abs().max(b.abs())), "{a} != {b}");
    }};
}
#[macro_export]
macro_rules! assert_abs_diff_eq { ($($t:tt)*) => { $crate::assert_relative_eq!($($t)*) } }
