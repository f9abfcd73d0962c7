//! vcmon: runtime monitors for vec-collections. See /verif/DESIGN.md.
pub mod alloc;
pub mod arch;
pub mod case;
pub mod gen;
pub mod own;
pub mod radix;
pub mod rng;
pub mod runner;
pub mod sets;
pub mod tok;

pub use case::Case;
pub use rng::Rng;
pub use runner::{main, Scenario};

/// Monitored assertion: `ensure!(case, cond, "short stable signature", "details {}", x)`
#[macro_export]
macro_rules! ensure {
    ($c:expr, $cond:expr, $sig:expr) => {
        if !$cond { $c.fail($sig, String::new()) }
    };
    ($c:expr, $cond:expr, $sig:expr, $($arg:tt)+) => {
        if !$cond { $c.fail($sig, format!($($arg)+)) }
    };
}

/// Monitored equality.
#[macro_export]
macro_rules! ensure_eq {
    ($c:expr, $a:expr, $b:expr, $sig:expr) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) { $c.fail($sig, format!("got {:?}, expected {:?}", a, b)) }
    }};
    ($c:expr, $a:expr, $b:expr, $sig:expr, $($arg:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) { $c.fail($sig, format!("got {:?}, expected {:?}; {}", a, b, format!($($arg)+))) }
    }};
}

/// Runs `$f::<[$t; N]>($args)` for the inline capacity picked at run time.
#[macro_export]
macro_rules! with_cap {
    ($n:expr, $t:ty, $f:ident ( $($args:expr),* )) => {
        match $n {
            0 => $f::<[$t; 0]>($($args),*),
            1 => $f::<[$t; 1]>($($args),*),
            2 => $f::<[$t; 2]>($($args),*),
            3 => $f::<[$t; 3]>($($args),*),
            4 => $f::<[$t; 4]>($($args),*),
            8 => $f::<[$t; 8]>($($args),*),
            _ => $f::<[$t; 16]>($($args),*),
        }
    };
}
/// Same for two capacities.
#[macro_export]
macro_rules! with_caps {
    ($n:expr, $m:expr, $t:ty, $u:ty, $f:ident ( $($args:expr),* )) => {
        match ($n, $m) {
            (0, _) => $f::<[$t; 0], [$u; 2]>($($args),*),
            (1, 1) => $f::<[$t; 1], [$u; 1]>($($args),*),
            (1, _) => $f::<[$t; 1], [$u; 4]>($($args),*),
            (2, 1) => $f::<[$t; 2], [$u; 1]>($($args),*),
            (2, 2) => $f::<[$t; 2], [$u; 2]>($($args),*),
            (2, _) => $f::<[$t; 2], [$u; 8]>($($args),*),
            (4, 2) => $f::<[$t; 4], [$u; 2]>($($args),*),
            (4, _) => $f::<[$t; 4], [$u; 4]>($($args),*),
            (8, 0) => $f::<[$t; 8], [$u; 0]>($($args),*),
            (8, _) => $f::<[$t; 8], [$u; 3]>($($args),*),
            (_, 16) => $f::<[$t; 16], [$u; 16]>($($args),*),
            (_, _) => $f::<[$t; 16], [$u; 1]>($($args),*),
        }
    };
}
pub const CAPS: [usize; 7] = [0, 1, 2, 3, 4, 8, 16];
