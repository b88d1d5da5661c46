//! Shared machinery of the runtime monitors: workload driver, reference
//! models, monitored constraint system, adversarial witness search.
pub mod adv;
pub mod blake;
pub mod count;
pub mod ed;
pub mod engine;
pub mod g16;
pub mod gen;
pub mod json;
pub mod moncs;
pub mod prog;
pub mod rebind;
pub mod refm;
pub mod rng;
pub mod points;
pub mod sig;
pub mod sol;
pub mod touch;
pub mod wei;

pub use engine::{Check, Ctx, Res};
pub use rng::R;

/// fail the current case with a message
#[macro_export]
macro_rules! viol {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}

/// oracle comparison: counts an observation and fails the case when false
#[macro_export]
macro_rules! ensure {
    ($ctx:expr, $c:expr, $($t:tt)*) => {
        $ctx.obs(1);
        if !($c) { return Err(format!($($t)*)); }
    };
}
