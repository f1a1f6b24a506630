//! Stand-in for lazy_static in which every simulated rank (process) has its own instance of each value, as it is
//! where the ranks are processes.
pub use std::ops::Deref as __Deref;

pub mod lazy {
    use std::sync::Mutex;

    type Key = (u64, usize);
    pub struct Lazy<T: Sync + 'static>(pub Mutex<Vec<(Key, &'static T)>>);

    impl<T: Sync + 'static> Lazy<T> {
        pub const INIT: Self = Lazy(Mutex::new(vec![]));
        pub fn get(&'static self, f: impl FnOnce() -> T) -> &'static T {
            let key = if simcore::sched::in_rank() {
                (simcore::sched::job_id(), simcore::sched::current_rank())
            } else {
                (0, usize::MAX)
            };
            if let Some(x) = self.0.lock().unwrap_or_else(|e| e.into_inner()).iter().find(|x| x.0 == key) {
                return x.1;
            }
            let x: &'static T = Box::leak(Box::new(f()));
            let mut v = self.0.lock().unwrap_or_else(|e| e.into_inner());
            v.retain(|x| x.0 .0 == key.0 || x.0 .1 == usize::MAX);
            v.push((key, x));
            x
        }
    }
}

pub trait LazyStatic {
    fn initialize(lazy: &Self);
}

pub fn initialize<T: LazyStatic>(lazy: &T) {
    LazyStatic::initialize(lazy);
}

#[macro_export]
macro_rules! lazy_static {
    ($(#[$attr:meta])* $vis:vis static ref $N:ident : $T:ty = $e:expr; $($t:tt)*) => {
        #[allow(non_camel_case_types)]
        #[allow(dead_code)]
        $(#[$attr])*
        $vis struct $N {__private_field: ()}
        #[allow(non_upper_case_globals)]
        $vis static $N: $N = $N {__private_field: ()};
        impl $crate::__Deref for $N {
            type Target = $T;
            fn deref(&self) -> &$T {
                fn init() -> $T { $e }
                static LAZY: $crate::lazy::Lazy<$T> = $crate::lazy::Lazy::INIT;
                LAZY.get(init)
            }
        }
        impl $crate::LazyStatic for $N {
            fn initialize(lazy: &Self) {
                let _ = &**lazy;
            }
        }
        $crate::lazy_static!($($t)*);
    };
    () => ()
}
