// Offline stand-in for the `util::pool` module of https://github.com/fbryden/regex
// (rev 6952250): regex-automata 0.4.7's pool, with the number of stacks turned into a
// const generic. Only this module is used by dd-sds. See /verif/DESIGN.md.
extern crate alloc;

pub struct Pool<T, F = fn() -> T, const MAX_POOL_STACKS: usize = 8>(
    alloc::boxed::Box<inner::Pool<T, F, MAX_POOL_STACKS>>,
);

impl<T, F, const MAX_POOL_STACKS: usize> Pool<T, F, MAX_POOL_STACKS> {
    pub fn new(create: F) -> Pool<T, F, MAX_POOL_STACKS> {
        Pool(alloc::boxed::Box::new(inner::Pool::new(create)))
    }
}

impl<T: Send, F: Fn() -> T, const MAX_POOL_STACKS: usize> Pool<T, F, MAX_POOL_STACKS> {
    #[inline]
    pub fn get(&self) -> PoolGuard<'_, T, F, MAX_POOL_STACKS> {
        PoolGuard(self.0.get())
    }
}

impl<T: core::fmt::Debug, F, const MAX_POOL_STACKS: usize> core::fmt::Debug for Pool<T, F, MAX_POOL_STACKS> {
    fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
        f.debug_tuple("Pool").field(&self.0).finish()
    }
}

pub struct PoolGuard<'a, T: Send, F: Fn() -> T, const MAX_POOL_STACKS: usize>(inner::PoolGuard<'a, T, F, MAX_POOL_STACKS>);

impl<'a, T: Send, F: Fn() -> T, const MAX_POOL_STACKS: usize> PoolGuard<'a, T, F, MAX_POOL_STACKS> {
    #[inline]
    pub fn put(this: PoolGuard<'_, T, F, MAX_POOL_STACKS>) {
        inner::PoolGuard::put(this.0);
    }
}

impl<'a, T: Send, F: Fn() -> T, const MAX_POOL_STACKS: usize> core::ops::Deref for PoolGuard<'a, T, F, MAX_POOL_STACKS> {
    type Target = T;

    #[inline]
    fn deref(&self) -> &T {
        self.0.value()
    }
}

impl<'a, T: Send, F: Fn() -> T, const MAX_POOL_STACKS: usize> core::ops::DerefMut for PoolGuard<'a, T, F, MAX_POOL_STACKS> {
    #[inline]
    fn deref_mut(&mut self) -> &mut T {
        self.0.value_mut()
    }
}

impl<'a, T: Send + core::fmt::Debug, F: Fn() -> T, const MAX_POOL_STACKS: usize> core::fmt::Debug
    for PoolGuard<'a, T, F, MAX_POOL_STACKS>
{
    fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
        f.debug_tuple("PoolGuard").field(&self.0).finish()
    }
}

mod inner {
    use core::{
        cell::UnsafeCell,
        panic::{RefUnwindSafe, UnwindSafe},
        sync::atomic::{AtomicUsize, Ordering},
    };



    use std::{sync::Mutex, thread_local};

    static COUNTER: AtomicUsize = AtomicUsize::new(3);

    static THREAD_ID_UNOWNED: usize = 0;

    static THREAD_ID_INUSE: usize = 1;

    static THREAD_ID_DROPPED: usize = 2;


    thread_local!(
        static THREAD_ID: usize = {
            let next = COUNTER.fetch_add(1, Ordering::Relaxed);
            if next == 0 {
                panic!("regex: thread ID allocation space exhausted");
            }
            next
        };
    );

    #[derive(Debug)]
    #[repr(C, align(64))]
    struct CacheLine<T>(T);

    pub(super) struct Pool<T, F, const MAX_POOL_STACKS: usize> {
        create: F,
        stacks: Vec<CacheLine<Mutex<Vec<Box<T>>>>>,
        owner: AtomicUsize,
        owner_val: UnsafeCell<Option<T>>,
    }

    unsafe impl<T: Send, F: Send + Sync, const MAX_POOL_STACKS: usize> Sync for Pool<T, F, MAX_POOL_STACKS> {}

    impl<T: UnwindSafe, F: UnwindSafe + RefUnwindSafe, const MAX_POOL_STACKS: usize> UnwindSafe for Pool<T, F, MAX_POOL_STACKS> {}

    impl<T: UnwindSafe, F: UnwindSafe + RefUnwindSafe, const MAX_POOL_STACKS: usize> RefUnwindSafe
        for Pool<T, F, MAX_POOL_STACKS>
    {
    }

    impl<T, F, const MAX_POOL_STACKS: usize> Pool<T, F, MAX_POOL_STACKS> {
        pub(super) fn new(create: F) -> Pool<T, F, MAX_POOL_STACKS> {
            let mut stacks = Vec::with_capacity(MAX_POOL_STACKS);
            for _ in 0..stacks.capacity() {
                stacks.push(CacheLine(Mutex::new(vec![])));
            }
            let owner = AtomicUsize::new(THREAD_ID_UNOWNED);
            let owner_val = UnsafeCell::new(None); // init'd on first access
            Pool { create, stacks, owner, owner_val }
        }
    }

    impl<T: Send, F: Fn() -> T, const MAX_POOL_STACKS: usize> Pool<T, F, MAX_POOL_STACKS> {
        #[inline]
        pub(super) fn get(&self) -> PoolGuard<'_, T, F, MAX_POOL_STACKS> {
            let caller = THREAD_ID.with(|id| *id);
            let owner = self.owner.load(Ordering::Acquire);
            if caller == owner {
                self.owner.store(THREAD_ID_INUSE, Ordering::Release);
                return self.guard_owned(caller);
            }
            self.get_slow(caller, owner)
        }

        #[cold]
        fn get_slow(
            &self,
            caller: usize,
            owner: usize,
        ) -> PoolGuard<'_, T, F, MAX_POOL_STACKS> {
            if owner == THREAD_ID_UNOWNED {
                let res = self.owner.compare_exchange(
                    THREAD_ID_UNOWNED,
                    THREAD_ID_INUSE,
                    Ordering::AcqRel,
                    Ordering::Acquire,
                );
                if res.is_ok() {
                    unsafe {
                        *self.owner_val.get() = Some((self.create)());
                    }
                    return self.guard_owned(caller);
                }
            }
            let stack_id = caller % self.stacks.len();
            for _ in 0..1 {
                let mut stack = match self.stacks[stack_id].0.try_lock() {
                    Err(_) => continue,
                    Ok(stack) => stack,
                };
                if let Some(value) = stack.pop() {
                    return self.guard_stack(value);
                }
                drop(stack);
                let value = Box::new((self.create)());
                return self.guard_stack(value);
            }
            self.guard_stack_transient(Box::new((self.create)()))
        }

        #[inline]
        fn put_value(&self, value: Box<T>) {
            let caller = THREAD_ID.with(|id| *id);
            let stack_id = caller % self.stacks.len();
            for _ in 0..10 {
                let mut stack = match self.stacks[stack_id].0.try_lock() {
                    Err(_) => continue,
                    Ok(stack) => stack,
                };
                stack.push(value);
                return;
            }
        }

        #[inline]
        fn guard_owned(&self, caller: usize) -> PoolGuard<'_, T, F, MAX_POOL_STACKS> {
            PoolGuard { pool: self, value: Err(caller), discard: false }
        }

        #[inline]
        fn guard_stack(&self, value: Box<T>) -> PoolGuard<'_, T, F, MAX_POOL_STACKS> {
            PoolGuard { pool: self, value: Ok(value), discard: false }
        }

        #[inline]
        fn guard_stack_transient(&self, value: Box<T>) -> PoolGuard<'_, T, F, MAX_POOL_STACKS> {
            PoolGuard { pool: self, value: Ok(value), discard: true }
        }
    }

    impl<T: core::fmt::Debug, F, const MAX_POOL_STACKS: usize> core::fmt::Debug for Pool<T, F, MAX_POOL_STACKS> {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            f.debug_struct("Pool")
                .field("stacks", &self.stacks)
                .field("owner", &self.owner)
                .field("owner_val", &self.owner_val)
                .finish()
        }
    }

    pub(super) struct PoolGuard<'a, T: Send, F: Fn() -> T, const MAX_POOL_STACKS: usize> {
        pool: &'a Pool<T, F, MAX_POOL_STACKS>,
        value: Result<Box<T>, usize>,
        discard: bool,
    }

    impl<'a, T: Send, F: Fn() -> T, const MAX_POOL_STACKS: usize> PoolGuard<'a, T, F, MAX_POOL_STACKS> {
        #[inline]
        pub(super) fn value(&self) -> &T {
            match self.value {
                Ok(ref v) => &**v,
                Err(id) => unsafe {
                    debug_assert_ne!(THREAD_ID_DROPPED, id);
                    (*self.pool.owner_val.get()).as_ref().unwrap_unchecked()
                },
            }
        }

        #[inline]
        pub(super) fn value_mut(&mut self) -> &mut T {
            match self.value {
                Ok(ref mut v) => &mut **v,
                Err(id) => unsafe {
                    debug_assert_ne!(THREAD_ID_DROPPED, id);
                    (*self.pool.owner_val.get()).as_mut().unwrap_unchecked()
                },
            }
        }

        #[inline]
        pub(super) fn put(this: PoolGuard<'_, T, F, MAX_POOL_STACKS>) {
            let mut this = core::mem::ManuallyDrop::new(this);
            this.put_imp();
        }

        #[inline(always)]
        fn put_imp(&mut self) {
            match core::mem::replace(&mut self.value, Err(THREAD_ID_DROPPED)) {
                Ok(value) => {
                    if self.discard {
                        return;
                    }
                    self.pool.put_value(value);
                }
                Err(owner) => {
                    assert_ne!(THREAD_ID_DROPPED, owner);
                    self.pool.owner.store(owner, Ordering::Release);
                }
            }
        }
    }

    impl<'a, T: Send, F: Fn() -> T, const MAX_POOL_STACKS: usize> Drop for PoolGuard<'a, T, F, MAX_POOL_STACKS> {
        #[inline]
        fn drop(&mut self) {
            self.put_imp();
        }
    }

    impl<'a, T: Send + core::fmt::Debug, F: Fn() -> T, const MAX_POOL_STACKS: usize> core::fmt::Debug
        for PoolGuard<'a, T, F, MAX_POOL_STACKS>
    {
        fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
            f.debug_struct("PoolGuard")
                .field("pool", &self.pool)
                .field("value", &self.value)
                .finish()
        }
    }
}

