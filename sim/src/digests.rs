//! The hash seam: real Blake2 behind a wrapper that is a scheduling point, keeps a log of the
//! queries and answers, and can be made hostile: a given fraction of the answers is then a value
//! no challenge can be made from, so that the retry paths run.
use crate::rng::hash_bytes;
use crate::simrt;
use blake2::{Blake2b, Blake2s};
use digest::generic_array::{typenum::{U32, U64}, GenericArray};
use digest::{Digest, FixedOutput, Reset, Update};
use std::cell::UnsafeCell;

pub struct Shared<T>(UnsafeCell<T>);
// Only used by the thread that holds the scheduler's baton.
unsafe impl<T> Sync for Shared<T> {}
impl<T> Shared<T> {
    pub const fn new(t: T) -> Self {
        Shared(UnsafeCell::new(t))
    }
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Query {
    pub tid: u32,
    pub input: u64,
    pub len: usize,
    pub out: Vec<u8>,
    pub unusable: bool,
}
pub struct HashState {
    pub logging: bool,
    pub log: Vec<Query>,
    /// One in `hostile` answers is unusable (0: never).
    pub hostile: u64,
    pub total: u64,
    pub unusable: u64,
}
pub static HASH: Shared<HashState> = Shared::new(HashState { logging: false, log: vec![], hostile: 0, total: 0, unusable: 0 });

macro_rules! dg {
    ($n:ident, $inner:ty, $len:ty) => {
        #[derive(Clone, Default)]
        pub struct $n {
            inner: $inner,
            data: Vec<u8>,
        }
        impl Update for $n {
            fn update(&mut self, d: impl AsRef<[u8]>) {
                Update::update(&mut self.inner, d.as_ref());
                self.data.extend_from_slice(d.as_ref());
            }
        }
        impl Reset for $n {
            fn reset(&mut self) {
                *self = Default::default();
            }
        }
        impl FixedOutput for $n {
            type OutputSize = $len;
            fn finalize_into(mut self, out: &mut GenericArray<u8, $len>) {
                FixedOutput::finalize_into_reset(&mut self, out)
            }
            fn finalize_into_reset(&mut self, out: &mut GenericArray<u8, $len>) {
                simrt::op_point();
                let _b = simrt::Busy::new();
                let answer = Digest::finalize_reset(&mut self.inner);
                out.copy_from_slice(&answer);
                let st = HASH.get();
                st.total += 1;
                let input = hash_bytes(&self.data);
                let sel = u64::from_le_bytes(answer[8..16].try_into().unwrap());
                let unusable = st.hostile > 0 && sel % st.hostile == 0;
                if unusable {
                    // Zero where GIPA reads its challenge, above the modulus where TIPA does.
                    st.unusable += 1;
                    for (i, b) in out.iter_mut().enumerate() {
                        *b = if i < 16 { 0 } else { 0xff };
                    }
                }
                if st.logging {
                    st.log.push(Query { tid: simrt::tid(), input, len: self.data.len(), out: out.to_vec(), unusable });
                }
                self.data.clear();
            }
        }
    };
}
dg!(D64, Blake2b, U64);
dg!(D32, Blake2s, U32);

/// Runs `f` and returns what it hashed.
pub fn logged<T>(f: impl FnOnce() -> T) -> (T, Vec<Query>) {
    HASH.get().logging = true;
    HASH.get().log.clear();
    let r = f();
    HASH.get().logging = false;
    (r, std::mem::take(&mut HASH.get().log))
}
