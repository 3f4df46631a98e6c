//! Stand-in for Expander's `gkr_engine`: only the configuration traits.
use arith::{Field, SimdField};
use std::fmt::Debug;

pub trait FieldEngine: Default + Debug + Clone + PartialEq + Send + Sync + 'static {
    type CircuitField: Field;
    type ChallengeField: Field;
    type SimdCircuitField: SimdField<Scalar = Self::CircuitField>;
}
pub trait GKREngine: Send + Sync {
    type FieldConfig: FieldEngine;
}
macro_rules! fe {
    ($n:ident, $c:ty, $ch:ty, $s:ty) => {
        #[derive(Default, Debug, Clone, PartialEq)]
        pub struct $n;
        impl FieldEngine for $n {
            type CircuitField = $c;
            type ChallengeField = $ch;
            type SimdCircuitField = $s;
        }
    };
}
fe!(M31x16Config, mersenne31::M31, mersenne31::M31, mersenne31::M31x16);
fe!(BabyBearx16Config, babybear::BabyBear, babybear::BabyBear, babybear::BabyBearx16);
fe!(Goldilocksx8Config, goldilocks::Goldilocks, goldilocks::Goldilocks, goldilocks::Goldilocksx8);
fe!(GF2ExtConfig, gf2::GF2, gf2::GF2, gf2::GF2x8);
fe!(BN254Config, arith::Fr, arith::Fr, arith::Fr);

/// Objects that one process writes to shared memory and others use in place: what is read borrows the memory
/// (vectors point into it), so the reader gives up control before it drops the object.
pub trait MPISharedMemory {
    fn bytes_size(&self) -> usize;
    fn to_memory(&self, ptr: &mut *mut u8);
    fn new_from_memory(ptr: &mut *mut u8) -> Self;
    fn discard_control_of_shared_mem(self);
}
const ALIGN: usize = 16;
unsafe fn put<T>(x: *const T, n: usize, room: usize, ptr: &mut *mut u8) {
    std::ptr::copy_nonoverlapping(x as *const u8, *ptr, n * std::mem::size_of::<T>());
    *ptr = ptr.add(room);
}
macro_rules! plain {
    ($($t:ty),*) => {$(
        impl MPISharedMemory for $t {
            fn bytes_size(&self) -> usize {
                ALIGN
            }
            fn to_memory(&self, ptr: &mut *mut u8) {
                unsafe { put(self, 1, ALIGN, ptr) }
            }
            fn new_from_memory(ptr: &mut *mut u8) -> Self {
                unsafe {
                    let x = (*ptr as *const $t).read();
                    *ptr = ptr.add(ALIGN);
                    x
                }
            }
            fn discard_control_of_shared_mem(self) {}
        }
    )*};
}
plain!(bool, u8, u32, u64, usize);
impl<T> MPISharedMemory for Vec<T> {
    fn bytes_size(&self) -> usize {
        assert!(!std::mem::needs_drop::<T>() && std::mem::align_of::<T>() <= ALIGN, "only plain elements can be shared");
        ALIGN + (self.len() * std::mem::size_of::<T>()).next_multiple_of(ALIGN)
    }
    fn to_memory(&self, ptr: &mut *mut u8) {
        self.len().to_memory(ptr);
        unsafe { put(self.as_ptr(), self.len(), self.bytes_size() - ALIGN, ptr) }
    }
    fn new_from_memory(ptr: &mut *mut u8) -> Self {
        let n = usize::new_from_memory(ptr);
        if n == 0 {
            return vec![];
        }
        unsafe {
            let v = Vec::from_raw_parts(*ptr as *mut T, n, n);
            *ptr = ptr.add((n * std::mem::size_of::<T>()).next_multiple_of(ALIGN));
            v
        }
    }
    fn discard_control_of_shared_mem(self) {
        std::mem::forget(self)
    }
}
impl<A: MPISharedMemory, B: MPISharedMemory> MPISharedMemory for (A, B) {
    fn bytes_size(&self) -> usize {
        self.0.bytes_size() + self.1.bytes_size()
    }
    fn to_memory(&self, ptr: &mut *mut u8) {
        self.0.to_memory(ptr);
        self.1.to_memory(ptr);
    }
    fn new_from_memory(ptr: &mut *mut u8) -> Self {
        (A::new_from_memory(ptr), B::new_from_memory(ptr))
    }
    fn discard_control_of_shared_mem(self) {
        self.0.discard_control_of_shared_mem();
        self.1.discard_control_of_shared_mem();
    }
}
