//! The `rand` crate, with a generator that can be made to give rare values.
pub use realrand::*;
#[derive(Clone, Debug)]
pub struct VRng(realrand::rngs::ThreadRng);
pub fn rng() -> VRng {
    VRng(realrand::rng())
}
impl RngCore for VRng {
    fn next_u32(&mut self) -> u32 {
        self.0.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.0.next_u64()
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        self.0.fill_bytes(b);
        if !vstd::world::active() {
            return;
        }
        // All bytes but a few at one end, which keep values distinct.
        if let Some((pat, front)) = vstd::world::w().rare {
            let n = b.len();
            if n > 6 {
                let r = if front { &mut b[..n - 6] } else { &mut b[6..] };
                for (i, x) in r.iter_mut().enumerate() {
                    *x = pat[i % 3];
                }
            }
        }
    }
}
impl CryptoRng for VRng {}
