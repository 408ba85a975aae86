//! Maps which hash quickly.

use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fast(u64);

impl Fast {
    fn add(&mut self, n: u64) {
        self.0 = (self.0.rotate_left(5) ^ n).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
}

impl Hasher for Fast {
    fn write(&mut self, bytes: &[u8]) {
        for part in bytes.chunks(8) {
            let mut n = [0; 8];
            n[..part.len()].copy_from_slice(part);
            self.add(u64::from_le_bytes(n));
        }
    }
    fn write_u8(&mut self, n: u8) {
        self.add(n as u64);
    }
    fn write_u32(&mut self, n: u32) {
        self.add(n as u64);
    }
    fn write_u64(&mut self, n: u64) {
        self.add(n);
    }
    fn write_usize(&mut self, n: usize) {
        self.add(n as u64);
    }
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
}

pub type HashMap<K, V> = std::collections::HashMap<K, V, BuildHasherDefault<Fast>>;
pub type HashSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fast>>;
