//! Edge counters of an instrumented build (rustc -Cpasses=sancov-module, inline 8-bit counters). Without
//! instrumentation no module registers its counters and `available` is false.

use std::sync::Mutex;

static REGIONS: Mutex<Vec<(usize, usize)>> = Mutex::new(Vec::new());

#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    let (a, b) = (start as usize, stop as usize);
    if a >= b {
        return;
    }
    if let Ok(mut r) = REGIONS.lock() {
        if !r.contains(&(a, b)) {
            r.push((a, b));
        }
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_pcs_init(_start: *const usize, _stop: *const usize) {}

pub fn available() -> bool {
    !REGIONS.lock().unwrap().is_empty()
}

pub struct Map {
    regions: Vec<(usize, usize)>,
    seen: Vec<u8>,
}

impl Map {
    pub fn new() -> Self {
        let regions = REGIONS.lock().unwrap().clone();
        let n = regions.iter().map(|(a, b)| b - a).sum();
        Map {
            regions,
            seen: vec![0; n],
        }
    }
    pub fn reset(&mut self) {
        for (a, b) in &self.regions {
            unsafe { std::ptr::write_bytes(*a as *mut u8, 0, b - a) };
        }
    }
    /// true if an edge reached a new count class
    pub fn absorb(&mut self) -> bool {
        let mut new = false;
        let mut i = 0;
        for (a, b) in &self.regions {
            for p in *a..*b {
                let c = unsafe { std::ptr::read(p as *const u8) };
                if c != 0 {
                    let class = match c {
                        1 => 1,
                        2 => 2,
                        3 => 4,
                        4..=7 => 8,
                        8..=15 => 16,
                        16..=31 => 32,
                        32..=127 => 64,
                        _ => 128,
                    };
                    if self.seen[i] & class == 0 {
                        self.seen[i] |= class;
                        new = true;
                    }
                }
                i += 1;
            }
        }
        new
    }
    pub fn edges(&self) -> usize {
        self.seen.iter().filter(|x| **x != 0).count()
    }
}
