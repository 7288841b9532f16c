//! Process-wide state of the library under test.
//!
//! A run stands for a process that starts, works and ends. The writable statics of the library (there are none
//! today) are put back to their initial bytes before every run and before every reference operation, so no run
//! sees what another left behind and a replay in a new process meets the same state.

use std::sync::OnceLock;

/// found by name in the symbol table; the difference to its address is the load bias
#[no_mangle]
#[used]
pub static IOSIM_ANCHOR: u64 = 0x10_51;

struct Saved {
    at: *mut u8,
    bytes: Vec<u8>,
}
unsafe impl Send for Saved {}
unsafe impl Sync for Saved {}

static SAVED: OnceLock<Vec<Saved>> = OnceLock::new();

fn rd<const N: usize>(b: &[u8], at: usize) -> Option<u64> {
    let s = b.get(at..at + N)?;
    Some(s.iter().rev().fold(0u64, |v, x| v << 8 | *x as u64))
}

fn name(b: &[u8], at: usize) -> &[u8] {
    let t = b.get(at..).unwrap_or(&[]);
    &t[..t.iter().position(|c| *c == 0).unwrap_or(t.len())]
}

fn has(n: &[u8], part: &[u8]) -> bool {
    n.windows(part.len()).any(|w| w == part)
}

fn find() -> Option<Vec<Saved>> {
    let b = std::fs::read("/proc/self/exe").ok()?;
    let shoff = rd::<8>(&b, 0x28)? as usize;
    let shentsize = rd::<2>(&b, 0x3a)? as usize;
    let shnum = rd::<2>(&b, 0x3c)? as usize;
    let shstr = rd::<2>(&b, 0x3e)? as usize;
    let sh = |i: usize, off: usize| rd::<8>(&b, shoff + i * shentsize + off).map(|x| x as usize);
    let sh4 = |i: usize, off: usize| rd::<4>(&b, shoff + i * shentsize + off).map(|x| x as usize);
    let names = sh(shstr, 0x18)?;
    // .data and .bss only: everything else that is writable in the file is made read-only at start
    let mut plain = vec![false; shnum];
    for i in 0..shnum {
        let n = name(&b, names + sh4(i, 0)?);
        plain[i] = n == b".data" || n == b".bss" || n.starts_with(b".data.") && !n.starts_with(b".data.rel.ro") || n.starts_with(b".bss.");
    }
    let mut syms = Vec::new();
    let mut bias = None;
    for i in 0..shnum {
        if sh4(i, 4)? != 2 {
            continue;
        }
        let (off, size, link) = (sh(i, 0x18)?, sh(i, 0x20)?, sh4(i, 0x28)?);
        let strs = sh(link, 0x18)?;
        for k in 0..size / 24 {
            let s = off + k * 24;
            let n = name(&b, strs + rd::<4>(&b, s)? as usize);
            let (info, ndx, val, len) = (b[s + 4] & 15, rd::<2>(&b, s + 6)? as usize, rd::<8>(&b, s + 8)?, rd::<8>(&b, s + 16)? as usize);
            if n == b"IOSIM_ANCHOR" {
                bias = Some((&IOSIM_ANCHOR as *const u64 as u64).wrapping_sub(val));
            }
            if info == 1 && len > 0 && ndx < shnum && plain[ndx] && (has(n, b"9i_overlay") || has(n, b"13i_overlay_seq")) {
                syms.push((val, len));
            }
        }
    }
    let bias = bias?;
    Some(
        syms.into_iter()
            .map(|(v, len)| {
                let at = v.wrapping_add(bias) as *mut u8;
                Saved { at, bytes: unsafe { std::slice::from_raw_parts(at, len) }.to_vec() }
            })
            .collect(),
    )
}

/// to be called before the library runs for the first time
pub fn save() {
    SAVED.get_or_init(|| find().unwrap_or_default());
}

pub fn count() -> usize {
    SAVED.get().map(|v| v.len()).unwrap_or(0)
}

/// the state of a process that has just started; only between runs
pub fn restore() {
    for s in SAVED.get().map(|v| v.as_slice()).unwrap_or(&[]) {
        unsafe { std::ptr::copy_nonoverlapping(s.bytes.as_ptr(), s.at, s.bytes.len()) };
    }
}
