//! Client requests to valgrind's memcheck: secrets are marked "undefined", and memcheck reports every
//! conditional jump, address or system call that depends on them.
use mon::{fail, Case, Res};
use std::arch::asm;

fn request(code: usize, a: usize, b: usize, c: usize) -> usize {
    let args = [code, a, b, c, 0, 0];
    let mut r = 0usize;
    unsafe {
        asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            in("rax") args.as_ptr(), inout("rdx") r, inout("rdi") 0usize => _,
        );
    }
    r
}

const MC: usize = ((b'M' as usize) << 24) | ((b'C' as usize) << 16);

pub fn secret(x: &mut [u8]) {
    if !x.is_empty() {
        request(MC + 1, x.as_mut_ptr() as usize, x.len(), 0);
    }
}

pub fn public(x: &mut [u8]) {
    if !x.is_empty() {
        request(MC + 2, x.as_mut_ptr() as usize, x.len(), 0);
    }
}

/// How many of the bytes depend on a secret, as far as memcheck knows.
pub fn tainted(x: &[u8]) -> u64 {
    let mut v = vec![0u8; x.len()];
    request(MC + 8, x.as_ptr() as usize, v.as_mut_ptr() as usize, x.len());
    public(&mut v);
    v.iter().filter(|b| **b != 0).count() as u64
}

fn errors() -> usize {
    request(0x1201, 0, 0, 0)
}

pub fn under_valgrind() -> bool {
    request(0x1001, 0, 0, 0) != 0
}

/// The monitor itself is tried in every case: a branch and an index that do depend on a secret are seen.
pub fn control(c: &mut Case) -> Res {
    let mut x = [c.rng.below(256) as u8; 4];
    secret(&mut x);
    let x = std::hint::black_box(x);
    let n = errors();
    if x[0] == 7 {
        std::hint::black_box(n);
    }
    let m = errors();
    let t = std::hint::black_box([1u8; 256]);
    std::hint::black_box(t[x[1] as usize]);
    let k = errors();
    if m > n && k > m {
        c.count("leaks of the control recognised", 1);
    }
    Ok(())
}

/// Run code under test; it must not branch on, or index memory by, anything secret.
pub fn watch<T>(c: &mut Case, what: &'static str, f: impl FnOnce() -> T) -> Res<T> {
    let n = errors();
    let r = f();
    let k = errors() - n;
    c.count("operations watched", 1);
    if k > 0 {
        return fail(format!("secret-dependent/{}", what), format!("{} branches or addresses depended on a secret in: {}", k, what));
    }
    Ok(std::hint::black_box(r))
}
