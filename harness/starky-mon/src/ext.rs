//! Access to the coefficients of extension elements, and reference polynomial transforms.
use common::{gl, P};
use starky::f3g::F3G;
use starky::f5g::F5G;
use starky::traits::FieldExtension;

pub trait Coeffs: FieldExtension {
    const NAME: &'static str;
    const N: usize;
    fn coeffs(&self) -> Vec<u64>;
    fn make(c: &[u64]) -> Self {
        if c[1..].iter().all(|x| *x == 0) {
            Self::from(crate::fe(c[0]))
        } else {
            Self::from_vec(crate::fes(c))
        }
    }
}
impl Coeffs for F3G {
    const NAME: &'static str = "F3G";
    const N: usize = 3;
    fn coeffs(&self) -> Vec<u64> {
        self.cube.iter().map(crate::val).collect()
    }
}
impl Coeffs for F5G {
    const NAME: &'static str = "F5G";
    const N: usize = 5;
    fn coeffs(&self) -> Vec<u64> {
        self.cube.iter().map(crate::val).collect()
    }
}

/// the defining sums: out[i] = sum_j a[j] w^(ij)
pub fn dft_naive(a: &[u64], w: u64) -> Vec<u64> {
    (0..a.len())
        .map(|i| {
            let x = gl::pow(w, i as u64);
            a.iter().rev().fold(0, |s, c| gl::add(gl::mul(s, x), *c))
        })
        .collect()
}
/// the same by splitting into even and odd coefficients (checked against dft_naive by the monitors)
pub fn dft(a: &[u64], w: u64) -> Vec<u64> {
    let n = a.len();
    if n == 1 {
        return a.to_vec();
    }
    let w2 = gl::mul(w, w);
    let e = dft(&a.iter().step_by(2).copied().collect::<Vec<_>>(), w2);
    let o = dft(&a.iter().skip(1).step_by(2).copied().collect::<Vec<_>>(), w2);
    let mut r = vec![0; n];
    let mut x = 1;
    for i in 0..n / 2 {
        let t = gl::mul(x, o[i]);
        r[i] = gl::add(e[i], t);
        r[i + n / 2] = gl::sub(e[i], t);
        x = gl::mul(x, w);
    }
    r
}
pub fn idft(a: &[u64], w: u64) -> Vec<u64> {
    let k = gl::inv(a.len() as u64 % P);
    dft(a, gl::inv(w)).iter().map(|x| gl::mul(*x, k)).collect()
}
/// values on shift*<w_big> of the polynomial with the given values on <w>
pub fn lde(a: &[u64], bits: usize, ext: usize, shift: u64) -> Vec<u64> {
    let mut c = idft(a, gl::root(bits));
    let mut s = 1;
    for x in c.iter_mut() {
        *x = gl::mul(*x, s);
        s = gl::mul(s, shift);
    }
    c.resize(1 << ext, 0);
    dft(&c, gl::root(ext))
}

/// the cubic extension, x^3 = x + 1
pub mod cubic {
    use common::gl;
    pub type E = [u64; 3];
    pub fn add(a: &E, b: &E) -> E {
        [gl::add(a[0], b[0]), gl::add(a[1], b[1]), gl::add(a[2], b[2])]
    }
    pub fn sub(a: &E, b: &E) -> E {
        [gl::sub(a[0], b[0]), gl::sub(a[1], b[1]), gl::sub(a[2], b[2])]
    }
    pub fn mul(a: &E, b: &E) -> E {
        let mut t = [0u64; 5];
        for i in 0..3 {
            for j in 0..3 {
                t[i + j] = gl::add(t[i + j], gl::mul(a[i], b[j]));
            }
        }
        [gl::add(t[0], t[3]), gl::add(gl::add(t[1], t[3]), t[4]), gl::add(t[2], t[4])]
    }
    pub fn base(x: u64) -> E {
        [x, 0, 0]
    }
    pub fn scale(a: &E, k: u64) -> E {
        [gl::mul(a[0], k), gl::mul(a[1], k), gl::mul(a[2], k)]
    }
}
