//! The sizes swept by the size families: every small one, and the neighbourhood of every round
//! number up to `max`.
pub fn sizes(dense: usize, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=dense.min(max)).collect();
    let mut around = |n: usize| {
        for d in -2i64..=2 {
            let x = n as i64 + d;
            if x >= 0 && x as usize <= max {
                v.push(x as usize);
            }
        }
    };
    let mut p = 1usize;
    while p <= max {
        around(p);
        around(p * 3 / 2);
        p *= 2;
    }
    let mut p = 10usize;
    while p <= max {
        for k in [1, 2, 3, 5] {
            around(p * k);
        }
        p *= 10;
    }
    for k in [1000, 1024, 4096, 8192, 32768, 65536] {
        for m in 1..=4 {
            around(k * m);
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}

pub fn rep(s: &str, n: usize) -> String {
    s.repeat(n)
}
