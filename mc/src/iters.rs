//! Every way a caller can drive an iterator, and iterators with every kind of size hint to drive callers.

use std::fmt::Debug;

/// Steps of a caller: `next`, `nth`, or a look at the size hint.
const STEPS: [Option<usize>; 6] = [None, Some(0), Some(1), Some(2), Some(7), Some(1 << 20)];

/// Runs every sequence of up to `depth` steps, each followed by every way to consume the rest, on fresh iterators
/// from `make`, which must stand for `want`. The end must be final.
pub fn check_iter<T: PartialEq + Debug, I: Iterator<Item = T>>(depth: u32, make: impl Fn() -> I, want: &[T]) -> Result<u64, String> {
    let mut n = 0;
    for d in 0..=depth {
        for code in 0..STEPS.len().pow(d) {
            for end in 0..ENDS {
                let mut it = make();
                let mut pos = 0;
                let mut c = code;
                let mut path = vec![];
                for _ in 0..d {
                    let s = STEPS[c % STEPS.len()];
                    c /= STEPS.len();
                    let (lo, hi) = it.size_hint();
                    let left = want.len() - pos;
                    if lo > left || hi.map_or(false, |h| h < left) {
                        return Err(format!("size hint {:?} with {} values left, after {:?}", (lo, hi), left, path));
                    }
                    path.push(s);
                    let k = s.unwrap_or(0);
                    let got = match s {
                        None => it.next(),
                        Some(k) => it.nth(k),
                    };
                    let w = want.get(pos.saturating_add(k));
                    pos = want.len().min(pos.saturating_add(k) + 1);
                    if got.as_ref() != w {
                        return Err(format!("{:?} instead of {:?} after the steps {:?} (None: next, Some(k): nth(k))", got, w, path));
                    }
                    n += 1;
                }
                finish(it, &want[pos..], end).map_err(|e| format!("{}, after the steps {:?} (None: next, Some(k): nth(k))", e, path))?;
                n += 1;
            }
        }
    }
    Ok(n)
}

const ENDS: usize = 9;

fn same<'a, T: PartialEq + Debug + 'a>(what: &str, got: &[T], want: impl Iterator<Item = &'a T>) -> Result<(), String> {
    let w: Vec<&T> = want.collect();
    if got.len() == w.len() && got.iter().zip(&w).all(|(a, b)| a == *b) {
        Ok(())
    } else {
        Err(format!("{} gives {:?} instead of {:?}", what, got, w))
    }
}

fn finish<T: PartialEq + Debug, I: Iterator<Item = T>>(mut it: I, want: &[T], end: usize) -> Result<(), String> {
    match end {
        0 => same("collect", &it.collect::<Vec<T>>(), want.iter()),
        1 => same("step_by(2)", &it.step_by(2).collect::<Vec<T>>(), want.iter().step_by(2)),
        2 => same("skip(2)", &it.skip(2).collect::<Vec<T>>(), want.iter().skip(2)),
        3 => same(
            "fold",
            &it.fold(vec![], |mut v, x| {
                v.push(x);
                v
            }),
            want.iter(),
        ),
        4 => match it.count() {
            n if n == want.len() => Ok(()),
            n => Err(format!("count gives {} of {}", n, want.len())),
        },
        5 => match it.last() {
            x if x.as_ref() == want.last() => Ok(()),
            x => Err(format!("last gives {:?} instead of {:?}", x, want.last())),
        },
        6 => {
            same("take(1)", &it.by_ref().take(1).collect::<Vec<T>>(), want.iter().take(1))?;
            same("what take(1) leaves", &it.collect::<Vec<T>>(), want.iter().skip(1))
        }
        7 => {
            for w in want {
                let x = it.next();
                if x.as_ref() != Some(w) {
                    return Err(format!("next gives {:?} instead of {:?}", x, w));
                }
            }
            for _ in 0..3 {
                let h = it.size_hint().0;
                let x = it.next();
                if x.is_some() || h > 0 {
                    return Err(format!("{:?} after the end, size hint {}", x, h));
                }
            }
            match it.nth(0) {
                None => Ok(()),
                x => Err(format!("{:?} after the end", x)),
            }
        }
        _ => {
            let mut v = vec![];
            it.for_each(|x| v.push(x));
            same("for_each", &v, want.iter())
        }
    }
}

/// Yields the values of a list under a size hint of the given kind, all of them lawful.
#[derive(Clone, Debug)]
pub struct Feed<T> {
    v: std::vec::IntoIter<T>,
    hint: usize,
}

pub const HINTS: usize = 8;

pub fn feed<T>(v: Vec<T>, hint: usize) -> Feed<T> {
    Feed { v: v.into_iter(), hint }
}

impl<T> Iterator for Feed<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.v.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.v.len();
        match self.hint {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (0, Some(usize::MAX)),
            3 => (0, Some(n + 7)),
            4 => (n / 2, None),
            5 => (n.min(1), Some(2 * n + 1)),
            6 => (0, Some(n)),
            _ => (n, None),
        }
    }
}
