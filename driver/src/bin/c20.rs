use num::complex::Complex64;
use num::Zero;
use std::fmt::Display;
use tclifford::algebra::{ClAlgebra, ClAlgebraBase};
use tclifford::{Multivector, SparseMultivector};
use vdriver::*;

tclifford::declare_algebra!(pub N1, [-], ["i"]);
tclifford::declare_algebra!(pub N3, [+, -, 0], ["x", "xx", "y"]);
tclifford::declare_algebra!(pub N4, [+, -, -, -], ["t", "x", "y", "z"]);
tclifford::declare_algebra!(pub N7, [+, -, +, -, +, 0, 0], ["a", "b1", "b", "dd", "e^f", "", "g h"]);

/// the generator names of an algebra, as declared
fn names(given: &[&str], d: usize) -> Vec<String> {
    if given.is_empty() {
        (0..d).map(|i| format!("e{i}")).collect()
    } else {
        given.iter().map(|s| s.to_string()).collect()
    }
}

fn label(names: &[String], idx: usize, ascending: bool) -> String {
    let mut l = vec![];
    for (i, n) in names.iter().enumerate() {
        if (idx >> i) & 1 == 1 {
            l.push(n.clone());
        }
    }
    if !ascending {
        l.reverse();
    }
    l.join("^")
}

/// the sign of reversal of a blade
fn revneg(idx: usize) -> bool {
    matches!(idx.count_ones() % 4, 2 | 3)
}

struct Want {
    terms: Vec<String>,
    zero: String,
}

impl Want {
    fn check(&self, text: &str, what: &str) -> R {
        if self.terms.is_empty() {
            chk_eq!(text, self.zero.as_str(), "{what}: zero");
            return Ok(());
        }
        let mut got: Vec<&str> = text.split(" + ").collect();
        got.sort();
        let mut want: Vec<&str> = self.terms.iter().map(|s| s.as_str()).collect();
        want.sort();
        chk_eq!(got, want, "{what} terms of {text:?}");
        Ok(())
    }
}

/// `$plain` is the form in which signs are looked for, `$full` the requested form
macro_rules! check_form {
    ($m:expr, $ra:expr, $names:expr, $full:literal, $plain:literal, $alt:literal, $plus:literal, $what:expr) => {{
        let mut terms = vec![];
        for (i, c) in $ra.iter() {
            if c.is_zero() {
                continue;
            }
            let c = if $alt && revneg(*i) { -c.clone() } else { c.clone() };
            let body = format!($full, c);
            let mut t = if $plus || format!($plain, c).contains(['+', '-']) { format!("({body})") } else { body };
            let l = label($names, *i, $alt);
            if !l.is_empty() {
                t.push(' ');
                t.push_str(&l);
            }
            terms.push(t);
        }
        let w = Want { terms, zero: zero_text(&$ra, |c| format!($full, c)) };
        w.check(&format!($full, $m), &format!("{} {:?} of {:?}", $what, $full, $ra))?;
    }};
}

fn zero_text<T: Zero>(_: &[(usize, T)], f: impl Fn(T) -> String) -> String {
    f(T::zero())
}

macro_rules! all_forms {
    ($m:expr, $ra:expr, $names:expr, $what:expr) => {{
        check_form!($m, $ra, $names, "{}", "{}", false, false, $what);
        check_form!($m, $ra, $names, "{:#}", "{}", true, false, $what);
        check_form!($m, $ra, $names, "{:+}", "{}", false, true, $what);
        check_form!($m, $ra, $names, "{:#.2}", "{}", true, false, $what);
        check_form!($m, $ra, $names, "{:+.3}", "{}", false, true, $what);
        check_form!($m, $ra, $names, "{:9}", "{}", false, false, $what);
        check_form!($m, $ra, $names, "{:e}", "{:e}", false, false, $what);
        check_form!($m, $ra, $names, "{:#e}", "{:e}", true, false, $what);
        check_form!($m, $ra, $names, "{:+.1e}", "{:e}", false, true, $what);
        check_form!($m, $ra, $names, "{:E}", "{:E}", false, false, $what);
        check_form!($m, $ra, $names, "{:#E}", "{:E}", true, false, $what);
        check_form!($m, $ra, $names, "{:+E}", "{:E}", false, true, $what);
    }};
}

fn real(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => 0.0,
        1 => 1.0,
        2 => -1.0,
        3 => r.int(-9, 9) as f64 * 1e-5,
        4 => r.int(-9, 9) as f64 * 1e9,
        5 => r.int(-40, 40) as f64 / 8.0,
        _ => r.int(-9, 9) as f64,
    }
}
fn cplx(r: &mut Rng) -> Complex64 {
    Complex64::new(real(r), if r.chance(1, 3) { 0.0 } else { real(r) })
}

fn pairs<T: Zero + Clone>(r: &mut Rng, d: usize, c: impl Fn(&mut Rng) -> T) -> Vec<(usize, T)> {
    let mut m = std::collections::BTreeMap::new();
    let n = match r.below(8) {
        0 => 0,
        1 => 1,
        _ => 1 + r.below(if d <= 3 { 1 << d } else { 9 }),
    };
    for _ in 0..n {
        m.insert(r.idx(d), c(r));
    }
    m.into_iter().collect()
}

macro_rules! suite {
    ($run:ident, $a:ident, $name:expr, $d:expr, $given:expr) => {{
        let d: usize = $d;
        let given: &[&str] = $given;
        let nm = names(given, d);
        let name: &str = $name;
        $run.group(&format!("labels {name}"), 1, |r, _| {
            for (i, n) in nm.iter().enumerate() {
                chk_eq!(&$a::axis_name(i), n, "{name} generator {i}");
            }
            let k = if d <= 8 { 1usize << d } else { 400 };
            for k in 0..k {
                let i = if d <= 8 { k } else { r.idx(d) };
                chk_eq!($a::blade_label(i), label(&nm, i, false), "{name} label of {i:#b}");
                chk_eq!($a::blade_label_rev(i), label(&nm, i, true), "{name} reversed label of {i:#b}");
            }
            Ok(())
        });
        $run.group(&format!("sparse real {name}"), 12, |r, _| {
            let ra = pairs(r, d, real);
            let m = SparseMultivector::<f64, $a>::from_indexed_iter(ra.clone().into_iter()).map_err(|e| format!("{e:?}"))?;
            all_forms!(m, ra, &nm, format!("{name} sparse f64"));
            Ok(())
        });
        $run.group(&format!("sparse complex {name}"), 12, |r, _| {
            let ra = pairs(r, d, cplx);
            let m = SparseMultivector::<Complex64, $a>::from_indexed_iter(ra.clone().into_iter()).map_err(|e| format!("{e:?}"))?;
            all_forms!(m, ra, &nm, format!("{name} sparse complex"));
            Ok(())
        });
        $run.group(&format!("sparse integer {name}"), 12, |r, _| {
            let ra = pairs(r, d, |r| r.int(-30, 30));
            let m = SparseMultivector::<i64, $a>::from_indexed_iter(ra.clone().into_iter()).map_err(|e| format!("{e:?}"))?;
            all_forms!(m, ra, &nm, format!("{name} sparse i64"));
            Ok(())
        });
        if d <= 9 {
            $run.group(&format!("dense real {name}"), 12, |r, _| {
                let ra = pairs(r, d, real);
                let m = Multivector::<f64, $a>::from_indexed_iter(ra.clone().into_iter()).map_err(|e| format!("{e:?}"))?;
                all_forms!(m, ra, &nm, format!("{name} dense f64"));
                Ok(())
            });
            $run.group(&format!("dense complex {name}"), 12, |r, _| {
                let ra = pairs(r, d, cplx);
                let m = Multivector::<Complex64, $a>::from_indexed_iter(ra.clone().into_iter()).map_err(|e| format!("{e:?}"))?;
                all_forms!(m, ra, &nm, format!("{name} dense complex"));
                Ok(())
            });
            $run.group(&format!("dense integer {name}"), 12, |r, _| {
                let ra = pairs(r, d, |r| r.int(-30, 30));
                let m = Multivector::<i64, $a>::from_indexed_iter(ra.clone().into_iter()).map_err(|e| format!("{e:?}"))?;
                all_forms!(m, ra, &nm, format!("{name} dense i64"));
                Ok(())
            });
        }
    }};
}

fn shown(x: &dyn Display) -> String {
    format!("{x}")
}

fn main() {
    let mut run = Run::from_args("C20");
    suite!(run, N1, "N1", 1, &["i"]);
    suite!(run, N3, "N3", 3, &["x", "xx", "y"]);
    suite!(run, N4, "N4", 4, &["t", "x", "y", "z"]);
    suite!(run, N7, "N7", 7, &["a", "b1", "b", "dd", "e^f", "", "g h"]);
    macro_rules! m {
        ($a:ident) => {
            suite!(run, $a, $a::NAME, $a::d(), &[]);
        };
    }
    for_algs!(some, m);
    for_algs!(big, m);
    run.group("zero", 1, |_, _| {
        chk_eq!(shown(&Multivector::<f64, A4st>::default()), "0".to_string(), "dense zero");
        chk_eq!(shown(&SparseMultivector::<f64, A4st>::default()), "0".to_string(), "sparse zero");
        chk_eq!(shown(&SparseMultivector::<i64, A4st>::default()), "0".to_string(), "sparse integer zero");
        Ok(())
    });
    run.finish();
}
