//! The documented expression language: AST, reference evaluation, rendering.

use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Ex {
    /// value and the way it is written
    Num(i64, u8),
    Var(String),
    Arr(String, Box<Ex>),
    Un(char, Box<Ex>),
    Bin(String, Box<Ex>, Box<Ex>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum EvErr {
    Overflow,
    DivZero,
    BadShift,
    NegIndex,
}

pub struct Env<'a> {
    pub var: &'a dyn Fn(&str) -> i64,
    pub arr: &'a dyn Fn(&str, i64) -> i64,
}

pub fn prec(op: &str) -> u32 {
    match op {
        "*" | "/" | "%" => 10,
        "+" | "-" => 9,
        "<<" | ">>" => 8,
        "<" | ">" | "<=" | ">=" => 7,
        "&" => 5,
        "^" => 4,
        "|" => 3,
        _ => unreachable!(),
    }
}

pub fn eval(e: &Ex, env: &Env) -> Result<i64, EvErr> {
    use EvErr::*;
    Ok(match e {
        Ex::Num(v, _) => *v,
        Ex::Var(v) => (env.var)(v),
        Ex::Arr(v, i) => {
            let i = eval(i, env)?;
            if i < 0 {
                return Err(NegIndex);
            }
            (env.arr)(v, i)
        }
        Ex::Un(c, x) => {
            let x = eval(x, env)?;
            match c {
                '+' => x,
                '-' => x.checked_neg().ok_or(Overflow)?,
                '~' => !x,
                _ => unreachable!(),
            }
        }
        Ex::Bin(op, a, b) => {
            let a = eval(a, env)?;
            let b = eval(b, env)?;
            match op.as_str() {
                "+" => a.checked_add(b).ok_or(Overflow)?,
                "-" => a.checked_sub(b).ok_or(Overflow)?,
                "*" => a.checked_mul(b).ok_or(Overflow)?,
                "/" | "%" if b == 0 => return Err(DivZero),
                "/" => a.checked_div(b).ok_or(Overflow)?,
                "%" => a.checked_rem(b).ok_or(Overflow)?,
                "<<" | ">>" => {
                    // a negative amount shifts the other way round
                    if !(-63..64).contains(&b) {
                        return Err(BadShift);
                    }
                    let left = if op == "<<" { b } else { -b };
                    if left < 0 {
                        a >> -left
                    } else {
                        i64::try_from((a as i128) << left).map_err(|_| Overflow)?
                    }
                }
                "&" => a & b,
                "|" => a | b,
                "^" => a ^ b,
                // comparisons are documented on differences; operands too far apart are outside the domain
                "<" | ">" | "<=" | ">=" if (a as i128 - b as i128).abs() >= i64::MAX as i128 => {
                    return Err(Overflow)
                }
                "<" => (a < b) as i64,
                ">" => (a > b) as i64,
                "<=" => (a <= b) as i64,
                ">=" => (a >= b) as i64,
                _ => unreachable!(),
            }
        }
    })
}

pub fn num(v: i64, style: u8) -> String {
    // callers only pass v >= 0; negative numbers are written with a unary minus
    assert!(v >= 0);
    let us = |s: String| {
        // one '_' in the middle
        let n = s.len();
        if n >= 3 {
            format!("{}_{}", &s[..n - 2], &s[n - 2..])
        } else {
            s
        }
    };
    let scaled = |base: i64, suf: &str, p: u32| {
        let m = base.pow(p);
        if v != 0 && v % m == 0 {
            Some(format!("{}{}", v / m, suf))
        } else {
            None
        }
    };
    let dec = || if v == 0 { "0".to_string() } else { v.to_string() };
    match style % 16 {
        1 => format!("0x{v:x}"),
        2 => format!("0x{v:X}"),
        3 => format!("0b{v:b}"),
        4 => format!("0o{v:o}"),
        5 => format!("0d{v}"),
        6 => format!("0{v:o}"),
        7 => us(dec()),
        8 => format!("0x{}", us(format!("{v:x}"))),
        9 => scaled(1024, "Ei", 6).or_else(|| scaled(1024, "Ti", 4)).or_else(|| scaled(1024, "Gi", 3)).or_else(|| scaled(1024, "Mi", 2)).or_else(|| scaled(1024, "ki", 1)).unwrap_or_else(dec),
        10 => scaled(1000, "E", 6).or_else(|| scaled(1000, "T", 4)).or_else(|| scaled(1000, "G", 3)).or_else(|| scaled(1000, "M", 2)).or_else(|| scaled(1000, "k", 1)).unwrap_or_else(dec),
        11 => scaled(1024, "ki", 1).unwrap_or_else(dec),
        12 => scaled(1000, "k", 1).unwrap_or_else(dec),
        13 => format!("0X{v:x}"),
        14 => format!("0x{v:04x}"),
        _ => dec(),
    }
}

/// `sp`: a seed deciding whitespace and redundant parentheses
pub fn render(e: &Ex, sp: &mut u64) -> String {
    let ws = |sp: &mut u64| match crate::util::mix(sp) % 5 {
        0 => " ",
        1 => "  ",
        _ => "",
    };
    let red = |sp: &mut u64| crate::util::mix(sp) % 9 == 0;
    let atom = |x: &Ex, sp: &mut u64| -> String {
        match x {
            Ex::Num(v, _) if *v < 0 => format!("({})", render(x, sp)),
            Ex::Num(..) | Ex::Var(_) | Ex::Arr(..) => {
                let s = render(x, sp);
                if red(sp) && !s.starts_with('(') {
                    format!("({s})")
                } else {
                    s
                }
            }
            _ => format!("({}{}{})", ws(sp), render(x, sp), ws(sp)),
        }
    };
    match e {
        Ex::Num(v, st) => {
            if *v < 0 {
                format!("-{}", num(v.checked_neg().expect("i64::MIN is never generated"), *st))
            } else {
                num(*v, *st)
            }
        }
        Ex::Var(v) => v.clone(),
        Ex::Arr(v, i) => format!("{v}[{}{}{}]", ws(sp), render(i, sp), ws(sp)),
        Ex::Un(c, x) => format!("{c}{}{}", ws(sp), atom(x, sp)),
        Ex::Bin(op, a, b) => {
            let side = |x: &Ex, right: bool, sp: &mut u64| -> String {
                match x {
                    Ex::Bin(o, ..) => {
                        let need = prec(o) < prec(op) || (right && prec(o) == prec(op));
                        if need || red(sp) {
                            format!("({})", render(x, sp))
                        } else {
                            render(x, sp)
                        }
                    }
                    Ex::Un(..) if right => atom(x, sp),
                    Ex::Num(v, _) if *v < 0 && right => atom(x, sp),
                    Ex::Un(..) => render(x, sp),
                    _ => atom_or(x, &atom, sp),
                }
            };
            let l = side(a, false, sp);
            let w1 = ws(sp);
            let w2 = ws(sp);
            let r = side(b, true, sp);
            format!("{l}{w1}{op}{w2}{r}")
        }
    }
}

fn atom_or(x: &Ex, atom: &dyn Fn(&Ex, &mut u64) -> String, sp: &mut u64) -> String {
    atom(x, sp)
}

pub fn ops(e: &Ex) -> usize {
    match e {
        Ex::Num(..) | Ex::Var(_) => 0,
        Ex::Arr(_, i) => 1 + ops(i),
        Ex::Un(_, x) => 1 + ops(x),
        Ex::Bin(_, a, b) => 1 + ops(a) + ops(b),
    }
}

pub fn any_node(e: &Ex, f: &dyn Fn(&Ex) -> bool) -> bool {
    f(e)
        || match e {
            Ex::Num(..) | Ex::Var(_) => false,
            Ex::Arr(_, i) => any_node(i, f),
            Ex::Un(_, x) => any_node(x, f),
            Ex::Bin(_, a, b) => any_node(a, f) || any_node(b, f),
        }
}

pub fn num_strat() -> BoxedStrategy<Ex> {
    prop_oneof![
        6 => (0i64..20, 0u8..16).prop_map(|(v, s)| Ex::Num(v, s)),
        2 => (0i64..300, 0u8..16).prop_map(|(v, s)| Ex::Num(v, s)),
        1 => (0i64..70000, 0u8..16).prop_map(|(v, s)| Ex::Num(v, s)),
        1 => (0i64..(1 << 40), 0u8..16).prop_map(|(v, s)| Ex::Num(v, s)),
        1 => ((0u32..62), 0u8..16).prop_map(|(v, s)| Ex::Num(1i64 << v, s)),
        1 => ((1i64..8), prop::sample::select(vec![4u32, 6]), any::<bool>(), 9u8..11).prop_map(|(v, p, b, s)| Ex::Num(v * if b { 1024i64 } else { 1000 }.pow(p), s)),
        1 => ((1i64..50), 1u32..4, any::<bool>(), 9u8..13).prop_map(|(v, p, b, s)| Ex::Num(v * if b { 1024i64 } else { 1000 }.pow(p), s)),
        1 => (-20i64..0, 0u8..16).prop_map(|(v, s)| Ex::Num(v, s)),
        1 => (prop::sample::select(vec![31i64, 32, 33, 40, 47, 62, 63, 64, -31, -32, -33, -40, -47, -62, -63, -64]), 0u8..16).prop_map(|(v, s)| Ex::Num(v, s)),
    ]
    .boxed()
}

pub const OPS: [&str; 14] = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", ">", "<=", ">="];

/// long chains and deep nests
pub fn long_strat(leaf: BoxedStrategy<Ex>) -> BoxedStrategy<Ex> {
    let op = prop_oneof![8 => prop::sample::select(vec!["+", "-", "&", "|", "^"]), 1 => prop::sample::select(vec!["*", "/", "%", "<<", ">>", "<", ">", "<=", ">="])];
    let side = prop_oneof![6 => Just(0u8), 3 => Just(1u8), 1 => Just(2u8)];
    (leaf.clone(), prop_oneof![3 => 5usize..40, 2 => 40usize..300])
        .prop_flat_map(move |(x, n)| (Just(x), prop::collection::vec((op.clone(), leaf.clone(), side.clone(), prop::sample::select(vec!['-', '+', '~'])), n / 2..n)))
        .prop_map(|(x, v)| {
            v.into_iter().fold(x, |a, (o, l, side, u)| match side {
                0 => Ex::Bin(o.into(), Box::new(a), Box::new(l)),
                1 => Ex::Bin(o.into(), Box::new(l), Box::new(a)),
                _ => Ex::Un(u, Box::new(a)),
            })
        })
        .boxed()
}

pub fn strat(leaf: BoxedStrategy<Ex>, arrs: Vec<&'static str>) -> BoxedStrategy<Ex> {
    leaf.prop_recursive(4, 20, 2, move |inner| {
        let bin = (
            prop_oneof![6 => 0usize..5, 5 => 5usize..8, 3 => 8usize..10, 3 => 10usize..14],
            inner.clone(),
            inner.clone(),
        )
            .prop_map(|(o, a, b)| Ex::Bin(OPS[o].to_string(), Box::new(a), Box::new(b)))
            .boxed();
        let un = (prop::sample::select(vec!['-', '+', '~']), inner.clone()).prop_map(|(c, x)| Ex::Un(c, Box::new(x))).boxed();
        if arrs.is_empty() {
            prop_oneof![7 => bin, 2 => un].boxed()
        } else {
            let arrs = arrs.clone();
            let ar = (prop::sample::select(arrs), inner.clone()).prop_map(|(a, i)| Ex::Arr(a.to_string(), Box::new(i))).boxed();
            prop_oneof![7 => bin, 2 => un, 2 => ar].boxed()
        }
    })
    .boxed()
}
