//! Driver of the algebra library: reads one command per line, runs it on the real library
//! and prints what came out.  It decides nothing; the oracle is vlib/algsem.py.
use circom_algebra::algebra::{ArithmeticError, ArithmeticExpression, Constraint, Substitution};
use circom_algebra::constraint_storage::ConstraintStorage;
use circom_algebra::modular_arithmetic as ma;
use circom_algebra::num_bigint::BigInt;
use circom_algebra::simplification_utils as su;
use std::collections::{HashMap, HashSet, LinkedList};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

type A = ArithmeticExpression<usize>;
type C = Constraint<usize>;
type S = Substitution<usize>;

#[derive(Default)]
struct State {
    p: BigInt,
    e: HashMap<String, A>,
    c: HashMap<String, C>,
    s: HashMap<String, S>,
    st: Option<ConstraintStorage>,
}

fn big(t: &str) -> BigInt {
    BigInt::parse_bytes(t.as_bytes(), 10).unwrap()
}
fn map(t: &str) -> HashMap<usize, BigInt> {
    let mut m = HashMap::new();
    if t != "-" {
        for kv in t.split(',') {
            let (k, v) = kv.split_once(':').unwrap();
            m.insert(k.parse().unwrap(), big(v));
        }
    }
    m
}
fn umap(t: &str) -> Vec<(usize, usize)> {
    t.split(',').map(|kv| { let (k, v) = kv.split_once(':').unwrap(); (k.parse().unwrap(), v.parse().unwrap()) }).collect()
}
fn pm(m: &HashMap<usize, BigInt>) -> String {
    let mut ks: Vec<_> = m.keys().collect();
    ks.sort();
    if ks.is_empty() {
        return "-".into();
    }
    ks.iter().map(|k| format!("{}:{}", k, m[k])).collect::<Vec<_>>().join(",")
}
fn pe(e: &A) -> String {
    use ArithmeticExpression::*;
    match e {
        Number { value } => format!("N {}", value),
        Signal { symbol } => format!("S {}", symbol),
        Linear { coefficients } => format!("L {}", pm(coefficients)),
        Quadratic { a, b, c } => format!("Q {} {} {}", pm(a), pm(b), pm(c)),
        NonQuadratic => "X".into(),
    }
}
fn pc(c: &C) -> String {
    format!("C {} {} {}", pm(c.a()), pm(c.b()), pm(c.c()))
}
fn ps(s: &S) -> String {
    format!("T {} {}", s.from(), pm(s.to()))
}
fn pset<'a>(it: impl Iterator<Item = &'a usize>) -> String {
    let mut v: Vec<_> = it.cloned().collect();
    v.sort();
    format!("K {}", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}
fn perr(e: ArithmeticError) -> String {
    match e {
        ArithmeticError::DivisionByZero => "E div".into(),
        ArithmeticError::BitOverFlowInShift => "E shift".into(),
    }
}
/// a constraint with the given maps, made through the public interface
fn mkcons(a: HashMap<usize, BigInt>, b: HashMap<usize, BigInt>, c: HashMap<usize, BigInt>, p: &BigInt) -> C {
    let f = |mut m: HashMap<usize, BigInt>| { m.entry(0).or_insert_with(|| BigInt::from(0)); m };
    let (a, b, c) = (f(a), f(b), f(c));
    let mut q = A::transform_expression_to_constraint_form(A::Quadratic { a, b, c }, p).unwrap();
    C::remove_zero_value_coefficients(&mut q);
    q
}

fn step(st: &mut State, t: &[&str]) -> String {
    let p = st.p.clone();
    match t[0] {
        "field" => { st.p = big(t[1]); "ok".into() }
        "reset" => { let p = st.p.clone(); *st = State::default(); st.p = p; "ok".into() }
        "num" => { let e = A::Number { value: big(t[2]) }; let r = pe(&e); st.e.insert(t[1].into(), e); r }
        "sig" => { let e = A::Signal { symbol: t[2].parse().unwrap() }; let r = pe(&e); st.e.insert(t[1].into(), e); r }
        "lin" => { let e = A::hashmap_into_arith(map(t[2])); let r = pe(&e); st.e.insert(t[1].into(), e); r }
        "op" => {
            let (name, d, l) = (t[1], t[2], st.e[t[3]].clone());
            let r = st.e[t[if t.len() > 4 { 4 } else { 3 }]].clone();
            let out: Result<A, ArithmeticError> = match name {
                "add" => Ok(A::add(&l, &r, &p)),
                "sub" => Ok(A::sub(&l, &r, &p)),
                "mul" => Ok(A::mul(&l, &r, &p)),
                "div" => A::div(&l, &r, &p),
                "idiv" => A::idiv(&l, &r, &p),
                "mod" => A::mod_op(&l, &r, &p),
                "pow" => Ok(A::pow(&l, &r, &p)),
                "shl" => A::shift_l(&l, &r, &p),
                "shr" => A::shift_r(&l, &r, &p),
                "bor" => Ok(A::bit_or(&l, &r, &p)),
                "band" => Ok(A::bit_and(&l, &r, &p)),
                "bxor" => Ok(A::bit_xor(&l, &r, &p)),
                "or" => Ok(A::bool_or(&l, &r, &p)),
                "and" => Ok(A::bool_and(&l, &r, &p)),
                "eq" => Ok(A::eq(&l, &r, &p)),
                "neq" => Ok(A::not_eq(&l, &r, &p)),
                "lt" => Ok(A::lesser(&l, &r, &p)),
                "le" => Ok(A::lesser_eq(&l, &r, &p)),
                "gt" => Ok(A::greater(&l, &r, &p)),
                "ge" => Ok(A::greater_eq(&l, &r, &p)),
                "neg" => Ok(A::prefix_sub(&l, &p)),
                "not" => Ok(A::not(&l, &p)),
                "compl" => Ok(A::complement(&l, &p)),
                _ => panic!("driver: unknown operation"),
            };
            match out {
                Ok(e) => { let r = pe(&e); st.e.insert(d.into(), e); r }
                Err(x) => { st.e.insert(d.into(), A::NonQuadratic); perr(x) }
            }
        }
        "bool" => match A::get_boolean_equivalence(&st.e[t[1]], &p) { Some(b) => format!("B {}", b as u8), None => "none".into() },
        "multiinv" => {
            let v: Vec<BigInt> = t[1].split(',').map(big).collect();
            format!("V {}", ma::multi_inv(&v, &p).iter().take(v.len()).map(|x| x.to_string()).collect::<Vec<_>>().join(","))
        }
        "tocons" => match A::transform_expression_to_constraint_form(st.e[t[2]].clone(), &p) {
            Some(c) => { let r = pc(&c); st.c.insert(t[1].into(), c); r }
            None => "none".into(),
        },
        "mkcons" => { let c = mkcons(map(t[2]), map(t[3]), map(t[4]), &p); let r = pc(&c); st.c.insert(t[1].into(), c); r }
        "subnew" => match S::new(t[2].parse().unwrap(), st.e[t[3]].clone()) {
            Some(s) => { let r = ps(&s); st.s.insert(t[1].into(), s); r }
            None => "none".into(),
        },
        "appexpr" => { let s = st.s[t[2]].clone(); let e = st.e.get_mut(t[1]).unwrap(); A::apply_substitutions(e, &s, &p); pe(e) }
        "appcons" => { let s = st.s[t[2]].clone(); let c = st.c.get_mut(t[1]).unwrap(); C::apply_substitution(c, &s, &p); pc(c) }
        "appsub" => { let s = st.s[t[2]].clone(); let x = st.s.get_mut(t[1]).unwrap(); S::apply_substitution(x, &s, &p); ps(x) }
        "fix" => { let c = st.c.get_mut(t[1]).unwrap(); C::fix_constraint(c, &p); pc(c) }
        "rmzc" => { let c = st.c.get_mut(t[1]).unwrap(); C::remove_zero_value_coefficients(c); pc(c) }
        "rmzs" => { let s = st.s.get_mut(t[1]).unwrap(); S::rmv_zero_coefficients(s); ps(s) }
        "clear" => { let s = C::clear_signal_from_linear(st.c[t[2]].clone(), &t[3].parse().unwrap(), &p); let r = ps(&s); st.s.insert(t[1].into(), s); r }
        "clearnn" => {
            let (k, s) = C::clear_signal_from_linear_not_normalized(st.c[t[1]].clone(), &t[2].parse().unwrap(), &p);
            format!("U {} {} {}", k, s.from(), pm(s.to()))
        }
        "offc" => { let c = st.c[t[2]].apply_offset(t[3].parse().unwrap()); let r = pc(&c); st.c.insert(t[1].into(), c); r }
        "offs" => { let s = st.s[t[2]].apply_offset(t[3].parse().unwrap()); let r = ps(&s); st.s.insert(t[1].into(), s); r }
        "wit" => {
            let m = umap(t[3]);
            let mut v = vec![0; m.iter().map(|x| x.0).max().unwrap() + 1];
            for (a, b) in m { v[a] = b; }
            let c = st.c[t[2]].apply_witness(&v); let r = pc(&c); st.c.insert(t[1].into(), c); r
        }
        "corc" => { let m = umap(t[3]).into_iter().collect(); let c = C::apply_correspondence(&st.c[t[2]], &m); let r = pc(&c); st.c.insert(t[1].into(), c); r }
        "cors" => { let m = umap(t[3]).into_iter().collect(); let s = S::apply_correspondence(&st.s[t[2]], &m); let r = ps(&s); st.s.insert(t[1].into(), s); r }
        "s2c" => { let c = S::substitution_into_constraint(st.s[t[2]].clone(), &p); let r = pc(&c); st.c.insert(t[1].into(), c); r }
        "s2e" => { let e = S::map_into_arith_expr(st.s[t[2]].clone(), &p); let r = pe(&e); st.e.insert(t[1].into(), e); r }
        "decomp" => { let (f, e) = S::decompose(st.s[t[2]].clone()); let r = format!("D {} {}", f, pe(&e)); st.e.insert(t[1].into(), e); r }
        "c2e" => {
            let (a, b, c) = st.c[t[4]].clone().into_arithmetic_expressions();
            let r = format!("{} | {} | {}", pe(&a), pe(&b), pe(&c));
            st.e.insert(t[1].into(), a); st.e.insert(t[2].into(), b); st.e.insert(t[3].into(), c);
            r
        }
        "iseq" => format!("B {}", st.c[t[1]].is_equality(&p) as u8),
        "isconst" => format!("B {}", st.c[t[1]].is_constant_equality() as u8),
        "islin" => format!("B {}", C::is_linear(&st.c[t[1]]) as u8),
        "isempty" => format!("B {}", st.c[t[1]].is_empty() as u8),
        "csig" => {
            let c = &st.c[t[1]];
            let r = pset(c.take_signals().into_iter());
            let r2 = pset(c.take_cloned_signals().iter());
            let r3 = pset(c.take_cloned_signals_ordered().iter());
            if r == r2 && r == r3 { r } else { format!("K! {} {} {}", r, r2, r3) }
        }
        "ssig" => {
            let s = &st.s[t[1]];
            let r = pset(s.take_signals().into_iter());
            let r2 = pset(s.take_cloned_signals().iter());
            let r3 = pset(s.take_cloned_signals_ordered().iter());
            if r == r2 && r == r3 { r } else { format!("K! {} {} {}", r, r2, r3) }
        }
        "fastc" | "fasts" => {
            // several substitutions at once, encoded the way the simplifier does it
            let mut l = LinkedList::new();
            for n in &t[2..] { l.push_back(st.s[*n].clone()); }
            let enc = su::build_encoded_fast_substitutions(l);
            if t[0] == "fastc" {
                let c = st.c.get_mut(t[1]).unwrap();
                let b = su::fast_encoded_constraint_substitution(c, &enc, &p);
                format!("{} {}", pc(c), b as u8)
            } else {
                let s = st.s.get_mut(t[1]).unwrap();
                su::fast_encoded_substitution_substitution(s, &enc, &p);
                ps(s)
            }
        }
        "snew" => { st.st = Some(ConstraintStorage::new()); "ok".into() }
        "sadd" => { let c = st.c[t[1]].clone(); format!("I {}", st.st.as_mut().unwrap().add_constraint(c)) }
        "sread" => match st.st.as_ref().unwrap().read_constraint(t[1].parse().unwrap()) { Some(c) => pc(&c), None => "none".into() },
        "srep" => { let c = st.c[t[2]].clone(); st.st.as_mut().unwrap().replace(t[1].parse().unwrap(), c); "ok".into() }
        "sext" => {
            // takes out the constraints which mention the signal
            let k: usize = t[1].parse().unwrap();
            let l = st.st.as_mut().unwrap().extract_with(&|c| c.a().contains_key(&k) || c.b().contains_key(&k) || c.c().contains_key(&k));
            format!("R {}", l.iter().map(pc).collect::<Vec<_>>().join(" | "))
        }
        "sids" => format!("K {}", st.st.as_ref().unwrap().get_ids().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")),
        "simp" => {
            // simp OLD NSIGNALS FORBIDDEN LINEAR...
            let old = t[1] == "1";
            let n: usize = t[2].parse().unwrap();
            let forb: HashSet<usize> = t[3].split(',').map(|x| x.parse().unwrap()).collect();
            let mut l = LinkedList::new();
            for x in &t[4..] { l.push_back(mkcons(HashMap::new(), HashMap::new(), map(x), &p)); }
            let r = su::full_simplification(su::Config {
                field: p.clone(), constraints: l, forbidden: std::sync::Arc::new(forb), num_signals: n, use_old_heuristics: old,
            });
            let cs = r.constraints.iter().map(pc).collect::<Vec<_>>().join(" | ");
            let ss = r.substitutions.iter().map(ps).collect::<Vec<_>>().join(" | ");
            let rm = r.removed.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
            format!("Z {} # {} # {}", cs, ss, rm)
        }
        _ => panic!("driver: unknown command {}", t[0]),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out = std::io::BufWriter::new(std::io::stdout());
    let mut st = State::default();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let t: Vec<&str> = line.split_whitespace().collect();
        let r = match catch_unwind(AssertUnwindSafe(|| step(&mut st, &t))) {
            Ok(r) => r,
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
                format!("PANIC {}", m.replace('\n', " "))
            }
        };
        writeln!(out, "{}", r).unwrap();
        out.flush().unwrap();
    }
    out.flush().unwrap();
}
