//! Driver of the r1cs writer and reader: performs the calls it is told and prints what the
//! reader returned.  It decides nothing; the oracle is checks/P34.py.
use circom_algebra::num_bigint::BigInt;
use constraint_writers::r1cs_reader::read_r1cs;
use constraint_writers::r1cs_writer::*;
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn big(t: &str) -> BigInt {
    BigInt::parse_bytes(t.as_bytes(), 10).unwrap()
}
fn n(t: &str) -> usize {
    t.parse().unwrap()
}
fn map(t: &str) -> HashMap<usize, BigInt> {
    if t == "-" { return HashMap::new(); }
    t.split(',').map(|kv| { let (k, v) = kv.split_once(':').unwrap(); (n(k), big(v)) }).collect()
}
fn pm(m: &HashMap<usize, BigInt>) -> String {
    let mut v: Vec<_> = m.iter().collect();
    v.sort();
    if v.is_empty() { "-".into() } else { v.iter().map(|(k, x)| format!("{}:{}", k, x)).collect::<Vec<_>>().join(",") }
}
fn hex(s: &str) -> String {
    s.bytes().map(|b| format!("{:02x}", b)).collect()
}
fn unhex(t: &str) -> String {
    String::from_utf8((0..t.len() / 2).map(|i| u8::from_str_radix(&t[2 * i..2 * i + 2], 16).unwrap()).collect()).unwrap()
}

/// W file field_size custom section... : each section is `H;p;wires;out;pub;priv;labels;cons`,
/// `C;a/b/c;...`, `S;label;...`, `U;namehex/p,p;...`, `A;index/s,s;...`; the lists may be cut
/// into several calls with `!` between the parts
fn write(t: &[&str]) -> Result<String, ()> {
    let mut w = R1CSWriter::new(t[1].to_string(), n(t[2]), t[3] == "1")?;
    for s in &t[4..] {
        let f: Vec<&str> = s.split(';').collect();
        w = match f[0] {
            "H" => {
                let mut h = R1CSWriter::start_header_section(w)?;
                h.write_section(HeaderData {
                    field: big(f[1]), total_wires: n(f[2]), public_outputs: n(f[3]), public_inputs: n(f[4]),
                    private_inputs: n(f[5]), number_of_labels: n(f[6]), number_of_constraints: n(f[7]),
                })?;
                h.end_section()?
            }
            "C" => {
                let mut c = R1CSWriter::start_constraints_section(w)?;
                for x in &f[1..] {
                    let m: Vec<&str> = x.split('/').collect();
                    c.write_constraint_usize(&map(m[0]), &map(m[1]), &map(m[2]))?;
                }
                if c.constraints_written() != f.len() - 1 { return Ok(format!("COUNT {} {}", c.constraints_written(), f.len() - 1)); }
                c.end_section()?
            }
            "S" => {
                let mut c = R1CSWriter::start_signal_section(w)?;
                for (i, x) in f[1..].iter().enumerate() {
                    if i % 3 == 2 {
                        let b = BigInt::from(n(x)).to_bytes_le().1;
                        c.write_signal(&b)?
                    } else { c.write_signal_usize(n(x))? }
                }
                c.end_section()?
            }
            "U" => {
                let mut c = R1CSWriter::start_custom_gates_used_section(w)?;
                let d = f[1..].iter().map(|x| {
                    let (a, b) = x.split_once('/').unwrap();
                    (unhex(a), if b.is_empty() { vec![] } else { b.split(',').map(big).collect() })
                }).collect();
                c.write_custom_gates_usages(d)?;
                c.end_section()?
            }
            "A" => {
                let mut c = R1CSWriter::start_custom_gates_applied_section(w)?;
                let d = f[1..].iter().map(|x| {
                    let (a, b) = x.split_once('/').unwrap();
                    (n(a), if b.is_empty() { vec![] } else { b.split(',').map(n).collect() })
                }).collect();
                c.write_custom_gates_applications(d)?;
                c.end_section()?
            }
            _ => panic!("driver: unknown section"),
        };
    }
    R1CSWriter::finish_writing(w)?;
    Ok("ok".into())
}

fn read(path: &str) -> String {
    let d = match read_r1cs(path) { Ok(d) => d, Err(e) => return format!("ERR {}", e) };
    let (h, cs, sg, us, ap) = d.vp_parts();
    let mut o = vec![format!("H;{};{};{};{};{};{};{};{}", h.field, h.field_size, h.total_wires, h.public_outputs, h.public_inputs, h.private_inputs, h.number_of_labels, h.number_of_constraints)];
    o.push(std::iter::once("C".to_string()).chain(cs.iter().map(|(a, b, c)| format!("{}/{}/{}", pm(a), pm(b), pm(c)))).collect::<Vec<_>>().join(";"));
    o.push(std::iter::once("S".to_string()).chain(sg.iter().map(|x| x.to_string())).collect::<Vec<_>>().join(";"));
    if let Some(u) = us {
        o.push(std::iter::once("U".to_string()).chain(u.iter().map(|(a, b)| format!("{}/{}", hex(a), b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")))).collect::<Vec<_>>().join(";"));
    }
    if let Some(u) = ap {
        o.push(std::iter::once("A".to_string()).chain(u.iter().map(|(a, b)| format!("{}/{}", a, b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")))).collect::<Vec<_>>().join(";"));
    }
    o.join(" ")
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let t: Vec<&str> = line.split_whitespace().collect();
        let r = catch_unwind(AssertUnwindSafe(|| match t[0] {
            "W" => write(&t).unwrap_or("FAIL".into()),
            "R" => read(t[1]),
            _ => panic!("driver: unknown command"),
        }))
        .unwrap_or_else(|e| format!("PANIC {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default().replace('\n', " ")));
        println!("{}", r);
        std::io::stdout().flush().unwrap();
    }
}
