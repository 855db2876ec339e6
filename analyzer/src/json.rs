//! JSON output.
use crate::interp::*;
use crate::spec::Report;

pub fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn list(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}
pub fn report_only(r: &Report) -> String {
    format!("{{{}}}\n", parts(r))
}
fn parts(r: &Report) -> String {
    let viol = r
        .viol
        .iter()
        .map(|((p, k), (at, m))| format!("{{\"prop\":{},\"key\":{},\"where\":{},\"msg\":{}}}", q(p), q(k), q(at), q(m)))
        .collect();
    let und = r.und.iter().map(|((p, k), m)| format!("{{\"prop\":{},\"key\":{},\"msg\":{}}}", q(p), q(k), q(m))).collect();
    let cov: Vec<String> = r.cov.iter().map(|(k, n)| format!("{}:{}", q(k), n)).collect();
    let notes: Vec<String> = r.notes.iter().map(|(k, n)| format!("{}:{}", q(k), q(n))).collect();
    format!("\"violations\":{},\n\"undecided\":{},\n\"coverage\":{{{}}},\n\"notes\":{{{}}}", list(viol), list(und), cov.join(","), notes.join(","))
}
pub fn report(r: &Report, it: &Interp) -> String {
    let obls = it
        .obls
        .iter()
        .map(|((at, k), o)| format!("[{},{},{},{},{}]", q(at), q(k), q(&format!("{:?}", o.status)), o.n, q(&o.msg)))
        .collect();
    let fns: Vec<String> = it.analysed.iter().map(|(k, n)| format!("{}:{}", q(k), n)).collect();
    let loops: Vec<String> = it.loops_done.iter().map(|(k, n)| format!("{}:{}", q(k), q(n))).collect();
    format!("{{{},\n\"obligations\":{},\n\"functions\":{{{}}},\n\"loops\":{{{}}}}}\n", parts(r), list(obls), fns.join(","), loops.join(","))
}
