//! The Rust library behind a pipe: one request a line, one answer a line.
use qnip::data::IpInfo;
use qnip::query::QueryDb;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn answer(r: std::io::Result<IpInfo>) -> String {
    match r {
        Err(e) => format!("E {}", e).replace('\n', " "),
        Ok(i) => {
            let f = [&i.country, &i.district, &i.province, &i.city, &i.asn, &i.isp, &i.continent, &i.line];
            format!("A {}", f.iter().map(|s| hex(s.as_bytes())).collect::<Vec<_>>().join(","))
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut db: Option<QueryDb> = None;
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let (k, a) = (&line[..1], line.get(2..).unwrap_or(""));
        let r = catch_unwind(AssertUnwindSafe(|| {
            if k == "O" || k == "F" {
                db = None;
                let opened = if k == "O" { QueryDb::from_bytes(&unhex(a)) } else { QueryDb::from_file(a) };
                return match opened {
                    Ok(d) => {
                        db = Some(d);
                        "ok".to_string()
                    }
                    Err(e) => format!("E {}", e).replace('\n', " "),
                };
            }
            let d = match &db {
                Some(d) => d,
                None => return "closed".to_string(),
            };
            match k {
                "S" => answer(d.query_str(a)),
                "B" => answer(d.query(&unhex(a))),
                "U" => answer(d.query_u32(a.parse().unwrap())),
                "V" => {
                    let v = d.version();
                    format!("V {} {} {} {} {} {}", v.ip_type, v.count, v.build, v.has_ipv4(), v.has_ipv6(), hex(v.version.as_bytes()))
                }
                _ => "bad request".to_string(),
            }
        }));
        let r = r.unwrap_or_else(|e| {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            format!("X panic: {}", m).replace('\n', " ")
        });
        let mut out = std::io::stdout();
        writeln!(out, "~{}", r).unwrap();
        out.flush().unwrap();
    }
}
