//! Executes instructions of the specification on the real program. One JSON command per input line, one answer per
//! output line.
mod acts;
mod ext;
mod svm;
mod venues;
mod world;
use serde_json::{json, Value};
use std::io::{BufRead, Write};

fn num(v: &Value) -> i128 {
    v.as_str().unwrap()[1..].parse().unwrap()
}

fn tx(w: &mut world::World, list: &[Value]) -> Value {
    let before = w.bank.clone();
    let mut trans: Vec<Value> = vec![];
    let mut built = vec![];
    // accounts are bound when the transaction is put together
    for ix in list {
        let tag = ix["act"]["$v"].as_str().unwrap();
        if !acts::is_call(tag) {
            continue;
        }
        let b = acts::build(w, &ix["act"], ix["sv"].as_str().unwrap());
        built.push(acts::finish(w, b, ix));
    }
    let ixs: Vec<svm::Ix> = built.iter().map(|x| x.0.clone()).collect();
    let none = acts::no_quotes();
    let mut failed = false;
    let mut j = 0;
    let start = w.bank.clone();
    for ix in list {
        let tag = ix["act"]["$v"].as_str().unwrap();
        let x = &ix["act"]["x"];
        let mut quote = none.clone();
        let out = match tag {
            "Warp" => {
                w.bank.slot += num(&x["slots"]) as u64;
                w.bank.ts += num(&x["secs"]) as i64;
                svm::IxOut::default()
            }
            "Overshoot" => {
                w.overshoot(num(&x["amount"]) as u64);
                svm::IxOut::default()
            }
            "Inherit" => {
                w.inherit(num(&x["kind"]) as u64, num(&x["n"]) as usize);
                svm::IxOut::default()
            }
            "Donate" => {
                donate(w, x["to"].as_str().unwrap(), num(&x["amount"]));
                svm::IxOut::default()
            }
            _ => {
                if tag == "Swap" {
                    quote = acts::quotes(w, &ix["act"]);
                }
                let env = built[j].1.clone();
                protocol_zap::ACCEPT.with(|a| a.set(env.get("zap").copied().unwrap_or(1) == 1));
                protocol_zap::ASKED.with(|a| a.borrow_mut().clear());
                j += 1;
                let mut out = w.bank.exec(&ixs, j - 1, &env);
                // the rent rule applies when the transaction ends; report it on its last instruction
                if out.err.is_none() && j == ixs.len() && !w.bank.rent_ok(&before) {
                    out.err = Some("rent".into());
                }
                out
            }
        };
        if std::env::var("DBC_DEBUG").is_ok() && out.err.is_some() {
            eprintln!("{}: {:?} {:?}", tag, out.err, out.logs);
        }
        let res = acts::result(w, &out, &ix["act"]);
        if out.err.is_some() {
            failed = true;
        } else {
            w.fixtures();
        }
        let post = if failed { Value::Null } else { w.project() };
        let wire = if w.wire { acts::wire(w, if j > 0 && acts::is_call(tag) { Some(&ixs[j - 1]) } else { None }, &out) } else { Value::Null };
        trans.push(json!({"res": res, "post": post, "quote": quote, "wire": wire}));
        if failed {
            w.bank = start.clone();
            break;
        }
    }
    json!({"trans": trans, "failed": failed, "world": if failed { w.project() } else { Value::Null }})
}

/// anyone can send tokens or lamports to any account
fn donate(w: &mut world::World, to: &str, amount: i128) {
    let k = w.key(to);
    if let Some((_, suffix)) = to.rsplit_once('.') {
        let src = if suffix == "q" { "trader1.q" } else { "trader0.b" };
        let s = w.key(src);
        if s == k || !w.bank.accts.contains_key(&k) || (w.tokens(src) as i128) < amount {
            return;
        }
        for (key, d) in [(s, -amount), (k, amount)] {
            let a = w.bank.accts.get_mut(&key).unwrap();
            let v = u64::from_le_bytes(a.data[64..72].try_into().unwrap()) as i128 + d;
            a.data[64..72].copy_from_slice(&(v as u64).to_le_bytes());
        }
    } else {
        let s = w.key("eve");
        if !w.bank.accts.contains_key(&k) || (w.lamports("eve") as i128) < amount + 1_000_000_000 {
            return;
        }
        w.bank.accts.get_mut(&s).unwrap().lamports -= amount as u64;
        w.bank.accts.get_mut(&k).unwrap().lamports += amount as u64;
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("DBC_DEBUG").is_ok() {
            eprintln!("{}", i)
        }
    }));
    svm::install();
    let mut w: Option<world::World> = None;
    // answers go to descriptor 3
    let mut o = std::io::BufWriter::new(unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(3) });
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let v: Value = serde_json::from_str(&line).unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match v["cmd"].as_str().unwrap() {
            "new" => {
                let n = world::World::new(num(&v["seed"]) as u64, v["t22"].as_bool().unwrap(), num(&v["quoteKind"]) as u64, num(&v["slot"]) as u64, num(&v["ts"]) as i64);
                let p = n.project();
                let mut n = n;
                n.wire = v["wire"].as_bool().unwrap_or(false);
                w = Some(n);
                json!({"world": p})
            }
            "tx" => tx(w.as_mut().unwrap(), v["ixs"].as_array().unwrap()),
            c => panic!("unknown command {}", c),
        }));
        let r = r.unwrap_or_else(|e| {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            json!({"toolError": m})
        });
        serde_json::to_writer(&mut o, &r).unwrap();
        o.write_all(b"\n").unwrap();
        o.flush().unwrap();
    }
}
