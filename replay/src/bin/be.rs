//! Backends against the reference model: C01, C02, C03 (InMemory), C15 (Redis against an in-process server).
use aj_core::mem::InMemory;
use aj_core::types::{get_from_storage, upsert_to_storage, Backend, QueueDirection, STORAGE_HASH};
use replay::*;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
enum Op {
    Push(String, String),
    Move(String, String, usize, QueueDirection, QueueDirection),
    Remove(String, String),
    Get(String, usize, QueueDirection),
    Count(String),
    Upsert(String, String, String),
    SGet(String, String),
}
fn tag(o: &Op, redis: bool) -> Vec<&'static str> {
    if redis {
        return vec!["C15"];
    }
    match o {
        Op::Move(..) => vec!["C02"],
        Op::Upsert(..) | Op::SGet(..) => vec!["C03"],
        _ => vec!["C01"],
    }
}
fn names() -> Vec<String> {
    ["q", "r", "q:queue:Queued", "q:queue:Running", ""].iter().map(|s| s.to_string()).collect()
}
fn items() -> Vec<String> {
    ["a", "b", "ab", "A", "", "ü-1", "a "].iter().map(|s| s.to_string()).collect()
}
fn dir(r: &mut Rng) -> QueueDirection {
    if r.chance(50) { QueueDirection::Front } else { QueueDirection::Back }
}
fn gen(r: &mut Rng, big: bool) -> Op {
    let n = names();
    let it = items();
    let cnt = |r: &mut Rng| *r.pick(if big { &[0usize, 1, 2, 3, 7, 20, 21, 40, 1000] } else { &[0usize, 1, 1, 1, 2, 3, 5] });
    // mostly two lists
    let q = |r: &mut Rng| if r.chance(85) { n[r.below(2)].clone() } else { r.pick(&n).clone() };
    match r.below(14) {
        0..=4 => { let a = q(r); Op::Push(a, r.pick(&it).clone()) }
        5..=7 => { let a = q(r); let b = q(r); let c = cnt(r); let d = dir(r); let e = dir(r); Op::Move(a, b, c, d, e) }
        8 => { let a = q(r); Op::Remove(a, r.pick(&it).clone()) }
        9..=10 => { let a = q(r); let c = cnt(r); Op::Get(a, c, dir(r)) }
        11 => Op::Count(q(r)),
        12 => { let a = q(r); let k = r.pick(&it).clone(); Op::Upsert(a, k, if r.chance(15) { r.pick(&[String::new(), " ".into(), "null".into(), "y".repeat(5000), "ü\n\"".into()]).clone() } else { format!("v{}", r.below(9)) }) }
        _ => { let a = q(r); Op::SGet(a, r.pick(&it).clone()) }
    }
}
/// on Redis, a move of several items within one list is outside the property (items are moved one by one)
fn one_by_one(o: &mut Op) {
    if let Op::Move(f, t, n, _, _) = o {
        if f == t && *n > 1 { *n = 1; }
    }
}
/// run one operation on both sides
fn step(b: &dyn Backend, m: &mut Store, o: &Op) -> Result<(), String> {
    let (got, want) = match o {
        Op::Push(q, x) => {
            let r = b.queue_push(q, x).map_err(|e| format!("{:?}", e));
            m.push(q, x);
            (format!("{:?}", r), format!("{:?}", Ok::<(), String>(())))
        }
        Op::Move(f, t, n, fd, td) => {
            let r = b.queue_move(f, t, *n, *fd, *td).map_err(|e| format!("{:?}", e));
            (format!("{:?}", r), format!("{:?}", Ok::<_, String>(m.mv(f, t, *n, *fd, *td))))
        }
        Op::Remove(q, x) => {
            let r = b.queue_remove(q, x).map_err(|e| format!("{:?}", e));
            m.remove(q, x);
            (format!("{:?}", r), format!("{:?}", Ok::<(), String>(())))
        }
        Op::Get(q, n, d) => {
            let r = b.queue_get(q, *n, *d).map_err(|e| format!("{:?}", e));
            (format!("{:?}", r), format!("{:?}", Ok::<_, String>(m.get(q, *n, *d))))
        }
        Op::Count(q) => {
            let r = b.queue_count(q).map_err(|e| format!("{:?}", e));
            (format!("{:?}", r), format!("{:?}", Ok::<_, String>(m.q(q).len())))
        }
        Op::Upsert(h, k, v) => {
            let r = b.storage_upsert(h, k, v.clone()).map_err(|e| format!("{:?}", e));
            m.hashes.insert((h.clone(), k.clone()), v.clone());
            (format!("{:?}", r), format!("{:?}", Ok::<(), String>(())))
        }
        Op::SGet(h, k) => {
            let r = b.storage_get(h, k).map_err(|e| format!("{:?}", e));
            (format!("{:?}", r), format!("{:?}", Ok::<_, String>(m.hashes.get(&(h.clone(), k.clone())).cloned())))
        }
    };
    if got != want {
        return Err(format!("{:?} returned {} instead of {}", o, got, want));
    }
    Ok(())
}
/// every list and entry agrees (read back through the backend itself)
fn agree(b: &dyn Backend, m: &Store) -> Result<(), String> {
    for q in names() {
        let want = m.q(&q);
        let c = b.queue_count(&q).map_err(|e| format!("{:?}", e))?;
        if c != want.len() {
            return Err(format!("list {:?} has {} items instead of {:?}", q, c, want));
        }
        let got = b.queue_get(&q, want.len() + 3, QueueDirection::Front).map_err(|e| format!("{:?}", e))?;
        if got != want {
            return Err(format!("list {:?} is {:?} instead of {:?}", q, got, want));
        }
        for k in items() {
            let got = b.storage_get(&q, &k).map_err(|e| format!("{:?}", e))?;
            let want = m.hashes.get(&(q.clone(), k.clone())).cloned();
            if got != want {
                return Err(format!("entry {:?}/{:?} is {:?} instead of {:?}", q, k, got, want));
            }
        }
    }
    Ok(())
}
fn history(b: &dyn Backend, ops: &[Op], redis: bool, every: bool) -> Res {
    let mut m = Store::default();
    let mut done = vec![];
    for o in ops {
        done.push(format!("{:?}", o));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            step(b, &mut m, o)?;
            if every { agree(b, &m) } else { Ok(()) }
        }));
        let e = match r {
            Ok(Ok(())) => continue,
            Ok(Err(e)) => e,
            Err(_) => format!("{:?} panicked", o),
        };
        let mut f = fail(&tag(o, redis), e);
        f.history = done;
        return Err(f);
    }
    if !every {
        if let Err(e) = agree(b, &m) {
            let mut f = fail(&["C01", "C02", "C03"], e);
            if redis { f.props = vec!["C15".into()]; }
            f.history = done;
            return Err(f);
        }
    }
    Ok(())
}
/// Several threads at once: items are neither lost nor doubled, whatever the interleaving.
fn concurrent(a: &Args, st: &mut Stats, rounds: u64) -> Res {
    let mut r = Rng(a.seed ^ 77);
    for round in 0..rounds {
        if !a.left() { break; }
        let b = Arc::new(InMemory::default());
        let per = 40;
        let nthr = 4;
        let mode = r.below(4);
        for i in 0..nthr * per {
            if mode >= 1 { b.queue_push("from", &format!("x{}", i)).unwrap(); }
        }
        let hs: Vec<_> = (0..nthr)
            .map(|t| {
                let b = b.clone();
                std::thread::spawn(move || {
                    let mut got = vec![];
                    for i in 0..per {
                        match mode {
                            0 => b.queue_push("from", &format!("x{}", t * per + i)).unwrap(),
                            1 => got.extend(b.queue_move("from", "to", 1, QueueDirection::Back, QueueDirection::Front).unwrap()),
                            2 => { let _ = b.queue_move("from", "from", 1, QueueDirection::Back, QueueDirection::Front); }
                            _ => {
                                let h = format!("h{}", t);
                                b.storage_upsert("s", &format!("{}-{}", h, i), format!("{}", i)).unwrap();
                                b.storage_upsert(&h, "k", format!("{}", i)).unwrap();
                                let _ = b.queue_remove("from", &format!("x{}", t * per + i));
                            }
                        }
                    }
                    got
                })
            })
            .collect();
        let mut got: Vec<String> = vec![];
        let mut dead = false;
        for h in hs {
            match h.join() { Ok(g) => got.extend(g), Err(_) => dead = true }
        }
        let all: Vec<String> = { let mut v: Vec<String> = (0..nthr * per).map(|i| format!("x{}", i)).collect(); v.sort(); v };
        let lst = |q: &str| { let mut v = b.queue_get(q, 100_000, QueueDirection::Front).unwrap_or_default(); v.sort(); v };
        let (props, bad): (&[&str], bool) = match mode {
            0 => (&["C01"], lst("from") != all),
            1 => { got.sort(); (&["C02"], got != all || lst("to") != all || !lst("from").is_empty()) }
            2 => (&["C02"], lst("from") != all),
            _ => {
                let mut bad = !lst("from").is_empty();
                for t in 0..nthr { for i in 0..per {
                    bad |= b.storage_get("s", &format!("h{}-{}", t, i)).ok().flatten() != Some(format!("{}", i));
                } }
                (&["C01", "C03"], bad)
            }
        };
        st.case(&format!("concurrent mode {} round {}", mode, round), true);
        if bad || dead {
            return Err(fail(props, format!("{} threads, {} operations each, kind {}: items lost or doubled (from: {} items, to: {}, moved: {}, panic: {})",
                nthr, per, ["push", "move from->to", "move from->from", "upsert and remove"][mode], lst("from").len(), lst("to").len(), got.len(), dead)));
        }
    }
    Ok(())
}

/// Several threads use a list (or a storage) for the very first time, at the same moment.
fn first_use(a: &Args, st: &mut Stats, rounds: usize) -> Res {
    use std::sync::atomic::{AtomicUsize, Ordering};
    let nthr = 4;
    for mode in 0..3 {
        if !a.left() { break; }
        let all: Arc<Vec<InMemory>> = Arc::new((0..rounds).map(|_| InMemory::default()).collect());
        if mode == 1 {
            for b in all.iter() { for t in 0..nthr { let _ = b.queue_push("src", &format!("x{}", t)); } }
        }
        let at = Arc::new(AtomicUsize::new(0));
        let hs: Vec<_> = (0..nthr).map(|t| {
            let (all, at) = (all.clone(), at.clone());
            std::thread::spawn(move || {
                for (i, b) in all.iter().enumerate() {
                    at.fetch_add(1, Ordering::SeqCst);
                    let mut k = 0;
                    while at.load(Ordering::SeqCst) < (i + 1) * nthr { k += 1; if k > 2000 { std::thread::yield_now() } else { std::hint::spin_loop() } }
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match mode {
                        0 => { let _ = b.queue_push("new", &format!("x{}", t)); }
                        1 => { let _ = b.queue_move("src", "new", 1, QueueDirection::Back, QueueDirection::Front); }
                        _ => { let _ = b.storage_upsert("new", &format!("x{}", t), format!("x{}", t)); }
                    }));
                    let _ = r;
                }
            })
        }).collect();
        for h in hs { let _ = h.join(); }
        let want: Vec<String> = (0..nthr).map(|t| format!("x{}", t)).collect();
        for (i, b) in all.iter().enumerate() {
            let mut got = match mode {
                2 => want.iter().filter_map(|k| b.storage_get("new", k).ok().flatten()).collect(),
                _ => b.queue_get("new", 100, QueueDirection::Front).unwrap_or_default(),
            };
            got.sort();
            if i % 100 == 0 { st.case(&format!("first use mode {} round {}", mode, i), true); }
            if got != want {
                return Err(fail(&[["C01", "C02", "C03"][mode]], format!("{} threads at once {} the same new {}: it holds {:?} instead of {:?}", nthr,
                    ["push onto", "move an item onto", "write to"][mode], if mode == 2 { "storage" } else { "list" }, got, want)));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ a small Redis
#[derive(Default)]
struct Db { lists: BTreeMap<Vec<u8>, Vec<Vec<u8>>>, hashes: BTreeMap<Vec<u8>, BTreeMap<Vec<u8>, Vec<u8>>> }
fn bulk(x: Option<&[u8]>) -> Vec<u8> {
    match x { None => b"$-1\r\n".to_vec(), Some(x) => { let mut v = format!("${}\r\n", x.len()).into_bytes(); v.extend_from_slice(x); v.extend_from_slice(b"\r\n"); v } }
}
fn arr(xs: Vec<Vec<u8>>) -> Vec<u8> { let mut v = format!("*{}\r\n", xs.len()).into_bytes(); for x in xs { v.extend(x); } v }
fn int(n: i64) -> Vec<u8> { format!(":{}\r\n", n).into_bytes() }
fn num(x: &[u8]) -> i64 { String::from_utf8_lossy(x).parse().unwrap_or(0) }
fn cmd(db: &mut Db, c: &[Vec<u8>]) -> Vec<u8> {
    let name = String::from_utf8_lossy(&c[0]).to_uppercase();
    let err = |s: &str| format!("-ERR {}\r\n", s).into_bytes();
    let need = |n: usize| c.len() >= n;
    match name.as_str() {
        "CLIENT" | "SELECT" | "HELLO" => b"+OK\r\n".to_vec(),
        "PING" => b"+PONG\r\n".to_vec(),
        "LPUSH" | "RPUSH" if need(3) => {
            let l = db.lists.entry(c[1].clone()).or_default();
            for x in &c[2..] { if name == "LPUSH" { l.insert(0, x.clone()) } else { l.push(x.clone()) } }
            int(l.len() as i64)
        }
        "LPOP" | "RPOP" if need(2) => {
            let n = if need(3) { num(&c[2]) } else { 1 };
            let mut out = vec![];
            if let Some(l) = db.lists.get_mut(&c[1]) {
                for _ in 0..n { if l.is_empty() { break; } out.push(if name == "LPOP" { l.remove(0) } else { l.pop().unwrap() }); }
                if l.is_empty() { db.lists.remove(&c[1]); }
            }
            if need(3) { if out.is_empty() { b"*-1\r\n".to_vec() } else { arr(out.iter().map(|x| bulk(Some(x))).collect()) } } else { bulk(out.first().map(|x| &x[..])) }
        }
        "LMOVE" | "RPOPLPUSH" if need(3) => {
            let (fl, tl) = if name == "LMOVE" { if !need(5) { return err("wrong number of arguments"); } (c[3].eq_ignore_ascii_case(b"LEFT"), c[4].eq_ignore_ascii_case(b"LEFT")) } else { (false, true) };
            let x = match db.lists.get_mut(&c[1]) { Some(l) if !l.is_empty() => Some(if fl { l.remove(0) } else { l.pop().unwrap() }), _ => None };
            if let Some(x) = &x {
                let l = db.lists.entry(c[2].clone()).or_default();
                if tl { l.insert(0, x.clone()) } else { l.push(x.clone()) }
                if db.lists.get(&c[1]).map(|l| l.is_empty()).unwrap_or(false) { db.lists.remove(&c[1]); }
            }
            bulk(x.as_deref())
        }
        "LRANGE" if need(4) => {
            let l = db.lists.get(&c[1]).cloned().unwrap_or_default();
            let n = l.len() as i64;
            let fix = |x: i64| if x < 0 { n.saturating_add(x) } else { x };
            let (s, e) = (fix(num(&c[2])).max(0), fix(num(&c[3])).min(n - 1));
            arr(if s > e { vec![] } else { l[s as usize..=e as usize].iter().map(|x| bulk(Some(x))).collect() })
        }
        "LLEN" if need(2) => int(db.lists.get(&c[1]).map(|l| l.len()).unwrap_or(0) as i64),
        "LINDEX" if need(3) => {
            let l = db.lists.get(&c[1]).cloned().unwrap_or_default();
            let i = num(&c[2]); let i = if i < 0 { i + l.len() as i64 } else { i };
            bulk(if i < 0 { None } else { l.get(i as usize).map(|x| &x[..]) })
        }
        "LREM" if need(4) => {
            let n = num(&c[2]);
            let mut gone = 0i64;
            if let Some(l) = db.lists.get_mut(&c[1]) {
                let lim = if n == 0 { i64::MAX } else { n.abs() };
                if n < 0 { l.reverse(); }
                l.retain(|x| if *x == c[3] && gone < lim { gone += 1; false } else { true });
                if n < 0 { l.reverse(); }
                if l.is_empty() { db.lists.remove(&c[1]); }
            }
            int(gone)
        }
        "LTRIM" if need(4) => {
            if let Some(l) = db.lists.get_mut(&c[1]) {
                let n = l.len() as i64; let fix = |x: i64| if x < 0 { n + x } else { x };
                let (s, e) = (fix(num(&c[2])).max(0), fix(num(&c[3])).min(n - 1));
                *l = if s > e { vec![] } else { l[s as usize..=e as usize].to_vec() };
            }
            b"+OK\r\n".to_vec()
        }
        "HSET" | "HMSET" if need(4) => {
            let h = db.hashes.entry(c[1].clone()).or_default();
            let mut n = 0;
            for p in c[2..].chunks(2) { if p.len() == 2 && h.insert(p[0].clone(), p[1].clone()).is_none() { n += 1; } }
            if name == "HSET" { int(n) } else { b"+OK\r\n".to_vec() }
        }
        "HSETNX" if need(4) => {
            let h = db.hashes.entry(c[1].clone()).or_default();
            if h.contains_key(&c[2]) { int(0) } else { h.insert(c[2].clone(), c[3].clone()); int(1) }
        }
        "HGET" if need(3) => bulk(db.hashes.get(&c[1]).and_then(|h| h.get(&c[2])).map(|x| &x[..])),
        "HEXISTS" if need(3) => int(db.hashes.get(&c[1]).map(|h| h.contains_key(&c[2])).unwrap_or(false) as i64),
        "HMGET" if need(3) => arr(c[2..].iter().map(|k| bulk(db.hashes.get(&c[1]).and_then(|h| h.get(k)).map(|x| &x[..]))).collect()),
        "HDEL" if need(3) => int(c[2..].iter().filter(|k| db.hashes.get_mut(&c[1]).map(|h| h.remove(*k).is_some()).unwrap_or(false)).count() as i64),
        "DEL" => int(c[1..].iter().filter(|k| { let a = db.lists.remove(*k).is_some(); let b = db.hashes.remove(*k).is_some(); a || b }).count() as i64),
        "EXISTS" => int(c[1..].iter().filter(|k| db.lists.contains_key(*k) || db.hashes.contains_key(*k)).count() as i64),
        _ => err(&format!("unknown command {}", name)),
    }
}
fn read_cmd(r: &mut BufReader<TcpStream>) -> Option<Vec<Vec<u8>>> {
    let mut line = String::new();
    if r.read_line(&mut line).ok()? == 0 { return None; }
    let n: usize = line.trim().strip_prefix('*')?.parse().ok()?;
    let mut out = vec![];
    for _ in 0..n {
        let mut l = String::new();
        r.read_line(&mut l).ok()?;
        let k: usize = l.trim().strip_prefix('$')?.parse().ok()?;
        let mut b = vec![0; k + 2];
        r.read_exact(&mut b).ok()?;
        b.truncate(k);
        out.push(b);
    }
    Some(out)
}
fn serve(db: Arc<Mutex<Db>>) -> u16 {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let port = l.local_addr().unwrap().port();
    std::thread::spawn(move || {
        for s in l.incoming().flatten() {
            let db = db.clone();
            std::thread::spawn(move || {
                let _ = s.set_nodelay(true);
                let mut w = s.try_clone().unwrap();
                let mut r = BufReader::new(s);
                let mut multi: Option<Vec<Vec<Vec<u8>>>> = None;
                while let Some(c) = read_cmd(&mut r) {
                    if c.is_empty() { continue; }
                    let n = String::from_utf8_lossy(&c[0]).to_uppercase();
                    let out = match (n.as_str(), &mut multi) {
                        ("MULTI", _) => { multi = Some(vec![]); b"+OK\r\n".to_vec() }
                        ("EXEC", Some(q)) => {
                            let mut d = db.lock().unwrap();
                            let v = arr(q.iter().map(|c| cmd(&mut d, c)).collect());
                            multi = None;
                            v
                        }
                        (_, Some(q)) => { q.push(c.clone()); b"+QUEUED\r\n".to_vec() }
                        _ => cmd(&mut db.lock().unwrap(), &c),
                    };
                    if w.write_all(&out).is_err() { break; }
                }
            });
        }
    });
    port
}

/// Typed entries: what is read is what the text last stored under that key on that backend stands for.
fn typed(a: &Args, st: &mut Stats, rounds: usize) -> Res {
    let mut r = Rng(a.seed ^ 77);
    let keys = ["a", "b", "A", "", "a ", "é"];
    for n in 0..rounds {
        let bs = [InMemory::default(), InMemory::default()];
        let mut m: BTreeMap<(usize, String), String> = BTreeMap::new();
        let mut h: Vec<String> = vec![];
        for _ in 0..4 + r.below(16) {
            let (i, k) = (if r.chance(70) { 0 } else { 1 }, r.pick(&keys[..if n % 2 == 0 { 2 } else { 6 }]).to_string());
            let b = &bs[i];
            let err = |h: &[String], t: String| Err(fail(&["C03"], format!("{} (after {:?})", t, h)));
            match r.below(8) {
                0 => {
                    let t = r.pick(&["", " ", "7", "null", "{", "\"x\"", "[1,2]", "7.5", "-1"]).to_string();
                    h.push(format!("store the text {:?} under {:?} of backend {}", t, k, i));
                    let _ = b.storage_upsert(STORAGE_HASH, &k, t.clone());
                    m.insert((i, k), t);
                }
                1 => {
                    h.push(format!("store text under {:?} of another storage of backend {}", k, i));
                    let _ = b.storage_upsert("other", &k, "5".into());
                }
                2 | 3 => {
                    let v = r.below(4) as i64 - 1;
                    h.push(format!("store {} under {:?} of backend {}", v, k, i));
                    if upsert_to_storage(b, &k, v).is_err() { return err(&h, "the store failed".into()); }
                    m.insert((i, k), format!("{}", v));
                }
                4 => {
                    let v = r.pick(&["", "x", "7", "é\""]).to_string();
                    h.push(format!("store {:?} under {:?} of backend {}", v, k, i));
                    if upsert_to_storage(b, &k, &v).is_err() { return err(&h, "the store failed".into()); }
                    m.insert((i, k), serde_json::to_string(&v).unwrap());
                }
                x => {
                    let t = m.get(&(i, k.clone()));
                    let (got, want) = if x == 7 {
                        (format!("{:?}", get_from_storage::<String>(b, &k).ok()), format!("{:?}", Some(t.and_then(|t| serde_json::from_str::<String>(t).ok()))))
                    } else {
                        (format!("{:?}", get_from_storage::<i64>(b, &k).ok()), format!("{:?}", Some(t.and_then(|t| serde_json::from_str::<i64>(t).ok()))))
                    };
                    if got != want { return err(&h, format!("reading {:?} of backend {} gives {} instead of {}", k, i, got, want)); }
                    h.push(format!("read {:?} of backend {}", k, i));
                }
            }
        }
        st.case(&format!("{:?}", h), true);
    }
    Ok(())
}
fn main() {
    quiet_panics();
    let a = args();
    let redis = a.prop == "C15";
    let mut st = Stats::new("random histories of backend operations over up to 5 lists and 7 items, every list and entry compared with a reference model; non-trivial: at least one move or removal that found an item");
    let db = Arc::new(Mutex::new(Db::default()));
    let port = if redis { serve(db.clone()) } else { 0 };
    let mut r = Rng(a.seed);
    let run = |ops: &[Op], every: bool| -> Res {
        if redis {
            *db.lock().unwrap() = Db::default();
            let b = aj_core::redis::Redis::new(format!("redis://127.0.0.1:{}/", port));
            history(&b, ops, true, every)
        } else {
            history(&InMemory::default(), ops, false, every)
        }
    };
    let mut first: Option<Fail> = None;
    // every single operation on every small list
    let d = [QueueDirection::Front, QueueDirection::Back];
    'x: for len in 0..4usize {
        for cnt in [0usize, 1, 2, 3, 4, 5] {
            for fd in d { for td in d { for to in ["q", "r"] {
                let mut ops: Vec<Op> = (0..len).map(|i| Op::Push("q".into(), items()[i % 3].clone())).collect();
                ops.push(Op::Push("r".into(), "z".into()));
                ops.push(Op::Move("q".into(), to.into(), cnt, fd, td));
                ops.push(Op::Get("q".into(), cnt, fd));
                ops.push(Op::Remove("q".into(), "a".into()));
                ops.push(Op::Get(to.into(), cnt, td));
                if redis { ops.iter_mut().for_each(one_by_one); }
                st.case(&format!("{:?}", ops), len > 0 && cnt > 0);
                if let Err(f) = run(&ops, !redis) {
                    if f.hits(&a.prop) { first = Some(f); break 'x; }
                }
            } } }
        }
    }
    // "all of them": counts no list can have (the in-memory list is walked count times, so only on Redis)
    if first.is_none() && redis {
        for c in [usize::MAX, usize::MAX - 1, isize::MAX as usize + 1, isize::MAX as usize, u32::MAX as usize, u32::MAX as usize + 1, i32::MAX as usize + 1] {
            let mut ops: Vec<Op> = ["a", "b", "c"].iter().map(|x| Op::Push("q".into(), x.to_string())).collect();
            for fd in d {
                ops.push(Op::Get("q".into(), c, fd));
                ops.push(Op::Get("none".into(), c, fd));
            }
            st.case(&format!("reading {} of 3 items", c), true);
            if let Err(f) = run(&ops, false) {
                if f.hits(&a.prop) { first = Some(f); break; }
            }
        }
    }
    // long lists, and counts around every length
    if first.is_none() {
        'y: for len in [49usize, 51, 64, 65, 100, 101, 129, 257, 300] {
            if redis && len > 130 { break; }
            let mut ops: Vec<Op> = (0..len).map(|i| Op::Push("q".into(), format!("x{}", i))).collect();
            for c in [19usize, 20, 21, 50, 51, 64, 65, 100, 101, 128, 129, 200, 256, 257, len - 1, len, len + 1] {
                for fd in d {
                    ops.push(Op::Get("q".into(), c, fd));
                }
            }
            for (k, c) in [21usize, 51, 65, 101, 129, 200].into_iter().enumerate() {
                let (fd, td) = (d[k % 2], d[(k / 2) % 2]);
                ops.push(Op::Move("q".into(), "r".into(), c, fd, td));
                ops.push(Op::Get("r".into(), c + 7, td));
                ops.push(Op::Move("r".into(), "q".into(), c - 1, td, fd));
                ops.push(Op::Count("q".into()));
            }
            st.case(&format!("list of {} items", len), true);
            if let Err(f) = run(&ops, false) {
                if f.hits(&a.prop) { first = Some(f); break 'y; }
            }
        }
    }
    let max = if redis { 400 } else { 40_000 };
    let mut n = 0;
    while first.is_none() && a.left() && n < max {
        n += 1;
        let big = r.chance(20);
        let k = 3 + r.below(if big { 60 } else { 25 });
        let mut ops: Vec<Op> = (0..k).map(|_| gen(&mut r, big)).collect();
        if redis { ops.iter_mut().for_each(one_by_one); }
        st.case(&format!("{:?}", ops), ops.iter().any(|o| matches!(o, Op::Move(..) | Op::Remove(..))));
        if let Err(f) = run(&ops, !redis && n < 5000) {
            if f.hits(&a.prop) {
                // shorten
                let mut best = ops.clone();
                best.truncate(f.history.len());
                let mut bf = f;
                let mut i = 0;
                while i < best.len() && best.len() > 1 {
                    let mut t = best.clone();
                    t.remove(i);
                    match run(&t, true) {
                        Err(f2) if f2.hits(&a.prop) => { best = t; best.truncate(f2.history.len()); bf = f2; }
                        _ => i += 1,
                    }
                }
                first = Some(bf);
            }
        }
    }
    if first.is_none() && a.prop == "C03" {
        if let Err(f) = typed(&a, &mut st, 3000) { first = Some(f); }
    }
    if first.is_none() && !redis {
        if let Err(f) = first_use(&a, &mut st, 6000) {
            if f.hits(&a.prop) { first = Some(f); }
        }
    }
    if first.is_none() && !redis {
        if let Err(f) = concurrent(&a, &mut st, 60) {
            if f.hits(&a.prop) { first = Some(f); }
        }
    }
    finish(&a, &st, first)
}
