mod alloc;
mod decode;
mod gen;
mod io;
mod props_cursor;
mod props_fault;
mod props_io;
mod props_merge;
mod rng;
mod util;

use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Checking = alloc::Checking;

fn case(prop: &str, seed: u64, id: u64, thorough: bool) -> util::Res {
    // the first ids are small, then sizes cycle
    let size = if thorough { (id % 9) as usize } else { [0, 1, 2, 3, 1, 4, 2, 5, 0, 3, 1, 6, 2, 4, 3, 7][(id % 16) as usize] };
    let size = if id < 40 { size.min(2 + (id / 10) as usize) } else { size };
    let mut r = rng::Rng::new(seed, id.wrapping_mul(1000).wrapping_add(prop.bytes().map(|b| b as u64).sum()));
    let r = &mut r;
    match prop {
        "C01" => props_io::c01(r, size, id),
        "C02" => props_cursor::c02(r, size, id),
        "C03" => props_cursor::c03(r, size, id),
        "C04" => props_cursor::c04(r, size, id),
        "C05" => props_cursor::c05(r, size, id),
        "C06" => props_merge::c06(r, size, id),
        "C07" => props_merge::c07(r, size, id),
        "C08" => props_merge::c08(r, size, id),
        "C09" => props_io::c09(r, size, id),
        "C10" => props_io::c10(r, size, id),
        "C11" => props_fault::c11(r, size, id),
        "C12" => props_fault::c12(r, size, id),
        "C13" => props_io::c13(r, size, id),
        "C14" => props_io::c14(r, size, id),
        "C15" => props_io::c15(r, size, id),
        "C16" => props_cursor::c16(r, size, id),
        "C17" => props_merge::c17(r, size, id),
        "C18" => props_io::c18(r, size, id),
        _ => panic!("unknown property"),
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

/// Runs one case, returns the description of the failure.
fn run_one(prop: &str, seed: u64, id: u64, thorough: bool) -> Option<String> {
    util::NOTES.with(|n| n.borrow_mut().clear());
    let last_panic = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let lp = last_panic.clone();
    std::panic::set_hook(Box::new(move |info| {
        if let Ok(mut l) = lp.lock() {
            *l = info.to_string();
        }
    }));
    let res = catch_unwind(AssertUnwindSafe(|| case(prop, seed, id, thorough)));
    alloc::STRICT.store(false, std::sync::atomic::Ordering::SeqCst);
    let msg = match res {
        Ok(Ok(())) => return None,
        Ok(Err(m)) => m,
        Err(_) => format!("panic: {}", last_panic.lock().unwrap()),
    };
    let p = last_panic.lock().unwrap().clone();
    let mut msg = msg;
    if !p.is_empty() && !msg.contains(&p) {
        msg += &format!(" [last panic: {p}]");
    }
    Some(msg)
}

fn notes() -> String {
    util::NOTES.with(|n| n.borrow().join("\n"))
}

fn failure_json(prop: &str, seed: u64, id: u64, thorough: bool, msg: &str, notes: &str) -> String {
    format!(
        "{{\"property\":{},\"seed\":{seed},\"case\":{id},\"thorough\":{thorough},\"failure\":{},\"input\":{}}}",
        esc(prop),
        esc(msg),
        esc(notes)
    )
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let num = |k: &str, d: u64| get(k).map_or(d, |v| v.parse().unwrap());
    let prop = args.get(2).cloned().unwrap_or_default();
    let seed = num("--seed", 1);
    let thorough = args.iter().any(|a| a == "--thorough");
    match args.get(1).map(|s| s.as_str()) {
        Some("known") => {
            // prints the known findings that are still there
            if prop == "C03" {
                if let Some(t) = props_cursor::c03_known() {
                    println!("{t}");
                }
            }
        }
        Some("case") => {
            let id = num("--case", 0);
            match run_one(&prop, seed, id, thorough) {
                None => println!("case {id} of {prop} passes"),
                Some(m) => {
                    println!("{}", failure_json(&prop, seed, id, thorough, &m, &notes()));
                    std::process::exit(1);
                }
            }
        }
        Some("worker") => {
            // worker PROP --seed S --secs T --first I --step K --max N --progress FILE
            let secs = num("--secs", 10);
            let (first, step, max) = (num("--first", 0), num("--step", 1), num("--max", u64::MAX));
            let progress = get("--progress").unwrap();
            let start = Instant::now();
            let mut id = first;
            let mut n = 0u64;
            let mut f = std::fs::File::create(&progress).unwrap();
            let mut hashes = std::collections::HashSet::new();
            let mut samples = Vec::new();
            while start.elapsed() < Duration::from_secs(secs) && id < max {
                use std::io::Seek;
                f.seek(std::io::SeekFrom::Start(0)).unwrap();
                write!(f, "{id:>20} {n:>20}\n").unwrap();
                if let Some(m) = run_one(&prop, seed, id, thorough) {
                    println!("FAIL {}", failure_json(&prop, seed, id, thorough, &m, &notes()));
                    std::process::exit(1);
                }
                n += 1;
                id += step;
                // distinct inputs, as described by their notes; an empty description is trivial
                let d = notes();
                if d.len() > 20 {
                    use std::hash::{Hash, Hasher};
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    d.hash(&mut h);
                    if hashes.insert(h.finish()) && samples.len() < 2 && id > 40 && d.len() < 3000 {
                        samples.push(d);
                    }
                }
            }
            let mut h = Vec::with_capacity(hashes.len() * 8);
            for x in &hashes {
                h.extend_from_slice(&x.to_le_bytes());
            }
            std::fs::write(format!("{progress}.h"), h).unwrap();
            for d in samples {
                println!("SAMPLE {}", esc(&d.chars().take(600).collect::<String>()));
            }
            println!("DONE {n} {id}");
        }
        Some("run") => {
            // run PROP --seed S --secs T --jobs K [--max N] : workers, watched
            let secs = num("--secs", 10);
            let jobs = num("--jobs", 4);
            let max = num("--max", u64::MAX);
            let exe = std::env::current_exe().unwrap();
            let dir = std::env::temp_dir().join(format!("replay-{}", std::process::id()));
            std::fs::create_dir_all(&dir).unwrap();
            let mut ws = Vec::new();
            for j in 0..jobs {
                let progress = dir.join(format!("p{j}"));
                let mut c = Command::new(&exe);
                c.args(["worker", &prop, "--seed", &seed.to_string(), "--secs", &secs.to_string(), "--first", &j.to_string(), "--step", &jobs.to_string(), "--max", &max.to_string()]);
                c.arg("--progress").arg(&progress);
                if thorough {
                    c.arg("--thorough");
                }
                let out = std::fs::File::create(dir.join(format!("o{j}"))).unwrap();
                // large blocks: keep freed memory instead of giving it back each time
                c.env("MALLOC_MMAP_MAX_", "0").env("MALLOC_TRIM_THRESHOLD_", "1000000000").env("MALLOC_TOP_PAD_", "16000000");
                ws.push((j, c.stdout(out).stderr(Stdio::null()).spawn().unwrap(), progress, String::new(), Instant::now(), None));
            }
            let hang = Duration::from_secs(num("--hang", 60));
            let (mut cases, mut failure) = (0u64, None::<String>);
            let mut distinct = std::collections::HashSet::new();
            let mut samples: Vec<String> = Vec::new();
            loop {
                let mut running = false;
                for (j, child, progress, last, since, status) in &mut ws {
                    if status.is_some() {
                        continue;
                    }
                    if let Some(st) = child.try_wait().unwrap() {
                        *status = Some(st);
                        let out = std::fs::read_to_string(dir.join(format!("o{j}"))).unwrap_or_default();
                        let p = std::fs::read_to_string(&progress).unwrap_or_default();
                        let nums: Vec<u64> = p.split_whitespace().filter_map(|x| x.parse().ok()).collect();
                        if let Ok(h) = std::fs::read(dir.join(format!("p{j}.h"))) {
                            distinct.extend(h.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
                        }
                        samples.extend(out.lines().filter(|l| l.starts_with("SAMPLE ")).map(String::from));
                        if let Some(l) = out.lines().find(|l| l.starts_with("DONE")) {
                            cases += l.split(' ').nth(1).unwrap().parse::<u64>().unwrap();
                        } else if let Some(l) = out.lines().find(|l| l.starts_with("FAIL")) {
                            cases += nums.get(1).copied().unwrap_or(0) + 1;
                            failure.get_or_insert(l[5..].to_string());
                        } else {
                            // crashed: confirm on that case alone
                            let id = nums.first().copied().unwrap_or(0);
                            let again = Command::new(&exe)
                                .args(["case", &prop, "--seed", &seed.to_string(), "--case", &id.to_string()])
                                .args(if thorough { vec!["--thorough"] } else { vec![] })
                                .stdout(Stdio::null())
                                .stderr(Stdio::null())
                                .status()
                                .unwrap();
                            if again.code() != Some(0) {
                                failure.get_or_insert(failure_json(&prop, seed, id, thorough, &format!("the process dies: {st}"), "run the case to see its input"));
                            } else {
                                println!("NOTE worker died ({st}) on case {id}, not reproduced");
                            }
                        }
                        continue;
                    }
                    running = true;
                    let p = std::fs::read_to_string(&progress).unwrap_or_default();
                    if p != *last {
                        *last = p;
                        *since = Instant::now();
                    } else if since.elapsed() > hang {
                        let id = last.split_whitespace().next().and_then(|x| x.parse().ok()).unwrap_or(0u64);
                        let _ = child.kill();
                        let _ = child.wait();
                        // slow is not a failure: the case alone, with more time
                        let mut again = Command::new(&exe)
                            .args(["case", &prop, "--seed", &seed.to_string(), "--case", &id.to_string()])
                            .args(if thorough { vec!["--thorough"] } else { vec![] })
                            .env("MALLOC_MMAP_MAX_", "0")
                            .env("MALLOC_TRIM_THRESHOLD_", "1000000000")
                            .stdout(Stdio::null())
                            .stderr(Stdio::null())
                            .spawn()
                            .unwrap();
                        let t = Instant::now();
                        let ended = loop {
                            if let Some(st) = again.try_wait().unwrap() {
                                break Some(st);
                            }
                            if t.elapsed() > 2 * hang {
                                let _ = again.kill();
                                let _ = again.wait();
                                break None;
                            }
                            std::thread::sleep(Duration::from_millis(20));
                        };
                        match ended {
                            None => drop(failure.get_or_insert(failure_json(&prop, seed, id, thorough, &format!("no answer within {:?}", 2 * hang), "run the case to see its input"))),
                            Some(st) if st.code() != Some(0) => drop(failure.get_or_insert(failure_json(&prop, seed, id, thorough, &format!("the case ends with {st}"), "run the case to see its input"))),
                            Some(_) => println!("NOTE case {id} is slow"),
                        }
                    }
                }
                if failure.is_some() {
                    for w in &mut ws {
                        let _ = w.1.kill();
                        let _ = w.1.wait();
                    }
                    break;
                }
                if !running {
                    break;
                }
                std::thread::sleep(Duration::from_millis(20));
            }
            let _ = std::fs::remove_dir_all(&dir);
            println!("CASES {cases}");
            println!("DISTINCT {}", distinct.len());
            for s in samples.iter().take(3) {
                println!("{s}");
            }
            if let Some(f) = failure {
                println!("FAIL {f}");
                std::process::exit(1);
            }
        }
        _ => {
            eprintln!("usage: replay run|case|known PROP --seed S [--secs T --jobs K --max N | --case ID] [--thorough]");
            std::process::exit(2);
        }
    }
}
