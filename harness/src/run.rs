//! Runs cases in forked children.
use crate::case::Case;
use crate::exec::{Counters, Run};
use crate::rng::{hash_bytes, mix};
use crate::{gen, interpose};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicI32, Ordering};

pub enum Outcome {
    Ok(BTreeMap<String, u64>),
    Fail(String),
    Harness(String),
}

static PIPE: AtomicI32 = AtomicI32::new(-1);

fn pipe_write(s: &str) {
    let fd = PIPE.load(Ordering::SeqCst);
    if fd >= 0 {
        let b = s.as_bytes();
        let mut o = 0;
        while o < b.len() {
            let n = unsafe { libc::syscall(libc::SYS_write, fd, b[o..].as_ptr(), b.len() - o) };
            if n <= 0 {
                break;
            }
            o += n as usize;
        }
    }
}

pub fn scratch_root() -> PathBuf {
    let shm = Path::new("/dev/shm");
    let ok = unsafe {
        let mut st: libc::statvfs = std::mem::zeroed();
        let p = std::ffi::CString::new("/dev/shm").unwrap();
        libc::statvfs(p.as_ptr(), &mut st) == 0 && st.f_bavail as u64 * st.f_frsize as u64 > 2 << 30
    };
    if ok && std::fs::create_dir_all(shm.join(format!("sdbcheck.{}", std::process::id()))).is_ok() {
        return shm.join(format!("sdbcheck.{}", std::process::id()));
    }
    let p = std::env::temp_dir().join(format!("sdbcheck.{}", std::process::id()));
    let _ = std::fs::create_dir_all(&p);
    p
}

fn one_line(s: &str) -> String {
    s.replace('\n', " ")
}

fn child(case: &Case, dir: &Path) -> Result<Counters, String> {
    // a panic message is kept for the report, also if the process aborts
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        pipe_write(&format!("P {} at {}\n", one_line(&msg), loc));
    }));
    interpose::state().track = matches!(case.prop.as_str(), "C03" | "C16" | "C19" | "C23");
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<Counters, String> {
        let mut run = Run::new(case, dir)?;
        let r = run.run();
        let cnt = run.cnt.clone();
        match r {
            Ok(()) => Ok(cnt),
            Err(e) => {
                // the state after a failure is of no interest
                std::mem::forget(run);
                Err(e)
            }
        }
    }));
    match r {
        Ok(x) => x,
        Err(_) => Err("PANIC".into()),
    }
}

#[cfg(feature = "asan")]
#[no_mangle]
pub extern "C" fn __asan_default_options() -> *const libc::c_char {
    b"detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=1024\0".as_ptr() as *const libc::c_char
}

fn set_limit(which: libc::__rlimit_resource_t, v: u64) {
    let l = libc::rlimit {
        rlim_cur: v,
        rlim_max: v,
    };
    unsafe {
        libc::setrlimit(which, &l);
    }
}

fn base_cpu() -> u64 {
    if cfg!(feature = "asan") {
        60
    } else {
        20
    }
}

/// `factor`: times the usual limit of CPU time
pub fn run_forked(case: &Case, factor: u64) -> Outcome {
    let root = scratch_root();
    let r = run_in(case, factor, &root);
    let _ = std::fs::remove_dir_all(&root);
    r
}

pub fn run_in(case: &Case, factor: u64, root: &Path) -> Outcome {
    let dir = root.join("c");
    let _ = std::fs::remove_dir_all(&dir);
    if let Err(e) = std::fs::create_dir_all(&dir) {
        return Outcome::Harness(format!("scratch directory: {}", e));
    }
    let errf = root.join("stderr");
    let mut fds = [0i32; 2];
    unsafe {
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            return Outcome::Harness("pipe".into());
        }
    }
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        return Outcome::Harness("fork".into());
    }
    if pid == 0 {
        unsafe {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        }
        PIPE.store(fds[1], Ordering::SeqCst);
        if let Ok(f) = std::fs::File::create(&errf) {
            use std::os::fd::IntoRawFd;
            let fd = f.into_raw_fd();
            unsafe {
                libc::dup2(fd, 2);
                libc::dup2(fd, 1);
                libc::close(fd);
            }
        }
        set_limit(libc::RLIMIT_CPU, base_cpu() * factor);
        set_limit(libc::RLIMIT_CORE, 0);
        if !cfg!(feature = "asan") {
            set_limit(libc::RLIMIT_AS, if case.prop == "C17" { 2 } else { 8 } << 30);
        }
        // more than any case writes, holes included
        let holes = matches!(case.prop.as_str(), "C21" | "C17");
        set_limit(libc::RLIMIT_FSIZE, if holes { 1 << 42 } else { 1 << 30 });
        let code = match child(case, &dir) {
            Ok(cnt) => {
                let mut s = String::new();
                for (k, v) in &cnt {
                    s.push_str(&format!("C {} {}\n", k, v));
                }
                s.push_str("OK\n");
                pipe_write(&s);
                0
            }
            Err(e) => {
                pipe_write(&format!("F {}\n", one_line(&e)));
                1
            }
        };
        unsafe { libc::_exit(code) }
    }
    unsafe {
        libc::close(fds[1]);
    }
    let mut text = vec![];
    let mut buf = [0u8; 4096];
    loop {
        let n = unsafe { libc::read(fds[0], buf.as_mut_ptr() as *mut libc::c_void, buf.len()) };
        if n <= 0 {
            break;
        }
        if text.len() < 1 << 20 {
            text.extend_from_slice(&buf[..n as usize]);
        }
    }
    let mut status = 0;
    unsafe {
        libc::close(fds[0]);
    }
    let mut ru: libc::rusage = unsafe { std::mem::zeroed() };
    unsafe { libc::wait4(pid, &mut status, 0, &mut ru) };
    let cpu = (ru.ru_utime.tv_sec + ru.ru_stime.tv_sec) as u64 + 1;
    let text = String::from_utf8_lossy(&text).to_string();
    // for debugging a replay
    if let Some(to) = std::env::var_os("SDBCHECK_KEEP") {
        let _ = std::fs::copy(&errf, PathBuf::from(&to).with_extension("stderr"));
        let _ = std::fs::rename(&dir, PathBuf::from(to));
    }
    let _ = std::fs::remove_dir_all(&dir);
    let mut cnt = BTreeMap::new();
    let mut panic_msg = String::new();
    let mut ok = false;
    let mut fail = None;
    for l in text.lines() {
        if let Some(r) = l.strip_prefix("C ") {
            if let Some((k, v)) = r.split_once(' ') {
                cnt.insert(k.to_string(), v.parse().unwrap_or(0));
            }
        } else if let Some(r) = l.strip_prefix("P ") {
            panic_msg = r.to_string();
        } else if let Some(r) = l.strip_prefix("F ") {
            fail = Some(r.to_string());
        } else if l == "OK" {
            ok = true;
        }
    }
    let err = || -> String {
        let s = std::fs::read(&errf).unwrap_or_default();
        let s = String::from_utf8_lossy(&s).to_string();
        let l = s
            .lines()
            .filter(|l| l.contains("ERROR: AddressSanitizer") || l.contains("SUMMARY:") || l.contains("unsafe precondition") || l.contains("runtime error"))
            .take(3)
            .collect::<Vec<_>>()
            .join(" / ");
        if l.is_empty() {
            s.lines().take(2).collect::<Vec<_>>().join(" / ")
        } else {
            l
        }
    };
    let only_memory = case.prop == "C17";
    if libc::WIFSIGNALED(status) {
        let sig = libc::WTERMSIG(status);
        // the CPU limit sends SIGKILL, as its soft and hard value are the same
        let hang = sig == libc::SIGXCPU || sig == libc::SIGKILL && cpu >= base_cpu() * factor;
        if sig == libc::SIGKILL && !hang {
            return Outcome::Harness(format!("killed from outside after {} s of CPU time", cpu));
        }
        if only_memory {
            let e = err();
            let m = format!("{} {}", panic_msg, e);
            let found = ["ERROR: AddressSanitizer", "unsafe precondition"].iter().any(|w| m.contains(w));
            // the allocator of C reports by SIGABRT what it finds corrupted
            let heap = ["corrupted", "free():", "malloc", "realloc()", "double free", "munmap_chunk"].iter().any(|w| m.contains(w));
            if hang || sig == libc::SIGXFSZ || sig == libc::SIGABRT && !found && !heap {
                *cnt.entry("ignored-end".to_string()).or_insert(0) += 1;
                return Outcome::Ok(cnt);
            }
        }
        if hang {
            return Outcome::Fail(format!("HANG: no end within the CPU time limit of {} s", base_cpu() * factor));
        }
        return Outcome::Fail(format!("killed by signal {}: {} {}", sig, panic_msg, one_line(&err())));
    }
    let code = libc::WEXITSTATUS(status);
    if only_memory && !ok && !err().contains("ERROR: AddressSanitizer") && fail.as_deref().map_or(true, |f| !f.starts_with("HARNESS")) {
        *cnt.entry("ignored-end".to_string()).or_insert(0) += 1;
        return Outcome::Ok(cnt);
    }
    if ok && code == 0 {
        return Outcome::Ok(cnt);
    }
    match fail {
        Some(f) if f == "PANIC" => {
            if panic_msg.starts_with("HARNESS") {
                Outcome::Harness(panic_msg)
            } else {
                Outcome::Fail(format!("panic: {}", panic_msg))
            }
        }
        Some(f) if f.starts_with("HARNESS") => Outcome::Harness(f),
        Some(f) if f.contains("panic") => Outcome::Fail(format!("{}: {}", f, panic_msg)),
        Some(f) => Outcome::Fail(f),
        None => Outcome::Fail(format!("the process ended with status {}: {} {}", code, panic_msg, one_line(&err()))),
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Worker {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub shard: u64,
    pub cases: u64,
    pub cap_s: u64,
    pub out: PathBuf,
}

pub fn case_seed(prop: &str, seed: u64, shard: u64, i: u64) -> u64 {
    mix(mix(seed ^ hash_bytes(prop.as_bytes())) ^ mix(shard << 40 | i))
}

impl Worker {
    pub fn run(&self) -> i32 {
        let t0 = std::time::Instant::now();
        let root = scratch_root();
        let small = cfg!(feature = "small");
        let mut totals: BTreeMap<String, u64> = BTreeMap::new();
        let mut with: BTreeMap<String, u64> = BTreeMap::new();
        let mut hashes = BTreeSet::new();
        let mut samples: Vec<String> = vec![];
        let mut n = 0;
        let mut fail: Option<(String, String)> = None;
        let mut harness: Option<String> = None;
        let mut slow = (0u128, 0u64);
        for i in 0..self.cases {
            if t0.elapsed().as_secs() > self.cap_s {
                break;
            }
            let seed = case_seed(&self.prop, self.seed, self.shard, i);
            let case = gen::gen_case(&self.prop, small, self.thorough, seed);
            let t = std::time::Instant::now();
            let mut r = run_in(&case, 1, &root);
            for _ in 0..2 {
                if matches!(r, Outcome::Harness(_)) {
                    std::thread::sleep(std::time::Duration::from_millis(300));
                    r = run_in(&case, 1, &root);
                }
            }
            if matches!(&r, Outcome::Fail(m) if m.starts_with("HANG")) {
                // slow or endless?
                r = run_in(&case, 2, &root);
            }
            let dt = t.elapsed().as_millis();
            if dt > slow.0 {
                slow = (dt, i);
            }
            n += 1;
            match r {
                Outcome::Ok(c) => {
                    let cs: Counters = c
                        .iter()
                        .map(|(k, v)| (&*Box::leak(k.clone().into_boxed_str()), *v))
                        .collect();
                    if gen::nontrivial(&self.prop, &cs) {
                        let text = case.to_text();
                        hashes.insert(hash_bytes(text.as_bytes()));
                        if samples.len() < 2 && text.len() < 6000 {
                            samples.push(text);
                        }
                    }
                    for (k, v) in c {
                        *totals.entry(k.clone()).or_insert(0) += v;
                        *with.entry(k).or_insert(0) += 1;
                    }
                }
                Outcome::Fail(m) => {
                    fail = Some((m, case.to_text()));
                    break;
                }
                Outcome::Harness(m) => {
                    harness = Some(format!("case {} seed {}: {}", i, seed, m));
                    break;
                }
            }
        }
        let _ = std::fs::remove_dir_all(&root);
        let map = |m: &BTreeMap<String, u64>| -> String {
            let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect();
            format!("{{{}}}", v.join(", "))
        };
        let hs: Vec<String> = hashes.iter().map(|h| format!("\"{:016x}\"", h)).collect();
        let ss: Vec<String> = samples.iter().map(|s| esc(s)).collect();
        let mut s = String::new();
        s.push_str(&format!(
            "{{\"cases\": {}, \"planned\": {}, \"small\": {}, \"totals\": {}, \"with\": {}, \"hashes\": [{}], \"samples\": [{}], \"rule\": {}, \"slowest_ms\": {}, \"slowest\": {}",
            n,
            self.cases,
            small,
            map(&totals),
            map(&with),
            hs.join(", "),
            ss.join(", "),
            esc(gen::rule(&self.prop)),
            slow.0,
            slow.1
        ));
        if let Some((m, c)) = &fail {
            s.push_str(&format!(", \"fail\": {}, \"case\": {}", esc(m), esc(c)));
        }
        if let Some(m) = &harness {
            s.push_str(&format!(", \"harness\": {}", esc(m)));
        }
        s.push_str("}\n");
        let w = std::fs::File::create(&self.out).and_then(|mut f| f.write_all(s.as_bytes()));
        if w.is_err() || harness.is_some() {
            return 2;
        }
        if fail.is_some() {
            1
        } else {
            0
        }
    }
}
