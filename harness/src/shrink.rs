//! Delta debugging of failing cases.
use crate::case::*;
use crate::run::{run_in, scratch_root, Outcome};
use std::path::PathBuf;
use std::time::{Duration, Instant};

struct S {
    root: PathBuf,
    end: Instant,
    best: Case,
    msg: String,
    hang: bool,
}

impl S {
    fn over(&self) -> bool {
        Instant::now() > self.end
    }
    fn try_case(&mut self, c: Case) -> bool {
        if self.over() || c == self.best {
            return false;
        }
        match run_in(&c, 1, &self.root) {
            Outcome::Fail(m) if m.starts_with("HANG") == self.hang => {
                self.best = c;
                self.msg = m;
                true
            }
            _ => false,
        }
    }
    fn ddmin(&mut self, get: fn(&mut Case) -> &mut Vec<Op>) {
        let mut n = 2usize;
        loop {
            let len = get(&mut self.best.clone()).len();
            if len == 0 || self.over() {
                return;
            }
            let size = (len + n - 1) / n;
            let mut i = 0;
            let mut any = false;
            // from the end on, as the last operation most often shows the failure
            while i * size < get(&mut self.best.clone()).len() {
                let l = get(&mut self.best.clone()).len();
                let a = (i * size).min(l);
                let b = ((i + 1) * size).min(l);
                let mut c = self.best.clone();
                get(&mut c).drain(a..b);
                if self.try_case(c) {
                    any = true;
                } else {
                    i += 1;
                }
                if self.over() {
                    return;
                }
            }
            if size == 1 && !any {
                return;
            }
            if !any {
                n = (n * 2).min(len);
            } else {
                n = n.max(2).min(get(&mut self.best.clone()).len().max(1));
            }
        }
    }
    fn each(&mut self, get: fn(&mut Case) -> &mut Vec<Op>) {
        let len = get(&mut self.best.clone()).len();
        for i in 0..len {
            if self.over() {
                return;
            }
            macro_rules! attempt {
                ($o:ident => $e:expr) => {{
                    let mut c = self.best.clone();
                    {
                        let $o = &mut get(&mut c)[i];
                        $e;
                    }
                    self.try_case(c)
                }};
            }
            let o = get(&mut self.best.clone())[i].clone();
            if matches!(o.kind, Kind::PutR | Kind::DelR | Kind::GetR) {
                // fewer
                loop {
                    let n = get(&mut self.best.clone())[i].arg(0);
                    if n <= 1 {
                        break;
                    }
                    if attempt!(o => o.args[0] = n / 2) {
                        continue;
                    }
                    if attempt!(o => o.args[0] = n - (n / 4).max(1)) {
                        continue;
                    }
                    if attempt!(o => o.args[0] = n - 1) {
                        continue;
                    }
                    break;
                }
                attempt!(o => o.args[1] = 0);
                attempt!(o => if o.args.len() > 2 { o.args[2] = 0 });
            }
            if matches!(o.kind, Kind::BGet | Kind::BPut | Kind::BDel) {
                let mut j = 0;
                while j < get(&mut self.best.clone())[i].keys.len() {
                    let ok = attempt!(o => {
                        o.keys.remove(j);
                        if j < o.vals.len() {
                            o.vals.remove(j);
                        }
                    });
                    if !ok {
                        j += 1;
                    }
                    if self.over() {
                        return;
                    }
                }
            }
            if !matches!(o.kind, Kind::Snap | Kind::Fault | Kind::Fsck) {
                attempt!(o => o.form = 1);
            } else {
                attempt!(o => o.form = 0);
            }
            attempt!(o => o.h = 0);
            for j in 0..o.vals.len() {
                for l in [0u32, 1, 8, 100, 1000] {
                    if l < o.vals[j].0 && attempt!(o => o.vals[j].0 = l) {
                        break;
                    }
                }
            }
        }
    }
}

pub fn shrink(case: Case, budget_s: u64) -> (Case, String) {
    let root = scratch_root();
    let mut s = S {
        root: root.clone(),
        end: Instant::now() + Duration::from_secs(budget_s),
        best: case.clone(),
        msg: String::new(),
        hang: false,
    };
    match run_in(&case, 1, &root) {
        Outcome::Fail(m) => {
            s.hang = m.starts_with("HANG");
            s.msg = m
        }
        Outcome::Ok(_) => {
            s.msg = "not reproduced".into();
            let _ = std::fs::remove_dir_all(&root);
            return (case, s.msg);
        }
        Outcome::Harness(m) => {
            let _ = std::fs::remove_dir_all(&root);
            return (case, m);
        }
    }
    if !s.hang {
        for _ in 0..3 {
            let before = s.best.clone();
            s.ddmin(|c| &mut c.ops);
            if s.best.reps > 0 {
                s.ddmin(|c| &mut c.cyc);
                while s.best.reps > 1 {
                    let mut c = s.best.clone();
                    c.reps /= 2;
                    if !s.try_case(c) {
                        break;
                    }
                }
            }
            // maps that are not needed
            let mut m = s.best.maps.len();
            while m > 1 {
                m -= 1;
                let mut c = s.best.clone();
                c.maps.remove(m);
                let keep = |o: &Op| (o.m as usize) != m;
                c.ops.retain(keep);
                c.cyc.retain(keep);
                for o in c.ops.iter_mut().chain(c.cyc.iter_mut()) {
                    if o.m as usize > m {
                        o.m -= 1;
                    }
                    if o.kind == Kind::Reopen {
                        o.args.truncate(2);
                    }
                }
                s.try_case(c);
            }
            for m in 0..s.best.maps.len() {
                let mut c = s.best.clone();
                c.maps[m].bufs = None;
                s.try_case(c);
                let mut c = s.best.clone();
                c.maps[m].ht = 16;
                s.try_case(c);
            }
            if s.best.mem {
                let mut c = s.best.clone();
                c.mem = false;
                s.try_case(c);
            }
            s.each(|c| &mut c.ops);
            s.each(|c| &mut c.cyc);
            if s.best == before || s.over() {
                break;
            }
        }
    }
    let _ = std::fs::remove_dir_all(&root);
    (s.best, s.msg)
}
