//! Worker processes: a fresh process image with a fixed environment that forks one runner per plan.
use crate::runner::{self, Opts, Outcome};
use polosim_exec::plan::Plan;
use polosim_exec::sys;
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::os::unix::process::CommandExt;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub const COV_FD: i32 = 10;
#[derive(Serialize, Deserialize)]
pub struct Req { pub plan: Plan, pub want_dev: bool, pub want_hist: bool }

unsafe fn rd(mut p: *mut u8, mut n: usize) -> bool {
    while n > 0 {
        let r = libc::read(0, p as *mut _, n);
        if r <= 0 { return false; }
        p = p.add(r as usize); n -= r as usize;
    }
    true
}
unsafe fn wr(b: &[u8]) {
    let mut o = 0;
    while o < b.len() { let r = libc::write(1, b[o..].as_ptr() as *const _, b.len() - o); if r <= 0 { libc::_exit(98); } o += r as usize; }
}
fn cov_map() -> Option<&'static mut [u8]> {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), sys::COVCAP, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, COV_FD, 0);
        if p == libc::MAP_FAILED { None } else { Some(std::slice::from_raw_parts_mut(p as *mut u8, sys::COVCAP)) }
    }
}
pub fn main() -> ! {
    unsafe {
        sys::ps_worker();
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        loop {
            let pid = libc::fork();
            if pid == 0 {
                let mut l = [0u8; 4];
                if !rd(l.as_mut_ptr(), 4) { libc::_exit(99); }
                let n = u32::from_le_bytes(l) as usize;
                let mut b = vec![0u8; n];
                if !rd(b.as_mut_ptr(), n) { libc::_exit(99); }
                polosim_exec::exec::install_panic_hook();
                let o = match serde_json::from_slice::<Req>(&b) {
                    Ok(q) => { let dump = q.want_hist; 
                        std::panic::catch_unwind(|| runner::run(&q.plan, &Opts { want_dev: q.want_dev, want_hist: dump }, cov_map()))
                            .unwrap_or_else(|_| Outcome { simerr: Some(format!("panic: {}", polosim_exec::exec::last_panic())), ..Default::default() }) }
                    Err(e) => Outcome { simerr: Some(format!("plan: {e}")), ..Default::default() },
                };
                let t = serde_json::to_vec(&o).unwrap();
                wr(&(t.len() as u32).to_le_bytes());
                wr(&t);
                libc::_exit(0);
            }
            let mut st = 0;
            while libc::waitpid(pid, &mut st, 0) < 0 {}
            if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 99 { libc::_exit(0); }
            if !libc::WIFEXITED(st) || libc::WEXITSTATUS(st) != 0 {
                let t = serde_json::to_vec(&Outcome { simerr: Some(format!("the runner ended with status {st:x}")), ..Default::default() }).unwrap();
                wr(&(t.len() as u32).to_le_bytes());
                wr(&t);
            }
        }
    }
}
pub struct Worker { child: Child, i: ChildStdin, o: ChildStdout }
impl Worker {
    pub fn spawn(cov: i32) -> Worker {
        let lib = std::env::var("POLOSIM_LIBDIR").unwrap_or("/verif/target/sim".into()) + "/libpolosim.so";
        let mut c = Command::new(std::env::current_exe().unwrap());
        c.arg("worker").env_clear().env("LD_PRELOAD", lib).env("PATH", "/usr/bin:/bin").env("LD_BIND_NOW", "1");
        for k in ["POLOSIM_STDERR", "POLOSIM_SRV", "POLOSIM_IOTRACE"] { if let Ok(v) = std::env::var(k) { c.env(k, v); } }
        c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::inherit()).current_dir("/");
        unsafe { c.pre_exec(move || { libc::personality(0x0040000); if cov >= 0 { libc::dup2(cov, COV_FD); } Ok(()) }); }
        let mut child = c.spawn().expect("worker");
        let (i, o) = (child.stdin.take().unwrap(), child.stdout.take().unwrap());
        Worker { child, i, o }
    }
    pub fn run(&mut self, plan: &Plan, want_dev: bool, want_hist: bool) -> Outcome {
        let t = serde_json::to_vec(&Req { plan: plan.clone(), want_dev, want_hist }).unwrap();
        let mut f = || -> std::io::Result<Vec<u8>> {
            self.i.write_all(&(t.len() as u32).to_le_bytes())?;
            self.i.write_all(&t)?;
            self.i.flush()?;
            let mut l = [0u8; 4];
            self.o.read_exact(&mut l)?;
            let mut b = vec![0; u32::from_le_bytes(l) as usize];
            self.o.read_exact(&mut b)?;
            Ok(b)
        };
        match f() {
            Ok(b) => serde_json::from_slice(&b).unwrap_or_else(|e| Outcome { simerr: Some(format!("answer: {e}")), ..Default::default() }),
            Err(e) => { let s = self.child.try_wait(); Outcome { simerr: Some(format!("worker: {e} {s:?}")), ..Default::default() } }
        }
    }
}
impl Drop for Worker { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }
pub struct Cov { pub fd: i32, p: *const u8 }
unsafe impl Sync for Cov {}
unsafe impl Send for Cov {}
impl Cov {
    pub fn new() -> Cov {
        unsafe {
            let fd = libc::memfd_create(c"cov".as_ptr(), 0);
            libc::ftruncate(fd, sys::COVCAP as i64);
            let p = libc::mmap(std::ptr::null_mut(), sys::COVCAP, libc::PROT_READ, libc::MAP_SHARED, fd, 0);
            Cov { fd, p: p as *const u8 }
        }
    }
    pub fn count(&self) -> usize { (0..sys::COVCAP).filter(|i| unsafe { *self.p.add(*i) } != 0).count() }
}
