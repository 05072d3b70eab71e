//! The server: one incarnation is the real server program with simulated clients inside of its process.
use crate::check::Hist;
use polosim_exec::plan::{Op, Plan};
use std::ffi::CString;

pub const PLAN_FD: i32 = 901;
/// Becomes the server.
pub fn exec_inc(plan: &Plan, k: usize) -> ! {
    unsafe {
        libc::personality(0x0040000);
        let fd = libc::memfd_create(c"plan".as_ptr(), 0);
        let t = serde_json::to_vec(plan).unwrap();
        let mut o = 0;
        while o < t.len() { let r = libc::write(fd, t[o..].as_ptr() as *const _, t.len() - o); if r <= 0 { libc::_exit(97); } o += r as usize; }
        if fd != PLAN_FD { libc::dup2(fd, PLAN_FD); libc::close(fd); }
        let nul = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
        libc::dup2(nul, 0); libc::dup2(nul, 1);
        if nul > 2 { libc::close(nul); }
        let dir = std::env::var("POLOSIM_SRV").unwrap_or("/verif/target/srv/debug".into());
        let lib = std::env::var("LD_PRELOAD").unwrap_or_default();
        let n = plan.note.get("workers").and_then(|x| x.as_u64()).unwrap_or(2);
        let mut env = vec![format!("LD_PRELOAD={lib}:{dir}/libpolosrv.so"), "LD_BIND_NOW=1".into(), "POLOSIM_FD=900".into(), format!("POLOSIM_INC={k}"), format!("TOKIO_WORKER_THREADS={n}"), "PATH=/usr/bin:/bin".into()];
        if let Ok(v) = std::env::var("POLOSIM_IOTRACE") { env.push(format!("POLOSIM_IOTRACE={v}")); }
        if let Ok(v) = std::env::var("POLOSIM_LOG") { env.push(format!("RUST_LOG={v}")); }
        let c = |s: &str| CString::new(s).unwrap();
        let exe = c(&format!("{dir}/polodb"));
        let args: Vec<CString> = ["polodb", "serve", "--host", "127.0.0.1", "--port", "27017", "--path", "/polosim/db"].iter().map(|s| c(s)).collect();
        let env: Vec<CString> = env.iter().map(|s| c(s)).collect();
        let mut a: Vec<*const libc::c_char> = args.iter().map(|s| s.as_ptr()).collect(); a.push(std::ptr::null());
        let mut e: Vec<*const libc::c_char> = env.iter().map(|s| s.as_ptr()).collect(); e.push(std::ptr::null());
        libc::execve(exe.as_ptr(), a.as_ptr(), e.as_ptr());
        libc::_exit(96)
    }
}
/// A complete insert whose sender went away without reading the reply may or may not happen, at any time from then on.
pub fn rewrite(h: &mut Hist) {
    for (i, e) in h.evs.iter_mut().enumerate() {
        if let Op::Cut { c, d, at, .. } = &e.op {
            if *at >= 1000 { e.op = Op::Insert { c: c.clone(), t: 0, d: d.clone() }; e.ret = None; e.client = 100_000 + i as u32; }
        }
    }
}
