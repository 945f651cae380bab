//! replay DIR: reads lines "ENTRY in1,in2,..." and runs each in a child of its own, on the real code.
include!(env!("VP_TABLE"));
use std::io::{BufRead, Write};
use std::os::unix::process::ExitStatusExt;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 4 {
        let ins = a[2].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        vp::native::start(ins, a[3].clone());
        std::panic::set_hook(Box::new(|i| {
            let s = match i.payload().downcast_ref::<&str>() {
                Some(s) => s.to_string(),
                None => i.payload().downcast_ref::<String>().cloned().unwrap_or_default(),
            };
            println!("REPLAY: panic at {:?}: {}", i.location().map(|l| (l.file().to_string(), l.line())), s);
        }));
        match TABLE.iter().find(|e| e.0 == a[1]) {
            Some(e) => {
                let f = e.1;
                if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f())).is_err() {
                    std::process::exit(101)
                }
            }
            None => std::process::exit(78),
        }
        return;
    }
    // batch
    let me = std::env::current_exe().unwrap();
    let mut n = 0;
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let mut p = l.splitn(2, ' ');
        let e = p.next().unwrap();
        let ins = p.next().unwrap_or("");
        let dir = format!("{}/{}", a[1], n);
        n += 1;
        std::fs::create_dir_all(&dir).unwrap();
        let o = std::process::Command::new("/usr/bin/timeout").arg("20").arg(&me).arg(e).arg(ins).arg(&dir).output().unwrap();
        let _ = std::fs::remove_dir_all(&dir);
        let out = String::from_utf8_lossy(&o.stdout).replace('\n', " | ");
        let _ = writeln!(std::io::stdout(), "{} {}", o.status.code().unwrap_or(128 + o.status.signal().unwrap_or(0)), out);
    }
}
