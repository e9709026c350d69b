//! A process that was set aside before the library was used for the first time, and from which a
//! fresh one is forked for every question. Whatever the library keeps in its process is as after
//! the start of the program there.

use std::io::{BufRead, BufReader, Read, Write};
use std::os::fd::FromRawFd;
use std::sync::Mutex;

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn close(fd: i32) -> i32;
    fn prctl(option: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn _exit(code: i32) -> !;
}

struct Link {
    to: std::fs::File,
    from: BufReader<std::fs::File>,
}

static LINK: Mutex<Option<Link>> = Mutex::new(None);

fn two() -> (i32, i32) {
    let mut f = [0i32; 2];
    assert!(unsafe { pipe(f.as_mut_ptr()) } == 0);
    (f[0], f[1])
}

/// To be called while there is only one thread.
pub fn start(answer: fn(&str, u64) -> String) {
    let (ask_r, ask_w) = two();
    let (ans_r, ans_w) = two();
    unsafe {
        let pid = fork();
        assert!(pid >= 0);
        if pid > 0 {
            close(ask_r);
            close(ans_w);
            *LINK.lock().unwrap() = Some(Link {
                to: std::fs::File::from_raw_fd(ask_w),
                from: BufReader::new(std::fs::File::from_raw_fd(ans_r)),
            });
            return;
        }
        // ends together with the process that asks
        prctl(1, 9, 0, 0, 0);
        close(ask_w);
        close(ans_r);
        let mut r = std::fs::File::from_raw_fd(ask_r);
        let mut w = std::fs::File::from_raw_fd(ans_w);
        loop {
            let mut head = [0u8; 16];
            if r.read_exact(&mut head).is_err() {
                _exit(0);
            }
            let len = u64::from_le_bytes(head[..8].try_into().unwrap()) as usize;
            let arg = u64::from_le_bytes(head[8..].try_into().unwrap());
            let mut text = vec![0u8; len];
            if r.read_exact(&mut text).is_err() {
                _exit(0);
            }
            let pid = fork();
            if pid == 0 {
                prctl(1, 9, 0, 0, 0);
                let a = answer(&String::from_utf8_lossy(&text), arg);
                let _ = w.write_all(format!("{}\n", a.replace('\n', " ")).as_bytes());
                _exit(0);
            }
            let mut status = 0;
            if pid < 0 || waitpid(pid, &mut status, 0) != pid || status != 0 {
                let _ = w.write_all(format!("DIED {}\n", status & 0x7f).as_bytes());
            }
        }
    }
}

/// None if there is no such process.
pub fn ask(text: &str, arg: u64) -> Option<String> {
    let mut g = LINK.lock().unwrap_or_else(|e| e.into_inner());
    let l = g.as_mut()?;
    let mut m = (text.len() as u64).to_le_bytes().to_vec();
    m.extend(arg.to_le_bytes());
    m.extend(text.as_bytes());
    l.to.write_all(&m).ok()?;
    let mut s = String::new();
    l.from.read_line(&mut s).ok()?;
    Some(s.trim().to_string())
}
