//! C26: reading a file under every bounded sequence of operating system
//! answers. The C library's read calls are interposed: for the file under
//! test every answer is a choice of the explorer.
use std::ffi::{c_char, c_int, c_void, CStr};
use std::sync::Mutex;

use essay_tensor::io::read_file;
use essay_tensor::tensor::Tensor;
use mc::*;

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum Ans {
    Full,
    Short(usize),
    Eintr,
    Fail(i32),
    /// end of file now, although more was there before
    Eof,
}

#[derive(Default)]
struct Env {
    on: bool,
    path: Vec<u8>,
    fds: Vec<c_int>,
    content: Vec<u8>,
    pos: usize,
    eof: bool,
    /// answers by read number; Full beyond
    script: Vec<Ans>,
    reads: usize,
    sizes: Vec<usize>,
    failed: Option<i32>,
    open_script: Vec<i32>,
    opens: usize,
    open_failed: Option<i32>,
}

static ENV: Mutex<Env> = Mutex::new(Env {
    on: false, path: Vec::new(), fds: Vec::new(), content: Vec::new(), pos: 0, eof: false, script: Vec::new(), reads: 0, sizes: Vec::new(),
    failed: None, open_script: Vec::new(), opens: 0, open_failed: None,
});

fn errno(e: i32) -> isize {
    unsafe { *libc::__errno_location() = e };
    -1
}

/// The next answer for a read of up to `n` bytes.
fn answer(env: &mut Env, buf: *mut u8, n: usize, at: Option<usize>) -> isize {
    let k = env.reads;
    env.reads += 1;
    let pos = at.unwrap_or(env.pos);
    let left = if env.eof { 0 } else { env.content.len().saturating_sub(pos) };
    env.sizes.push(n);
    if n == 0 {
        return 0;
    }
    let m = match env.script.get(k).copied().unwrap_or(Ans::Full) {
        Ans::Full => left.min(n),
        Ans::Short(m) => left.min(n).min(m),
        Ans::Eintr => return errno(libc::EINTR),
        Ans::Fail(e) => {
            env.failed.get_or_insert(e);
            return errno(e);
        }
        Ans::Eof => { env.eof = true; 0 }
    };
    if m == 0 {
        env.eof = true;
        if at.is_none() { env.content.truncate(env.pos); }
        return 0;
    }
    unsafe { std::ptr::copy_nonoverlapping(env.content.as_ptr().add(pos), buf, m) };
    if at.is_none() { env.pos += m; }
    m as isize
}

fn mine(fd: c_int) -> Option<std::sync::MutexGuard<'static, Env>> {
    let e = ENV.lock().unwrap_or_else(|e| e.into_inner());
    if e.on && e.fds.contains(&fd) { Some(e) } else { None }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    if let Some(mut e) = mine(fd) {
        return answer(&mut e, buf as *mut u8, n, None);
    }
    libc::syscall(libc::SYS_read, fd, buf, n) as isize
}

#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: usize, off: i64) -> isize {
    if let Some(mut e) = mine(fd) {
        return answer(&mut e, buf as *mut u8, n, Some(off as usize));
    }
    libc::syscall(libc::SYS_pread64, fd, buf, n, off) as isize
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> isize {
    if let Some(mut e) = mine(fd) {
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return answer(&mut e, v.iov_base as *mut u8, v.iov_len, None);
            }
        }
        return 0;
    }
    libc::syscall(libc::SYS_readv, fd, iov, cnt) as isize
}

unsafe fn do_open(dir: c_int, path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    let p = CStr::from_ptr(path).to_bytes();
    let mut e = ENV.lock().unwrap_or_else(|e| e.into_inner());
    let hit = e.on && e.path == p;
    if hit {
        let k = e.opens;
        e.opens += 1;
        if let Some(err) = e.open_script.get(k).copied().filter(|e| *e != 0) {
            if err != libc::EINTR { e.open_failed.get_or_insert(err); }
            return errno(err) as c_int;
        }
    }
    let fd = libc::syscall(libc::SYS_openat, dir, path, flags, mode) as c_int;
    if hit && fd >= 0 {
        e.fds.push(fd);
    }
    fd
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}

fn content(n: usize) -> Vec<u8> {
    (0..n).map(|i| ((i * 131 + i / 251) % 255) as u8 + 1).collect()
}

struct Seen {
    reads: usize,
}

/// One execution of read_file with the given answers.
fn exec(c: &mut Ctx, path: &str, real: usize, n: usize, script: &[Ans], opens: &[i32], form: usize) -> Result<Seen, String> {
    c.tick();
    {
        let mut e = ENV.lock().unwrap();
        *e = Env { on: true, path: path.as_bytes().to_vec(), content: content(n), script: script.to_vec(), open_script: opens.to_vec(), ..Env::default() };
    }
    let got = catch(|| match form {
        0 => read_file(path),
        1 => read_file(path.to_string()),
        2 => read_file(&Tensor::from(path)),
        _ => {
            let t = Tensor::from_vec(vec!["nowhere".to_string(), path.to_string(), "else".to_string()], [3]);
            read_file(t.subslice(1, 1))
        }
    });
    let e = {
        let mut g = ENV.lock().unwrap();
        g.on = false;
        std::mem::take(&mut *g)
    };
    for fd in &e.fds {
        if unsafe { libc::fcntl(*fd, libc::F_GETFD) } != -1 {
            unsafe { libc::close(*fd) };
            return Err(format!("descriptor {fd} is still open after the call"));
        }
    }
    let got = got.map_err(|m| format!("panicked: {m}"))?;
    c.outcome(&(got.is_ok(), e.reads, e.failed, e.open_failed));
    if let Some(err) = e.open_failed.or(e.failed) {
        return match got {
            Ok(t) => Err(format!("a failing call (error {err}) was answered with {} bytes", t.size())),
            Err(x) if x.raw_os_error() == Some(err) => Ok(Seen { reads: e.reads }),
            Err(x) => Err(format!("the error {err} was reported as {x:?}")),
        };
    }
    if e.fds.is_empty() && e.opens == 0 {
        // the reads could not be observed: only the plain case can be judged
        if real != n || !script.is_empty() { return Ok(Seen { reads: 0 }); }
    }
    let want = if e.reads == 0 { content(n) } else { e.content[..e.pos].to_vec() };
    match got {
        Err(x) => Err(format!("an error without a failing call: {x:?}")),
        Ok(t) => {
            if e.reads > 0 && !e.eof {
                return Err(format!("{} bytes returned before end of file was seen", t.size()));
            }
            ctx_err("bytes", same(&t, &M::new(&[want.len()], want)))?;
            Ok(Seen { reads: e.reads })
        }
    }
}

/// All scripts with at most `bound` deviations from Full.
fn explore(c: &mut Ctx, path: &str, real: usize, n: usize, bound: usize, alphabet: &[Ans], depth: usize) -> R {
    fn go(c: &mut Ctx, path: &str, real: usize, n: usize, bound: usize, alphabet: &[Ans], depth: usize, prefix: Vec<Ans>) -> R {
        c.state(&(real, n, &prefix));
        let seen = exec(c, path, real, n, &prefix, &[], 0).map_err(|e| format!("answers {prefix:?}: {e}"))?;
        if bound == 0 { return Ok(()); }
        for at in prefix.len()..seen.reads.min(depth) {
            for a in alphabet {
                let mut p = prefix.clone();
                p.resize(at, Ans::Full);
                p.push(*a);
                go(c, path, real, n, bound - 1, alphabet, depth, p)?;
            }
        }
        Ok(())
    }
    go(c, path, real, n, bound, alphabet, depth, vec![])
}

fn main() {
    run("c26", |c| {
        let dir = std::env::current_dir().unwrap().join(format!("c26-{}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        let file = |n: usize, real: usize| -> String {
            let p = dir.join(format!("f{n}-{real}"));
            if !p.exists() { std::fs::write(&p, &content(n.max(real))[..real]).unwrap(); }
            p.to_str().unwrap().to_string()
        };
        let alphabet = [Ans::Short(1), Ans::Short(2), Ans::Short(31), Ans::Short(1000), Ans::Eintr, Ans::Eof, Ans::Fail(libc::EIO), Ans::Fail(libc::EAGAIN), Ans::Fail(libc::EISDIR), Ans::Fail(libc::EBADF), Ans::Fail(libc::EINVAL)];
        // undisturbed reads of every length
        let mut lens: Vec<usize> = (0..=c.pick(100, 300)).collect();
        for p in 7..=c.pick(18, 24) { lens.extend([(1 << p) - 1, 1 << p, (1 << p) + 1]); }
        for n in lens {
            for form in 0..4 {
                if form > 0 && n > 70 { continue; }
                c.case("plain", || format!("{n} bytes, argument form {form}"), |c| {
                    let p = file(n, n);
                    c.state(&("plain", n, form));
                    exec(c, &p, n, n, &[], &[], form).map(|_| ())
                });
            }
        }
        // one byte at a time, to the end
        for n in [0usize, 1, 2, 31, 32, 33, 40, 64, 65, 100, 300] {
            for k in [1usize, 2, 3, 7] {
                for real in [n, 0, 2 * n + 5] {
                    c.case("all short", || format!("{n} bytes in pieces of {k}, reported size {real}"), |c| {
                        let p = file(n, real);
                        c.state(&("short", n, k, real));
                        exec(c, &p, real, n, &vec![Ans::Short(k); 400], &[], 0).map(|_| ())?;
                        // and an interruption before every piece
                        let s: Vec<Ans> = (0..800).map(|i| if i % 2 == 0 { Ans::Eintr } else { Ans::Short(k) }).collect();
                        exec(c, &p, real, n, &s, &[], 0).map(|_| ())
                    });
                }
            }
        }
        // bounded deviations, with every relation of reported and real size
        let bound = c.pick(3, 4);
        for n in [0usize, 1, 3, 32, 33, 64, 200, 5000] {
            for real in [n, 0, 1, n / 2, n + 1, n + 40, 2 * n + 100] {
                for a in alphabet {
                    c.case("deviations", || format!("{n} bytes, reported size {real}, first answer {a:?}, {bound} deviations"), |c| {
                        let p = file(n, real);
                        fn tail(c: &mut Ctx, p: &str, real: usize, n: usize, bound: usize, a: Ans, al: &[Ans]) -> R {
                            // the deviation `a` at each of the first positions, then any others
                            let seen = exec(c, p, real, n, &[], &[], 0)?;
                            for at in 0..seen.reads.min(5) {
                                let mut pre = vec![Ans::Full; at];
                                pre.push(a);
                                c.state(&(real, n, &pre));
                                let s = exec(c, p, real, n, &pre, &[], 0).map_err(|e| format!("answers {pre:?}: {e}"))?;
                                if bound > 1 {
                                    for at2 in pre.len()..s.reads.min(8) {
                                        for b in al {
                                            let mut q = pre.clone();
                                            q.resize(at2, Ans::Full);
                                            q.push(*b);
                                            c.state(&(real, n, &q));
                                            let s2 = exec(c, p, real, n, &q, &[], 0).map_err(|e| format!("answers {q:?}: {e}"))?;
                                            if bound > 2 {
                                                for at3 in q.len()..s2.reads.min(10) {
                                                    for d in al {
                                                        let mut r = q.clone();
                                                        r.resize(at3, Ans::Full);
                                                        r.push(*d);
                                                        exec(c, p, real, n, &r, &[], 0).map_err(|e| format!("answers {r:?}: {e}"))?;
                                                    }
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                            Ok(())
                        }
                        tail(c, &p, real, n, bound, a, &alphabet)
                    });
                }
            }
        }
        // long files, one deviation at any read
        for n in [8191usize, 8192, 8193, 65536, 100_000] {
            for real in [n, 0, 10] {
                c.case("long", || format!("{n} bytes, reported size {real}"), |c| {
                    let p = file(n, real);
                    explore(c, &p, real, n, c.pick(1, 2), &alphabet, 40)
                });
            }
        }
        // failing opens
        for errs in [vec![libc::ENOENT], vec![libc::EACCES], vec![libc::EMFILE], vec![libc::ELOOP], vec![libc::EINTR, libc::ENFILE], vec![libc::EINTR], vec![libc::EINTR, libc::EINTR, libc::EINTR]] {
            c.case("open", || format!("open answers {errs:?}"), |c| {
                let p = file(20, 20);
                c.state(&errs);
                exec(c, &p, 20, 20, &[], &errs, 0).map(|_| ())
            });
        }
        // the name is used as given
        let decoys = dir.join("names");
        std::fs::create_dir_all(decoys.join("sub")).unwrap();
        let long = "n".repeat(255);
        let names = [
            "a", " a", "a ", "a\t", "\ta", "a\n", "\na", " ", "  ", "A", "a.txt", "a.TXT", ".a", "a.", "..a", "~", "~a", "-", "-a", "a*", "a?", "[a]", "$HOME", "%20", "a%20b", "a b", "a+b",
            "a\\b", "a:b", "a|b", "a#b", "a'b", "a\"b", "\u{e9}", "e\u{301}", "\u{65e5}\u{672c}", "\u{1f600}", "\u{a0}a", "a\u{a0}", "\u{feff}a", "file:a", "http", "sub/a", "sub/ a", "sub/a ", "./a", "sub/../a", "sub//a", long.as_str(),
        ];
        for (i, n) in names.iter().enumerate() {
            // one name per content; "./a" and its like are the same file
            if !n.contains("/../") && !n.starts_with("./") && !n.contains("//") {
                std::fs::write(decoys.join(n), format!("<{i}:{n}>")).unwrap();
            }
        }
        for n in names.iter() {
            c.case("names", || format!("{n:?}"), |c| {
                c.tick();
                c.state(n);
                let p = format!("{}/{n}", decoys.to_str().unwrap());
                let want = std::fs::read(&p).unwrap();
                for form in 0..4 {
                    let t = match form {
                        0 => read_file(p.as_str()),
                        1 => read_file(p.clone()),
                        2 => read_file(Tensor::from(p.as_str())),
                        _ => read_file(&Tensor::from(vec![p.clone()])),
                    }.map_err(|e| format!("form {form}: {e:?}"))?;
                    same(&t, &M::new(&[want.len()], want.clone()))?;
                }
                // a name that is not there stays not there
                match read_file(format!("{p}.missing").as_str()) {
                    Err(e) if e.kind() == std::io::ErrorKind::NotFound || *n == long => Ok(()),
                    r => Err(format!("missing name: {r:?}")),
                }
            });
        }
        // real objects of the file system
        c.case("real", || "missing file".into(), |c| {
            c.tick();
            match read_file(dir.join("missing").to_str().unwrap()) {
                Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(()),
                r => Err(format!("{r:?}")),
            }
        });
        c.case("real", || "a name with a zero byte".into(), |c| {
            c.tick();
            match read_file(format!("{}\0x", file(20, 20)).as_str()) {
                Err(_) => Ok(()),
                r => Err(format!("{r:?}")),
            }
        });
        c.case("real", || "directory".into(), |c| {
            c.tick();
            match read_file(dir.to_str().unwrap()) {
                Err(e) if e.raw_os_error() == Some(libc::EISDIR) => Ok(()),
                r => Err(format!("{r:?}")),
            }
        });
        c.case("real", || "a file whose reported size is 0 (/proc/self/cmdline)".into(), |c| {
            c.tick();
            let want = std::fs::read("/proc/self/cmdline").unwrap();
            let t = read_file("/proc/self/cmdline").map_err(|e| format!("{e:?}"))?;
            same(&t, &M::new(&[want.len()], want))
        });
        c.case("real", || "no descriptor is left open after many calls".into(), |c| {
            let count = || std::fs::read_dir("/proc/self/fd").unwrap().count();
            let p = file(20, 20);
            let n0 = count();
            for _ in 0..50 {
                c.tick();
                let _ = read_file(p.as_str());
                let _ = read_file(dir.to_str().unwrap());
            }
            let n1 = count();
            if n1 != n0 { Err(format!("{n0} descriptors before, {n1} after")) } else { Ok(()) }
        });
        let _ = std::fs::remove_dir_all(&dir);
    });
}
