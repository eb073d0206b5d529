//! Runs a piece of a case in a freshly forked process, so that process-wide and thread-local state
//! of the code under test starts pristine and cannot leak into other executions.
extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opt: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn prctl(op: i32, a: usize, b: usize, c: usize, d: usize) -> i32;
}

/// The string `f` returns in the child, or a description of how the child died.
pub fn in_child(f: impl FnOnce() -> String) -> Result<String, String> {
    unsafe {
        let mut fds = [0i32; 2];
        if pipe(fds.as_mut_ptr()) != 0 {
            return Err("pipe failed".into());
        }
        let pid = fork();
        if pid < 0 {
            close(fds[0]);
            close(fds[1]);
            return Err("fork failed".into());
        }
        if pid == 0 {
            prctl(1, 9, 0, 0, 0); // die with the parent
            close(fds[0]);
            let s = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|_| format!("PANIC {}", crate::sut::take_panic()));
            let b = s.as_bytes();
            let mut i = 0;
            while i < b.len() {
                let n = write(fds[1], b[i..].as_ptr(), b.len() - i);
                if n <= 0 {
                    _exit(3);
                }
                i += n as usize;
            }
            _exit(0);
        }
        close(fds[1]);
        let mut out = vec![];
        let mut buf = [0u8; 4096];
        loop {
            let n = read(fds[0], buf.as_mut_ptr(), buf.len());
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        close(fds[0]);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        if st != 0 {
            return Err(format!("the process died with status {st:#x}"));
        }
        Ok(String::from_utf8_lossy(&out).into_owned())
    }
}
