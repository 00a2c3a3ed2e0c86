//! Preemption at every access to the writable data of the program, for code that runs in one thread while another
//! one does something else in between.
//!
//! Threads can only disturb each other through memory both can reach; in safe code the way to it leads through a
//! `static`. The pages of the program's writable statics are protected while the code under test runs, so that every
//! access is seen (fault, unprotect, one step, protect again). Operations whose accesses do not conflict are
//! independent: all orders of their steps are equivalent. For the others, the first is stopped before each of its
//! accesses, the second one runs to its end (or until it waits for the first), and the first goes on.
#![allow(static_mut_refs)]
use std::collections::HashMap;

/// First and last word (of 8 bytes), and whether it is written.
pub type Access = (u32, u32, bool);

#[cfg(all(target_os = "linux", target_arch = "x86_64"))]
mod imp {
    use super::Access;
    use std::arch::asm;
    use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering::*};

    const AT: usize = 0x5f5f_0000_0000;
    pub const LOG: usize = 1 << 17;
    pub const WORDS: usize = 256;
    #[repr(C)]
    struct State {
        ranges: [(usize, usize); 4],
        n: usize,
        on: AtomicU32,
        stepping: AtomicU32,
        /// how many accesses, and before which the other one runs
        count: AtomicUsize,
        /// after so many, it goes on unseen
        most: usize,
        target: usize,
        go: AtomicU32,
        blocked: AtomicU32,
        tid: AtomicU32,
        /// if there are any: the words before whose accesses the other one may run
        words: [u32; WORDS],
        n_words: usize,
        log: [(u32, u32); LOG],
    }
    fn st() -> &'static mut State {
        unsafe { &mut *(AT as *mut State) }
    }
    #[inline(always)]
    unsafe fn call(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
        let r: isize;
        asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
        r
    }
    unsafe fn protect(on: bool) {
        let s = st();
        for i in 0..s.n {
            call(10, s.ranges[i].0, s.ranges[i].1, if on { 0 } else { 3 }, 0, 0, 0);
        }
    }
    unsafe fn wait(f: &AtomicU32, while_: u32, millis: i64) {
        let t = [millis / 1000, millis % 1000 * 1_000_000];
        call(202, f as *const _ as usize, 0, while_ as usize, t.as_ptr() as usize, 0, 0);
    }
    unsafe fn wake(f: &AtomicU32) {
        call(202, f as *const _ as usize, 1, i32::MAX as usize, 0, 0, 0);
    }
    /// Is the other thread asleep? Read without anything that allocates.
    unsafe fn asleep(tid: u32) -> bool {
        let mut path = *b"/proc/self/task/00000000/stat\0";
        let mut digits = [0u8; 10];
        let (mut n, mut t) = (0, tid);
        while t > 0 {
            digits[n] = b'0' + (t % 10) as u8;
            t /= 10;
            n += 1;
        }
        for i in 0..n {
            path[16 + i] = digits[n - 1 - i];
        }
        let tail = b"/stat\0";
        for i in 0..6 {
            path[16 + n + i] = tail[i];
        }
        let fd = call(2, path.as_ptr() as usize, 0, 0, 0, 0, 0);
        if fd < 0 {
            return false;
        }
        let mut buf = [0u8; 256];
        let len = call(0, fd as usize, buf.as_mut_ptr() as usize, 256, 0, 0, 0).max(0) as usize;
        call(3, fd as usize, 0, 0, 0, 0, 0);
        let mut i = 0;
        let mut close = 0;
        while i < len {
            if buf[i] == b')' {
                close = i;
            }
            i += 1;
        }
        close + 2 < len && buf[close + 2] == b'S'
    }
    /// How many words more than one the instruction may use.
    unsafe fn words(mut at: *const u8) -> usize {
        while matches!(*at, 0x66 | 0xf0 | 0xf2 | 0xf3 | 0x40..=0x4f) {
            at = at.add(1);
        }
        match (*at, *at.add(1)) {
            (0x62, _) => 7,
            (0xc4 | 0xc5, _) => 3,
            // moves of 16 bytes, and compare and exchange
            (0x0f, 0x10 | 0x11 | 0x28 | 0x29 | 0x2b | 0x6f | 0x7f | 0xe7 | 0xc7) => 1,
            // moves of strings
            (0xa4 | 0xa5 | 0xaa | 0xab, _) => 511,
            _ => 0,
        }
    }
    unsafe extern "C" fn segv(_: i32, info: *const u8, uc: *mut u8) {
        let s = st();
        let addr = *(info.add(16) as *const usize);
        let mut inside = false;
        for i in 0..s.n {
            inside |= addr >= s.ranges[i].0 && addr < s.ranges[i].0 + s.ranges[i].1;
        }
        if !inside || s.on.load(SeqCst) == 0 {
            // a real one: die of it
            protect(false);
            let dfl = [0u8; 152];
            sigaction(11, dfl.as_ptr(), std::ptr::null_mut());
            return;
        }
        protect(false);
        let regs = uc.add(40) as *mut u64;
        let write = *regs.add(19) >> 1 & 1;
        let word = ((addr - s.ranges[0].0) / 8) as u32;
        let size = (words(*regs.add(16) as *const u8) + 1) * 8 - 1;
        let last = ((addr + size - 7 - s.ranges[0].0) / 8) as u32;
        let mut counts = s.n_words == 0;
        for i in 0..s.n_words {
            counts |= s.words[i] >= word && s.words[i] <= last;
        }
        if !counts {
            s.stepping.store(1, SeqCst);
            *regs.add(17) |= 0x100;
            return;
        }
        let n = s.count.fetch_add(1, SeqCst);
        if n < LOG {
            s.log[n] = (word, write as u32 | (last - word) << 1);
        }
        if n == s.target {
            s.on.store(0, SeqCst);
            s.go.store(1, SeqCst);
            wake(&s.go);
            let mut waited = 0;
            let mut sleeping = 0;
            while s.go.load(SeqCst) == 1 && waited < 100 {
                wait(&s.go, 1, 2);
                waited += 1;
                sleeping = if asleep(s.tid.load(SeqCst)) { sleeping + 1 } else { 0 };
                if sleeping >= 3 {
                    break;
                }
            }
            if s.go.load(SeqCst) == 1 {
                s.blocked.fetch_add(1, SeqCst);
            }
        } else if n >= s.most {
            s.on.store(0, SeqCst);
        } else {
            s.stepping.store(1, SeqCst);
            *regs.add(17) |= 0x100;
        }
    }
    unsafe extern "C" fn trap(_: i32, _: *const u8, uc: *mut u8) {
        let s = st();
        let regs = uc.add(40) as *mut u64;
        *regs.add(17) &= !0x100;
        if s.stepping.swap(0, SeqCst) == 1 && s.on.load(SeqCst) == 1 {
            protect(true);
        }
    }
    extern "C" {
        fn sigaction(sig: i32, new: *const u8, old: *mut u8) -> i32;
    }
    /// Finds the writable statics and installs the handlers. Only for a program without other threads.
    pub fn init() -> bool {
        let exe = std::fs::read_link("/proc/self/exe").ok().map(|p| p.to_string_lossy().into_owned()).unwrap_or_default();
        let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
        let mut ranges: Vec<(usize, usize)> = vec![];
        let mut end = 0;
        for l in maps.lines() {
            let mut w = l.split_whitespace();
            let (Some(r), Some(p)) = (w.next(), w.next()) else { continue };
            let path = w.nth(3).unwrap_or("");
            let Some((a, b)) = r.split_once('-') else { continue };
            let (a, b) = (usize::from_str_radix(a, 16).unwrap_or(0), usize::from_str_radix(b, 16).unwrap_or(0));
            if p.starts_with("rw") && (path == exe || (path.is_empty() && a == end && !ranges.is_empty())) {
                ranges.push((a, b - a));
                end = b;
            }
        }
        if ranges.is_empty() || ranges.len() > 4 {
            return false;
        }
        unsafe {
            let size = std::mem::size_of::<State>() + 4095 & !4095;
            if call(9, AT, size, 3, 0x22 | 0x100000, usize::MAX, 0) != AT as isize {
                return false;
            }
            let s = st();
            for (i, r) in ranges.iter().enumerate() {
                s.ranges[i] = *r;
            }
            s.n = ranges.len();
            for (sig, f) in [(11, segv as usize), (5, trap as usize)] {
                let mut act = [0u8; 152];
                act[..8].copy_from_slice(&f.to_le_bytes());
                // SA_SIGINFO | SA_NODEFER
                act[136..140].copy_from_slice(&(4u32 | 0x4000_0000).to_le_bytes());
                if sigaction(sig, act.as_ptr(), std::ptr::null_mut()) != 0 {
                    return false;
                }
            }
        }
        true
    }
    /// Runs `f` with every access seen, up to `most`.
    pub fn watched<T>(most: usize, f: impl FnOnce() -> T) -> (T, usize) {
        st().most = most.min(LOG);
        let r = watched_among(&[], usize::MAX, f);
        st().most = LOG;
        r
    }
    /// Runs `f` and lets the other thread go before access number `target` to one of the words.
    pub fn watched_among<T>(words: &[u32], target: usize, f: impl FnOnce() -> T) -> (T, usize) {
        let s = st();
        s.n_words = words.len().min(WORDS);
        s.words[..s.n_words].copy_from_slice(&words[..s.n_words]);
        s.count.store(0, SeqCst);
        if s.most == 0 {
            s.most = LOG;
        }
        s.target = target;
        s.stepping.store(0, SeqCst);
        s.on.store(1, SeqCst);
        unsafe { protect(true) };
        let r = f();
        s.on.store(0, SeqCst);
        unsafe { protect(false) };
        (r, s.count.load(SeqCst))
    }
    extern "C" {
        fn fork() -> i32;
        fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
        fn alarm(seconds: u32) -> u32;
        fn _exit(status: i32) -> !;
    }
    /// What `f` gives in a copy of this program, which ends after it. Only for a program without other threads.
    pub fn copy(seconds: u32, f: impl FnOnce() -> String) -> Option<String> {
        use std::io::{Read, Write};
        let (mut r, mut w) = std::io::pipe().expect("pipe");
        let pid = unsafe { fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            unsafe { alarm(seconds) };
            let ok = w.write_all(f().as_bytes()).is_ok();
            unsafe { _exit(if ok { 0 } else { 1 }) };
        }
        drop(w);
        let mut text = String::new();
        let read = r.read_to_string(&mut text).is_ok();
        let mut status = 0;
        unsafe { waitpid(pid, &mut status, 0) };
        (read && status == 0).then_some(text)
    }
    /// Starts the other thread, and waits until it is ready.
    pub fn start(f: impl FnMut() + Send + 'static) {
        let s = st();
        s.tid.store(0, SeqCst);
        std::thread::spawn(move || other(f));
        while s.tid.load(SeqCst) == 0 {
            std::thread::yield_now();
        }
    }
    pub fn log(n: usize) -> Vec<Access> {
        st().log[..n.min(LOG)].iter().map(|&(a, w)| (a, a + (w >> 1), w & 1 == 1)).collect()
    }
    /// The other thread: waits to be let go, and says that it is done.
    pub fn other(mut f: impl FnMut()) -> ! {
        let s = st();
        s.tid.store(unsafe { call(186, 0, 0, 0, 0, 0, 0) } as u32, SeqCst);
        loop {
            while s.go.load(SeqCst) != 1 {
                unsafe { wait(&s.go, s.go.load(SeqCst), 1000) };
            }
            f();
            s.go.store(0, SeqCst);
            unsafe { wake(&s.go) };
        }
    }
    /// Lets the other thread run to its end; false: it does not come to it within the time.
    pub fn finish(start: bool, millis: i64) -> bool {
        let s = st();
        if start {
            s.go.store(1, SeqCst);
            unsafe { wake(&s.go) };
        }
        let t = std::time::Instant::now();
        while s.go.load(SeqCst) == 1 {
            if t.elapsed().as_millis() as i64 > millis {
                return false;
            }
            unsafe { wait(&s.go, 1, 10) };
        }
        true
    }
    pub fn blocked() -> u32 {
        st().blocked.load(SeqCst)
    }
}
#[cfg(not(all(target_os = "linux", target_arch = "x86_64")))]
mod imp {
    use super::Access;
    pub const LOG: usize = 0;
    pub const WORDS: usize = 256;
    pub fn init() -> bool {
        false
    }
    pub fn watched<T>(_: usize, f: impl FnOnce() -> T) -> (T, usize) {
        (f(), 0)
    }
    pub fn watched_among<T>(_: &[u32], _: usize, f: impl FnOnce() -> T) -> (T, usize) {
        (f(), 0)
    }
    pub fn copy(_: u32, f: impl FnOnce() -> String) -> Option<String> {
        Some(f())
    }
    pub fn start(_: impl FnMut() + Send + 'static) {}
    pub fn log(_: usize) -> Vec<Access> {
        vec![]
    }
    pub fn other(_: impl FnMut()) -> ! {
        panic!()
    }
    pub fn finish(_: bool, _: i64) -> bool {
        true
    }
    pub fn blocked() -> u32 {
        0
    }
}
pub use imp::*;

/// What an operation does to the statics, alone: in one or more situations.
#[derive(Clone, Default)]
pub struct Trace(pub Vec<Vec<Access>>);
impl Trace {
    /// every word used, and whether it is written
    fn words(&self) -> HashMap<u32, bool> {
        let mut m = HashMap::new();
        for &(a, b, w) in self.0.iter().flatten() {
            for x in a..=b {
                *m.entry(x).or_insert(false) |= w;
            }
        }
        m
    }
    /// the first time each access comes up
    fn shape(&self) -> Vec<Vec<Access>> {
        self.0
            .iter()
            .map(|l| {
                let mut seen = std::collections::HashSet::new();
                l.iter().filter(|x| seen.insert(**x)).copied().collect()
            })
            .collect()
    }
}
/// Two operations of which one can disturb the other, in which situation, and before which access to one of `words`.
pub struct Stop<'a> {
    pub a: usize,
    pub b: usize,
    pub situation: usize,
    pub k: usize,
    pub words: &'a [u32],
}
/// The pairs of operations that depend on each other, and the order in which they are stopped.
pub struct Plan {
    traces: Vec<Trace>,
    groups: Vec<Vec<usize>>,
    /// pairs of groups, and the words that both use and at least one of them writes
    pairs: Vec<(usize, usize, Vec<u32>)>,
    writes: Vec<HashMap<u32, bool>>,
}
impl Plan {
    /// Operations that use the same statics in the same order make a group, shortest first.
    pub fn new(traces: Vec<Trace>) -> Plan {
        let mut by: HashMap<Vec<Vec<Access>>, Vec<usize>> = HashMap::new();
        for (i, t) in traces.iter().enumerate() {
            by.entry(t.shape()).or_default().push(i);
        }
        let mut groups: Vec<Vec<usize>> = by.into_values().collect();
        for g in &mut groups {
            g.sort_by_key(|&i| (traces[i].0.iter().map(|l| l.len()).sum::<usize>(), i));
        }
        groups.sort();
        let writes: Vec<HashMap<u32, bool>> = groups.iter().map(|g| traces[g[0]].words()).collect();
        let mut pairs = vec![];
        for g in 0..groups.len() {
            for h in 0..groups.len() {
                let mut words: Vec<u32> = writes[g].iter().filter(|(w, &x)| writes[h].get(w).is_some_and(|&y| x || y)).map(|(w, _)| *w).collect();
                if !words.is_empty() {
                    words.sort();
                    words.truncate(WORDS);
                    pairs.push((g, h, words));
                }
            }
        }
        Plan { traces, groups, pairs, writes }
    }
    pub fn groups(&self) -> usize {
        self.groups.len()
    }
    pub fn writing(&self) -> usize {
        self.groups.iter().zip(&self.writes).filter(|(_, m)| m.values().any(|&w| w)).map(|(g, _)| g.len()).sum()
    }
    pub fn dependent(&self) -> usize {
        self.pairs.iter().map(|(g, h, _)| self.groups[*g].len() * self.groups[*h].len()).sum()
    }
    /// Accesses to one of the words, and whether something can be different if the other one comes before it: after a
    /// write, or after the first look at something the other one writes.
    fn points(&self, a: usize, h: usize, words: &[u32], situation: usize) -> Vec<bool> {
        let l: Vec<&Access> = self.traces[a].0[situation].iter().filter(|x| words.iter().any(|&w| x.0 <= w && w <= x.1)).collect();
        let mut seen = std::collections::HashSet::new();
        let mut out = vec![];
        let mut early = false;
        for x in &l {
            out.push(early);
            early = x.2 || ((x.0..=x.1).any(|w| self.writes[h].get(&w) == Some(&true)) && seen.insert(x.0));
        }
        out.push(early);
        out
    }
    /// How many ways there are to stop one of two operations that depend on each other.
    pub fn all(&self) -> u64 {
        self.pairs.iter().map(|(g, h, words)| self.groups[*h].len() as u64 * self.groups[*g].iter().map(|&a| (0..self.traces[a].0.len()).map(|s| self.points(a, *h, words, s).len() as u64).sum::<u64>()).sum::<u64>()).sum()
    }
    /// All of them, the most telling first; stops when `f` says so.
    pub fn each(&self, f: &mut dyn FnMut(Stop) -> bool) -> bool {
        let most = self.groups.iter().map(|g| g.len()).max().unwrap_or(0) * 2;
        // (ranks within the groups, telling or not)
        let passes = [(0..1, true), (1..3, true), (0..1, false), (3..most, true), (1..most, false)];
        for (ranks, telling) in passes {
            for r in ranks {
                for (g, h, words) in &self.pairs {
                    let (ga, gb) = (&self.groups[*g], &self.groups[*h]);
                    for i in 0..=r {
                        if i >= ga.len() || r - i >= gb.len() {
                            continue;
                        }
                        let (a, b) = (ga[i], gb[r - i]);
                        for situation in 0..self.traces[a].0.len() {
                            for (k, early) in self.points(a, *h, words, situation).into_iter().enumerate() {
                                if early == telling && !f(Stop { a, b, situation, k, words }) {
                                    return false;
                                }
                            }
                        }
                    }
                }
            }
        }
        true
    }
}
