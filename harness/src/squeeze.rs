//! Bytes of which a long run of zeros is left out, so that gigabytes can be shown.

use crate::sys::{self, BLOCK, ZEROS};
use std::fs::File;
use std::io::{self, Write};
use std::os::unix::fs::{FileExt, MetadataExt};
use std::path::Path;

/// Whether there are sparse files and enough memory for values of gigabytes.
pub fn able(dir: &Path) -> bool {
    let mem = std::fs::read_to_string("/proc/meminfo").unwrap_or_default();
    let free: u64 = mem
        .lines()
        .find_map(|l| l.strip_prefix("MemAvailable:"))
        .and_then(|l| l.trim().split(' ').next().and_then(|n| n.parse().ok()))
        .unwrap_or(0);
    let p = dir.join("sparse");
    let test = || -> io::Result<bool> {
        let f = File::create(&p)?;
        f.write_all_at(&ZEROS, 0)?;
        f.set_len(10 << 30)?;
        f.sync_all()?;
        Ok(sys::punch(&f, 0, 1 << 20) && sys::next_data(&f, 0).is_none() && f.metadata()?.blocks() < 1 << 10)
    };
    let ok = free > 14 << 20 && test().unwrap_or(false);
    let _ = std::fs::remove_file(&p);
    ok
}

pub struct Squeeze {
    pub out: Vec<u8>,
    /// how many zeros are left out
    k: u64,
    /// where they were
    pub cut: Option<usize>,
    zeros: u64,
}

impl Squeeze {
    pub fn new(k: u64) -> Self {
        Self { out: Vec::new(), k, cut: None, zeros: 0 }
    }

    fn settle(&mut self) {
        let mut z = self.zeros;
        self.zeros = 0;
        if z >= self.k && self.cut.is_none() {
            self.cut = Some(self.out.len());
            z -= self.k;
        }
        // what is longer isn't shown completely
        let n = self.out.len() + z.min(1 << 16) as usize;
        self.out.resize(n, 0);
    }

    pub fn hole(&mut self, n: u64) {
        self.zeros += n;
    }

    pub fn bytes(&mut self, d: &[u8]) {
        for c in d.chunks(BLOCK) {
            if *c == ZEROS[..c.len()] {
                self.zeros += c.len() as u64;
                continue;
            }
            for b in c {
                if *b == 0 {
                    self.zeros += 1;
                } else {
                    if self.zeros > 0 {
                        self.settle();
                    }
                    self.out.push(*b);
                }
            }
        }
    }

    pub fn end(&mut self) {
        if self.zeros > 0 {
            self.settle();
        }
    }

    pub fn file(&mut self, f: &File) -> io::Result<()> {
        let n = f.metadata()?.len();
        let mut p = 0;
        let mut buf = vec![0; BLOCK];
        while p < n {
            let d = sys::next_data(f, p).unwrap_or(n).min(n);
            self.hole(d - p);
            p = d;
            let h = sys::next_hole(f, p).unwrap_or(n).min(n);
            while p < h {
                let k = (h - p).min(BLOCK as u64) as usize;
                f.read_exact_at(&mut buf[..k], p)?;
                self.bytes(&buf[..k]);
                p += k as u64;
            }
        }
        self.end();
        Ok(())
    }
}

impl Write for Squeeze {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.bytes(buf);
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
