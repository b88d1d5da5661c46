//! JSON text read through every door serde_json offers: borrowed text, bytes, a
//! stream that delivers a few bytes at a time, a parsed value, and the same text
//! with its digits written as escapes. All of them must agree.
use crate::engine::guard;
use serde::{de::DeserializeOwned, Serialize};
use std::io::{self, Read};

struct Slow<'a>(&'a [u8], usize);
impl<'a> Read for Slow<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.1 += 1;
        if self.1 % 5 == 3 { return Err(io::Error::new(io::ErrorKind::Interrupted, "again")); }
        let n = b.len().min(self.0.len()).min(1 + self.1 % 7);
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

/// digits inside string literals as \u003N (every other one, or all)
pub fn escaped(s: &str, all: bool) -> String {
    let (mut o, mut inside, mut esc, mut k) = (String::new(), false, false, 0);
    for ch in s.chars() {
        if inside && !esc && ch.is_ascii_digit() {
            k += 1;
            if all || k % 2 == 0 { o += &format!("\\u{:04x}", ch as u32); continue; }
        }
        if esc { esc = false; } else if inside && ch == '\\' { esc = true; } else if ch == '"' { inside = !inside; }
        o.push(ch);
    }
    o
}

/// Ok(Ok): read by every door with one result; Ok(Err): refused by every door;
/// Err: a crash, or doors that disagree
pub fn read<T: DeserializeOwned + Serialize>(s: &str) -> Result<Result<T, String>, String> {
    let show = |t: &T| serde_json::to_string(t).unwrap_or_else(|e| format!("unwritable: {}", e));
    let first = guard(|| serde_json::from_str::<T>(s).map_err(|e| e.to_string()))?;
    let want = first.as_ref().ok().map(|t| show(t));
    let mut doors: Vec<(&str, Option<String>)> = vec![];
    doors.push(("bytes", guard(|| serde_json::from_slice::<T>(s.as_bytes()).ok())?.map(|t| show(&t))));
    doors.push(("a stream", guard(|| serde_json::from_reader::<_, T>(Slow(s.as_bytes(), 0)).ok())?.map(|t| show(&t))));
    if let Ok(v) = serde_json::from_str::<serde_json::Value>(s) {
        doors.push(("a value", guard(|| serde_json::from_value::<T>(v.clone()).ok())?.map(|t| show(&t))));
        let p = serde_json::to_string_pretty(&v).unwrap();
        doors.push(("spaced text", guard(|| serde_json::from_str::<T>(&p).ok())?.map(|t| show(&t))));
    }
    for &all in &[false, true] {
        let e = escaped(s, all);
        if e != s { doors.push(("escaped text", guard(|| serde_json::from_str::<T>(&e).ok())?.map(|t| show(&t)))); }
    }
    for (n, d) in doors {
        if d != want { return Err(format!("doors disagree: {} read as text gives {}, read from {} gives {}", s, want.unwrap_or("a refusal".into()), n, d.unwrap_or("a refusal".into()))); }
    }
    Ok(first)
}
