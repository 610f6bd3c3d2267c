//! C06: tag lists.

use super::common::*;
use crate::{
    ctx::Ctx,
    explore::{Ch, Viol},
    refm::{
        sigparse::{self, P},
        record,
        tags::{self, Tl},
    },
    util::*,
};
use std::str::FromStr;
use viadkim::{
    record::DkimKeyRecord,
    signature::DkimSignature,
};

/// One candidate list, observed through both places where tag lists occur.
fn one(ch: &mut Ch, s: &str) -> Result<(), Viol> {
    let want = tags::parse(s);
    match &want {
        Tl::Unspecified => {
            ch.skip();
            return Ok(());
        }
        Tl::Ok(_) => ch.label("accepted"),
        Tl::Bad => ch.label("rejected"),
    }
    // As is: a good list is then refused only for what is missing or wrong in it.
    let r = DkimSignature::from_str(s);
    check_sig(s, &r, &sigparse::parse(s, PRE))?;
    let r = DkimKeyRecord::from_str(s);
    check_rec(s, &r, &record::parse(s, PRE))?;
    ch.op(2);
    // With the required tag, in front or behind.
    for (text, at) in [(format!("p=;{s}"), 0), (format!("{s};p="), 1)] {
        let w = record::parse(&text, PRE);
        let r = DkimKeyRecord::from_str(&text);
        ch.op(1);
        check_rec(&text, &r, &w).map_err(|mut v| {
            v.detail.push_str(&format!(" (position {at})"));
            v
        })?;
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough;
    ctx.part("all short lists", 0, &|ch| {
        let toks = [
            "a", "=", ";", " ", "\r\n", "B", "_", "1", "\t", "\r", "\n", "é", "~", "!", "\u{7f}", "\0", ":", "<", "-",
        ];
        let s = String::from_utf8(string(ch, if t { 7 } else { 5 }, &toks)).unwrap();
        one(ch, &s)
    });
    ctx.part("longer lists", 0, &|ch| {
        let toks = ["a", "=", ";", " ", "\r\n", "x"];
        let s = String::from_utf8(string_min(ch, 6, if t { 10 } else { 8 }, &toks)).unwrap();
        one(ch, &s)
    });
    ctx.part("lists of specs", if t { 3 } else { 2 }, &|ch| {
        let n = 1 + ch.pick(3);
        let ws: &[&str] = &["", " ", "\t", "  \t", "\r\n ", " \r\n\t", "\r\n", "\n ", "\r ", " \r\n", "\r\n \r\n "];
        let mut s = String::new();
        for i in 0..n {
            if i > 0 {
                s.push(';');
            }
            s.push_str(ch.devof(ws));
            s.push_str(ch.devof(&[["a", "b", "cc"][i], "A", "a", "b", "a_1", "_a", "1a", "", "a b", "a-b", "é", "ab"]));
            s.push_str(ch.devof(ws));
            s.push_str(ch.devof(&["=", "", "==", "=;"]));
            s.push_str(ch.devof(ws));
            s.push_str(ch.devof(&[
                "x", "", "x y", "x\r\n y", "x \r\n  y", "x\r\ny", "x\n y", "x=y", "=", ":", "\u{80}x", "x\u{7f}", "中\t国",
                "x\0", "x;", "\u{a0}",
            ]));
            s.push_str(ch.devof(ws));
        }
        s.push_str(ch.of(&["", ";", "; ", ";;", " ;", ";\r\n"]));
        one(ch, &s)
    });
    ctx.part("all characters", 0, &|ch| {
        let all: Vec<char> = (0..128u32)
            .filter_map(char::from_u32)
            .chain(['\u{80}', '\u{85}', '\u{a0}', '\u{ff}', '\u{2028}', '\u{3000}', '\u{feff}', '\u{10ffff}'])
            .collect();
        let c = *ch.of(&all);
        let d = *ch.of(&['x', ' ', '=', ';', '1']);
        let s = match ch.pick(8) {
            0 => format!("{c}={d}"),
            1 => format!("a{c}={d}"),
            2 => format!("a={c}"),
            3 => format!("a={d}{c}{d}"),
            4 => format!("a={d}{c}"),
            5 => format!("a=x{c}"),
            6 => format!("a=x;{c}b={d}"),
            _ => format!("a{c}{d}=x"),
        };
        one(ch, &s)
    });
    ctx.part("many tags, duplicates", 0, &|ch| {
        let n = 1 + ch.pick(18);
        let mut names: Vec<String> = (0..n).map(|i| format!("{}{}", ["a", "B", "c_"][i % 3], i)).collect();
        let i = ch.pick(n);
        let j = ch.pick(n);
        match ch.pick(3) {
            0 => {}
            1 => names[j] = names[i].clone(),
            _ => {
                // Names differ in case only: not duplicates.
                let o = names[i].clone();
                names[j] = if i == j {
                    o
                } else if o.starts_with('B') {
                    o.to_ascii_lowercase()
                } else {
                    o.to_ascii_uppercase()
                }
            }
        }
        let trail = *ch.of(&["", ";"]);
        let s = names.iter().enumerate().map(|(k, n)| format!(" {n}=v{k}")).collect::<Vec<_>>().join(";") + trail;
        ch.describe(|| s.clone());
        one(ch, &s)
    });
    let szs = sizes(if t { 300 } else { 80 }, 4_097);
    ctx.part("sizes", 0, &|ch| {
        let n = *ch.of(&szs);
        let (a, b) = *ch.of(&[("a", "b"), ("a", "a"), ("p", "q"), ("p", "p"), ("b", "b"), ("p", "P")]);
        let long = ch.of(&["x", "x ", "é", "=", "xx\r\n "]).repeat(n);
        let long = long.trim_end();
        let end = *ch.of(&["", ";", "!", "\u{7f}", "  "]);
        let s = match ch.pick(6) {
            0 => format!("{a}={long}; {b}=y{end}"),
            1 => format!("{a}=y; {b}={long}{end}"),
            2 => format!("{a}={long}; x={long}; {b}={long}{end}"),
            3 => {
                let name = format!("{a}{}", "n".repeat(n));
                let other = format!("{b}{}", "n".repeat(n));
                format!("{name}=1;{other}=2;x=3{end}")
            }
            4 => {
                let ws = ch.of(&[" ", "\t"]).repeat(n);
                format!("{ws}{a}{ws}={ws}x{ws};{ws}{b}={end}")
            }
            _ => {
                if n > 300 {
                    ch.skip();
                    return Ok(());
                }
                let m: String = (0..n).map(|i| format!("t{i}={i};")).collect();
                let dup = *ch.of(&["z", "t0", "t7", "T0"]);
                format!("{a}=1;{m}{b}=2;{dup}=x{end}")
            }
        };
        one(ch, &s)
    });
    ctx.part("unknown tags have no effect", 0, &|ch| {
        // A complete signature and record with unknown tags put in at any place.
        let base = ["v=1", "a=ed25519-sha256", "d=example.com", "s=sel", "h=from:to", "bh=AAAA", "b=AAAA", "t=5"];
        let exts = ["V=2", "A=x", "B=", "BH=!", "H=", "D=-", "X=1", "r=y", "bb=", "b_=1", "b1=;", "L=x", "I=?"];
        let e = ch.of(&exts).trim_end_matches(';').to_string();
        let at = ch.pick(base.len() + 1);
        let mut l: Vec<String> = base.iter().map(|s| s.to_string()).collect();
        l.insert(at, e.clone());
        if ch.flag() {
            let f = ch.of(&exts).trim_end_matches(';').to_string();
            let at = ch.pick(l.len() + 1);
            l.insert(at, f);
        }
        let s = l.join("; ");
        let w = sigparse::parse(&s, PRE);
        ch.op(1);
        match &w {
            P::Ok(_) => ch.label("accepted"),
            _ => ch.label("duplicate"),
        }
        check_sig(&s, &DkimSignature::from_str(&s), &w)?;
        let base = ["v=DKIM1", "k=ed25519", "p=AAAA", "t=s"];
        let exts = ["V=x", "K=x", "P=!", "T=", "S=", "H=x", "N==", "g=*", "pp=1"];
        let at = 1 + ch.pick(base.len());
        let mut l: Vec<&str> = base.to_vec();
        l.insert(at, ch.of(&exts));
        let s = l.join(";");
        ch.op(1);
        check_rec(&s, &DkimKeyRecord::from_str(&s), &record::parse(&s, PRE))?;
        Ok(())
    });
    ctx.note("several folds inside one white-space run of a tag value are left open (the grammar permits them, a header field cannot contain them)");
}
