//! C09: quoted-printable.

use crate::{
    ctx::Ctx,
    explore::{viol, Ch, Viol},
    refm::qp,
    util::*,
};
use viadkim::quoted_printable as q;

const SPECIALS: &[Option<char>] = &[None, Some('|'), Some(':'), Some('@'), Some('é')];

fn roundtrip(ch: &mut Ch, b: &[u8], fws: bool) -> Result<(), Viol> {
    let special = *ch.of(SPECIALS);
    let ascii = ch.flag();
    let e = if ascii { q::encode_ascii_only(b, special) } else { q::encode(b, special) };
    ch.op(2);
    let key = || format!("encode {} special {special:?} ascii {ascii}", show(b));
    ch.describe(|| format!("{} -> {e}", key()));
    if e != qp::encode(b, special, ascii) {
        return viol(key(), format!("got {e:?} expected {:?}", qp::encode(b, special, ascii)));
    }
    let unsafe_char = |c: char| {
        c == ';' || c.is_ascii_control() || c == ' ' || Some(c) == special || (ascii && !c.is_ascii())
    };
    if e.chars().any(unsafe_char) {
        return viol(key(), format!("unsafe output {e:?}"));
    }
    if q::decode(&e).as_deref() != Ok(b) {
        return viol(key(), format!("decodes to {:?}", q::decode(&e)));
    }
    if q::decode_qp_section(&e).as_deref() != Ok(b) {
        return viol(key(), format!("as qp-section decodes to {:?}", q::decode_qp_section(&e)));
    }
    if fws {
        // White space put in at each combination of places outside octets.
        let mut s = String::new();
        let mut skip = 0;
        let ws: &[&str] = &["", " ", "\r\n\t"];
        for c in e.chars() {
            if skip == 0 {
                s.push_str(ch.of(ws));
            } else {
                skip -= 1;
            }
            s.push(c);
            if c == '=' {
                skip = 2;
            }
        }
        s.push_str(ch.of(ws));
        ch.op(1);
        if q::decode(&s).as_deref() != Ok(b) {
            return viol(format!("folded {}", show(s.as_bytes())), format!("decodes to {:?}", q::decode(&s)));
        }
    }
    Ok(())
}

fn dec(ch: &mut Ch, s: &str) -> Result<(), Viol> {
    let (g, w) = (q::decode(s).ok(), qp::decode(s));
    ch.op(2);
    ch.label(if w.is_some() { "accepted" } else { "rejected" });
    ch.describe(|| format!("decode {} -> {g:?}", show(s.as_bytes())));
    if g != w {
        return viol(format!("decode {}", show(s.as_bytes())), format!("got {g:?} expected {w:?}"));
    }
    let (g, w) = (q::decode_qp_section(s).ok(), qp::decode_section(s));
    if g != w {
        return viol(format!("decode_qp_section {}", show(s.as_bytes())), format!("got {g:?} expected {w:?}"));
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough;
    ctx.part("all byte pairs", 0, &|ch| {
        let mut b = vec![];
        for _ in 0..ch.pick(3) {
            b.push(ch.pick(256) as u8);
        }
        roundtrip(ch, &b, false)
    });
    ctx.part("bytes around UTF-8", 0, &|ch| {
        let toks: &[&[u8]] = &[
            b"a", b"\xc3", b"\xa9", b"\xe2", b"\x82\xac", b"\xf0\x9f", b"\x98\x80", b"\xed\xa0", b"\xc0", b"\xff", b"=", b"\xc2\x80",
            b"\xef\xbf\xbd", b"|",
        ];
        let b = string(ch, if t { 6 } else { 4 }, toks);
        roundtrip(ch, &b, false)
    });
    ctx.part("folded output", 0, &|ch| {
        let toks: &[&[u8]] = &[b"a", b" ", b";", b"=", b"\xc3\xa9", b"\xff", b"\r\n", b"A"];
        let b = string(ch, if t { 4 } else { 3 }, toks);
        roundtrip(ch, &b, true)
    });
    ctx.part("decoding", 0, &|ch| {
        let toks = ["=", "4", "A", "a", "g", " ", "\t", "\r\n", "\r", "\n", ";", "é", "|", "\u{7f}", "9"];
        let s = String::from_utf8(string(ch, if t { 7 } else { 6 }, &toks)).unwrap();
        dec(ch, &s)
    });
    ctx.part("decoding, one octet in every surrounding", 0, &|ch| {
        let pre = *ch.of(&["", "a", " ", "\r\n ", "=41", "é"]);
        let post = *ch.of(&["", "a", " ", "\r\n ", "=41", "é", "F"]);
        let all: Vec<char> = (0..128u32).filter_map(char::from_u32).chain(['é', '\u{ff11}']).collect();
        let (c, d) = (*ch.of(&all), *ch.of(&all));
        let w = *ch.of(&["", " ", "\r\n "]);
        dec(ch, &format!("{pre}={c}{w}{d}{post}"))
    });
    ctx.part("all characters", 0, &|ch| {
        let all: Vec<char> = (0..0x300u32)
            .filter_map(char::from_u32)
            .chain(['\u{2028}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{ffff}', '\u{10000}', '\u{10ffff}'])
            .collect();
        let (c, d) = (*ch.of(&all), *ch.of(&all));
        let s: String = [c, d].iter().collect();
        dec(ch, &s)?;
        let special = *ch.of(&[None, Some('|'), Some('\u{e9}')]);
        let e = q::encode(s.as_bytes(), special);
        if e != qp::encode(s.as_bytes(), special, false) || q::decode(&e).as_deref() != Ok(s.as_bytes()) {
            return viol(format!("encode {}", show(s.as_bytes())), e);
        }
        Ok(())
    });
    let szs = sizes(300, if t { 65_537 } else { 8_193 });
    ctx.part("long inputs", 0, &|ch| {
        let n = *ch.of(&szs);
        let unit: &[u8] = ch.of(&[&b"x"[..], b"\xc3\xa9", b"\xff", b" ", b"a b"]);
        let b = unit.repeat(n);
        roundtrip(ch, &b, false)
    });
    ctx.note("decoding: lower-case hexadecimal digits and folding white space inside an octet are accepted, two folds in a row are not (as the repository's own tests fix)");
}
