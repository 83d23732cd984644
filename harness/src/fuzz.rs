//! Mutants of an image in bulk: only executions that crash are recorded.
use crate::exec::Out;
use crate::rng::Rng;
use crate::{json, session, Image};
use std::io::{Seek, Write};

fn put(d: &mut [u8], pos: usize, bytes: &[u8]) {
    for (i, b) in bytes.iter().enumerate() {
        if let Some(x) = d.get_mut(pos + i) {
            *x = *b;
        }
    }
}

fn word(d: &[u8], pos: usize) -> u32 {
    let mut w = [0u8; 4];
    for (i, x) in w.iter_mut().enumerate() {
        *x = d.get(pos + i).copied().unwrap_or(0);
    }
    u32::from_le_bytes(w)
}

fn mutate(img: &Image, g: &mut Rng) -> Image {
    let mut m = img.clone();
    let len = m.data.len();
    if g.below(12) == 0 {
        let hl = m.hdr.len();
        let at = [36, 36, 24, 20, 40, 0, 4][g.below(7)];
        if at + 4 <= hl {
            let v = interesting(&m.data, g);
            put(&mut m.hdr, at, &v.to_le_bytes());
        }
    }
    let n = 1 + [0, 0, 0, 1, 1, 2, 4][g.below(7)];
    for _ in 0..n {
        let at = match g.below(8) {
            0 => g.below(len),
            1..=2 => g.below(len) / 2 * 2,
            _ => g.below(len) / 4 * 4,
        };
        match g.below(9) {
            0 => put(&mut m.data, at, &[g.next() as u8]),
            1 => {
                let b = word(&m.data, at) as u8 ^ (1 << g.below(8));
                put(&mut m.data, at, &[b]);
            }
            2..=3 => {
                let v = interesting(&m.data, g) as u16;
                put(&mut m.data, at, &v.to_le_bytes());
            }
            4 => {
                let s: [&[u8]; 7] = [b"nk", b"vk", b"lf", b"lh", b"li", b"ri", b"db"];
                put(&mut m.data, at, s[g.below(7)]);
            }
            _ => {
                let v = interesting(&m.data, g);
                put(&mut m.data, at, &v.to_le_bytes());
            }
        }
    }
    if g.below(10) == 0 {
        m.total = match g.below(4) {
            0 => 4096 + g.below(len + 1),
            1 => 4096 + len - g.below(len.min(40) + 1),
            2 => 4096 + g.below(40),
            _ => m.total,
        }
        .min(m.total);
    }
    m
}

fn interesting(d: &[u8], g: &mut Rng) -> u32 {
    let len = d.len();
    let near = |g: &mut Rng, x: u32| x.wrapping_add(g.below(17) as u32).wrapping_sub(8);
    match g.below(12) {
        0 => 0,
        1 => g.below(20) as u32,
        2 => near(g, len as u32),
        3 => near(g, u32::MAX),
        4 => near(g, 0x8000_0000),
        5 => (g.below(len) / 8 * 8) as u32,
        6 => {
            let k = g.below(4) as u32;
            near(g, 16344 * k)
        }
        7 => near(g, 0xffff),
        8 => g.next() as u32,
        9 => (g.below(600) as u32 * 8).wrapping_neg(),
        10 => {
            let w = word(d, g.below(len) / 4 * 4);
            near(g, w)
        }
        _ => word(d, g.below(len) / 4 * 4),
    }
}

pub fn run(out: &mut Out, img: &Image, id: &str, seed: u64, count: u64, progress: Option<&str>) {
    let mut file = progress.map(|p| std::fs::File::create(p).unwrap());
    for i in 0..count {
        if let Some(f) = file.as_mut() {
            f.rewind().unwrap();
            f.write_all(format!("{id} {} \n", seed + i).as_bytes()).unwrap();
        }
        let mut g = Rng((seed + i).wrapping_mul(0x9E37_79B9_7F4A_7C15));
        let m = mutate(img, &mut g);
        let kind = ["s", "m", "r", "g"][g.below(4)];
        let r1 = g.below(1 << 30).to_string();
        let r2 = g.below(1 << 30).to_string();
        let tok_id = format!("{id}.{}", seed + i);
        out.only_if_crashing(|out| {
            out.line(&format!(
                "{{\"e\":\"img\",\"id\":\"{}\",\"n\":{},\"h\":{},\"d\":{}}}",
                tok_id,
                m.total,
                json::bytes(&m.hdr),
                json::bytes(&m.data)
            ));
            let tok = ["S", tok_id.as_str(), kind, "0", "h"];
            let ops: Vec<Vec<&str>> = if kind == "m" || kind == "g" {
                vec![vec!["walk", "200"], vec!["clear"], vec!["rand", &r1, "60"]]
            } else {
                vec![vec!["walk", "300"], vec!["rand", &r1, "150"], vec!["rand", &r2, "50"]]
            };
            session(out, &m, &tok, &ops);
        });
    }
}
