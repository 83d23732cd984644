// A minimal writer of regf hives for the demonstrations.
#![allow(dead_code)]
pub const NIL: u32 = 0xFFFF_FFFF;
pub const SEG: usize = 16344;

pub struct Hb {
    pub d: Vec<u8>,
    pub minor: u32,
}

impl Hb {
    pub fn new() -> Self {
        Hb { d: Vec::new(), minor: 5 }
    }
    pub fn put32(&mut self, pos: usize, v: u32) {
        self.d[pos..pos + 4].copy_from_slice(&v.to_le_bytes());
    }
    pub fn put16(&mut self, pos: usize, v: u16) {
        self.d[pos..pos + 2].copy_from_slice(&v.to_le_bytes());
    }
    /// An allocated cell; returns its offset.
    pub fn cell(&mut self, body: &[u8]) -> u32 {
        let off = self.d.len();
        let size = (4 + body.len() + 7) / 8 * 8;
        self.d.extend_from_slice(&(-(size as i32)).to_le_bytes());
        self.d.extend_from_slice(body);
        self.d.resize(off + size, 0);
        off as u32
    }
    /// A key; latin: the name is Latin-1.
    pub fn key(&mut self, name: &[u8], latin: bool) -> u32 {
        let mut b = vec![0u8; 76];
        b[0..2].copy_from_slice(b"nk");
        b[2] = if latin { 0x20 } else { 0 };
        for p in [28, 32, 40, 44, 48] {
            b[p..p + 4].copy_from_slice(&NIL.to_le_bytes());
        }
        b[72..74].copy_from_slice(&(name.len() as u16).to_le_bytes());
        b.extend_from_slice(name);
        self.cell(&b)
    }
    pub fn set_sub(&mut self, key: u32, list: u32, n: u32) {
        self.put32(key as usize + 4 + 20, n);
        self.put32(key as usize + 4 + 28, list);
    }
    pub fn set_vol(&mut self, key: u32, v: u32) {
        self.put32(key as usize + 4 + 24, v);
    }
    pub fn set_values(&mut self, key: u32, offs: &[u32]) -> u32 {
        let body: Vec<u8> = offs.iter().flat_map(|x| x.to_le_bytes()).collect();
        let l = self.cell(&body);
        self.put32(key as usize + 4 + 36, offs.len() as u32);
        self.put32(key as usize + 4 + 40, l);
        l
    }
    /// lf, lh, li or ri.
    pub fn list(&mut self, sig: &[u8; 2], offs: &[u32]) -> u32 {
        let mut b = sig.to_vec();
        b.extend_from_slice(&(offs.len() as u16).to_le_bytes());
        for o in offs {
            b.extend_from_slice(&o.to_le_bytes());
            if sig == b"lf" || sig == b"lh" {
                b.extend_from_slice(&[0; 4]);
            }
        }
        self.cell(&b)
    }
    /// A value whose size and data fields are given.
    pub fn value(&mut self, name: &[u8], latin: bool, ty: u32, size: u32, data: u32) -> u32 {
        let mut b = b"vk".to_vec();
        b.extend_from_slice(&(name.len() as u16).to_le_bytes());
        b.extend_from_slice(&size.to_le_bytes());
        b.extend_from_slice(&data.to_le_bytes());
        b.extend_from_slice(&ty.to_le_bytes());
        b.extend_from_slice(&[latin as u8, 0, 0, 0]);
        b.extend_from_slice(name);
        self.cell(&b)
    }
    pub fn value_cell(&mut self, name: &[u8], ty: u32, data: &[u8]) -> u32 {
        let c = self.cell(data);
        self.value(name, true, ty, data.len() as u32, c)
    }
    /// A big data header for the given segment cells.
    pub fn big(&mut self, segs: &[u32]) -> u32 {
        let body: Vec<u8> = segs.iter().flat_map(|x| x.to_le_bytes()).collect();
        let l = self.cell(&body);
        let mut b = b"db".to_vec();
        b.extend_from_slice(&(segs.len() as u16).to_le_bytes());
        b.extend_from_slice(&l.to_le_bytes());
        self.cell(&b)
    }
    pub fn header(&self, root: u32) -> Vec<u8> {
        let mut h = vec![0u8; 4096];
        h[0..4].copy_from_slice(b"regf");
        let mut p = |o: usize, v: u32| h[o..o + 4].copy_from_slice(&v.to_le_bytes());
        p(4, 1);
        p(8, 1);
        p(20, 1);
        p(24, self.minor);
        p(32, 1);
        p(36, root);
        p(40, (self.d.len() / 4096 * 4096) as u32);
        p(44, 1);
        checksum(&mut h);
        h
    }
    pub fn finish(&self, root: u32) -> Vec<u8> {
        let mut h = self.header(root);
        h.extend_from_slice(&self.d);
        h
    }
}

pub fn checksum(h: &mut [u8]) {
    let mut x = 0u32;
    for c in h[..508].chunks(4) {
        x ^= u32::from_le_bytes(c.try_into().unwrap());
    }
    let x = match x {
        0 => 1,
        u32::MAX => u32::MAX - 1,
        x => x,
    };
    h[508..512].copy_from_slice(&x.to_le_bytes());
}

pub fn utf16(s: &str) -> Vec<u8> {
    s.encode_utf16().flat_map(|u| u.to_le_bytes()).collect()
}
