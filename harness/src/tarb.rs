//! Hand-made tarballs (ustar), so that any entry shape can be produced.
use std::io::Write;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Ent {
    pub path: String,
    pub kind: u8, // b'0' file, b'5' dir, b'2' symlink, b'1' hardlink
    pub mode: u32,
    pub data: Vec<u8>,
    pub link: String,
}

impl Ent {
    pub fn file(path: &str, mode: u32, data: impl Into<Vec<u8>>) -> Self {
        Ent { path: path.into(), kind: b'0', mode, data: data.into(), link: String::new() }
    }
    pub fn dir(path: &str) -> Self {
        Ent { path: path.into(), kind: b'5', mode: 0o755, data: vec![], link: String::new() }
    }
    pub fn symlink(path: &str, to: &str) -> Self {
        Ent { path: path.into(), kind: b'2', mode: 0o777, data: vec![], link: to.into() }
    }
    pub fn hardlink(path: &str, to: &str) -> Self {
        Ent { path: path.into(), kind: b'1', mode: 0o644, data: vec![], link: to.into() }
    }
}

fn raw_header(path: &[u8], kind: u8, mode: u32, size: usize, link: &[u8], out: &mut Vec<u8>) {
    let mut h = [0u8; 512];
    let n = path.len().min(100);
    h[..n].copy_from_slice(&path[..n]);
    h[100..108].copy_from_slice(format!("{:07o}\0", mode).as_bytes());
    h[108..116].copy_from_slice(b"0000000\0");
    h[116..124].copy_from_slice(b"0000000\0");
    h[124..136].copy_from_slice(format!("{:011o}\0", size).as_bytes());
    h[136..148].copy_from_slice(b"03560116604\0");
    h[156] = kind;
    let n = link.len().min(100);
    h[157..157 + n].copy_from_slice(&link[..n]);
    h[257..263].copy_from_slice(b"ustar\0");
    h[263..265].copy_from_slice(b"00");
    h[148..156].copy_from_slice(b"        ");
    let sum: u32 = h.iter().map(|b| *b as u32).sum();
    h[148..156].copy_from_slice(format!("{:06o}\0 ", sum).as_bytes());
    out.extend_from_slice(&h);
}

fn pad(out: &mut Vec<u8>) {
    while out.len() % 512 != 0 {
        out.push(0);
    }
}

pub fn tar(ents: &[Ent]) -> Vec<u8> {
    let mut out = Vec::new();
    for e in ents {
        if e.kind == b'P' {
            // pax header with the full path, for a file whose own header only has a part of it
            let mut n = e.path.len() + 7;
            let rec = loop {
                let r = format!("{n} path={}\n", e.path);
                if r.len() == n {
                    break r;
                }
                n = r.len();
            };
            raw_header(b"PaxHeader/x", b'x', 0o644, rec.len(), b"", &mut out);
            out.extend_from_slice(rec.as_bytes());
            pad(&mut out);
            raw_header(&e.path.as_bytes()[..e.path.len().min(90)], b'0', e.mode, e.data.len(), b"", &mut out);
            out.extend_from_slice(&e.data);
            pad(&mut out);
            continue;
        }
        if e.path.len() > 100 {
            // GNU long name
            raw_header(b"././@LongLink", b'L', 0, e.path.len() + 1, b"", &mut out);
            out.extend_from_slice(e.path.as_bytes());
            out.push(0);
            pad(&mut out);
        }
        raw_header(e.path.as_bytes(), e.kind, e.mode, e.data.len(), e.link.as_bytes(), &mut out);
        out.extend_from_slice(&e.data);
        pad(&mut out);
    }
    out.extend_from_slice(&[0u8; 1024]);
    out
}

pub fn gz(data: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::fast());
    e.write_all(data).unwrap();
    e.finish().unwrap()
}

pub fn tgz(ents: &[Ent]) -> Vec<u8> {
    gz(&tar(ents))
}
