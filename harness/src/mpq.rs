//! Writes minimal replay archives: the header in the user data, every file one uncompressed unit.
use std::sync::LazyLock;

static TABLE: LazyLock<Vec<u32>> = LazyLock::new(|| {
    let mut seed = 0x00100001u32;
    let mut t = vec![0; 0x500];
    for i in 0..0x100 {
        for j in 0..5 {
            seed = (seed * 125 + 3) % 0x2AAAAB;
            let hi = (seed & 0xffff) << 16;
            seed = (seed * 125 + 3) % 0x2AAAAB;
            t[i + j * 0x100] = hi | (seed & 0xffff);
        }
    }
    t
});

fn hash(name: &str, kind: u32) -> u32 {
    let (mut a, mut b) = (0x7FED7FEDu32, 0xEEEEEEEEu32);
    for c in name.to_uppercase().bytes() {
        a = TABLE[((kind << 8) + c as u32) as usize] ^ a.wrapping_add(b);
        b = (c as u32).wrapping_add(a).wrapping_add(b).wrapping_add(b << 5).wrapping_add(3);
    }
    a
}

fn encrypt(words: &[u32], mut key: u32) -> Vec<u8> {
    let mut seed = 0xEEEEEEEEu32;
    let mut out = vec![];
    for &w in words {
        seed = seed.wrapping_add(TABLE[(0x400 + (key & 0xff)) as usize]);
        out.extend((w ^ key.wrapping_add(seed)).to_le_bytes());
        key = ((!key << 0x15).wrapping_add(0x11111111)) | (key >> 0x0B);
        seed = w.wrapping_add(seed).wrapping_add(seed << 5).wrapping_add(3);
    }
    out
}

/// A replay file with the given user data and embedded files.
pub fn archive(user: &[u8], files: &[(String, Vec<u8>)]) -> Vec<u8> {
    let offset = (16 + user.len()).div_ceil(16) * 16;
    let mut out = b"MPQ\x1b".to_vec();
    out.extend((user.len() as u32).to_le_bytes());
    out.extend((offset as u32).to_le_bytes());
    out.extend((user.len() as u32).to_le_bytes());
    out.extend(user);
    out.resize(offset, 0);
    let mut body: Vec<u8> = vec![];
    let (mut hashes, mut blocks) = (vec![], vec![]);
    for (i, (name, data)) in files.iter().enumerate() {
        hashes.extend([hash(name, 1), hash(name, 2), 0, i as u32]);
        blocks.extend([32 + body.len() as u32, data.len() as u32, data.len() as u32, 0x8100_0000]);
        body.extend(data);
    }
    let h = 32 + body.len() as u32;
    let b = h + 4 * hashes.len() as u32;
    out.extend(b"MPQ\x1a");
    out.extend(32u32.to_le_bytes());
    out.extend((b + 4 * blocks.len() as u32).to_le_bytes());
    out.extend(0u16.to_le_bytes());
    out.extend(3u16.to_le_bytes());
    for v in [h, b, files.len() as u32, files.len() as u32] {
        out.extend(v.to_le_bytes());
    }
    out.extend(body);
    out.extend(encrypt(&hashes, hash("(hash table)", 3)));
    out.extend(encrypt(&blocks, hash("(block table)", 3)));
    out
}
