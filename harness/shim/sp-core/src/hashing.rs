//! blake2b and xxhash64, as used for storage keys and named tasks.

const IV: [u64; 8] = [
	0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
	0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
];
const SIGMA: [[usize; 16]; 10] = [
	[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
	[14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
	[11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
	[7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
	[9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
	[2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
	[12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
	[13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
	[6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
	[10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];

fn compress(h: &mut [u64; 8], block: &[u8; 128], t: u128, last: bool) {
	let mut m = [0u64; 16];
	for (i, w) in m.iter_mut().enumerate() {
		*w = u64::from_le_bytes(block[i * 8..i * 8 + 8].try_into().unwrap());
	}
	let mut v = [0u64; 16];
	v[..8].copy_from_slice(h);
	v[8..].copy_from_slice(&IV);
	v[12] ^= t as u64;
	v[13] ^= (t >> 64) as u64;
	if last {
		v[14] = !v[14];
	}
	let g = |v: &mut [u64; 16], a: usize, b: usize, c: usize, d: usize, x: u64, y: u64| {
		v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
		v[d] = (v[d] ^ v[a]).rotate_right(32);
		v[c] = v[c].wrapping_add(v[d]);
		v[b] = (v[b] ^ v[c]).rotate_right(24);
		v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
		v[d] = (v[d] ^ v[a]).rotate_right(16);
		v[c] = v[c].wrapping_add(v[d]);
		v[b] = (v[b] ^ v[c]).rotate_right(63);
	};
	for r in 0..12 {
		let s = &SIGMA[r % 10];
		g(&mut v, 0, 4, 8, 12, m[s[0]], m[s[1]]);
		g(&mut v, 1, 5, 9, 13, m[s[2]], m[s[3]]);
		g(&mut v, 2, 6, 10, 14, m[s[4]], m[s[5]]);
		g(&mut v, 3, 7, 11, 15, m[s[6]], m[s[7]]);
		g(&mut v, 0, 5, 10, 15, m[s[8]], m[s[9]]);
		g(&mut v, 1, 6, 11, 12, m[s[10]], m[s[11]]);
		g(&mut v, 2, 7, 8, 13, m[s[12]], m[s[13]]);
		g(&mut v, 3, 4, 9, 14, m[s[14]], m[s[15]]);
	}
	for i in 0..8 {
		h[i] ^= v[i] ^ v[i + 8];
	}
}

fn blake2b<const N: usize>(data: &[u8]) -> [u8; N] {
	let mut h = IV;
	h[0] ^= 0x01010000 ^ (N as u64);
	let mut off = 0usize;
	loop {
		let n = core::cmp::min(128, data.len() - off);
		let mut block = [0u8; 128];
		block[..n].copy_from_slice(&data[off..off + n]);
		off += n;
		let last = off == data.len();
		compress(&mut h, &block, off as u128, last);
		if last {
			break;
		}
	}
	let mut full = [0u8; 64];
	for (i, w) in h.iter().enumerate() {
		full[i * 8..i * 8 + 8].copy_from_slice(&w.to_le_bytes());
	}
	full[..N].try_into().unwrap()
}

pub fn blake2_64(data: &[u8]) -> [u8; 8] {
	blake2b(data)
}
pub fn blake2_128(data: &[u8]) -> [u8; 16] {
	blake2b(data)
}
pub fn blake2_256(data: &[u8]) -> [u8; 32] {
	blake2b(data)
}
pub fn blake2_512(data: &[u8]) -> [u8; 64] {
	blake2b(data)
}

const P1: u64 = 0x9E3779B185EBCA87;
const P2: u64 = 0xC2B2AE3D27D4EB4F;
const P3: u64 = 0x165667B19E3779F9;
const P4: u64 = 0x85EBCA77C2B2AE63;
const P5: u64 = 0x27D4EB2F165667C5;

fn round(acc: u64, input: u64) -> u64 {
	acc.wrapping_add(input.wrapping_mul(P2)).rotate_left(31).wrapping_mul(P1)
}

pub fn xxh64(mut d: &[u8], seed: u64) -> u64 {
	let len = d.len() as u64;
	let rd = |d: &[u8], i: usize| u64::from_le_bytes(d[i..i + 8].try_into().unwrap());
	let mut h = if d.len() >= 32 {
		let mut v = [
			seed.wrapping_add(P1).wrapping_add(P2),
			seed.wrapping_add(P2),
			seed,
			seed.wrapping_sub(P1),
		];
		while d.len() >= 32 {
			for i in 0..4 {
				v[i] = round(v[i], rd(d, i * 8));
			}
			d = &d[32..];
		}
		let mut h = v[0]
			.rotate_left(1)
			.wrapping_add(v[1].rotate_left(7))
			.wrapping_add(v[2].rotate_left(12))
			.wrapping_add(v[3].rotate_left(18));
		for x in v {
			h = (h ^ round(0, x)).wrapping_mul(P1).wrapping_add(P4);
		}
		h
	} else {
		seed.wrapping_add(P5)
	};
	h = h.wrapping_add(len);
	while d.len() >= 8 {
		h = (h ^ round(0, rd(d, 0))).rotate_left(27).wrapping_mul(P1).wrapping_add(P4);
		d = &d[8..];
	}
	if d.len() >= 4 {
		let x = u32::from_le_bytes(d[..4].try_into().unwrap()) as u64;
		h = (h ^ x.wrapping_mul(P1)).rotate_left(23).wrapping_mul(P2).wrapping_add(P3);
		d = &d[4..];
	}
	for b in d {
		h = (h ^ (*b as u64).wrapping_mul(P5)).rotate_left(11).wrapping_mul(P1);
	}
	h ^= h >> 33;
	h = h.wrapping_mul(P2);
	h ^= h >> 29;
	h = h.wrapping_mul(P3);
	h ^ (h >> 32)
}

pub fn twox_64(data: &[u8]) -> [u8; 8] {
	xxh64(data, 0).to_le_bytes()
}
pub fn twox_128(data: &[u8]) -> [u8; 16] {
	let mut r = [0u8; 16];
	r[..8].copy_from_slice(&xxh64(data, 0).to_le_bytes());
	r[8..].copy_from_slice(&xxh64(data, 1).to_le_bytes());
	r
}
pub fn twox_256(data: &[u8]) -> [u8; 32] {
	let mut r = [0u8; 32];
	for i in 0..4 {
		r[i * 8..i * 8 + 8].copy_from_slice(&xxh64(data, i as u64).to_le_bytes());
	}
	r
}

#[cfg(test)]
mod tests {
	use super::*;
	fn hex(b: &[u8]) -> String {
		b.iter().map(|x| format!("{x:02x}")).collect()
	}
	#[test]
	fn vectors() {
		assert_eq!(
			hex(&blake2_256(b"abc")),
			"bddd813c634239723171ef3fee98579b94964e3bb1cb3e427262c8c068d52319"
		);
		assert_eq!(hex(&twox_128(b"System")), "26aa394eea5630e07c48ae0c9558cef7");
		assert_eq!(hex(&twox_128(b"Account")), "b99d880ec681799c0cf30e8886371da9");
		assert_eq!(hex(&twox_128(b"Sudo")), "5c0d1176a568c1f92944340dbfed9e9c");
	}
}
