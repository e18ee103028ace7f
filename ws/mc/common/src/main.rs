//! C01-C04: payment ids as numbers, text and derived from block/extrinsic/recipient.
//! The crate under test is built the way the project's own tests build it (no runtime feature).
use mc_core::serde_json::{json, Value};
use mc_core::{guard, nth_word, par_for, Run};
use std::collections::HashSet;
use std::sync::Mutex;
use virto_common::PaymentId;

const SHARP: [u8; 5] = [0, 1, 0x7f, 0x80, 0xff];
const MIX: [u8; 8] = [0x12, 0x34, 0x56, 0x78, 0x9a, 0xbc, 0xde, 0xf1];

/// The set of ids explored: all products of a sharp byte alphabet over the eight bytes, and all
/// 65536 values of every pair of byte positions over three backgrounds.
fn ids(thorough: bool) -> (Vec<u64>, u64) {
	let mut v: Vec<u64> = vec![];
	let n = SHARP.len().pow(8);
	for i in 0..n {
		v.push(u64::from_le_bytes(nth_word(&SHARP, 8, i).try_into().unwrap()));
	}
	let backgrounds: &[[u8; 8]] = if thorough {
		&[[0; 8], [0xff; 8], MIX, [1, 0, 0, 0, 0, 0, 0, 1]]
	} else {
		&[[0; 8], MIX]
	};
	for bg in backgrounds {
		for a in 0..8 {
			for b in a + 1..8 {
				for x in 0..=255u8 {
					for y in 0..=255u8 {
						let mut w = *bg;
						w[a] = x;
						w[b] = y;
						v.push(u64::from_le_bytes(w));
					}
				}
			}
		}
	}
	for bit in 0..64 {
		for d in [0u64, 1, u64::MAX] {
			v.push((1u64 << bit).wrapping_add(d));
		}
	}
	let walks = v.len() as u64;
	v.sort_unstable();
	v.dedup();
	(v, walks)
}

// ------------------------------------------------------------------ reference base58
const ALPHABET: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";

fn ref_encode(bytes: &[u8]) -> String {
	let zeros = bytes.iter().take_while(|b| **b == 0).count();
	let mut n = bytes.iter().fold(0u128, |a, b| (a << 8) | *b as u128);
	let mut digits = vec![];
	while n > 0 {
		digits.push(ALPHABET[(n % 58) as usize]);
		n /= 58;
	}
	digits.extend(std::iter::repeat(b'1').take(zeros));
	digits.reverse();
	String::from_utf8(digits).unwrap()
}

/// The eight bytes the text (without dash) stands for, if it is the full text of an id.
fn ref_decode(s: &str) -> Option<[u8; 8]> {
	let mut n: u128 = 0;
	let b = s.as_bytes();
	if b.len() > 11 || b.is_empty() {
		return None;
	}
	for c in b {
		let d = ALPHABET.iter().position(|a| a == c)? as u128;
		n = n * 58 + d;
	}
	let zeros = b.iter().take_while(|c| **c == b'1').count();
	let mut raw = vec![];
	while n > 0 {
		raw.push((n & 0xff) as u8);
		n >>= 8;
	}
	raw.extend(std::iter::repeat(0).take(zeros));
	raw.reverse();
	raw.try_into().ok()
}

/// What parsing must do with a text.
#[derive(Debug, PartialEq, Clone, Copy)]
enum Expect {
	Id(u64),
	Reject,
	/// a dash elsewhere than after the fifth character: this id or refused
	IdOrReject(u64),
}

fn ref_parse(s: &str) -> Expect {
	let id = |t: &str| ref_decode(t).map(u64::from_le_bytes);
	match s.split_once('-') {
		None => id(s).map_or(Expect::Reject, Expect::Id),
		Some((a, b)) => match id(&format!("{a}{b}")) {
			None => Expect::Reject,
			Some(i) if a.len() == 5 => Expect::Id(i),
			Some(i) => Expect::IdOrReject(i),
		},
	}
}

// ------------------------------------------------------------------ C01
fn c01(run: &Run) {
	let (ids, walks) = ids(run.thorough());
	run.states(ids.len() as u64);
	run.traces(walks);
	run.sample(json!({"number": ids[ids.len() / 3], "walk": "number -> id -> accessors -> number"}));
	run.sample(json!({"number": format!("{:#018x}", u64::from_le_bytes(MIX))}));
	let one = |n: u64| {
		let b = n.to_le_bytes();
		let case = |what: &str, got: Value, want: Value| json!({"number": format!("{n:#018x}"), "what": what, "got": got, "want": want});
		let r = guard(|| {
			let id = PaymentId::from(n);
			let id2 = PaymentId::from_number(n);
			let back: u64 = id.into();
			let bytes: Vec<u8> = id.as_ref().to_vec();
			(id == id2, back, id2.to_number(), bytes, id.to_bytes(), id.block_number(), id.extrinsic_index(), id2)
		});
		run.transitions(8);
		match r {
			Err(p) => run.fail("panic", case("panic", json!(p), json!("no panic"))),
			Ok((same, back, back2, bytes, tb, block, index, id)) => {
				run.check(same, "two-constructors-differ", || case("from_number", json!(format!("{id:?}")), json!(n)));
				run.check(back == n, "number-round-trip", || case("into u64", json!(back), json!(n)));
				run.check(back2 == n, "number-round-trip", || case("to_number", json!(back2), json!(n)));
				run.check(bytes == b, "byte-layout", || case("as_ref", json!(bytes), json!(b)));
				run.check(tb == b, "byte-layout", || case("to_bytes", json!(tb), json!(b)));
				let wb = u32::from_le_bytes([b[4], b[5], b[6], b[7]]);
				let wi = u16::from_le_bytes([b[2], b[3]]) as u32;
				run.check(block == wb, "block-number", || case("block_number", json!(block), json!(wb)));
				run.check(index == wi, "extrinsic-index", || case("extrinsic_index", json!(index), json!(wi)));
			}
		}
	};
	par_for(ids.len(), 4096, |i| one(ids[i]));
	// equality separates ids: every id against itself with each single bit flipped
	let step = if run.thorough() { 1 } else { 7 };
	par_for(ids.len() / step, 1024, |i| {
		let n = ids[i * step];
		for bit in 0..64 {
			let m = n ^ (1 << bit);
			run.transitions(1);
			run.check(PaymentId::from(n) != PaymentId::from(m), "distinct-numbers-equal-ids", || json!({"a": n, "b": m}));
		}
	});
	if run.thorough() {
		// every block number, and every (prefix, index), on a background outside the sets above
		par_for(1 << 16, 16, |hi| {
			for lo in 0..1u64 << 16 {
				let w = (hi as u64) << 16 | lo;
				let a = w << 32 | 0xa55a_c33c;
				let b = 0xa55a_c33c_0000_0000 | w;
				for n in [a, b] {
					let id = PaymentId::from(n);
					let ok = id.to_number() == n
						&& id.block_number() == (n >> 32) as u32
						&& id.extrinsic_index() == (n >> 16 & 0xffff) as u32;
					if !ok {
						run.fail("number-round-trip", json!({"number": n}));
					}
				}
			}
			run.states(1 << 17);
			run.traces(1 << 17);
			run.transitions(3 << 17);
		});
	}
}

// ------------------------------------------------------------------ C02
fn c02(run: &Run) {
	let (ids, walks) = ids(run.thorough());
	run.states(ids.len() as u64);
	run.traces(walks);
	run.sample(json!({"id": format!("{:#018x}", ids[ids.len() / 2]), "text": ref_encode(&ids[ids.len() / 2].to_le_bytes())}));
	let texts: Vec<Mutex<HashSet<String>>> = (0..256).map(|_| Mutex::new(HashSet::new())).collect();
	par_for(ids.len(), 2048, |i| {
		let n = ids[i];
		let want = ref_encode(&n.to_le_bytes());
		let r = guard(|| {
			let id = PaymentId::from(n);
			let plain = format!("{id}");
			let pretty = format!("{id:#}");
			let p1 = plain.parse::<PaymentId>().map(u64::from);
			let p2 = pretty.parse::<PaymentId>().map(u64::from);
			let n1: u64 = PaymentId::new(&plain).into();
			let n2: u64 = PaymentId::new(&pretty).into();
			(id.encode(false), id.encode(true), plain, pretty, p1, p2, n1, n2)
		});
		run.transitions(8);
		let case = |what: &str, got: Value, want: Value| json!({"number": format!("{n:#018x}"), "what": what, "got": got, "want": want});
		match r {
			Err(p) => run.fail("panic", case("panic", json!(p), json!("no panic"))),
			Ok((e1, e2, plain, pretty, p1, p2, n1, n2)) => {
				let wpretty = format!("{}-{}", &want[..5], &want[5..]);
				run.check(plain == want, "plain-text", || case("plain", json!(plain), json!(want)));
				run.check(pretty == wpretty, "pretty-text", || case("pretty", json!(pretty), json!(wpretty)));
				run.check(e1 == plain && e2 == pretty, "encode-differs-from-display", || case("encode", json!([e1, e2]), json!([plain, pretty])));
				run.check(p1 == Ok(n), "plain-round-trip", || case("parse plain", json!(p1.ok()), json!(n)));
				run.check(p2 == Ok(n), "pretty-round-trip", || case("parse pretty", json!(p2.ok()), json!(n)));
				run.check(n1 == n && n2 == n, "lenient-round-trip", || case("new", json!([n1, n2]), json!(n)));
				let fresh = texts[(n.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 56) as usize].lock().unwrap().insert(plain);
				run.check(fresh, "two-ids-one-text", || case("text", json!(want), json!("unique")));
			}
		}
	});
	// uniqueness across shards follows from equality with the reference text, which is injective;
	// it is still checked within every shard above.
}

// ------------------------------------------------------------------ C03
fn c03(run: &Run) {
	let mut texts: Vec<String> = vec![];
	// 1. all short strings over a sharp alphabet
	let sharp: Vec<char> = if run.thorough() { "12zjJ0OIl- +/é".chars().collect() } else { "1zj0Il- é".chars().collect() };
	let maxlen = if run.thorough() { 6 } else { 5 };
	for len in 0..=maxlen {
		for i in 0..sharp.len().pow(len as u32) {
			texts.push(nth_word(&sharp, len, i).into_iter().collect());
		}
	}
	// 2. all strings of the lengths valid texts have (and one more) over few characters
	let few: &[char] = &['1', '2', 'z'];
	for len in 6..=12usize {
		if len > 11 && !run.thorough() {
			continue;
		}
		for i in 0..few.len().pow(len as u32) {
			texts.push(nth_word(few, len, i).into_iter().collect());
		}
	}
	// 3. texts around the largest id: every number within 58^2 of 2^64 and powers of 256 and 58
	let num = |n: u128| -> String {
		let mut d = vec![];
		let mut n = n;
		while n > 0 {
			d.push(ALPHABET[(n % 58) as usize]);
			n /= 58;
		}
		d.reverse();
		String::from_utf8(d).unwrap()
	};
	for base in (1..=9).map(|k| 1u128 << (8 * k)).chain((1..=12).map(|k| 58u128.pow(k))) {
		for d in -70i128..=70 {
			let t = num((base as i128 + d).max(0) as u128);
			for ones in 0..=9 {
				let t = format!("{}{}", "1".repeat(ones), t);
				if t.len() > 5 {
					texts.push(format!("{}-{}", &t[..5], &t[5..]));
				}
				texts.push(t);
			}
		}
	}
	// 4. all single edits, truncations and dash placements of valid texts
	let mut seeds: Vec<u64> = vec![0, 1, 255, 256, u64::MAX, u64::MAX - 1, u64::from_le_bytes(MIX), 1 << 63, 1 << 56, 1 << 48, 1 << 32, 0x00ff_0000_0000_0000];
	for z in 0..8 {
		seeds.push(u64::MAX << (8 * z));
		seeds.push(0x0102_0304_0506_0708u64 << (8 * z));
	}
	if run.thorough() {
		for i in 0..SHARP.len().pow(4) {
			let w = nth_word(&SHARP, 4, i);
			seeds.push(u64::from_le_bytes([w[0], w[1], 3, w[2], 9, 7, w[3], 0x42]));
		}
	}
	let mut chars: Vec<char> = (0u8..128).map(|b| b as char).collect();
	chars.extend(['é', '１', '\u{0}', '😀', 'ſ']);
	for n in seeds {
		let t: Vec<char> = ref_encode(&n.to_le_bytes()).chars().collect();
		let mut dashed = t.clone();
		dashed.insert(5, '-');
		for base in [t, dashed] {
			for i in 0..=base.len() {
				texts.push(base[..i].iter().collect());
				texts.push(base[i..].iter().collect());
				for c in &chars {
					let mut v = base.clone();
					v.insert(i, *c);
					texts.push(v.iter().collect());
					if i < base.len() {
						let mut v = base.clone();
						v[i] = *c;
						texts.push(v.iter().collect());
					}
				}
				for j in i..=base.len() {
					let mut v = base.clone();
					v.insert(j, '-');
					v.insert(i, '-');
					texts.push(v.iter().collect());
				}
				if i < base.len() {
					let mut v = base.clone();
					v.remove(i);
					texts.push(v.iter().collect());
				}
			}
			for rep in 1..=4 {
				let s: String = base.iter().collect();
				texts.push(s.repeat(rep + 1));
				texts.push(format!("{s}{}", "1".repeat(rep)));
				texts.push(format!("{}{s}", "1".repeat(rep)));
				texts.push(format!(" {s}"));
				texts.push(format!("{s}\n"));
			}
		}
	}
	// 5. long texts, with and without dashes at every position
	for len in 0..=40usize {
		for c in ['1', 'z', '2', 'é', '-', '0'] {
			let s: String = std::iter::repeat(c).take(len).collect();
			texts.push(s.clone());
			for d in 0..=len {
				if s.is_char_boundary(d) {
					texts.push(format!("{}-{}", &s[..d], &s[d..]));
				}
			}
		}
	}
	for len in [255, 256, 4096] {
		texts.push("1".repeat(len));
		texts.push(format!("{}-{}", "1".repeat(len), "2".repeat(len)));
	}
	run.traces(texts.len() as u64);
	texts.sort_unstable();
	texts.dedup();
	run.states(texts.len() as u64);
	run.sample(json!({"text": texts[texts.len() / 2], "expect": format!("{:?}", ref_parse(&texts[texts.len() / 2]))}));
	run.sample(json!({"text": "jpXCZ-edGfVR", "expect": format!("{:?}", ref_parse("jpXCZ-edGfVR"))}));
	let accepted = std::sync::atomic::AtomicU64::new(0);
	par_for(texts.len(), 2048, |i| {
		let t = &texts[i];
		let want = ref_parse(t);
		let r = guard(|| t.parse::<PaymentId>().map(u64::from));
		let l = guard(|| u64::from(PaymentId::new(t)));
		run.transitions(2);
		let default = u64::from(PaymentId::default());
		let case = |got: Value| json!({"text": t, "got": got, "want": format!("{want:?}")});
		match &r {
			Err(p) => return run.fail("parse-panics", case(json!(p))),
			Ok(got) => {
				let ok = match (want, got) {
					(Expect::Reject, Err(_)) => true,
					(Expect::Reject, Ok(_)) => false,
					(Expect::Id(i), Ok(g)) => i == *g,
					(Expect::Id(_), Err(_)) => false,
					(Expect::IdOrReject(_), Err(_)) => true,
					(Expect::IdOrReject(i), Ok(g)) => i == *g,
				};
				if got.is_ok() {
					accepted.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
				}
				let key = match want {
					Expect::Reject => "malformed-text-accepted",
					_ => "wellformed-text-misread",
				};
				run.check(ok, key, || case(json!(format!("{got:?}"))));
			}
		}
		match l {
			Err(p) => run.fail("lenient-parse-panics", case(json!(p))),
			Ok(g) => {
				let w = r.unwrap().unwrap_or(default);
				run.check(g == w, "lenient-parse-differs", || case(json!(g)));
			}
		}
	});
	run.info("texts_accepted", json!(accepted.into_inner()));
}

// ------------------------------------------------------------------ C04
fn c04(run: &Run) {
	let mut nums: Vec<u32> = vec![0, 1, 2, 5, 255, 256, 257, 65534, 65535, 65536, 65537, 131071, 131072, 1_234_567, u32::MAX, u32::MAX - 1, 0x0102_0304, 0xfffe_0001];
	for b in 0..32 {
		nums.push(1 << b);
		nums.push(!(1u32 << b));
	}
	nums.sort_unstable();
	nums.dedup();
	let idxs = nums.clone();
	let prefixes: Vec<[u8; 2]> = if run.thorough() {
		(0..=255u8).flat_map(|a| [0u8, 1, 0x7f, 0x80, 0xff].map(|b| [[a, b], [b, a]])).flatten().collect()
	} else {
		SHARP.iter().flat_map(|a| SHARP.map(|b| [*a, b])).collect()
	};
	let lens: &[usize] = &[2, 3, 4, 8, 20, 31, 32, 33];
	let per = prefixes.len() * lens.len();
	run.sample(json!({"block": 1_234_567, "index": 65541, "recipient": [2, 5]}));
	let distinct = Mutex::new(HashSet::new());
	par_for(nums.len() * idxs.len(), 8, |i| {
		let (block, idx) = (nums[i / idxs.len()], idxs[i % idxs.len()]);
		let mut local = vec![];
		for p in &prefixes {
			for len in lens {
				for fill in [0x00u8, 0xee] {
					let mut extra = vec![fill; *len];
					extra[..2].copy_from_slice(p);
					let r = guard(|| {
						let id = PaymentId::from((block, idx, &extra[..]));
						(id.block_number(), id.extrinsic_index(), id.to_bytes(), u64::from(id))
					});
					let want = u64::from_le_bytes([p[0], p[1], idx as u8, (idx >> 8) as u8, block as u8, (block >> 8) as u8, (block >> 16) as u8, (block >> 24) as u8]);
					let case = |got: Value| json!({"block": block, "index": idx, "recipient": extra, "got": got, "want_number": want});
					match r {
						Err(e) => run.fail("panic", case(json!(e))),
						Ok((b, x, bytes, n)) => {
							run.check(b == block, "block-lost", || case(json!(b)));
							run.check(x == (idx & 0xffff), "index-lost", || case(json!(x)));
							run.check(bytes.len() == 8 && bytes[..2] == p[..], "recipient-prefix-lost", || case(json!(bytes)));
							run.check(n == want, "derived-number", || case(json!(n)));
						}
					}
				}
			}
			local.push((block, idx & 0xffff, *p));
		}
		run.transitions(2 * 4 * per as u64);
		run.traces(2 * per as u64);
		distinct.lock().unwrap().extend(local);
	});
	// distinct components <=> distinct ids: all pairs differing in one component are covered by the
	// exact number above; here the ids themselves are compared over the whole set
	let set = distinct.into_inner().unwrap();
	let mut ids = HashSet::new();
	for (b, x, p) in &set {
		ids.insert(u64::from(PaymentId::from((*b, *x, &p[..]))));
	}
	run.check(ids.len() == set.len(), "distinct-components-one-id", || json!({"components": set.len(), "ids": ids.len()}));
	run.states(set.len() as u64);
}

fn main() {
	let id = std::env::args().nth(1).expect("property id");
	let run = Run::new(&id);
	let done = mc_core::guard(|| match id.as_str() {
		"C01" => c01(&run),
		"C02" => c02(&run),
		"C03" => {
			run.assume("a dash anywhere else than after the fifth character may be ignored or refused");
			c03(&run)
		}
		"C04" => c04(&run),
		_ => {
			eprintln!("unknown property {id}");
			std::process::exit(2)
		}
	});
	if let Err(e) = done {
		run.states(1);
		run.transitions(1);
		run.traces(1);
		run.fail("something that has an answer panics", json!({"panic": format!("{e:?}")}));
	}
	run.finish()
}
