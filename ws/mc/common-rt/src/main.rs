//! C05-C07: the stored form of payment ids and asset ids, and the correspondence of asset ids with
//! cross-chain locations. The crate under test is built with its runtime feature.
use mc_core::serde_json::json;
use mc_core::{guard, nth_word, par_for, Run};
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_runtime::traits::MaybeEquivalence;
use std::collections::HashMap;
use std::sync::Mutex;
use virto_common::{AsFungibleAssetLocation, FungibleAssetLocation, PaymentId};
use xcm::latest::prelude::*;

fn hex(b: &[u8]) -> String {
	b.iter().map(|x| format!("{x:02x}")).collect()
}

// ------------------------------------------------------------------------------------------- C05
const SHARP: [u8; 5] = [0, 1, 0x7f, 0x80, 0xff];

fn numbers(thorough: bool) -> Vec<u64> {
	let mut v: Vec<u64> = (0..SHARP.len().pow(8)).map(|i| u64::from_le_bytes(nth_word(&SHARP, 8, i).try_into().unwrap())).collect();
	let backgrounds: &[u64] = if thorough { &[0, u64::MAX, 0x0123_4567_89ab_cdef] } else { &[0x0123_4567_89ab_cdef] };
	for bg in backgrounds {
		for a in 0..8 {
			for b in a + 1..8 {
				for x in 0..65536u64 {
					let mut w = bg.to_le_bytes();
					w[a] = x as u8;
					w[b] = (x >> 8) as u8;
					v.push(u64::from_le_bytes(w));
				}
			}
		}
	}
	v.sort_unstable();
	v.dedup();
	v
}

fn c05(run: &Run) {
	let v = numbers(run.thorough());
	run.states(v.len() as u64);
	run.check(PaymentId::max_encoded_len() == 8, "declared maximum size is not 8", || json!(PaymentId::max_encoded_len()));
	run.check(PaymentId::encoded_fixed_size() == Some(8), "declared fixed size is not 8", || json!(PaymentId::encoded_fixed_size()));
	run.check(
		format!("{:?}", PaymentId::type_info()) == format!("{:?}", <u64 as TypeInfo>::type_info()),
		"described as another type than a 64-bit number",
		|| json!(format!("{:?}", PaymentId::type_info())),
	);
	let tails: [&[u8]; 3] = [&[], &[0], &[0xff, 1, 2, 3, 4, 5, 6, 7, 8]];
	par_for(v.len(), 4096, |i| {
		let n = v[i];
		let r = guard(|| {
			let id = PaymentId::from(n);
			let bytes = Encode::encode(&id);
			run.check(id.to_number() == n, "number of an id made from a number", || json!({"number": n, "got": id.to_number()}));
			run.check(bytes == n.to_le_bytes(), "encoding is not the number's", || json!({"number": n, "encoding": hex(&bytes)}));
			run.check(id.using_encoded(|b| b == n.to_le_bytes()) && id.encoded_size() == 8 && id.size_hint() == 8, "sizes or borrowed encoding differ", || json!(n));
			run.check((id, id).encode() == (n, n).encode(), "encoding inside a pair differs", || json!(n));
			run.check(vec![id; 3].encode() == vec![n; 3].encode(), "encoding inside a list differs", || json!(n));
			for t in tails {
				let mut input = n.to_le_bytes().to_vec();
				input.extend_from_slice(t);
				let mut slice = &input[..];
				let d = PaymentId::decode(&mut slice);
				run.check(d.as_ref().map(|d| d.to_number()) == Ok(n) && d == Ok(id), "decoding does not invert encoding", || json!({"number": n, "bytes": hex(&input), "got": format!("{d:?}")}));
				run.check(slice == t, "decoding consumes another number of bytes than eight", || json!({"bytes": hex(&input), "left": hex(slice)}));
			}
		});
		if let Err(p) = r {
			run.fail("panics", json!({"number": n, "panic": p}));
		}
	});
	run.transitions(v.len() as u64 * 5);
	// every truncation
	let alphabet: &[u8] = if run.thorough() { &[0, 1, 0x7f, 0x80, 0xfe, 0xff] } else { &SHARP };
	let mut short = 0;
	for len in 0..8usize {
		let n = alphabet.len().pow(len as u32);
		short += n;
		par_for(n, 1024, |i| {
			let b = nth_word(alphabet, len, i);
			let r = guard(|| PaymentId::decode(&mut &b[..]).is_err());
			run.check(r == Ok(true), "decoding fewer than eight bytes does not fail cleanly", || json!({"bytes": hex(&b), "result": format!("{r:?}")}));
		});
	}
	run.transitions(short as u64);
	run.traces(v.len() as u64 + short as u64);
	run.info("ids", json!(v.len()));
	run.info("truncated_inputs", json!(short));
	run.sample(json!({"number": v[v.len() / 2], "encoding": hex(&Encode::encode(&PaymentId::from(v[v.len() / 2])))}));
}

// ------------------------------------------------------------------------------------------- reference
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Net {
	Polkadot,
	Kusama,
	Ethereum(u64),
}
type P = (u16, u8, u32);
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Ref {
	Here(u32),
	Sibling(P),
	External(Net, Option<P>),
}
fn para(p: &P, out: &mut Vec<u8>) {
	out.extend(p.0.to_le_bytes());
	out.push(p.1);
	out.extend(p.2.to_le_bytes());
}
/// The published layout.
fn layout(r: &Ref) -> Vec<u8> {
	let mut o = vec![];
	match r {
		Ref::Here(i) => {
			o.push(0);
			o.extend(i.to_le_bytes());
		}
		Ref::Sibling(p) => {
			o.push(1);
			para(p, &mut o);
		}
		Ref::External(n, c) => {
			o.push(2);
			match n {
				Net::Polkadot => o.push(0),
				Net::Kusama => o.push(1),
				Net::Ethereum(c) => {
					o.push(2);
					o.extend(c.to_le_bytes());
				}
			}
			match c {
				None => o.push(0),
				Some(p) => {
					o.push(1);
					para(p, &mut o);
				}
			}
		}
	}
	o
}
/// Reads the published layout; returns the id and how many bytes it took.
fn read(b: &[u8]) -> Option<(Ref, usize)> {
	let p = |b: &[u8], at: usize| -> Option<P> {
		Some((
			u16::from_le_bytes(b.get(at..at + 2)?.try_into().ok()?),
			*b.get(at + 2)?,
			u32::from_le_bytes(b.get(at + 3..at + 7)?.try_into().ok()?),
		))
	};
	match *b.first()? {
		0 => Some((Ref::Here(u32::from_le_bytes(b.get(1..5)?.try_into().ok()?)), 5)),
		1 => Some((Ref::Sibling(p(b, 1)?), 8)),
		2 => {
			let (n, at) = match *b.get(1)? {
				0 => (Net::Polkadot, 2),
				1 => (Net::Kusama, 2),
				2 => (Net::Ethereum(u64::from_le_bytes(b.get(2..10)?.try_into().ok()?)), 10),
				_ => return None,
			};
			match *b.get(at)? {
				0 => Some((Ref::External(n, None), at + 1)),
				1 => Some((Ref::External(n, Some(p(b, at + 1)?)), at + 8)),
				_ => None,
			}
		}
		_ => None,
	}
}
fn ref_location(r: &Ref) -> Location {
	let gc = |n: &Net| {
		GlobalConsensus(match n {
			Net::Polkadot => NetworkId::Polkadot,
			Net::Kusama => NetworkId::Kusama,
			Net::Ethereum(c) => NetworkId::Ethereum { chain_id: *c },
		})
	};
	match r {
		Ref::Here(i) => Location::new(0, [PalletInstance(13), GeneralIndex(*i as u128)]),
		Ref::Sibling(p) => Location::new(1, [Parachain(p.0 as u32), PalletInstance(p.1), GeneralIndex(p.2 as u128)]),
		Ref::External(n, None) => Location::new(2, [gc(n)]),
		Ref::External(n, Some(p)) => Location::new(2, [gc(n), Parachain(p.0 as u32), PalletInstance(p.1), GeneralIndex(p.2 as u128)]),
	}
}
fn ref_id(l: &Location) -> Option<Ref> {
	let net = |n: &NetworkId| match n {
		NetworkId::Polkadot => Some(Net::Polkadot),
		NetworkId::Kusama => Some(Net::Kusama),
		NetworkId::Ethereum { chain_id } => Some(Net::Ethereum(*chain_id)),
		_ => None,
	};
	let p = |js: &[Junction]| match js {
		[Parachain(a), PalletInstance(b), GeneralIndex(c)] if *a <= 0xffff && *c <= 0xffff_ffff => Some((*a as u16, *b, *c as u32)),
		_ => None,
	};
	let js: Vec<Junction> = l.interior.iter().cloned().collect();
	match (l.parents, &js[..]) {
		(0, [PalletInstance(13), GeneralIndex(i)]) if *i <= 0xffff_ffff => Some(Ref::Here(*i as u32)),
		(1, js) => p(js).map(Ref::Sibling),
		(2, [GlobalConsensus(n)]) => Some(Ref::External(net(n)?, None)),
		(2, [GlobalConsensus(n), rest @ ..]) => Some(Ref::External(net(n)?, Some(p(rest)?))),
		_ => None,
	}
}

fn sharp_u16() -> Vec<u16> {
	vec![0, 1, 2, 0xff, 0x100, 1000, 2281, 0x7fff, 0x8000, 0xfffe, 0xffff]
}
fn sharp_u32() -> Vec<u32> {
	vec![0, 1, 13, 0xff, 0x100, 1984, 0xffff, 0x10000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff]
}
fn sharp_u64() -> Vec<u64> {
	vec![0, 1, 137, 0xff, 0x100, 0xffff_ffff, 0x1_0000_0000, 0x1122_3344_5566_7788, u64::MAX - 1, u64::MAX]
}
fn refs(thorough: bool) -> Vec<Ref> {
	let mut v = vec![];
	for i in 0..70_000u32 {
		v.push(Ref::Here(i));
		v.push(Ref::Here(u32::MAX - i));
	}
	for b in 0..32 {
		v.push(Ref::Here(1 << b));
	}
	let mut paras: Vec<P> = vec![];
	for a in sharp_u16() {
		for b in 0..=255u8 {
			for c in sharp_u32() {
				paras.push((a, b, c));
			}
		}
	}
	for a in 0..=u16::MAX {
		paras.push((a, 50, 1984));
	}
	let mut nets = vec![Net::Polkadot, Net::Kusama];
	nets.extend(sharp_u64().into_iter().map(Net::Ethereum));
	for n in &nets {
		v.push(Ref::External(*n, None));
		for p in paras.iter().step_by(if thorough { 1 } else { 3 }) {
			v.push(Ref::External(*n, Some(*p)));
		}
	}
	for bit in 0..64 {
		v.push(Ref::External(Net::Ethereum(1 << bit), None));
	}
	v.extend(paras.into_iter().map(Ref::Sibling));
	v.sort_by_key(layout);
	v.dedup();
	v
}
/// The id under test with these contents, obtained from its stored form.
fn real(r: &Ref) -> Option<FungibleAssetLocation> {
	FungibleAssetLocation::decode(&mut &layout(r)[..]).ok()
}

// ------------------------------------------------------------------------------------------- C06
fn junctions(thorough: bool) -> Vec<Junction> {
	let mut v = vec![];
	for p in [0u32, 1000, 0xffff, 0x10000, u32::MAX] {
		v.push(Parachain(p));
	}
	for p in [0u8, 12, 13, 14, 255] {
		v.push(PalletInstance(p));
	}
	for i in [0u128, 1984, 0xffff_ffff, 0x1_0000_0000, 1 << 64, u128::MAX] {
		v.push(GeneralIndex(i));
	}
	for n in [
		NetworkId::Polkadot,
		NetworkId::Kusama,
		NetworkId::Ethereum { chain_id: 1 },
		NetworkId::Ethereum { chain_id: u64::MAX },
		NetworkId::Westend,
		NetworkId::ByGenesis([0; 32]),
	] {
		v.push(GlobalConsensus(n));
	}
	v.push(OnlyChild);
	v.push(Junction::AccountId32 { network: None, id: [13; 32] });
	if thorough {
		for n in [
			NetworkId::Rococo,
			NetworkId::Wococo,
			NetworkId::BitcoinCore,
			NetworkId::BitcoinCash,
			NetworkId::PolkadotBulletin,
			NetworkId::ByFork { block_number: 1, block_hash: [1; 32] },
			NetworkId::Ethereum { chain_id: 0 },
		] {
			v.push(GlobalConsensus(n));
		}
		v.push(AccountIndex64 { network: None, index: 13 });
		v.push(AccountKey20 { network: Some(NetworkId::Kusama), key: [0; 20] });
		v.push(GeneralKey { length: 1, data: [13; 32] });
		v.push(Plurality { id: BodyId::Index(1), part: BodyPart::Voice });
	}
	v
}
fn location(parents: u8, js: &[Junction]) -> Location {
	let mut l = Location { parents, interior: Here };
	for j in js {
		l.push_interior(*j).expect("at most eight");
	}
	l
}
fn check_location(run: &Run, l: &Location) {
	match guard(|| AsFungibleAssetLocation::convert(l)) {
		Err(p) => run.fail("converting a location panics", json!({"location": format!("{l:?}"), "panic": p})),
		Ok(got) => {
			let want = ref_id(l).map(|r| layout(&r));
			let enc = got.as_ref().map(|g| g.encode());
			run.check(enc == want, if want.is_some() { "a valid location is refused or misread" } else { "a location of no asset is accepted" }, || {
				json!({"location": format!("{l:?}"), "got": format!("{got:?}"), "expected": format!("{:?}", ref_id(l))})
			});
			if let Some(id) = got {
				let back = guard(|| AsFungibleAssetLocation::convert_back(&id));
				run.check(back.as_ref().ok().cloned().flatten().as_ref() == Some(l), "a converted location does not convert back to itself", || {
					json!({"location": format!("{l:?}"), "id": format!("{id:?}"), "back": format!("{back:?}")})
				});
			}
		}
	}
}
fn c06(run: &Run) {
	let v = refs(run.thorough());
	run.states(v.len() as u64);
	run.traces(v.len() as u64);
	run.transitions(v.len() as u64 * 2);
	let seen: Mutex<HashMap<Location, Ref>> = Mutex::new(HashMap::new());
	par_for(v.len(), 1024, |i| {
		let r = v[i];
		let Some(id) = real(&r) else {
			run.fail("an asset id cannot be read from its stored form", json!(format!("{r:?}")));
			return;
		};
		let l = guard(|| AsFungibleAssetLocation::convert_back(&id));
		run.check(l == Ok(Some(ref_location(&r))), "an asset id converts to another location", || {
			json!({"id": format!("{id:?}"), "got": format!("{l:?}"), "expected": format!("{:?}", ref_location(&r))})
		});
		if let Ok(Some(l)) = l {
			let back = guard(|| AsFungibleAssetLocation::convert(&l));
			run.check(back == Ok(Some(id)), "an asset id does not survive conversion to a location and back", || {
				json!({"id": format!("{id:?}"), "location": format!("{l:?}"), "back": format!("{back:?}")})
			});
			if i % 64 == 0 {
				if let Some(o) = seen.lock().unwrap().insert(l.clone(), r) {
					run.check(o == r, "two asset ids share a location", || json!([format!("{o:?}"), format!("{r:?}")]));
				}
			}
		}
		// numbers used as local asset ids
		if let Ref::Here(n) = r {
			run.check(FungibleAssetLocation::from(n) == id, "a number makes another asset id", || json!(n));
		}
	});
	let js = junctions(run.thorough());
	let mut n = 0u64;
	for len in 0..=4usize {
		let words = js.len().pow(len as u32);
		for parents in [0u8, 1, 2, 3, 255] {
			n += words as u64;
			par_for(words, 2048, |i| check_location(run, &location(parents, &nth_word(&js, len, i))));
		}
	}
	// a valid location with anything appended
	for r in [Ref::Here(7), Ref::Sibling((1000, 50, 1984)), Ref::External(Net::Kusama, None), Ref::External(Net::Polkadot, Some((1000, 50, 1337)))] {
		let l = ref_location(&r);
		for extra in 1..=4usize {
			if extra + l.interior.len() > 8 || extra > 2 {
				continue;
			}
			let words = js.len().pow(extra as u32);
			n += words as u64;
			for i in 0..words {
				let mut m = l.clone();
				for j in nth_word(&js, extra, i) {
					m.push_interior(j).expect("short");
				}
				check_location(run, &m);
			}
		}
	}
	run.states(n);
	run.transitions(n);
	run.traces(n);
	run.info("asset_ids", json!(v.len()));
	run.info("locations", json!(n));
	run.info("junction_alphabet", json!(js.len()));
	run.sample(json!({"location": format!("{:?}", ref_location(&v[v.len() / 2])), "id": format!("{:?}", real(&v[v.len() / 2]))}));
}

// ------------------------------------------------------------------------------------------- C07
fn check_bytes(run: &Run, b: &[u8]) {
	let r = guard(|| {
		let mut s = b;
		let d = FungibleAssetLocation::decode(&mut s).ok();
		(d.map(|d| d.encode()), b.len() - s.len())
	});
	match r {
		Err(p) => run.fail("decoding panics", json!({"bytes": hex(b), "panic": p})),
		Ok((got, used)) => match read(b) {
			None => {
				run.check(got.is_none(), "bytes that are no encoding are accepted", || json!({"bytes": hex(b), "got": got.clone().map(|g| hex(&g))}));
			}
			Some((r, n)) => {
				run.check(got.as_deref() == Some(&b[..n]) && used == n, "bytes of an encoding are refused or misread", || {
					json!({"bytes": hex(b), "expected": format!("{r:?}"), "reencoded": got.clone().map(|g| hex(&g)), "consumed": used})
				});
			}
		},
	}
}
fn c07(run: &Run) {
	let v = refs(run.thorough());
	run.states(v.len() as u64);
	run.transitions(v.len() as u64 * 2);
	run.traces(v.len() as u64);
	let max = FungibleAssetLocation::max_encoded_len();
	let seen: Mutex<u64> = Mutex::new(0);
	run.check(max == 18, "declared maximum size is not that of the layout", || json!(max));
	run.check(FungibleAssetLocation::default().encode() == layout(&Ref::Here(0)), "default id", || json!(hex(&FungibleAssetLocation::default().encode())));
	par_for(v.len(), 1024, |i| {
		let r = v[i];
		let want = layout(&r);
		// construct without the decoder where the public interface allows: from a location
		let id = match guard(|| AsFungibleAssetLocation::convert(&ref_location(&r))) {
			Ok(Some(id)) => id,
			_ => match real(&r) {
				Some(id) => id,
				None => {
					run.fail("an asset id cannot be read from its stored form", json!(format!("{r:?}")));
					return;
				}
			},
		};
		let e = Encode::encode(&id);
		run.check(e == want, "encoding differs from the published layout", || json!({"id": format!("{id:?}"), "got": hex(&e), "expected": hex(&want)}));
		run.check(e.len() <= max && id.encoded_size() == e.len(), "encoding exceeds the declared size", || json!({"id": format!("{id:?}"), "len": e.len(), "max": max}));
		let d = FungibleAssetLocation::decode(&mut &e[..]);
		run.check(d.as_ref().ok() == Some(&id), "decoding does not give the id back", || json!({"id": format!("{id:?}"), "got": format!("{d:?}")}));
		if e.len() == max {
			*seen.lock().unwrap() += 1;
		}
		if i % 16 == 0 {
			for n in 0..want.len() {
				check_bytes(run, &want[..n]);
			}
		}
	});
	run.check(*seen.lock().unwrap() > 0, "no id reaches the declared maximum", || json!(max));
	// arbitrary bytes: every first and second byte, sharp bytes after, then long inputs with every tag byte
	let tail: [u8; 3] = [0, 1, 0xff];
	let mut n = 0u64;
	for a in 0..=255u8 {
		for len in 0..=8usize {
			let words = tail.len().pow(len as u32);
			n += words as u64;
			par_for(words, 512, |i| {
				let mut b = vec![a];
				b.extend(nth_word(&tail, len, i));
				check_bytes(run, &b);
			});
		}
	}
	for net in 0..=255u8 {
		for opt in 0..=255u8 {
			for fill in [0u8, 1, 2, 0xff] {
				let mut b = vec![2, net];
				if net == 2 {
					b.extend([fill; 8]);
				}
				b.push(opt);
				for extra in 0..=8 {
					let mut c = b.clone();
					c.extend(vec![fill; extra]);
					check_bytes(run, &c);
					n += 1;
				}
			}
		}
	}
	run.states(n);
	run.transitions(n);
	run.traces(n);
	run.info("asset_ids", json!(v.len()));
	run.info("byte_strings", json!(n));
	run.sample(json!({"id": format!("{:?}", v[v.len() / 2]), "encoding": hex(&layout(&v[v.len() / 2]))}));
}

fn main() {
	let prop = std::env::args().nth(1).expect("property");
	let run = Run::new(&prop);
	run.assume("cross-chain location types are stand-ins with the structure of the original (version 4)");
	match prop.as_str() {
		"C05" => c05(&run),
		"C06" => c06(&run),
		"C07" => c07(&run),
		_ => panic!("unknown property"),
	}
	run.finish()
}
