//! Storage items over the thread-local key/value store of the harness. Keys are
//! `(pallet, item).encode() ++ key.encode()`, so raw storage can be decoded without private access.
use parity_scale_codec::{Decode, Encode, EncodeLike, FullCodec, FullEncode};
use shim_base::ext;
use shim_base::runtime::DispatchError;
use shim_base::traits::Get;
use std::marker::PhantomData;

pub use shim_base::bounded as bounded_vec;

pub trait StorageInstance {
	fn pallet_prefix() -> &'static str;
	const STORAGE_PREFIX: &'static str;
	fn prefix() -> Vec<u8> {
		item_prefix(Self::pallet_prefix(), Self::STORAGE_PREFIX)
	}
}
pub fn item_prefix(pallet: &str, item: &str) -> Vec<u8> {
	(pallet, item).encode()
}

/// Names the value a getter of the item returns.
pub trait HasQuery {
	type Query;
}

pub trait QueryKindTrait<Value, OnEmpty> {
	type Query;
	fn to_query(v: Option<Value>) -> Self::Query;
	fn to_optional(v: Self::Query) -> Option<Value>;
}
pub struct OptionQuery;
pub struct ValueQuery;
pub struct ResultQuery<E>(PhantomData<E>);
pub trait ErrorGetter {
	type Error;
	fn get() -> Self::Error;
}
impl<V, O> QueryKindTrait<V, O> for OptionQuery {
	type Query = Option<V>;
	fn to_query(v: Option<V>) -> Option<V> {
		v
	}
	fn to_optional(v: Option<V>) -> Option<V> {
		v
	}
}
impl<V, O: Get<V>> QueryKindTrait<V, O> for ValueQuery {
	type Query = V;
	fn to_query(v: Option<V>) -> V {
		v.unwrap_or_else(O::get)
	}
	fn to_optional(v: V) -> Option<V> {
		Some(v)
	}
}
impl<V, O, E: ErrorGetter> QueryKindTrait<V, O> for ResultQuery<E> {
	type Query = Result<V, E::Error>;
	fn to_query(v: Option<V>) -> Self::Query {
		v.ok_or_else(E::get)
	}
	fn to_optional(v: Self::Query) -> Option<V> {
		v.ok()
	}
}
/// Default of a value query: the type's default.
pub struct GetDefault;
impl<T: Default> Get<T> for GetDefault {
	fn get() -> T {
		T::default()
	}
}

fn read<V: Decode>(k: &[u8]) -> Option<V> {
	ext::get(k).map(|b| V::decode(&mut &b[..]).expect("stored value decodes"))
}
fn write<V, A: EncodeLike<V>>(k: &[u8], v: A)
where
	V: Encode,
{
	ext::put(k, v.encode());
}

pub struct KillStorageResult;
pub struct MultiRemovalResults {
	pub maybe_cursor: Option<Vec<u8>>,
	pub backend: u32,
	pub unique: u32,
	pub loops: u32,
}
fn clear(prefix: &[u8], limit: u32) -> MultiRemovalResults {
	let all = ext::scan(prefix);
	let n = all.len().min(limit as usize);
	for (k, _) in all.iter().take(n) {
		ext::kill(k);
	}
	MultiRemovalResults { maybe_cursor: (all.len() > n).then(|| all[n].0.clone()), backend: n as u32, unique: n as u32, loops: n as u32 }
}

// ---------------------------------------------------------------- value
pub struct StorageValue<P, V, Q = OptionQuery, O = GetDefault>(PhantomData<(P, V, Q, O)>);
impl<P, V, Q: QueryKindTrait<V, O>, O> HasQuery for StorageValue<P, V, Q, O> {
	type Query = Q::Query;
}
impl<P: StorageInstance, V: FullCodec, Q: QueryKindTrait<V, O>, O> StorageValue<P, V, Q, O> {
	pub fn hashed_key() -> Vec<u8> {
		P::prefix()
	}
	pub fn exists() -> bool {
		ext::exists(&P::prefix())
	}
	pub fn get() -> Q::Query {
		Q::to_query(read(&P::prefix()))
	}
	pub fn try_get() -> Result<V, ()> {
		read(&P::prefix()).ok_or(())
	}
	pub fn put<A: EncodeLike<V>>(v: A) {
		write::<V, A>(&P::prefix(), v)
	}
	pub fn set(v: Q::Query) {
		match Q::to_optional(v) {
			Some(v) => Self::put(v),
			None => Self::kill(),
		}
	}
	pub fn kill() {
		ext::kill(&P::prefix())
	}
	pub fn take() -> Q::Query {
		let v = read(&P::prefix());
		Self::kill();
		Q::to_query(v)
	}
	pub fn mutate<R, F: FnOnce(&mut Q::Query) -> R>(f: F) -> R {
		Self::try_mutate::<R, (), _>(|v| Ok(f(v))).unwrap_or_else(|_| unreachable!())
	}
	pub fn try_mutate<R, E, F: FnOnce(&mut Q::Query) -> Result<R, E>>(f: F) -> Result<R, E> {
		let mut v = Self::get();
		let r = f(&mut v)?;
		Self::set(v);
		Ok(r)
	}
	pub fn mutate_exists<R, F: FnOnce(&mut Option<V>) -> R>(f: F) -> R {
		Self::try_mutate_exists::<R, (), _>(|v| Ok(f(v))).unwrap_or_else(|_| unreachable!())
	}
	pub fn try_mutate_exists<R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>(f: F) -> Result<R, E> {
		let mut v = read(&P::prefix());
		let r = f(&mut v)?;
		match v {
			Some(v) => Self::put(v),
			None => Self::kill(),
		}
		Ok(r)
	}
	pub fn mutate_extant<R: Default, F: FnOnce(&mut V) -> R>(f: F) -> R {
		Self::mutate_exists(|v| match v {
			Some(v) => f(v),
			None => R::default(),
		})
	}
	pub fn append<I: Encode, A: EncodeLike<I>>(item: A)
	where
		V: StorageAppend<I>,
	{
		V::append_raw(&P::prefix(), item.encode());
	}
	pub fn translate<OV: Decode, F: FnOnce(Option<OV>) -> Option<V>>(f: F) -> Result<Option<V>, ()> {
		let old = match ext::get(&P::prefix()) {
			Some(b) => Some(OV::decode(&mut &b[..]).map_err(|_| ())?),
			None => None,
		};
		let new = f(old);
		match &new {
			Some(v) => ext::put(&P::prefix(), v.encode()),
			None => Self::kill(),
		}
		Ok(new)
	}
	pub fn decode_len() -> Option<usize>
	where
		V: StorageDecodeLength,
	{
		ext::get(&P::prefix()).map(|b| <parity_scale_codec::Compact<u32>>::decode(&mut &b[..]).expect("length").0 as usize)
	}
}
pub trait StorageAppend<I: Encode> {
	fn append_raw(key: &[u8], item: Vec<u8>);
}
impl<I: Encode> StorageAppend<I> for Vec<I> {
	fn append_raw(key: &[u8], item: Vec<u8>) {
		use parity_scale_codec::Compact;
		ext::modify(key, &[0], |old| {
			let mut rest = &old[..];
			let n = <Compact<u32>>::decode(&mut rest).expect("length").0;
			let (had, len) = (old.len() - rest.len(), Compact(n + 1).encode());
			if had == len.len() {
				old[..had].copy_from_slice(&len);
			} else {
				old.splice(..had, len);
			}
			old.extend(item);
		});
	}
}
pub trait StorageDecodeLength {}
impl<T> StorageDecodeLength for Vec<T> {}
impl<T, S> StorageDecodeLength for shim_base::bounded::BoundedVec<T, S> {}

// ---------------------------------------------------------------- map
pub struct StorageMap<P, H, K, V, Q = OptionQuery, O = GetDefault, M = GetDefault>(PhantomData<(P, H, K, V, Q, O, M)>);
impl<P, H, K, V, Q: QueryKindTrait<V, O>, O, M> HasQuery for StorageMap<P, H, K, V, Q, O, M> {
	type Query = Q::Query;
}
macro_rules! map_body {
	() => {
		fn key<A: EncodeLike<K>>(k: A) -> Vec<u8> {
			let mut p = P::prefix();
			k.encode_to(&mut p);
			p
		}
		pub fn hashed_key_for<A: EncodeLike<K>>(k: A) -> Vec<u8> {
			Self::key(k)
		}
		pub fn contains_key<A: EncodeLike<K>>(k: A) -> bool {
			ext::exists(&Self::key(k))
		}
		pub fn get<A: EncodeLike<K>>(k: A) -> Q::Query {
			Q::to_query(read(&Self::key(k)))
		}
		pub fn try_get<A: EncodeLike<K>>(k: A) -> Result<V, ()> {
			read(&Self::key(k)).ok_or(())
		}
		pub fn set<A: EncodeLike<K>>(k: A, v: Q::Query) {
			let key = Self::key(k);
			match Q::to_optional(v) {
				Some(v) => ext::put(&key, v.encode()),
				None => ext::kill(&key),
			}
		}
		pub fn insert<A: EncodeLike<K>, B: EncodeLike<V>>(k: A, v: B) {
			write::<V, B>(&Self::key(k), v)
		}
		pub fn remove<A: EncodeLike<K>>(k: A) {
			ext::kill(&Self::key(k))
		}
		pub fn take<A: EncodeLike<K>>(k: A) -> Q::Query {
			let key = Self::key(k);
			let v = read(&key);
			ext::kill(&key);
			Q::to_query(v)
		}
		pub fn swap<A: EncodeLike<K>, B: EncodeLike<K>>(a: A, b: B) {
			let (a, b) = (Self::key(a), Self::key(b));
			let (va, vb) = (ext::get(&a), ext::get(&b));
			match vb {
				Some(v) => ext::put(&a, v),
				None => ext::kill(&a),
			}
			match va {
				Some(v) => ext::put(&b, v),
				None => ext::kill(&b),
			}
		}
		pub fn mutate<A: EncodeLike<K>, R, F: FnOnce(&mut Q::Query) -> R>(k: A, f: F) -> R {
			Self::try_mutate::<A, R, (), _>(k, |v| Ok(f(v))).unwrap_or_else(|_| unreachable!())
		}
		pub fn try_mutate<A: EncodeLike<K>, R, E, F: FnOnce(&mut Q::Query) -> Result<R, E>>(k: A, f: F) -> Result<R, E> {
			let key = Self::key(k);
			let mut v = Q::to_query(read(&key));
			let r = f(&mut v)?;
			match Q::to_optional(v) {
				Some(v) => ext::put(&key, v.encode()),
				None => ext::kill(&key),
			}
			Ok(r)
		}
		pub fn mutate_exists<A: EncodeLike<K>, R, F: FnOnce(&mut Option<V>) -> R>(k: A, f: F) -> R {
			Self::try_mutate_exists::<A, R, (), _>(k, |v| Ok(f(v))).unwrap_or_else(|_| unreachable!())
		}
		pub fn mutate_extant<A: EncodeLike<K>, R: Default, F: FnOnce(&mut V) -> R>(k: A, f: F) -> R {
			Self::mutate_exists(k, |v| match v {
				Some(v) => f(v),
				None => R::default(),
			})
		}
		pub fn try_mutate_exists<A: EncodeLike<K>, R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>(k: A, f: F) -> Result<R, E> {
			let key = Self::key(k);
			let mut v = read(&key);
			let r = f(&mut v)?;
			match v {
				Some(v) => ext::put(&key, v.encode()),
				None => ext::kill(&key),
			}
			Ok(r)
		}
		pub fn append<I: Encode, A: EncodeLike<K>, B: EncodeLike<I>>(k: A, item: B)
		where
			V: StorageAppend<I>,
		{
			V::append_raw(&Self::key(k), item.encode())
		}
		pub fn decode_len<A: EncodeLike<K>>(k: A) -> Option<usize>
		where
			V: StorageDecodeLength,
		{
			ext::get(&Self::key(k)).map(|b| <parity_scale_codec::Compact<u32>>::decode(&mut &b[..]).expect("length").0 as usize)
		}
		pub fn iter() -> std::vec::IntoIter<(K, V)> {
			let p = P::prefix();
			ext::scan(&p)
				.into_iter()
				.map(|(k, v)| (K::decode(&mut &k[p.len()..]).expect("key"), V::decode(&mut &v[..]).expect("value")))
				.collect::<Vec<_>>()
				.into_iter()
		}
		pub fn iter_keys() -> std::vec::IntoIter<K> {
			Self::iter().map(|(k, _)| k).collect::<Vec<_>>().into_iter()
		}
		pub fn iter_values() -> std::vec::IntoIter<V> {
			Self::iter().map(|(_, v)| v).collect::<Vec<_>>().into_iter()
		}
		pub fn drain() -> std::vec::IntoIter<(K, V)> {
			let all = Self::iter();
			clear(&P::prefix(), u32::MAX);
			all
		}
		pub fn clear(limit: u32, _cursor: Option<&[u8]>) -> MultiRemovalResults {
			clear(&P::prefix(), limit)
		}
		pub fn remove_all(limit: Option<u32>) -> MultiRemovalResults {
			clear(&P::prefix(), limit.unwrap_or(u32::MAX))
		}
		pub fn translate<OV: Decode, F: FnMut(K, OV) -> Option<V>>(mut f: F) {
			let p = P::prefix();
			for (k, v) in ext::scan(&p) {
				let key = K::decode(&mut &k[p.len()..]).expect("key");
				match f(key, OV::decode(&mut &v[..]).expect("value")) {
					Some(n) => ext::put(&k, n.encode()),
					None => ext::kill(&k),
				}
			}
		}
		pub fn translate_values<OV: Decode, F: FnMut(OV) -> Option<V>>(mut f: F) {
			Self::translate(|_, v| f(v))
		}
		pub fn final_prefix() -> Vec<u8> {
			P::prefix()
		}
	};
}
impl<P: StorageInstance, H, K: FullCodec, V: FullCodec, Q: QueryKindTrait<V, O>, O, M> StorageMap<P, H, K, V, Q, O, M> {
	map_body!();
}
pub struct CountedStorageMap<P, H, K, V, Q = OptionQuery, O = GetDefault, M = GetDefault>(PhantomData<(P, H, K, V, Q, O, M)>);
impl<P, H, K, V, Q: QueryKindTrait<V, O>, O, M> HasQuery for CountedStorageMap<P, H, K, V, Q, O, M> {
	type Query = Q::Query;
}
impl<P: StorageInstance, H, K: FullCodec, V: FullCodec, Q: QueryKindTrait<V, O>, O, M> CountedStorageMap<P, H, K, V, Q, O, M> {
	map_body!();
	pub fn count() -> u32 {
		ext::scan(&P::prefix()).len() as u32
	}
}

// ---------------------------------------------------------------- double map
pub struct StorageDoubleMap<P, H1, K1, H2, K2, V, Q = OptionQuery, O = GetDefault, M = GetDefault>(PhantomData<(P, H1, K1, H2, K2, V, Q, O, M)>);
impl<P, H1, K1, H2, K2, V, Q: QueryKindTrait<V, O>, O, M> HasQuery for StorageDoubleMap<P, H1, K1, H2, K2, V, Q, O, M> {
	type Query = Q::Query;
}
impl<P: StorageInstance, H1, K1: FullCodec, H2, K2: FullCodec, V: FullCodec, Q: QueryKindTrait<V, O>, O, M>
	StorageDoubleMap<P, H1, K1, H2, K2, V, Q, O, M>
{
	fn key<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Vec<u8> {
		let mut p = Self::prefix1(a);
		b.encode_to(&mut p);
		p
	}
	fn prefix1<A: EncodeLike<K1>>(a: A) -> Vec<u8> {
		let mut p = P::prefix();
		a.encode_to(&mut p);
		p
	}
	pub fn hashed_key_for<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Vec<u8> {
		Self::key(a, b)
	}
	pub fn contains_key<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> bool {
		ext::exists(&Self::key(a, b))
	}
	pub fn contains_prefix<A: EncodeLike<K1>>(a: A) -> bool {
		!Self::scan1(a).is_empty()
	}
	pub fn get<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Q::Query {
		Q::to_query(read(&Self::key(a, b)))
	}
	pub fn try_get<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Result<V, ()> {
		read(&Self::key(a, b)).ok_or(())
	}
	pub fn set<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B, v: Q::Query) {
		let key = Self::key(a, b);
		match Q::to_optional(v) {
			Some(v) => ext::put(&key, v.encode()),
			None => ext::kill(&key),
		}
	}
	pub fn insert<A: EncodeLike<K1>, B: EncodeLike<K2>, C: EncodeLike<V>>(a: A, b: B, v: C) {
		write::<V, C>(&Self::key(a, b), v)
	}
	pub fn remove<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) {
		ext::kill(&Self::key(a, b))
	}
	pub fn take<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Q::Query {
		let key = Self::key(a, b);
		let v = read(&key);
		ext::kill(&key);
		Q::to_query(v)
	}
	pub fn mutate<A: EncodeLike<K1>, B: EncodeLike<K2>, R, F: FnOnce(&mut Q::Query) -> R>(a: A, b: B, f: F) -> R {
		Self::try_mutate::<A, B, R, (), _>(a, b, |v| Ok(f(v))).unwrap_or_else(|_| unreachable!())
	}
	pub fn try_mutate<A: EncodeLike<K1>, B: EncodeLike<K2>, R, E, F: FnOnce(&mut Q::Query) -> Result<R, E>>(a: A, b: B, f: F) -> Result<R, E> {
		let key = Self::key(a, b);
		let mut v = Q::to_query(read(&key));
		let r = f(&mut v)?;
		match Q::to_optional(v) {
			Some(v) => ext::put(&key, v.encode()),
			None => ext::kill(&key),
		}
		Ok(r)
	}
	pub fn mutate_exists<A: EncodeLike<K1>, B: EncodeLike<K2>, R, F: FnOnce(&mut Option<V>) -> R>(a: A, b: B, f: F) -> R {
		Self::try_mutate_exists::<A, B, R, (), _>(a, b, |v| Ok(f(v))).unwrap_or_else(|_| unreachable!())
	}
	pub fn try_mutate_exists<A: EncodeLike<K1>, B: EncodeLike<K2>, R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>(
		a: A,
		b: B,
		f: F,
	) -> Result<R, E> {
		let key = Self::key(a, b);
		let mut v = read(&key);
		let r = f(&mut v)?;
		match v {
			Some(v) => ext::put(&key, v.encode()),
			None => ext::kill(&key),
		}
		Ok(r)
	}
	pub fn append<I: Encode, A: EncodeLike<K1>, B: EncodeLike<K2>, C: EncodeLike<I>>(a: A, b: B, item: C)
	where
		V: StorageAppend<I>,
	{
		V::append_raw(&Self::key(a, b), item.encode())
	}
	fn scan1<A: EncodeLike<K1>>(a: A) -> Vec<(K2, V)> {
		// keys of one prefix only: the remainder has to decode completely as the second key
		let p = Self::prefix1(a);
		let base = P::prefix().len();
		ext::scan(&p)
			.into_iter()
			.filter_map(|(k, v)| {
				let mut r = &k[base..];
				K1::decode(&mut r).ok()?;
				if r.len() != k.len() - p.len() {
					return None;
				}
				Some((K2::decode(&mut r).ok()?, V::decode(&mut &v[..]).expect("value")))
			})
			.collect()
	}
	pub fn iter_prefix<A: EncodeLike<K1>>(a: A) -> std::vec::IntoIter<(K2, V)> {
		Self::scan1(a).into_iter()
	}
	pub fn iter_key_prefix<A: EncodeLike<K1>>(a: A) -> std::vec::IntoIter<K2> {
		Self::scan1(a).into_iter().map(|(k, _)| k).collect::<Vec<_>>().into_iter()
	}
	pub fn iter_prefix_values<A: EncodeLike<K1>>(a: A) -> std::vec::IntoIter<V> {
		Self::scan1(a).into_iter().map(|(_, v)| v).collect::<Vec<_>>().into_iter()
	}
	pub fn drain_prefix<A: EncodeLike<K1> + Clone>(a: A) -> std::vec::IntoIter<(K2, V)> {
		let all = Self::scan1(a.clone());
		for (k, _) in &all {
			ext::kill(&Self::key(a.clone(), k));
		}
		all.into_iter()
	}
	pub fn clear_prefix<A: EncodeLike<K1> + Clone>(a: A, limit: u32, _cursor: Option<&[u8]>) -> MultiRemovalResults {
		let all = Self::scan1(a.clone());
		let n = all.len().min(limit as usize);
		for (k, _) in all.iter().take(n) {
			ext::kill(&Self::key(a.clone(), k));
		}
		MultiRemovalResults { maybe_cursor: (all.len() > n).then(Vec::new), backend: n as u32, unique: n as u32, loops: n as u32 }
	}
	pub fn remove_prefix<A: EncodeLike<K1> + Clone>(a: A, limit: Option<u32>) -> MultiRemovalResults {
		Self::clear_prefix(a, limit.unwrap_or(u32::MAX), None)
	}
	pub fn iter() -> std::vec::IntoIter<(K1, K2, V)> {
		let p = P::prefix();
		ext::scan(&p)
			.into_iter()
			.map(|(k, v)| {
				let mut r = &k[p.len()..];
				(K1::decode(&mut r).expect("key"), K2::decode(&mut r).expect("key"), V::decode(&mut &v[..]).expect("value"))
			})
			.collect::<Vec<_>>()
			.into_iter()
	}
	pub fn iter_keys() -> std::vec::IntoIter<(K1, K2)> {
		Self::iter().map(|(a, b, _)| (a, b)).collect::<Vec<_>>().into_iter()
	}
	pub fn iter_values() -> std::vec::IntoIter<V> {
		Self::iter().map(|(_, _, v)| v).collect::<Vec<_>>().into_iter()
	}
	pub fn drain() -> std::vec::IntoIter<(K1, K2, V)> {
		let all = Self::iter();
		clear(&P::prefix(), u32::MAX);
		all
	}
	pub fn clear(limit: u32, _cursor: Option<&[u8]>) -> MultiRemovalResults {
		clear(&P::prefix(), limit)
	}
}

// ---------------------------------------------------------------- n-map
pub struct Key<H, K>(PhantomData<(H, K)>);
pub use Key as NMapKey;
pub trait NKey {
	type Key: FullCodec;
}
macro_rules! nkey {
	($($h:ident $k:ident),*) => {
		impl<$($h, $k: FullCodec),*> NKey for ($(Key<$h, $k>,)*) { type Key = ($($k,)*); }
	};
}
nkey!(H1 K1);
nkey!(H1 K1, H2 K2);
nkey!(H1 K1, H2 K2, H3 K3);
nkey!(H1 K1, H2 K2, H3 K3, H4 K4);
/// A proper prefix of a key of several parts.
pub trait Partial<N> {
	type Suffix;
	fn encode_prefix(&self, out: &mut Vec<u8>);
	/// What follows the prefix in the key, if the prefix ends where a part ends.
	fn suffix(key: &[u8], prefix: usize) -> Option<Self::Suffix>;
}
macro_rules! partial {
	($($h:ident $k:ident $a:ident $i:tt),* ; $($hs:ident $ks:ident),+ ; $suffix:ty) => {
		impl<$($h, $k: FullCodec, $a: EncodeLike<$k>,)* $($hs, $ks: FullCodec),+> Partial<($(Key<$h, $k>,)* $(Key<$hs, $ks>,)+)> for ($($a,)*) {
			type Suffix = $suffix;
			fn encode_prefix(&self, out: &mut Vec<u8>) {
				$(self.$i.encode_to(out);)*
			}
			fn suffix(key: &[u8], prefix: usize) -> Option<Self::Suffix> {
				let mut r = key;
				$($k::decode(&mut r).ok()?;)*
				if key.len() - r.len() != prefix {
					return None;
				}
				Decode::decode(&mut r).ok()
			}
		}
	};
}
partial!(H1 K1 A1 0; H2 K2; K2);
partial!(H1 K1 A1 0; H2 K2, H3 K3; (K2, K3));
partial!(H1 K1 A1 0, H2 K2 A2 1; H3 K3; K3);
partial!(H1 K1 A1 0; H2 K2, H3 K3, H4 K4; (K2, K3, K4));
partial!(H1 K1 A1 0, H2 K2 A2 1; H3 K3, H4 K4; (K3, K4));
partial!(H1 K1 A1 0, H2 K2 A2 1, H3 K3 A3 2; H4 K4; K4);
pub struct StorageNMap<P, N, V, Q = OptionQuery, O = GetDefault, M = GetDefault>(PhantomData<(P, N, V, Q, O, M)>);
impl<P, N, V, Q: QueryKindTrait<V, O>, O, M> HasQuery for StorageNMap<P, N, V, Q, O, M> {
	type Query = Q::Query;
}
struct ByKey<P, K, V, Q, O>(PhantomData<(P, K, V, Q, O)>);
impl<P: StorageInstance, K: FullCodec, V: FullCodec, Q: QueryKindTrait<V, O>, O> ByKey<P, K, V, Q, O> {
	#![allow(dead_code)]
	map_body!();
}
impl<P: StorageInstance, N: NKey, V: FullCodec, Q: QueryKindTrait<V, O>, O, M> StorageNMap<P, N, V, Q, O, M> {
	pub fn contains_key<A: EncodeLike<N::Key>>(k: A) -> bool {
		ByKey::<P, N::Key, V, Q, O>::contains_key(k)
	}
	pub fn get<A: EncodeLike<N::Key>>(k: A) -> Q::Query {
		ByKey::<P, N::Key, V, Q, O>::get(k)
	}
	pub fn insert<A: EncodeLike<N::Key>, B: EncodeLike<V>>(k: A, v: B) {
		ByKey::<P, N::Key, V, Q, O>::insert(k, v)
	}
	pub fn set<A: EncodeLike<N::Key>>(k: A, v: Q::Query) {
		ByKey::<P, N::Key, V, Q, O>::set(k, v)
	}
	pub fn remove<A: EncodeLike<N::Key>>(k: A) {
		ByKey::<P, N::Key, V, Q, O>::remove(k)
	}
	pub fn take<A: EncodeLike<N::Key>>(k: A) -> Q::Query {
		ByKey::<P, N::Key, V, Q, O>::take(k)
	}
	pub fn mutate<A: EncodeLike<N::Key>, R, F: FnOnce(&mut Q::Query) -> R>(k: A, f: F) -> R {
		ByKey::<P, N::Key, V, Q, O>::mutate(k, f)
	}
	pub fn try_mutate<A: EncodeLike<N::Key>, R, E, F: FnOnce(&mut Q::Query) -> Result<R, E>>(k: A, f: F) -> Result<R, E> {
		ByKey::<P, N::Key, V, Q, O>::try_mutate(k, f)
	}
	pub fn try_mutate_exists<A: EncodeLike<N::Key>, R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>(k: A, f: F) -> Result<R, E> {
		ByKey::<P, N::Key, V, Q, O>::try_mutate_exists(k, f)
	}
	pub fn mutate_exists<A: EncodeLike<N::Key>, R, F: FnOnce(&mut Option<V>) -> R>(k: A, f: F) -> R {
		ByKey::<P, N::Key, V, Q, O>::mutate_exists(k, f)
	}
	pub fn iter() -> std::vec::IntoIter<(N::Key, V)> {
		ByKey::<P, N::Key, V, Q, O>::iter()
	}
	pub fn iter_keys() -> std::vec::IntoIter<N::Key> {
		ByKey::<P, N::Key, V, Q, O>::iter_keys()
	}
	pub fn iter_values() -> std::vec::IntoIter<V> {
		ByKey::<P, N::Key, V, Q, O>::iter_values()
	}
	/// Entries under a proper prefix of the key, with the rest of their key.
	pub fn iter_prefix<A: Partial<N>>(k: A) -> std::vec::IntoIter<(A::Suffix, V)> {
		let base = P::prefix();
		let mut p = base.clone();
		k.encode_prefix(&mut p);
		ext::scan(&p)
			.into_iter()
			.filter_map(|(key, v)| {
				let rest = A::suffix(&key[base.len()..], p.len() - base.len())?;
				Some((rest, V::decode(&mut &v[..]).expect("value")))
			})
			.collect::<Vec<_>>()
			.into_iter()
	}
	pub fn iter_key_prefix<A: Partial<N>>(k: A) -> std::vec::IntoIter<A::Suffix> {
		Self::iter_prefix(k).map(|(k, _)| k).collect::<Vec<_>>().into_iter()
	}
	pub fn iter_prefix_values<A: Partial<N>>(k: A) -> std::vec::IntoIter<V> {
		Self::iter_prefix(k).map(|(_, v)| v).collect::<Vec<_>>().into_iter()
	}
	pub fn clear_prefix<A: Partial<N>>(k: A, limit: u32, _cursor: Option<&[u8]>) -> MultiRemovalResults {
		let mut p = P::prefix();
		k.encode_prefix(&mut p);
		clear(&p, limit)
	}
}

// ---------------------------------------------------------------- transactions
pub use shim_base::runtime::TransactionOutcome;
pub fn with_transaction<T, E: From<DispatchError>, F: FnOnce() -> TransactionOutcome<Result<T, E>>>(f: F) -> Result<T, E> {
	ext::start_transaction();
	match f() {
		TransactionOutcome::Commit(r) => {
			ext::commit_transaction();
			r
		}
		TransactionOutcome::Rollback(r) => {
			ext::rollback_transaction();
			r
		}
	}
}
/// Runs `f` in a storage layer, undone when it fails.
pub fn with_storage_layer<T, E, F: FnOnce() -> Result<T, E>>(f: F) -> Result<T, E> {
	ext::start_transaction();
	match f() {
		Ok(v) => {
			ext::commit_transaction();
			Ok(v)
		}
		Err(e) => {
			ext::rollback_transaction();
			Err(e)
		}
	}
}
pub fn in_storage_layer<T, E, F: FnOnce() -> Result<T, E>>(f: F) -> Result<T, E> {
	if ext::transaction_depth() > 0 {
		f()
	} else {
		with_storage_layer(f)
	}
}
pub mod transactional {
	pub use super::{with_storage_layer, with_transaction, TransactionOutcome};
}
pub mod types {
	pub use super::*;
}
pub mod unhashed {
	use super::*;
	pub fn get<T: Decode>(k: &[u8]) -> Option<T> {
		read(k)
	}
	pub fn get_raw(k: &[u8]) -> Option<Vec<u8>> {
		ext::get(k)
	}
	pub fn put<T: Encode>(k: &[u8], v: &T) {
		ext::put(k, v.encode())
	}
	pub fn put_raw(k: &[u8], v: &[u8]) {
		ext::put(k, v.to_vec())
	}
	pub fn exists(k: &[u8]) -> bool {
		ext::exists(k)
	}
	pub fn kill(k: &[u8]) {
		ext::kill(k)
	}
}
#[allow(unused)]
fn _full<T: FullEncode>() {}
