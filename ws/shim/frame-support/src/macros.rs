#[macro_export]
macro_rules! ensure {
	($x:expr, $y:expr $(,)?) => {{
		if !$x {
			$crate::fail!($y);
		}
	}};
}
#[macro_export]
macro_rules! fail {
	($y:expr) => {{
		#[allow(clippy::useless_conversion)]
		return Err($y.into());
	}};
}
#[macro_export]
macro_rules! assert_ok {
	($x:expr $(,)?) => {
		let is = $x;
		match is {
			Ok(_) => (),
			_ => assert!(false, "Expected Ok(_). Got {:#?}", is),
		}
	};
	($x:expr, $y:expr $(,)?) => {
		assert_eq!($x, Ok($y));
	};
}
#[macro_export]
macro_rules! assert_err {
	($x:expr, $y:expr $(,)?) => {
		assert_eq!($x, Err($y.into()));
	};
}
#[macro_export]
macro_rules! assert_noop {
	($x:expr, $y:expr $(,)?) => {
		let h = $crate::traits::root_hash();
		$crate::assert_err!($x, $y);
		assert_eq!(h, $crate::traits::root_hash(), "storage has been mutated");
	};
}
#[macro_export]
macro_rules! assert_storage_noop {
	($x:expr $(,)?) => {
		let h = $crate::traits::root_hash();
		$x;
		assert_eq!(h, $crate::traits::root_hash(), "storage has been mutated");
	};
}
#[macro_export]
macro_rules! assert_err_ignore_postinfo {
	($x:expr, $y:expr $(,)?) => {
		assert_eq!($x.map(|_| ()).map_err(|e| e.error), Err($y.into()));
	};
}
#[macro_export]
macro_rules! defensive {
	($($x:tt)*) => {
		debug_assert!(false, "defensive failure")
	};
}
#[macro_export]
macro_rules! defensive_assert {
	($cond:expr $(, $($x:tt)*)?) => {
		debug_assert!($cond, "defensive failure")
	};
}
#[macro_export]
macro_rules! bounded_vec {
	($($x:expr),* $(,)?) => {
		$crate::BoundedVec::try_from(vec![$($x),*]).expect("within bounds")
	};
}
#[macro_export]
macro_rules! ord_parameter_types {
	( $( $(#[$m:meta])* $vis:vis const $name:ident: $type:ty = $value:expr );* $(;)? ) => {
		$crate::parameter_types! { $( $(#[$m])* $vis const $name: $type = $value; )* }
		$( impl $crate::traits::SortedMembers<$type> for $name {
			fn contains(t: &$type) -> bool { &$value == t }
			fn sorted_members() -> Vec<$type> { vec![$value] }
		} )*
	};
}
/// `const`, plain and `static` parameters. A `static` parameter is a thread-local with `get`, `set`,
/// `mutate` and `take`.
#[macro_export]
macro_rules! parameter_types {
	() => {};
	($(#[$m:meta])* $vis:vis const $name:ident $(< $($ty:ident),* >)?: $type:ty = $value:expr; $($rest:tt)*) => {
		$(#[$m])*
		$vis struct $name $(< $($ty),* >( $( std::marker::PhantomData<$ty> ),* ))?;
		impl $(< $($ty),* >)? $name $(< $($ty),* >)? {
			/// Returns the value of this parameter type.
			#[allow(unused)]
			pub const fn get() -> $type { $value }
		}
		impl<_I: From<$type> $(, $($ty),* )?> $crate::traits::Get<_I> for $name $(< $($ty),* >)? {
			fn get() -> _I { _I::from(Self::get()) }
		}
		impl $(< $($ty),* >)? $crate::traits::TypedGet for $name $(< $($ty),* >)? {
			type Type = $type;
			fn get() -> $type { Self::get() }
		}
		$crate::parameter_types! { $($rest)* }
	};
	($(#[$m:meta])* $vis:vis static $name:ident: $type:ty = $value:expr; $($rest:tt)*) => {
		$(#[$m])*
		$vis struct $name;
		const _: () = {
			std::thread_local! { static CELL: std::cell::RefCell<$type> = std::cell::RefCell::new($value); }
			#[allow(unused)]
			impl $name {
				pub fn key() -> &'static [u8] { &[] }
				pub fn get() -> $type { CELL.with(|c| c.borrow().clone()) }
				pub fn set(v: $type) { CELL.with(|c| *c.borrow_mut() = v) }
				pub fn mutate<R, F: FnOnce(&mut $type) -> R>(f: F) -> R { CELL.with(|c| f(&mut c.borrow_mut())) }
				pub fn take() -> $type { CELL.with(|c| std::mem::replace(&mut *c.borrow_mut(), $value)) }
			}
		};
		impl<_I: From<$type>> $crate::traits::Get<_I> for $name {
			fn get() -> _I { _I::from(Self::get()) }
		}
		impl $crate::traits::TypedGet for $name {
			type Type = $type;
			fn get() -> $type { Self::get() }
		}
		$crate::parameter_types! { $($rest)* }
	};
	($(#[$m:meta])* $vis:vis storage $name:ident: $type:ty = $value:expr; $($rest:tt)*) => {
		$crate::parameter_types! { $(#[$m])* $vis static $name: $type = $value; $($rest)* }
	};
	($(#[$m:meta])* $vis:vis $name:ident $(< $($ty:ident),* >)?: $type:ty = $value:expr; $($rest:tt)*) => {
		$(#[$m])*
		$vis struct $name $(< $($ty),* >( $( std::marker::PhantomData<$ty> ),* ))?;
		impl $(< $($ty),* >)? $name $(< $($ty),* >)? {
			/// Returns the value of this parameter type.
			#[allow(unused)]
			pub fn get() -> $type { $value }
		}
		impl<_I: From<$type> $(, $($ty),* )?> $crate::traits::Get<_I> for $name $(< $($ty),* >)? {
			fn get() -> _I { _I::from(Self::get()) }
		}
		impl $(< $($ty),* >)? $crate::traits::TypedGet for $name $(< $($ty),* >)? {
			type Type = $type;
			fn get() -> $type { Self::get() }
		}
		$crate::parameter_types! { $($rest)* }
	};
}
#[macro_export]
macro_rules! impl_ensure_origin_with_arg_ignoring_arg {
	( impl < { $($i:tt)* } > EnsureOriginWithArg<$o_param:ty, $t_param:ty> for $name:ty {} ) => {
		impl<$($i)*> $crate::traits::EnsureOriginWithArg<$o_param, $t_param> for $name {
			type Success = <Self as $crate::traits::EnsureOrigin<$o_param>>::Success;
			fn try_origin(o: $o_param, _: &$t_param) -> Result<Self::Success, $o_param> {
				<Self as $crate::traits::EnsureOrigin<$o_param>>::try_origin(o)
			}
			#[cfg(feature = "runtime-benchmarks")]
			fn try_successful_origin(_: &$t_param) -> Result<$o_param, ()> {
				<Self as $crate::traits::EnsureOrigin<$o_param>>::try_successful_origin()
			}
		}
	};
}
#[macro_export]
macro_rules! match_types {
	() => {};
	($(#[$a:meta])* pub type $n:ident: impl Contains<$t:ty> = { $($m:tt)* }; $($rest:tt)*) => {
		$(#[$a])* pub struct $n;
		impl $crate::traits::Contains<$t> for $n { fn contains(x: &$t) -> bool { matches!(x, $($m)*) } }
		$crate::match_types! { $($rest)* }
	};
}

/// A pallet of which only the names are modelled: its configuration and its calls, which all fail.
#[macro_export]
macro_rules! stub_pallet {
	(
		types { $($t:ident $(: [$($b:tt)*])?),* $(,)? }
		consts { $($c:ident : $ct:ty),* }
		calls { $($(#[$m:meta])* $i:literal $f:ident ( $($a:ident : $at:ty),* );)* }
	) => {
		pub use pallet::*;
		pub mod weights {
			pub struct SubstrateWeight<T>(core::marker::PhantomData<T>);
		}
		#[$crate::pallet]
		pub mod pallet {
			#[allow(unused_imports)]
			use super::*;
			#[allow(unused_imports)]
			use frame_support::pallet_prelude::*;
			#[allow(unused_imports)]
			use frame_system::pallet_prelude::*;
			#[pallet::config]
			pub trait Config: frame_system::Config {
				$(type $t $(: $($b)*)?;)*
				$(const $c: $ct;)*
			}
			#[pallet::pallet]
			pub struct Pallet<T>(_);
			#[pallet::call]
			impl<T: Config> Pallet<T> {
				$(
					#[pallet::call_index($i)]
					$(#[$m])*
					pub fn $f(origin: OriginFor<T>, $($a: $at),*) -> DispatchResult {
						let _ = (origin, $($a),*);
						Err("not modelled".into())
					}
				)*
			}
		}
	};
}
