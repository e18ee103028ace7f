pub struct KeystoreExt;
impl KeystoreExt {
	pub fn new<T>(_: T) -> Self {
		KeystoreExt
	}
}
pub mod testing {
	pub struct MemoryKeystore;
	impl MemoryKeystore {
		#[allow(clippy::new_without_default)]
		pub fn new() -> Self {
			MemoryKeystore
		}
	}
}
