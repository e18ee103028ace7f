//! The runtime includes its own compiled form; there is none here.
fn main() {
	let out = std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("wasm_binary.rs");
	std::fs::write(out, "pub const WASM_BINARY: Option<&[u8]> = None;\n").unwrap();
	println!("cargo:rerun-if-changed=build.rs");
}
