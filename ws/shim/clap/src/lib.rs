//! Command lines: words in order, and switches.
pub use frame_support_procedural::ClapParser as Parser;
pub trait Parser: Sized {
	fn try_parse_from(args: impl IntoIterator<Item = String>) -> Result<Self, String>;
	fn parse() -> Self {
		Self::try_parse_from(std::env::args()).unwrap_or_else(|e| {
			eprintln!("error: {e}");
			std::process::exit(2)
		})
	}
}
