//! Descriptions of chains: what a node needs to start one.
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Map, Value};
use std::borrow::Cow;
pub use frame_support_procedural::{ChainSpecExtension, ChainSpecGroup};

pub type Properties = Map<String, Value>;
#[derive(Clone, Debug, PartialEq, Eq, Serialize, serde::Deserialize)]
pub enum ChainType {
	Development,
	Local,
	Live,
	Custom(String),
}
pub type NoExtension = Option<()>;
pub trait ChainSpec {
	fn name(&self) -> &str;
	fn id(&self) -> &str;
	fn as_json(&self, raw: bool) -> Result<String, String>;
}
pub struct GenericChainSpec<E = NoExtension> {
	all: Map<String, Value>,
	extensions: E,
}
pub struct ChainSpecBuilder<E> {
	code: Vec<u8>,
	extensions: E,
	all: Map<String, Value>,
	patch: Value,
}
impl<E: Serialize + DeserializeOwned> GenericChainSpec<E> {
	pub fn builder(code: &[u8], extensions: E) -> ChainSpecBuilder<E> {
		let mut all = Map::new();
		for k in ["bootNodes", "telemetryEndpoints", "protocolId", "properties"] {
			all.insert(k.into(), if k == "bootNodes" { json!([]) } else { Value::Null });
		}
		ChainSpecBuilder { code: code.to_vec(), extensions, all, patch: json!({}) }
	}
	pub fn from_json_bytes(json: impl Into<Cow<'static, [u8]>>) -> Result<Self, String> {
		let v: Value = serde_json::from_slice(&json.into()).map_err(|e| format!("Error parsing spec file: {e}"))?;
		let all = v.as_object().cloned().ok_or("Error parsing spec file")?;
		for k in ["name", "id", "genesis"] {
			all.get(k).ok_or_else(|| format!("Error parsing spec file: no {k}"))?;
		}
		let extensions = serde_json::from_value(Value::Object(all.clone())).map_err(|e| format!("Error parsing spec file: {e}"))?;
		Ok(GenericChainSpec { all, extensions })
	}
	pub fn from_json_file(path: std::path::PathBuf) -> Result<Self, String> {
		Self::from_json_bytes(std::fs::read(&path).map_err(|e| format!("Error opening spec file `{}`: {e}", path.display()))?)
	}
	pub fn extensions(&self) -> &E {
		&self.extensions
	}
}
impl<E: Serialize> ChainSpecBuilder<E> {
	pub fn with_name(mut self, v: &str) -> Self {
		self.all.insert("name".into(), json!(v));
		self
	}
	pub fn with_id(mut self, v: &str) -> Self {
		self.all.insert("id".into(), json!(v));
		self
	}
	pub fn with_protocol_id(mut self, v: &str) -> Self {
		self.all.insert("protocolId".into(), json!(v));
		self
	}
	pub fn with_fork_id(mut self, v: &str) -> Self {
		self.all.insert("forkId".into(), json!(v));
		self
	}
	pub fn with_chain_type(mut self, v: ChainType) -> Self {
		self.all.insert("chainType".into(), json!(v));
		self
	}
	pub fn with_properties(mut self, v: Properties) -> Self {
		self.all.insert("properties".into(), Value::Object(v));
		self
	}
	pub fn with_genesis_config_patch(mut self, v: Value) -> Self {
		self.patch = v;
		self
	}
	pub fn build(self) -> GenericChainSpec<E> {
		let mut all = self.all;
		for k in ["name", "id", "chainType"] {
			all.entry(k).or_insert(json!(match k { "name" => "Development", "id" => "dev", _ => "Local" }));
		}
		all.insert("genesis".into(), json!({"runtimeGenesis": {"code": format!("{:?}", self.code), "patch": self.patch}}));
		GenericChainSpec { all, extensions: self.extensions }
	}
}
impl<E: Serialize> ChainSpec for GenericChainSpec<E> {
	fn name(&self) -> &str {
		self.all["name"].as_str().unwrap_or("")
	}
	fn id(&self) -> &str {
		self.all["id"].as_str().unwrap_or("")
	}
	/// A raw description would have the storage in place of what it is made from; here it only says that it is raw.
	fn as_json(&self, raw: bool) -> Result<String, String> {
		let mut all = self.all.clone();
		if let Value::Object(e) = serde_json::to_value(&self.extensions).map_err(|e| e.to_string())? {
			all.extend(e);
		}
		if raw {
			let g = all.remove("genesis").unwrap_or(Value::Null);
			all.insert("genesis".into(), json!({"raw": g}));
		}
		serde_json::to_string_pretty(&all).map_err(|e| e.to_string())
	}
}
