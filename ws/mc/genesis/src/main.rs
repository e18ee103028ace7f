//! K31: the generator of chain descriptions, run as a program on every command line up to a length.
use mc_core::serde_json::{from_slice, json, Value};
use mc_core::{par_for, Run};
use std::collections::BTreeSet;
use std::path::Path;
use std::process::{Command, Stdio};

struct Relay {
	tool: String,
	name: &'static str,
	symbol: &'static str,
	decimals: u64,
	prefix: u64,
	unit: u128,
	deposit: u128,
	/// what is shipped for the live chain, where it is in the repository
	live: Option<Value>,
}

const PARA: u64 = 2281;

fn key(who: &str) -> Value {
	let mut b = format!("//{who}").into_bytes();
	b.resize(32, 0);
	json!(b)
}

/// What a command line must give.
enum Want {
	Refused,
	Local { raw: bool },
	Live { raw: bool },
	File { raw: bool, relay: &'static str, para: u64 },
}

/// Words that are tried, in every order.
fn words(dir: &Path) -> Vec<String> {
	let file = |n: &str| dir.join(n).display().to_string();
	[
		"kreivo", "live", "kreivo-local", "local", "", "Local", "LIVE", "local ", " live", "kreivo_local", "kreivolocal", "kreivo-live", "kusama", "paseo", "dev", "json",
		"--raw", "--Raw", "-raw",
	]
	.into_iter()
	.map(String::from)
	.chain(["full.json", "other-names.json", "more-names.json", "no-parachain.json", "no-genesis.json", "broken.json", "absent.json", "full.json.txt"].map(file))
	.collect()
}

fn want(line: &[&String], r: &Relay) -> Want {
	let raws = line.iter().filter(|w| **w == "--raw").count();
	let rest: Vec<&str> = line.iter().filter(|w| **w != "--raw").map(|w| w.as_str()).collect();
	let raw = raws == 1;
	match rest[..] {
		_ if raws > 1 => Want::Refused,
		["kreivo" | "live"] => Want::Live { raw },
		["kreivo-local" | "local"] => Want::Local { raw },
		[f] if f.ends_with("/full.json") => Want::File { raw, relay: r.name, para: 77 },
		[f] if f.ends_with("/other-names.json") || f.ends_with("/more-names.json") => Want::File { raw, relay: "somewhere", para: 78 },
		_ => Want::Refused,
	}
}

fn local(g: &Value, spec: &Value, r: &Relay) -> Vec<String> {
	let mut bad = vec![];
	let mut must = |ok: bool, what: String| {
		if !ok {
			bad.push(what);
		}
	};
	must(spec["para_id"] == json!(PARA), format!("parachain of the description: {}", spec["para_id"]));
	must(g["parachainInfo"]["parachainId"] == json!(PARA), format!("parachain of the genesis: {}", g["parachainInfo"]));
	must(spec["relay_chain"] == json!(format!("{}-local", r.name)), format!("relay chain: {}", spec["relay_chain"]));
	must(spec["chainType"] == json!("Local"), format!("kind of chain: {}", spec["chainType"]));
	let p = &spec["properties"];
	must(p["tokenSymbol"] == json!(r.symbol) && p["tokenDecimals"] == json!(r.decimals) && p["ss58Format"] == json!(r.prefix), format!("currency: {p}"));
	must(10u128.pow(p["tokenDecimals"].as_u64().unwrap_or(0) as u32) == r.unit, format!("decimals {} for a unit of {}", p["tokenDecimals"], r.unit));
	for k in ["name", "id"] {
		must(spec[k].as_str().is_some_and(|n| n.to_lowercase().contains("kreivo") && n.to_lowercase().contains("local")), format!("{k}: {}", spec[k]));
	}
	// endowments: the development accounts, once each, with an amount the chain can hold
	let list = g["balances"]["balances"].as_array().cloned().unwrap_or_default();
	let people = ["Alice", "Bob", "Charlie", "Dave", "Eve", "Ferdie"];
	let mut wanted: BTreeSet<String> = people.iter().flat_map(|n| [key(n), key(&format!("{n}//stash"))]).map(|k| k.to_string()).collect();
	for e in &list {
		must(wanted.remove(&e[0].to_string()), format!("endowed twice or not a development account: {}", e[0]));
		must(e[1].as_u64() == Some(1 << 60), format!("endowed with {}", e[1]));
	}
	must(wanted.is_empty(), format!("not endowed: {wanted:?}"));
	// collators: each has a session key, its own
	let collators = g["collatorSelection"]["invulnerables"].as_array().cloned().unwrap_or_default();
	must(collators == [key("Alice"), key("Bob")] || collators == [key("Bob"), key("Alice")], format!("collators: {collators:?}"));
	let keys = g["session"]["keys"].as_array().cloned().unwrap_or_default();
	must(keys.len() == collators.len(), format!("{} session keys for {} collators", keys.len(), collators.len()));
	for c in &collators {
		let own: Vec<_> = keys.iter().filter(|k| &k[0] == c).collect();
		must(own.len() == 1 && &own[0][1] == c && &own[0][2]["aura"] == c, format!("session keys of {c}: {own:?}"));
	}
	must(
		g["collatorSelection"]["candidacyBond"].as_u64().map(u128::from) == Some(16 * r.deposit),
		format!("bond {} with a smallest balance of {}", g["collatorSelection"]["candidacyBond"], r.deposit),
	);
	must(g["polkadotXcm"]["safeXcmVersion"] == json!(4), format!("messages: {}", g["polkadotXcm"]));
	bad
}

fn judge(line: &[&String], r: &Relay, ok: bool, out: &[u8]) -> Vec<String> {
	let (raw, want) = match want(line, r) {
		Want::Refused => {
			let mut bad = vec![];
			if ok {
				bad.push("accepted".into());
			}
			if !out.is_empty() {
				bad.push("prints a description".into());
			}
			return bad;
		}
		w @ (Want::Local { raw } | Want::Live { raw } | Want::File { raw, .. }) => (raw, w),
	};
	if !ok {
		return vec!["refused".into()];
	}
	let Ok(spec) = from_slice::<Value>(out) else { return vec!["what is printed cannot be read".into()] };
	let g = &spec["genesis"];
	if raw != g.get("raw").is_some() {
		return vec![format!("raw: asked {raw}")];
	}
	let g = if raw { &g["raw"] } else { g };
	match want {
		Want::Refused => unreachable!(),
		Want::Local { .. } => local(&g["runtimeGenesis"]["patch"], &spec, r),
		Want::Live { .. } => {
			let Some(live) = &r.live else { return vec![] };
			let mut bad = vec![];
			for (k, v) in live.as_object().expect("checked") {
				let same = if k == "genesis" { g == v } else { &spec[k] == v };
				if !same {
					bad.push(format!("{k} is not what is shipped"));
				}
			}
			if spec["para_id"] != json!(PARA) || spec["relay_chain"] != json!(r.name) {
				bad.push("shipped for another chain".into());
			}
			bad
		}
		Want::File { relay, para, .. } => {
			let mut bad = vec![];
			if spec["para_id"] != json!(para) || spec["relay_chain"] != json!(relay) {
				bad.push(format!("{} on {}", spec["para_id"], spec["relay_chain"]));
			}
			if spec["name"] != json!("From a file") || spec["id"] != json!("from_a_file") || g["runtimeGenesis"]["patch"]["balances"] != json!([1, 2, 3]) {
				bad.push("not what the file says".into());
			}
			bad
		}
	}
}

fn main() {
	let run = Run::new("K31");
	run.assume("keys are the phrases they come from; the runtime's code, its genesis and the raw form of a description are stand-ins; the generator is compiled from /repo");
	run.assume("the description shipped for the live chain on Kusama is not in the repository: a stand-in takes its place, and its content is not checked");
	run.traces_are_comparisons();
	let dir = std::env::temp_dir().join(format!("mc-genesis-{}", std::process::id()));
	std::fs::create_dir_all(&dir).expect("scratch directory");
	let live: Option<Value> = std::fs::read("build/src/chain-spec-generator/src/spec/live/kreivo_paseador_chainspec.json").ok().and_then(|b| from_slice(&b).ok());
	let tool = |n: &str| std::env::var(n).expect("started by the driver");
	let relays = [
		Relay {
			tool: tool("VERIF_TOOL_KUSAMA"),
			name: "kusama",
			symbol: "KSM",
			decimals: 12,
			prefix: 2,
			unit: runtime_constants::currency::UNITS,
			deposit: runtime_constants::currency::EXISTENTIAL_DEPOSIT,
			live: None,
		},
		Relay {
			tool: tool("VERIF_TOOL_PASEO"),
			name: "paseo",
			symbol: "PAS",
			decimals: 10,
			prefix: 1,
			unit: runtime_constants_paseo::currency::UNITS,
			deposit: runtime_constants_paseo::currency::EXISTENTIAL_DEPOSIT,
			live,
		},
	];
	run.check(relays[1].live.is_some(), "no description of the live chain is shipped", || json!({}));
	for r in &relays {
		let here = dir.join(r.name);
		std::fs::create_dir_all(&here).expect("scratch directory");
		let genesis = json!({"runtimeGenesis": {"patch": {"balances": [1, 2, 3]}}});
		let full = json!({"name": "From a file", "id": "from_a_file", "chainType": "Live", "relay_chain": r.name, "para_id": 77, "genesis": genesis});
		let put = |n: &str, v: &[u8]| std::fs::write(here.join(n), v).expect("scratch file");
		let with = |f: &dyn Fn(&mut mc_core::serde_json::Map<String, Value>)| {
			let mut v = full.clone();
			f(v.as_object_mut().expect("map"));
			v.to_string().into_bytes()
		};
		put("full.json", full.to_string().as_bytes());
		put("full.json.txt", full.to_string().as_bytes());
		put("no-parachain.json", &with(&|m| drop(m.remove("para_id"))));
		put("no-genesis.json", &with(&|m| drop(m.remove("genesis"))));
		put("broken.json", &full.to_string().as_bytes()[..full.to_string().len() - 1]);
		for (n, para, relay) in [("other-names.json", "paraId", "relayChain"), ("more-names.json", "ParaId", "RelayChain")] {
			put(n, &with(&|m| {
				m.remove("para_id");
				m.remove("relay_chain");
				m.insert(para.into(), json!(78));
				m.insert(relay.into(), json!("somewhere"));
			}));
		}
		let words = words(&here);
		let n = words.len();
		let longest = 3u32;
		let total: usize = (0..=longest).map(|l| n.pow(l)).sum();
		par_for(total, 64, |mut i| {
			let mut len = 0;
			while i >= n.pow(len) {
				i -= n.pow(len);
				len += 1;
			}
			let line: Vec<&String> = (0..len).map(|p| &words[i / n.pow(p) % n]).collect();
			let out = Command::new(&r.tool).args(&line).current_dir(&here).stdin(Stdio::null()).output().expect("runs");
			run.states(1);
			run.transitions(line.len() as u64);
			let bad = judge(&line, r, out.status.success(), &out.stdout);
			run.check(bad.is_empty(), "description", || {
				json!({"relay": r.name, "line": line, "what": bad, "says": String::from_utf8_lossy(&out.stderr[..out.stderr.len().min(300)])})
			});
		});
	}
	run.sample(json!({"relay": "kusama", "line": ["local", "--raw"]}));
	run.sample(json!({"relay": "paseo", "line": ["--raw", "full.json"]}));
	run.info("counting", json!("states: command lines; transitions: words given to the program; traces: results compared with the reference"));
	let _ = std::fs::remove_dir_all(&dir);
	run.finish();
}
