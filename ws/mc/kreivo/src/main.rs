//! K: the Kreivo runtime's own decisions, on the real runtime configuration.
mod accounts;
mod calls;
mod flow;
mod gov;
mod messages;
mod money;
mod told;
mod wire;
mod producers;
mod queues;
mod transactions;
mod work;
mod world;

use mc_core::Run;

fn main() {
	let p = std::env::args().nth(1).expect("property");
	let run = Run::new(&p);
	run.assume("the libraries around the runtime (framework, ledgers, memberships, polls, cross-chain machinery) are stand-ins written for these checks; runtime configuration, pallets and common code are compiled from /repo");
	run.info("counting", mc_core::serde_json::json!("states: inputs or histories; transitions: executions of calls or configured functions; traces: answers compared with the reference"));
	run.traces_are_comparisons();
	match p.as_str() {
		"K03" => calls::k03(run),
		"K05" => gov::k05(run),
		"K08" => gov::k08(run),
		"K10" => calls::k10(run),
		"K11" => gov::k11(run),
		"K12" => gov::k12(run),
		"K17" => gov::k17(run),
		"K01" => money::k01(run),
		"K02" => money::k02(run),
		"K06" => money::k06(run),
		"K09" => money::k09(run),
		"K14" => money::k14(run),
		"K18" => money::k18(run),
		"K19" => money::k19(run),
		"K20" => money::k20(run),
		"K21" => flow::k21(run),
		"K22" => flow::k22(run),
		"K23" => flow::k23(run),
		"K24" => flow::k24(run),
		"K25" => gov::k25(run),
		"K26" => money::k26(run),
		"K27" => wire::k27(run),
		"K28" => wire::k28(run),
		"K29" => told::k29(run),
		"K30" => told::k30(run),
		"K32" => accounts::k32(run),
		"K33" => work::k33(run),
		"K34" => transactions::k34(run),
		"K35" => producers::k35(run),
		"K36" => queues::k36(run),
		"K04" => messages::k04(run),
		"K07" => messages::k07(run),
		"K13" => messages::k13(run),
		"K15" => messages::k15(run),
		"K16" => messages::k16(run),
		_ => panic!("no such property"),
	}
}
