//! K36: messages of other chains are carried out as theirs, in their order, within a share of each block.
use crate::world::*;
use cumulus_primitives_core::{ParaId, XcmpMessageHandler};
use frame_support::traits::{Get, HandleMessage};
use kreivo_runtime::{MessageQueue, Runtime, XcmpQueue};
use mc_core::serde_json::json;
use mc_core::{guard, par_for, Run, Tallier};
use parity_scale_codec::Encode;
use shim_base::ext;
use xcm::latest::prelude::{Location, Parachain};

type FromRelay = <Runtime as cumulus_pallet_parachain_system::Config>::DmpQueue;
type FromSibling = <Runtime as cumulus_pallet_parachain_system::Config>::XcmpMessageHandler;
type Share = <Runtime as pallet_message_queue::Config>::ServiceWeight;

const A: u32 = 1000;
const B: u32 = 2281;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Step {
	Relay(bool),
	Sibling(u32, bool),
	Suspend,
	Resume,
	Block,
}
/// The sender of a message: the relay chain or a sibling.
fn place(sender: Option<u32>) -> Location {
	sender.map_or(Location::parent(), |id| Location::new(1, [Parachain(id)]))
}
fn send(sender: Option<u32>, message: Vec<u8>) {
	match sender {
		None => FromRelay::handle_message(message),
		Some(id) => FromSibling::handle_xcmp_message(ParaId::from(id), message),
	}
}
fn done() -> Vec<(Vec<u8>, Vec<u8>)> {
	frame_support::storage::unhashed::get(xcm_builder::CARRIED_OUT).unwrap_or_default()
}
fn message(needs: u64, n: u32) -> Vec<u8> {
	needs.to_le_bytes().into_iter().chain(n.to_le_bytes()).collect()
}

pub fn k36(run: Run) {
	let tally = Tallier::default();
	let block = <<Runtime as frame_system::Config>::BlockWeights as Get<frame_system::limits::BlockWeights>>::get().max_block;
	let share: Option<frame_support::weights::Weight> = <Share as Get<Option<_>>>::get();
	let Some(share) = share.filter(|s| s.ref_time() >= block.ref_time() / 10 && s.proof_size() >= block.proof_size() / 10) else {
		run.states(1);
		run.transitions(1);
		run.traces(1);
		run.fail("waiting messages get hardly anything of a block", json!({"share": format!("{:?}", share.map(|s| s.ref_time())), "block": block.ref_time()}));
		run.finish();
	};
	run.check(share.ref_time() <= block.ref_time() / 2 && share.proof_size() <= block.proof_size() / 2, "waiting messages take more than half of a block", || json!({"share": share.ref_time(), "block": block.ref_time()}));
	run.traces(1);
	let (light, heavy) = (share.ref_time() / 10, share.ref_time() / 10 * 6);
	// every sibling there can be, and the relay chain
	let map = empty_chain(&[(acc(1), UNIT)], &[], &[]);
	let ids: Vec<Option<u32>> = std::iter::once(None).chain((0..=u16::MAX as u32).chain([u16::MAX as u32 + 1, u32::MAX - 1, u32::MAX]).map(Some)).collect();
	par_for(ids.len(), 64, |i| {
		for held in [false, true] {
			ext::restore(&map);
			XcmpQueue::put_suspended(held);
			let case = || json!({"sibling": ids[i], "suspended": held});
			let got = guard(|| {
				send(ids[i], message(light, 7));
				MessageQueue::serve();
				done()
			});
			run.states(1);
			run.transitions(2);
			run.traces(1);
			let waits = held && ids[i].is_some();
			let want = if waits { vec![] } else { vec![(place(ids[i]).encode(), message(light, 7))] };
			run.check(got.as_ref() == Ok(&want), "a message is lost, held back or carried out as somebody else's", case);
			if waits {
				tally.hit("held back");
			}
		}
	});
	// histories
	let steps = [Step::Relay(false), Step::Relay(true), Step::Sibling(A, false), Step::Sibling(A, true), Step::Sibling(B, false), Step::Suspend, Step::Resume, Step::Block];
	let len = if run.thorough() { 7 } else { 6 };
	par_for(steps.len().pow(len), 256, |i| {
		ext::restore(&map);
		let word: Vec<Step> = (0..len).map(|p| steps[i / steps.len().pow(p) % steps.len()]).collect();
		let case = || json!({"history": format!("{word:?}")});
		// the model: what each sender sent, and how much of it was carried out
		let senders = [None, Some(A), Some(B)];
		let mut sent: [Vec<Vec<u8>>; 3] = Default::default();
		let mut carried = [0usize; 3];
		let mut held = false;
		run.states(1);
		for (n, step) in word.iter().copied().chain([Step::Resume]).chain([Step::Block; 7]).enumerate() {
			run.transitions(1);
			let mut post = |who: usize, big: bool| {
				let m = message(if big { heavy } else { light }, n as u32);
				send(senders[who], m.clone());
				sent[who].push(m);
				tally.hit("sent");
			};
			match step {
				Step::Relay(big) => post(0, big),
				Step::Sibling(id, big) => post(if id == A { 1 } else { 2 }, big),
				Step::Suspend | Step::Resume => {
					held = step == Step::Suspend;
					XcmpQueue::put_suspended(held);
				}
				Step::Block => {
					let before = done().len();
					let served = guard(MessageQueue::serve);
					run.traces(1);
					run.check(served.is_ok(), "serving messages panics", case);
					let all = done();
					let mut used = 0u64;
					for (from, m) in &all[before.min(all.len())..] {
						used = used.saturating_add(u64::from_le_bytes(m[..8].try_into().expect("begins with its weight")));
						let who = senders.iter().position(|s| place(*s).encode() == *from);
						let due = who.and_then(|w| sent[w].get(carried[w]));
						run.check(due == Some(m), "a message is carried out twice, out of order or as somebody else's", case);
						run.check(who == Some(0) || !held, "a message held back is carried out", case);
						if let Some(w) = who {
							carried[w] += 1;
						}
						tally.hit("carried out");
					}
					run.check(used <= share.ref_time(), "messages take more than their share of a block", case);
					let waiting = (0..3).any(|w| carried[w] < sent[w].len() && (w == 0 || !held));
					run.check(!waiting || all.len() > before, "messages wait for nothing", case);
					if waiting {
						tally.hit("waits for its turn");
					}
				}
			}
		}
		run.check((0..3).all(|w| carried[w] == sent[w].len()), "a message is lost", case);
	});
	run.info("steps_by_kind", tally.json());
	run.sample(json!({"share": share.ref_time(), "block": block.ref_time()}));
	for k in ["held back", "sent", "carried out", "waits for its turn"] {
		if tally.get(k) == 0 && !run.failed() {
			eprintln!("'{k}' never happened: error of the check");
			std::process::exit(3);
		}
	}
	run.finish()
}
