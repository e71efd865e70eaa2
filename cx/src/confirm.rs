//! Sending a transaction and waiting for it, for every course the node's
//! answers can take.

use crate::ledger::pair;
use crate::script::*;
use obmc::explore::{Counts, Violation};
use obmc::report::*;
use obmc::rt::guarded;
use openbook_v2_client as ob;
use sim::{Ans, Fail, Req, Status};
use solana_client::rpc_client::RpcClient;
use solana_sdk::commitment_config::CommitmentConfig;
use solana_sdk::hash::Hash;
use solana_sdk::message::Message;
use solana_sdk::pubkey::Pubkey;
use solana_sdk::signature::Signature;
use solana_sdk::signer::Signer;
use solana_sdk::system_instruction;
use solana_sdk::transaction::{Transaction, TransactionError};
use std::rc::Rc;

const LATEST: [u8; 32] = [9; 32];

fn transaction(nonce: bool) -> Transaction {
    let p = pair("payer");
    let pay = system_instruction::transfer(&p.pubkey(), &Pubkey::new_from_array([5; 32]), 1);
    let mut l = vec![];
    if nonce {
        l.push(system_instruction::advance_nonce_account(&Pubkey::new_from_array([6; 32]), &p.pubkey()));
    }
    l.push(pay);
    let m = Message::new(&l, Some(&p.pubkey()));
    Transaction::new(&[&p], m, Hash::new_from_array([3; 32]))
}

/// Every state a transaction can be reported in.
fn statuses() -> Vec<Option<Status>> {
    let mut l = vec![None];
    for err in [None, Some(TransactionError::AccountInUse)] {
        for (confirmations, level) in
            [(Some(0), Some(0)), (Some(1), Some(0)), (Some(3), Some(1)), (None, Some(2)), (Some(0), None), (Some(2), None), (None, None)]
        {
            l.push(Some(Status { slot: 40, confirmations, err: err.clone(), level }));
        }
    }
    l
}
/// Whether that is enough.
fn enough(s: &Status, level: u8) -> bool {
    match level {
        0 => true,
        1 => match s.level {
            Some(l) => l >= 1,
            None => s.confirmations.map_or(true, |n| n > 1),
        },
        _ => s.confirmations.is_none(),
    }
}

fn courses(rounds: usize) -> (Counts, Vec<Violation>) {
    let mut c = Counts { exhausted: true, ..Default::default() };
    let mut bad: Vec<Violation> = vec![];
    sim::clock::start();
    for nonce in [false, true] {
        for level in 0..3u8 {
            let commitment = [CommitmentConfig::processed(), CommitmentConfig::confirmed(), CommitmentConfig::finalized()][level as usize];
            let tx = transaction(nonce);
            let sig = tx.signatures[0];
            let asked = Rc::new(std::cell::Cell::new(0usize));
            let a = asked.clone();
            let node = Script::new(Box::new(move |call, ch| {
                let lost = |ch: &mut Choices| ch.pick(2) == 1;
                match &call.req {
                    Req::Send { tx, .. } => match ch.pick(3) {
                        0 => Ok(Ans::Signature(tx.signatures[0])),
                        1 => Err(Fail::Transport("not sent".into())),
                        _ => Err(Fail::Preflight { err: Some(TransactionError::AccountNotFound), logs: None }),
                    },
                    Req::LatestBlockhash => {
                        if lost(ch) {
                            Err(Fail::Transport("no hash".into()))
                        } else {
                            Ok(Ans::Hash(Hash::new_from_array(LATEST), 7))
                        }
                    }
                    Req::Statuses(l) => {
                        a.set(a.get() + 1);
                        // the last round always decides
                        let s = statuses();
                        let n = ch.pick(s.len() + 1);
                        if n == s.len() || a.get() > rounds {
                            Err(Fail::Transport("no status".into()))
                        } else {
                            Ok(Ans::Statuses(50, l.iter().map(|_| s[n].clone()).collect()))
                        }
                    }
                    Req::BlockhashValid(_) => match ch.pick(3) {
                        0 => Ok(Ans::Bool(true)),
                        1 => Ok(Ans::Bool(false)),
                        _ => Err(Fail::Transport("no answer".into())),
                    },
                    other => Err(Fail::Transport(format!("unexpected {other:?}"))),
                }
            }));
            sim::set_node(Some(node.clone() as Rc<dyn sim::Node>));
            loop {
                node.reset();
                asked.set(0);
                let rpc = RpcClient::new_with_commitment("http://node.test", commitment);
                let got = guarded(|| ob::send_and_confirm_transaction(&rpc, &tx));
                c.states += 1;
                sample(|| format!("{:?}", node.log.borrow().iter().map(|x| format!("{:?} -> {:?}", kind(&x.0.req), x.1)).collect::<Vec<_>>()));
                c.compared += 1;
                c.transitions += node.log.borrow().len() as u64;
                c.depth = c.depth.max(node.log.borrow().len() as u64);
                if let Err(e) = judge(&node, &tx, sig, nonce, level, got) {
                    let log: Vec<String> = node.log.borrow().iter().map(|x| format!("{:?} -> {:?}", kind(&x.0.req), x.1)).collect();
                    bad.push(Violation { plan: "courses".into(), seed: String::new(), ops: vec![], what: format!("{e}; nonce {nonce}, commitment {level}: {log:?}"), known: None });
                    break;
                }
                if !node.choices.borrow_mut().next() {
                    break;
                }
            }
            sim::set_node(None);
        }
    }
    sim::clock::stop();
    bad.truncate(3);
    (c, bad)
}

fn kind(r: &Req) -> &'static str {
    match r {
        Req::Send { .. } => "send",
        Req::LatestBlockhash => "latest hash",
        Req::Statuses(_) => "status",
        Req::BlockhashValid(_) => "hash valid",
        _ => "other",
    }
}

fn judge(
    node: &Script,
    tx: &Transaction,
    sig: Signature,
    nonce: bool,
    level: u8,
    got: Result<solana_client::client_error::Result<(Signature, u64)>, String>,
) -> Result<(), String> {
    let got = got.map_err(|e| format!("panicked: {e}"))?;
    let log = node.log.borrow();
    // one transaction, sent first
    for (i, (c, _, _)) in log.iter().enumerate() {
        match &c.req {
            Req::Send { tx: t, .. } => {
                if i != 0 {
                    return Err("the transaction is sent again".into());
                }
                if *t != tx.clone().into() {
                    return Err("another transaction is sent".into());
                }
            }
            Req::Statuses(l) => {
                if *l != vec![sig] {
                    return Err("asks for the state of something else".into());
                }
            }
            Req::BlockhashValid(h) => {
                let want = if nonce { Hash::new_from_array(LATEST) } else { tx.message.recent_blockhash };
                if *h != want {
                    return Err("asks whether another block is still valid".into());
                }
            }
            Req::LatestBlockhash => {
                if !nonce {
                    return Err("asks for a block it does not need".into());
                }
            }
            other => return Err(format!("asks for {other:?}")),
        }
    }
    if !matches!(log.first().map(|x| &x.0.req), Some(Req::Send { .. })) {
        return Err("the transaction is not sent".into());
    }
    // what decides
    let mut end: Option<(usize, Result<u64, String>)> = None;
    for (i, (_, r, _)) in log.iter().enumerate() {
        let e = match r {
            Err(Fail::Transport(m)) => Some(Err(m.clone())),
            Err(Fail::Preflight { err, .. }) => Some(Err(format!("{:?}", err.as_ref().unwrap()))),
            Err(Fail::Transaction(t)) => Some(Err(format!("{t:?}"))),
            Ok(Ans::Bool(false)) => Some(Err("unable to confirm".into())),
            Ok(Ans::Statuses(_, l)) => match l.first() {
                Some(Some(s)) if enough(s, level) => Some(match &s.err {
                    None => Ok(s.slot),
                    Some(t) => Err(format!("{t:?}")),
                }),
                _ => None,
            },
            _ => None,
        };
        if let Some(e) = e {
            end = Some((i, e));
            break;
        }
    }
    let Some((at, want)) = end else {
        return Err("ends before anything is decided".into());
    };
    if at + 1 != log.len() {
        return Err(format!("goes on after \"{want:?}\""));
    }
    match (got, want) {
        (Ok((s, slot)), Ok(w)) if s == sig && slot == w => {}
        (Err(e), Err(w)) if format!("{e:?}").contains(&w) => {}
        (g, w) => return Err(format!("reports {g:?} instead of {w:?}")),
    }
    // no request for the state follows the one before at once
    let times: Vec<u64> = log.iter().filter(|x| matches!(x.0.req, Req::Statuses(_))).map(|x| x.2).collect();
    if times.windows(2).any(|t| t[1] - t[0] < 1_000_000) {
        return Err("asks again without waiting".into());
    }
    Ok(())
}

pub fn parts(t: Tier) -> Vec<Part> {
    let n = t.pick(3, 4);
    vec![
        Part::Custom("courses of a transaction".into(), Box::new(move || crate::accts::on_thread(move || courses(n)))),
        Part::Custom("channels".into(), Box::new(channels)),
    ]
}

/// Messages sent unless the channel is full.
fn channels() -> (Counts, Vec<Violation>) {
    use ob::AsyncChannelSendUnlessFull;
    let mut c = Counts { exhausted: true, ..Default::default() };
    let mut bad = vec![];
    for cap in [Some(1usize), Some(2), None] {
        // send, receive, close
        for n in 0..3usize.pow(6) {
            let (s, r) = match cap {
                Some(k) => async_channel::bounded::<usize>(k),
                None => async_channel::unbounded(),
            };
            let mut r = Some(r);
            let mut model: std::collections::VecDeque<usize> = Default::default();
            c.states += 1;
            for k in 0..6 {
                c.transitions += 1;
                let what = match n / 3usize.pow(k) % 3 {
                    0 => {
                        let got = s.send_unless_full(k as usize);
                        match (got, r.is_some()) {
                            (Ok(()), true) => {
                                if cap.map_or(true, |m| model.len() < m) {
                                    model.push_back(k as usize);
                                }
                                None
                            }
                            (Err(e), false) if e.0 == k as usize => None,
                            (g, open) => Some(format!("sending gives {:?} although receivers remain: {open}", g.is_ok())),
                        }
                    }
                    1 => match &r {
                        Some(r) => {
                            let g = r.try_recv().ok();
                            let w = model.pop_front();
                            (g != w).then(|| format!("received {g:?} instead of {w:?}"))
                        }
                        None => None,
                    },
                    _ => {
                        r = None;
                        None
                    }
                };
                c.compared += 1;
                if let Some(what) = what {
                    bad.push(Violation { plan: "channels".into(), seed: format!("capacity {cap:?}, sequence {n}"), ops: vec![], what, known: None });
                    return (c, bad);
                }
            }
        }
    }
    (c, bad)
}
