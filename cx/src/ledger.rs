//! A node for the client under test: the emulated ledger behind the calls of
//! the client library.  Transactions are checked as a validator would check
//! them and executed on the compiled program.

use obmc::rt::*;
use obmc::world::*;
use sim::{Ans, Call, Fail, Filter, Req};
use solana_sdk::account::Account;
use solana_sdk::commitment_config::CommitmentLevel;
use solana_sdk::hash::Hash;
use solana_sdk::instruction::InstructionError;
use solana_sdk::pubkey::Pubkey;
use solana_sdk::signature::{keypair_from_seed, Keypair};
use solana_sdk::signer::Signer;
use solana_sdk::transaction::{TransactionError, VersionedTransaction};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

pub const NAMES: [&str; 9] =
    ["payer", "user0", "user1", "user2", "oo_admin", "consume_admin", "close_admin", "second_market", "stranger"];

/// The key pair behind an address of the worlds.
pub fn pair(tag: &str) -> Keypair {
    let h = solana_program::hash::hash(format!("pair:{tag}").as_bytes()).to_bytes();
    keypair_from_seed(&h).unwrap()
}
pub fn install_keys() {
    use_keys(NAMES.iter().map(|n| (n.to_string(), pair(n).pubkey())).collect::<HashMap<_, _>>());
}

fn rank(l: CommitmentLevel) -> u8 {
    match l {
        CommitmentLevel::Processed => 0,
        CommitmentLevel::Confirmed => 1,
        _ => 2,
    }
}

pub struct Ledger {
    pub m: RefCell<Machine>,
    pub hash: Cell<Hash>,
    /// how settled the block is that was last asked for
    hash_rank: Cell<u8>,
    pub calls: RefCell<Vec<Call>>,
    pub sent: RefCell<Vec<VersionedTransaction>>,
    /// what the last refused transaction was answered with
    pub refused: RefCell<Option<(TransactionError, Vec<String>)>>,
    /// transactions a validator would drop, with the reason
    pub malformed: RefCell<Vec<String>>,
    /// fail the n-th request
    pub fail_at: Cell<Option<(usize, bool)>>,
    /// accounts are served longer than they are, or cut short
    pub longer: Cell<isize>,
    answers: RefCell<Vec<Option<Result<Ans, Fail>>>>,
}

impl Ledger {
    pub fn new(w: &World) -> Rc<Ledger> {
        Rc::new(Ledger {
            m: RefCell::new(w.machine()),
            hash: Cell::new(Hash::new_from_array([7; 32])),
            hash_rank: Cell::new(2),
            calls: Default::default(),
            sent: Default::default(),
            refused: Default::default(),
            malformed: Default::default(),
            fail_at: Cell::new(None),
            longer: Cell::new(0),
            answers: Default::default(),
        })
    }
    pub fn reset(&self, s: &State) {
        self.m.borrow_mut().load(s);
        self.calls.borrow_mut().clear();
        self.sent.borrow_mut().clear();
        self.malformed.borrow_mut().clear();
        self.answers.borrow_mut().clear();
        *self.refused.borrow_mut() = None;
        self.fail_at.set(None);
        self.longer.set(0);
    }
    pub fn account_at(&self, k: &Pubkey) -> Option<Account> {
        let m = self.m.borrow();
        let i = *m.image.index.get(k)?;
        if m.lamports(i) == 0 {
            return None;
        }
        let mut data = m.data(i).to_vec();
        if self.longer.get() != 0 {
            data.resize((data.len() as isize + self.longer.get()).max(0) as usize, 77);
        }
        Some(Account {
            lamports: m.lamports(i),
            data,
            owner: m.owner(i),
            executable: m.image.accts[i].executable,
            rent_epoch: 0,
        })
    }
    fn execute(&self, tx: &VersionedTransaction) -> Result<(), Fail> {
        self.sent.borrow_mut().push(tx.clone());
        let bad = |what: &str, e: TransactionError| {
            self.malformed.borrow_mut().push(what.to_string());
            Err(Fail::Preflight { err: Some(e), logs: None })
        };
        if tx.message.sanitize().is_err() {
            return bad("not well formed", TransactionError::SanitizeFailure);
        }
        if *tx.message.recent_blockhash() != self.hash.get() {
            return bad("not for the latest block", TransactionError::BlockhashNotFound);
        }
        if !tx.verify_with_results().iter().all(|b| *b) || tx.signatures.len() != tx.message.header().num_required_signatures as usize {
            return bad("not signed by all signers", TransactionError::SignatureFailure);
        }
        let keys = tx.message.static_account_keys();
        let mut m = self.m.borrow_mut();
        let before = m.save();
        keep_text(true);
        let mut logs = vec![];
        for (n, ix) in tx.message.instructions().iter().enumerate() {
            let program = keys[ix.program_id_index as usize];
            if solana_sdk::compute_budget::check_id(&program) {
                continue;
            }
            let fail = |err: InstructionError, logs: Vec<String>| {
                let err = TransactionError::InstructionError(n as u8, err);
                *self.refused.borrow_mut() = Some((err.clone(), logs.clone()));
                Err(Fail::Preflight { err: Some(err), logs: Some(logs) })
            };
            if program != prog() {
                m.load(&before);
                return fail(InstructionError::UnsupportedProgramId, logs);
            }
            let mut metas = vec![];
            for a in &ix.accounts {
                let k = keys[*a as usize];
                match m.image.index.get(&k) {
                    Some(acct) => metas.push(Meta {
                        acct: *acct,
                        signer: tx.message.is_signer(*a as usize),
                        writable: tx.message.is_maybe_writable(*a as usize),
                    }),
                    None => {
                        m.load(&before);
                        return fail(InstructionError::MissingAccount, vec![format!("account {k} is not on the ledger")]);
                    }
                }
            }
            let o = m.exec(&Ix { metas, data: ix.data.clone() });
            logs.extend(take_text());
            if !o.ok {
                logs.push(o.err);
                m.load(&before);
                return fail(InstructionError::Custom(n as u32), logs);
            }
        }
        Ok(())
    }
    fn answer(&self, c: &Call) -> Result<Ans, Fail> {
        let slot = self.m.borrow().now.slot;
        Ok(match &c.req {
            Req::Account(k) => Ans::Account(slot, self.account_at(k)),
            Req::Accounts(l) => Ans::Accounts(slot, l.iter().map(|k| self.account_at(k)).collect()),
            Req::ProgramAccounts { program, filters, slice } => {
                let keys: Vec<Pubkey> = self.m.borrow().image.accts.iter().map(|a| a.key).collect();
                let mut l = vec![];
                for k in keys {
                    if let Some(mut a) = self.account_at(&k) {
                        let fits = filters.iter().all(|f| match f {
                            Filter::Size(n) => a.data.len() as u64 == *n,
                            Filter::Bytes(o, b) => a.data.get(*o..*o + b.len()) == Some(&b[..]),
                        });
                        if a.owner == *program && fits {
                            if let Some((o, n)) = slice {
                                a.data = a.data.get(*o..(*o + *n).min(a.data.len())).unwrap_or(&[]).to_vec();
                            }
                            l.push((k, a));
                        }
                    }
                }
                Ans::ProgramAccounts(slot, l)
            }
            Req::Send { tx, .. } | Req::Confirm(tx) => {
                // without another wish it is first tried on the finalized state
                if let Req::Send { skip_preflight: false, preflight, .. } = &c.req {
                    if rank(preflight.unwrap_or(CommitmentLevel::Finalized)) > self.hash_rank.get() {
                        self.malformed.borrow_mut().push("tried on a state that does not know its block yet".into());
                        return Err(Fail::Preflight { err: Some(TransactionError::BlockhashNotFound), logs: None });
                    }
                }
                self.execute(tx)?;
                Ans::Signature(tx.signatures[0])
            }
            Req::LatestBlockhash => {
                self.hash_rank.set(rank(c.commitment.commitment));
                Ans::Hash(self.hash.get(), 1000)
            }
            Req::BlockhashValid(h) => Ans::Bool(*h == self.hash.get()),
            Req::Slot => Ans::Slot(slot),
            Req::Statuses(_) | Req::Raw { .. } => return Err(Fail::Transport("not supported".into())),
        })
    }
}
impl sim::Node for Ledger {
    fn start(&self, c: Call) -> u64 {
        let n = self.calls.borrow().len();
        self.calls.borrow_mut().push(c.clone());
        let r = match self.fail_at.get() {
            Some((k, done)) if k == n => {
                // the answer is lost, before or after the request was served
                if done {
                    let _ = self.answer(&c);
                }
                Err(Fail::Transport("connection lost".into()))
            }
            _ => self.answer(&c),
        };
        self.answers.borrow_mut().push(Some(r));
        self.answers.borrow().len() as u64 - 1
    }
    fn poll(&self, id: u64) -> Option<Result<Ans, Fail>> {
        Some(self.answers.borrow_mut()[id as usize].take().expect("asked once"))
    }
}
