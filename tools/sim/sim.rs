// Plays the system API for the canister included next to this file (mod canister).
#![allow(dead_code, unused_imports, unused_macros)]
mod canister {
    include!(concat!(env!("REPO"), "/cycles-ledger/src/main.rs"));

    pub mod test {
        #[allow(unused_imports)]
        use super::*;
        pub use candid::{Decode, Encode, Nat, Principal};
        pub use cycles_ledger::endpoints::*;
        pub use cycles_ledger::{config, storage};
        pub use ic0::sys::{Call, W};
        pub use icrc_ledger_types::icrc1::account::Account;
        pub use icrc_ledger_types::icrc1::transfer::{Memo, TransferArg, TransferError};
        pub use icrc_ledger_types::icrc103::get_allowances::*;
        pub use icrc_ledger_types::icrc2::allowance::AllowanceArgs;
        pub use icrc_ledger_types::icrc2::approve::{ApproveArgs, ApproveError};
        pub use icrc_ledger_types::icrc2::transfer_from::{TransferFromArgs, TransferFromError};
        use std::cell::RefCell;
        use std::future::Future;
        use std::rc::Rc;

        pub const FEE: u128 = config::FEE;
        pub const T: u128 = 1_000_000_000_000;
        pub const NOW: u64 = 1_700_000_000_000_000_000;
        pub const SEC: u64 = 1_000_000_000;

        /// a principal of a user (self-authenticating) or of a canister
        pub fn user(n: u8) -> Principal {
            Principal::self_authenticating([n; 32])
        }
        pub fn canister(n: u8) -> Principal {
            Principal::from_slice(&[0, 0, 0, 0, 1, n, 0, 5, 1, 1])
        }
        pub fn acc(owner: Principal) -> Account {
            Account { owner, subaccount: None }
        }
        pub fn sub(owner: Principal, n: u8) -> Account {
            Account { owner, subaccount: Some([n; 32]) }
        }
        pub fn caller(p: Principal) {
            W.with(|w| w.borrow_mut().caller = p.as_slice().to_vec());
        }
        pub fn set_time(t: u64) {
            W.with(|w| w.borrow_mut().time = t);
        }
        pub fn install(initial: Vec<(Account, u128)>, max_blocks: u64) {
            set_time(NOW);
            caller(canister(99));
            init(LedgerArgs::Init(config::Config { max_blocks_per_request: max_blocks, index_id: None, initial_balances: None }));
            for (a, n) in initial {
                attach(n + FEE);
                deposit(DepositArg { to: a, memo: None });
            }
        }
        pub fn attach(cycles: u128) {
            W.with(|w| w.borrow_mut().available = cycles);
        }
        pub fn balance(a: Account) -> u128 {
            nat(&icrc1_balance_of(a))
        }
        pub fn supply() -> u128 {
            nat(&icrc1_total_supply())
        }
        pub fn nat(n: &Nat) -> u128 {
            use num_traits::ToPrimitive;
            n.0.to_u128().unwrap()
        }
        pub fn allowed(account: Account, spender: Account) -> (u128, Option<u64>) {
            let a = icrc2_allowance(AllowanceArgs { account, spender });
            (nat(&a.allowance), a.expires_at)
        }
        pub fn approve(from: Account, spender: Account, amount: u128, expires_at: Option<u64>) -> Result<Nat, ApproveError> {
            caller(from.owner);
            icrc2_approve(approve_args(from, spender, amount, expires_at))
        }
        pub fn approve_args(from: Account, spender: Account, amount: u128, expires_at: Option<u64>) -> ApproveArgs {
            ApproveArgs {
                from_subaccount: from.subaccount, spender, amount: amount.into(), expected_allowance: None,
                expires_at, fee: None, memo: None, created_at_time: None,
            }
        }
        pub fn transfer_args(from: Account, to: Account, amount: u128) -> TransferArg {
            TransferArg { from_subaccount: from.subaccount, to, fee: None, created_at_time: None, memo: None, amount: amount.into() }
        }
        pub fn transfer(from: Account, to: Account, amount: u128) -> Result<Nat, TransferError> {
            caller(from.owner);
            icrc1_transfer(transfer_args(from, to, amount))
        }
        pub fn transfer_from_args(spender: Account, from: Account, to: Account, amount: u128) -> TransferFromArgs {
            TransferFromArgs { spender_subaccount: spender.subaccount, from, to, amount: amount.into(), fee: None, memo: None, created_at_time: None }
        }
        pub fn transfer_from(spender: Account, from: Account, to: Account, amount: u128) -> Result<Nat, TransferFromError> {
            caller(spender.owner);
            icrc2_transfer_from(transfer_from_args(spender, from, to, amount))
        }
        /// the log, in full
        pub fn blocks() -> Vec<(u64, String)> {
            let n = log_length();
            (0..n).map(|i| (i, block(i))).collect()
        }
        pub fn log_length() -> u64 {
            nat(&icrc3_get_blocks(vec![]).log_length) as u64
        }
        pub fn block(i: u64) -> String {
            let r = icrc3_get_blocks(vec![GetBlocksArg { start: i.into(), length: 1u64.into() }]);
            format!("{:?}", r.blocks[0].block)
        }

        pub struct Task<R>(Rc<RefCell<Option<R>>>);
        impl<R> Task<R> {
            pub fn result(&self) -> R {
                self.0.borrow_mut().take().expect("the request has not been answered")
            }
            pub fn done(&self) -> bool {
                self.0.borrow().is_some()
            }
        }
        /// runs an update call up to its first outbound call or its reply
        pub fn start<R: 'static>(f: impl Future<Output = R> + 'static) -> Task<R> {
            let r = Rc::new(RefCell::new(None));
            let r2 = r.clone();
            ic_cdk_executor::in_tracking_executor_context(|| {
                ic_cdk_executor::spawn_protected(async move {
                    let x = f.await;
                    *r2.borrow_mut() = Some(x);
                });
            });
            Task(r)
        }
        /// the outbound calls made and not yet taken
        pub fn take_call() -> Call {
            W.with(|w| w.borrow_mut().calls.remove(0))
        }
        pub fn calls() -> usize {
            W.with(|w| w.borrow().calls.len())
        }
        fn back(f: (usize, usize)) {
            let g: extern "C" fn(usize) = unsafe { std::mem::transmute(f.0) };
            g(f.1);
        }
        pub fn answer(c: &Call, bytes: Vec<u8>) {
            W.with(|w| {
                let mut w = w.borrow_mut();
                w.arg = bytes;
                w.reject_code = 0;
            });
            back(c.reply);
        }
        pub fn reject(c: &Call, code: u32, msg: &str) {
            W.with(|w| {
                let mut w = w.borrow_mut();
                w.arg = vec![];
                w.reject_code = code;
                w.reject_msg = msg.as_bytes().to_vec();
            });
            back(c.reject);
        }
        /// Some(value), or None if it traps
        pub fn attempt<R>(f: impl FnOnce() -> R) -> Option<R> {
            let h = std::panic::take_hook();
            std::panic::set_hook(Box::new(|_| {}));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok();
            std::panic::set_hook(h);
            r
        }

        include!("demo_body.rs");
    }
}

fn main() {
    canister::test::demo();
    println!("ok");
}
