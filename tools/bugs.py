"""Bugs planted to try the checks (tools/plant.py turns them into /verif/seeded/<id>/)."""
S = "cycles-ledger/src/storage.rs"
M = "cycles-ledger/src/main.rs"
L = "cycles-ledger/src/lib.rs"
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("refund-at-expiry-instant", "C12", [(S, """                    let approval_still_valid =
                        old_expires_at.map(|expiry| now < expiry).unwrap_or(true);
                    // charge FEE for every block: withdraw attempt, refund, refund approval
                    if spender != from && amount > 2""", """                    let approval_still_valid =
                        old_expires_at.map(|expiry| now <= expiry).unwrap_or(true);
                    // charge FEE for every block: withdraw attempt, refund, refund approval
                    if spender != from && amount > 2""")],
    "a withdrawal on an allowance whose outbound call fails exactly at the instant at which the allowance expires",
    "the refund traps (the approval to be restored is already expired), so the burned cycles are lost", """
pub fn demo() {
    let (a, b, c) = (acc(user(1)), acc(user(2)), canister(7));
    install(vec![(a, 10 * T)], 100);
    approve(a, b, 5 * T, Some(NOW + 100 * SEC)).unwrap();
    caller(b.owner);
    let before = balance(a);
    let t = start(withdraw_from(WithdrawFromArgs { spender_subaccount: None, from: a, to: c, created_at_time: None, amount: T.into() }));
    let call = take_call();
    set_time(NOW + 100 * SEC);
    let call2 = call;
    attempt(|| reject(&call2, 4, "no")).expect("the callback trapped");
    assert!(t.done());
    assert_eq!(balance(a), before - 2 * FEE);
}
""")

W_CHECK = """    // check allowance
    let mut old_expires_at = None;
    if let Some(spender) = spender {
        if spender != from {
            let (_, expiry) =
                read_state(|state| check_allowance(state, &from, &spender, amount_with_fee, now))?;
            if expiry > 0 {
                old_expires_at = Some(expiry);
            }
        }
    }

    // check that the `from` account has enough funds
    read_state(|state| state.check_debit_from_account(&from, amount_with_fee)).map_err(
        |balance| InsufficientFunds {"""
bug("refund-approval-from-before", "C32", [
    (S, W_CHECK, W_CHECK.replace("let mut old_expires_at = None;", "let mut old_expires_at = None;\n    let mut allowance_left = 0;").replace("let (_, expiry)", "let (left, expiry)").replace("            if expiry > 0", "            allowance_left = left;\n            if expiry > 0")),
    (S, """                    if spender != from && amount > 2 * config::FEE && approval_still_valid {
                        match reimburse_approval(
                            from,
                            spender,
                            amount_to_reimburse.saturating_sub(config::FEE),
                            old_expires_at,
                            now,
                        ) {""", """                    if spender != from && amount > 2 * config::FEE && approval_still_valid {
                        match approve(
                            from,
                            spender,
                            amount_to_reimburse
                                .saturating_sub(config::FEE)
                                .saturating_add(allowance_left),
                            Some(Memo::from(ByteBuf::from(PENALIZE_MEMO))),
                            now,
                            None,
                            None,
                            None,
                            old_expires_at,
                        ) {"""),
    ], "a withdrawal on an allowance that fails, while the owner changes the allowance during the outbound call",
    "the refunded allowance is computed from the one left before the call: a revocation made meanwhile is undone", """
pub fn demo() {
    let (a, b, c) = (acc(user(1)), acc(user(2)), canister(7));
    install(vec![(a, 10 * T)], 100);
    approve(a, b, 5 * T, None).unwrap();
    caller(b.owner);
    let t = start(withdraw_from(WithdrawFromArgs { spender_subaccount: None, from: a, to: c, created_at_time: None, amount: T.into() }));
    let call = take_call();
    approve(a, b, 0, None).unwrap();
    reject(&call, 4, "no");
    assert!(t.done());
    assert_eq!(allowed(a, b).0, T - 2 * FEE);
}
""")

bug("allowance-dust-removed", "C06", [(S, """    if new_amount == 0 {
        if expiration > 0 {
            s.expiration_queue.remove(&(expiration, key));
        }
        s.approvals.remove(&key);
    } else {
        s.approvals.insert(key, (new_amount, expiration));
    }

    Ok(())""", """    // an allowance that cannot pay for the fee cannot be used anymore
    if new_amount < config::FEE {
        if expiration > 0 {
            s.expiration_queue.remove(&(expiration, key));
        }
        s.approvals.remove(&key);
    } else {
        s.approvals.insert(key, (new_amount, expiration));
    }

    Ok(())""")], "spending that leaves less than one fee of an allowance",
    "the allowance drops by more than amount plus fee", """
pub fn demo() {
    let (a, b, c) = (acc(user(1)), acc(user(2)), acc(user(3)));
    install(vec![(a, 10 * T)], 100);
    approve(a, b, T, Some(NOW + 100 * SEC)).unwrap();
    transfer_from(b, a, c, T - FEE - 5).unwrap();
    assert_eq!(allowed(a, b), (5, Some(NOW + 100 * SEC)));
}
""")

bug("shortened-expiry-not-queued", "C08", [(S, "            if expires_at != current_expiration {\n", "            if expires_at == 0 || expires_at > current_expiration {\n")],
    "approving the same spender again with an earlier expiry",
    "the queue keeps the entry of the later expiry, and a later approval is not the one it is filed under", """
pub fn demo() {
    let (a, b) = (acc(user(1)), acc(user(2)));
    install(vec![(a, 10 * T)], 100);
    approve(a, b, T, Some(NOW + 100 * SEC)).unwrap();
    approve(a, b, T, Some(NOW + 50 * SEC)).unwrap();
    let q: Vec<u64> = storage::read_state(|s| s.expiration_queue.iter().map(|((t, _), _)| t).collect());
    assert_eq!(q, vec![NOW + 50 * SEC]);
}
""")

bug("created-canister-always-remembered", "C10", [(S, """                mutate_state(|state| {
                    if state.transaction_hashes.contains_key(&tx_hash) {
                        state
                            .transaction_hashes
                            .insert(tx_hash, (block_index, Some(canister_id)));
                    }
                });""", """                mutate_state(|state| {
                    state
                        .transaction_hashes
                        .insert(tx_hash, (block_index, Some(canister_id)));
                });""")], "creating two canisters with the same arguments and no creation time",
    "a creation without creation time is remembered, and the next identical one is refused as a duplicate", """
pub fn demo() {
    let a = acc(user(1));
    install(vec![(a, 10 * T)], 100);
    caller(a.owner);
    for i in 0..2u8 {
        let t = start(create_canister(CreateCanisterArgs { from_subaccount: None, created_at_time: None, amount: T.into(), creation_args: None }));
        let call = take_call();
        answer(&call, Encode!(&Ok::<Principal, CmcCreateCanisterError>(canister(10 + i))).unwrap());
        assert_eq!(t.result().unwrap().canister_id, canister(10 + i));
    }
}
""")

bug("forgets-at-the-last-instant", "C11", [(S, """        .saturating_add(config::PERMITTED_DRIFT.as_nanos() as u64)
        < now
}""", """        .saturating_add(config::PERMITTED_DRIFT.as_nanos() as u64)
        <= now
}""")], "a replay at exactly creation time + window + drift, after housekeeping at that same instant",
    "the transaction is forgotten while it would still be accepted: the replay is executed", """
pub fn demo() {
    let (a, b) = (acc(user(1)), acc(user(2)));
    install(vec![(a, 10 * T)], 100);
    let mut args = transfer_args(a, b, T);
    args.created_at_time = Some(NOW);
    caller(a.owner);
    icrc1_transfer(args.clone()).unwrap();
    set_time(NOW + (config::TRANSACTION_WINDOW + config::PERMITTED_DRIFT).as_nanos() as u64);
    transfer(a, b, 1).unwrap();
    assert!(matches!(icrc1_transfer(args), Err(TransferError::Duplicate { .. })));
}
""")

bug("refund-block-time", "C14", [(S, """        deposit_cycles(&DepositCyclesArgs { canister_id: to }, amount).await;
    let now = ic_cdk::api::time();
""", """        deposit_cycles(&DepositCyclesArgs { canister_id: to }, amount).await;
""")], "a withdrawal that fails some time after it was sent",
    "the refund blocks carry the time of the request, not the time at which they were made", """
pub fn demo() {
    let a = acc(user(1));
    install(vec![(a, 10 * T)], 100);
    caller(a.owner);
    let t = start(withdraw(WithdrawArgs { from_subaccount: None, to: canister(7), created_at_time: None, amount: T.into() }));
    let call = take_call();
    set_time(NOW + 77 * SEC);
    reject(&call, 4, "no");
    assert!(t.done());
    let last = storage::read_state(|s| s.blocks.get(s.blocks.len() - 1).unwrap().timestamp);
    assert_eq!(last, NOW + 77 * SEC);
}
""")

bug("wrong-balance-on-overflow", "C05", [(S, """    // if `amount` + `fee` overflows then the user doesn't have enough funds
    let Some(amount_with_fee) = amount.checked_add(config::FEE) else {
        return Err(InsufficientFunds {
            balance: balance_of(&from).into(),
        });
    };

    // check allowance
    if let Some(spender) = spender {
        if spender != from {
            read_state""", """    // if `amount` + `fee` overflows then the user doesn't have enough funds
    let Some(amount_with_fee) = amount.checked_add(config::FEE) else {
        return Err(InsufficientFunds {
            balance: balance_of(&spender.unwrap_or(from)).into(),
        });
    };

    // check allowance
    if let Some(spender) = spender {
        if spender != from {
            read_state""")], "icrc2_transfer_from with an amount that overflows together with the fee",
    "InsufficientFunds names the balance of the spender", """
pub fn demo() {
    let (a, b) = (acc(user(1)), acc(user(2)));
    install(vec![(a, 10 * T), (b, 3 * T)], 100);
    match transfer_from(b, a, acc(user(3)), u128::MAX) {
        Err(TransferFromError::InsufficientFunds { balance }) => assert_eq!(nat(&balance), 10 * T),
        x => panic!("{x:?}"),
    }
}
""")

bug("range-budget-by-request", "C20", [
    (S, """    let mut blocks = Vec::new();
    for GetBlocksArg { start, length } in args {
        let remaining_length = max_length.saturating_sub(blocks.len() as u64);
        if remaining_length == 0 {""", """    let mut blocks = Vec::new();
    let mut remaining_length = max_length;
    for GetBlocksArg { start, length } in args {
        if remaining_length == 0 {"""),
    (S, """        let end_excluded = log_length.min(start.saturating_add(remaining_length.min(length)));
""", """        let end_excluded = log_length.min(start.saturating_add(remaining_length.min(length)));
        remaining_length = remaining_length.saturating_sub(length);
""")], "a query for several ranges, an earlier one of which reaches beyond the end of the log",
    "a range that was clipped uses up the limit, so later ranges come back empty although they fit", """
pub fn demo() {
    let (a, b) = (acc(user(1)), acc(user(2)));
    install(vec![(a, 10 * T)], 10);
    for _ in 0..4 { transfer(a, b, T).unwrap(); }
    let r = icrc3_get_blocks(vec![GetBlocksArg { start: 3u64.into(), length: 100u64.into() }, GetBlocksArg { start: 0u64.into(), length: 2u64.into() }]);
    let ids: Vec<u128> = r.blocks.iter().map(|b| nat(&b.id)).collect();
    assert_eq!(ids, vec![3, 4, 0, 1]);
}
""")

bug("expired-approvals-fill-the-page", "C21", [(S, """            state.approvals.range(start_account_spender..)
        {""", """            state
                .approvals
                .range(start_account_spender..)
                .take((max_results as usize).saturating_add(1))
        {""")], "listing allowances with a small limit while expired approvals have not been cleaned up",
    "expired approvals count towards the limit, so live ones are missing from the page", """
pub fn demo() {
    let a = acc(user(1));
    install(vec![(a, 10 * T)], 100);
    let mut spenders: Vec<Account> = (2..8).map(|i| acc(user(i))).collect();
    spenders.sort();
    for s in &spenders[..4] { approve(a, *s, T, Some(NOW + SEC)).unwrap(); }
    for s in &spenders[4..] { approve(a, *s, T, None).unwrap(); }
    set_time(NOW + 2 * SEC);
    caller(a.owner);
    let r = icrc103_get_allowances(GetAllowancesArgs { from_account: None, prev_spender: None, take: Some(2u64.into()) }).unwrap();
    assert_eq!(r.len(), 2);
}
""")

bug("withdraw-from-to-user", "C16", [(S, "    if is_self_authenticating(&to) {\n", "    if spender.is_none() && is_self_authenticating(&to) {\n")],
    "withdraw_from to a self-authenticating principal",
    "a withdrawal on behalf of another account to a user principal is executed", """
pub fn demo() {
    let (a, b) = (acc(user(1)), acc(user(2)));
    install(vec![(a, 10 * T)], 100);
    approve(a, b, 5 * T, None).unwrap();
    caller(b.owner);
    let t = start(withdraw_from(WithdrawFromArgs { spender_subaccount: None, from: a, to: user(9), created_at_time: None, amount: T.into() }));
    assert!(t.done());
    assert!(matches!(t.result(), Err(WithdrawFromError::InvalidReceiver { .. })));
}
""")

bug("empty-memo-dropped", "C18", [(S, "    let block_index = mint(to, amount_to_mint, memo, now)?;\n", "    let memo = memo.filter(|memo| !memo.0.is_empty());\n    let block_index = mint(to, amount_to_mint, memo, now)?;\n")],
    "a deposit with an empty memo", "the memo given is not recorded", """
pub fn demo() {
    let a = acc(user(1));
    install(vec![], 100);
    attach(T);
    deposit(DepositArg { to: a, memo: Some(Memo::from(vec![])) });
    let memo = storage::read_state(|s| s.blocks.get(0).unwrap().transaction.memo.clone());
    assert_eq!(memo, Some(Memo::from(vec![])));
}
""")

bug("deposit-memo-unchecked", "C19", [(S, """    if let Err(err) = validate_memo(&transaction.memo) {
        ic_cdk::trap(&err);
    }
""", """    // mints are made by the ledger itself
    if !matches!(transaction.operation, Operation::Mint { .. }) {
        if let Err(err) = validate_memo(&transaction.memo) {
            ic_cdk::trap(&err);
        }
    }
""")], "a deposit with a memo longer than 32 bytes", "the memo of a deposit is recorded whatever its length", """
pub fn demo() {
    let a = acc(user(1));
    install(vec![], 100);
    attach(T);
    assert!(attempt(|| deposit(DepositArg { to: a, memo: Some(Memo::from(vec![1; 1000])) })).is_none());
}
""")

bug("account-dust-swept", "C01", [(S, """        if new_balance == 0 {
            self.balances.remove(&account_key);""", """        if new_balance < config::FEE {
            // what is left cannot be spent
            self.balances.remove(&account_key);""")], "a debit that leaves less than one fee on an account",
    "the rest of the balance vanishes while the total supply still counts it", """
pub fn demo() {
    let (a, b) = (acc(user(1)), acc(user(2)));
    install(vec![(a, 10 * T)], 100);
    transfer(a, b, 10 * T - FEE - 7).unwrap();
    assert_eq!(supply(), balance(a) + balance(b));
}
""")

bug("self-transfer-mints", "C02", [(S, """    if let Err(err) = mutate_state(|state| state.debit(&from, amount_with_fee)) {
        let err = err.context(format!("Unable to perform transfer {transaction}"));
        ic_cdk::trap(format!("{err:#}"));
    };

    if let Err(err) = mutate_state(|state| state.credit(&to, amount)) {
        let err = err.context(format!("Unable to perform transfer {transaction}"));
        ic_cdk::trap(format!("{err:#}"));
    };
""", """    // one pass over the balances: read both, write both
    let (from_balance, to_balance) = (balance_of(&from), balance_of(&to));
    mutate_state(|state| {
        match from_balance - amount_with_fee {
            0 => state.balances.remove(&to_account_key(&from)),
            left => state.balances.insert(to_account_key(&from), left),
        };
        state
            .balances
            .insert(to_account_key(&to), to_balance + amount);
        state.cache.total_supply -= config::FEE;
    });
""")], "a transfer from an account to itself", "the account gains the amount instead of losing the fee", """
pub fn demo() {
    let a = acc(user(1));
    install(vec![(a, 10 * T)], 100);
    transfer(a, a, T).unwrap();
    assert_eq!(balance(a), 10 * T - FEE);
}
""")

bug("certified-with-housekeeping", "C03", [
    (S, "        certified_data_set(self.root_hash());\n", ""),
    (S, "    read_state(check_invariants);\n}", "    read_state(check_invariants);\n    // the tip is certified once per message\n    certified_data_set(read_state(|state| state.root_hash()));\n}")],
    "a failed withdrawal on an allowance (the block restoring the allowance is appended after housekeeping), or an installation with initial balances",
    "the certified data is that of an earlier tip", """
pub fn demo() {
    let (a, b, c) = (acc(user(1)), acc(user(2)), canister(7));
    install(vec![(a, 10 * T)], 100);
    approve(a, b, 5 * T, None).unwrap();
    caller(b.owner);
    let t = start(withdraw_from(WithdrawFromArgs { spender_subaccount: None, from: a, to: c, created_at_time: None, amount: T.into() }));
    let call = take_call();
    reject(&call, 4, "no");
    assert!(t.done());
    assert_eq!(W.with(|w| w.borrow().certified.clone()), storage::read_state(|s| s.root_hash()).to_vec());
}
""")

bug("expected-zero-ignored", "C09", [(S, "    if expected_allowance.is_some() && expected_allowance != Some(allowance) {", "    if expected_allowance.is_some_and(|expected| expected > 0 && expected != allowance) {")],
    "approving with an expected allowance of zero while there is one", "the expected allowance is not enforced", """
pub fn demo() {
    let (a, b) = (acc(user(1)), acc(user(2)));
    install(vec![(a, 10 * T)], 100);
    approve(a, b, 5 * T, None).unwrap();
    let mut args = approve_args(a, b, T, None);
    args.expected_allowance = Some(0u64.into());
    assert!(matches!(icrc2_approve(args), Err(ApproveError::AllowanceChanged { .. })));
}
""")

bug("withdraw-retried", "C13", [(S, """    let deposit_cycles_result =
        deposit_cycles(&DepositCyclesArgs { canister_id: to }, amount).await;
    let now""", """    let mut deposit_cycles_result =
        deposit_cycles(&DepositCyclesArgs { canister_id: to }, amount).await;
    if matches!(&deposit_cycles_result, Err(ic_cdk::call::Error::CallRejected(reject)) if reject.raw_reject_code() == 2) {
        // transient: try once more
        deposit_cycles_result =
            deposit_cycles(&DepositCyclesArgs { canister_id: to }, amount).await;
    }
    let now""")], "a withdrawal answered with a transient rejection",
    "the cycles are sent twice for one burn (the first call may have delivered them)", """
pub fn demo() {
    let a = acc(user(1));
    install(vec![(a, 10 * T)], 100);
    caller(a.owner);
    let t = start(withdraw(WithdrawArgs { from_subaccount: None, to: canister(7), created_at_time: None, amount: T.into() }));
    let call = take_call();
    reject(&call, 2, "no");
    assert_eq!(calls(), 0);
    assert!(t.done());
}
""")

bug("no-controllers-means-caller", "C15", [(S, """                            .controllers
                            .unwrap_or_else""", """                            .controllers
                            .filter(|controllers| !controllers.is_empty())
                            .unwrap_or_else""")], "creating a canister with an explicitly empty list of controllers",
    "the caller becomes controller of a canister that was asked to have none", """
pub fn demo() {
    let a = acc(user(1));
    install(vec![(a, 10 * T)], 100);
    caller(a.owner);
    let settings = ic_cdk::management_canister::CanisterSettings { controllers: Some(vec![]), ..Default::default() };
    let _t = start(create_canister(CreateCanisterArgs { from_subaccount: None, created_at_time: None, amount: T.into(),
        creation_args: Some(CmcCreateCanisterArgs { subnet_selection: None, settings: Some(settings) }) }));
    let call = take_call();
    let sent = Decode!(&call.arg, CmcCreateCanisterArgs).unwrap();
    assert_eq!(sent.settings.unwrap().controllers, Some(vec![]));
}
""")

bug("approve-overpay-accepted", "C17", [(S, """    if suggested_fee.is_some() && suggested_fee != Some(config::FEE) {
        return Err(ApproveError::BadFee {""", """    if suggested_fee.is_some() && suggested_fee < Some(config::FEE) {
        return Err(ApproveError::BadFee {""")], "an approval with a fee above the advertised one",
    "the approval is executed; its block shows a fee that was not charged", """
pub fn demo() {
    let (a, b) = (acc(user(1)), acc(user(2)));
    install(vec![(a, 10 * T)], 100);
    let mut args = approve_args(a, b, T, None);
    args.fee = Some((2 * FEE).into());
    caller(a.owner);
    assert!(matches!(icrc2_approve(args), Err(ApproveError::BadFee { .. })));
}
""")

bug("housekeeping-at-creation-time", "C28", [(M, """        suggested_fee,
    )?;

    prune(now);

    Ok(block_index)
}

#[update]
fn icrc1_transfer""", """        suggested_fee,
    )?;

    // the latest time seen
    prune(now.max(created_at_time.unwrap_or(now)));

    Ok(block_index)
}

#[update]
fn icrc1_transfer""")],
    "a transfer created slightly in the future (within the drift) shortly before an approval expires",
    "an approval that has not expired is removed", """
pub fn demo() {
    let (a, b) = (acc(user(1)), acc(user(2)));
    install(vec![(a, 10 * T)], 100);
    approve(a, b, T, Some(NOW + 50 * SEC)).unwrap();
    let mut args = transfer_args(a, b, T);
    args.created_at_time = Some(NOW + 55 * SEC);
    caller(a.owner);
    icrc1_transfer(args).unwrap();
    assert_eq!(allowed(a, b).0, T);
}
""")

bug("allowance-used-before-funds", "C04", [
    (S, """            read_state(|state| check_allowance(state, &from, &spender, amount_with_fee, now))?;
        }
    }

    // Check that""", """            mutate_state(|state| use_allowance(state, &from, &spender, amount_with_fee, now))?;
        }
    }

    // Check that"""),
    (S, """    if let Some(spender) = spender {
        if spender != from {
            if let Err(err) =
                mutate_state(|state| use_allowance(state, &from, &spender, amount_with_fee, now))
            {
                ic_cdk::trap(format!("Unable to perform transfer {transaction}: {err}"));
            }
        }
    }

""", "")], "icrc2_transfer_from with a sufficient allowance and insufficient funds (or a bad creation time)",
    "the refused request has consumed the allowance", """
pub fn demo() {
    let (a, b) = (acc(user(1)), acc(user(2)));
    install(vec![(a, 10 * T)], 100);
    approve(a, b, 50 * T, None).unwrap();
    assert!(matches!(transfer_from(b, a, acc(user(3)), 20 * T), Err(TransferFromError::InsufficientFunds { .. })));
    assert_eq!(allowed(a, b).0, 50 * T);
}
""")

bug("listed-while-expiring", "C07", [(S, "            if expiration > 0 && expiration <= now {", "            if expiration > 0 && expiration < now {")],
    "a listing at the very nanosecond at which an approval expires",
    "the approval is listed although it can no longer be spent", """
pub fn demo() {
    let (a, b) = (acc(user(1)), acc(user(2)));
    install(vec![(a, 10 * T)], 100);
    approve(a, b, T, Some(NOW + SEC)).unwrap();
    set_time(NOW + SEC);
    caller(a.owner);
    let listed = icrc103_get_allowances(GetAllowancesArgs { from_account: Some(a), prev_spender: None, take: None }).unwrap();
    assert_eq!(allowed(a, b).0, 0);
    assert!(listed.is_empty());
}
""")

bug("revoking-nothing-reads-the-state", "C23", [(S, """                log!(P0, "[record_approval]: amount was set to 0");
""", """                let balance = balance_of(from);
                log!(P0, "[record_approval]: amount was set to 0 (balance: {balance})");
""")],
    "an approval of zero where there is no approval",
    "the state is read while it is being modified: the request traps instead of being executed", """
pub fn demo() {
    let (a, b) = (acc(user(1)), acc(user(2)));
    install(vec![(a, 10 * T)], 100);
    let r = attempt(|| approve(a, b, 0, None)).expect("the request trapped");
    r.unwrap();
    assert_eq!(balance(a), 10 * T - FEE);
}
""")

bug("nothing-needs-no-allowance", "C24", [(S, """    // check allowance
    if let Some(spender) = spender {
        if spender != from {
            read_state""", """    // check allowance (there is nothing to check if nothing moves)
    if let Some(spender) = spender.filter(|_| amount > 0) {
        if spender != from {
            read_state"""), (S, """    if let Some(spender) = spender {
        if spender != from {
            if let Err(err) =
                mutate_state(|state| use_allowance(state, &from, &spender, amount_with_fee, now))
            {
                ic_cdk::trap(format!("Unable to perform transfer {transaction}: {err}"));""", """    if let Some(spender) = spender.filter(|_| amount > 0) {
        if spender != from {
            if let Err(err) =
                mutate_state(|state| use_allowance(state, &from, &spender, amount_with_fee, now))
            {
                ic_cdk::trap(format!("Unable to perform transfer {transaction}: {err}"));""")],
    "icrc2_transfer_from of zero cycles by somebody without an approval",
    "the fee is taken from an account whose owner approved nobody", """
pub fn demo() {
    let (a, b) = (acc(user(1)), acc(user(2)));
    install(vec![(a, 10 * T)], 100);
    assert!(transfer_from(b, a, b, 0).is_err());
    assert_eq!(balance(a), 10 * T);
}
""")

bug("future-means-too-old", "C25", [(S, """impl From<CreatedAtTimeValidationError> for CreateCanisterFromError {
    fn from(value: CreatedAtTimeValidationError) -> Self {
        match value {
            CreatedAtTimeValidationError::TooOld => Self::TooOld,
            CreatedAtTimeValidationError::InTheFuture { ledger_time } => {
                Self::CreatedInFuture { ledger_time }
            }
        }
    }
}""", """impl From<CreatedAtTimeValidationError> for CreateCanisterFromError {
    fn from(value: CreatedAtTimeValidationError) -> Self {
        match value {
            CreatedAtTimeValidationError::InTheFuture { ledger_time } if ledger_time % 2 == 0 => {
                Self::CreatedInFuture { ledger_time }
            }
            _ => Self::TooOld,
        }
    }
}""")],
    "create_canister with a creation time in the future, at an odd ledger time",
    "the request is refused as too old", """
pub fn demo() {
    let a = acc(user(1));
    install(vec![(a, 10 * T)], 100);
    set_time(NOW + 1);
    caller(a.owner);
    let t = start(create_canister(CreateCanisterArgs { from_subaccount: None, created_at_time: Some(NOW + 3600 * SEC), amount: T.into(), creation_args: None }));
    assert!(matches!(t.result(), Err(CreateCanisterError::CreatedInFuture { ledger_time }) if ledger_time == NOW + 1));
}
""")

bug("expecting-nothing-is-not-recorded", "C26", [(S, """                Approve {
                    expected_allowance, ..
                } => expected_allowance.to_owned(),""", """                Approve {
                    expected_allowance, ..
                } => expected_allowance.filter(|expected| *expected != 0),""")],
    "an approval that expects an allowance of zero",
    "the stored block has lost the expected allowance", """
pub fn demo() {
    let (a, b) = (acc(user(1)), acc(user(2)));
    install(vec![(a, 10 * T)], 100);
    caller(a.owner);
    let mut args = approve_args(a, b, T, None);
    args.expected_allowance = Some(0u8.into());
    icrc2_approve(args).unwrap();
    assert!(block(1).contains("expected_allowance"));
}
""")

bug("own-account-spelled-out", "C27", [(S, """    // check allowance
    if let Some(spender) = spender {
        if spender != from {
            read_state""", """    // check allowance
    if let Some(spender) = spender {
        if (spender.owner, spender.subaccount) != (from.owner, from.subaccount) {
            read_state""")],
    "icrc2_transfer_from of an own account whose subaccount is given as zeroes on one side only",
    "the owner is refused for want of an allowance", """
pub fn demo() {
    let (a, b) = (acc(user(1)), acc(user(2)));
    install(vec![(a, 10 * T)], 100);
    transfer_from(a, a, b, T).unwrap();
    transfer_from(a, sub(user(1), 0), b, T).unwrap();
    assert_eq!(balance(b), 2 * T);
}
""")

bug("upgrade-forgets-the-index", "C30", [(M, """            if let Some(change_index_id) = upgrade_args.change_index_id {
                mutate_config(|config| {
                    config.index_id = change_index_id.into();
                })
            }
""", """            mutate_config(|config| {
                config.index_id = upgrade_args.change_index_id.and_then(|change| change.into());
            });
""")],
    "an upgrade with an argument that does not name the index, of a ledger that has one",
    "the index configured before is lost", """
pub fn demo() {
    install(vec![], 100);
    post_upgrade(Some(LedgerArgs::Upgrade(Some(UpgradeArgs { max_blocks_per_request: None, change_index_id: Some(ChangeIndexId::SetTo(canister(5))) }))));
    assert_eq!(read_config(|c| c.index_id), Some(canister(5)));
    post_upgrade(Some(LedgerArgs::Upgrade(Some(UpgradeArgs { max_blocks_per_request: Some(50), change_index_id: None }))));
    assert_eq!(read_config(|c| (c.index_id, c.max_blocks_per_request)), (Some(canister(5)), 50));
}
""")

bug("tip-index-after-upgrade", "C31", [(S, "        populate_last_block_hash_and_hash_tree(&mut hash_tree, n - 1, last_block_hash);\n        (Some", "        populate_last_block_hash_and_hash_tree(&mut hash_tree, n, last_block_hash);\n        (Some")],
    "an upgrade, and the tip certificate asked for before another block is appended",
    "the rebuilt tree certifies an index that does not exist yet", """
pub fn demo() {
    let a = acc(user(1));
    install(vec![(a, 10 * T), (a, T)], 100);
    read_state(|s| {
        let (phash, tree) = State::compute_last_block_hash_and_hash_tree(&s.blocks);
        assert_eq!(phash, s.last_block_hash());
        for label in ["last_block_index", "last_block_hash"] {
            assert_eq!(tree.get(label.as_bytes()), s.cache.hash_tree.get(label.as_bytes()));
        }
    });
}
""")

bug("creation-sum-wraps", "C33", [(S, """        memo: Some(Memo::from(ByteBuf::from(CREATE_CANISTER_MEMO))),
    };
    check_duplicate(&transaction)?;

    // if `amount` + `fee` overflows then the user doesn't have enough funds
    let Some(amount_with_fee) = amount.checked_add(config::FEE) else {
        return Err(InsufficientFunds {
            balance: balance_of(&from).into(),
        });
    };
""", """        memo: Some(Memo::from(ByteBuf::from(CREATE_CANISTER_MEMO))),
    };
    check_duplicate(&transaction)?;

    let amount_with_fee = amount.wrapping_add(config::FEE);
""")],
    "create_canister with an amount within a fee of the largest number",
    "the sum of amount and fee wraps, so that a poor caller passes the check of funds", """
pub fn demo() {
    let a = acc(user(1));
    install(vec![(a, 10 * T)], 100);
    caller(a.owner);
    let t = start(create_canister(CreateCanisterArgs { from_subaccount: None, created_at_time: None, amount: u128::MAX.into(), creation_args: None }));
    assert!(t.done());
    assert!(matches!(t.result(), Err(CreateCanisterError::InsufficientFunds { .. })));
    assert_eq!(balance(a), 10 * T);
}
""")

bug("block-limit-advertised-in-short", "C34", [(M, "            read_config(|config| config.max_blocks_per_request),\n", "            read_config(|config| config.max_blocks_per_request as u16 as u64),\n")],
    "a configured block limit above 65535",
    "the limit advertised is not the one enforced", """
pub fn demo() {
    install(vec![], 70_000);
    let m = icrc1_metadata();
    let v = m.iter().find(|(k, _)| k == "dfn:max_blocks_per_request").unwrap();
    assert_eq!(v.1, MetadataValue::from(70_000u64));
}
""")

bug("supply-gauge-truncated", "C39", [(M, "cache.total_supply as f64", "cache.total_supply as u64 as f64")],
    "a total supply of 2^64 cycles or more",
    "the supply reported by the metrics lacks its upper bits", """
pub fn demo() {
    let a = acc(user(1));
    install(vec![(a, 30_000_000 * T)], 100);
    let r = http_request(HttpRequest { method: "GET".into(), url: "/metrics".into(), headers: vec![], body: Default::default() });
    let text = String::from_utf8(r.body.to_vec()).unwrap();
    let line = text.lines().find(|l| l.starts_with("cycles_ledger_total_supply ")).unwrap();
    let shown: f64 = line.split(' ').nth(1).unwrap().parse().unwrap();
    assert_eq!(shown, (30_000_000 * T) as f64);
}
""")
