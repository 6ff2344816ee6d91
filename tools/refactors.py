"""Behaviour-preserving edits the checks must stay quiet on: id -> [(file, old, new)]."""
S, M, L = "storage.rs", "main.rs", "lib.rs"
R = {}

R["none"] = []

R["denied-loop"] = [(S, """    // check that no account is owned by a denied principal
    if is_denied_account(&from.owner) {
        return Err(transfer_from::denied_owner(from));
    }
    if is_denied_account(&to.owner) {
        return Err(transfer_from::denied_owner(to));
    }
    if let Some(spender) = spender {
        if is_denied_account(&spender.owner) {
            return Err(transfer_from::denied_owner(spender));
        }
    }
""", """    // check that no account is owned by a denied principal
    for account in [Some(from), Some(to), spender].into_iter().flatten() {
        if is_denied_account(&account.owner) {
            return Err(transfer_from::denied_owner(account));
        }
    }
""")]

R["denied-chain-find"] = [(S, """    // check that no account is owned by a denied principal
    if is_denied_account(&from.owner) {
        return Err(transfer_from::denied_owner(from));
    }
    if is_denied_account(&to.owner) {
        return Err(transfer_from::denied_owner(to));
    }
    if let Some(spender) = spender {
        if is_denied_account(&spender.owner) {
            return Err(transfer_from::denied_owner(spender));
        }
    }
""", """    if let Some(denied) = [from, to]
        .into_iter()
        .chain(spender)
        .find(|account| is_denied_account(&account.owner))
    {
        return Err(transfer_from::denied_owner(denied));
    }
""")]

R["denied-contains"] = [(S, "    DENIED_PRINCIPALS.iter().any(|denied| denied == principal)", "    DENIED_PRINCIPALS.contains(principal)")]

R["denied-direct"] = [(S, "    DENIED_PRINCIPALS.iter().any(|denied| denied == principal)",
                       "    for denied in &DENIED_PRINCIPALS {\n        if principal == denied {\n            return true;\n        }\n    }\n    false")]

R["transfer-one-mutate"] = [(S, """    if let Some(spender) = spender {
        if spender != from {
            if let Err(err) =
                mutate_state(|state| use_allowance(state, &from, &spender, amount_with_fee, now))
            {
                ic_cdk::trap(format!("Unable to perform transfer {transaction}: {err}"));
            }
        }
    }

    if let Err(err) = mutate_state(|state| state.debit(&from, amount_with_fee)) {
        let err = err.context(format!("Unable to perform transfer {transaction}"));
        ic_cdk::trap(format!("{err:#}"));
    };

    if let Err(err) = mutate_state(|state| state.credit(&to, amount)) {
        let err = err.context(format!("Unable to perform transfer {transaction}"));
        ic_cdk::trap(format!("{err:#}"));
    };
""", """    let moved = mutate_state(|state| -> anyhow::Result<()> {
        if let Some(spender) = spender.filter(|spender| *spender != from) {
            use_allowance(state, &from, &spender, amount_with_fee, now).map_err(|err| anyhow!(err))?;
        }
        state.debit(&from, amount_with_fee)?;
        state.credit(&to, amount)?;
        Ok(())
    });
    if let Err(err) = moved {
        ic_cdk::trap(format!("Unable to perform transfer {transaction}: {err:#}"));
    }
""")]

R["transfer-helper"] = [(S, """    if let Err(err) = mutate_state(|state| state.debit(&from, amount_with_fee)) {
        let err = err.context(format!("Unable to perform transfer {transaction}"));
        ic_cdk::trap(format!("{err:#}"));
    };

    if let Err(err) = mutate_state(|state| state.credit(&to, amount)) {
        let err = err.context(format!("Unable to perform transfer {transaction}"));
        ic_cdk::trap(format!("{err:#}"));
    };

    Ok(Nat::from(block_index))
}
""", """    move_cycles(&from, &to, amount_with_fee, amount, &transaction);

    Ok(Nat::from(block_index))
}

fn move_cycles(from: &Account, to: &Account, debited: u128, credited: u128, tx: &Transaction) {
    mutate_state(|state| {
        state
            .debit(from, debited)
            .and_then(|_| state.credit(to, credited))
    })
    .unwrap_or_else(|err| ic_cdk::trap(format!("Unable to perform transfer {tx}: {err:#}")));
}
""")]

R["transfer-checks-one-read"] = [(S, """    // check allowance
    if let Some(spender) = spender {
        if spender != from {
            read_state(|state| check_allowance(state, &from, &spender, amount_with_fee, now))?;
        }
    }

    // Check that the `from` account has enough funds
    read_state(|state| state.check_debit_from_account(&from, amount_with_fee)).map_err(
        |balance| TransferFromError::InsufficientFunds {
            balance: balance.into(),
        },
    )?;

    // sanity check that the `to` account balance won't overflow
    read_state(|state| state.check_credit_to_account(&to, amount))
        .map_err(transfer_from::anyhow_error)?;
""", """    read_state(|state| {
        match spender {
            Some(spender) if spender != from => {
                check_allowance(state, &from, &spender, amount_with_fee, now)?;
            }
            _ => {}
        }
        if let Err(balance) = state.check_debit_from_account(&from, amount_with_fee) {
            return Err(TransferFromError::InsufficientFunds {
                balance: Nat::from(balance),
            });
        }
        match state.check_credit_to_account(&to, amount) {
            Ok(_) => Ok(()),
            Err(err) => Err(transfer_from::anyhow_error(err)),
        }
    })?;
""")]

R["transfer-fee-check"] = [(S, """    // BadFee takes precedence over InsufficientFunds per ICRC-1 spec
    if suggested_fee.is_some() && suggested_fee != Some(config::FEE) {
        return Err(BadFee {
            expected_fee: Nat::from(config::FEE),
        });
    }

    // if `amount` + `fee` overflows then the user doesn't have enough funds
    let Some(amount_with_fee) = amount.checked_add(config::FEE) else {
        return Err(InsufficientFunds {
            balance: balance_of(&from).into(),
        });
    };

    // check allowance
    if let Some(spender) = spender {
        if spender != from {
            read_state(""", """    match suggested_fee {
        Some(fee) if fee != config::FEE => {
            return Err(BadFee {
                expected_fee: config::FEE.into(),
            })
        }
        _ => {}
    }

    let amount_with_fee = amount
        .checked_add(config::FEE)
        .ok_or_else(|| InsufficientFunds {
            balance: balance_of(&from).into(),
        })?;

    // check allowance
    if let Some(spender) = spender {
        if spender != from {
            read_state(""")]

R["effective-fee-match"] = [(S, "        Op::Transfer { fee, .. } | Op::Approve { fee, .. } => fee.is_none().then_some(config::FEE),",
                             "        Op::Transfer { fee: Some(_), .. } | Op::Approve { fee: Some(_), .. } => None,\n        Op::Transfer { .. } | Op::Approve { .. } => Some(config::FEE),")]

R["prune-while-let"] = [(S, """    let mut pruned = 0;
    for _ in 0..limit {
        match s.expiration_queue.first_key_value() {
            None => break,
            Some((key, _)) if key.0 > now => break,
            Some((key, _value)) => {
                if s.approvals.remove(&key.1).is_none() {
                    log!(P0, "Unable to find the approval for {:?}", key.1,)
                }
                s.expiration_queue.remove(&key);
                pruned += 1;
            }
        }
    }
""", """    let mut pruned = 0;
    while pruned < limit {
        let Some((key, _)) = s.expiration_queue.first_key_value() else {
            break;
        };
        let (expires_at, approval) = key;
        if expires_at > now {
            break;
        }
        s.expiration_queue.remove(&key);
        if s.approvals.remove(&approval).is_none() {
            log!(P0, "Unable to find the approval for {:?}", approval)
        }
        pruned += 1;
    }
""")]

R["prune-pop-first"] = [(S, """    let mut pruned = 0;
    for _ in 0..limit {
        match s.expiration_queue.first_key_value() {
            None => break,
            Some((key, _)) if key.0 > now => break,
            Some((key, _value)) => {
                if s.approvals.remove(&key.1).is_none() {
                    log!(P0, "Unable to find the approval for {:?}", key.1,)
                }
                s.expiration_queue.remove(&key);
                pruned += 1;
            }
        }
    }
""", """    let mut pruned = 0;
    while pruned < limit
        && s.expiration_queue
            .first_key_value()
            .is_some_and(|((expires_at, _), _)| expires_at <= now)
    {
        if let Some(((_, approval), _)) = s.expiration_queue.pop_first() {
            if s.approvals.remove(&approval).is_none() {
                log!(P0, "Unable to find the approval for {:?}", approval)
            }
            pruned += 1;
        }
    }
""")]

R["prune-collect"] = [(S, """    let mut pruned = 0;
    for _ in 0..limit {
        match s.expiration_queue.first_key_value() {
            None => break,
            Some((key, _)) if key.0 > now => break,
            Some((key, _value)) => {
                if s.approvals.remove(&key.1).is_none() {
                    log!(P0, "Unable to find the approval for {:?}", key.1,)
                }
                s.expiration_queue.remove(&key);
                pruned += 1;
            }
        }
    }
""", """    let expired: Vec<_> = s
        .expiration_queue
        .iter()
        .take(limit)
        .take_while(|((expires_at, _), _)| *expires_at <= now)
        .map(|(key, _)| key)
        .collect();
    let pruned = expired.len();
    for key in expired {
        if s.approvals.remove(&key.1).is_none() {
            log!(P0, "Unable to find the approval for {:?}", key.1,)
        }
        s.expiration_queue.remove(&key);
    }
""")]

R["prune-tx-for"] = [(S, """    let mut pruned = 0;
    while let Some(((timestamp, block_idx), _)) = s.transaction_timestamps.first_key_value() {
        if pruned >= limit || !is_before_transaction_window(timestamp, now) {
            return;
        }
        s.transaction_timestamps.remove(&(timestamp, block_idx));
        pruned += 1;
""", """    for _ in 0..limit {
        let Some(((timestamp, block_idx), _)) = s.transaction_timestamps.first_key_value() else {
            return;
        };
        if !is_before_transaction_window(timestamp, now) {
            return;
        }
        s.transaction_timestamps.remove(&(timestamp, block_idx));
""")]

R["prune-tx-helper"] = [(S, """        let tx_hash = match block.transaction.hash() {
            Ok(tx_hash) => tx_hash,
            Err(err) => {
                log!(
                    P0,
                    "Cannot calculate hash of transaction for block id: {}. Error: {}",
                    block_idx,
                    err,
                );
                continue;
            }
        };
        match s.transaction_hashes.remove(&tx_hash) {
            None => {""", """        let Ok(tx_hash) = block.transaction.hash() else {
            log!(
                P0,
                "Cannot calculate hash of transaction for block id: {}",
                block_idx
            );
            continue;
        };
        let removed = s.transaction_hashes.remove(&tx_hash);
        match removed {
            None => {""")]

R["get-blocks-iter"] = [(S, """        read_state(|state| {
            for id in start..end_excluded {
                let block = state
                    .blocks
                    .get(id)
                    .unwrap_or_else(|| panic!("Bug: unable to find block at index {}!", id))
                    .0
                    .to_value();
                let block_with_id = BlockWithId {
                    id: Nat::from(id),
                    block,
                };
                blocks.push(block_with_id);
            }
        });
""", """        read_state(|state| {
            blocks.extend((start..end_excluded).map(|id| {
                let block = state
                    .blocks
                    .get(id)
                    .unwrap_or_else(|| panic!("Bug: unable to find block at index {}!", id));
                BlockWithId {
                    id: Nat::from(id),
                    block: block.0.to_value(),
                }
            }));
        });
""")]

R["get-blocks-helper"] = [(S, """        read_state(|state| {
            for id in start..end_excluded {
                let block = state
                    .blocks
                    .get(id)
                    .unwrap_or_else(|| panic!("Bug: unable to find block at index {}!", id))
                    .0
                    .to_value();
                let block_with_id = BlockWithId {
                    id: Nat::from(id),
                    block,
                };
                blocks.push(block_with_id);
            }
        });
""", """        let mut id = start;
        while id < end_excluded {
            blocks.push(block_with_id(id));
            id += 1;
        }
"""), (S, "pub fn get_blocks(args", """fn block_with_id(id: u64) -> BlockWithId {
    let Some(block) = read_state(|state| state.blocks.get(id)) else {
        panic!("Bug: unable to find block at index {}!", id)
    };
    BlockWithId {
        id: id.into(),
        block: block.0.to_value(),
    }
}

pub fn get_blocks(args""")]

R["get-blocks-clamp"] = [(S, """        let start = match start.0.to_u64() {
            Some(start) if start < log_length => start,
            _ => continue,
        };
        // a length beyond u64 asks for everything up to the end of the log
        let length = length.0.to_u64().unwrap_or(u64::MAX);
        let end_excluded = log_length.min(start.saturating_add(remaining_length.min(length)));
""", """        let Some(start) = start.0.to_u64() else {
            continue;
        };
        if start >= log_length {
            continue;
        }
        let length = length.0.to_u64().unwrap_or(u64::MAX);
        let count = length.min(remaining_length).min(log_length - start);
        let end_excluded = start + count;
""")]

R["get-allowances-filter"] = [(S, """            if spender.is_some() && account_spender == start_account_spender {
                continue;
            }
            if result.len() >= max_results as usize {
                break;
            }
            let (from_account, to_spender) = to_account_pair(&account_spender);
            if from_account.owner != from.owner {
                break;
            }
            if expiration > 0 && expiration <= now {
                continue;
            }
            let expires_at = match expiration {
                0 => None,
                _ => Some(expiration),
            };
            result.push(Allowance {""", """            if result.len() as u64 >= max_results || account_spender.0 .0 != from.owner {
                break;
            }
            let expired = expiration != 0 && now >= expiration;
            let previous = spender.is_some() && account_spender == start_account_spender;
            if expired || previous {
                continue;
            }
            let (from_account, to_spender) = to_account_pair(&account_spender);
            let expires_at = (expiration > 0).then_some(expiration);
            result.push(Allowance {""")]

R["get-allowances-iter"] = [(S, """    let mut result = vec![];
    let start_account_spender = match spender {""", """    let start_account_spender = match spender {"""), (S, """    read_state(|state| {
        for (account_spender, (allowance_amount, expiration)) in
            state.approvals.range(start_account_spender..)
        {
            if spender.is_some() && account_spender == start_account_spender {
                continue;
            }
            if result.len() >= max_results as usize {
                break;
            }
            let (from_account, to_spender) = to_account_pair(&account_spender);
            if from_account.owner != from.owner {
                break;
            }
            if expiration > 0 && expiration <= now {
                continue;
            }
            let expires_at = match expiration {
                0 => None,
                _ => Some(expiration),
            };
            result.push(Allowance {
                from_account,
                to_spender,
                allowance: Nat::from(allowance_amount),
                expires_at,
            });
        }
    });
    result
}
""", """    read_state(|state| {
        state
            .approvals
            .range(start_account_spender..)
            .filter(|(key, _)| spender.is_none() || *key != start_account_spender)
            .take_while(|(key, _)| key.0 .0 == from.owner)
            .filter(|(_, (_, expiration))| *expiration == 0 || *expiration > now)
            .take(max_results as usize)
            .map(|(key, (amount, expiration))| {
                let (from_account, to_spender) = to_account_pair(&key);
                Allowance {
                    from_account,
                    to_spender,
                    allowance: Nat::from(amount),
                    expires_at: if expiration == 0 { None } else { Some(expiration) },
                }
            })
            .collect()
    })
}
""")]

R["emit-index-first"] = [(S, """        let hash = b.clone().hash();
        self.cache.phash = Some(hash);
        let tx_hash = b.transaction.hash().unwrap();
        let created_at_time = b.transaction.created_at_time;
        self.blocks
            .append(&Cbor(b))
            .expect("failed to append a block");

        // Change the certified data to point to the new block at the end of the list of blocks
        let block_idx = self.blocks.len() - 1;
        populate_last_block_hash_and_hash_tree(&mut self.cache.hash_tree, block_idx, hash);
        certified_data_set(self.root_hash());

        if let Some(ts) = created_at_time {
            // Add block index to the list of transactions and set the hash as its key
            self.transaction_hashes
                .insert(tx_hash, (self.blocks.len() - 1, None));
            self.transaction_timestamps
                .insert((ts, self.blocks.len() - 1), ());
        }

        hash
""", """        let block_idx = self.blocks.len();
        let hash = b.clone().hash();
        if let Some(ts) = b.transaction.created_at_time {
            let tx_hash = b.transaction.hash().unwrap();
            self.transaction_timestamps.insert((ts, block_idx), ());
            self.transaction_hashes.insert(tx_hash, (block_idx, None));
        }
        self.blocks
            .append(&Cbor(b))
            .expect("failed to append a block");
        self.cache.phash = Some(hash);
        self.certify(block_idx, hash);
        hash
    }

    fn certify(&mut self, block_idx: u64, hash: Hash) {
        let tree = &mut self.cache.hash_tree;
        populate_last_block_hash_and_hash_tree(tree, block_idx, hash);
        let root = self.root_hash();
        certified_data_set(root);
""")]

R["process-tx-use-append-index"] = [(S, """    let _ = mutate_state(|state| state.emit_block(block));
    let block_index = read_state(|state| state.blocks.len() - 1);

    Ok(block_index)
""", """    Ok(mutate_state(|state| {
        let index = state.blocks.len();
        state.emit_block(block);
        index
    }))
""")]

R["credit-helper"] = [(S, """        let account_key = to_account_key(account);
        let old_balance = self.balances.get(&account_key).unwrap_or_default();
        let new_balance = old_balance
            .checked_add(amount)
            .context("Overflow while changing the account balance")?;
        self.cache.total_supply = self
            .total_supply()
            .checked_add(amount)
            .context("Overflow while changing the total supply")?;
        self.balances.insert(account_key, new_balance);
        Ok(new_balance)
""", """        let new_balance = self.check_credit_to_account(account, amount)?;
        let new_supply = self.check_total_supply_increase(amount)?;
        self.balances.insert(to_account_key(account), new_balance);
        self.cache.total_supply = new_supply;
        Ok(new_balance)
""")]

R["debit-match"] = [(S, """        if new_balance == 0 {
            self.balances.remove(&account_key);
        } else {
            self.balances.insert(account_key, new_balance);
        }
        Ok(new_balance)
""", """        match new_balance {
            0 => self.balances.remove(&account_key),
            rest => self.balances.insert(account_key, rest),
        };
        Ok(new_balance)
""")]

R["supply-sum"] = [(S, """        let mut total_supply = 0;
        for (_, balance) in balances.iter() {
            total_supply += balance;
        }
        total_supply
""", """        balances.iter().map(|(_, balance)| balance).sum()
""")]

R["supply-fold"] = [(S, """        let mut total_supply = 0;
        for (_, balance) in balances.iter() {
            total_supply += balance;
        }
        total_supply
""", """        balances
            .iter()
            .fold(0u128, |total, (_, balance)| total + balance)
""")]

R["record-approval-flat"] = [(S, """    match s.approvals.get(&key) {
        None => {
            if amount == 0 {
                log!(P0, "[record_approval]: amount was set to 0");
                return;
            }
            if expires_at > 0 {
                s.expiration_queue.insert((expires_at, key), ());
            }
            s.approvals.insert(key, (amount, expires_at));
        }
        Some((_, current_expiration)) => {
            if amount == 0 {
                if current_expiration > 0 {
                    s.expiration_queue.remove(&(current_expiration, key));
                }
                s.approvals.remove(&key);
                return;
            }
            s.approvals.insert(key, (amount, expires_at));
            if expires_at != current_expiration {
                if current_expiration > 0 {
                    s.expiration_queue.remove(&(current_expiration, key));
                }
                if expires_at > 0 {
                    s.expiration_queue.insert((expires_at, key), ());
                }
            }
        }
    }
""", """    if let Some((_, old)) = s.approvals.remove(&key) {
        if old > 0 {
            s.expiration_queue.remove(&(old, key));
        }
    }
    if amount == 0 {
        return;
    }
    s.approvals.insert(key, (amount, expires_at));
    if expires_at > 0 {
        s.expiration_queue.insert((expires_at, key), ());
    }
""")]

R["check-allowance-match"] = [(S, """    let (current_allowance, current_expiration) = s
        .approvals
        .get(&key)
        .ok_or(InsufficientAllowance { allowance: 0 })?;

    if !(current_expiration == 0 || current_expiration > now) {
        return Err(ExpiredApproval);
    }

    let new_allowance = current_allowance
        .checked_sub(amount)
        .ok_or(InsufficientAllowance {
            allowance: current_allowance,
        })?;

    Ok((new_allowance, current_expiration))
""", """    match s.approvals.get(&key) {
        None => Err(InsufficientAllowance { allowance: 0 }),
        Some((_, expiration)) if expiration > 0 && expiration <= now => Err(ExpiredApproval),
        Some((allowance, _)) if allowance < amount => Err(InsufficientAllowance { allowance }),
        Some((allowance, expiration)) => Ok((allowance - amount, expiration)),
    }
""")]

R["allowance-filter"] = [(S, """    let allowance = read_state(|s| s.approvals.get(&key).unwrap_or_default());
    if allowance.1 > 0 && allowance.1 <= now {
        return (0, 0);
    }
    allowance
""", """    read_state(|s| s.approvals.get(&key))
        .filter(|(_, expires_at)| *expires_at == 0 || *expires_at > now)
        .unwrap_or((0, 0))
""")]

R["window-subtract"] = [(S, """    if created_at_time
        .saturating_add(config::TRANSACTION_WINDOW.as_nanos() as u64)
        .saturating_add(config::PERMITTED_DRIFT.as_nanos() as u64)
        < now
    {
        return Err(CreatedAtTimeValidationError::TooOld);
    }

    if created_at_time > &now.saturating_add(config::PERMITTED_DRIFT.as_nanos() as u64) {
        return Err(CreatedAtTimeValidationError::InTheFuture { ledger_time: now });
    }
    Ok(())
""", """    let latest = now.saturating_add(config::PERMITTED_DRIFT.as_nanos() as u64);
    if is_before_transaction_window(*created_at_time, now) {
        Err(CreatedAtTimeValidationError::TooOld)
    } else if *created_at_time > latest {
        Err(CreatedAtTimeValidationError::InTheFuture { ledger_time: now })
    } else {
        Ok(())
    }
""")]

R["check-duplicate-match"] = [(S, """    if let Some((block_index, maybe_canister)) =
        read_state(|state| state.transaction_hashes.get(&tx_hash))
    {
        return Err(PTErr::Duplicate {
            duplicate_of: block_index,
            canister_id: maybe_canister,
        });
    }

    Ok(())
""", """    match read_state(|state| state.transaction_hashes.get(&tx_hash)) {
        None => Ok(()),
        Some((duplicate_of, canister_id)) => Err(PTErr::Duplicate {
            duplicate_of,
            canister_id,
        }),
    }
""")]

R["call-error-helper"] = [(S, """        ic_cdk::call::Error::InsufficientLiquidCycleBalance(_) => {
            (RejectionCode::SysTransient, err.to_string())
        }
        ic_cdk::call::Error::CallPerformFailed(_) => (RejectionCode::SysTransient, err.to_string()),
""", """        ic_cdk::call::Error::InsufficientLiquidCycleBalance(_)
        | ic_cdk::call::Error::CallPerformFailed(_) => {
            let reason = format!("{err}");
            (RejectionCode::SysTransient, reason)
        }
""")]

R["withdraw-early-ok"] = [(S, """    // 3. if 2. fails then mint cycles
    if let Err(err) = deposit_cycles_result {
        let (rejection_code, rejection_reason) = call_error_to_reject(err);
""", """    // 3. if 2. fails then mint cycles
    let failure = deposit_cycles_result.err().map(call_error_to_reject);
    if let Some((rejection_code, rejection_reason)) = failure {
""")]

R["withdraw-flatten-refund"] = [(S, """        match reimburse(from, amount_to_reimburse, now, PENALIZE_MEMO) {
            Ok(fee_block) => {
                prune(now);
                if let Some(spender) = spender {
                    let approval_still_valid =
                        old_expires_at.map(|expiry| now < expiry).unwrap_or(true);
                    // charge FEE for every block: withdraw attempt, refund, refund approval
                    if spender != from && amount > 2 * config::FEE && approval_still_valid {
                        match reimburse_approval(
                            from,
                            spender,
                            amount_to_reimburse.saturating_sub(config::FEE),
                            old_expires_at,
                            now,
                        ) {
                            Ok(approval_refund_block) => {
                                return Err(FailedToWithdrawFrom {
                                    withdraw_from_block: Some(block_index.into()),
                                    refund_block: Some(Nat::from(fee_block)),
                                    approval_refund_block: Some(approval_refund_block),
                                    rejection_code,
                                    rejection_reason,
                                });
                            }
                            Err(err) => {
                                // this is a critical error that should not
                                // happen because approving should never fail.
                                ic_cdk::trap(format!("Unable to reimburse approval: {:#?}", err));
                            }
                        }
                    }
                }
                return Err(FailedToWithdrawFrom {
                    withdraw_from_block: Some(block_index.into()),
                    refund_block: Some(Nat::from(fee_block)),
                    approval_refund_block: None,
                    rejection_code,
                    rejection_reason,
                });
            }
            Err(err) => {
                // this is a critical error that should not
                // happen because minting should never fail.
                ic_cdk::trap(format!("Unable to reimburse caller: {}", err))
            }
        }
""", """        let refund_block = reimburse(from, amount_to_reimburse, now, PENALIZE_MEMO)
            .unwrap_or_else(|err| ic_cdk::trap(format!("Unable to reimburse caller: {}", err)));
        prune(now);
        let still_valid = match old_expires_at {
            Some(expiry) => expiry > now,
            None => true,
        };
        let restored = match spender {
            Some(spender) if spender != from && still_valid && amount > 2 * config::FEE => {
                let rest = amount_to_reimburse - config::FEE;
                match reimburse_approval(from, spender, rest, old_expires_at, now) {
                    Ok(block) => Some(block),
                    Err(err) => {
                        ic_cdk::trap(format!("Unable to reimburse approval: {:#?}", err))
                    }
                }
            }
            _ => None,
        };
        return Err(FailedToWithdrawFrom {
            withdraw_from_block: Some(block_index.into()),
            refund_block: Some(refund_block.into()),
            approval_refund_block: restored,
            rejection_code,
            rejection_reason,
        });
""")]

R["create-args-helper"] = [(S, """    let argument = argument
        .map(|arg| CmcCreateCanisterArgs {
            settings: arg
                .settings
                .map(|settings| CanisterSettings {
                    controllers: Some(
                        settings
                            .controllers
                            .unwrap_or_else(|| vec![ic_cdk::api::msg_caller()]),
                    ),
                    ..settings
                })
                .or_else(|| {
                    Some(CanisterSettings {
                        controllers: Some(vec![ic_cdk::api::msg_caller()]),
                        ..Default::default()
                    })
                }),
            ..arg
        })
        .unwrap_or_else(|| CmcCreateCanisterArgs {
            settings: Some(CanisterSettings {
                controllers: Some(vec![ic_cdk::api::msg_caller()]),
                ..Default::default()
            }),
            subnet_selection: None,
        });
""", """    let (settings, subnet_selection) = match argument {
        Some(arg) => (arg.settings, arg.subnet_selection),
        None => (None, None),
    };
    let mut settings = settings.unwrap_or_default();
    if settings.controllers.is_none() {
        settings.controllers = Some(vec![ic_cdk::api::msg_caller()]);
    }
    let argument = CmcCreateCanisterArgs {
        settings: Some(settings),
        subnet_selection,
    };
""")]

R["create-flat-map"] = [(S, """    let flat_create_canister_result = match create_canister_result {
        Ok(not_rejected) => match not_rejected {
            Ok(success) => Ok(success),
            Err(err) => match err {
                CmcCreateCanisterError::Refunded {
                    refund_amount,
                    create_error,
                } => Err((RejectionCode::CanisterError, refund_amount, create_error)),
                CmcCreateCanisterError::RefundFailed {
                    create_error,
                    refund_error,
                } => Err((
                    RejectionCode::CanisterError,
                    0,
                    format!("create_error: {create_error}, refund error: {refund_error}"),
                )),
            },
        },
        Err(call_error) => {
            let (rejection_code, rejection_reason) = call_error_to_reject(call_error);
            Err((rejection_code, amount, rejection_reason))
        }
    };
""", """    let flat_create_canister_result = create_canister_result
        .map_err(|call_error| {
            let (code, reason) = call_error_to_reject(call_error);
            (code, amount, reason)
        })
        .and_then(|created| {
            created.map_err(|err| {
                let (returned, reason) = match err {
                    CmcCreateCanisterError::Refunded {
                        refund_amount,
                        create_error,
                    } => (refund_amount, create_error),
                    CmcCreateCanisterError::RefundFailed {
                        create_error,
                        refund_error,
                    } => (
                        0,
                        format!("create_error: {create_error}, refund error: {refund_error}"),
                    ),
                };
                (RejectionCode::CanisterError, returned, reason)
            })
        });
""")]

R["remember-get-mut"] = [(S, """                mutate_state(|state| {
                    if state.transaction_hashes.contains_key(&tx_hash) {
                        state
                            .transaction_hashes
                            .insert(tx_hash, (block_index, Some(canister_id)));
                    }
                });
""", """                mutate_state(|state| {
                    if let Some((block, _)) = state.transaction_hashes.get(&tx_hash) {
                        let entry = (block, Some(canister_id));
                        let _ = state.transaction_hashes.insert(tx_hash, entry);
                    }
                });
""")]

R["reimburse-approval-or"] = [(S, """    let expires_at = if current_expiry > 0 {
        Some(current_expiry)
    } else if current_allowance > 0 {
        // The approval in force does not expire.
        None
    } else {
        old_expires_at
    };
""", """    let expires_at = Some(current_expiry)
        .filter(|expiry| *expiry > 0)
        .or_else(|| if current_allowance == 0 { old_expires_at } else { None });
""")]

R["main-fee-helper"] = [(M, """    let suggested_fee = match fee {
        Some(fee) => match fee.0.to_u128() {
            None => {
                return Err(TransferFromError::BadFee {
                    expected_fee: Nat::from(config::FEE),
                })
            }
            Some(fee) => Some(fee),
        },
        None => None,
    };
""", """    let suggested_fee = fee
        .map(|fee| {
            fee.0.to_u128().ok_or_else(|| TransferFromError::BadFee {
                expected_fee: Nat::from(config::FEE),
            })
        })
        .transpose()?;
""")]

R["main-allowance-then"] = [(M, """    let expires_at = if allowance.1 > 0 {
        Some(allowance.1)
    } else {
        None
    };
""", """    let expires_at = Some(allowance.1).filter(|at| *at != 0);
""")]

R["main-take"] = [(M, """    let max_results = arg
        .take
        .map(|take| take.0.to_u64().unwrap_or(config::MAX_TAKE_ALLOWANCES))
        .map(|take| std::cmp::min(take, config::MAX_TAKE_ALLOWANCES))
        .unwrap_or(config::MAX_TAKE_ALLOWANCES);
""", """    let max_results = match arg.take.and_then(|take| take.0.to_u64()) {
        Some(take) if take < config::MAX_TAKE_ALLOWANCES => take,
        _ => config::MAX_TAKE_ALLOWANCES,
    };
""")]

R["main-init-foreach"] = [(M, """            if let Some(initial_balances) = config.initial_balances.as_ref() {
                for (account, amount) in initial_balances {
                    storage::mint(*account, *amount, None, ic_cdk::api::time())
                        .expect("Failed to mint initial balance");
                }
            }
""", """            let now = ic_cdk::api::time();
            config
                .initial_balances
                .iter()
                .flatten()
                .for_each(|(account, amount)| {
                    if let Err(err) = storage::mint(*account, *amount, None, now) {
                        panic!("Failed to mint initial balance: {err}");
                    }
                });
""")]

R["main-upgrade-one-mutate"] = [(M, """            if let Some(max_blocks_per_request) = upgrade_args.max_blocks_per_request {
                mutate_config(|config| {
                    config.max_blocks_per_request = max_blocks_per_request;
                })
            }
            if let Some(change_index_id) = upgrade_args.change_index_id {
                mutate_config(|config| {
                    config.index_id = change_index_id.into();
                })
            }
""", """            mutate_config(|config| {
                if let Some(limit) = upgrade_args.max_blocks_per_request {
                    config.max_blocks_per_request = limit;
                }
                if let Some(change) = upgrade_args.change_index_id {
                    config.index_id = change.into();
                }
            })
""")]

R["deposit-guard"] = [(S, """    let amount_to_mint = match amount.checked_sub(crate::config::FEE) {
        None => {
            bail!(
                "The requested amount {} to be deposited is \\
                less than the cycles ledger fee: {}",
                amount,
                crate::config::FEE
            )
        }
        Some(0) => {
            bail!(
                "Cannot deposit 0 cycles (amount: {}, cycles ledger fee: {})",
                amount,
                crate::config::FEE
            )
        }
        Some(amount_to_mint) => amount_to_mint,
    };
""", """    anyhow::ensure!(
        amount > crate::config::FEE,
        "Cannot deposit {} cycles with a fee of {}",
        amount,
        crate::config::FEE
    );
    let amount_to_mint = amount - crate::config::FEE;
""")]

R["account-key-destructure"] = [(S, "    (account.owner, *account.effective_subaccount())",
                                 "    let Account { owner, subaccount } = account;\n    (*owner, subaccount.unwrap_or([0u8; 32]))")]

R["self-auth-last"] = [(S, """    principal
        .as_slice()
        .get(CANDID_PRINCIPAL_MAX_LENGTH_IN_BYTES - 1)
        .is_some_and(|b| *b == CANDID_PRINCIPAL_SELF_AUTHENTICATING_TAG)
""", """    let bytes = principal.as_slice();
    bytes.len() == CANDID_PRINCIPAL_MAX_LENGTH_IN_BYTES
        && bytes[CANDID_PRINCIPAL_MAX_LENGTH_IN_BYTES - 1]
            == CANDID_PRINCIPAL_SELF_AUTHENTICATING_TAG
""")]

R["memo-map"] = [("memo.rs", """    if let Some(memo) = memo {
        if memo.0.len() as u64 > MAX_MEMO_LENGTH {
            return Err(format!(
                "memo length exceeds the maximum of {} bytes",
                MAX_MEMO_LENGTH
            ));
        }
    }
    Ok(())
""", """    match memo {
        Some(Memo(bytes)) if bytes.len() > MAX_MEMO_LENGTH as usize => Err(format!(
            "memo length exceeds the maximum of {} bytes",
            MAX_MEMO_LENGTH
        )),
        _ => Ok(()),
    }
""")]

R["approve-reorder-locals"] = [(S, """    // check that the `expected_allowance` matches the current one
    let allowance = allowance(&from, &spender, now).0;
    if expected_allowance.is_some() && expected_allowance != Some(allowance) {
        return Err(ApproveError::AllowanceChanged {
            current_allowance: Nat::from(allowance),
        });
    }
""", """    if let Some(expected) = expected_allowance {
        let (current, _) = allowance(&from, &spender, now);
        if current != expected {
            return Err(ApproveError::AllowanceChanged {
                current_allowance: current.into(),
            });
        }
    }
"""), (S, """    if expires_at.unwrap_or(REMOTE_FUTURE) <= now {
        return Err(ApproveError::Expired { ledger_time: now });
    }
""", """    if let Some(at) = expires_at {
        if at <= now {
            return Err(ApproveError::Expired { ledger_time: now });
        }
    }
""")]

R["lib-errors-from"] = [(L, """        TransferFromError::TooOld => TransferError::TooOld,
        TransferFromError::CreatedInFuture { ledger_time } => {
            TransferError::CreatedInFuture { ledger_time }
        }
        TransferFromError::Duplicate { duplicate_of } => TransferError::Duplicate { duplicate_of },
""", """        TransferFromError::Duplicate { duplicate_of: original } => {
            let duplicate_of = original;
            TransferError::Duplicate { duplicate_of }
        }
        TransferFromError::CreatedInFuture { ledger_time: now } => {
            TransferError::CreatedInFuture { ledger_time: now }
        }
        TransferFromError::TooOld => TransferError::TooOld,
""")]

# the stored and the public form
R['form-acc-iter'] = [
    ('storage.rs',
     '    let mut components = vec![Value::blob(account.owner.as_slice())];\n    if let Some(sub) = account.subaccount {\n        components.push(Value::blob(sub))\n    }\n    Value::Array(components)',
     '    Value::Array(\n        std::iter::once(Value::blob(account.owner.as_slice()))\n            .chain(account.subaccount.map(Value::blob))\n            .collect(),\n    )'),
]
R['form-acc-match'] = [
    ('storage.rs',
     '    let mut components = vec![Value::blob(account.owner.as_slice())];\n    if let Some(sub) = account.subaccount {\n        components.push(Value::blob(sub))\n    }\n    Value::Array(components)',
     '    let owner = Value::blob(account.owner.as_slice());\n    Value::Array(match account.subaccount {\n        Some(sub) => vec![owner, Value::blob(sub)],\n        None => vec![owner],\n    })'),
]
R['form-nat-helper'] = [
    ('storage.rs',
     'fn account_to_value(',
     'fn put_nat<N: Into<candid::Nat>>(map: &mut BTreeMap<String, Value>, key: &str, value: Option<N>) {\n    if let Some(value) = value {\n        map.insert(key.to_owned(), Value::Nat(value.into()));\n    }\n}\n\nfn account_to_value('),
    ('storage.rs',
     '                if let Some(expected_allowance) = expected_allowance {\n                    map.insert(\n                        "expected_allowance".to_string(),\n                        Value::Nat(candid::Nat::from(expected_allowance)),\n                    );\n                }\n                if let Some(expires_at) = expires_at {\n                    map.insert(\n                        "expires_at".to_string(),\n                        Value::Nat(candid::Nat::from(expires_at)),\n                    );\n                }\n                if let Some(fee) = fee {\n                    map.insert("fee".to_string(), Value::Nat(candid::Nat::from(fee)));\n                }\n',
     '                put_nat(&mut map, "expected_allowance", expected_allowance);\n                put_nat(&mut map, "expires_at", expires_at);\n                put_nat(&mut map, "fee", fee);\n'),
]
R['form-compact-slice'] = [
    ('compact_account.rs',
     '        let elems = compact.0;\n        if elems.is_empty() {\n            return Err("account tuple must have at least one element".to_string());\n        }\n        if elems.len() > 2 {\n            return Err(format!(\n                "account tuple must have at most two elements, got {}",\n                elems.len()\n            ));\n        }\n\n        let principal =\n            Principal::try_from(&elems[0][..]).map_err(|e| format!("invalid principal: {}", e))?;\n        let subaccount = if elems.len() > 1 {\n            Some(Subaccount::try_from(&elems[1][..]).map_err(|_| {\n                format!(\n                    "invalid subaccount: expected 32 bytes, got {}",\n                    elems[1].len()\n                )\n            })?)\n        } else {\n            None\n        };\n',
     '        let (owner, sub) = match compact.0.as_slice() {\n            [] => return Err("account tuple must have at least one element".to_string()),\n            [owner] => (owner, None),\n            [owner, sub] => (owner, Some(sub)),\n            elems => {\n                return Err(format!(\n                    "account tuple must have at most two elements, got {}",\n                    elems.len()\n                ))\n            }\n        };\n        let principal =\n            Principal::try_from(owner.as_slice()).map_err(|e| format!("invalid principal: {}", e))?;\n        let subaccount = sub\n            .map(|sub| {\n                Subaccount::try_from(sub.as_slice()).map_err(|_| {\n                    format!("invalid subaccount: expected 32 bytes, got {}", sub.len())\n                })\n            })\n            .transpose()?;\n'),
]
R['form-compact-from'] = [
    ('compact_account.rs',
     '        let mut components = vec![ByteBuf::from(acc.owner.as_slice().to_vec())];\n        if let Some(sub) = acc.subaccount {\n            components.push(ByteBuf::from(sub.to_vec()))\n        }\n        CompactAccount(components)',
     '        let owner = ByteBuf::from(acc.owner.as_slice());\n        match acc.subaccount {\n            None => CompactAccount(vec![owner]),\n            Some(sub) => CompactAccount(vec![owner, ByteBuf::from(sub)]),\n        }'),
]
R['form-flat-once'] = [
    ('storage.rs',
     '        use Operation::*;\n\n        FlattenedTransaction {\n            created_at_time: t.created_at_time,\n            memo: t.memo,\n            op: match &t.operation {\n                Burn { .. } => "burn",\n                Mint { .. } => "mint",\n                Transfer { .. } => "xfer",\n                Approve { .. } => "approve",\n            }\n            .into(),\n            from: match &t.operation {\n                Transfer { from, .. } | Burn { from, .. } | Approve { from, .. } => Some(*from),\n                _ => None,\n            },\n            to: match &t.operation {\n                Mint { to, .. } | Transfer { to, .. } => Some(*to),\n                _ => None,\n            },\n            spender: match &t.operation {\n                Transfer { spender, .. } => spender.to_owned(),\n                Approve { spender, .. } => Some(*spender),\n                Burn { spender, .. } => spender.to_owned(),\n                _ => None,\n            },\n            amount: match &t.operation {\n                Burn { amount, .. }\n                | Mint { amount, .. }\n                | Transfer { amount, .. }\n                | Approve { amount, .. } => *amount,\n            },\n            fee: match &t.operation {\n                Transfer { fee, .. } | Approve { fee, .. } => fee.to_owned(),\n                Mint { fee, .. } => Some(fee.to_owned()),\n                _ => None,\n            },\n            expected_allowance: match &t.operation {\n                Approve {\n                    expected_allowance, ..\n                } => expected_allowance.to_owned(),\n                _ => None,\n            },\n            expires_at: match &t.operation {\n                Approve { expires_at, .. } => expires_at.to_owned(),\n                _ => None,\n            },\n        }\n    }\n}\n\n',
     '        let Transaction {\n            operation,\n            created_at_time,\n            memo,\n        } = t;\n        let mut flat = FlattenedTransaction {\n            created_at_time,\n            memo,\n            op: String::new(),\n            from: None,\n            to: None,\n            spender: None,\n            amount: 0,\n            fee: None,\n            expected_allowance: None,\n            expires_at: None,\n        };\n        match operation {\n            Operation::Burn { from, spender, amount } => {\n                flat.op = "burn".to_string();\n                flat.from = Some(from);\n                flat.spender = spender;\n                flat.amount = amount;\n            }\n            Operation::Mint { to, amount, fee } => {\n                flat.op = "mint".to_string();\n                flat.to = Some(to);\n                flat.amount = amount;\n                flat.fee = Some(fee);\n            }\n            Operation::Transfer { from, to, spender, amount, fee } => {\n                flat.op = "xfer".to_string();\n                flat.from = Some(from);\n                flat.to = Some(to);\n                flat.spender = spender;\n                flat.amount = amount;\n                flat.fee = fee;\n            }\n            Operation::Approve { from, spender, amount, expected_allowance, expires_at, fee } => {\n                flat.op = "approve".to_string();\n                flat.from = Some(from);\n                flat.spender = Some(spender);\n                flat.amount = amount;\n                flat.expected_allowance = expected_allowance;\n                flat.expires_at = expires_at;\n                flat.fee = fee;\n            }\n        }\n        flat\n    }\n}\n\n'),
]
R['form-try-helper'] = [
    ('storage.rs',
     'impl TryFrom<FlattenedTransaction> for Transaction {',
     'fn required<T>(field: Option<T>, name: &str, op: &str) -> Result<T, String> {\n    field.ok_or_else(|| format!("`{}` field required for `{}` operation", name, op))\n}\n\nimpl TryFrom<FlattenedTransaction> for Transaction {'),
    ('storage.rs',
     '                from: value\n                    .from\n                    .ok_or("`from` field required for `burn` operation")?,\n',
     '                from: required(value.from, "from", "burn")?,\n'),
]
R['form-phash-map'] = [
    ('storage.rs',
     '            Some(bb) => match <[u8; 32]>::try_from(bb.as_slice()) {\n                Ok(phash) => Ok(Some(phash)),\n                Err(err) => Err(D::Error::custom(err)),\n            },',
     '            Some(bb) => <[u8; 32]>::try_from(bb.into_vec())\n                .map(Some)\n                .map_err(|_| D::Error::custom("invalid hash")),'),
]
R['form-block-map'] = [
    ('storage.rs',
     '        let mut map = BTreeMap::new();\n        map.insert("tx".to_string(), self.transaction.to_value());\n        map.insert(\n            "ts".to_string(),\n            Value::Nat(candid::Nat::from(self.timestamp)),\n        );\n',
     '        let mut map = BTreeMap::from([\n            ("tx".to_string(), self.transaction.to_value()),\n            ("ts".to_string(), Value::Nat(candid::Nat::from(self.timestamp))),\n        ]);\n'),
]
R['form-cbor-vec'] = [
    ('storage.rs',
     'ciborium::de::from_reader(bytes.as_ref()).unwrap()',
     'ciborium::de::from_reader(&bytes[..]).expect("corrupt")'),
    ('storage.rs',
     '        let mut buf = vec![];\n        ciborium::ser::into_writer(&self.0, &mut buf).unwrap();\n        Cow::Owned(buf)',
     '        let mut buf = Vec::with_capacity(256);\n        ciborium::ser::into_writer(&self.0, &mut buf).expect("Bug: unable to encode");\n        buf.into()'),
]
R['account-key-match'] = [
    ('storage.rs',
     '    (account.owner, *account.effective_subaccount())\n',
     '    let subaccount = match account.subaccount {\n        Some(subaccount) => subaccount,\n        None => [0; 32],\n    };\n    (account.owner, subaccount)\n'),
]
R['account-key-unwrap'] = [
    ('storage.rs',
     '    (account.owner, *account.effective_subaccount())\n',
     '    (account.owner, account.subaccount.unwrap_or_default())\n'),
]

# ------------------------------------------------------------------ helpers shared by several operations
BURN_W = """    let block_index = process_transaction(transaction.clone(), now)?;

    if let Some(spender) = spender {
        if spender != from {
            if let Err(err) =
                mutate_state(|state| use_allowance(state, &from, &spender, amount_with_fee, now))
            {
                let err =
                    anyhow!(err).context(format!("Unable to perform withdraw: {:?}", transaction));
                ic_cdk::trap(format!("{err:#}"));
            };
        }
    }

    if let Err(err) = mutate_state(|state| state.debit(&from, amount_with_fee)) {
        let err = err.context(format!("Unable to perform withdraw: {:?}", transaction));
        ic_cdk::trap(format!("{err:#}"))
    };

    prune(now);
"""
BURN_C = """    let block_index = process_transaction(transaction.clone(), now)?;

    if let Some(spender) = spender {
        if spender != from {
            if let Err(err) =
                mutate_state(|state| use_allowance(state, &from, &spender, amount_with_fee, now))
            {
                let err = anyhow!(err).context(format!(
                    "unable to perform create_canister: {:?}",
                    transaction
                ));
                ic_cdk::trap(format!("{err:#}"));
            }
        }
    }

    if let Err(err) = mutate_state(|state| state.debit(&from, amount_with_fee)) {
        let err = err.context(format!("Unable to perform create_canister {transaction}"));
        ic_cdk::trap(format!("{err:#}"));
    };

    prune(now);
"""
R["burn-helper"] = [
    (S, BURN_W, """    let block_index = burn(&transaction, &from, spender.as_ref(), amount_with_fee, now)?;
"""),
    (S, BURN_C, """    let block_index = burn(&transaction, &from, spender.as_ref(), amount_with_fee, now)?;
"""),
    (S, """pub async fn create_canister(
    from: Account,""", """/// Logs the burn and takes the cycles and the allowance used
fn burn(
    transaction: &Transaction,
    from: &Account,
    spender: Option<&Account>,
    total: u128,
    now: u64,
) -> Result<u64, ProcessTransactionError> {
    let index = process_transaction(transaction.clone(), now)?;
    mutate_state(|state| {
        if let Some(spender) = spender.filter(|s| *s != from) {
            if let Err(err) = use_allowance(state, from, spender, total, now) {
                ic_cdk::trap(format!("Unable to use the allowance for {transaction}: {err}"));
            }
        }
        if let Err(err) = state.debit(from, total) {
            ic_cdk::trap(format!("Unable to burn for {transaction}: {err:#}"));
        }
    });
    prune(now);
    Ok(index)
}

pub async fn create_canister(
    from: Account,""")]

OLD_W = """    let mut old_expires_at = None;
    if let Some(spender) = spender {
        if spender != from {
            let (_, expiry) =
                read_state(|state| check_allowance(state, &from, &spender, amount_with_fee, now))?;
            if expiry > 0 {
                old_expires_at = Some(expiry);
            }
        }
    }

    // check that the `from` account has enough funds
    read_state(|state| state.check_debit_from_account(&from, amount_with_fee)).map_err(
        |balance| InsufficientFunds {"""
OLD_C = OLD_W.replace("|balance|", "|balance: u128|")
OLD_N = """    let old_expires_at = match spender {
        Some(spender) if spender != from => {
            expiry_of_checked_allowance(&from, &spender, amount_with_fee, now)?
        }
        _ => None,
    };

    // check that the `from` account has enough funds
    read_state(|state| state.check_debit_from_account(&from, amount_with_fee)).map_err(
        |balance| InsufficientFunds {"""
R["expiry-helper"] = [(S, OLD_W, OLD_N), (S, OLD_C, OLD_N.replace("|balance|", "|balance: u128|")),
    (S, """fn use_allowance(
    s: &mut State,""", """fn expiry_of_checked_allowance(
    account: &Account,
    spender: &Account,
    amount: u128,
    now: u64,
) -> Result<Option<u64>, UseAllowanceError> {
    read_state(|s| check_allowance(s, account, spender, amount, now))
        .map(|(_, expiry)| (expiry != 0).then_some(expiry))
}

fn use_allowance(
    s: &mut State,""")]

R["is-expired-helper"] = [
    (S, "    if allowance.1 > 0 && allowance.1 <= now {\n        return (0, 0);\n    }\n    allowance\n",
     "    if is_expired(allowance.1, now) {\n        (0, 0)\n    } else {\n        allowance\n    }\n"),
    (S, "    if !(current_expiration == 0 || current_expiration > now) {", "    if is_expired(current_expiration, now) {"),
    (S, "            if expiration > 0 && expiration <= now {", "            if is_expired(expiration, now) {"),
    (S, "fn prune_approvals(now: u64,", """/// 0 means that the approval does not expire
fn is_expired(expiration: u64, now: u64) -> bool {
    match expiration {
        0 => false,
        at => at <= now,
    }
}

fn prune_approvals(now: u64,""")]

R["set-balance-helper"] = [
    (S, """        if new_balance == 0 {
            self.balances.remove(&account_key);
        } else {
            self.balances.insert(account_key, new_balance);
        }
        Ok(new_balance)
    }
""", """        self.set_balance(account_key, new_balance);
        Ok(new_balance)
    }

    /// Accounts without funds are not kept
    fn set_balance(&mut self, key: AccountKey, balance: u128) {
        match balance {
            0 => drop(self.balances.remove(&key)),
            _ => drop(self.balances.insert(key, balance)),
        }
    }
""")]

R["window-wide"] = [(S, """    if created_at_time
        .saturating_add(config::TRANSACTION_WINDOW.as_nanos() as u64)
        .saturating_add(config::PERMITTED_DRIFT.as_nanos() as u64)
        < now
    {
        return Err(CreatedAtTimeValidationError::TooOld);
    }
""", """    let last = u128::from(*created_at_time)
        + config::TRANSACTION_WINDOW.as_nanos()
        + config::PERMITTED_DRIFT.as_nanos();
    if last < u128::from(now) {
        return Err(CreatedAtTimeValidationError::TooOld);
    }
""")]
R["window-shared"] = [(S, """    if created_at_time
        .saturating_add(config::TRANSACTION_WINDOW.as_nanos() as u64)
        .saturating_add(config::PERMITTED_DRIFT.as_nanos() as u64)
        < now
    {
""", """    if is_before_transaction_window(*created_at_time, now) {
""")]
R["requeue-helper"] = [(S, """            s.approvals.insert(key, (amount, expires_at));
            if expires_at != current_expiration {
                if current_expiration > 0 {
                    s.expiration_queue.remove(&(current_expiration, key));
                }
                if expires_at > 0 {
                    s.expiration_queue.insert((expires_at, key), ());
                }
            }
""", """            requeue(s, key, current_expiration, expires_at);
            s.approvals.insert(key, (amount, expires_at));
"""), (S, "fn check_allowance(\n", """fn requeue(s: &mut State, key: ApprovalKey, old: u64, new: u64) {
    if old == new {
        return;
    }
    if old != 0 {
        s.expiration_queue.remove(&(old, key));
    }
    if new != 0 {
        s.expiration_queue.insert((new, key), ());
    }
}

fn check_allowance(
""")]
R["prune-methods"] = [
    (S, "        prune_transactions(now, state, config::TRANSACTION_PRUNE_LIMIT);", "        state.forget_transactions(now);"),
    (S, "    pub fn total_supply(&self) -> u128 {\n", """    fn forget_transactions(&mut self, now: u64) {
        prune_transactions(now, self, config::TRANSACTION_PRUNE_LIMIT)
    }

    pub fn total_supply(&self) -> u128 {
""")]
R["duplicate-map-or"] = [(S, """    if let Some((block_index, maybe_canister)) =
        read_state(|state| state.transaction_hashes.get(&tx_hash))
    {
        return Err(PTErr::Duplicate {
            duplicate_of: block_index,
            canister_id: maybe_canister,
        });
    }

    Ok(())
""", """    read_state(|state| state.transaction_hashes.get(&tx_hash)).map_or(
        Ok(()),
        |(duplicate_of, canister_id)| {
            Err(PTErr::Duplicate {
                duplicate_of,
                canister_id,
            })
        },
    )
""")]
R["fee-helper"] = [(S, """    if suggested_fee.is_some() && suggested_fee != Some(config::FEE) {
        return Err(BadFee {
            expected_fee: Nat::from(config::FEE),
        });
    }
""", """    check_fee(suggested_fee).map_err(|expected_fee| BadFee { expected_fee })?;
"""), (S, """    if suggested_fee.is_some() && suggested_fee != Some(config::FEE) {
        return Err(ApproveError::BadFee {
            expected_fee: Nat::from(config::FEE),
        });
    }
""", """    check_fee(suggested_fee).map_err(|expected_fee| ApproveError::BadFee { expected_fee })?;
"""), (S, "#[derive(Debug)]\nenum ProcessTransactionError {", """fn check_fee(suggested: Option<u128>) -> Result<(), Nat> {
    match suggested {
        Some(fee) if fee != config::FEE => Err(Nat::from(config::FEE)),
        _ => Ok(()),
    }
}

#[derive(Debug)]
enum ProcessTransactionError {""")]
R["remember-helper"] = [(S, """            if let Ok(tx_hash) = transaction.hash() {
                mutate_state(|state| {
                    if state.transaction_hashes.contains_key(&tx_hash) {
                        state
                            .transaction_hashes
                            .insert(tx_hash, (block_index, Some(canister_id)));
                    }
                });
            } else {
                // this should not happen because processing the transaction already checks if it can be hashed
                ic_cdk::trap(format!("Bug: Transaction in block {block_index} was processed correctly but suddenly cannot be hashed anymore."));
            }
""", """            let tx_hash = match transaction.hash() {
                Ok(tx_hash) => tx_hash,
                // this should not happen because processing the transaction already checks if it can be hashed
                Err(_) => ic_cdk::trap(format!("Bug: Transaction in block {block_index} was processed correctly but suddenly cannot be hashed anymore.")),
            };
            mutate_state(|state| state.remember_canister(tx_hash, block_index, canister_id));
"""), (S, "    pub fn total_supply(&self) -> u128 {\n", """    fn remember_canister(&mut self, tx_hash: Hash, block_index: u64, canister_id: Principal) {
        if !self.transaction_hashes.contains_key(&tx_hash) {
            return;
        }
        self.transaction_hashes
            .insert(tx_hash, (block_index, Some(canister_id)));
    }

    pub fn total_supply(&self) -> u128 {
""")]
R["get-blocks-while"] = [(S, """            for id in start..end_excluded {
                let block = state
                    .blocks
                    .get(id)
                    .unwrap_or_else(|| panic!("Bug: unable to find block at index {}!", id))
                    .0
                    .to_value();
                let block_with_id = BlockWithId {
                    id: Nat::from(id),
                    block,
                };
                blocks.push(block_with_id);
            }
""", """            let mut id = start;
            while id < end_excluded {
                let Some(block) = state.blocks.get(id) else {
                    panic!("Bug: unable to find block at index {}!", id)
                };
                blocks.push(BlockWithId {
                    id: id.into(),
                    block: block.0.to_value(),
                });
                id += 1;
            }
""")]
R["state-method-tip"] = [(S, """    let block = Block {
        transaction,
        timestamp: now,
        phash: read_state(|state| state.last_block_hash()),
        effective_fee,
    };

    let _ = mutate_state(|state| state.emit_block(block));
    let block_index = read_state(|state| state.blocks.len() - 1);

    Ok(block_index)
""", """    Ok(mutate_state(|state| {
        let phash = state.last_block_hash();
        state.emit_block(Block {
            transaction,
            timestamp: now,
            phash,
            effective_fee,
        });
        state.blocks.len() - 1
    }))
""")]
R["emit-split"] = [(S, """        if let Some(ts) = created_at_time {
            // Add block index to the list of transactions and set the hash as its key
            self.transaction_hashes
                .insert(tx_hash, (self.blocks.len() - 1, None));
            self.transaction_timestamps
                .insert((ts, self.blocks.len() - 1), ());
        }

        hash
    }
""", """        created_at_time
            .into_iter()
            .for_each(|ts| self.remember(ts, tx_hash, block_idx));

        hash
    }

    fn remember(&mut self, created_at: u64, tx_hash: Hash, block_idx: u64) {
        self.transaction_timestamps
            .insert((created_at, block_idx), ());
        self.transaction_hashes.insert(tx_hash, (block_idx, None));
    }
""")]
R["refund-const"] = [(S, """                    if spender != from && amount > 2 * config::FEE && approval_still_valid {
                        match reimburse_approval(
                            from,
                            spender,
                            amount_to_reimburse.saturating_sub(config::FEE),
""", """                    let allowance_to_reimburse = amount.saturating_sub(2 * config::FEE);
                    if allowance_to_reimburse > 0 && approval_still_valid && spender != from {
                        match reimburse_approval(
                            from,
                            spender,
                            allowance_to_reimburse,
""")]
R["valid-match"] = [(S, """                    let approval_still_valid =
                        old_expires_at.map(|expiry| now < expiry).unwrap_or(true);
                    // charge FEE for every block: withdraw attempt, refund, refund approval
                    if spender != from && amount""", """                    let approval_still_valid = match old_expires_at {
                        Some(expiry) => expiry > now,
                        None => true,
                    };
                    if spender != from && amount""")]
R["main-caller-helper"] = [(M, """async fn withdraw(args: endpoints::WithdrawArgs) -> Result<Nat, WithdrawError> {
    let from = Account {
        owner: ic_cdk::api::msg_caller(),
        subaccount: args.from_subaccount,
    };
""", """async fn withdraw(args: endpoints::WithdrawArgs) -> Result<Nat, WithdrawError> {
    let from = account_of_caller(args.from_subaccount);
"""), (M, """fn icrc2_approve(args: ApproveArgs) -> Result<Nat, ApproveError> {
    let from = Account {
        owner: ic_cdk::api::msg_caller(),
        subaccount: args.from_subaccount,
    };
""", """fn icrc2_approve(args: ApproveArgs) -> Result<Nat, ApproveError> {
    let from = account_of_caller(args.from_subaccount);
"""), (M, "#[query]\nfn icrc1_name() -> String {", """fn account_of_caller(subaccount: Option<[u8; 32]>) -> Account {
    Account {
        owner: ic_cdk::api::msg_caller(),
        subaccount,
    }
}

#[query]
fn icrc1_name() -> String {""")]
R["main-approve-nats"] = [(M, """    let expected_allowance = match args.expected_allowance {
        Some(n) => match n.0.to_u128() {
            None => {
                return Err(ApproveError::AllowanceChanged {
                    current_allowance: Nat::from(storage::allowance(&from, &args.spender, now).0),
                })
            }
            Some(n) => Some(n),
        },
        None => None,
    };
""", """    let expected_allowance = args
        .expected_allowance
        .map(|n| n.0.to_u128().ok_or(()))
        .transpose()
        .map_err(|()| ApproveError::AllowanceChanged {
            current_allowance: storage::allowance(&from, &args.spender, now).0.into(),
        })?;
""")]
R["main-tip-mutate"] = [(M, "    MV::entry(\"icrc1:logo\", config::TOKEN_LOGO),\n    ];\n    if let Some(index_id) = read_config(|config| config.index_id) {\n", "    MV::entry(\"icrc1:logo\", config::TOKEN_LOGO),\n    ];\n    let index_id = read_state(|state| state.config.get().index_id);\n    if let Some(index_id) = index_id {\n")]
R["depositor-match"] = [("../../depositor/src/main.rs", '''    let result: DepositResult = Call::unbounded_wait(ledger_id, "deposit")
        .with_arg(arg)
        .with_cycles(cycles)
        .await
        .expect("Unable to call deposit")
        .candid()
        .expect("Unable to decode deposit result");
    result''', '''    let call = Call::unbounded_wait(ledger_id, "deposit").with_cycles(cycles).with_arg(&arg);
    match call.await {
        Ok(r) => match r.candid::<DepositResult>() { Ok(x) => x, Err(e) => ic_cdk::trap(format!("{e}")) },
        Err(e) => panic!("{e}"),
    }''')]
R["tip-try"] = [(S, """        let certificate = match ic_cdk::api::data_certificate() {
            Some(certificate) => ByteBuf::from(certificate),
            None => return None,
        };
""", """        let certificate = ic_cdk::api::data_certificate().map(ByteBuf::from)?;
""")]
R["deposit-cycles-call"] = [(S, "deposit_cycles(&DepositCyclesArgs { canister_id: to }, amount).await;", """Call::unbounded_wait(Principal::management_canister(), "deposit_cycles")
            .with_arg(DepositCyclesArgs { canister_id: to })
            .with_cycles(amount)
            .await
            .map_err(ic_cdk::call::Error::from)
            .and_then(|r| r.candid::<()>().map_err(ic_cdk::call::Error::from));"""),
    (S, "use ic_cdk::management_canister::{deposit_cycles, CanisterSettings, DepositCyclesArgs};", "use ic_cdk::management_canister::{CanisterSettings, DepositCyclesArgs};")]

# ---- third series: shapes a stranger may choose ----
R["main-amount-helper"] = [(M, """    let Some(amount) = amount.0.to_u128() else {
        return Err(TransferFromError::InsufficientFunds {
            balance: Nat::from(storage::balance_of(&from)),
        });
    };
""", """    let amount = as_cycles(&amount).ok_or_else(|| TransferFromError::InsufficientFunds {
        balance: available(&from),
    })?;
"""), (M, """    let Some(amount) = amount.0.to_u128() else {
        return Err(WithdrawFromError::InsufficientFunds {
            balance: Nat::from(balance_of(&from)),
        });
    };
""", """    let amount = as_cycles(&amount).ok_or_else(|| WithdrawFromError::InsufficientFunds {
        balance: available(&from),
    })?;
"""), (M, """    let Some(amount) = amount.0.to_u128() else {
        return Err(endpoints::CreateCanisterFromError::InsufficientFunds {
            balance: Nat::from(balance_of(&from)),
        });
    };
""", """    let amount = as_cycles(&amount).ok_or_else(|| endpoints::CreateCanisterFromError::InsufficientFunds {
        balance: available(&from),
    })?;
"""), (M, "#[query]\nfn icrc1_name() -> String {", """fn as_cycles(amount: &Nat) -> Option<u128> {
    u128::try_from(&amount.0).ok()
}

fn available(account: &Account) -> Nat {
    balance_of(account).into()
}

#[query]
fn icrc1_name() -> String {""")]
R["main-metadata-once"] = [(M, """    use MetadataValue as MV;

    let mut metadata = vec![""", """    use MetadataValue as MV;

    let (max_blocks, index_id) = read_config(|config| (config.max_blocks_per_request, config.index_id));
    let mut metadata = vec!["""), (M, """        MV::entry(
            "dfn:max_blocks_per_request",
            read_config(|config| config.max_blocks_per_request),
        ),
""", """        MV::entry("dfn:max_blocks_per_request", max_blocks),
"""), (M, """    if let Some(index_id) = read_config(|config| config.index_id) {
        metadata.push""", """    if let Some(index_id) = index_id {
        metadata.push""")]
R["main-allowances-match"] = [(M, """    let max_results = arg
        .take
        .map(|take| take.0.to_u64().unwrap_or(config::MAX_TAKE_ALLOWANCES))
        .map(|take| std::cmp::min(take, config::MAX_TAKE_ALLOWANCES))
        .unwrap_or(config::MAX_TAKE_ALLOWANCES);
""", """    let max_results = match arg.take.and_then(|take| take.0.to_u64()) {
        Some(take) if take < config::MAX_TAKE_ALLOWANCES => take,
        _ => config::MAX_TAKE_ALLOWANCES,
    };
""")]
R["main-finish"] = [(M, """        suggested_fee,
    )?;

    prune(now);

    Ok(block_index)
}
""", """        suggested_fee,
    )?;
    Ok(finish(block_index, now))
}

fn finish(block_index: Nat, now: u64) -> Nat {
    prune(now);
    block_index
}
"""), (M, """        args.expires_at,
    )?;

    prune(now);

    Ok(block_index)
}
""", """        args.expires_at,
    )
    .map(|block_index| finish(block_index, now))
}
""".replace("    )\n    .map(|block_index| finish(block_index, now))\n}", "    )?;\n    Ok(finish(block_index, now))\n}"))]
R["main-init-now"] = [(M, """            if let Some(initial_balances) = config.initial_balances.as_ref() {
                for (account, amount) in initial_balances {
                    storage::mint(*account, *amount, None, ic_cdk::api::time())
                        .expect("Failed to mint initial balance");
                }
            }
""", """            let now = ic_cdk::api::time();
            for &(account, amount) in config.initial_balances.iter().flatten() {
                if let Err(err) = storage::mint(account, amount, None, now) {
                    ic_cdk::trap(format!("Failed to mint initial balance: {err:#}"));
                }
            }
""")]
R["main-upgrade-early"] = [(M, """    match ledger_args {
        Some(LedgerArgs::Upgrade(Some(upgrade_args))) => {
            if let Some(max""", """    let upgrade_args = match ledger_args {
        None => return,
        Some(LedgerArgs::Init(_)) => ic_cdk::trap("Cannot upgrade the canister with an Init argument. Please provide an Upgrade argument."),
        Some(LedgerArgs::Upgrade(upgrade_args)) => upgrade_args,
    };
    match upgrade_args {
        Some(upgrade_args) => {
            if let Some(max"""), (M, """        None | Some(LedgerArgs::Upgrade(None)) => {},
        _ =>
            ic_cdk::trap("Cannot upgrade the canister with an Init argument. Please provide an Upgrade argument."),
    }
""", """        None => {}
    }
""")]
R["use-allowance-match"] = [(S, """    if new_amount == 0 {
        if expiration > 0 {
            s.expiration_queue.remove(&(expiration, key));
        }
        s.approvals.remove(&key);
    } else {
        s.approvals.insert(key, (new_amount, expiration));
    }

    Ok(())
""", """    match (new_amount, expiration) {
        (0, 0) => {
            s.approvals.remove(&key);
        }
        (0, _) => {
            s.approvals.remove(&key);
            s.expiration_queue.remove(&(expiration, key));
        }
        (left, until) => {
            s.approvals.insert(key, (left, until));
        }
    }
    Ok(())
""")]
R["deposit-if"] = [(S, """    let amount_to_mint = match amount.checked_sub(crate::config::FEE) {
        None => {
            bail!(
                "The requested amount {} to be deposited is \\
                less than the cycles ledger fee: {}",
                amount,
                crate::config::FEE
            )
        }
        Some(0) => {
            bail!(
                "Cannot deposit 0 cycles (amount: {}, cycles ledger fee: {})",
                amount,
                crate::config::FEE
            )
        }
        Some(amount_to_mint) => amount_to_mint,
    };
""", """    anyhow::ensure!(amount >= config::FEE, "The requested amount {amount} to be deposited is less than the cycles ledger fee: {}", config::FEE);
    let amount_to_mint = amount - config::FEE;
    if amount_to_mint.is_zero() {
        bail!("Cannot deposit 0 cycles (amount: {amount}, cycles ledger fee: {})", config::FEE);
    }
""")]
R["withdraw-on-behalf"] = [(S, """            if expiry > 0 {
                old_expires_at = Some(expiry);
            }
        }
    }

    // check that the `from` account has enough funds
    read_state(|state| state.check_debit_from_account(&from, amount_with_fee)).map_err(
        |balance| InsufficientFunds {""", """            old_expires_at = (expiry != 0).then_some(expiry);
        }
    }

    // check that the `from` account has enough funds
    read_state(|state| state.check_debit_from_account(&from, amount_with_fee)).map_err(
        |balance| InsufficientFunds {"""), (S, """                    let approval_still_valid =
                        old_expires_at.map(|expiry| now < expiry).unwrap_or(true);
                    // charge FEE for every block: withdraw attempt, refund, refund approval
                    if spender != from && amount > 2 * config::FEE && approval_still_valid {""", """                    let expired = matches!(old_expires_at, Some(expiry) if expiry <= now);
                    let worth_it = amount_to_reimburse > config::FEE;
                    if !expired && worth_it && from != spender {""")]
R["create-flat-helper"] = [(S, """    let flat_create_canister_result = match create_canister_result {
        Ok(not_rejected) => match not_rejected {
            Ok(success) => Ok(success),
            Err(err) => match err {
                CmcCreateCanisterError::Refunded {
                    refund_amount,
                    create_error,
                } => Err((RejectionCode::CanisterError, refund_amount, create_error)),
                CmcCreateCanisterError::RefundFailed {
                    create_error,
                    refund_error,
                } => Err((
                    RejectionCode::CanisterError,
                    0,
                    format!("create_error: {create_error}, refund error: {refund_error}"),
                )),
            },
        },
        Err(call_error) => {
            let (rejection_code, rejection_reason) = call_error_to_reject(call_error);
            Err((rejection_code, amount, rejection_reason))
        }
    };
""", """    let flat_create_canister_result = flatten_creation(create_canister_result, amount);
"""), (S, """// Reimburse an account with a given amount
""", """fn flatten_creation(
    result: Result<Result<Principal, CmcCreateCanisterError>, ic_cdk::call::Error>,
    sent: u128,
) -> Result<Principal, (RejectionCode, u128, String)> {
    let answer = result.map_err(|e| {
        let (code, reason) = call_error_to_reject(e);
        (code, sent, reason)
    })?;
    answer.map_err(|e| {
        let (back, reason) = match e {
            CmcCreateCanisterError::Refunded { refund_amount, create_error } => (refund_amount, create_error),
            CmcCreateCanisterError::RefundFailed { create_error, refund_error } => {
                (0, format!("create_error: {create_error}, refund error: {refund_error}"))
            }
        };
        (RejectionCode::CanisterError, back, reason)
    })
}

// Reimburse an account with a given amount
""")]
R["emit-append-index"] = [(S, """        self.blocks
            .append(&Cbor(b))
            .expect("failed to append a block");

        // Change the certified data to point to the new block at the end of the list of blocks
        let block_idx = self.blocks.len() - 1;
""", """        let block_idx = self.blocks
            .append(&Cbor(b))
            .unwrap_or_else(|e| panic!("failed to append a block: {e:?}"));

"""), (S, """            self.transaction_hashes
                .insert(tx_hash, (self.blocks.len() - 1, None));
            self.transaction_timestamps
                .insert((ts, self.blocks.len() - 1), ());
""", """            self.transaction_timestamps.insert((ts, block_idx), ());
            self.transaction_hashes.insert(tx_hash, (block_idx, None));
""")]
R["tip-let-else"] = [(S, """        let mut hash_tree = RbTree::new();
        let n = blocks.len();
        if n == 0 {
            return (None, hash_tree);
        }
        let last_block_hash = blocks.get(n - 1).unwrap().to_owned().hash();
        populate_last_block_hash_and_hash_tree(&mut hash_tree, n - 1, last_block_hash);
        (Some(last_block_hash), hash_tree)
""", """        let mut hash_tree = RbTree::new();
        let last = blocks.len().checked_sub(1);
        let phash = last.and_then(|i| blocks.get(i)).map(|b| b.0.hash());
        if let (Some(i), Some(h)) = (last, phash) {
            populate_last_block_hash_and_hash_tree(&mut hash_tree, i, h);
        }
        (phash, hash_tree)
""")]
R["value-nat-helper"] = [(S, """            Operation::Mint { to, amount, fee } => {
                map.insert("op".to_string(), Value::text("mint"));
                map.insert("to".to_string(), account_to_value(to));
                map.insert("amt".to_string(), Value::Nat(candid::Nat::from(amount)));
                map.insert("fee".to_string(), Value::Nat(candid::Nat::from(fee)));
            }""", """            Operation::Mint { to, amount, fee } => {
                let mut put = |k: &str, v: Value| {
                    map.insert(k.to_owned(), v);
                };
                put("fee", nat_value(fee));
                put("amt", nat_value(amount));
                put("to", account_to_value(to));
                put("op", Value::text("mint"));
            }"""), (S, """fn account_to_value(account: Account) -> Value {
    let mut components = vec![Value::blob(account.owner.as_slice())];
    if let Some(sub) = account.subaccount {
        components.push(Value::blob(sub))
    }
    Value::Array(components)
}
""", """fn nat_value(n: u128) -> Value {
    Value::Nat(n.into())
}

fn account_to_value(account: Account) -> Value {
    let owner = Value::blob(account.owner.as_slice());
    match account.subaccount {
        None => Value::Array(vec![owner]),
        Some(sub) => Value::Array(vec![owner, Value::blob(sub)]),
    }
}
""")]
R["memo-match"] = [("memo.rs", """    if let Some(memo) = memo {
        if memo.0.len() as u64 > MAX_MEMO_LENGTH {
            return Err(format!(
                "memo length exceeds the maximum of {} bytes",
                MAX_MEMO_LENGTH
            ));
        }
    }
    Ok(())
""", """    match memo {
        Some(m) if u64::try_from(m.0.len()).unwrap_or(u64::MAX) > MAX_MEMO_LENGTH => {
            Err(format!("memo length exceeds the maximum of {MAX_MEMO_LENGTH} bytes"))
        }
        _ => Ok(()),
    }
""")]
R["consts"] = [("config.rs", "pub const FEE: u128 = 100_000_000;", "const MILLION: u128 = 1_000_000;\npub const FEE: u128 = 100 * MILLION;"),
               ("config.rs", "Duration::from_secs(24 * 60 * 60)", "Duration::from_millis(24 * 60 * 60 * 1000)")]
R["window-const"] = [(S, """    if created_at_time
        .saturating_add(config::TRANSACTION_WINDOW.as_nanos() as u64)
        .saturating_add(config::PERMITTED_DRIFT.as_nanos() as u64)
        < now
    {
        return Err(CreatedAtTimeValidationError::TooOld);
    }

    if created_at_time > &now.saturating_add(config::PERMITTED_DRIFT.as_nanos() as u64) {
""", """    const LIFETIME: u64 = (config::TRANSACTION_WINDOW.as_nanos() + config::PERMITTED_DRIFT.as_nanos()) as u64;
    let drift = config::PERMITTED_DRIFT.as_nanos() as u64;
    if now > created_at_time.saturating_add(LIFETIME) {
        return Err(CreatedAtTimeValidationError::TooOld);
    }

    if now.saturating_add(drift) < *created_at_time {
""")]
R["cache-order"] = [(S, """    // The hash of the last block.
    pub phash: Option<Hash>,
    // The total supply of cycles.
    pub total_supply: u128,
""", """    pub total_supply: u128,
    pub phash: Option<Hash>,
""")]
R["prune-two-locks"] = [(S, """    mutate_state(|state| {
        prune_approvals(now, state, config::APPROVE_PRUNE_LIMIT);
        prune_transactions(now, state, config::TRANSACTION_PRUNE_LIMIT);
    });
    read_state(check_invariants);
""", """    mutate_state(|state| prune_transactions(now, state, config::TRANSACTION_PRUNE_LIMIT));
    mutate_state(|state| {
        prune_approvals(now, state, config::APPROVE_PRUNE_LIMIT);
        check_invariants(state);
    });
""")]
R["prune-loop-break"] = [(S, """    let mut pruned = 0;
    for _ in 0..limit {
        match s.expiration_queue.first_key_value() {
            None => break,
            Some((key, _)) if key.0 > now => break,
            Some((key, _value)) => {
                if s.approvals.remove(&key.1).is_none() {
                    log!(P0, "Unable to find the approval for {:?}", key.1,)
                }
                s.expiration_queue.remove(&key);
                pruned += 1;
            }
        }
    }
""", """    let mut pruned = 0;
    loop {
        if pruned == limit {
            break;
        }
        let Some(((expiry, approval), ())) = s.expiration_queue.first_key_value() else {
            break;
        };
        if now < expiry {
            break;
        }
        s.expiration_queue.remove(&(expiry, approval));
        let found = s.approvals.remove(&approval);
        if found.is_none() {
            log!(P0, "Unable to find the approval for {:?}", approval)
        }
        pruned += 1;
    }
""")]
R["prune-tx-break"] = [(S, """        if pruned >= limit || !is_before_transaction_window(timestamp, now) {
            return;
        }
        s.transaction_timestamps.remove(&(timestamp, block_idx));
        pruned += 1;

        let Some(block) = s.blocks.get(block_idx) else {
            log!(
                P0,
                "Cannot find block with id: {}. The block id was associated \\
                with the timestamp: {} and was selected for pruning from \\
                the timestamp and hashes pools",
                block_idx,
                timestamp
            );
            continue;
        };
        let tx_hash = match block.transaction.hash() {
            Ok(tx_hash) => tx_hash,
            Err(err) => {
                log!(
                    P0,
                    "Cannot calculate hash of transaction for block id: {}. Error: {}",
                    block_idx,
                    err,
                );
                continue;
            }
        };
""", """        if !(pruned < limit && is_before_transaction_window(timestamp, now)) {
            break;
        }
        pruned += 1;
        let hash = s.blocks.get(block_idx).map(|block| block.transaction.hash());
        s.transaction_timestamps.remove(&(timestamp, block_idx));
        let tx_hash = match hash {
            Some(Ok(tx_hash)) => tx_hash,
            Some(Err(err)) => {
                log!(P0, "Cannot calculate hash of transaction for block id: {}. Error: {}", block_idx, err);
                continue;
            }
            None => {
                log!(P0, "Cannot find block with id: {block_idx}, timestamp: {timestamp}");
                continue;
            }
        };
""")]
R["pay-helper"] = [(S, """    if let Some(spender) = spender {
        if spender != from {
            if let Err(err) =
                mutate_state(|state| use_allowance(state, &from, &spender, amount_with_fee, now))
            {
                ic_cdk::trap(format!("Unable to perform transfer {transaction}: {err}"));
            }
        }
    }

    if let Err(err) = mutate_state(|state| state.debit(&from, amount_with_fee)) {
        let err = err.context(format!("Unable to perform transfer {transaction}"));
        ic_cdk::trap(format!("{err:#}"));
    };
""", """    pay(from, spender, amount_with_fee, now, &transaction);
"""), (S, """    if let Some(spender) = spender {
        if spender != from {
            if let Err(err) =
                mutate_state(|state| use_allowance(state, &from, &spender, amount_with_fee, now))
            {
                let err =
                    anyhow!(err).context(format!("Unable to perform withdraw: {:?}", transaction));
                ic_cdk::trap(format!("{err:#}"));
            };
        }
    }

    if let Err(err) = mutate_state(|state| state.debit(&from, amount_with_fee)) {
        let err = err.context(format!("Unable to perform withdraw: {:?}", transaction));
        ic_cdk::trap(format!("{err:#}"))
    };
""", """    pay(from, spender, amount_with_fee, now, &transaction);
"""), (S, """#[allow(clippy::too_many_arguments)]
pub fn transfer(""", """/// Takes `cost` from the payer, and from the allowance of whoever pays on their behalf.
fn pay(payer: Account, spender: Option<Account>, cost: u128, now: u64, what: &Transaction) {
    let done: anyhow::Result<u128> = mutate_state(|state| {
        match spender {
            Some(spender) if spender != payer => {
                use_allowance(state, &payer, &spender, cost, now).map_err(|e| anyhow!(e))?
            }
            _ => (),
        }
        state.debit(&payer, cost)
    });
    if let Err(err) = done {
        ic_cdk::trap(format!("Unable to perform {what}: {err:#}"));
    }
}

#[allow(clippy::too_many_arguments)]
pub fn transfer(""")]
R["approve-balance-check"] = [(S, """    let balance = balance_of(&from);
    if balance < config::FEE {
        return Err(ApproveError::InsufficientFunds {
            balance: Nat::from(balance),
        });
    }

    // check that the expiration is in the future
    if expires_at.unwrap_or(REMOTE_FUTURE) <= now {
        return Err(ApproveError::Expired { ledger_time: now });
    }
""", """    read_state(|state| state.check_debit_from_account(&from, config::FEE))
        .map_err(|balance| ApproveError::InsufficientFunds { balance: balance.into() })?;

    // check that the expiration is in the future
    match expires_at {
        Some(until) if now >= until => return Err(ApproveError::Expired { ledger_time: now }),
        Some(u64::MAX) | None if now == u64::MAX => return Err(ApproveError::Expired { ledger_time: now }),
        _ => {}
    }
""")]
R["reimburse-inline-credit"] = [(S, """    let block_index = process_transaction(transaction.clone(), now)?;

    if let Err(err) = mutate_state(|state| state.credit(&acc, amount)) {
        let err = err.context(format!("Unable to reimburse withdraw: {transaction:?}"));
        ic_cdk::trap(format!("{err:#}"))
    };

    prune(now);

    Ok(block_index)
""", """    let what = format!("{transaction:?}");
    process_transaction(transaction, now).inspect(|_| {
        mutate_state(|state| state.credit(&acc, amount))
            .unwrap_or_else(|err| panic!("Unable to reimburse withdraw: {what}: {err:#}"));
        prune(now);
    })
""")]
