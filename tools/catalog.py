"""Writes properties.jsonl and MANIFEST.json. Run: python3 tools/catalog.py"""
import json, os, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/sa")
S, M, E, L, CF, CA = ["cycles-ledger/src/" + f for f in ("storage.rs", "main.rs", "endpoints.rs", "lib.rs", "config.rs", "compact_account.rs")]

ALL = []


def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    ALL.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
                "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                            "mechanism": [dict(zip(("name", "where"), m)) for m in mech], "observe_at": list(observe), "hook_needed": None}})


BAL = ("balances", "cycles held per account", S + " State.balances")
APP = ("approvals", "allowance and expiry per (account, spender)", S + " State.approvals")
QUE = ("expiration_queue", "approvals ordered by expiry", S + " State.expiration_queue")
LOG = ("blocks", "append-only block log", S + " State.blocks")
HSH = ("transaction_hashes / transaction_timestamps", "what has been executed recently", S + " State")
SUP = ("total supply cache", "sum of balances", S + " Cache.total_supply")

P("C01", "Reported total supply always equals the sum of all balances",
  "After every message, successful or not, and across upgrades, the total supply the ledger reports equals the sum of the balances of all accounts. "
  "No operation changes one without changing the other by the same amount.",
  ["inputs", "histories", "schedules"], "every sequence of requests with any arguments, every interleaving of other messages while an outbound call is in flight, success and failure alike",
  "the tests compare the two after a handful of concrete calls; nothing covers each error path, refund path and self-transfer for every amount",
  [S], [("credit and debit adjust the cached supply with the balance", S + " State::credit, State::debit"), ("supply recomputed on start", S + " STATE initialiser")],
  [BAL, SUP], ["icrc1_total_supply", "icrc1_balance_of"])
P("C02", "Every balance change is exactly what the appended blocks record",
  "In every message the balance of every account changes by exactly what the blocks appended by that message say: a mint adds its amount, a burn or transfer removes amount plus fee, a transfer adds its amount to the recipient, an approval removes the fee. "
  "A balance never changes without a block, and no block is appended whose effect is not applied, so replaying the log from the first block yields the current balances.",
  ["inputs", "histories", "schedules"], "every request with any arguments in any reachable ledger state, including the messages that resume after an outbound call",
  "tests replay a few logs produced by sampled operations; agreement must hold for every amount, account coincidence and error path",
  [S, M], [("a block is emitted with each credit/debit", S + " process_transaction, mint, transfer, approve, withdraw, create_canister, reimburse")],
  [BAL, LOG], ["icrc3_get_blocks", "icrc1_balance_of"])
P("C03", "Blocks form one append-only hash chain, certified up to the tip",
  "Blocks are only ever appended; each new block carries the hash of the block before it (none for the first). "
  "After every message that appended blocks the certified data of the canister is the root of a hash tree holding exactly the index and the hash of the last block, "
  "and the tip certificate handed out is the platform's certificate together with a witness for both from that tree.",
  ["inputs", "histories", "schedules", "crash_points"], "every message, every number of blocks appended by one message, any history before it",
  "tests check the chain of a few blocks; a path that appends without updating the tip or certificate only shows when that path is the last one taken",
  [S], [("emit_block computes phash, appends, updates tip, tree and certified data", S + " State::emit_block")],
  [LOG, ("tip cache and hash tree", "hash of the last block and its certificate", S + " Cache")], ["icrc3_get_blocks", "icrc3_get_tip_certificate"])
P("C04", "A refused request leaves no trace",
  "A request that is answered with an error before any outbound call was made changes no balance, no allowance, no deduplication record and appends no block; the supply stays as it was. "
  "The only exceptions ever allowed are removals of entries that have already expired.",
  ["inputs", "histories"], "every request and every error it can be answered with",
  "errors are sampled in tests, and mostly only the reply is asserted; a check moved after a state change needs the one input that passes the earlier checks and fails the later",
  [S, M], [("all checks precede the first state change; later failures trap", S + " transfer, approve, withdraw, create_canister")], [BAL, APP, LOG, HSH],
  ["all update calls"])
P("C05", "No account can be overdrawn; insufficient funds name the true balance",
  "An account is debited only if it holds at least the amount plus the fee at that moment, with no combination of amount and fee (including overflowing ones) slipping through. "
  "A request is refused with InsufficientFunds only if the paying account really cannot cover amount plus fee, and the balance reported in the refusal is that account's current balance.",
  ["inputs", "histories", "schedules"], "all amounts up to and beyond 2^128, all balances, all endpoints that debit",
  "tests try a few amounts around a few balances; the boundary and overflow cases of each endpoint are not enumerated",
  [S, M], [("check_debit_from_account, debit", S), ("amount.checked_add(FEE)", S)], [BAL], ["icrc1_transfer", "icrc2_transfer_from", "icrc2_approve", "withdraw", "withdraw_from", "create_canister", "create_canister_from"])
P("C06", "Spending for someone else consumes a sufficient, unexpired allowance",
  "Funds of an account are moved or burned at the request of another account only if that account holds an unexpired allowance of at least amount plus fee for exactly that pair of accounts, and the allowance then drops by exactly amount plus fee, keeping its expiry, in the same message. "
  "No other allowance changes, and an account acting for itself needs and consumes no allowance.",
  ["inputs", "histories", "schedules"], "every caller, pair of accounts, subaccount coincidence, amount, expiry and time",
  "a few allowances and amounts are sampled; the pair/subaccount coincidences and exact boundaries are not",
  [S, M], [("check_allowance, use_allowance", S)], [APP], ["icrc2_transfer_from", "withdraw_from", "create_canister_from", "icrc2_allowance"])
P("C07", "An approval expires everywhere at the same instant",
  "From the instant its expiry is reached an approval is dead on every interface at once: it can no longer be spent, it reads as zero, it is not listed, it does not satisfy an expected allowance and an approval that expires now or earlier is refused. Before that instant it is usable and visible on all of them.",
  ["inputs", "histories"], "every expiry and every ledger time, in particular expiry equal to the current time, whether or not housekeeping has removed the entry",
  "tests advance the clock by coarse steps and cannot hit expiry == now on each of the interfaces with housekeeping backlog",
  [S, M], [("comparisons of expiry against now", S + " allowance, check_allowance, approve, get_allowances, prune_approvals")], [APP, QUE],
  ["icrc2_allowance", "icrc103_get_allowances", "icrc2_approve", "icrc2_transfer_from"])
P("C08", "The expiry queue mirrors the approvals exactly",
  "At the end of every message there is exactly one expiry-queue entry for each approval that has an expiry, filed under that approval's current expiry, and none for anything else. "
  "Hence every expiring approval is eventually cleaned up and a live approval is never removed by a stale entry.",
  ["inputs", "histories"], "every sequence of approving, re-approving with other expiries, spending down, refunding and pruning",
  "a proptest samples random operation sequences on the happy path only; a missed update needs one transition between expiry kinds",
  [S], [("record_approval, use_allowance, prune_approvals keep both in step", S)], [APP, QUE], ["icrc2_allowance after expiry"])
P("C09", "Approve sets exactly the requested allowance, and only when it may",
  "A successful approval leaves exactly the requested amount and expiry in force for exactly that account and spender (an amount of zero leaves none) and changes no other allowance; an amount beyond the representable range counts as the largest one. "
  "If an expected allowance is given it must equal the allowance in force, otherwise the request is refused reporting the one in force; approving oneself is refused.",
  ["inputs", "histories"], "all amounts, expected allowances, expiries, existing approvals and times",
  "tests cover a few combinations of existing and new approval", [S, M], [("approve, record_approval", S), ("icrc2_approve", M)], [APP], ["icrc2_approve", "icrc2_allowance"])
P("C10", "An executed transaction cannot be executed again while it is remembered",
  "Whenever a transaction that names a creation time is executed, the ledger remembers it under a hash covering all of its fields, together with the index of its block, in the same message. "
  "While it is remembered, an identical request through any endpoint is refused as a duplicate of exactly that block (for canister creation with the canister that was created) and has no effect; a transaction without creation time is never treated as a duplicate.",
  ["inputs", "histories", "schedules"], "all transactions, all endpoints, retries at any point, including while the first execution waits for an outbound call",
  "tests resubmit a few transactions; which fields take part and what happens between call and reply is not covered",
  [S], [("check_duplicate, emit_block, create_canister success path", S)], [HSH], ["all update calls with created_at_time"])
P("C11", "Duplicates are remembered as long as they would be accepted",
  "A transaction is accepted only if its creation time is neither before the transaction window (24 hours plus drift) nor more than the drift in the future, and a remembered transaction is forgotten only once its creation time is so old that the ledger would refuse it. "
  "Hence there is no moment at which a replay would be accepted.",
  ["inputs", "histories"], "all creation times and ledger times including the exact boundaries and values near 2^64",
  "boundary times are sampled; forgetting and accepting are decided in different places that must agree for every time",
  [S, CF], [("validate_created_at_time, prune_transactions", S)], [HSH], ["all update calls with created_at_time"])
P("C12", "A failed withdrawal or canister creation refunds the payer",
  "If the outbound call of a withdrawal or canister creation fails, the payer is credited, in the same message that learns of the failure, exactly the amount not spent (for canister creation: what came back) minus one fee, or nothing if that does not exceed the fee; if another account spent on an allowance and more than the cost of two fees came back, the allowance then in force is raised by the refund minus one further fee, unless the approval used has expired meanwhile, and keeps its expiry. "
  "If the call succeeds nothing is refunded. The reply names the blocks in which this was recorded.",
  ["inputs", "schedules", "fault_sequences"], "every way the call can fail, every amount, every change other messages make to balances and allowances while the call is in flight",
  "the test environment makes calls fail in one or two ways with round amounts and nothing else going on",
  [S], [("failure branches of withdraw and create_canister, reimburse, reimburse_approval", S)], [BAL, APP, LOG], ["withdraw", "withdraw_from", "create_canister", "create_canister_from"])
P("C13", "Cycles leave the ledger only after they were burned, and in that amount",
  "Whenever the ledger sends cycles out, the same message has already burned exactly that amount plus the fee from the paying account and recorded it; it sends them once, to the canister the caller named (or to the canister-creation service), and never sends cycles in any other situation.",
  ["inputs", "schedules", "fault_sequences"], "every request, payer and amount; every interleaving at the outbound call",
  "tests observe totals after successful calls only", [S], [("order of burn and call", S + " withdraw, create_canister")], [BAL, LOG], ["deposit_cycles and create_canister calls made by the ledger"])
P("C14", "Blocks record what was requested, when it was executed",
  "Each block a request appends records the accounts, spender, amount, fee, memo, creation time, expected allowance and expiry exactly as requested, under the operation kind of the endpoint that was called, and its timestamp is the time of the message that appended it. "
  "The block index in the reply is the index of that block.",
  ["inputs", "schedules"], "all arguments and all endpoints, including blocks appended after an outbound call returned",
  "tests compare a few blocks, never with every optional field set to every kind of value",
  [S, M], [("construction of the transaction in each operation, process_transaction", S)], [LOG], ["icrc3_get_blocks"])
P("C15", "A created canister is configured as asked, caller-controlled by default",
  "The canister-creation service receives the subnet selection and every setting exactly as the caller gave them. Only if the caller named no controllers does the ledger fill in the caller itself as the single controller.",
  ["inputs"], "all combinations of present and absent creation arguments, settings and controllers, for both creation endpoints",
  "two combinations are tested", [S], [("argument construction", S + " create_canister")], [], ["create_canister call made by the ledger"])
P("C16", "Requests naming forbidden principals or impossible receivers are refused",
  "Transfers and approvals in which any party is owned by the management canister, withdrawals to a self-authenticating (user) principal and withdrawals of zero cycles are always refused and never recorded.",
  ["inputs"], "all principals and accounts in all roles", "tests cover some roles on some endpoints", [S], [("is_denied_account, is_self_authenticating", S)], [], ["icrc1_transfer", "icrc2_transfer_from", "icrc2_approve", "withdraw", "withdraw_from"])
P("C17", "Every operation costs exactly the advertised fee, or says why not",
  "A transfer, approval, withdrawal or canister creation takes exactly one advertised fee from the payer on top of the amount; a caller-supplied fee that differs from it is refused with BadFee naming the advertised fee, and each block shows that fee either as the fee the caller gave or as the effective fee, never neither and never both.",
  ["inputs"], "all fees including ones beyond 2^128, all endpoints", "a few fee values are sampled", [S, M], [("suggested_fee checks, effective_fee", S)], [LOG], ["icrc1_fee", "icrc3_get_blocks"])
P("C18", "A deposit takes all attached cycles and credits all but the fee",
  "A deposit accepts all cycles attached to the call, credits the named account with exactly that amount minus the fee, records the given memo, and reports the new block and the resulting balance of that account. "
  "If the attached cycles do not exceed the fee, or anything else goes wrong, the call traps so that no cycles are taken.",
  ["inputs"], "all attached amounts", "a few amounts are sampled", [S, M], [("deposit", M), ("deposit, mint", S)], [BAL], ["deposit"])
P("C19", "No oversized memo is ever recorded",
  "No block carries a memo longer than the advertised maximum, and the block is not executed if its request's memo is longer.",
  ["inputs"], "all memos on all endpoints", "one memo length is sampled on some endpoints", [S, "cycles-ledger/src/memo.rs"], [("validate_memo", "cycles-ledger/src/memo.rs"), ("process_transaction", S)], [LOG], ["icrc1_transfer", "icrc2_approve", "deposit"])
P("C20", "Block queries return the real blocks under the real indices, within the limit",
  "A block query returns, for each requested range in order, the blocks of the log at exactly those indices, labelled with them, clipped to the end of the log, and never more in total than the configured maximum; the log length it reports is the true one. "
  "No combination of start and length makes it fail or skip blocks that fit.",
  ["inputs", "configurations"], "all starts and lengths including ones beyond 2^64, any number of ranges, any configured maximum",
  "tests query a few ranges", [S], [("get_blocks", S)], [LOG], ["icrc3_get_blocks"])
P("C21", "Listing allowances shows exactly the live approvals of the owner asked for",
  "Listing allowances returns only unexpired approvals given by accounts of the requested owner, in order from the requested starting point (which itself is excluded when a previous spender is named), each with its true amount and expiry, never more than the requested or maximum number, and skips none that qualifies before that limit.",
  ["inputs", "histories"], "all owners, starting points, limits and approval sets", "a few sets of approvals are sampled", [S, M], [("get_allowances", S), ("icrc103_get_allowances", M)], [APP], ["icrc103_get_allowances"])
P("C22", "Every persistent structure lives in its own, fixed stable-memory region",
  "Each persistent structure of the ledger uses its own stable-memory region, no two share one, each structure is always opened on the same region with the same key and value types, and the assignment is the one already deployed.",
  ["configurations", "histories"], "all structures, every upgrade", "no test upgrades from a deployed version's memory", [S], [("MemoryId constants and STATE initialiser", S)], [], ["state after upgrade"])
P("C23", "No message faults on conflicting access to the ledger state",
  "No execution path accesses the ledger state while it is already being modified further up the same path, and none keeps a borrow of it while waiting for an outbound call.",
  ["inputs", "schedules"], "all paths of all entry points and all interleavings at outbound calls", "a conflicting access only traps on the path that has it", [S, M],
  [("read_state / mutate_state closures", S)], [], ["all calls"])
P("C24", "Only the owner or an approved spender can spend; queries change nothing",
  "An account's balance is decreased and approvals are given only in messages whose caller owns that account, or whose caller is the spender of a recorded approval for it. No query, and no inspection of a message, changes any ledger state.",
  ["inputs", "schedules"], "all callers, all endpoints, all accounts", "tests use one or two principals and expect success", [M, S], [("from/spender derived from the caller", M)], [BAL, APP], ["all calls"])
P("C25", "Every endpoint reports the actual reason of a refusal",
  "A refusal is reported to the caller as the variant that names its actual cause with the actual values: duplicates name the original block, too old and created in the future are not confused and carry the ledger time, insufficient funds and allowance carry the amounts in force, failed outbound calls carry the rejection and the blocks recorded, on the plain and the on-behalf-of endpoints alike.",
  ["inputs", "fault_sequences"], "all errors of all endpoints", "conversions between seven error types are each sampled at most once", [S, M, E], [("From impls between error types", S), ("*_error_to_* functions", E)], [], ["replies of all update calls"])
P("C26", "What is stored of a transaction reads back as the same transaction",
  "Converting any transaction to its stored form and back yields the same transaction, and each recorded field appears in the public block under its own key: no field is dropped, swapped or defaulted, and no two different operations share a representation.",
  ["inputs"], "all operations with all combinations of optional fields", "a proptest samples the encoding of random blocks but not each presence combination of each field against each key",
  [S], [("FlattenedTransaction conversions, Transaction::to_value, Block::to_value", S)], [LOG], ["icrc3_get_blocks", "blocks after upgrade"])
P("C27", "The default subaccount and the all-zero subaccount are the same account",
  "Leaving out the subaccount and giving 32 zero bytes denote the same account on every endpoint: they share balance and allowances, and any other difference in owner or subaccount makes a different account.",
  ["inputs"], "all accounts in all roles", "tests use one spelling per role", [S, M], [("to_account_key, effective_subaccount", S)], [BAL, APP], ["all calls"])
P("C28", "Housekeeping removes only what has expired, and a bounded amount of it",
  "Housekeeping never removes an approval that has not expired, nor a duplicate record still within the window, never touches balances, blocks or supply, and handles at most a fixed number of entries per pass, oldest first.",
  ["inputs", "histories"], "all contents of the approval and deduplication structures and all times", "tests prune small sampled states", [S], [("prune_approvals, prune_transactions", S)], [APP, QUE, HSH], ["all update calls"])
P("C29", "The published interface matches what the canister exports",
  "Every method in the published interface description exists in the canister with the same kind (query or update), and every exported method is published.",
  ["programs"], "all methods", "tests call some methods", ["cycles-ledger/cycles-ledger.did", M], [("#[query]/#[update] functions", M)], [], ["cycles-ledger.did"])
P("C30", "Installation and upgrade apply exactly the given configuration",
  "Installation stores the given configuration and credits each listed initial account with its amount; an upgrade changes exactly the settings named in its argument, keeps all others, and changes nothing in the ledger. The wrong kind of argument is refused.",
  ["inputs", "configurations"], "all arguments", "few arguments are tested", [M, CF], [("init, post_upgrade", M)], [("config", "runtime configuration", S + " State.config")], ["icrc1_metadata", "icrc106_get_index_principal"])
P("C31", "Derived state is rebuilt from persistent state after every upgrade",
  "After an upgrade or restart the chain tip, its hash tree and the total supply are those of the persistent log and balances, so the next block continues the chain and the reported supply is unchanged.",
  ["histories", "crash_points"], "any persistent state", "no test upgrades with a non-trivial history and then checks all of it", [S], [("STATE initialiser", S)], [LOG, BAL, SUP], ["icrc3_get_tip_certificate", "icrc1_total_supply"])
P("C32", "Changes made by others during an outbound call are never overwritten",
  "Whatever other messages did to balances, allowances, blocks and the supply while a message was waiting for an outbound call is still in effect when it resumes: everything it writes afterwards is computed from the state at that time, never from values read before the call.",
  ["schedules", "histories"], "every interleaving of other messages at every outbound call", "tests never interleave", [S], [("reads repeated after the await", S + " reimburse, reimburse_approval, create_canister")], [BAL, APP, LOG], ["withdraw_from", "create_canister_from"])
P("C33", "Amount, time and index arithmetic never wraps around",
  "No sum, difference or product of amounts, balances, supplies, fees, times or block indices computed while handling a message can exceed its range and silently wrap; anything that would is refused or saturates.",
  ["inputs", "histories"], "all values up to the limits of their types", "release builds wrap silently and tests use small values", [S, M], [("checked_*/saturating_* operations", S)], [], ["all calls"])
P("C34", "The ledger enforces what it advertises",
  "The fee, memo limit, block limit, index principal, decimals, name and symbol reported by the metadata and the dedicated queries are the very values the ledger enforces or was configured with, and agree with each other.",
  ["configurations", "inputs"], "any configuration", "tests compare constants against constants", [M, CF], [("icrc1_metadata and single-value queries", M)], [], ["icrc1_metadata", "icrc1_fee", "icrc106_get_index_principal"])
P("C35", "The ledger always holds at least the cycles it owes",
  "The cycle balance of the canister is at all times at least the total supply.", ["histories", "schedules"], "all histories including execution and storage charges",
  "charges depend on the platform", [S, M], [("none in the code", M)], [SUP], ["canister_status"])
P("C36", "Stored blocks decode to the value that was encoded",
  "For every block, decoding its stored bytes yields the block, and distinct blocks have distinct hashes.", ["inputs"], "all blocks at the byte level of the CBOR encoding and of SHA-256",
  "the encodings are unbounded", [S, L], [("ciborium, icrc-ledger-types", S)], [LOG], ["icrc3_get_blocks"])
P("C37", "No message exceeds the instruction or memory limits of the platform",
  "Every request finishes within the platform's instruction limit whatever the state of the ledger.", ["histories", "configurations"], "all states",
  "needs a cost model of stable-memory trees and of the platform", [S], [("prune limits", CF)], [], ["all calls"])

P("C38", "The depositor canister deposits exactly what it is asked to",
  "A call to the depositor makes one deposit with the ledger it was installed for, with exactly the cycles, account and memo given, and answers exactly what the ledger answered; if that deposit fails the call fails.",
  ["inputs", "fault_sequences"], "all arguments, every outcome of the call to the ledger", "it is only used as a helper in tests", ["depositor/src/main.rs"],
  [("deposit, init", "depositor/src/main.rs")], [("CONFIG", "the ledger to deposit with", "depositor/src/main.rs")], ["deposit of the depositor"])
P("C39", "The metrics show the actual state of the ledger",
  "Each gauge of the metrics page shows, under its published name, the quantity it is named after as it is when the page is requested: number of blocks, balances, approvals, queue entries, remembered hashes and times, total supply, stable memory and own cycles.",
  ["histories"], "every state of the ledger", "no test reads the metrics", [M], [("encode_metrics, http_request", M)], [LOG, BAL, APP, QUE, HSH, SUP], ["http_request /metrics"])

NA = {
    "C35": "quantifies over the platform's charging of the canister, which is not in the source; the code-visible half (cycles in = minted + fee, cycles out = burned) is decided under C13 and C18",
    "C36": "a byte-level round trip through ciborium's dynamic encoder and collision freedom of SHA-256 are not in reach of a static argument on this source; the field-level round trip is decided under C26",
    "C37": "needs an instruction cost model of wasm and of the stable B-tree for unbounded states; the number of entries handled per message is bounded under C28",
}

if __name__ == "__main__":
    import props
    with open(V + "/properties.jsonl", "w") as f:
        for p in ALL:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in ALL:
        q = props.PROPS.get(p["id"])
        if q is None:
            na.append({"property": p["id"], "reason": NA.get(p["id"], "not decided yet: its rule is still being written")})
            continue
        checks.append({"property": p["id"], "quick_cmd": "python3 sa/check.py " + p["id"],
                       "thorough_cmd": "python3 sa/check.py %s --thorough" % p["id"],
                       "technique": q.technique, "level": q.level, "level_note": q.note})
    m = {"version": 1, "setup_cmd": "python3 sa/dump.py", "checks": checks, "not_applicable": na,
         "notes": "All checks analyse rustc MIR of /repo's current tree (sa/dump.py type-checks a copy of it with the driver in driver/). No hooks in /repo."}
    with open(V + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    bad = [p["id"] for p in ALL if len(p["title"]) > 80]
    print(len(ALL), "properties,", len(checks), "checks,", [x["property"] for x in na], "long titles:", bad)
