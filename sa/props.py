"""Which rules decide which property, on which entry points."""
import rules, r_ledger, r_ops, r_reads, r_more, r_stored, r_outer

TRUSTED = [
    "rustc's MIR of the current tree (nightly, -Zalways-encode-mir) is what runs",
    "sa/models.py: models of core/std collections, ic-stable-structures maps, ic-cdk calls, RefCell/LocalKey, candid Nat",
    "sa/interp.py, sa/facts.py, sa/terms.py: the abstract interpreter, its linear-fact and variant domains",
    "a trap rolls back every change the current message made (Internet Computer)",
]


ABS = "abstract interpretation of MIR (path-sensitive dataflow)"
NOTE = ("Every path of every listed entry point is analysed for arbitrary arguments and ledger states, cut at outbound calls and loops; "
        "an entry point the analysis cannot model is named NOT-ANALYSED. Trusts the models of external crates (sa/models.py).")


class Prop:
    def __init__(self, names, roots=None, floor=None, level="proof", explain="", assume=(), technique=ABS, note=NOTE):
        self.names, self.roots, self.floor, self.level = names, roots, floor or {}, level
        self.explain, self.assume, self.technique, self.note = explain or NOTE, list(assume), technique, note

    def jobs(self, p, tier):
        roots = self.roots or rules.updates
        if callable(roots):
            roots = roots(p)
        jobs = []
        for r in rules.order([r for r in roots if isinstance(r, str)]):
            jobs.append((r, self.names))
        return jobs + [(r, [n]) for r, n in (x for x in roots if not isinstance(x, str))]


MODULES = [rules, r_ledger, r_ops, r_reads, r_more, r_stored, r_outer]


def rule(name):
    for m in MODULES:
        if name in m.__dict__:
            return m.__dict__[name]
    raise KeyError(name)


def shared(p):
    """facts about the whole program that rules refer to, worked out once; what could not be"""
    gaps = []
    for f in (lambda: r_ledger.fee_of(p), lambda: r_ledger.advertised(p, "icrc1:max_memo_length")):
        try:
            f()
        except rules.Gap as g:
            gaps.append(str(g))
    return gaps


PROPS = {}
OUTCALLS = ["withdraw", "withdraw_from", "create_canister", "create_canister_from"]


QUERIES = ["icrc1_total_supply", "icrc1_balance_of"]


def prop(pid, *names, **k):
    PROPS[pid] = Prop(list(names), **k)


prop("C01", "rule_supply", roots=lambda p: rules.updates(p) + [(q, "rule_balance_query") for q in QUERIES] + [(r_more.INIT, "rule_resummed")],
     floor={"supply: change equals": 20, "rebuilt: supply is the sum": 2, "query: the supply": 1, "query: the balance": 1})
prop("C02", "rule_log", floor={"log: balance effect of Transfer": 2, "log: balance effect of Mint": 2,
                               "log: balance effect of Burn": 2, "log: balance effect of Approve": 1})
def also(*names):
    """the usual entry points, and these rules on the conversions of what is stored"""
    return lambda p: rules.updates(p) + _stored(p, *names)


def _chain(p):
    return also("rule_block_hash")(p) + [("icrc3_get_tip_certificate", "rule_tip"), (r_more.INIT, "rule_resumed")]


def _stored(p, *names):
    return [(r, n) for n in names for r in r_stored.slices(p)]


prop("C03", "rule_chain", roots=_chain, floor={"rebuilt: tip is the last": 1, "tip: witness for index": 1, "hash: covers": 100, "chain: parent hash of a new block": 10, "chain: certified hash is the last": 10,
                                 "chain: certified data is the root": 10})
prop("C04", "rule_refused", floor={"refused: nothing changes": 60})
prop("C05", "rule_overdraw", floor={"overdraw: balance stays in range": 40, "overdraw: reported balance": 8})
prop("C06", "rule_allowance", floor={"allowance: covers amount plus fee": 20, "allowance: reduced by": 20})
prop("C07", "rule_expiry", roots=["icrc2_approve", "icrc2_transfer_from", "withdraw_from", "create_canister_from", "icrc2_allowance", "icrc103_get_allowances",
                                  "icrc1_transfer", "withdraw", "create_canister", "deposit"],
     floor={"list: only live": 2, "expiry: query shows the allowance": 1, "allowance: not expired": 2, "approve: expected allowance is": 1, "approve: expiry lies": 1})
prop("C20", "rule_blocks", roots=lambda p: ["icrc3_get_blocks"] + _stored(p, "rule_shown"), floor={"public: each field": 100, "blocks: the block at that index": 2, "blocks: as many as fit": 2})
prop("C21", "rule_allowance_list", roots=["icrc103_get_allowances"], floor={"list: true amount": 2, "list: skips only expired": 2})
prop("C08", "rule_queue", floor={"queue: entry iff": 20})
prop("C24", "rule_authority", "rule_spender", roots=lambda p: rules.updates(p) + [(q, "rule_readonly") for q in rules.queries(p)],
     floor={"readonly: a query changes nothing": 10, "authority: only the payer is debited": 20, "authority: approvals written for": 2, "allowance: an approval exists": 4})
prop("C09", "rule_approve", roots=["icrc2_approve"], floor={"approve: exactly what was asked": 20, "approve: refusal reports": 4})
prop("C10", "rule_dedup", roots=also("rule_tx_hash"), floor={"hash: covers": 100, "dedup: remembered under its hash": 20, "dedup: not executed while remembered": 20, "dedup: refused as a duplicate": 8})
prop("C11", "rule_window", "rule_filed", floor={"dedup: no other filing": 10, "window: not too old": 20, "window: forgotten only": 8})
prop("C12", "rule_refund", "rule_refund_no_trap", roots=OUTCALLS, floor={"refund: payer gets what is left": 20, "refund: none after success": 4})
prop("C13", "rule_cycles_out", floor={"cycles: burned and recorded before": 8})
prop("C14", "rule_record", roots=also("rule_stored", "rule_shown"), floor={"stored: reads back": 100, "public: each field": 100, "record: amount as requested": 20, "record: timestamp": 20, "record: reply names": 10})
prop("C15", "rule_creation_args", roots=["create_canister", "create_canister_from"], floor={"creation: controllers as asked": 2, "creation: settings as asked": 10})
prop("C16", "rule_forbidden", floor={"forbidden: payer": 20, "forbidden: receiver": 10, "forbidden: amount is not zero": 10})
prop("C17", "rule_fee", roots=also("rule_fee_shown"), floor={"public: the fee is shown": 100, "fee: effective fee shown": 20, "fee: refusal names": 4})
prop("C18", "rule_deposit", floor={"deposit: credits all but the fee": 1})
prop("C19", "rule_memo", floor={"memo: within the limit": 20})
prop("C28", "rule_housekeeping", "rule_filed", "rule_stale", floor={"dedup: no other filing": 10, "queue: no stale": 20, "housekeeping: removes the oldest": 8, "prune: removes only expired": 8})
prop("C22", "rule_regions", roots=[r_more.INIT], floor={"regions: as deployed": 2, "regions: types as deployed": 2})
prop("C31", "rule_rebuilt", roots=[r_more.INIT], floor={"rebuilt: supply is the sum": 2, "rebuilt: tip is the last": 1})
prop("C29", "rule_interface", roots=["*"], floor={"interface: kind as published": 2}, technique="comparison of the exported symbols with the parsed interface description")
prop("C34", "rule_enforced", roots=["icrc1_transfer", "icrc2_approve", "deposit", "icrc3_get_blocks", ("*", "rule_advertised")],
     floor={"advertised: metadata agrees with": 2, "advertised: index principal is": 1, "memo: within": 2, "fee: given fee": 2, "blocks: as many as fit": 2})
prop("C23", "rule_borrow", roots=r_more.everywhere, floor={"borrow: no conflict": 20, "borrow: none is held": 2})
prop("C33", "rule_arith", roots=r_more.everywhere, floor={"arithmetic: in range": 10})
prop("C25", "rule_reasons", roots=["icrc1_transfer", "icrc2_transfer_from", "icrc2_approve"] + OUTCALLS,
     floor={"overdraw: refused": 4, "dedup: refused": 4, "reason: rejection code": 4, "window: too old": 4, "reason: names": 4, "refund: reply": 4, "fee: refusal": 2})
prop("C32", "rule_current", roots=OUTCALLS, floor={"current: resumes": 4, "current: written": 4, "current: an approval": 1, "supply: change equals": 4, "log: balance effect": 2, "chain: parent hash": 2})
prop("C30", "rule_config", roots=["canister_init", "canister_post_upgrade", ("stored 0/1", "rule_stored_config")],
     floor={"stored: reads back": 2, "config: stored as given": 1, "config: credited with": 1, "config: settings not named": 3, "config: index as asked": 1})
prop("C26", "rule_stored", "rule_public", roots=r_stored.slices,
     floor={"stored: reads back": 100, "public: each field": 100, "hash: covers": 100},
     technique=ABS + " of the conversions to and from the stored and the public form, over the data model of serde",
     note="Every combination of operations and of present and absent optional fields is enumerated, with arbitrary amounts, principals, "
          "bytes and times; the conversions run abstractly on each. The byte-level encoders (ciborium, serde's and icrc-ledger-types' own "
          "types) are taken as inverse of their decoders, and the conversion of CBOR values to generic ones as injective.")
prop("C27", "rule_default", roots=r_more.everywhere, floor={"account: kept under": 20, "account: spelling": 10})
prop("C38", "rule_depositor", roots=["depositor/canister_init", "depositor/deposit"], floor={"depositor: ledger as": 1, "depositor: the cycles": 1, "depositor: replies what": 1})
prop("C39", "rule_metrics", roots=["http_request"], floor={"metrics: gauge shows": 8})
