pub fn demo() {
    let (a, b, c) = (acc(user(1)), acc(user(2)), canister(7));
    install(vec![(a, 10 * T)], 100);
    assert_eq!(balance(a), 10 * T);
    transfer(a, b, T).unwrap();
    assert_eq!(balance(b), T);
    approve(a, b, 3 * T, None).unwrap();
    caller(b.owner);
    let t = start(withdraw_from(WithdrawFromArgs { spender_subaccount: None, from: a, to: c, created_at_time: None, amount: T.into() }));
    assert!(!t.done());
    let call = take_call();
    println!("{:?} {} {}", Principal::from_slice(&call.callee).to_text(), call.method, call.cycles);
    reject(&call, 4, "no");
    println!("{:?}", t.result());
    assert_eq!(supply(), balance(a) + balance(b));
    println!("{:?} {:?}", allowed(a, b), blocks());
    assert!(attempt(|| approve(a, a, 1, None)).is_none());
}
