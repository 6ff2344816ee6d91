//! The system API of a canister, played by the test program.
#![allow(unused_variables, clippy::all)]
use std::cell::RefCell;

#[derive(Clone, Debug, Default)]
pub struct Call {
    pub callee: Vec<u8>,
    pub method: String,
    pub arg: Vec<u8>,
    pub cycles: u128,
    pub reply: (usize, usize),
    pub reject: (usize, usize),
}

#[derive(Default, Debug)]
pub struct World {
    pub arg: Vec<u8>,
    pub caller: Vec<u8>,
    pub reject_code: u32,
    pub reject_msg: Vec<u8>,
    pub reply: Vec<u8>,
    pub replied: bool,
    pub available: u128,
    pub accepted: u128,
    pub refunded: u128,
    pub time: u64,
    pub certified: Vec<u8>,
    pub building: Call,
    pub calls: Vec<Call>,
}

thread_local! {
    pub static W: RefCell<World> = RefCell::new(World::default());
}

fn put(dst: usize, src: &[u8]) {
    unsafe { std::ptr::copy_nonoverlapping(src.as_ptr(), dst as *mut u8, src.len()) }
}

fn get<'a>(src: usize, size: usize) -> &'a [u8] {
    if size == 0 {
        return &[];
    }
    unsafe { std::slice::from_raw_parts(src as *const u8, size) }
}

/// # Safety
/// see the system API
pub unsafe fn msg_arg_data_size() -> usize {
        W.with(|w| w.borrow().arg.len())
}

/// # Safety
/// see the system API
pub unsafe fn msg_arg_data_copy(dst: usize, offset: usize, size: usize) {
        W.with(|w| put(dst, &w.borrow().arg[offset..offset + size]))
}

/// # Safety
/// see the system API
pub unsafe fn msg_caller_size() -> usize {
        W.with(|w| w.borrow().caller.len())
}

/// # Safety
/// see the system API
pub unsafe fn msg_caller_copy(dst: usize, offset: usize, size: usize) {
        W.with(|w| put(dst, &w.borrow().caller[offset..offset + size]))
}

/// # Safety
/// see the system API
pub unsafe fn msg_reject_code() -> u32 {
        W.with(|w| w.borrow().reject_code)
}

/// # Safety
/// see the system API
pub unsafe fn msg_reject_msg_size() -> usize {
        W.with(|w| w.borrow().reject_msg.len())
}

/// # Safety
/// see the system API
pub unsafe fn msg_reject_msg_copy(dst: usize, offset: usize, size: usize) {
        W.with(|w| put(dst, &w.borrow().reject_msg[offset..offset + size]))
}

/// # Safety
/// see the system API
pub unsafe fn msg_deadline() -> u64 {
        0
}

/// # Safety
/// see the system API
pub unsafe fn msg_reply_data_append(src: usize, size: usize) {
        W.with(|w| w.borrow_mut().reply.extend_from_slice(get(src, size)))
}

/// # Safety
/// see the system API
pub unsafe fn msg_reply() {
        W.with(|w| w.borrow_mut().replied = true)
}

/// # Safety
/// see the system API
pub unsafe fn msg_reject(src: usize, size: usize) {
        panic!("rejected: {}", String::from_utf8_lossy(get(src, size)))
}

/// # Safety
/// see the system API
pub unsafe fn msg_cycles_available128(dst: usize) {
        W.with(|w| put(dst, &w.borrow().available.to_le_bytes()))
}

/// # Safety
/// see the system API
pub unsafe fn msg_cycles_refunded128(dst: usize) {
        W.with(|w| put(dst, &w.borrow().refunded.to_le_bytes()))
}

/// # Safety
/// see the system API
pub unsafe fn msg_cycles_accept128(max_amount_high: u64, max_amount_low: u64, dst: usize) {
        W.with(|w| {
            let mut w = w.borrow_mut();
            let n = w.available.min(((max_amount_high as u128) << 64) | max_amount_low as u128);
            w.available -= n;
            w.accepted += n;
            put(dst, &n.to_le_bytes())
        })
}

/// # Safety
/// see the system API
pub unsafe fn cycles_burn128(amount_high: u64, amount_low: u64, dst: usize) {
        unimplemented!("cycles_burn128")
}

/// # Safety
/// see the system API
pub unsafe fn canister_self_size() -> usize {
        10
}

/// # Safety
/// see the system API
pub unsafe fn canister_self_copy(dst: usize, offset: usize, size: usize) {
        put(dst, &[0u8, 0, 0, 0, 2, 16, 0, 2, 1, 1][offset..offset + size])
}

/// # Safety
/// see the system API
pub unsafe fn canister_cycle_balance128(dst: usize) {
        put(dst, &u128::MAX.to_le_bytes())
}

/// # Safety
/// see the system API
pub unsafe fn canister_liquid_cycle_balance128(dst: usize) {
        put(dst, &u128::MAX.to_le_bytes())
}

/// # Safety
/// see the system API
pub unsafe fn canister_status() -> u32 {
        1
}

/// # Safety
/// see the system API
pub unsafe fn canister_version() -> u64 {
        1
}

/// # Safety
/// see the system API
pub unsafe fn subnet_self_size() -> usize {
        unimplemented!("subnet_self_size")
}

/// # Safety
/// see the system API
pub unsafe fn subnet_self_copy(dst: usize, offset: usize, size: usize) {
        unimplemented!("subnet_self_copy")
}

/// # Safety
/// see the system API
pub unsafe fn msg_method_name_size() -> usize {
        unimplemented!("msg_method_name_size")
}

/// # Safety
/// see the system API
pub unsafe fn msg_method_name_copy(dst: usize, offset: usize, size: usize) {
        unimplemented!("msg_method_name_copy")
}

/// # Safety
/// see the system API
pub unsafe fn accept_message() {
        unimplemented!("accept_message")
}

/// # Safety
/// see the system API
pub unsafe fn call_new(callee_src: usize, callee_size: usize, name_src: usize, name_size: usize, reply_fun: usize, reply_env: usize, reject_fun: usize, reject_env: usize) {
        W.with(|w| {
            w.borrow_mut().building = Call {
                callee: get(callee_src, callee_size).to_vec(),
                method: String::from_utf8_lossy(get(name_src, name_size)).into_owned(),
                reply: (reply_fun, reply_env), reject: (reject_fun, reject_env), ..Default::default()
            }
        })
}

/// # Safety
/// see the system API
pub unsafe fn call_on_cleanup(fun: usize, env: usize) {
        
}

/// # Safety
/// see the system API
pub unsafe fn call_data_append(src: usize, size: usize) {
        W.with(|w| w.borrow_mut().building.arg.extend_from_slice(get(src, size)))
}

/// # Safety
/// see the system API
pub unsafe fn call_with_best_effort_response(timeout_seconds: u32) {
        
}

/// # Safety
/// see the system API
pub unsafe fn call_cycles_add128(amount_high: u64, amount_low: u64) {
        W.with(|w| w.borrow_mut().building.cycles += ((amount_high as u128) << 64) | amount_low as u128)
}

/// # Safety
/// see the system API
pub unsafe fn call_perform() -> u32 {
        W.with(|w| {
            let mut w = w.borrow_mut();
            let c = std::mem::take(&mut w.building);
            w.calls.push(c);
            0
        })
}

/// # Safety
/// see the system API
pub unsafe fn stable64_size() -> u64 {
        0
}

/// # Safety
/// see the system API
pub unsafe fn stable64_grow(new_pages: u64) -> u64 {
        unimplemented!("stable64_grow")
}

/// # Safety
/// see the system API
pub unsafe fn stable64_write(offset: u64, src: u64, size: u64) {
        unimplemented!("stable64_write")
}

/// # Safety
/// see the system API
pub unsafe fn stable64_read(dst: u64, offset: u64, size: u64) {
        unimplemented!("stable64_read")
}

/// # Safety
/// see the system API
pub unsafe fn root_key_size() -> usize {
        unimplemented!("root_key_size")
}

/// # Safety
/// see the system API
pub unsafe fn root_key_copy(dst: usize, offset: usize, size: usize) {
        unimplemented!("root_key_copy")
}

/// # Safety
/// see the system API
pub unsafe fn certified_data_set(src: usize, size: usize) {
        W.with(|w| w.borrow_mut().certified = get(src, size).to_vec())
}

/// # Safety
/// see the system API
pub unsafe fn data_certificate_present() -> u32 {
        1
}

/// # Safety
/// see the system API
pub unsafe fn data_certificate_size() -> usize {
        4
}

/// # Safety
/// see the system API
pub unsafe fn data_certificate_copy(dst: usize, offset: usize, size: usize) {
        put(dst, &[1u8, 2, 3, 4][offset..offset + size])
}

/// # Safety
/// see the system API
pub unsafe fn time() -> u64 {
        W.with(|w| w.borrow().time)
}

/// # Safety
/// see the system API
pub unsafe fn global_timer_set(timestamp: u64) -> u64 {
        0
}

/// # Safety
/// see the system API
pub unsafe fn performance_counter(counter_type: u32) -> u64 {
        0
}

/// # Safety
/// see the system API
pub unsafe fn is_controller(src: usize, size: usize) -> u32 {
        0
}

/// # Safety
/// see the system API
pub unsafe fn in_replicated_execution() -> u32 {
        1
}

/// # Safety
/// see the system API
pub unsafe fn cost_call(method_name_size: u64, payload_size: u64, dst: usize) {
        put(dst, &0u128.to_le_bytes())
}

/// # Safety
/// see the system API
pub unsafe fn cost_create_canister(dst: usize) {
        put(dst, &0u128.to_le_bytes())
}

/// # Safety
/// see the system API
pub unsafe fn cost_http_request(request_size: u64, max_res_bytes: u64, dst: usize) {
        put(dst, &0u128.to_le_bytes())
}

/// # Safety
/// see the system API
pub unsafe fn cost_sign_with_ecdsa(src: usize, size: usize, ecdsa_curve: u32, dst: usize) -> u32 {
        0
}

/// # Safety
/// see the system API
pub unsafe fn cost_sign_with_schnorr(src: usize, size: usize, algorithm: u32, dst: usize) -> u32 {
        0
}

/// # Safety
/// see the system API
pub unsafe fn cost_vetkd_derive_key(src: usize, size: usize, vetkd_curve: u32, dst: usize) -> u32 {
        0
}

/// # Safety
/// see the system API
pub unsafe fn env_var_count() -> usize {
        unimplemented!("env_var_count")
}

/// # Safety
/// see the system API
pub unsafe fn env_var_name_size(index: usize) -> usize {
        unimplemented!("env_var_name_size")
}

/// # Safety
/// see the system API
pub unsafe fn env_var_name_copy(index: usize, dst: usize, offset: usize, size: usize) {
        unimplemented!("env_var_name_copy")
}

/// # Safety
/// see the system API
pub unsafe fn env_var_name_exists(name_src: usize, name_size: usize) -> u32 {
        unimplemented!("env_var_name_exists")
}

/// # Safety
/// see the system API
pub unsafe fn env_var_value_size(name_src: usize, name_size: usize) -> usize {
        unimplemented!("env_var_value_size")
}

/// # Safety
/// see the system API
pub unsafe fn env_var_value_copy(name_src: usize, name_size: usize, dst: usize, offset: usize, size: usize) {
        unimplemented!("env_var_value_copy")
}

/// # Safety
/// see the system API
pub unsafe fn debug_print(src: usize, size: usize) {
        
}

/// # Safety
/// see the system API
pub unsafe fn trap(src: usize, size: usize) {
        if std::thread::panicking() {
            eprintln!("{}", String::from_utf8_lossy(get(src, size)));
            std::process::exit(101);
        }
        panic!("trap: {}", String::from_utf8_lossy(get(src, size)))
}

