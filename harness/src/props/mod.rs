//! One function per property: which workloads run, and which monitors judge them.
use crate::core::*;

mod e2e;
mod faults;
mod files;
mod grads;
mod helpers;
mod layers;
mod network;
mod random;
mod resources;
mod safety;
mod tensors;

pub fn run(ctx: &mut Ctx, prop: &str) -> bool {
    match prop {
        "C01" => tensors::c01(ctx),
        "C02" => tensors::c02(ctx),
        "C03" => tensors::c03(ctx),
        "C04" => tensors::c04(ctx),
        "C05" => tensors::c05(ctx),
        "C06" => tensors::c06(ctx),
        "C07" => layers::c07(ctx),
        "C08" => grads::c08(ctx),
        "C09" => grads::c09(ctx),
        "C10" => grads::c10(ctx),
        "C11" => network::c11(ctx),
        "C12" => network::c12(ctx),
        "C13" => network::c13(ctx),
        "C14" => network::c14(ctx),
        "C15" => network::c15(ctx),
        "C16" => network::c16(ctx),
        "C17" => files::c17(ctx),
        "C18" => files::c18(ctx),
        "C19" => files::c19(ctx),
        "C20" => faults::c20(ctx),
        "C21" => layers::c21(ctx),
        "C22" => random::c22(ctx),
        "C23" => files::c23(ctx),
        "C24" => layers::c24(ctx),
        "C25" => safety::c25(ctx),
        "C26" => safety::c26(ctx),
        "C27" => e2e::c27(ctx),
        "C28" => resources::c28(ctx),
        "C29" => helpers::c29(ctx),
        "C30" => safety::c30(ctx),
        _ => return false,
    }
    true
}
