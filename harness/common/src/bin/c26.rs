// Prints, for every bridge tree on standard input, how crubit_abi_type spells its type and its value in both languages.
use crubit_abi_type::*;
use quote::{quote, ToTokens};
use std::io::Read;
use std::rc::Rc;

fn ptr(is_const: bool, slice: bool, r: &str, c: &str) -> CrubitAbiType {
    CrubitAbiType::Ptr { is_const, is_rust_slice: slice, is_cref: false, is_cpp_ref: false, rust_type: r.parse().unwrap(), cpp_type: c.parse().unwrap() }
}
fn tree(t: &mut std::iter::Peekable<std::vec::IntoIter<String>>) -> CrubitAbiType {
    let w = t.next().unwrap();
    match w.as_str() {
        "P" => { let a = tree(t); let b = tree(t); CrubitAbiType::Pair(Rc::new(a), Rc::new(b)) }
        "O" => CrubitAbiType::option(tree(t)),
        // user bridges with type arguments
        "UO" => CrubitAbiType::Type { rust_abi_path: FullyQualifiedPath::new("crate::UOpt"), cpp_abi_path: FullyQualifiedPath::new("::c26::UOpt"), type_args: Rc::from([tree(t)]) },
        "UP" => { let a = tree(t); let b = tree(t); CrubitAbiType::Type { rust_abi_path: FullyQualifiedPath::new("crate::UPair"), cpp_abi_path: FullyQualifiedPath::new("c26::UPair"), type_args: Rc::from([a, b]) } }
        "cp" => ptr(true, false, "i32", "int32_t"),
        "mp" => ptr(false, false, "u8", "uint8_t"),
        "cs" => ptr(true, true, "i16", "int16_t"),
        "ms" => ptr(false, true, "u64", "uint64_t"),
        "str" => CrubitAbiType::StdString { in_cc_std: false },
        "strin" => CrubitAbiType::StdString { in_cc_std: true },
        "msg" => CrubitAbiType::ProtoMessage { proto_message_rust_bridge: FullyQualifiedPath::new("crate::MsgBridge"), rust_proto_path: FullyQualifiedPath::new("crate::Msg"), cpp_proto_path: FullyQualifiedPath::new("::c26::Obj") },
        "obj" => CrubitAbiType::Type { rust_abi_path: FullyQualifiedPath::new("crate::BObjAbi"), cpp_abi_path: FullyQualifiedPath::new("::c26::ObjAbi"), type_args: Rc::from([]) },
        "own" => CrubitAbiType::transmute("crate::Own", "::c26::Own"),
        "mix" => CrubitAbiType::transmute("crate::Mix", "c26::Mix"),
        "fn" => CrubitAbiType::Callable { rust_type_tokens: quote! { ::bridge_rust::TransmuteAbi<u32> }, rust_expr_tokens: quote! { ::bridge_rust::transmute_abi::<u32>() }, cpp_type_tokens: quote! { ::crubit::TransmuteAbi<uint32_t> }, cpp_expr_tokens: quote! { ::crubit::TransmuteAbi<uint32_t>() } },
        "co" => CrubitAbiType::C9Co { rust_type_tokens: quote! { ::bridge_rust::TransmuteAbi<i64> }, rust_expr_tokens: quote! { ::bridge_rust::transmute_abi::<i64>() }, cpp_type_tokens: quote! { ::crubit::TransmuteAbi<int64_t> }, cpp_expr_tokens: quote! { ::crubit::TransmuteAbi<int64_t>() } },
        w => { let (r, c) = w.split_once('=').unwrap(); CrubitAbiType::transmute(r, c) }
    }
}
fn main() {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    for l in s.lines() {
        let t = tree(&mut l.split(' ').map(str::to_owned).collect::<Vec<_>>().into_iter().peekable());
        println!("{}\t{}\t{}\t{}", CrubitAbiTypeToRustTokens(&t).to_token_stream(), CrubitAbiTypeToRustExprTokens(&t).to_token_stream(),
            CrubitAbiTypeToCppTokens(&t).to_token_stream(), CrubitAbiTypeToCppExprTokens(&t).to_token_stream());
    }
}
