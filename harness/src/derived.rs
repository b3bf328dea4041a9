//! Written by tools/derive_gen.py.
#![allow(non_camel_case_types, dead_code, unused_assignments, unused_variables)]
use crate::h_derive::{ck, computed, ident, lit, nest, off, Mode, Nest};
use crate::node::{Hdr, Node};
use crate::rec::{T1, T2};
use crate::rt;
use sval::Index;
use sval_derive::Value;

const IX40: i64 = 40;
const IX41: u32 = 41;
const LAB: sval::Label<'static> = sval::Label::new("lab-path");

#[derive(Value)]
struct FlatN { p: u8, q: u8 }
#[derive(Value)]
struct FlatT(u8, u8);
#[derive(Value)]
#[sval(unindexed_fields)]
struct FlatR { p: u8, q: u8 }
#[derive(Value)]
#[sval(unindexed_fields)]
struct FlatS(u8, u8);
#[derive(Value)]
struct FlatX { #[sval(index = 11)] p: u8, q: u8 }
#[derive(Value)]
enum FlatE { V { p: u8, q: u8 } }

#[derive(Value)]
struct St1 {  }
fn structs_0(m: Mode) {  ck(m, &St1 {  }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("St1")), index: None }, Some(0), vec![]), None, true) }

#[derive(Value)]
struct St2 {  }
fn structs_1(m: Mode) {  ck(m, &St2 {  }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("St2")), index: None }, Some(0), vec![]), None, true) }

#[derive(Value)]
#[sval(unindexed_fields)] struct St3 {  }
fn structs_2(m: Mode) {  ck(m, &St3 {  }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("St3")), index: None }, Some(0), vec![]), None, true) }

#[derive(Value)]
#[sval(label = LAB)] #[sval(unindexed_fields)] struct St4 {  }
fn structs_3(m: Mode) {  ck(m, &St4 {  }, &Node::RecordTuple(Hdr { tag: None, label: Some(lit("lab-path")), index: None }, Some(0), vec![]), None, true) }

#[derive(Value)]
#[sval(unlabeled_fields)] struct St5 {  }
fn structs_4(m: Mode) {  ck(m, &St5 {  }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("St5")), index: None }, Some(0), vec![]), None, true) }

#[derive(Value)]
#[sval(label = "lbl \"9", index = 3, unlabeled_fields)] struct St6 {  }
fn structs_5(m: Mode) {  ck(m, &St6 {  }, &Node::RecordTuple(Hdr { tag: None, label: Some(lit("lbl \"9")), index: Some(Index::new_isize(3)) }, Some(0), vec![]), None, true) }

#[derive(Value)]
#[sval(unlabeled_fields)] #[sval(unindexed_fields)] struct St7 {  }
fn structs_6(m: Mode) {  ck(m, &St7 {  }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("St7")), index: None }, Some(0), vec![]), None, true) }

#[derive(Value)]
#[sval(index = 0)] #[sval(unlabeled_fields)] #[sval(unindexed_fields)] struct St8 {  }
fn structs_7(m: Mode) {  ck(m, &St8 {  }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("St8")), index: Some(Index::new_isize(0)) }, Some(0), vec![]), None, true) }

#[derive(Value)]
struct St9 { a: i64 }
fn structs_8(m: Mode) { let x0 = rt::i64_(); ck(m, &St9 { a: x0 }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("St9")), index: None }, Some(1), vec![(None, ident("a"), off(0), Node::I64(x0))]), None, true) }

#[derive(Value)]
#[sval(index = -2)] struct St10 { #[sval(data_tag = "T1")] #[sval(label = "lbl \"0")] #[sval(index = IX40)] a: i64 }
fn structs_9(m: Mode) { let x0 = rt::i64_(); ck(m, &St10 { a: x0 }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("St10")), index: Some(Index::new_isize(-2)) }, Some(1), vec![(None, lit("lbl \"0"), Index::new_isize(40), Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(Node::I64(x0))))]), None, true) }

#[derive(Value)]
#[sval(unindexed_fields)] struct St11 { a: i64 }
fn structs_10(m: Mode) { let x0 = rt::i64_(); ck(m, &St11 { a: x0 }, &Node::Record(Hdr { tag: None, label: Some(ident("St11")), index: None }, Some(1), vec![(None, ident("a"), Node::I64(x0))]), None, true) }

#[derive(Value)]
#[sval(tag = T2, index = 3, unindexed_fields)] struct St12 { #[sval(skip = true)] a: Nest }
fn structs_11(m: Mode) { let x0 = rt::u8_(); ck(m, &St12 { a: Nest { n: x0 } }, &Node::RecordTuple(Hdr { tag: Some(T2), label: Some(ident("St12")), index: Some(Index::new_isize(3)) }, Some(0), vec![]), Some(T2), true) }

#[derive(Value)]
#[sval(unlabeled_fields)] struct St13 { a: i64 }
fn structs_12(m: Mode) { let x0 = rt::i64_(); ck(m, &St13 { a: x0 }, &Node::Tuple(Hdr { tag: None, label: Some(ident("St13")), index: None }, Some(1), vec![(None, off(0), Node::I64(x0))]), None, true) }

#[derive(Value)]
#[sval(label = "lbl \"9", unlabeled_fields)] struct St14 { a: &'static str }
fn structs_13(m: Mode) { let x0 = rt::letters(1); ck(m, &St14 { a: x0 }, &Node::Tuple(Hdr { tag: None, label: Some(lit("lbl \"9")), index: None }, Some(1), vec![(None, off(0), Node::Text(Some(1), vec![(false, x0)]))]), None, true) }

#[derive(Value)]
#[sval(unlabeled_fields)] #[sval(unindexed_fields)] struct St15 { a: &'static str }
fn structs_14(m: Mode) { let x0 = rt::letters(1); ck(m, &St15 { a: x0 }, &Node::Tagged(Hdr { tag: None, label: Some(ident("St15")), index: None }, Box::new(Node::Seq(Some(1), vec![Node::Text(Some(1), vec![(false, x0)])]))), None, true) }

#[derive(Value)]
#[sval(tag = T1)] #[sval(unlabeled_fields)] #[sval(unindexed_fields)] struct St16 { #[sval(skip = true)] a: i64 }
fn structs_15(m: Mode) { let x0 = rt::i64_(); ck(m, &St16 { a: x0 }, &Node::RecordTuple(Hdr { tag: Some(T1), label: Some(ident("St16")), index: None }, Some(0), vec![]), Some(T1), true) }

#[derive(Value)]
struct St17 { a: Nest, b: u8 }
fn structs_16(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); ck(m, &St17 { a: Nest { n: x0 }, b: x1 }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("St17")), index: None }, Some(2), vec![(None, ident("a"), off(0), nest(x0)), (None, ident("b"), off(1), Node::U8(x1))]), None, true) }

#[derive(Value)]
struct St18 { #[sval(skip)] a: &'static str, #[sval(label = "lbl \"1")] b: bool }
fn structs_17(m: Mode) { let x0 = rt::letters(1); let x1 = rt::bool_(); ck(m, &St18 { a: x0, b: x1 }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("St18")), index: None }, Some(1), vec![(None, lit("lbl \"1"), off(0), Node::Bool(x1))]), None, true) }

#[derive(Value)]
struct St19 { #[sval(index = IX40)] a: bool, #[sval(index = IX41)] b: u8 }
fn structs_18(m: Mode) { let x0 = rt::bool_(); let x1 = rt::u8_(); ck(m, &St19 { a: x0, b: x1 }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("St19")), index: None }, Some(2), vec![(None, ident("a"), Index::new_isize(40), Node::Bool(x0)), (None, ident("b"), Index::new_isize(41), Node::U8(x1))]), None, true) }

#[derive(Value)]
struct St20 { #[sval(label = LAB)] a: &'static str, #[sval(tag = "T2")] #[sval(data_tag = "T1")] b: i64 }
fn structs_19(m: Mode) { let x0 = rt::letters(1); let x1 = rt::i64_(); ck(m, &St20 { a: x0, b: x1 }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("St20")), index: None }, Some(2), vec![(None, lit("lab-path"), off(0), Node::Text(Some(1), vec![(false, x0)])), (Some(T2), ident("b"), off(1), Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(Node::I64(x1))))]), None, true) }

#[derive(Value)]
#[sval(tag = T1)] struct St21 { #[sval(tag = T2)] #[sval(index = 7)] a: i64, b: bool }
fn structs_20(m: Mode) { let x0 = rt::i64_(); let x1 = rt::bool_(); ck(m, &St21 { a: x0, b: x1 }, &Node::RecordTuple(Hdr { tag: Some(T1), label: Some(ident("St21")), index: None }, Some(2), vec![(Some(T2), ident("a"), Index::new_isize(7), Node::I64(x0)), (None, ident("b"), Index::new_isize(8), Node::Bool(x1))]), Some(T1), true) }

#[derive(Value)]
struct St22 { #[sval(flatten)] a: FlatE, b: &'static str }
fn flats_0(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); let x2 = rt::letters(1); ck(m, &St22 { a: FlatE::V { p: x0, q: x1 }, b: x2 }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("St22")), index: None }, None, vec![(None, ident("p"), off(0), Node::U8(x0)), (None, ident("q"), off(1), Node::U8(x1)), (None, ident("b"), off(2), Node::Text(Some(1), vec![(false, x2)]))]), None, false) }

#[derive(Value)]
struct St23 { #[sval(flatten)] a: FlatS, b: Nest, r#type: i64 }
fn flats_1(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); let x2 = rt::u8_(); let x3 = rt::i64_(); ck(m, &St23 { a: FlatS(x0, x1), b: Nest { n: x2 }, r#type: x3 }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("St23")), index: None }, None, vec![(None, computed("0"), off(0), Node::U8(x0)), (None, computed("1"), off(1), Node::U8(x1)), (None, ident("b"), off(2), nest(x2)), (None, ident("type"), off(3), Node::I64(x3))]), None, false) }

#[derive(Value)]
#[sval(index = 3)] struct St24 { #[sval(index = -1)] a: u8, #[sval(flatten)] b: FlatE, #[sval(label = "lbl \"2")] #[sval(index = -4)] r#type: bool }
fn flats_2(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); let x2 = rt::u8_(); let x3 = rt::bool_(); ck(m, &St24 { a: x0, b: FlatE::V { p: x1, q: x2 }, r#type: x3 }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("St24")), index: Some(Index::new_isize(3)) }, None, vec![(None, ident("a"), Index::new_isize(-1), Node::U8(x0)), (None, ident("p"), off(0), Node::U8(x1)), (None, ident("q"), off(1), Node::U8(x2)), (None, lit("lbl \"2"), Index::new_isize(-4), Node::Bool(x3))]), None, false) }

#[derive(Value)]
#[sval(unindexed_fields)] struct St25 { a: u8, b: &'static str }
fn structs_21(m: Mode) { let x0 = rt::u8_(); let x1 = rt::letters(1); ck(m, &St25 { a: x0, b: x1 }, &Node::Record(Hdr { tag: None, label: Some(ident("St25")), index: None }, Some(2), vec![(None, ident("a"), Node::U8(x0)), (None, ident("b"), Node::Text(Some(1), vec![(false, x1)]))]), None, true) }

#[derive(Value)]
#[sval(index = 3)] #[sval(unindexed_fields)] struct St26 { #[sval(tag = "T2")] #[sval(label = LAB)] a: Nest, #[sval(tag = T1, label = "lbl \"1")] b: &'static str }
fn structs_22(m: Mode) { let x0 = rt::u8_(); let x1 = rt::letters(1); ck(m, &St26 { a: Nest { n: x0 }, b: x1 }, &Node::Record(Hdr { tag: None, label: Some(ident("St26")), index: Some(Index::new_isize(3)) }, Some(2), vec![(Some(T2), lit("lab-path"), nest(x0)), (Some(T1), lit("lbl \"1"), Node::Text(Some(1), vec![(false, x1)]))]), None, true) }

#[derive(Value)]
#[sval(tag = T2)] #[sval(index = -2)] #[sval(unindexed_fields)] struct St27 { #[sval(tag = "T2")] a: &'static str, #[sval(tag = T1)] b: Nest }
fn structs_23(m: Mode) { let x0 = rt::letters(1); let x1 = rt::u8_(); ck(m, &St27 { a: x0, b: Nest { n: x1 } }, &Node::Record(Hdr { tag: Some(T2), label: Some(ident("St27")), index: Some(Index::new_isize(-2)) }, Some(2), vec![(Some(T2), ident("a"), Node::Text(Some(1), vec![(false, x0)])), (Some(T1), ident("b"), nest(x1))]), Some(T2), true) }

#[derive(Value)]
#[sval(index = IX40, label = "lbl \"9", unindexed_fields)] struct St28 { a: Nest, b: u8 }
fn structs_24(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); ck(m, &St28 { a: Nest { n: x0 }, b: x1 }, &Node::Record(Hdr { tag: None, label: Some(lit("lbl \"9")), index: Some(Index::new_isize(40)) }, Some(2), vec![(None, ident("a"), nest(x0)), (None, ident("b"), Node::U8(x1))]), None, true) }

#[derive(Value)]
#[sval(label = "lbl \"9")] #[sval(unindexed_fields)] struct St29 { #[sval(data_tag = T2)] a: bool, #[sval(tag = T2)] b: Nest }
fn structs_25(m: Mode) { let x0 = rt::bool_(); let x1 = rt::u8_(); ck(m, &St29 { a: x0, b: Nest { n: x1 } }, &Node::Record(Hdr { tag: None, label: Some(lit("lbl \"9")), index: None }, Some(2), vec![(None, ident("a"), Node::Tagged(Hdr { tag: Some(T2), ..Hdr::default() }, Box::new(Node::Bool(x0)))), (Some(T2), ident("b"), nest(x1))]), None, true) }

#[derive(Value)]
#[sval(unindexed_fields)] struct St30 { a: bool, #[sval(flatten)] b: FlatX }
fn flats_3(m: Mode) { let x0 = rt::bool_(); let x1 = rt::u8_(); let x2 = rt::u8_(); ck(m, &St30 { a: x0, b: FlatX { p: x1, q: x2 } }, &Node::Record(Hdr { tag: None, label: Some(ident("St30")), index: None }, None, vec![(None, ident("a"), Node::Bool(x0)), (None, ident("p"), Node::U8(x1)), (None, ident("q"), Node::U8(x2))]), None, false) }

#[derive(Value)]
#[sval(unindexed_fields)] struct St31 { a: i64, b: Nest, #[sval(flatten)] r#type: FlatN }
fn flats_4(m: Mode) { let x0 = rt::i64_(); let x1 = rt::u8_(); let x2 = rt::u8_(); let x3 = rt::u8_(); ck(m, &St31 { a: x0, b: Nest { n: x1 }, r#type: FlatN { p: x2, q: x3 } }, &Node::Record(Hdr { tag: None, label: Some(ident("St31")), index: None }, None, vec![(None, ident("a"), Node::I64(x0)), (None, ident("b"), nest(x1)), (None, ident("p"), Node::U8(x2)), (None, ident("q"), Node::U8(x3))]), None, false) }

#[derive(Value)]
#[sval(unindexed_fields)] struct St32 { a: bool, #[sval(label = "lbl \"1")] b: i64, #[sval(flatten)] r#type: FlatT }
fn flats_5(m: Mode) { let x0 = rt::bool_(); let x1 = rt::i64_(); let x2 = rt::u8_(); let x3 = rt::u8_(); ck(m, &St32 { a: x0, b: x1, r#type: FlatT(x2, x3) }, &Node::Record(Hdr { tag: None, label: Some(ident("St32")), index: None }, None, vec![(None, ident("a"), Node::Bool(x0)), (None, lit("lbl \"1"), Node::I64(x1)), (None, computed("0"), Node::U8(x2)), (None, computed("1"), Node::U8(x3))]), None, false) }

#[derive(Value)]
#[sval(unlabeled_fields)] struct St33 { a: Nest, b: Nest }
fn structs_26(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); ck(m, &St33 { a: Nest { n: x0 }, b: Nest { n: x1 } }, &Node::Tuple(Hdr { tag: None, label: Some(ident("St33")), index: None }, Some(2), vec![(None, off(0), nest(x0)), (None, off(1), nest(x1))]), None, true) }

#[derive(Value)]
#[sval(tag = "T1", unlabeled_fields)] struct St34 { #[sval(data_tag = "T1")] a: &'static str, #[sval(index = IX40)] b: Nest }
fn structs_27(m: Mode) { let x0 = rt::letters(1); let x1 = rt::u8_(); ck(m, &St34 { a: x0, b: Nest { n: x1 } }, &Node::Tuple(Hdr { tag: Some(T1), label: Some(ident("St34")), index: None }, Some(2), vec![(None, off(0), Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(Node::Text(Some(1), vec![(false, x0)])))), (None, Index::new_isize(40), nest(x1))]), Some(T1), true) }

#[derive(Value)]
#[sval(unlabeled_fields)] struct St35 { a: u8, b: i64 }
fn structs_28(m: Mode) { let x0 = rt::u8_(); let x1 = rt::i64_(); ck(m, &St35 { a: x0, b: x1 }, &Node::Tuple(Hdr { tag: None, label: Some(ident("St35")), index: None }, Some(2), vec![(None, off(0), Node::U8(x0)), (None, off(1), Node::I64(x1))]), None, true) }

#[derive(Value)]
#[sval(tag = T1, index = 3, unlabeled_fields)] struct St36 { a: i64, b: Nest }
fn structs_29(m: Mode) { let x0 = rt::i64_(); let x1 = rt::u8_(); ck(m, &St36 { a: x0, b: Nest { n: x1 } }, &Node::Tuple(Hdr { tag: Some(T1), label: Some(ident("St36")), index: Some(Index::new_isize(3)) }, Some(2), vec![(None, off(0), Node::I64(x0)), (None, off(1), nest(x1))]), Some(T1), true) }

#[derive(Value)]
#[sval(unlabeled_fields)] struct St37 { #[sval(tag = "T1")] a: u8, #[sval(index = IX41)] b: i64 }
fn structs_30(m: Mode) { let x0 = rt::u8_(); let x1 = rt::i64_(); ck(m, &St37 { a: x0, b: x1 }, &Node::Tuple(Hdr { tag: None, label: Some(ident("St37")), index: None }, Some(2), vec![(Some(T1), off(0), Node::U8(x0)), (None, Index::new_isize(41), Node::I64(x1))]), None, true) }

#[derive(Value)]
#[sval(unlabeled_fields)] struct St38 { a: Nest, #[sval(flatten)] b: FlatT }
fn flats_6(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); let x2 = rt::u8_(); ck(m, &St38 { a: Nest { n: x0 }, b: FlatT(x1, x2) }, &Node::Tuple(Hdr { tag: None, label: Some(ident("St38")), index: None }, None, vec![(None, off(0), nest(x0)), (None, off(1), Node::U8(x1)), (None, off(2), Node::U8(x2))]), None, false) }

#[derive(Value)]
#[sval(unlabeled_fields)] struct St39 { a: &'static str, b: Nest, #[sval(flatten)] r#type: FlatX }
fn flats_7(m: Mode) { let x0 = rt::letters(1); let x1 = rt::u8_(); let x2 = rt::u8_(); let x3 = rt::u8_(); ck(m, &St39 { a: x0, b: Nest { n: x1 }, r#type: FlatX { p: x2, q: x3 } }, &Node::Tuple(Hdr { tag: None, label: Some(ident("St39")), index: None }, None, vec![(None, off(0), Node::Text(Some(1), vec![(false, x0)])), (None, off(1), nest(x1)), (None, Index::new_isize(11), Node::U8(x2)), (None, Index::new_isize(12), Node::U8(x3))]), None, false) }

#[derive(Value)]
#[sval(unlabeled_fields)] struct St40 { #[sval(flatten)] a: FlatE, #[sval(data_tag = "T2", index = 2)] b: Nest, #[sval(index = 0)] r#type: i64 }
fn flats_8(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); let x2 = rt::u8_(); let x3 = rt::i64_(); ck(m, &St40 { a: FlatE::V { p: x0, q: x1 }, b: Nest { n: x2 }, r#type: x3 }, &Node::Tuple(Hdr { tag: None, label: Some(ident("St40")), index: None }, None, vec![(None, off(0), Node::U8(x0)), (None, off(1), Node::U8(x1)), (None, Index::new_isize(2), Node::Tagged(Hdr { tag: Some(T2), ..Hdr::default() }, Box::new(nest(x2)))), (None, Index::new_isize(0), Node::I64(x3))]), None, false) }

#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] struct St41 { a: u8, b: u8 }
fn structs_31(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); ck(m, &St41 { a: x0, b: x1 }, &Node::Tagged(Hdr { tag: None, label: Some(ident("St41")), index: None }, Box::new(Node::Seq(Some(2), vec![Node::U8(x0), Node::U8(x1)]))), None, true) }

#[derive(Value)]
#[sval(label = "lbl \"9", tag = T1, index = -2, unlabeled_fields, unindexed_fields)] struct St42 { a: i64, #[sval(tag = T2)] b: bool }
fn structs_32(m: Mode) { let x0 = rt::i64_(); let x1 = rt::bool_(); ck(m, &St42 { a: x0, b: x1 }, &Node::Tagged(Hdr { tag: Some(T1), label: Some(lit("lbl \"9")), index: Some(Index::new_isize(-2)) }, Box::new(Node::Seq(Some(2), vec![Node::I64(x0), Node::Bool(x1)]))), Some(T1), true) }

#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] struct St43 { a: i64, #[sval(tag = T2)] b: u8 }
fn structs_33(m: Mode) { let x0 = rt::i64_(); let x1 = rt::u8_(); ck(m, &St43 { a: x0, b: x1 }, &Node::Tagged(Hdr { tag: None, label: Some(ident("St43")), index: None }, Box::new(Node::Seq(Some(2), vec![Node::I64(x0), Node::U8(x1)]))), None, true) }

#[derive(Value)]
#[sval(index = 0)] #[sval(unlabeled_fields)] #[sval(unindexed_fields)] struct St44 { #[sval(tag = "T1")] #[sval(data_tag = "T1")] a: u8, #[sval(tag = T2, data_tag = "T2")] b: bool }
fn structs_34(m: Mode) { let x0 = rt::u8_(); let x1 = rt::bool_(); ck(m, &St44 { a: x0, b: x1 }, &Node::Tagged(Hdr { tag: None, label: Some(ident("St44")), index: Some(Index::new_isize(0)) }, Box::new(Node::Seq(Some(2), vec![Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(Node::U8(x0))), Node::Tagged(Hdr { tag: Some(T2), ..Hdr::default() }, Box::new(Node::Bool(x1)))]))), None, true) }

#[derive(Value)]
#[sval(tag = "T1")] #[sval(index = 3)] #[sval(unlabeled_fields)] #[sval(unindexed_fields)] struct St45 { #[sval(skip = true)] a: u8, #[sval(tag = "T2")] b: i64 }
fn structs_35(m: Mode) { let x0 = rt::u8_(); let x1 = rt::i64_(); ck(m, &St45 { a: x0, b: x1 }, &Node::Tagged(Hdr { tag: Some(T1), label: Some(ident("St45")), index: Some(Index::new_isize(3)) }, Box::new(Node::Seq(Some(1), vec![Node::I64(x1)]))), Some(T1), true) }

#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] struct St46 { #[sval(flatten)] a: FlatR, b: i64 }
fn flats_9(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); let x2 = rt::i64_(); ck(m, &St46 { a: FlatR { p: x0, q: x1 }, b: x2 }, &Node::Tagged(Hdr { tag: None, label: Some(ident("St46")), index: None }, Box::new(Node::Seq(None, vec![Node::U8(x0), Node::U8(x1), Node::I64(x2)]))), None, false) }

#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] struct St47 { a: &'static str, b: Nest, #[sval(flatten)] r#type: FlatS }
fn flats_10(m: Mode) { let x0 = rt::letters(1); let x1 = rt::u8_(); let x2 = rt::u8_(); let x3 = rt::u8_(); ck(m, &St47 { a: x0, b: Nest { n: x1 }, r#type: FlatS(x2, x3) }, &Node::Tagged(Hdr { tag: None, label: Some(ident("St47")), index: None }, Box::new(Node::Seq(None, vec![Node::Text(Some(1), vec![(false, x0)]), nest(x1), Node::U8(x2), Node::U8(x3)]))), None, false) }

#[derive(Value)]
#[sval(label = LAB)] #[sval(unlabeled_fields)] #[sval(unindexed_fields)] struct St48 { #[sval(flatten)] a: FlatS, b: Nest, r#type: i64 }
fn flats_11(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); let x2 = rt::u8_(); let x3 = rt::i64_(); ck(m, &St48 { a: FlatS(x0, x1), b: Nest { n: x2 }, r#type: x3 }, &Node::Tagged(Hdr { tag: None, label: Some(lit("lab-path")), index: None }, Box::new(Node::Seq(None, vec![Node::U8(x0), Node::U8(x1), nest(x2), Node::I64(x3)]))), None, false) }

#[derive(Value)]
struct St49 { a: u8, b: &'static str, r#type: u8 }
fn structs_36(m: Mode) { let x0 = rt::u8_(); let x1 = rt::letters(1); let x2 = rt::u8_(); ck(m, &St49 { a: x0, b: x1, r#type: x2 }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("St49")), index: None }, Some(3), vec![(None, ident("a"), off(0), Node::U8(x0)), (None, ident("b"), off(1), Node::Text(Some(1), vec![(false, x1)])), (None, ident("type"), off(2), Node::U8(x2))]), None, true) }

#[derive(Value)]
#[sval(tag = "T2")] struct St50 { #[sval(data_tag = T1, index = 2)] a: Nest, #[sval(label = LAB, index = IX41)] b: Nest, #[sval(index = IX40)] r#type: &'static str }
fn structs_37(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); let x2 = rt::letters(1); ck(m, &St50 { a: Nest { n: x0 }, b: Nest { n: x1 }, r#type: x2 }, &Node::RecordTuple(Hdr { tag: Some(T2), label: Some(ident("St50")), index: None }, Some(3), vec![(None, ident("a"), Index::new_isize(2), Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(nest(x0)))), (None, lit("lab-path"), Index::new_isize(41), nest(x1)), (None, ident("type"), Index::new_isize(40), Node::Text(Some(1), vec![(false, x2)]))]), Some(T2), true) }

#[derive(Value)]
struct St51 { #[sval(label = "lbl \"0")] a: u8, #[sval(tag = "T1")] b: bool, #[sval(tag = T1, data_tag = "T2", label = "lbl \"2")] r#type: Nest }
fn structs_38(m: Mode) { let x0 = rt::u8_(); let x1 = rt::bool_(); let x2 = rt::u8_(); ck(m, &St51 { a: x0, b: x1, r#type: Nest { n: x2 } }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("St51")), index: None }, Some(3), vec![(None, lit("lbl \"0"), off(0), Node::U8(x0)), (Some(T1), ident("b"), off(1), Node::Bool(x1)), (Some(T1), lit("lbl \"2"), off(2), Node::Tagged(Hdr { tag: Some(T2), ..Hdr::default() }, Box::new(nest(x2))))]), None, true) }

#[derive(Value)]
struct St52 { a: &'static str, #[sval(tag = "T1")] #[sval(data_tag = T1)] #[sval(label = "lbl \"1")] b: i64, #[sval(data_tag = "T2")] #[sval(label = "lbl \"2")] r#type: u8 }
fn structs_39(m: Mode) { let x0 = rt::letters(1); let x1 = rt::i64_(); let x2 = rt::u8_(); ck(m, &St52 { a: x0, b: x1, r#type: x2 }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("St52")), index: None }, Some(3), vec![(None, ident("a"), off(0), Node::Text(Some(1), vec![(false, x0)])), (Some(T1), lit("lbl \"1"), off(1), Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(Node::I64(x1)))), (None, lit("lbl \"2"), off(2), Node::Tagged(Hdr { tag: Some(T2), ..Hdr::default() }, Box::new(Node::U8(x2))))]), None, true) }

#[derive(Value)]
#[sval(label = "lbl \"9")] struct St53 { a: u8, b: i64, r#type: &'static str }
fn structs_40(m: Mode) { let x0 = rt::u8_(); let x1 = rt::i64_(); let x2 = rt::letters(1); ck(m, &St53 { a: x0, b: x1, r#type: x2 }, &Node::RecordTuple(Hdr { tag: None, label: Some(lit("lbl \"9")), index: None }, Some(3), vec![(None, ident("a"), off(0), Node::U8(x0)), (None, ident("b"), off(1), Node::I64(x1)), (None, ident("type"), off(2), Node::Text(Some(1), vec![(false, x2)]))]), None, true) }

#[derive(Value)]
struct St54 { a: u8, #[sval(flatten)] b: FlatS, #[sval(flatten)] r#type: FlatS }
fn flats_12(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); let x2 = rt::u8_(); let x3 = rt::u8_(); let x4 = rt::u8_(); ck(m, &St54 { a: x0, b: FlatS(x1, x2), r#type: FlatS(x3, x4) }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("St54")), index: None }, None, vec![(None, ident("a"), off(0), Node::U8(x0)), (None, computed("1"), off(1), Node::U8(x1)), (None, computed("2"), off(2), Node::U8(x2)), (None, computed("3"), off(3), Node::U8(x3)), (None, computed("4"), off(4), Node::U8(x4))]), None, false) }

#[derive(Value)]
struct St55 { a: Nest, #[sval(flatten)] b: FlatS, r#type: &'static str, #[sval(flatten)] long_name: FlatE }
fn flats_13(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); let x2 = rt::u8_(); let x3 = rt::letters(1); let x4 = rt::u8_(); let x5 = rt::u8_(); ck(m, &St55 { a: Nest { n: x0 }, b: FlatS(x1, x2), r#type: x3, long_name: FlatE::V { p: x4, q: x5 } }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("St55")), index: None }, None, vec![(None, ident("a"), off(0), nest(x0)), (None, computed("1"), off(1), Node::U8(x1)), (None, computed("2"), off(2), Node::U8(x2)), (None, ident("type"), off(3), Node::Text(Some(1), vec![(false, x3)])), (None, ident("p"), off(4), Node::U8(x4)), (None, ident("q"), off(5), Node::U8(x5))]), None, false) }

#[derive(Value)]
struct St56 { #[sval(flatten)] a: FlatN, #[sval(tag = T1)] #[sval(data_tag = T1)] b: bool, #[sval(flatten)] r#type: FlatS, long_name: &'static str }
fn flats_14(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); let x2 = rt::bool_(); let x3 = rt::u8_(); let x4 = rt::u8_(); let x5 = rt::letters(1); ck(m, &St56 { a: FlatN { p: x0, q: x1 }, b: x2, r#type: FlatS(x3, x4), long_name: x5 }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("St56")), index: None }, None, vec![(None, ident("p"), off(0), Node::U8(x0)), (None, ident("q"), off(1), Node::U8(x1)), (Some(T1), ident("b"), off(2), Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(Node::Bool(x2)))), (None, computed("3"), off(3), Node::U8(x3)), (None, computed("4"), off(4), Node::U8(x4)), (None, ident("long_name"), off(5), Node::Text(Some(1), vec![(false, x5)]))]), None, false) }

#[derive(Value)]
#[sval(unindexed_fields)] struct St57 { a: bool, b: i64, r#type: Nest }
fn structs_41(m: Mode) { let x0 = rt::bool_(); let x1 = rt::i64_(); let x2 = rt::u8_(); ck(m, &St57 { a: x0, b: x1, r#type: Nest { n: x2 } }, &Node::Record(Hdr { tag: None, label: Some(ident("St57")), index: None }, Some(3), vec![(None, ident("a"), Node::Bool(x0)), (None, ident("b"), Node::I64(x1)), (None, ident("type"), nest(x2))]), None, true) }

#[derive(Value)]
#[sval(unindexed_fields)] struct St58 { #[sval(tag = T1)] a: i64, b: Nest, #[sval(data_tag = "T2")] r#type: i64 }
fn structs_42(m: Mode) { let x0 = rt::i64_(); let x1 = rt::u8_(); let x2 = rt::i64_(); ck(m, &St58 { a: x0, b: Nest { n: x1 }, r#type: x2 }, &Node::Record(Hdr { tag: None, label: Some(ident("St58")), index: None }, Some(3), vec![(Some(T1), ident("a"), Node::I64(x0)), (None, ident("b"), nest(x1)), (None, ident("type"), Node::Tagged(Hdr { tag: Some(T2), ..Hdr::default() }, Box::new(Node::I64(x2))))]), None, true) }

#[derive(Value)]
#[sval(label = LAB, unindexed_fields)] struct St59 { a: &'static str, #[sval(tag = "T1")] b: i64, r#type: &'static str }
fn structs_43(m: Mode) { let x0 = rt::letters(1); let x1 = rt::i64_(); let x2 = rt::letters(1); ck(m, &St59 { a: x0, b: x1, r#type: x2 }, &Node::Record(Hdr { tag: None, label: Some(lit("lab-path")), index: None }, Some(3), vec![(None, ident("a"), Node::Text(Some(1), vec![(false, x0)])), (Some(T1), ident("b"), Node::I64(x1)), (None, ident("type"), Node::Text(Some(1), vec![(false, x2)]))]), None, true) }

#[derive(Value)]
#[sval(label = "lbl \"9")] #[sval(unindexed_fields)] struct St60 { #[sval(data_tag = T1)] #[sval(label = "lbl \"0")] a: Nest, #[sval(data_tag = T1)] b: bool, #[sval(data_tag = T2)] r#type: u8 }
fn structs_44(m: Mode) { let x0 = rt::u8_(); let x1 = rt::bool_(); let x2 = rt::u8_(); ck(m, &St60 { a: Nest { n: x0 }, b: x1, r#type: x2 }, &Node::Record(Hdr { tag: None, label: Some(lit("lbl \"9")), index: None }, Some(3), vec![(None, lit("lbl \"0"), Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(nest(x0)))), (None, ident("b"), Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(Node::Bool(x1)))), (None, ident("type"), Node::Tagged(Hdr { tag: Some(T2), ..Hdr::default() }, Box::new(Node::U8(x2))))]), None, true) }

#[derive(Value)]
#[sval(tag = "T1")] #[sval(label = "lbl \"9")] #[sval(index = IX40)] #[sval(unindexed_fields)] struct St61 { a: i64, #[sval(tag = "T2")] b: i64, #[sval(tag = "T2")] r#type: i64 }
fn structs_45(m: Mode) { let x0 = rt::i64_(); let x1 = rt::i64_(); let x2 = rt::i64_(); ck(m, &St61 { a: x0, b: x1, r#type: x2 }, &Node::Record(Hdr { tag: Some(T1), label: Some(lit("lbl \"9")), index: Some(Index::new_isize(40)) }, Some(3), vec![(None, ident("a"), Node::I64(x0)), (Some(T2), ident("b"), Node::I64(x1)), (Some(T2), ident("type"), Node::I64(x2))]), Some(T1), true) }

#[derive(Value)]
#[sval(unindexed_fields)] struct St62 { #[sval(flatten)] a: FlatN, b: u8, r#type: i64 }
fn flats_15(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); let x2 = rt::u8_(); let x3 = rt::i64_(); ck(m, &St62 { a: FlatN { p: x0, q: x1 }, b: x2, r#type: x3 }, &Node::Record(Hdr { tag: None, label: Some(ident("St62")), index: None }, None, vec![(None, ident("p"), Node::U8(x0)), (None, ident("q"), Node::U8(x1)), (None, ident("b"), Node::U8(x2)), (None, ident("type"), Node::I64(x3))]), None, false) }

#[derive(Value)]
#[sval(unindexed_fields)] struct St63 { a: Nest, #[sval(flatten)] b: FlatE, #[sval(flatten)] r#type: FlatX, long_name: bool }
fn flats_16(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); let x2 = rt::u8_(); let x3 = rt::u8_(); let x4 = rt::u8_(); let x5 = rt::bool_(); ck(m, &St63 { a: Nest { n: x0 }, b: FlatE::V { p: x1, q: x2 }, r#type: FlatX { p: x3, q: x4 }, long_name: x5 }, &Node::Record(Hdr { tag: None, label: Some(ident("St63")), index: None }, None, vec![(None, ident("a"), nest(x0)), (None, ident("p"), Node::U8(x1)), (None, ident("q"), Node::U8(x2)), (None, ident("p"), Node::U8(x3)), (None, ident("q"), Node::U8(x4)), (None, ident("long_name"), Node::Bool(x5))]), None, false) }

#[derive(Value)]
#[sval(tag = "T2", unindexed_fields)] struct St64 { #[sval(tag = T2, data_tag = T1)] a: i64, #[sval(data_tag = T2, label = "lbl \"1")] b: u8, #[sval(flatten)] r#type: FlatN, #[sval(data_tag = T1)] long_name: u8 }
fn flats_17(m: Mode) { let x0 = rt::i64_(); let x1 = rt::u8_(); let x2 = rt::u8_(); let x3 = rt::u8_(); let x4 = rt::u8_(); ck(m, &St64 { a: x0, b: x1, r#type: FlatN { p: x2, q: x3 }, long_name: x4 }, &Node::Record(Hdr { tag: Some(T2), label: Some(ident("St64")), index: None }, None, vec![(Some(T2), ident("a"), Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(Node::I64(x0)))), (None, lit("lbl \"1"), Node::Tagged(Hdr { tag: Some(T2), ..Hdr::default() }, Box::new(Node::U8(x1)))), (None, ident("p"), Node::U8(x2)), (None, ident("q"), Node::U8(x3)), (None, ident("long_name"), Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(Node::U8(x4))))]), Some(T2), false) }

#[derive(Value)]
#[sval(unlabeled_fields)] struct St65 { a: i64, b: u8, r#type: u8 }
fn structs_46(m: Mode) { let x0 = rt::i64_(); let x1 = rt::u8_(); let x2 = rt::u8_(); ck(m, &St65 { a: x0, b: x1, r#type: x2 }, &Node::Tuple(Hdr { tag: None, label: Some(ident("St65")), index: None }, Some(3), vec![(None, off(0), Node::I64(x0)), (None, off(1), Node::U8(x1)), (None, off(2), Node::U8(x2))]), None, true) }

#[derive(Value)]
#[sval(unlabeled_fields)] struct St66 { #[sval(data_tag = "T1")] a: bool, b: Nest, r#type: i64 }
fn structs_47(m: Mode) { let x0 = rt::bool_(); let x1 = rt::u8_(); let x2 = rt::i64_(); ck(m, &St66 { a: x0, b: Nest { n: x1 }, r#type: x2 }, &Node::Tuple(Hdr { tag: None, label: Some(ident("St66")), index: None }, Some(3), vec![(None, off(0), Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(Node::Bool(x0)))), (None, off(1), nest(x1)), (None, off(2), Node::I64(x2))]), None, true) }

#[derive(Value)]
#[sval(unlabeled_fields)] struct St67 { #[sval(tag = T2)] a: &'static str, #[sval(skip = true)] b: u8, #[sval(index = 1)] r#type: &'static str }
fn structs_48(m: Mode) { let x0 = rt::letters(1); let x1 = rt::u8_(); let x2 = rt::letters(1); ck(m, &St67 { a: x0, b: x1, r#type: x2 }, &Node::Tuple(Hdr { tag: None, label: Some(ident("St67")), index: None }, Some(2), vec![(Some(T2), off(0), Node::Text(Some(1), vec![(false, x0)])), (None, Index::new_isize(1), Node::Text(Some(1), vec![(false, x2)]))]), None, true) }

#[derive(Value)]
#[sval(label = LAB, tag = "T1", unlabeled_fields)] struct St68 { #[sval(skip = true)] a: &'static str, #[sval(index = -1)] b: Nest, #[sval(tag = T1)] #[sval(index = 7)] r#type: i64 }
fn structs_49(m: Mode) { let x0 = rt::letters(1); let x1 = rt::u8_(); let x2 = rt::i64_(); ck(m, &St68 { a: x0, b: Nest { n: x1 }, r#type: x2 }, &Node::Tuple(Hdr { tag: Some(T1), label: Some(lit("lab-path")), index: None }, Some(2), vec![(None, Index::new_isize(-1), nest(x1)), (Some(T1), Index::new_isize(7), Node::I64(x2))]), Some(T1), true) }

#[derive(Value)]
#[sval(unlabeled_fields)] struct St69 { #[sval(data_tag = "T1")] #[sval(index = 5)] a: u8, #[sval(skip = true)] b: i64, #[sval(index = IX41)] r#type: i64 }
fn structs_50(m: Mode) { let x0 = rt::u8_(); let x1 = rt::i64_(); let x2 = rt::i64_(); ck(m, &St69 { a: x0, b: x1, r#type: x2 }, &Node::Tuple(Hdr { tag: None, label: Some(ident("St69")), index: None }, Some(2), vec![(None, Index::new_isize(5), Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(Node::U8(x0)))), (None, Index::new_isize(41), Node::I64(x2))]), None, true) }

#[derive(Value)]
#[sval(unlabeled_fields)] struct St70 { a: u8, b: u8, #[sval(flatten)] r#type: FlatS }
fn flats_18(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); let x2 = rt::u8_(); let x3 = rt::u8_(); ck(m, &St70 { a: x0, b: x1, r#type: FlatS(x2, x3) }, &Node::Tuple(Hdr { tag: None, label: Some(ident("St70")), index: None }, None, vec![(None, off(0), Node::U8(x0)), (None, off(1), Node::U8(x1)), (None, off(2), Node::U8(x2)), (None, off(3), Node::U8(x3))]), None, false) }

#[derive(Value)]
#[sval(unlabeled_fields)] struct St71 { a: bool, #[sval(flatten)] b: FlatX, r#type: Nest, long_name: bool }
fn flats_19(m: Mode) { let x0 = rt::bool_(); let x1 = rt::u8_(); let x2 = rt::u8_(); let x3 = rt::u8_(); let x4 = rt::bool_(); ck(m, &St71 { a: x0, b: FlatX { p: x1, q: x2 }, r#type: Nest { n: x3 }, long_name: x4 }, &Node::Tuple(Hdr { tag: None, label: Some(ident("St71")), index: None }, None, vec![(None, off(0), Node::Bool(x0)), (None, Index::new_isize(11), Node::U8(x1)), (None, Index::new_isize(12), Node::U8(x2)), (None, off(13), nest(x3)), (None, off(14), Node::Bool(x4))]), None, false) }

#[derive(Value)]
#[sval(label = LAB, unlabeled_fields)] struct St72 { #[sval(tag = T2, index = 2)] a: &'static str, b: i64, #[sval(flatten)] r#type: FlatS, #[sval(data_tag = T1, index = 5)] long_name: bool }
fn flats_20(m: Mode) { let x0 = rt::letters(1); let x1 = rt::i64_(); let x2 = rt::u8_(); let x3 = rt::u8_(); let x4 = rt::bool_(); ck(m, &St72 { a: x0, b: x1, r#type: FlatS(x2, x3), long_name: x4 }, &Node::Tuple(Hdr { tag: None, label: Some(lit("lab-path")), index: None }, None, vec![(Some(T2), Index::new_isize(2), Node::Text(Some(1), vec![(false, x0)])), (None, Index::new_isize(3), Node::I64(x1)), (None, off(4), Node::U8(x2)), (None, off(5), Node::U8(x3)), (None, Index::new_isize(5), Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(Node::Bool(x4))))]), None, false) }

#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] struct St73 { a: u8, b: &'static str, r#type: bool }
fn structs_51(m: Mode) { let x0 = rt::u8_(); let x1 = rt::letters(1); let x2 = rt::bool_(); ck(m, &St73 { a: x0, b: x1, r#type: x2 }, &Node::Tagged(Hdr { tag: None, label: Some(ident("St73")), index: None }, Box::new(Node::Seq(Some(3), vec![Node::U8(x0), Node::Text(Some(1), vec![(false, x1)]), Node::Bool(x2)]))), None, true) }

#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] struct St74 { a: Nest, #[sval(skip = true)] b: u8, #[sval(skip)] r#type: u8 }
fn structs_52(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); let x2 = rt::u8_(); ck(m, &St74 { a: Nest { n: x0 }, b: x1, r#type: x2 }, &Node::Tagged(Hdr { tag: None, label: Some(ident("St74")), index: None }, Box::new(Node::Seq(Some(1), vec![nest(x0)]))), None, true) }

#[derive(Value)]
#[sval(index = 3, unlabeled_fields, unindexed_fields)] struct St75 { a: bool, #[sval(skip)] b: bool, #[sval(tag = T2)] #[sval(data_tag = T1)] r#type: i64 }
fn structs_53(m: Mode) { let x0 = rt::bool_(); let x1 = rt::bool_(); let x2 = rt::i64_(); ck(m, &St75 { a: x0, b: x1, r#type: x2 }, &Node::Tagged(Hdr { tag: None, label: Some(ident("St75")), index: Some(Index::new_isize(3)) }, Box::new(Node::Seq(Some(2), vec![Node::Bool(x0), Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(Node::I64(x2)))]))), None, true) }

#[derive(Value)]
#[sval(tag = "T1", unlabeled_fields, unindexed_fields)] struct St76 { a: &'static str, #[sval(tag = "T2")] #[sval(data_tag = "T1")] b: i64, #[sval(tag = "T2")] r#type: Nest }
fn structs_54(m: Mode) { let x0 = rt::letters(1); let x1 = rt::i64_(); let x2 = rt::u8_(); ck(m, &St76 { a: x0, b: x1, r#type: Nest { n: x2 } }, &Node::Tagged(Hdr { tag: Some(T1), label: Some(ident("St76")), index: None }, Box::new(Node::Seq(Some(3), vec![Node::Text(Some(1), vec![(false, x0)]), Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(Node::I64(x1))), nest(x2)]))), Some(T1), true) }

#[derive(Value)]
#[sval(tag = T2)] #[sval(label = "lbl \"9")] #[sval(unlabeled_fields)] #[sval(unindexed_fields)] struct St77 { a: u8, b: Nest, #[sval(tag = "T2")] #[sval(data_tag = T1)] r#type: bool }
fn structs_55(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); let x2 = rt::bool_(); ck(m, &St77 { a: x0, b: Nest { n: x1 }, r#type: x2 }, &Node::Tagged(Hdr { tag: Some(T2), label: Some(lit("lbl \"9")), index: None }, Box::new(Node::Seq(Some(3), vec![Node::U8(x0), nest(x1), Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(Node::Bool(x2)))]))), Some(T2), true) }

#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] struct St78 { #[sval(flatten)] a: FlatS, #[sval(flatten)] b: FlatN, r#type: bool }
fn flats_21(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); let x2 = rt::u8_(); let x3 = rt::u8_(); let x4 = rt::bool_(); ck(m, &St78 { a: FlatS(x0, x1), b: FlatN { p: x2, q: x3 }, r#type: x4 }, &Node::Tagged(Hdr { tag: None, label: Some(ident("St78")), index: None }, Box::new(Node::Seq(None, vec![Node::U8(x0), Node::U8(x1), Node::U8(x2), Node::U8(x3), Node::Bool(x4)]))), None, false) }

#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] struct St79 { #[sval(flatten)] a: FlatR, b: u8, r#type: u8, long_name: i64 }
fn flats_22(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); let x2 = rt::u8_(); let x3 = rt::u8_(); let x4 = rt::i64_(); ck(m, &St79 { a: FlatR { p: x0, q: x1 }, b: x2, r#type: x3, long_name: x4 }, &Node::Tagged(Hdr { tag: None, label: Some(ident("St79")), index: None }, Box::new(Node::Seq(None, vec![Node::U8(x0), Node::U8(x1), Node::U8(x2), Node::U8(x3), Node::I64(x4)]))), None, false) }

#[derive(Value)]
#[sval(label = "lbl \"9", unlabeled_fields, unindexed_fields)] struct St80 { #[sval(flatten)] a: FlatS, b: Nest, r#type: Nest, #[sval(data_tag = "T2")] long_name: u8 }
fn flats_23(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); let x2 = rt::u8_(); let x3 = rt::u8_(); let x4 = rt::u8_(); ck(m, &St80 { a: FlatS(x0, x1), b: Nest { n: x2 }, r#type: Nest { n: x3 }, long_name: x4 }, &Node::Tagged(Hdr { tag: None, label: Some(lit("lbl \"9")), index: None }, Box::new(Node::Seq(None, vec![Node::U8(x0), Node::U8(x1), nest(x2), nest(x3), Node::Tagged(Hdr { tag: Some(T2), ..Hdr::default() }, Box::new(Node::U8(x4)))]))), None, false) }

#[derive(Value)]
struct St81();
fn structs_56(m: Mode) {  ck(m, &St81(), &Node::Tuple(Hdr { tag: None, label: Some(ident("St81")), index: None }, Some(0), vec![]), None, true) }

#[derive(Value)]
#[sval(label = "lbl \"9")] struct St82();
fn structs_57(m: Mode) {  ck(m, &St82(), &Node::Tuple(Hdr { tag: None, label: Some(lit("lbl \"9")), index: None }, Some(0), vec![]), None, true) }

#[derive(Value)]
#[sval(unindexed_fields)] struct St83();
fn structs_58(m: Mode) {  ck(m, &St83(), &Node::Tuple(Hdr { tag: None, label: Some(ident("St83")), index: None }, Some(0), vec![]), None, true) }

#[derive(Value)]
#[sval(label = "lbl \"9")] #[sval(unindexed_fields)] struct St84();
fn structs_59(m: Mode) {  ck(m, &St84(), &Node::Tuple(Hdr { tag: None, label: Some(lit("lbl \"9")), index: None }, Some(0), vec![]), None, true) }

#[derive(Value)]
#[sval(unlabeled_fields)] struct St85();
fn structs_60(m: Mode) {  ck(m, &St85(), &Node::Tuple(Hdr { tag: None, label: Some(ident("St85")), index: None }, Some(0), vec![]), None, true) }

#[derive(Value)]
#[sval(label = "lbl \"9", tag = T1, unlabeled_fields)] struct St86();
fn structs_61(m: Mode) {  ck(m, &St86(), &Node::Tuple(Hdr { tag: Some(T1), label: Some(lit("lbl \"9")), index: None }, Some(0), vec![]), Some(T1), true) }

#[derive(Value)]
#[sval(unlabeled_fields)] #[sval(unindexed_fields)] struct St87();
fn structs_62(m: Mode) {  ck(m, &St87(), &Node::Tuple(Hdr { tag: None, label: Some(ident("St87")), index: None }, Some(0), vec![]), None, true) }

#[derive(Value)]
#[sval(index = -2, unlabeled_fields, unindexed_fields)] struct St88();
fn structs_63(m: Mode) {  ck(m, &St88(), &Node::Tuple(Hdr { tag: None, label: Some(ident("St88")), index: Some(Index::new_isize(-2)) }, Some(0), vec![]), None, true) }

#[derive(Value)]
struct St89(i64, i64);
fn structs_64(m: Mode) { let x0 = rt::i64_(); let x1 = rt::i64_(); ck(m, &St89(x0, x1), &Node::Tuple(Hdr { tag: None, label: Some(ident("St89")), index: None }, Some(2), vec![(None, off(0), Node::I64(x0)), (None, off(1), Node::I64(x1))]), None, true) }

#[derive(Value)]
struct St90(#[sval(tag = "T1")] u8, #[sval(tag = T2)] #[sval(index = 5)] Nest);
fn structs_65(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); ck(m, &St90(x0, Nest { n: x1 }), &Node::Tuple(Hdr { tag: None, label: Some(ident("St90")), index: None }, Some(2), vec![(Some(T1), off(0), Node::U8(x0)), (Some(T2), Index::new_isize(5), nest(x1))]), None, true) }

#[derive(Value)]
struct St91(#[sval(tag = T2)] #[sval(label = "lbl \"0")] &'static str, #[sval(label = LAB)] #[sval(index = 2)] i64);
fn structs_66(m: Mode) { let x0 = rt::letters(1); let x1 = rt::i64_(); ck(m, &St91(x0, x1), &Node::RecordTuple(Hdr { tag: None, label: Some(ident("St91")), index: None }, Some(2), vec![(Some(T2), lit("lbl \"0"), off(0), Node::Text(Some(1), vec![(false, x0)])), (None, lit("lab-path"), Index::new_isize(2), Node::I64(x1))]), None, true) }

#[derive(Value)]
#[sval(tag = "T1")] #[sval(index = 0)] struct St92(#[sval(tag = "T2")] #[sval(label = LAB)] Nest, #[sval(data_tag = "T2")] #[sval(label = "lbl \"1")] #[sval(index = -4)] &'static str);
fn structs_67(m: Mode) { let x0 = rt::u8_(); let x1 = rt::letters(1); ck(m, &St92(Nest { n: x0 }, x1), &Node::RecordTuple(Hdr { tag: Some(T1), label: Some(ident("St92")), index: Some(Index::new_isize(0)) }, Some(2), vec![(Some(T2), lit("lab-path"), off(0), nest(x0)), (None, lit("lbl \"1"), Index::new_isize(-4), Node::Tagged(Hdr { tag: Some(T2), ..Hdr::default() }, Box::new(Node::Text(Some(1), vec![(false, x1)]))))]), Some(T1), true) }

#[derive(Value)]
#[sval(tag = T2, index = IX40)] struct St93(#[sval(label = "lbl \"0")] #[sval(index = 1)] u8, #[sval(label = LAB)] #[sval(index = 0)] &'static str);
fn structs_68(m: Mode) { let x0 = rt::u8_(); let x1 = rt::letters(1); ck(m, &St93(x0, x1), &Node::RecordTuple(Hdr { tag: Some(T2), label: Some(ident("St93")), index: Some(Index::new_isize(40)) }, Some(2), vec![(None, lit("lbl \"0"), Index::new_isize(1), Node::U8(x0)), (None, lit("lab-path"), Index::new_isize(0), Node::Text(Some(1), vec![(false, x1)]))]), Some(T2), true) }

#[derive(Value)]
struct St94(Nest, #[sval(flatten)] FlatE);
fn flats_24(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); let x2 = rt::u8_(); ck(m, &St94(Nest { n: x0 }, FlatE::V { p: x1, q: x2 }), &Node::Tuple(Hdr { tag: None, label: Some(ident("St94")), index: None }, None, vec![(None, off(0), nest(x0)), (None, off(1), Node::U8(x1)), (None, off(2), Node::U8(x2))]), None, false) }

#[derive(Value)]
struct St95(Nest, i64, #[sval(flatten)] FlatE);
fn flats_25(m: Mode) { let x0 = rt::u8_(); let x1 = rt::i64_(); let x2 = rt::u8_(); let x3 = rt::u8_(); ck(m, &St95(Nest { n: x0 }, x1, FlatE::V { p: x2, q: x3 }), &Node::Tuple(Hdr { tag: None, label: Some(ident("St95")), index: None }, None, vec![(None, off(0), nest(x0)), (None, off(1), Node::I64(x1)), (None, off(2), Node::U8(x2)), (None, off(3), Node::U8(x3))]), None, false) }

#[derive(Value)]
#[sval(label = "lbl \"9")] #[sval(index = 0)] #[sval(tag = T1)] struct St96(#[sval(tag = T2)] #[sval(label = "lbl \"0")] i64, #[sval(label = "lbl \"1")] &'static str, #[sval(flatten)] #[sval(label = LAB)] FlatN);
fn flats_26(m: Mode) { let x0 = rt::i64_(); let x1 = rt::letters(1); let x2 = rt::u8_(); let x3 = rt::u8_(); ck(m, &St96(x0, x1, FlatN { p: x2, q: x3 }), &Node::RecordTuple(Hdr { tag: Some(T1), label: Some(lit("lbl \"9")), index: Some(Index::new_isize(0)) }, None, vec![(Some(T2), lit("lbl \"0"), off(0), Node::I64(x0)), (None, lit("lbl \"1"), off(1), Node::Text(Some(1), vec![(false, x1)])), (None, ident("p"), off(2), Node::U8(x2)), (None, ident("q"), off(3), Node::U8(x3))]), Some(T1), false) }

#[derive(Value)]
#[sval(unindexed_fields)] struct St97(&'static str, bool);
fn structs_69(m: Mode) { let x0 = rt::letters(1); let x1 = rt::bool_(); ck(m, &St97(x0, x1), &Node::Tagged(Hdr { tag: None, label: Some(ident("St97")), index: None }, Box::new(Node::Seq(Some(2), vec![Node::Text(Some(1), vec![(false, x0)]), Node::Bool(x1)]))), None, true) }

#[derive(Value)]
#[sval(label = "lbl \"9")] #[sval(unindexed_fields)] struct St98(#[sval(tag = "T2", data_tag = "T2")] Nest, Nest);
fn structs_70(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); ck(m, &St98(Nest { n: x0 }, Nest { n: x1 }), &Node::Tagged(Hdr { tag: None, label: Some(lit("lbl \"9")), index: None }, Box::new(Node::Seq(Some(2), vec![Node::Tagged(Hdr { tag: Some(T2), ..Hdr::default() }, Box::new(nest(x0))), nest(x1)]))), None, true) }

#[derive(Value)]
#[sval(tag = T1)] #[sval(unindexed_fields)] struct St99(#[sval(tag = "T2")] &'static str, #[sval(tag = T1)] &'static str);
fn structs_71(m: Mode) { let x0 = rt::letters(1); let x1 = rt::letters(1); ck(m, &St99(x0, x1), &Node::Tagged(Hdr { tag: Some(T1), label: Some(ident("St99")), index: None }, Box::new(Node::Seq(Some(2), vec![Node::Text(Some(1), vec![(false, x0)]), Node::Text(Some(1), vec![(false, x1)])]))), Some(T1), true) }

#[derive(Value)]
#[sval(tag = "T1")] #[sval(label = "lbl \"9")] #[sval(unindexed_fields)] struct St100(#[sval(tag = "T1")] &'static str, u8);
fn structs_72(m: Mode) { let x0 = rt::letters(1); let x1 = rt::u8_(); ck(m, &St100(x0, x1), &Node::Tagged(Hdr { tag: Some(T1), label: Some(lit("lbl \"9")), index: None }, Box::new(Node::Seq(Some(2), vec![Node::Text(Some(1), vec![(false, x0)]), Node::U8(x1)]))), Some(T1), true) }

#[derive(Value)]
#[sval(label = "lbl \"9")] #[sval(unindexed_fields)] struct St101(#[sval(skip)] &'static str, i64);
fn structs_73(m: Mode) { let x0 = rt::letters(1); let x1 = rt::i64_(); ck(m, &St101(x0, x1), &Node::Tagged(Hdr { tag: None, label: Some(lit("lbl \"9")), index: None }, Box::new(Node::Seq(Some(1), vec![Node::I64(x1)]))), None, true) }

#[derive(Value)]
#[sval(unindexed_fields)] struct St102(u8, #[sval(flatten)] FlatR);
fn flats_27(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); let x2 = rt::u8_(); ck(m, &St102(x0, FlatR { p: x1, q: x2 }), &Node::Tagged(Hdr { tag: None, label: Some(ident("St102")), index: None }, Box::new(Node::Seq(None, vec![Node::U8(x0), Node::U8(x1), Node::U8(x2)]))), None, false) }

#[derive(Value)]
#[sval(unindexed_fields)] struct St103(&'static str, #[sval(flatten)] FlatS, &'static str);
fn flats_28(m: Mode) { let x0 = rt::letters(1); let x1 = rt::u8_(); let x2 = rt::u8_(); let x3 = rt::letters(1); ck(m, &St103(x0, FlatS(x1, x2), x3), &Node::Tagged(Hdr { tag: None, label: Some(ident("St103")), index: None }, Box::new(Node::Seq(None, vec![Node::Text(Some(1), vec![(false, x0)]), Node::U8(x1), Node::U8(x2), Node::Text(Some(1), vec![(false, x3)])]))), None, false) }

#[derive(Value)]
#[sval(unindexed_fields)] struct St104(#[sval(tag = "T2")] Nest, #[sval(flatten)] FlatR, bool);
fn flats_29(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); let x2 = rt::u8_(); let x3 = rt::bool_(); ck(m, &St104(Nest { n: x0 }, FlatR { p: x1, q: x2 }, x3), &Node::Tagged(Hdr { tag: None, label: Some(ident("St104")), index: None }, Box::new(Node::Seq(None, vec![nest(x0), Node::U8(x1), Node::U8(x2), Node::Bool(x3)]))), None, false) }

#[derive(Value)]
#[sval(unlabeled_fields)] struct St105(bool, i64);
fn structs_74(m: Mode) { let x0 = rt::bool_(); let x1 = rt::i64_(); ck(m, &St105(x0, x1), &Node::Tuple(Hdr { tag: None, label: Some(ident("St105")), index: None }, Some(2), vec![(None, off(0), Node::Bool(x0)), (None, off(1), Node::I64(x1))]), None, true) }

#[derive(Value)]
#[sval(tag = "T1", unlabeled_fields)] struct St106(u8, Nest);
fn structs_75(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); ck(m, &St106(x0, Nest { n: x1 }), &Node::Tuple(Hdr { tag: Some(T1), label: Some(ident("St106")), index: None }, Some(2), vec![(None, off(0), Node::U8(x0)), (None, off(1), nest(x1))]), Some(T1), true) }

#[derive(Value)]
#[sval(label = LAB)] #[sval(unlabeled_fields)] struct St107(#[sval(tag = T1)] Nest, i64);
fn structs_76(m: Mode) { let x0 = rt::u8_(); let x1 = rt::i64_(); ck(m, &St107(Nest { n: x0 }, x1), &Node::Tuple(Hdr { tag: None, label: Some(lit("lab-path")), index: None }, Some(2), vec![(Some(T1), off(0), nest(x0)), (None, off(1), Node::I64(x1))]), None, true) }

#[derive(Value)]
#[sval(index = 0)] #[sval(unlabeled_fields)] struct St108(u8, #[sval(data_tag = T1)] &'static str);
fn structs_77(m: Mode) { let x0 = rt::u8_(); let x1 = rt::letters(1); ck(m, &St108(x0, x1), &Node::Tuple(Hdr { tag: None, label: Some(ident("St108")), index: Some(Index::new_isize(0)) }, Some(2), vec![(None, off(0), Node::U8(x0)), (None, off(1), Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(Node::Text(Some(1), vec![(false, x1)]))))]), None, true) }

#[derive(Value)]
#[sval(label = "lbl \"9", tag = T2, unlabeled_fields)] struct St109(#[sval(index = -4)] i64, #[sval(skip = true)] i64);
fn structs_78(m: Mode) { let x0 = rt::i64_(); let x1 = rt::i64_(); ck(m, &St109(x0, x1), &Node::Tuple(Hdr { tag: Some(T2), label: Some(lit("lbl \"9")), index: None }, Some(1), vec![(None, Index::new_isize(-4), Node::I64(x0))]), Some(T2), true) }

#[derive(Value)]
#[sval(unlabeled_fields)] struct St110(&'static str, #[sval(flatten)] FlatR);
fn flats_30(m: Mode) { let x0 = rt::letters(1); let x1 = rt::u8_(); let x2 = rt::u8_(); ck(m, &St110(x0, FlatR { p: x1, q: x2 }), &Node::Tuple(Hdr { tag: None, label: Some(ident("St110")), index: None }, None, vec![(None, off(0), Node::Text(Some(1), vec![(false, x0)])), (None, off(1), Node::U8(x1)), (None, off(2), Node::U8(x2))]), None, false) }

#[derive(Value)]
#[sval(unlabeled_fields)] struct St111(#[sval(flatten)] FlatX, i64, #[sval(flatten)] FlatE);
fn flats_31(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); let x2 = rt::i64_(); let x3 = rt::u8_(); let x4 = rt::u8_(); ck(m, &St111(FlatX { p: x0, q: x1 }, x2, FlatE::V { p: x3, q: x4 }), &Node::Tuple(Hdr { tag: None, label: Some(ident("St111")), index: None }, None, vec![(None, Index::new_isize(11), Node::U8(x0)), (None, Index::new_isize(12), Node::U8(x1)), (None, off(13), Node::I64(x2)), (None, off(14), Node::U8(x3)), (None, off(15), Node::U8(x4))]), None, false) }

#[derive(Value)]
#[sval(tag = T2)] #[sval(unlabeled_fields)] struct St112(bool, #[sval(tag = T2)] #[sval(data_tag = T2)] i64, #[sval(flatten)] FlatE);
fn flats_32(m: Mode) { let x0 = rt::bool_(); let x1 = rt::i64_(); let x2 = rt::u8_(); let x3 = rt::u8_(); ck(m, &St112(x0, x1, FlatE::V { p: x2, q: x3 }), &Node::Tuple(Hdr { tag: Some(T2), label: Some(ident("St112")), index: None }, None, vec![(None, off(0), Node::Bool(x0)), (Some(T2), off(1), Node::Tagged(Hdr { tag: Some(T2), ..Hdr::default() }, Box::new(Node::I64(x1)))), (None, off(2), Node::U8(x2)), (None, off(3), Node::U8(x3))]), Some(T2), false) }

#[derive(Value)]
#[sval(unlabeled_fields)] #[sval(unindexed_fields)] struct St113(bool, u8);
fn structs_79(m: Mode) { let x0 = rt::bool_(); let x1 = rt::u8_(); ck(m, &St113(x0, x1), &Node::Tagged(Hdr { tag: None, label: Some(ident("St113")), index: None }, Box::new(Node::Seq(Some(2), vec![Node::Bool(x0), Node::U8(x1)]))), None, true) }

#[derive(Value)]
#[sval(label = LAB, tag = T2, unlabeled_fields, unindexed_fields)] struct St114(u8, #[sval(data_tag = "T1")] i64);
fn structs_80(m: Mode) { let x0 = rt::u8_(); let x1 = rt::i64_(); ck(m, &St114(x0, x1), &Node::Tagged(Hdr { tag: Some(T2), label: Some(lit("lab-path")), index: None }, Box::new(Node::Seq(Some(2), vec![Node::U8(x0), Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(Node::I64(x1)))]))), Some(T2), true) }

#[derive(Value)]
#[sval(label = "lbl \"9", tag = T1, unlabeled_fields, unindexed_fields)] struct St115(#[sval(skip)] &'static str, bool);
fn structs_81(m: Mode) { let x0 = rt::letters(1); let x1 = rt::bool_(); ck(m, &St115(x0, x1), &Node::Tagged(Hdr { tag: Some(T1), label: Some(lit("lbl \"9")), index: None }, Box::new(Node::Seq(Some(1), vec![Node::Bool(x1)]))), Some(T1), true) }

#[derive(Value)]
#[sval(index = IX40)] #[sval(label = "lbl \"9")] #[sval(unlabeled_fields)] #[sval(unindexed_fields)] struct St116(u8, i64);
fn structs_82(m: Mode) { let x0 = rt::u8_(); let x1 = rt::i64_(); ck(m, &St116(x0, x1), &Node::Tagged(Hdr { tag: None, label: Some(lit("lbl \"9")), index: Some(Index::new_isize(40)) }, Box::new(Node::Seq(Some(2), vec![Node::U8(x0), Node::I64(x1)]))), None, true) }

#[derive(Value)]
#[sval(label = LAB)] #[sval(index = 3)] #[sval(unlabeled_fields)] #[sval(unindexed_fields)] struct St117(#[sval(skip = true)] i64, u8);
fn structs_83(m: Mode) { let x0 = rt::i64_(); let x1 = rt::u8_(); ck(m, &St117(x0, x1), &Node::Tagged(Hdr { tag: None, label: Some(lit("lab-path")), index: Some(Index::new_isize(3)) }, Box::new(Node::Seq(Some(1), vec![Node::U8(x1)]))), None, true) }

#[derive(Value)]
#[sval(unlabeled_fields)] #[sval(unindexed_fields)] struct St118(u8, #[sval(flatten)] FlatE);
fn flats_33(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); let x2 = rt::u8_(); ck(m, &St118(x0, FlatE::V { p: x1, q: x2 }), &Node::Tagged(Hdr { tag: None, label: Some(ident("St118")), index: None }, Box::new(Node::Seq(None, vec![Node::U8(x0), Node::U8(x1), Node::U8(x2)]))), None, false) }

#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] struct St119(Nest, Nest, #[sval(flatten)] FlatR);
fn flats_34(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); let x2 = rt::u8_(); let x3 = rt::u8_(); ck(m, &St119(Nest { n: x0 }, Nest { n: x1 }, FlatR { p: x2, q: x3 }), &Node::Tagged(Hdr { tag: None, label: Some(ident("St119")), index: None }, Box::new(Node::Seq(None, vec![nest(x0), nest(x1), Node::U8(x2), Node::U8(x3)]))), None, false) }

#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] struct St120(#[sval(flatten)] FlatT, #[sval(flatten)] FlatX, #[sval(tag = "T1")] Nest);
fn flats_35(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); let x2 = rt::u8_(); let x3 = rt::u8_(); let x4 = rt::u8_(); ck(m, &St120(FlatT(x0, x1), FlatX { p: x2, q: x3 }, Nest { n: x4 }), &Node::Tagged(Hdr { tag: None, label: Some(ident("St120")), index: None }, Box::new(Node::Seq(None, vec![Node::U8(x0), Node::U8(x1), Node::U8(x2), Node::U8(x3), nest(x4)]))), None, false) }

#[derive(Value)]
struct St121(u8, bool, Nest);
fn structs_84(m: Mode) { let x0 = rt::u8_(); let x1 = rt::bool_(); let x2 = rt::u8_(); ck(m, &St121(x0, x1, Nest { n: x2 }), &Node::Tuple(Hdr { tag: None, label: Some(ident("St121")), index: None }, Some(3), vec![(None, off(0), Node::U8(x0)), (None, off(1), Node::Bool(x1)), (None, off(2), nest(x2))]), None, true) }

#[derive(Value)]
struct St122(i64, #[sval(tag = T2)] Nest, #[sval(skip)] Nest);
fn structs_85(m: Mode) { let x0 = rt::i64_(); let x1 = rt::u8_(); let x2 = rt::u8_(); ck(m, &St122(x0, Nest { n: x1 }, Nest { n: x2 }), &Node::Tuple(Hdr { tag: None, label: Some(ident("St122")), index: None }, Some(2), vec![(None, off(0), Node::I64(x0)), (Some(T2), off(1), nest(x1))]), None, true) }

#[derive(Value)]
#[sval(index = 3)] struct St123(#[sval(label = "lbl \"0")] &'static str, #[sval(tag = T2, data_tag = T1, label = "lbl \"1", index = 7)] bool, #[sval(label = "lbl \"2")] bool);
fn structs_86(m: Mode) { let x0 = rt::letters(1); let x1 = rt::bool_(); let x2 = rt::bool_(); ck(m, &St123(x0, x1, x2), &Node::RecordTuple(Hdr { tag: None, label: Some(ident("St123")), index: Some(Index::new_isize(3)) }, Some(3), vec![(None, lit("lbl \"0"), off(0), Node::Text(Some(1), vec![(false, x0)])), (Some(T2), lit("lbl \"1"), Index::new_isize(7), Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(Node::Bool(x1)))), (None, lit("lbl \"2"), Index::new_isize(8), Node::Bool(x2))]), None, true) }

#[derive(Value)]
#[sval(tag = "T2", index = IX40)] struct St124(#[sval(tag = "T1")] #[sval(index = 2)] u8, i64, #[sval(index = IX41)] bool);
fn structs_87(m: Mode) { let x0 = rt::u8_(); let x1 = rt::i64_(); let x2 = rt::bool_(); ck(m, &St124(x0, x1, x2), &Node::Tuple(Hdr { tag: Some(T2), label: Some(ident("St124")), index: Some(Index::new_isize(40)) }, Some(3), vec![(Some(T1), Index::new_isize(2), Node::U8(x0)), (None, Index::new_isize(3), Node::I64(x1)), (None, Index::new_isize(41), Node::Bool(x2))]), Some(T2), true) }

#[derive(Value)]
#[sval(index = IX40)] #[sval(tag = T1)] struct St125(#[sval(index = 0)] i64, #[sval(tag = T2)] #[sval(index = 2)] Nest, #[sval(skip = true)] Nest);
fn structs_88(m: Mode) { let x0 = rt::i64_(); let x1 = rt::u8_(); let x2 = rt::u8_(); ck(m, &St125(x0, Nest { n: x1 }, Nest { n: x2 }), &Node::Tuple(Hdr { tag: Some(T1), label: Some(ident("St125")), index: Some(Index::new_isize(40)) }, Some(2), vec![(None, Index::new_isize(0), Node::I64(x0)), (Some(T2), Index::new_isize(2), nest(x1))]), Some(T1), true) }

#[derive(Value)]
struct St126(#[sval(flatten)] FlatT, #[sval(flatten)] FlatR, &'static str);
fn flats_36(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); let x2 = rt::u8_(); let x3 = rt::u8_(); let x4 = rt::letters(1); ck(m, &St126(FlatT(x0, x1), FlatR { p: x2, q: x3 }, x4), &Node::Tuple(Hdr { tag: None, label: Some(ident("St126")), index: None }, None, vec![(None, off(0), Node::U8(x0)), (None, off(1), Node::U8(x1)), (None, off(2), Node::U8(x2)), (None, off(3), Node::U8(x3)), (None, off(4), Node::Text(Some(1), vec![(false, x4)]))]), None, false) }

#[derive(Value)]
struct St127(u8, &'static str, #[sval(flatten)] FlatX, u8);
fn flats_37(m: Mode) { let x0 = rt::u8_(); let x1 = rt::letters(1); let x2 = rt::u8_(); let x3 = rt::u8_(); let x4 = rt::u8_(); ck(m, &St127(x0, x1, FlatX { p: x2, q: x3 }, x4), &Node::Tuple(Hdr { tag: None, label: Some(ident("St127")), index: None }, None, vec![(None, off(0), Node::U8(x0)), (None, off(1), Node::Text(Some(1), vec![(false, x1)])), (None, Index::new_isize(11), Node::U8(x2)), (None, Index::new_isize(12), Node::U8(x3)), (None, off(13), Node::U8(x4))]), None, false) }

#[derive(Value)]
struct St128(#[sval(flatten, label = LAB)] FlatN, #[sval(flatten)] #[sval(label = "lbl \"1")] FlatT, #[sval(label = "lbl \"2")] i64, #[sval(tag = "T1", label = "lbl \"3")] &'static str);
fn flats_38(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); let x2 = rt::u8_(); let x3 = rt::u8_(); let x4 = rt::i64_(); let x5 = rt::letters(1); ck(m, &St128(FlatN { p: x0, q: x1 }, FlatT(x2, x3), x4, x5), &Node::RecordTuple(Hdr { tag: None, label: Some(ident("St128")), index: None }, None, vec![(None, ident("p"), off(0), Node::U8(x0)), (None, ident("q"), off(1), Node::U8(x1)), (None, computed("2"), off(2), Node::U8(x2)), (None, computed("3"), off(3), Node::U8(x3)), (None, lit("lbl \"2"), off(4), Node::I64(x4)), (Some(T1), lit("lbl \"3"), off(5), Node::Text(Some(1), vec![(false, x5)]))]), None, false) }

#[derive(Value)]
#[sval(unindexed_fields)] struct St129(i64, i64, Nest);
fn structs_89(m: Mode) { let x0 = rt::i64_(); let x1 = rt::i64_(); let x2 = rt::u8_(); ck(m, &St129(x0, x1, Nest { n: x2 }), &Node::Tagged(Hdr { tag: None, label: Some(ident("St129")), index: None }, Box::new(Node::Seq(Some(3), vec![Node::I64(x0), Node::I64(x1), nest(x2)]))), None, true) }

#[derive(Value)]
#[sval(tag = "T2", unindexed_fields)] struct St130(#[sval(data_tag = T2)] &'static str, #[sval(tag = T1)] u8, #[sval(skip)] u8);
fn structs_90(m: Mode) { let x0 = rt::letters(1); let x1 = rt::u8_(); let x2 = rt::u8_(); ck(m, &St130(x0, x1, x2), &Node::Tagged(Hdr { tag: Some(T2), label: Some(ident("St130")), index: None }, Box::new(Node::Seq(Some(2), vec![Node::Tagged(Hdr { tag: Some(T2), ..Hdr::default() }, Box::new(Node::Text(Some(1), vec![(false, x0)]))), Node::U8(x1)]))), Some(T2), true) }

#[derive(Value)]
#[sval(tag = "T2")] #[sval(label = "lbl \"9")] #[sval(index = 3)] #[sval(unindexed_fields)] struct St131(Nest, #[sval(tag = "T1")] #[sval(data_tag = "T1")] Nest, Nest);
fn structs_91(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); let x2 = rt::u8_(); ck(m, &St131(Nest { n: x0 }, Nest { n: x1 }, Nest { n: x2 }), &Node::Tagged(Hdr { tag: Some(T2), label: Some(lit("lbl \"9")), index: Some(Index::new_isize(3)) }, Box::new(Node::Seq(Some(3), vec![nest(x0), Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(nest(x1))), nest(x2)]))), Some(T2), true) }

#[derive(Value)]
#[sval(unindexed_fields)] struct St132(Nest, #[sval(data_tag = "T1")] Nest, #[sval(skip = true)] &'static str);
fn structs_92(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); let x2 = rt::letters(1); ck(m, &St132(Nest { n: x0 }, Nest { n: x1 }, x2), &Node::Tagged(Hdr { tag: None, label: Some(ident("St132")), index: None }, Box::new(Node::Seq(Some(2), vec![nest(x0), Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(nest(x1)))]))), None, true) }

#[derive(Value)]
#[sval(tag = T1, unindexed_fields)] struct St133(#[sval(label = "lbl \"0")] Nest, #[sval(skip = true)] Nest, #[sval(tag = T2)] #[sval(label = "lbl \"2")] &'static str);
fn structs_93(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); let x2 = rt::letters(1); ck(m, &St133(Nest { n: x0 }, Nest { n: x1 }, x2), &Node::Record(Hdr { tag: Some(T1), label: Some(ident("St133")), index: None }, Some(2), vec![(None, lit("lbl \"0"), nest(x0)), (Some(T2), lit("lbl \"2"), Node::Text(Some(1), vec![(false, x2)]))]), Some(T1), true) }

#[derive(Value)]
#[sval(unindexed_fields)] struct St134(#[sval(flatten)] FlatT, i64, bool);
fn flats_39(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); let x2 = rt::i64_(); let x3 = rt::bool_(); ck(m, &St134(FlatT(x0, x1), x2, x3), &Node::Tagged(Hdr { tag: None, label: Some(ident("St134")), index: None }, Box::new(Node::Seq(None, vec![Node::U8(x0), Node::U8(x1), Node::I64(x2), Node::Bool(x3)]))), None, false) }

#[derive(Value)]
#[sval(unindexed_fields)] struct St135(#[sval(flatten)] FlatS, #[sval(flatten)] FlatE, bool, &'static str);
fn flats_40(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); let x2 = rt::u8_(); let x3 = rt::u8_(); let x4 = rt::bool_(); let x5 = rt::letters(1); ck(m, &St135(FlatS(x0, x1), FlatE::V { p: x2, q: x3 }, x4, x5), &Node::Tagged(Hdr { tag: None, label: Some(ident("St135")), index: None }, Box::new(Node::Seq(None, vec![Node::U8(x0), Node::U8(x1), Node::U8(x2), Node::U8(x3), Node::Bool(x4), Node::Text(Some(1), vec![(false, x5)])]))), None, false) }

#[derive(Value)]
#[sval(unindexed_fields)] struct St136(#[sval(data_tag = T2)] bool, #[sval(flatten)] FlatT, #[sval(tag = "T1")] &'static str, #[sval(flatten)] FlatE);
fn flats_41(m: Mode) { let x0 = rt::bool_(); let x1 = rt::u8_(); let x2 = rt::u8_(); let x3 = rt::letters(1); let x4 = rt::u8_(); let x5 = rt::u8_(); ck(m, &St136(x0, FlatT(x1, x2), x3, FlatE::V { p: x4, q: x5 }), &Node::Tagged(Hdr { tag: None, label: Some(ident("St136")), index: None }, Box::new(Node::Seq(None, vec![Node::Tagged(Hdr { tag: Some(T2), ..Hdr::default() }, Box::new(Node::Bool(x0))), Node::U8(x1), Node::U8(x2), Node::Text(Some(1), vec![(false, x3)]), Node::U8(x4), Node::U8(x5)]))), None, false) }

#[derive(Value)]
#[sval(unlabeled_fields)] struct St137(Nest, Nest, &'static str);
fn structs_94(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); let x2 = rt::letters(1); ck(m, &St137(Nest { n: x0 }, Nest { n: x1 }, x2), &Node::Tuple(Hdr { tag: None, label: Some(ident("St137")), index: None }, Some(3), vec![(None, off(0), nest(x0)), (None, off(1), nest(x1)), (None, off(2), Node::Text(Some(1), vec![(false, x2)]))]), None, true) }

#[derive(Value)]
#[sval(index = 0, unlabeled_fields)] struct St138(#[sval(skip)] bool, #[sval(tag = "T1")] #[sval(index = IX41)] Nest, #[sval(index = IX41)] Nest);
fn structs_95(m: Mode) { let x0 = rt::bool_(); let x1 = rt::u8_(); let x2 = rt::u8_(); ck(m, &St138(x0, Nest { n: x1 }, Nest { n: x2 }), &Node::Tuple(Hdr { tag: None, label: Some(ident("St138")), index: Some(Index::new_isize(0)) }, Some(2), vec![(Some(T1), Index::new_isize(41), nest(x1)), (None, Index::new_isize(41), nest(x2))]), None, true) }

#[derive(Value)]
#[sval(unlabeled_fields)] struct St139(#[sval(skip)] i64, u8, #[sval(index = 1)] &'static str);
fn structs_96(m: Mode) { let x0 = rt::i64_(); let x1 = rt::u8_(); let x2 = rt::letters(1); ck(m, &St139(x0, x1, x2), &Node::Tuple(Hdr { tag: None, label: Some(ident("St139")), index: None }, Some(2), vec![(None, off(0), Node::U8(x1)), (None, Index::new_isize(1), Node::Text(Some(1), vec![(false, x2)]))]), None, true) }

#[derive(Value)]
#[sval(label = LAB)] #[sval(tag = T2)] #[sval(unlabeled_fields)] struct St140(#[sval(index = 0)] &'static str, #[sval(skip)] i64, u8);
fn structs_97(m: Mode) { let x0 = rt::letters(1); let x1 = rt::i64_(); let x2 = rt::u8_(); ck(m, &St140(x0, x1, x2), &Node::Tuple(Hdr { tag: Some(T2), label: Some(lit("lab-path")), index: None }, Some(2), vec![(None, Index::new_isize(0), Node::Text(Some(1), vec![(false, x0)])), (None, Index::new_isize(1), Node::U8(x2))]), Some(T2), true) }

#[derive(Value)]
#[sval(label = "lbl \"9")] #[sval(unlabeled_fields)] struct St141(Nest, #[sval(tag = "T2")] &'static str, i64);
fn structs_98(m: Mode) { let x0 = rt::u8_(); let x1 = rt::letters(1); let x2 = rt::i64_(); ck(m, &St141(Nest { n: x0 }, x1, x2), &Node::Tuple(Hdr { tag: None, label: Some(lit("lbl \"9")), index: None }, Some(3), vec![(None, off(0), nest(x0)), (Some(T2), off(1), Node::Text(Some(1), vec![(false, x1)])), (None, off(2), Node::I64(x2))]), None, true) }

#[derive(Value)]
#[sval(unlabeled_fields)] struct St142(i64, #[sval(flatten)] FlatE, u8);
fn flats_42(m: Mode) { let x0 = rt::i64_(); let x1 = rt::u8_(); let x2 = rt::u8_(); let x3 = rt::u8_(); ck(m, &St142(x0, FlatE::V { p: x1, q: x2 }, x3), &Node::Tuple(Hdr { tag: None, label: Some(ident("St142")), index: None }, None, vec![(None, off(0), Node::I64(x0)), (None, off(1), Node::U8(x1)), (None, off(2), Node::U8(x2)), (None, off(3), Node::U8(x3))]), None, false) }

#[derive(Value)]
#[sval(unlabeled_fields)] struct St143(#[sval(flatten)] FlatE, u8, bool, #[sval(flatten)] FlatX);
fn flats_43(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); let x2 = rt::u8_(); let x3 = rt::bool_(); let x4 = rt::u8_(); let x5 = rt::u8_(); ck(m, &St143(FlatE::V { p: x0, q: x1 }, x2, x3, FlatX { p: x4, q: x5 }), &Node::Tuple(Hdr { tag: None, label: Some(ident("St143")), index: None }, None, vec![(None, off(0), Node::U8(x0)), (None, off(1), Node::U8(x1)), (None, off(2), Node::U8(x2)), (None, off(3), Node::Bool(x3)), (None, Index::new_isize(11), Node::U8(x4)), (None, Index::new_isize(12), Node::U8(x5))]), None, false) }

#[derive(Value)]
#[sval(label = LAB)] #[sval(unlabeled_fields)] struct St144(#[sval(tag = T1)] Nest, #[sval(flatten)] FlatS, #[sval(flatten)] FlatE, i64);
fn flats_44(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); let x2 = rt::u8_(); let x3 = rt::u8_(); let x4 = rt::u8_(); let x5 = rt::i64_(); ck(m, &St144(Nest { n: x0 }, FlatS(x1, x2), FlatE::V { p: x3, q: x4 }, x5), &Node::Tuple(Hdr { tag: None, label: Some(lit("lab-path")), index: None }, None, vec![(Some(T1), off(0), nest(x0)), (None, off(1), Node::U8(x1)), (None, off(2), Node::U8(x2)), (None, off(3), Node::U8(x3)), (None, off(4), Node::U8(x4)), (None, off(5), Node::I64(x5))]), None, false) }

#[derive(Value)]
#[sval(unlabeled_fields)] #[sval(unindexed_fields)] struct St145(u8, i64, i64);
fn structs_99(m: Mode) { let x0 = rt::u8_(); let x1 = rt::i64_(); let x2 = rt::i64_(); ck(m, &St145(x0, x1, x2), &Node::Tagged(Hdr { tag: None, label: Some(ident("St145")), index: None }, Box::new(Node::Seq(Some(3), vec![Node::U8(x0), Node::I64(x1), Node::I64(x2)]))), None, true) }

#[derive(Value)]
#[sval(label = LAB, unlabeled_fields, unindexed_fields)] struct St146(i64, i64, bool);
fn structs_100(m: Mode) { let x0 = rt::i64_(); let x1 = rt::i64_(); let x2 = rt::bool_(); ck(m, &St146(x0, x1, x2), &Node::Tagged(Hdr { tag: None, label: Some(lit("lab-path")), index: None }, Box::new(Node::Seq(Some(3), vec![Node::I64(x0), Node::I64(x1), Node::Bool(x2)]))), None, true) }

#[derive(Value)]
#[sval(unlabeled_fields)] #[sval(unindexed_fields)] struct St147(u8, #[sval(data_tag = "T1")] bool, i64);
fn structs_101(m: Mode) { let x0 = rt::u8_(); let x1 = rt::bool_(); let x2 = rt::i64_(); ck(m, &St147(x0, x1, x2), &Node::Tagged(Hdr { tag: None, label: Some(ident("St147")), index: None }, Box::new(Node::Seq(Some(3), vec![Node::U8(x0), Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(Node::Bool(x1))), Node::I64(x2)]))), None, true) }

#[derive(Value)]
#[sval(tag = T2)] #[sval(unlabeled_fields)] #[sval(unindexed_fields)] struct St148(#[sval(tag = "T2")] #[sval(data_tag = T2)] i64, #[sval(skip = true)] &'static str, #[sval(data_tag = "T1")] u8);
fn structs_102(m: Mode) { let x0 = rt::i64_(); let x1 = rt::letters(1); let x2 = rt::u8_(); ck(m, &St148(x0, x1, x2), &Node::Tagged(Hdr { tag: Some(T2), label: Some(ident("St148")), index: None }, Box::new(Node::Seq(Some(2), vec![Node::Tagged(Hdr { tag: Some(T2), ..Hdr::default() }, Box::new(Node::I64(x0))), Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(Node::U8(x2)))]))), Some(T2), true) }

#[derive(Value)]
#[sval(label = LAB)] #[sval(unlabeled_fields)] #[sval(unindexed_fields)] struct St149(bool, #[sval(tag = T2, data_tag = "T2")] &'static str, #[sval(tag = T1)] bool);
fn structs_103(m: Mode) { let x0 = rt::bool_(); let x1 = rt::letters(1); let x2 = rt::bool_(); ck(m, &St149(x0, x1, x2), &Node::Tagged(Hdr { tag: None, label: Some(lit("lab-path")), index: None }, Box::new(Node::Seq(Some(3), vec![Node::Bool(x0), Node::Tagged(Hdr { tag: Some(T2), ..Hdr::default() }, Box::new(Node::Text(Some(1), vec![(false, x1)]))), Node::Bool(x2)]))), None, true) }

#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] struct St150(bool, #[sval(flatten)] FlatX, #[sval(flatten)] FlatS);
fn flats_45(m: Mode) { let x0 = rt::bool_(); let x1 = rt::u8_(); let x2 = rt::u8_(); let x3 = rt::u8_(); let x4 = rt::u8_(); ck(m, &St150(x0, FlatX { p: x1, q: x2 }, FlatS(x3, x4)), &Node::Tagged(Hdr { tag: None, label: Some(ident("St150")), index: None }, Box::new(Node::Seq(None, vec![Node::Bool(x0), Node::U8(x1), Node::U8(x2), Node::U8(x3), Node::U8(x4)]))), None, false) }

#[derive(Value)]
#[sval(unlabeled_fields)] #[sval(unindexed_fields)] struct St151(i64, Nest, i64, #[sval(flatten)] FlatX);
fn flats_46(m: Mode) { let x0 = rt::i64_(); let x1 = rt::u8_(); let x2 = rt::i64_(); let x3 = rt::u8_(); let x4 = rt::u8_(); ck(m, &St151(x0, Nest { n: x1 }, x2, FlatX { p: x3, q: x4 }), &Node::Tagged(Hdr { tag: None, label: Some(ident("St151")), index: None }, Box::new(Node::Seq(None, vec![Node::I64(x0), nest(x1), Node::I64(x2), Node::U8(x3), Node::U8(x4)]))), None, false) }

#[derive(Value)]
#[sval(unlabeled_fields)] #[sval(unindexed_fields)] struct St152(#[sval(skip)] bool, &'static str, #[sval(flatten)] FlatX, #[sval(flatten)] FlatS);
fn flats_47(m: Mode) { let x0 = rt::bool_(); let x1 = rt::letters(1); let x2 = rt::u8_(); let x3 = rt::u8_(); let x4 = rt::u8_(); let x5 = rt::u8_(); ck(m, &St152(x0, x1, FlatX { p: x2, q: x3 }, FlatS(x4, x5)), &Node::Tagged(Hdr { tag: None, label: Some(ident("St152")), index: None }, Box::new(Node::Seq(None, vec![Node::Text(Some(1), vec![(false, x1)]), Node::U8(x2), Node::U8(x3), Node::U8(x4), Node::U8(x5)]))), None, false) }

#[derive(Value)]
struct Nt153(Nest);
fn scalars_0(m: Mode) { let x0 = rt::u8_(); ck(m, &Nt153(Nest { n: x0 }), &Node::Tagged(Hdr { tag: None, label: Some(ident("Nt153")), index: None }, Box::new(nest(x0))), None, true) }

#[derive(Value)]
#[sval(transparent)] struct Nt154(u8);
fn scalars_1(m: Mode) { let x0 = rt::u8_(); ck(m, &Nt154(x0), &Node::U8(x0), Some(sval::tags::NUMBER), true) }

#[derive(Value)]
struct r#Un155;
fn scalars_2(m: Mode) {  ck(m, &r#Un155, &Node::Tag(Hdr { tag: None, label: Some(ident("Un155")), index: None }), None, true) }

#[derive(Value)]
#[sval(tag = "T1")] struct Nt156(&'static str);
fn scalars_3(m: Mode) { let x0 = rt::letters(1); ck(m, &Nt156(x0), &Node::Tagged(Hdr { tag: Some(T1), label: Some(ident("Nt156")), index: None }, Box::new(Node::Text(Some(1), vec![(false, x0)]))), Some(T1), true) }

#[derive(Value)]
#[sval(transparent)] struct Nt157(Nest);
fn scalars_4(m: Mode) { let x0 = rt::u8_(); ck(m, &Nt157(Nest { n: x0 }), &nest(x0), None, true) }

#[derive(Value)]
struct Un158;
fn scalars_5(m: Mode) {  ck(m, &Un158, &Node::Tag(Hdr { tag: None, label: Some(ident("Un158")), index: None }), None, true) }

#[derive(Value)]
#[sval(tag = T2)] struct Nt159(i64);
fn scalars_6(m: Mode) { let x0 = rt::i64_(); ck(m, &Nt159(x0), &Node::Tagged(Hdr { tag: Some(T2), label: Some(ident("Nt159")), index: None }, Box::new(Node::I64(x0))), Some(T2), true) }

#[derive(Value)]
#[sval(transparent)] struct Nt160(i64);
fn scalars_7(m: Mode) { let x0 = rt::i64_(); ck(m, &Nt160(x0), &Node::I64(x0), Some(sval::tags::NUMBER), true) }

#[derive(Value)]
#[sval(index = IX40)] struct Un161;
fn scalars_8(m: Mode) {  ck(m, &Un161, &Node::Tag(Hdr { tag: None, label: Some(ident("Un161")), index: Some(Index::new_isize(40)) }), None, true) }

#[derive(Value)]
#[sval(label = "lbl \"9")] #[sval(index = 0)] struct Nt162(bool);
fn scalars_9(m: Mode) { let x0 = rt::bool_(); ck(m, &Nt162(x0), &Node::Tagged(Hdr { tag: None, label: Some(lit("lbl \"9")), index: Some(Index::new_isize(0)) }, Box::new(Node::Bool(x0))), None, true) }

#[derive(Value)]
#[sval(transparent)] struct Nt163(u8);
fn scalars_10(m: Mode) { let x0 = rt::u8_(); ck(m, &Nt163(x0), &Node::U8(x0), Some(sval::tags::NUMBER), true) }

#[derive(Value)]
#[sval(index = IX40)] struct Un164;
fn scalars_11(m: Mode) {  ck(m, &Un164, &Node::Tag(Hdr { tag: None, label: Some(ident("Un164")), index: Some(Index::new_isize(40)) }), None, true) }

#[derive(Value)]
#[sval(tag = "T1")] struct Nt165(&'static str);
fn scalars_12(m: Mode) { let x0 = rt::letters(1); ck(m, &Nt165(x0), &Node::Tagged(Hdr { tag: Some(T1), label: Some(ident("Nt165")), index: None }, Box::new(Node::Text(Some(1), vec![(false, x0)]))), Some(T1), true) }

#[derive(Value)]
#[sval(transparent)] struct Nt166(bool);
fn scalars_13(m: Mode) { let x0 = rt::bool_(); ck(m, &Nt166(x0), &Node::Bool(x0), None, true) }

#[derive(Value)]
#[sval(label = "lbl \"9")] #[sval(tag = "T2")] struct Un167;
fn scalars_14(m: Mode) {  ck(m, &Un167, &Node::Tag(Hdr { tag: Some(T2), label: Some(lit("lbl \"9")), index: None }), Some(T2), true) }

#[derive(Value)]
#[sval(index = -2)] struct Nt168(u8);
fn scalars_15(m: Mode) { let x0 = rt::u8_(); ck(m, &Nt168(x0), &Node::Tagged(Hdr { tag: None, label: Some(ident("Nt168")), index: Some(Index::new_isize(-2)) }, Box::new(Node::U8(x0))), None, true) }

#[derive(Value)]
#[sval(transparent)] struct Nt169(u8);
fn scalars_16(m: Mode) { let x0 = rt::u8_(); ck(m, &Nt169(x0), &Node::U8(x0), Some(sval::tags::NUMBER), true) }

#[derive(Value)]
#[sval(tag = T1)] struct Un170;
fn scalars_17(m: Mode) {  ck(m, &Un170, &Node::Tag(Hdr { tag: Some(T1), label: Some(ident("Un170")), index: None }), Some(T1), true) }

#[derive(Value)]
enum En171 { A(bool) }
fn enums_0(m: Mode) { let x0 = rt::bool_(); ck(m, &En171::A(x0), &Node::Enum(Hdr { tag: None, label: Some(ident("En171")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("A")), index: Some(off(0)) }, Box::new(Node::Bool(x0)))))), None, true) }

#[derive(Value)]
enum En172 { A(&'static str), B { a: u8, b: i64 } }
fn enums_1(m: Mode) { let x0 = rt::letters(1); let x1 = rt::u8_(); let x2 = rt::i64_(); match rt::choice(2) { 0 => ck(m, &En172::A(x0), &Node::Enum(Hdr { tag: None, label: Some(ident("En172")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("A")), index: Some(off(0)) }, Box::new(Node::Text(Some(1), vec![(false, x0)])))))), None, true), _ => ck(m, &En172::B { a: x1, b: x2 }, &Node::Enum(Hdr { tag: None, label: Some(ident("En172")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(ident("B")), index: Some(off(1)) }, Some(2), vec![(None, ident("a"), off(0), Node::U8(x1)), (None, ident("b"), off(1), Node::I64(x2))])))), None, true), } }

#[derive(Value)]
enum En173 { A(), B(u8, i64, u8) }
fn enums_2(m: Mode) { let x0 = rt::u8_(); let x1 = rt::i64_(); let x2 = rt::u8_(); match rt::choice(2) { 0 => ck(m, &En173::A(), &Node::Enum(Hdr { tag: None, label: Some(ident("En173")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(ident("A")), index: Some(off(0)) }, Some(0), vec![])))), None, true), _ => ck(m, &En173::B(x0, x1, x2), &Node::Enum(Hdr { tag: None, label: Some(ident("En173")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(ident("B")), index: Some(off(1)) }, Some(3), vec![(None, off(0), Node::U8(x0)), (None, off(1), Node::I64(x1)), (None, off(2), Node::U8(x2))])))), None, true), } }

#[derive(Value)]
enum En174 { #[sval(tag = T1)] #[sval(index = -3)] A(), #[sval(tag = T2)] B {  }, #[sval(unlabeled_fields)] r#Self_() }
fn enums_3(m: Mode) {  match rt::choice(3) { 0 => ck(m, &En174::A(), &Node::Enum(Hdr { tag: None, label: Some(ident("En174")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: Some(T1), label: Some(ident("A")), index: Some(Index::new_isize(-3)) }, Some(0), vec![])))), None, true), 1 => ck(m, &En174::B {  }, &Node::Enum(Hdr { tag: None, label: Some(ident("En174")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: Some(T2), label: Some(ident("B")), index: Some(Index::new_isize(-2)) }, Some(0), vec![])))), None, true), _ => ck(m, &En174::r#Self_(), &Node::Enum(Hdr { tag: None, label: Some(ident("En174")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(ident("Self_")), index: Some(Index::new_isize(-1)) }, Some(0), vec![])))), None, true), } }

#[derive(Value)]
enum En175 { #[sval(tag = T1)] #[sval(label = "lbl \"0")] A(Nest, #[sval(data_tag = T1)] &'static str, #[sval(skip = true)] &'static str), B(&'static str), #[sval(unindexed_fields)] r#Self_ { a: u8 } }
fn enums_4(m: Mode) { let x0 = rt::u8_(); let x1 = rt::letters(1); let x2 = rt::letters(1); let x3 = rt::letters(1); let x4 = rt::u8_(); match rt::choice(3) { 0 => ck(m, &En175::A(Nest { n: x0 }, x1, x2), &Node::Enum(Hdr { tag: None, label: Some(ident("En175")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: Some(T1), label: Some(lit("lbl \"0")), index: Some(off(0)) }, Some(2), vec![(None, off(0), nest(x0)), (None, off(1), Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(Node::Text(Some(1), vec![(false, x1)]))))])))), None, true), 1 => ck(m, &En175::B(x3), &Node::Enum(Hdr { tag: None, label: Some(ident("En175")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("B")), index: Some(off(1)) }, Box::new(Node::Text(Some(1), vec![(false, x3)])))))), None, true), _ => ck(m, &En175::r#Self_ { a: x4 }, &Node::Enum(Hdr { tag: None, label: Some(ident("En175")), index: None }, Some(Box::new(Node::Record(Hdr { tag: None, label: Some(ident("Self_")), index: Some(off(2)) }, Some(1), vec![(None, ident("a"), Node::U8(x4))])))), None, true), } }

#[derive(Value)]
#[sval(label = "lbl \"9")] #[sval(tag = "T1")] enum En176 { #[sval(label = LAB)] #[sval(index = 0)] #[sval(unindexed_fields)] A {  }, #[sval(index = 0)] B, #[sval(label = "lbl \"2")] r#Self_, #[sval(index = 1)] Dd(Nest) }
fn enums_5(m: Mode) { let x0 = rt::u8_(); match rt::choice(4) { 0 => ck(m, &En176::A {  }, &Node::Enum(Hdr { tag: Some(T1), label: Some(lit("lbl \"9")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(lit("lab-path")), index: Some(Index::new_isize(0)) }, Some(0), vec![])))), Some(T1), true), 1 => ck(m, &En176::B, &Node::Enum(Hdr { tag: Some(T1), label: Some(lit("lbl \"9")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(0)) })))), Some(T1), true), 2 => ck(m, &En176::r#Self_, &Node::Enum(Hdr { tag: Some(T1), label: Some(lit("lbl \"9")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(lit("lbl \"2")), index: Some(Index::new_isize(1)) })))), Some(T1), true), _ => ck(m, &En176::Dd(Nest { n: x0 }), &Node::Enum(Hdr { tag: Some(T1), label: Some(lit("lbl \"9")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("Dd")), index: Some(Index::new_isize(1)) }, Box::new(nest(x0)))))), Some(T1), true), } }

#[derive(Value)]
#[sval(index = IX40, label = "lbl \"9", tag = "T1")] enum En177 { #[sval(tag = "T1", label = "lbl \"0")] A { a: &'static str, #[sval(data_tag = "T1")] #[sval(index = IX41)] b: u8 }, #[sval(tag = "T1")] #[sval(label = "lbl \"1")] B, #[sval(unlabeled_fields)] r#Self_ { a: i64, b: u8 }, #[sval(unlabeled_fields)] Dd(#[sval(data_tag = T2)] bool, Nest) }
fn enums_6(m: Mode) { let x0 = rt::letters(1); let x1 = rt::u8_(); let x2 = rt::i64_(); let x3 = rt::u8_(); let x4 = rt::bool_(); let x5 = rt::u8_(); match rt::choice(4) { 0 => ck(m, &En177::A { a: x0, b: x1 }, &Node::Enum(Hdr { tag: Some(T1), label: Some(lit("lbl \"9")), index: Some(Index::new_isize(40)) }, Some(Box::new(Node::RecordTuple(Hdr { tag: Some(T1), label: Some(lit("lbl \"0")), index: Some(off(0)) }, Some(2), vec![(None, ident("a"), off(0), Node::Text(Some(1), vec![(false, x0)])), (None, ident("b"), Index::new_isize(41), Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(Node::U8(x1))))])))), Some(T1), true), 1 => ck(m, &En177::B, &Node::Enum(Hdr { tag: Some(T1), label: Some(lit("lbl \"9")), index: Some(Index::new_isize(40)) }, Some(Box::new(Node::Tag(Hdr { tag: Some(T1), label: Some(lit("lbl \"1")), index: Some(off(1)) })))), Some(T1), true), 2 => ck(m, &En177::r#Self_ { a: x2, b: x3 }, &Node::Enum(Hdr { tag: Some(T1), label: Some(lit("lbl \"9")), index: Some(Index::new_isize(40)) }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(ident("Self_")), index: Some(off(2)) }, Some(2), vec![(None, off(0), Node::I64(x2)), (None, off(1), Node::U8(x3))])))), Some(T1), true), _ => ck(m, &En177::Dd(x4, Nest { n: x5 }), &Node::Enum(Hdr { tag: Some(T1), label: Some(lit("lbl \"9")), index: Some(Index::new_isize(40)) }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(ident("Dd")), index: Some(off(3)) }, Some(2), vec![(None, off(0), Node::Tagged(Hdr { tag: Some(T2), ..Hdr::default() }, Box::new(Node::Bool(x4)))), (None, off(1), nest(x5))])))), Some(T1), true), } }

#[derive(Value)]
enum En178 { #[sval(index = -3)] A { #[sval(data_tag = "T1")] #[sval(index = 5)] a: bool, #[sval(tag = T1)] #[sval(label = "lbl \"1")] b: u8, #[sval(index = -1)] r#type: Nest }, B { #[sval(skip)] a: u8, #[sval(label = LAB)] b: u8, #[sval(tag = T1, data_tag = "T2")] r#type: i64 }, r#Self_(&'static str), #[sval(label = "lbl \"3", unlabeled_fields)] Dd(Nest, bool, #[sval(index = 2)] &'static str), #[sval(unindexed_fields)] E { a: Nest, b: &'static str, r#type: u8 } }
fn enums_7(m: Mode) { let x0 = rt::bool_(); let x1 = rt::u8_(); let x2 = rt::u8_(); let x3 = rt::u8_(); let x4 = rt::u8_(); let x5 = rt::i64_(); let x6 = rt::letters(1); let x7 = rt::u8_(); let x8 = rt::bool_(); let x9 = rt::letters(1); let x10 = rt::u8_(); let x11 = rt::letters(1); let x12 = rt::u8_(); match rt::choice(5) { 0 => ck(m, &En178::A { a: x0, b: x1, r#type: Nest { n: x2 } }, &Node::Enum(Hdr { tag: None, label: Some(ident("En178")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(ident("A")), index: Some(Index::new_isize(-3)) }, Some(3), vec![(None, ident("a"), Index::new_isize(5), Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(Node::Bool(x0)))), (Some(T1), lit("lbl \"1"), Index::new_isize(6), Node::U8(x1)), (None, ident("type"), Index::new_isize(-1), nest(x2))])))), None, true), 1 => ck(m, &En178::B { a: x3, b: x4, r#type: x5 }, &Node::Enum(Hdr { tag: None, label: Some(ident("En178")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(-2)) }, Some(2), vec![(None, lit("lab-path"), off(0), Node::U8(x4)), (Some(T1), ident("type"), off(1), Node::Tagged(Hdr { tag: Some(T2), ..Hdr::default() }, Box::new(Node::I64(x5))))])))), None, true), 2 => ck(m, &En178::r#Self_(x6), &Node::Enum(Hdr { tag: None, label: Some(ident("En178")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("Self_")), index: Some(Index::new_isize(-1)) }, Box::new(Node::Text(Some(1), vec![(false, x6)])))))), None, true), 3 => ck(m, &En178::Dd(Nest { n: x7 }, x8, x9), &Node::Enum(Hdr { tag: None, label: Some(ident("En178")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(lit("lbl \"3")), index: Some(Index::new_isize(0)) }, Some(3), vec![(None, off(0), nest(x7)), (None, off(1), Node::Bool(x8)), (None, Index::new_isize(2), Node::Text(Some(1), vec![(false, x9)]))])))), None, true), _ => ck(m, &En178::E { a: Nest { n: x10 }, b: x11, r#type: x12 }, &Node::Enum(Hdr { tag: None, label: Some(ident("En178")), index: None }, Some(Box::new(Node::Record(Hdr { tag: None, label: Some(ident("E")), index: Some(Index::new_isize(1)) }, Some(3), vec![(None, ident("a"), nest(x10)), (None, ident("b"), Node::Text(Some(1), vec![(false, x11)])), (None, ident("type"), Node::U8(x12))])))), None, true), } }

#[derive(Value)]
#[sval(tag = T2, index = 3, label = LAB)] enum En179 { #[sval(label = "lbl \"0")] A(), B(i64), r#Self_(), #[sval(unlabeled_fields)] Dd(), #[sval(index = 5)] E(#[sval(skip)] bool, #[sval(index = 0)] u8) }
fn enums_8(m: Mode) { let x0 = rt::i64_(); let x1 = rt::bool_(); let x2 = rt::u8_(); match rt::choice(5) { 0 => ck(m, &En179::A(), &Node::Enum(Hdr { tag: Some(T2), label: Some(lit("lab-path")), index: Some(Index::new_isize(3)) }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(lit("lbl \"0")), index: Some(off(0)) }, Some(0), vec![])))), Some(T2), true), 1 => ck(m, &En179::B(x0), &Node::Enum(Hdr { tag: Some(T2), label: Some(lit("lab-path")), index: Some(Index::new_isize(3)) }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("B")), index: Some(off(1)) }, Box::new(Node::I64(x0)))))), Some(T2), true), 2 => ck(m, &En179::r#Self_(), &Node::Enum(Hdr { tag: Some(T2), label: Some(lit("lab-path")), index: Some(Index::new_isize(3)) }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(ident("Self_")), index: Some(off(2)) }, Some(0), vec![])))), Some(T2), true), 3 => ck(m, &En179::Dd(), &Node::Enum(Hdr { tag: Some(T2), label: Some(lit("lab-path")), index: Some(Index::new_isize(3)) }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(ident("Dd")), index: Some(off(3)) }, Some(0), vec![])))), Some(T2), true), _ => ck(m, &En179::E(x1, x2), &Node::Enum(Hdr { tag: Some(T2), label: Some(lit("lab-path")), index: Some(Index::new_isize(3)) }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(ident("E")), index: Some(Index::new_isize(5)) }, Some(1), vec![(None, Index::new_isize(0), Node::U8(x2))])))), Some(T2), true), } }

#[derive(Value)]
enum En180 { #[sval(tag = "T1")] #[sval(index = -3)] #[sval(unlabeled_fields)] A { #[sval(index = -4)] a: bool }, B(Nest) }
fn enums_9(m: Mode) { let x0 = rt::bool_(); let x1 = rt::u8_(); match rt::choice(2) { 0 => ck(m, &En180::A { a: x0 }, &Node::Enum(Hdr { tag: None, label: Some(ident("En180")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: Some(T1), label: Some(ident("A")), index: Some(Index::new_isize(-3)) }, Some(1), vec![(None, Index::new_isize(-4), Node::Bool(x0))])))), None, true), _ => ck(m, &En180::B(Nest { n: x1 }), &Node::Enum(Hdr { tag: None, label: Some(ident("En180")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(-2)) }, Box::new(nest(x1)))))), None, true), } }

#[derive(Value)]
enum En181 { A(bool) }
fn enums_10(m: Mode) { let x0 = rt::bool_(); ck(m, &En181::A(x0), &Node::Enum(Hdr { tag: None, label: Some(ident("En181")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("A")), index: Some(off(0)) }, Box::new(Node::Bool(x0)))))), None, true) }

#[derive(Value)]
enum En182 { A(u8), B }
fn enums_11(m: Mode) { let x0 = rt::u8_(); match rt::choice(2) { 0 => ck(m, &En182::A(x0), &Node::Enum(Hdr { tag: None, label: Some(ident("En182")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("A")), index: Some(off(0)) }, Box::new(Node::U8(x0)))))), None, true), _ => ck(m, &En182::B, &Node::Enum(Hdr { tag: None, label: Some(ident("En182")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("B")), index: Some(off(1)) })))), None, true), } }

#[derive(Value)]
enum En183 { A(&'static str), B(u8, bool) }
fn enums_12(m: Mode) { let x0 = rt::letters(1); let x1 = rt::u8_(); let x2 = rt::bool_(); match rt::choice(2) { 0 => ck(m, &En183::A(x0), &Node::Enum(Hdr { tag: None, label: Some(ident("En183")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("A")), index: Some(off(0)) }, Box::new(Node::Text(Some(1), vec![(false, x0)])))))), None, true), _ => ck(m, &En183::B(x1, x2), &Node::Enum(Hdr { tag: None, label: Some(ident("En183")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(ident("B")), index: Some(off(1)) }, Some(2), vec![(None, off(0), Node::U8(x1)), (None, off(1), Node::Bool(x2))])))), None, true), } }

#[derive(Value)]
#[sval(index = 0)] #[sval(label = LAB)] #[sval(tag = T2)] enum En184 { #[sval(tag = T2, index = 5)] A(), #[sval(label = "lbl \"1")] B(), #[sval(index = 5)] r#Self_ {  } }
fn enums_13(m: Mode) {  match rt::choice(3) { 0 => ck(m, &En184::A(), &Node::Enum(Hdr { tag: Some(T2), label: Some(lit("lab-path")), index: Some(Index::new_isize(0)) }, Some(Box::new(Node::Tuple(Hdr { tag: Some(T2), label: Some(ident("A")), index: Some(Index::new_isize(5)) }, Some(0), vec![])))), Some(T2), true), 1 => ck(m, &En184::B(), &Node::Enum(Hdr { tag: Some(T2), label: Some(lit("lab-path")), index: Some(Index::new_isize(0)) }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(lit("lbl \"1")), index: Some(Index::new_isize(6)) }, Some(0), vec![])))), Some(T2), true), _ => ck(m, &En184::r#Self_ {  }, &Node::Enum(Hdr { tag: Some(T2), label: Some(lit("lab-path")), index: Some(Index::new_isize(0)) }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(ident("Self_")), index: Some(Index::new_isize(5)) }, Some(0), vec![])))), Some(T2), true), } }

#[derive(Value)]
#[sval(label = LAB)] enum En185 { #[sval(label = "lbl \"0")] A(&'static str), B(Nest, #[sval(skip = true)] bool), #[sval(label = "lbl \"2")] r#Self_() }
fn enums_14(m: Mode) { let x0 = rt::letters(1); let x1 = rt::u8_(); let x2 = rt::bool_(); match rt::choice(3) { 0 => ck(m, &En185::A(x0), &Node::Enum(Hdr { tag: None, label: Some(lit("lab-path")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(lit("lbl \"0")), index: Some(off(0)) }, Box::new(Node::Text(Some(1), vec![(false, x0)])))))), None, true), 1 => ck(m, &En185::B(Nest { n: x1 }, x2), &Node::Enum(Hdr { tag: None, label: Some(lit("lab-path")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(ident("B")), index: Some(off(1)) }, Some(1), vec![(None, off(0), nest(x1))])))), None, true), _ => ck(m, &En185::r#Self_(), &Node::Enum(Hdr { tag: None, label: Some(lit("lab-path")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(lit("lbl \"2")), index: Some(off(2)) }, Some(0), vec![])))), None, true), } }

#[derive(Value)]
#[sval(index = 3)] enum En186 { #[sval(label = LAB)] #[sval(index = 2)] #[sval(unindexed_fields)] A { #[sval(tag = "T2", data_tag = T2, label = LAB)] a: bool, #[sval(data_tag = "T1")] b: Nest }, B(bool), #[sval(tag = T1)] r#Self_(u8), #[sval(label = "lbl \"3")] #[sval(unlabeled_fields)] Dd { #[sval(skip)] a: &'static str } }
fn enums_15(m: Mode) { let x0 = rt::bool_(); let x1 = rt::u8_(); let x2 = rt::bool_(); let x3 = rt::u8_(); let x4 = rt::letters(1); match rt::choice(4) { 0 => ck(m, &En186::A { a: x0, b: Nest { n: x1 } }, &Node::Enum(Hdr { tag: None, label: Some(ident("En186")), index: Some(Index::new_isize(3)) }, Some(Box::new(Node::Record(Hdr { tag: None, label: Some(lit("lab-path")), index: Some(Index::new_isize(2)) }, Some(2), vec![(Some(T2), lit("lab-path"), Node::Tagged(Hdr { tag: Some(T2), ..Hdr::default() }, Box::new(Node::Bool(x0)))), (None, ident("b"), Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(nest(x1))))])))), None, true), 1 => ck(m, &En186::B(x2), &Node::Enum(Hdr { tag: None, label: Some(ident("En186")), index: Some(Index::new_isize(3)) }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(3)) }, Box::new(Node::Bool(x2)))))), None, true), 2 => ck(m, &En186::r#Self_(x3), &Node::Enum(Hdr { tag: None, label: Some(ident("En186")), index: Some(Index::new_isize(3)) }, Some(Box::new(Node::Tagged(Hdr { tag: Some(T1), label: Some(ident("Self_")), index: Some(Index::new_isize(4)) }, Box::new(Node::U8(x3)))))), None, true), _ => ck(m, &En186::Dd { a: x4 }, &Node::Enum(Hdr { tag: None, label: Some(ident("En186")), index: Some(Index::new_isize(3)) }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(lit("lbl \"3")), index: Some(Index::new_isize(5)) }, Some(0), vec![])))), None, true), } }

#[derive(Value)]
#[sval(tag = "T1")] enum En187 { #[sval(tag = "T1")] #[sval(index = 0)] A(), #[sval(index = 0)] B(#[sval(data_tag = T1)] i64, #[sval(skip = true)] Nest, #[sval(tag = T1)] &'static str), #[sval(tag = T1)] #[sval(label = "lbl \"2")] #[sval(index = 1)] #[sval(unindexed_fields)] r#Self_(&'static str, #[sval(tag = T2, data_tag = "T2")] i64), Dd { a: Nest, b: i64 } }
fn enums_16(m: Mode) { let x0 = rt::i64_(); let x1 = rt::u8_(); let x2 = rt::letters(1); let x3 = rt::letters(1); let x4 = rt::i64_(); let x5 = rt::u8_(); let x6 = rt::i64_(); match rt::choice(4) { 0 => ck(m, &En187::A(), &Node::Enum(Hdr { tag: Some(T1), label: Some(ident("En187")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: Some(T1), label: Some(ident("A")), index: Some(Index::new_isize(0)) }, Some(0), vec![])))), Some(T1), true), 1 => ck(m, &En187::B(x0, Nest { n: x1 }, x2), &Node::Enum(Hdr { tag: Some(T1), label: Some(ident("En187")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(0)) }, Some(2), vec![(None, off(0), Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(Node::I64(x0)))), (Some(T1), off(1), Node::Text(Some(1), vec![(false, x2)]))])))), Some(T1), true), 2 => ck(m, &En187::r#Self_(x3, x4), &Node::Enum(Hdr { tag: Some(T1), label: Some(ident("En187")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: Some(T1), label: Some(lit("lbl \"2")), index: Some(Index::new_isize(1)) }, Box::new(Node::Seq(Some(2), vec![Node::Text(Some(1), vec![(false, x3)]), Node::Tagged(Hdr { tag: Some(T2), ..Hdr::default() }, Box::new(Node::I64(x4)))])))))), Some(T1), true), _ => ck(m, &En187::Dd { a: Nest { n: x5 }, b: x6 }, &Node::Enum(Hdr { tag: Some(T1), label: Some(ident("En187")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(ident("Dd")), index: Some(Index::new_isize(2)) }, Some(2), vec![(None, ident("a"), off(0), nest(x5)), (None, ident("b"), off(1), Node::I64(x6))])))), Some(T1), true), } }

#[derive(Value)]
enum En188 { #[sval(index = 5, unindexed_fields)] A(#[sval(data_tag = "T1")] Nest, #[sval(skip = true)] &'static str), #[sval(index = 5)] B {  }, #[sval(label = LAB)] r#Self_, Dd(Nest), #[sval(tag = T2)] E { #[sval(data_tag = "T2")] a: Nest } }
fn enums_17(m: Mode) { let x0 = rt::u8_(); let x1 = rt::letters(1); let x2 = rt::u8_(); let x3 = rt::u8_(); match rt::choice(5) { 0 => ck(m, &En188::A(Nest { n: x0 }, x1), &Node::Enum(Hdr { tag: None, label: Some(ident("En188")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("A")), index: Some(Index::new_isize(5)) }, Box::new(Node::Seq(Some(1), vec![Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(nest(x0)))])))))), None, true), 1 => ck(m, &En188::B {  }, &Node::Enum(Hdr { tag: None, label: Some(ident("En188")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(5)) }, Some(0), vec![])))), None, true), 2 => ck(m, &En188::r#Self_, &Node::Enum(Hdr { tag: None, label: Some(ident("En188")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(lit("lab-path")), index: Some(Index::new_isize(6)) })))), None, true), 3 => ck(m, &En188::Dd(Nest { n: x2 }), &Node::Enum(Hdr { tag: None, label: Some(ident("En188")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("Dd")), index: Some(Index::new_isize(7)) }, Box::new(nest(x2)))))), None, true), _ => ck(m, &En188::E { a: Nest { n: x3 } }, &Node::Enum(Hdr { tag: None, label: Some(ident("En188")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: Some(T2), label: Some(ident("E")), index: Some(Index::new_isize(8)) }, Some(1), vec![(None, ident("a"), off(0), Node::Tagged(Hdr { tag: Some(T2), ..Hdr::default() }, Box::new(nest(x3))))])))), None, true), } }

#[derive(Value)]
#[sval(label = "lbl \"9")] enum En189 { A(&'static str), #[sval(index = 1)] #[sval(unlabeled_fields)] B { #[sval(skip)] a: Nest, #[sval(skip = true)] b: bool }, #[sval(unindexed_fields)] r#Self_(#[sval(label = "lbl \"0")] u8, #[sval(tag = T2, label = "lbl \"1")] i64, #[sval(tag = T1, data_tag = "T2", label = LAB)] bool), Dd(#[sval(tag = "T1", data_tag = T1, label = "lbl \"0")] &'static str, #[sval(tag = T1)] #[sval(data_tag = "T1")] #[sval(label = "lbl \"1")] #[sval(index = -1)] &'static str), #[sval(index = 2)] E(#[sval(tag = "T1")] i64, #[sval(data_tag = T2)] i64, #[sval(index = 7)] Nest) }
fn enums_18(m: Mode) { let x0 = rt::letters(1); let x1 = rt::u8_(); let x2 = rt::bool_(); let x3 = rt::u8_(); let x4 = rt::i64_(); let x5 = rt::bool_(); let x6 = rt::letters(1); let x7 = rt::letters(1); let x8 = rt::i64_(); let x9 = rt::i64_(); let x10 = rt::u8_(); match rt::choice(5) { 0 => ck(m, &En189::A(x0), &Node::Enum(Hdr { tag: None, label: Some(lit("lbl \"9")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("A")), index: Some(off(0)) }, Box::new(Node::Text(Some(1), vec![(false, x0)])))))), None, true), 1 => ck(m, &En189::B { a: Nest { n: x1 }, b: x2 }, &Node::Enum(Hdr { tag: None, label: Some(lit("lbl \"9")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(1)) }, Some(0), vec![])))), None, true), 2 => ck(m, &En189::r#Self_(x3, x4, x5), &Node::Enum(Hdr { tag: None, label: Some(lit("lbl \"9")), index: None }, Some(Box::new(Node::Record(Hdr { tag: None, label: Some(ident("Self_")), index: Some(Index::new_isize(2)) }, Some(3), vec![(None, lit("lbl \"0"), Node::U8(x3)), (Some(T2), lit("lbl \"1"), Node::I64(x4)), (Some(T1), lit("lab-path"), Node::Tagged(Hdr { tag: Some(T2), ..Hdr::default() }, Box::new(Node::Bool(x5))))])))), None, true), 3 => ck(m, &En189::Dd(x6, x7), &Node::Enum(Hdr { tag: None, label: Some(lit("lbl \"9")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(ident("Dd")), index: Some(Index::new_isize(3)) }, Some(2), vec![(Some(T1), lit("lbl \"0"), off(0), Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(Node::Text(Some(1), vec![(false, x6)])))), (Some(T1), lit("lbl \"1"), Index::new_isize(-1), Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(Node::Text(Some(1), vec![(false, x7)]))))])))), None, true), _ => ck(m, &En189::E(x8, x9, Nest { n: x10 }), &Node::Enum(Hdr { tag: None, label: Some(lit("lbl \"9")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(ident("E")), index: Some(Index::new_isize(2)) }, Some(3), vec![(Some(T1), off(0), Node::I64(x8)), (None, off(1), Node::Tagged(Hdr { tag: Some(T2), ..Hdr::default() }, Box::new(Node::I64(x9)))), (None, Index::new_isize(7), nest(x10))])))), None, true), } }

#[derive(Value)]
#[sval(label = "lbl \"9", tag = "T2")] enum En190 { A(u8), #[sval(unlabeled_fields)] B() }
fn enums_19(m: Mode) { let x0 = rt::u8_(); match rt::choice(2) { 0 => ck(m, &En190::A(x0), &Node::Enum(Hdr { tag: Some(T2), label: Some(lit("lbl \"9")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("A")), index: Some(off(0)) }, Box::new(Node::U8(x0)))))), Some(T2), true), _ => ck(m, &En190::B(), &Node::Enum(Hdr { tag: Some(T2), label: Some(lit("lbl \"9")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(ident("B")), index: Some(off(1)) }, Some(0), vec![])))), Some(T2), true), } }

#[derive(Value)]
#[sval(unlabeled_variants)] enum En191 { A(i64, i64, Nest) }
fn enums_20(m: Mode) { let x0 = rt::i64_(); let x1 = rt::i64_(); let x2 = rt::u8_(); ck(m, &En191::A(x0, x1, Nest { n: x2 }), &Node::Enum(Hdr { tag: None, label: Some(ident("En191")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: None, index: Some(off(0)) }, Some(3), vec![(None, off(0), Node::I64(x0)), (None, off(1), Node::I64(x1)), (None, off(2), nest(x2))])))), None, true) }

#[derive(Value)]
#[sval(unlabeled_variants)] enum En192 { A(), B }
fn enums_21(m: Mode) {  match rt::choice(2) { 0 => ck(m, &En192::A(), &Node::Enum(Hdr { tag: None, label: Some(ident("En192")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: None, index: Some(off(0)) }, Some(0), vec![])))), None, true), _ => ck(m, &En192::B, &Node::Enum(Hdr { tag: None, label: Some(ident("En192")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: None, index: Some(off(1)) })))), None, true), } }

#[derive(Value)]
#[sval(unlabeled_variants)] enum En193 { A(i64), B(&'static str, &'static str) }
fn enums_22(m: Mode) { let x0 = rt::i64_(); let x1 = rt::letters(1); let x2 = rt::letters(1); match rt::choice(2) { 0 => ck(m, &En193::A(x0), &Node::Enum(Hdr { tag: None, label: Some(ident("En193")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: None, index: Some(off(0)) }, Box::new(Node::I64(x0)))))), None, true), _ => ck(m, &En193::B(x1, x2), &Node::Enum(Hdr { tag: None, label: Some(ident("En193")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: None, index: Some(off(1)) }, Some(2), vec![(None, off(0), Node::Text(Some(1), vec![(false, x1)])), (None, off(1), Node::Text(Some(1), vec![(false, x2)]))])))), None, true), } }

#[derive(Value)]
#[sval(index = IX40, label = "lbl \"9", tag = T1, unlabeled_variants)] enum En194 { A(#[sval(label = "lbl \"0")] Nest, #[sval(label = "lbl \"1")] &'static str, #[sval(tag = T1, label = LAB)] Nest), #[sval(unlabeled_fields)] B { #[sval(index = 2)] a: i64 }, #[sval(tag = T2)] r#Self_(#[sval(tag = T2)] u8, Nest, #[sval(skip)] &'static str) }
fn enums_23(m: Mode) { let x0 = rt::u8_(); let x1 = rt::letters(1); let x2 = rt::u8_(); let x3 = rt::i64_(); let x4 = rt::u8_(); let x5 = rt::u8_(); let x6 = rt::letters(1); match rt::choice(3) { 0 => ck(m, &En194::A(Nest { n: x0 }, x1, Nest { n: x2 }), &Node::Enum(Hdr { tag: Some(T1), label: Some(lit("lbl \"9")), index: Some(Index::new_isize(40)) }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: None, index: Some(off(0)) }, Some(3), vec![(None, lit("lbl \"0"), off(0), nest(x0)), (None, lit("lbl \"1"), off(1), Node::Text(Some(1), vec![(false, x1)])), (Some(T1), lit("lab-path"), off(2), nest(x2))])))), Some(T1), true), 1 => ck(m, &En194::B { a: x3 }, &Node::Enum(Hdr { tag: Some(T1), label: Some(lit("lbl \"9")), index: Some(Index::new_isize(40)) }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: None, index: Some(off(1)) }, Some(1), vec![(None, Index::new_isize(2), Node::I64(x3))])))), Some(T1), true), _ => ck(m, &En194::r#Self_(x4, Nest { n: x5 }, x6), &Node::Enum(Hdr { tag: Some(T1), label: Some(lit("lbl \"9")), index: Some(Index::new_isize(40)) }, Some(Box::new(Node::Tuple(Hdr { tag: Some(T2), label: None, index: Some(off(2)) }, Some(2), vec![(Some(T2), off(0), Node::U8(x4)), (None, off(1), nest(x5))])))), Some(T1), true), } }

#[derive(Value)]
#[sval(tag = T1, index = 0, label = "lbl \"9", unlabeled_variants)] enum En195 { A { #[sval(tag = "T2", label = "lbl \"0")] a: bool, #[sval(skip = true)] b: bool }, #[sval(unlabeled_fields)] B { #[sval(index = 5)] a: &'static str }, #[sval(tag = T2)] r#Self_ }
fn enums_24(m: Mode) { let x0 = rt::bool_(); let x1 = rt::bool_(); let x2 = rt::letters(1); match rt::choice(3) { 0 => ck(m, &En195::A { a: x0, b: x1 }, &Node::Enum(Hdr { tag: Some(T1), label: Some(lit("lbl \"9")), index: Some(Index::new_isize(0)) }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: None, index: Some(off(0)) }, Some(1), vec![(Some(T2), lit("lbl \"0"), off(0), Node::Bool(x0))])))), Some(T1), true), 1 => ck(m, &En195::B { a: x2 }, &Node::Enum(Hdr { tag: Some(T1), label: Some(lit("lbl \"9")), index: Some(Index::new_isize(0)) }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: None, index: Some(off(1)) }, Some(1), vec![(None, Index::new_isize(5), Node::Text(Some(1), vec![(false, x2)]))])))), Some(T1), true), _ => ck(m, &En195::r#Self_, &Node::Enum(Hdr { tag: Some(T1), label: Some(lit("lbl \"9")), index: Some(Index::new_isize(0)) }, Some(Box::new(Node::Tag(Hdr { tag: Some(T2), label: None, index: Some(off(2)) })))), Some(T1), true), } }

#[derive(Value)]
#[sval(index = -2)] #[sval(tag = T2)] #[sval(label = "lbl \"9")] #[sval(unlabeled_variants)] enum En196 { #[sval(tag = "T2")] A(i64), #[sval(tag = "T1")] B(Nest), #[sval(index = 2, unindexed_fields)] r#Self_ { #[sval(data_tag = T1)] a: i64, b: u8, #[sval(tag = "T2")] #[sval(label = "lbl \"2")] r#type: &'static str }, Dd {  } }
fn enums_25(m: Mode) { let x0 = rt::i64_(); let x1 = rt::u8_(); let x2 = rt::i64_(); let x3 = rt::u8_(); let x4 = rt::letters(1); match rt::choice(4) { 0 => ck(m, &En196::A(x0), &Node::Enum(Hdr { tag: Some(T2), label: Some(lit("lbl \"9")), index: Some(Index::new_isize(-2)) }, Some(Box::new(Node::Tagged(Hdr { tag: Some(T2), label: None, index: Some(off(0)) }, Box::new(Node::I64(x0)))))), Some(T2), true), 1 => ck(m, &En196::B(Nest { n: x1 }), &Node::Enum(Hdr { tag: Some(T2), label: Some(lit("lbl \"9")), index: Some(Index::new_isize(-2)) }, Some(Box::new(Node::Tagged(Hdr { tag: Some(T1), label: None, index: Some(off(1)) }, Box::new(nest(x1)))))), Some(T2), true), 2 => ck(m, &En196::r#Self_ { a: x2, b: x3, r#type: x4 }, &Node::Enum(Hdr { tag: Some(T2), label: Some(lit("lbl \"9")), index: Some(Index::new_isize(-2)) }, Some(Box::new(Node::Record(Hdr { tag: None, label: None, index: Some(Index::new_isize(2)) }, Some(3), vec![(None, ident("a"), Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(Node::I64(x2)))), (None, ident("b"), Node::U8(x3)), (Some(T2), lit("lbl \"2"), Node::Text(Some(1), vec![(false, x4)]))])))), Some(T2), true), _ => ck(m, &En196::Dd {  }, &Node::Enum(Hdr { tag: Some(T2), label: Some(lit("lbl \"9")), index: Some(Index::new_isize(-2)) }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: None, index: Some(Index::new_isize(3)) }, Some(0), vec![])))), Some(T2), true), } }

#[derive(Value)]
#[sval(unlabeled_variants)] enum En197 { #[sval(tag = T2, unlabeled_fields)] A(), #[sval(index = 5)] B(bool), r#Self_, #[sval(unlabeled_fields)] Dd { #[sval(index = 1)] a: bool } }
fn enums_26(m: Mode) { let x0 = rt::bool_(); let x1 = rt::bool_(); match rt::choice(4) { 0 => ck(m, &En197::A(), &Node::Enum(Hdr { tag: None, label: Some(ident("En197")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: Some(T2), label: None, index: Some(off(0)) }, Some(0), vec![])))), None, true), 1 => ck(m, &En197::B(x0), &Node::Enum(Hdr { tag: None, label: Some(ident("En197")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: None, index: Some(Index::new_isize(5)) }, Box::new(Node::Bool(x0)))))), None, true), 2 => ck(m, &En197::r#Self_, &Node::Enum(Hdr { tag: None, label: Some(ident("En197")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: None, index: Some(Index::new_isize(6)) })))), None, true), _ => ck(m, &En197::Dd { a: x1 }, &Node::Enum(Hdr { tag: None, label: Some(ident("En197")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: None, index: Some(Index::new_isize(7)) }, Some(1), vec![(None, Index::new_isize(1), Node::Bool(x1))])))), None, true), } }

#[derive(Value)]
#[sval(unlabeled_variants)] enum En198 { #[sval(index = 1)] A(), #[sval(index = 1)] B { #[sval(index = -4)] a: &'static str, #[sval(index = -4)] b: i64, #[sval(skip)] r#type: u8 }, #[sval(tag = T1)] r#Self_(i64), #[sval(unlabeled_fields)] #[sval(unindexed_fields)] Dd(), #[sval(index = 5)] E { #[sval(index = 5)] a: bool } }
fn enums_27(m: Mode) { let x0 = rt::letters(1); let x1 = rt::i64_(); let x2 = rt::u8_(); let x3 = rt::i64_(); let x4 = rt::bool_(); match rt::choice(5) { 0 => ck(m, &En198::A(), &Node::Enum(Hdr { tag: None, label: Some(ident("En198")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: None, index: Some(Index::new_isize(1)) }, Some(0), vec![])))), None, true), 1 => ck(m, &En198::B { a: x0, b: x1, r#type: x2 }, &Node::Enum(Hdr { tag: None, label: Some(ident("En198")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: None, index: Some(Index::new_isize(1)) }, Some(2), vec![(None, ident("a"), Index::new_isize(-4), Node::Text(Some(1), vec![(false, x0)])), (None, ident("b"), Index::new_isize(-4), Node::I64(x1))])))), None, true), 2 => ck(m, &En198::r#Self_(x3), &Node::Enum(Hdr { tag: None, label: Some(ident("En198")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: Some(T1), label: None, index: Some(Index::new_isize(2)) }, Box::new(Node::I64(x3)))))), None, true), 3 => ck(m, &En198::Dd(), &Node::Enum(Hdr { tag: None, label: Some(ident("En198")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: None, index: Some(Index::new_isize(3)) }, Some(0), vec![])))), None, true), _ => ck(m, &En198::E { a: x4 }, &Node::Enum(Hdr { tag: None, label: Some(ident("En198")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: None, index: Some(Index::new_isize(5)) }, Some(1), vec![(None, ident("a"), Index::new_isize(5), Node::Bool(x4))])))), None, true), } }

#[derive(Value)]
#[sval(unlabeled_variants)] enum En199 { A(i64), #[sval(tag = T1)] B { #[sval(skip)] a: &'static str, #[sval(label = LAB)] #[sval(index = 0)] b: i64 }, r#Self_(#[sval(skip)] Nest, i64), #[sval(tag = "T1")] Dd, #[sval(index = 2)] E(bool) }
fn enums_28(m: Mode) { let x0 = rt::i64_(); let x1 = rt::letters(1); let x2 = rt::i64_(); let x3 = rt::u8_(); let x4 = rt::i64_(); let x5 = rt::bool_(); match rt::choice(5) { 0 => ck(m, &En199::A(x0), &Node::Enum(Hdr { tag: None, label: Some(ident("En199")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: None, index: Some(off(0)) }, Box::new(Node::I64(x0)))))), None, true), 1 => ck(m, &En199::B { a: x1, b: x2 }, &Node::Enum(Hdr { tag: None, label: Some(ident("En199")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: Some(T1), label: None, index: Some(off(1)) }, Some(1), vec![(None, lit("lab-path"), Index::new_isize(0), Node::I64(x2))])))), None, true), 2 => ck(m, &En199::r#Self_(Nest { n: x3 }, x4), &Node::Enum(Hdr { tag: None, label: Some(ident("En199")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: None, index: Some(off(2)) }, Some(1), vec![(None, off(0), Node::I64(x4))])))), None, true), 3 => ck(m, &En199::Dd, &Node::Enum(Hdr { tag: None, label: Some(ident("En199")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: Some(T1), label: None, index: Some(off(3)) })))), None, true), _ => ck(m, &En199::E(x5), &Node::Enum(Hdr { tag: None, label: Some(ident("En199")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: None, index: Some(Index::new_isize(2)) }, Box::new(Node::Bool(x5)))))), None, true), } }

#[derive(Value)]
#[sval(label = LAB, index = 0, unlabeled_variants)] enum En200 { #[sval(index = 5, unindexed_fields)] A {  }, #[sval(index = 0, unlabeled_fields)] B { #[sval(data_tag = T1)] a: &'static str, b: Nest } }
fn enums_29(m: Mode) { let x0 = rt::letters(1); let x1 = rt::u8_(); match rt::choice(2) { 0 => ck(m, &En200::A {  }, &Node::Enum(Hdr { tag: None, label: Some(lit("lab-path")), index: Some(Index::new_isize(0)) }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: None, index: Some(Index::new_isize(5)) }, Some(0), vec![])))), None, true), _ => ck(m, &En200::B { a: x0, b: Nest { n: x1 } }, &Node::Enum(Hdr { tag: None, label: Some(lit("lab-path")), index: Some(Index::new_isize(0)) }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: None, index: Some(Index::new_isize(0)) }, Some(2), vec![(None, off(0), Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(Node::Text(Some(1), vec![(false, x0)])))), (None, off(1), nest(x1))])))), None, true), } }

#[derive(Value)]
#[sval(unindexed_variants)] enum En201 { A { a: u8 } }
fn enums_30(m: Mode) { let x0 = rt::u8_(); ck(m, &En201::A { a: x0 }, &Node::Enum(Hdr { tag: None, label: Some(ident("En201")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(ident("A")), index: None }, Some(1), vec![(None, ident("a"), off(0), Node::U8(x0))])))), None, true) }

#[derive(Value)]
#[sval(unindexed_variants)] enum En202 { A(u8, bool, bool), B(bool) }
fn enums_31(m: Mode) { let x0 = rt::u8_(); let x1 = rt::bool_(); let x2 = rt::bool_(); let x3 = rt::bool_(); match rt::choice(2) { 0 => ck(m, &En202::A(x0, x1, x2), &Node::Enum(Hdr { tag: None, label: Some(ident("En202")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(ident("A")), index: None }, Some(3), vec![(None, off(0), Node::U8(x0)), (None, off(1), Node::Bool(x1)), (None, off(2), Node::Bool(x2))])))), None, true), _ => ck(m, &En202::B(x3), &Node::Enum(Hdr { tag: None, label: Some(ident("En202")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("B")), index: None }, Box::new(Node::Bool(x3)))))), None, true), } }

#[derive(Value)]
#[sval(unindexed_variants)] enum En203 { A(i64, i64, bool), B }
fn enums_32(m: Mode) { let x0 = rt::i64_(); let x1 = rt::i64_(); let x2 = rt::bool_(); match rt::choice(2) { 0 => ck(m, &En203::A(x0, x1, x2), &Node::Enum(Hdr { tag: None, label: Some(ident("En203")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(ident("A")), index: None }, Some(3), vec![(None, off(0), Node::I64(x0)), (None, off(1), Node::I64(x1)), (None, off(2), Node::Bool(x2))])))), None, true), _ => ck(m, &En203::B, &Node::Enum(Hdr { tag: None, label: Some(ident("En203")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("B")), index: None })))), None, true), } }

#[derive(Value)]
#[sval(tag = "T2", label = "lbl \"9", unindexed_variants)] enum En204 { A { #[sval(tag = "T2")] #[sval(index = 7)] a: bool, b: i64 }, #[sval(label = "lbl \"1", unlabeled_fields, unindexed_fields)] B(), r#Self_(Nest) }
fn enums_33(m: Mode) { let x0 = rt::bool_(); let x1 = rt::i64_(); let x2 = rt::u8_(); match rt::choice(3) { 0 => ck(m, &En204::A { a: x0, b: x1 }, &Node::Enum(Hdr { tag: Some(T2), label: Some(lit("lbl \"9")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(ident("A")), index: None }, Some(2), vec![(Some(T2), ident("a"), Index::new_isize(7), Node::Bool(x0)), (None, ident("b"), Index::new_isize(8), Node::I64(x1))])))), Some(T2), true), 1 => ck(m, &En204::B(), &Node::Enum(Hdr { tag: Some(T2), label: Some(lit("lbl \"9")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(lit("lbl \"1")), index: None }, Some(0), vec![])))), Some(T2), true), _ => ck(m, &En204::r#Self_(Nest { n: x2 }), &Node::Enum(Hdr { tag: Some(T2), label: Some(lit("lbl \"9")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("Self_")), index: None }, Box::new(nest(x2)))))), Some(T2), true), } }

#[derive(Value)]
#[sval(label = "lbl \"9")] #[sval(unindexed_variants)] enum En205 { #[sval(tag = T1)] A(i64), #[sval(label = LAB)] B { #[sval(tag = "T2", data_tag = "T1")] a: &'static str, b: i64 }, r#Self_(&'static str) }
fn enums_34(m: Mode) { let x0 = rt::i64_(); let x1 = rt::letters(1); let x2 = rt::i64_(); let x3 = rt::letters(1); match rt::choice(3) { 0 => ck(m, &En205::A(x0), &Node::Enum(Hdr { tag: None, label: Some(lit("lbl \"9")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: Some(T1), label: Some(ident("A")), index: None }, Box::new(Node::I64(x0)))))), None, true), 1 => ck(m, &En205::B { a: x1, b: x2 }, &Node::Enum(Hdr { tag: None, label: Some(lit("lbl \"9")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(lit("lab-path")), index: None }, Some(2), vec![(Some(T2), ident("a"), off(0), Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(Node::Text(Some(1), vec![(false, x1)])))), (None, ident("b"), off(1), Node::I64(x2))])))), None, true), _ => ck(m, &En205::r#Self_(x3), &Node::Enum(Hdr { tag: None, label: Some(lit("lbl \"9")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("Self_")), index: None }, Box::new(Node::Text(Some(1), vec![(false, x3)])))))), None, true), } }

#[derive(Value)]
#[sval(unindexed_variants)] enum En206 { #[sval(label = "lbl \"0")] A {  }, B, #[sval(tag = "T1", label = "lbl \"2", index = 5)] r#Self_(Nest), #[sval(tag = T1)] Dd(bool) }
fn enums_35(m: Mode) { let x0 = rt::u8_(); let x1 = rt::bool_(); match rt::choice(4) { 0 => ck(m, &En206::A {  }, &Node::Enum(Hdr { tag: None, label: Some(ident("En206")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(lit("lbl \"0")), index: None }, Some(0), vec![])))), None, true), 1 => ck(m, &En206::B, &Node::Enum(Hdr { tag: None, label: Some(ident("En206")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("B")), index: None })))), None, true), 2 => ck(m, &En206::r#Self_(Nest { n: x0 }), &Node::Enum(Hdr { tag: None, label: Some(ident("En206")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: Some(T1), label: Some(lit("lbl \"2")), index: Some(Index::new_isize(5)) }, Box::new(nest(x0)))))), None, true), _ => ck(m, &En206::Dd(x1), &Node::Enum(Hdr { tag: None, label: Some(ident("En206")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: Some(T1), label: Some(ident("Dd")), index: None }, Box::new(Node::Bool(x1)))))), None, true), } }

#[derive(Value)]
#[sval(label = LAB, unindexed_variants)] enum En207 { A(#[sval(tag = T1, label = "lbl \"0")] &'static str, #[sval(tag = "T2")] #[sval(label = "lbl \"1")] &'static str, #[sval(tag = T1)] #[sval(data_tag = "T1")] #[sval(label = LAB)] i64), B, #[sval(index = 0)] r#Self_ { #[sval(label = "lbl \"0")] a: Nest, #[sval(tag = "T2", data_tag = "T1")] b: i64 }, #[sval(index = 0)] #[sval(unindexed_fields)] Dd {  } }
fn enums_36(m: Mode) { let x0 = rt::letters(1); let x1 = rt::letters(1); let x2 = rt::i64_(); let x3 = rt::u8_(); let x4 = rt::i64_(); match rt::choice(4) { 0 => ck(m, &En207::A(x0, x1, x2), &Node::Enum(Hdr { tag: None, label: Some(lit("lab-path")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(ident("A")), index: None }, Some(3), vec![(Some(T1), lit("lbl \"0"), off(0), Node::Text(Some(1), vec![(false, x0)])), (Some(T2), lit("lbl \"1"), off(1), Node::Text(Some(1), vec![(false, x1)])), (Some(T1), lit("lab-path"), off(2), Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(Node::I64(x2))))])))), None, true), 1 => ck(m, &En207::B, &Node::Enum(Hdr { tag: None, label: Some(lit("lab-path")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("B")), index: None })))), None, true), 2 => ck(m, &En207::r#Self_ { a: Nest { n: x3 }, b: x4 }, &Node::Enum(Hdr { tag: None, label: Some(lit("lab-path")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(ident("Self_")), index: Some(Index::new_isize(0)) }, Some(2), vec![(None, lit("lbl \"0"), off(0), nest(x3)), (Some(T2), ident("b"), off(1), Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(Node::I64(x4))))])))), None, true), _ => ck(m, &En207::Dd {  }, &Node::Enum(Hdr { tag: None, label: Some(lit("lab-path")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(ident("Dd")), index: Some(Index::new_isize(0)) }, Some(0), vec![])))), None, true), } }

#[derive(Value)]
#[sval(label = "lbl \"9", unindexed_variants)] enum En208 { #[sval(tag = "T1")] #[sval(label = "lbl \"0")] #[sval(index = 0)] A { #[sval(skip)] a: Nest }, #[sval(label = "lbl \"1")] B(bool), #[sval(unindexed_fields)] r#Self_ {  }, #[sval(unindexed_fields)] Dd { #[sval(label = "lbl \"0")] a: u8, b: i64, r#type: &'static str }, #[sval(tag = "T1")] #[sval(index = 1)] E(Nest) }
fn enums_37(m: Mode) { let x0 = rt::u8_(); let x1 = rt::bool_(); let x2 = rt::u8_(); let x3 = rt::i64_(); let x4 = rt::letters(1); let x5 = rt::u8_(); match rt::choice(5) { 0 => ck(m, &En208::A { a: Nest { n: x0 } }, &Node::Enum(Hdr { tag: None, label: Some(lit("lbl \"9")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: Some(T1), label: Some(lit("lbl \"0")), index: Some(Index::new_isize(0)) }, Some(0), vec![])))), None, true), 1 => ck(m, &En208::B(x1), &Node::Enum(Hdr { tag: None, label: Some(lit("lbl \"9")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(lit("lbl \"1")), index: None }, Box::new(Node::Bool(x1)))))), None, true), 2 => ck(m, &En208::r#Self_ {  }, &Node::Enum(Hdr { tag: None, label: Some(lit("lbl \"9")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(ident("Self_")), index: None }, Some(0), vec![])))), None, true), 3 => ck(m, &En208::Dd { a: x2, b: x3, r#type: x4 }, &Node::Enum(Hdr { tag: None, label: Some(lit("lbl \"9")), index: None }, Some(Box::new(Node::Record(Hdr { tag: None, label: Some(ident("Dd")), index: None }, Some(3), vec![(None, lit("lbl \"0"), Node::U8(x2)), (None, ident("b"), Node::I64(x3)), (None, ident("type"), Node::Text(Some(1), vec![(false, x4)]))])))), None, true), _ => ck(m, &En208::E(Nest { n: x5 }), &Node::Enum(Hdr { tag: None, label: Some(lit("lbl \"9")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: Some(T1), label: Some(ident("E")), index: Some(Index::new_isize(1)) }, Box::new(nest(x5)))))), None, true), } }

#[derive(Value)]
#[sval(tag = "T1")] #[sval(label = "lbl \"9")] #[sval(unindexed_variants)] enum En209 { #[sval(tag = T2)] A(#[sval(label = "lbl \"0", index = IX41)] u8, #[sval(skip)] &'static str, #[sval(tag = "T2")] #[sval(label = "lbl \"2")] #[sval(index = IX40)] u8), #[sval(label = "lbl \"1", unindexed_fields)] B(#[sval(data_tag = "T1")] #[sval(label = LAB)] bool, #[sval(data_tag = "T2")] #[sval(label = "lbl \"1")] i64), #[sval(tag = "T2", label = "lbl \"2")] r#Self_ { #[sval(label = "lbl \"0")] a: i64, #[sval(tag = T2)] #[sval(label = LAB)] #[sval(index = 2)] b: bool }, #[sval(tag = "T2", unlabeled_fields)] Dd(), #[sval(tag = T1)] E }
fn enums_38(m: Mode) { let x0 = rt::u8_(); let x1 = rt::letters(1); let x2 = rt::u8_(); let x3 = rt::bool_(); let x4 = rt::i64_(); let x5 = rt::i64_(); let x6 = rt::bool_(); match rt::choice(5) { 0 => ck(m, &En209::A(x0, x1, x2), &Node::Enum(Hdr { tag: Some(T1), label: Some(lit("lbl \"9")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: Some(T2), label: Some(ident("A")), index: None }, Some(2), vec![(None, lit("lbl \"0"), Index::new_isize(41), Node::U8(x0)), (Some(T2), lit("lbl \"2"), Index::new_isize(40), Node::U8(x2))])))), Some(T1), true), 1 => ck(m, &En209::B(x3, x4), &Node::Enum(Hdr { tag: Some(T1), label: Some(lit("lbl \"9")), index: None }, Some(Box::new(Node::Record(Hdr { tag: None, label: Some(lit("lbl \"1")), index: None }, Some(2), vec![(None, lit("lab-path"), Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(Node::Bool(x3)))), (None, lit("lbl \"1"), Node::Tagged(Hdr { tag: Some(T2), ..Hdr::default() }, Box::new(Node::I64(x4))))])))), Some(T1), true), 2 => ck(m, &En209::r#Self_ { a: x5, b: x6 }, &Node::Enum(Hdr { tag: Some(T1), label: Some(lit("lbl \"9")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: Some(T2), label: Some(lit("lbl \"2")), index: None }, Some(2), vec![(None, lit("lbl \"0"), off(0), Node::I64(x5)), (Some(T2), lit("lab-path"), Index::new_isize(2), Node::Bool(x6))])))), Some(T1), true), 3 => ck(m, &En209::Dd(), &Node::Enum(Hdr { tag: Some(T1), label: Some(lit("lbl \"9")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: Some(T2), label: Some(ident("Dd")), index: None }, Some(0), vec![])))), Some(T1), true), _ => ck(m, &En209::E, &Node::Enum(Hdr { tag: Some(T1), label: Some(lit("lbl \"9")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: Some(T1), label: Some(ident("E")), index: None })))), Some(T1), true), } }

#[derive(Value)]
#[sval(label = LAB, unindexed_variants)] enum En210 { #[sval(index = 5)] A(&'static str), #[sval(tag = "T2")] #[sval(unlabeled_fields)] B { #[sval(tag = T2)] a: u8, #[sval(tag = T1)] b: bool } }
fn enums_39(m: Mode) { let x0 = rt::letters(1); let x1 = rt::u8_(); let x2 = rt::bool_(); match rt::choice(2) { 0 => ck(m, &En210::A(x0), &Node::Enum(Hdr { tag: None, label: Some(lit("lab-path")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("A")), index: Some(Index::new_isize(5)) }, Box::new(Node::Text(Some(1), vec![(false, x0)])))))), None, true), _ => ck(m, &En210::B { a: x1, b: x2 }, &Node::Enum(Hdr { tag: None, label: Some(lit("lab-path")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: Some(T2), label: Some(ident("B")), index: None }, Some(2), vec![(Some(T2), off(0), Node::U8(x1)), (Some(T1), off(1), Node::Bool(x2))])))), None, true), } }

#[derive(Value)]
#[sval(unlabeled_variants)] #[sval(unindexed_variants)] enum En211 { A {  } }
fn enums_40(m: Mode) {  ck(m, &En211::A {  }, &Node::Enum(Hdr { tag: None, label: Some(ident("En211")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: None, index: None }, Some(0), vec![])))), None, true) }

#[derive(Value)]
#[sval(unlabeled_variants, unindexed_variants)] enum En212 { A { a: bool, b: Nest }, B(bool) }
fn enums_41(m: Mode) { let x0 = rt::bool_(); let x1 = rt::u8_(); let x2 = rt::bool_(); match rt::choice(2) { 0 => ck(m, &En212::A { a: x0, b: Nest { n: x1 } }, &Node::Enum(Hdr { tag: None, label: Some(ident("En212")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: None, index: None }, Some(2), vec![(None, ident("a"), off(0), Node::Bool(x0)), (None, ident("b"), off(1), nest(x1))])))), None, true), _ => ck(m, &En212::B(x2), &Node::Enum(Hdr { tag: None, label: Some(ident("En212")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: None, index: None }, Box::new(Node::Bool(x2)))))), None, true), } }

#[derive(Value)]
#[sval(unlabeled_variants, unindexed_variants)] enum En213 { A(u8, u8, i64), B(Nest) }
fn enums_42(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); let x2 = rt::i64_(); let x3 = rt::u8_(); match rt::choice(2) { 0 => ck(m, &En213::A(x0, x1, x2), &Node::Enum(Hdr { tag: None, label: Some(ident("En213")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: None, index: None }, Some(3), vec![(None, off(0), Node::U8(x0)), (None, off(1), Node::U8(x1)), (None, off(2), Node::I64(x2))])))), None, true), _ => ck(m, &En213::B(Nest { n: x3 }), &Node::Enum(Hdr { tag: None, label: Some(ident("En213")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: None, index: None }, Box::new(nest(x3)))))), None, true), } }

#[derive(Value)]
#[sval(index = 0, unlabeled_variants, unindexed_variants)] enum En214 { #[sval(index = 5)] A { a: i64, b: u8 }, #[sval(tag = T2)] #[sval(index = 0)] B, #[sval(index = 2)] r#Self_ }
fn enums_43(m: Mode) { let x0 = rt::i64_(); let x1 = rt::u8_(); match rt::choice(3) { 0 => ck(m, &En214::A { a: x0, b: x1 }, &Node::Enum(Hdr { tag: None, label: Some(ident("En214")), index: Some(Index::new_isize(0)) }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: None, index: Some(Index::new_isize(5)) }, Some(2), vec![(None, ident("a"), off(0), Node::I64(x0)), (None, ident("b"), off(1), Node::U8(x1))])))), None, true), 1 => ck(m, &En214::B, &Node::Enum(Hdr { tag: None, label: Some(ident("En214")), index: Some(Index::new_isize(0)) }, Some(Box::new(Node::Tag(Hdr { tag: Some(T2), label: None, index: Some(Index::new_isize(0)) })))), None, true), _ => ck(m, &En214::r#Self_, &Node::Enum(Hdr { tag: None, label: Some(ident("En214")), index: Some(Index::new_isize(0)) }, Some(Box::new(Node::Tag(Hdr { tag: None, label: None, index: Some(Index::new_isize(2)) })))), None, true), } }

#[derive(Value)]
#[sval(unlabeled_variants)] #[sval(unindexed_variants)] enum En215 { #[sval(index = 0)] A(u8), B(#[sval(skip)] i64, #[sval(index = IX40)] i64), r#Self_(#[sval(index = IX40)] Nest, #[sval(tag = "T2")] #[sval(index = IX41)] Nest, #[sval(data_tag = T1)] #[sval(index = IX41)] Nest) }
fn enums_44(m: Mode) { let x0 = rt::u8_(); let x1 = rt::i64_(); let x2 = rt::i64_(); let x3 = rt::u8_(); let x4 = rt::u8_(); let x5 = rt::u8_(); match rt::choice(3) { 0 => ck(m, &En215::A(x0), &Node::Enum(Hdr { tag: None, label: Some(ident("En215")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: None, index: Some(Index::new_isize(0)) }, Box::new(Node::U8(x0)))))), None, true), 1 => ck(m, &En215::B(x1, x2), &Node::Enum(Hdr { tag: None, label: Some(ident("En215")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: None, index: None }, Some(1), vec![(None, Index::new_isize(40), Node::I64(x2))])))), None, true), _ => ck(m, &En215::r#Self_(Nest { n: x3 }, Nest { n: x4 }, Nest { n: x5 }), &Node::Enum(Hdr { tag: None, label: Some(ident("En215")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: None, index: None }, Some(3), vec![(None, Index::new_isize(40), nest(x3)), (Some(T2), Index::new_isize(41), nest(x4)), (None, Index::new_isize(41), Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(nest(x5))))])))), None, true), } }

#[derive(Value)]
#[sval(tag = "T1")] #[sval(index = 0)] #[sval(unlabeled_variants)] #[sval(unindexed_variants)] enum En216 { #[sval(index = 2)] #[sval(unindexed_fields)] A { #[sval(label = LAB)] a: Nest, #[sval(tag = "T1")] b: u8, r#type: u8 }, B, #[sval(index = -3)] r#Self_(Nest), #[sval(tag = T2, index = 0)] Dd { #[sval(label = "lbl \"0")] a: Nest, #[sval(tag = T2, index = 7)] b: Nest } }
fn enums_45(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); let x2 = rt::u8_(); let x3 = rt::u8_(); let x4 = rt::u8_(); let x5 = rt::u8_(); match rt::choice(4) { 0 => ck(m, &En216::A { a: Nest { n: x0 }, b: x1, r#type: x2 }, &Node::Enum(Hdr { tag: Some(T1), label: Some(ident("En216")), index: Some(Index::new_isize(0)) }, Some(Box::new(Node::Record(Hdr { tag: None, label: None, index: Some(Index::new_isize(2)) }, Some(3), vec![(None, lit("lab-path"), nest(x0)), (Some(T1), ident("b"), Node::U8(x1)), (None, ident("type"), Node::U8(x2))])))), Some(T1), true), 1 => ck(m, &En216::B, &Node::Enum(Hdr { tag: Some(T1), label: Some(ident("En216")), index: Some(Index::new_isize(0)) }, Some(Box::new(Node::Tag(Hdr { tag: None, label: None, index: None })))), Some(T1), true), 2 => ck(m, &En216::r#Self_(Nest { n: x3 }), &Node::Enum(Hdr { tag: Some(T1), label: Some(ident("En216")), index: Some(Index::new_isize(0)) }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: None, index: Some(Index::new_isize(-3)) }, Box::new(nest(x3)))))), Some(T1), true), _ => ck(m, &En216::Dd { a: Nest { n: x4 }, b: Nest { n: x5 } }, &Node::Enum(Hdr { tag: Some(T1), label: Some(ident("En216")), index: Some(Index::new_isize(0)) }, Some(Box::new(Node::RecordTuple(Hdr { tag: Some(T2), label: None, index: Some(Index::new_isize(0)) }, Some(2), vec![(None, lit("lbl \"0"), off(0), nest(x4)), (Some(T2), ident("b"), Index::new_isize(7), nest(x5))])))), Some(T1), true), } }

#[derive(Value)]
#[sval(index = 0)] #[sval(label = LAB)] #[sval(unlabeled_variants)] #[sval(unindexed_variants)] enum En217 { #[sval(tag = T1, unlabeled_fields)] A(), #[sval(index = 0, unlabeled_fields)] B(#[sval(tag = T1)] &'static str, #[sval(tag = "T1")] #[sval(index = IX41)] bool, #[sval(index = IX40)] bool), #[sval(index = 2)] r#Self_ { #[sval(tag = T1, index = 7)] a: Nest, #[sval(label = "lbl \"1")] b: &'static str }, #[sval(index = -3)] Dd(i64) }
fn enums_46(m: Mode) { let x0 = rt::letters(1); let x1 = rt::bool_(); let x2 = rt::bool_(); let x3 = rt::u8_(); let x4 = rt::letters(1); let x5 = rt::i64_(); match rt::choice(4) { 0 => ck(m, &En217::A(), &Node::Enum(Hdr { tag: None, label: Some(lit("lab-path")), index: Some(Index::new_isize(0)) }, Some(Box::new(Node::Tuple(Hdr { tag: Some(T1), label: None, index: None }, Some(0), vec![])))), None, true), 1 => ck(m, &En217::B(x0, x1, x2), &Node::Enum(Hdr { tag: None, label: Some(lit("lab-path")), index: Some(Index::new_isize(0)) }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: None, index: Some(Index::new_isize(0)) }, Some(3), vec![(Some(T1), off(0), Node::Text(Some(1), vec![(false, x0)])), (Some(T1), Index::new_isize(41), Node::Bool(x1)), (None, Index::new_isize(40), Node::Bool(x2))])))), None, true), 2 => ck(m, &En217::r#Self_ { a: Nest { n: x3 }, b: x4 }, &Node::Enum(Hdr { tag: None, label: Some(lit("lab-path")), index: Some(Index::new_isize(0)) }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: None, index: Some(Index::new_isize(2)) }, Some(2), vec![(Some(T1), ident("a"), Index::new_isize(7), nest(x3)), (None, lit("lbl \"1"), Index::new_isize(8), Node::Text(Some(1), vec![(false, x4)]))])))), None, true), _ => ck(m, &En217::Dd(x5), &Node::Enum(Hdr { tag: None, label: Some(lit("lab-path")), index: Some(Index::new_isize(0)) }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: None, index: Some(Index::new_isize(-3)) }, Box::new(Node::I64(x5)))))), None, true), } }

#[derive(Value)]
#[sval(tag = T1)] #[sval(unlabeled_variants)] #[sval(unindexed_variants)] enum En218 { A { #[sval(data_tag = T1)] a: Nest, #[sval(data_tag = "T2")] b: &'static str, r#type: bool }, B(Nest), #[sval(unlabeled_fields)] #[sval(unindexed_fields)] r#Self_(#[sval(tag = T2)] Nest, Nest, bool), Dd(u8), E(i64) }
fn enums_47(m: Mode) { let x0 = rt::u8_(); let x1 = rt::letters(1); let x2 = rt::bool_(); let x3 = rt::u8_(); let x4 = rt::u8_(); let x5 = rt::u8_(); let x6 = rt::bool_(); let x7 = rt::u8_(); let x8 = rt::i64_(); match rt::choice(5) { 0 => ck(m, &En218::A { a: Nest { n: x0 }, b: x1, r#type: x2 }, &Node::Enum(Hdr { tag: Some(T1), label: Some(ident("En218")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: None, index: None }, Some(3), vec![(None, ident("a"), off(0), Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(nest(x0)))), (None, ident("b"), off(1), Node::Tagged(Hdr { tag: Some(T2), ..Hdr::default() }, Box::new(Node::Text(Some(1), vec![(false, x1)])))), (None, ident("type"), off(2), Node::Bool(x2))])))), Some(T1), true), 1 => ck(m, &En218::B(Nest { n: x3 }), &Node::Enum(Hdr { tag: Some(T1), label: Some(ident("En218")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: None, index: None }, Box::new(nest(x3)))))), Some(T1), true), 2 => ck(m, &En218::r#Self_(Nest { n: x4 }, Nest { n: x5 }, x6), &Node::Enum(Hdr { tag: Some(T1), label: Some(ident("En218")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: None, index: None }, Box::new(Node::Seq(Some(3), vec![nest(x4), nest(x5), Node::Bool(x6)])))))), Some(T1), true), 3 => ck(m, &En218::Dd(x7), &Node::Enum(Hdr { tag: Some(T1), label: Some(ident("En218")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: None, index: None }, Box::new(Node::U8(x7)))))), Some(T1), true), _ => ck(m, &En218::E(x8), &Node::Enum(Hdr { tag: Some(T1), label: Some(ident("En218")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: None, index: None }, Box::new(Node::I64(x8)))))), Some(T1), true), } }

#[derive(Value)]
#[sval(index = IX40)] #[sval(unlabeled_variants)] #[sval(unindexed_variants)] enum En219 { #[sval(tag = T2)] A { #[sval(index = IX40)] a: &'static str }, B(i64), #[sval(unlabeled_fields)] r#Self_ { #[sval(tag = "T1", index = 5)] a: Nest, #[sval(skip = true)] b: i64 }, Dd(u8), E }
fn enums_48(m: Mode) { let x0 = rt::letters(1); let x1 = rt::i64_(); let x2 = rt::u8_(); let x3 = rt::i64_(); let x4 = rt::u8_(); match rt::choice(5) { 0 => ck(m, &En219::A { a: x0 }, &Node::Enum(Hdr { tag: None, label: Some(ident("En219")), index: Some(Index::new_isize(40)) }, Some(Box::new(Node::RecordTuple(Hdr { tag: Some(T2), label: None, index: None }, Some(1), vec![(None, ident("a"), Index::new_isize(40), Node::Text(Some(1), vec![(false, x0)]))])))), None, true), 1 => ck(m, &En219::B(x1), &Node::Enum(Hdr { tag: None, label: Some(ident("En219")), index: Some(Index::new_isize(40)) }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: None, index: None }, Box::new(Node::I64(x1)))))), None, true), 2 => ck(m, &En219::r#Self_ { a: Nest { n: x2 }, b: x3 }, &Node::Enum(Hdr { tag: None, label: Some(ident("En219")), index: Some(Index::new_isize(40)) }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: None, index: None }, Some(1), vec![(Some(T1), Index::new_isize(5), nest(x2))])))), None, true), 3 => ck(m, &En219::Dd(x4), &Node::Enum(Hdr { tag: None, label: Some(ident("En219")), index: Some(Index::new_isize(40)) }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: None, index: None }, Box::new(Node::U8(x4)))))), None, true), _ => ck(m, &En219::E, &Node::Enum(Hdr { tag: None, label: Some(ident("En219")), index: Some(Index::new_isize(40)) }, Some(Box::new(Node::Tag(Hdr { tag: None, label: None, index: None })))), None, true), } }

#[derive(Value)]
#[sval(index = -2, label = "lbl \"9", unlabeled_variants, unindexed_variants)] enum En220 { #[sval(index = 0)] A {  }, B(#[sval(skip)] u8, #[sval(index = 2)] Nest) }
fn enums_49(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); match rt::choice(2) { 0 => ck(m, &En220::A {  }, &Node::Enum(Hdr { tag: None, label: Some(lit("lbl \"9")), index: Some(Index::new_isize(-2)) }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: None, index: Some(Index::new_isize(0)) }, Some(0), vec![])))), None, true), _ => ck(m, &En220::B(x0, Nest { n: x1 }), &Node::Enum(Hdr { tag: None, label: Some(lit("lbl \"9")), index: Some(Index::new_isize(-2)) }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: None, index: None }, Some(1), vec![(None, Index::new_isize(2), nest(x1))])))), None, true), } }

#[derive(Value)]
#[sval(dynamic)] enum En221 { A { a: i64 } }
fn enums_50(m: Mode) { let x0 = rt::i64_(); ck(m, &En221::A { a: x0 }, &Node::RecordTuple(Hdr { tag: None, label: None, index: None }, Some(1), vec![(None, ident("a"), off(0), Node::I64(x0))]), None, true) }

#[derive(Value)]
#[sval(dynamic)] enum En222 { A(Nest), B(u8) }
fn enums_51(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); match rt::choice(2) { 0 => ck(m, &En222::A(Nest { n: x0 }), &nest(x0), None, true), _ => ck(m, &En222::B(x1), &Node::U8(x1), Some(sval::tags::NUMBER), true), } }

#[derive(Value)]
#[sval(dynamic)] enum En223 { A(u8), B }
fn enums_52(m: Mode) { let x0 = rt::u8_(); match rt::choice(2) { 0 => ck(m, &En223::A(x0), &Node::U8(x0), Some(sval::tags::NUMBER), true), _ => ck(m, &En223::B, &Node::Tag(Hdr { tag: None, label: Some(ident("B")), index: None }), None, true), } }

#[derive(Value)]
#[sval(dynamic)] enum En224 { A(bool), B(#[sval(tag = T2)] #[sval(label = "lbl \"0")] u8, #[sval(label = "lbl \"1")] &'static str), #[sval(label = "lbl \"2")] r#Self_ }
fn enums_53(m: Mode) { let x0 = rt::bool_(); let x1 = rt::u8_(); let x2 = rt::letters(1); match rt::choice(3) { 0 => ck(m, &En224::A(x0), &Node::Bool(x0), None, true), 1 => ck(m, &En224::B(x1, x2), &Node::RecordTuple(Hdr { tag: None, label: None, index: None }, Some(2), vec![(Some(T2), lit("lbl \"0"), off(0), Node::U8(x1)), (None, lit("lbl \"1"), off(1), Node::Text(Some(1), vec![(false, x2)]))]), None, true), _ => ck(m, &En224::r#Self_, &Node::Tag(Hdr { tag: None, label: Some(lit("lbl \"2")), index: None }), None, true), } }

#[derive(Value)]
#[sval(dynamic)] enum En225 { A { #[sval(label = "lbl \"0", index = IX40)] a: i64, #[sval(skip)] b: i64, #[sval(index = IX41)] r#type: Nest }, B, r#Self_(#[sval(index = -1)] i64, #[sval(tag = T1)] Nest) }
fn enums_54(m: Mode) { let x0 = rt::i64_(); let x1 = rt::i64_(); let x2 = rt::u8_(); let x3 = rt::i64_(); let x4 = rt::u8_(); match rt::choice(3) { 0 => ck(m, &En225::A { a: x0, b: x1, r#type: Nest { n: x2 } }, &Node::RecordTuple(Hdr { tag: None, label: None, index: None }, Some(2), vec![(None, lit("lbl \"0"), Index::new_isize(40), Node::I64(x0)), (None, ident("type"), Index::new_isize(41), nest(x2))]), None, true), 1 => ck(m, &En225::B, &Node::Tag(Hdr { tag: None, label: Some(ident("B")), index: None }), None, true), _ => ck(m, &En225::r#Self_(x3, Nest { n: x4 }), &Node::Tuple(Hdr { tag: None, label: None, index: None }, Some(2), vec![(None, Index::new_isize(-1), Node::I64(x3)), (Some(T1), Index::new_isize(0), nest(x4))]), None, true), } }

#[derive(Value)]
#[sval(dynamic)] enum En226 { #[sval(tag = T2)] #[sval(unlabeled_fields)] A(#[sval(tag = T1)] &'static str, #[sval(skip = true)] u8, i64), B, r#Self_(i64), #[sval(unlabeled_fields)] Dd() }
fn enums_55(m: Mode) { let x0 = rt::letters(1); let x1 = rt::u8_(); let x2 = rt::i64_(); let x3 = rt::i64_(); match rt::choice(4) { 0 => ck(m, &En226::A(x0, x1, x2), &Node::Tuple(Hdr { tag: Some(T2), label: None, index: None }, Some(2), vec![(Some(T1), off(0), Node::Text(Some(1), vec![(false, x0)])), (None, off(1), Node::I64(x2))]), Some(T2), true), 1 => ck(m, &En226::B, &Node::Tag(Hdr { tag: None, label: Some(ident("B")), index: None }), None, true), 2 => ck(m, &En226::r#Self_(x3), &Node::I64(x3), Some(sval::tags::NUMBER), true), _ => ck(m, &En226::Dd(), &Node::Tuple(Hdr { tag: None, label: None, index: None }, Some(0), vec![]), None, true), } }

#[derive(Value)]
#[sval(dynamic)] enum En227 { A { #[sval(index = 0)] a: i64 }, B(bool), r#Self_ { a: u8, #[sval(label = LAB, index = 2)] b: i64, r#type: bool }, Dd(&'static str) }
fn enums_56(m: Mode) { let x0 = rt::i64_(); let x1 = rt::bool_(); let x2 = rt::u8_(); let x3 = rt::i64_(); let x4 = rt::bool_(); let x5 = rt::letters(1); match rt::choice(4) { 0 => ck(m, &En227::A { a: x0 }, &Node::RecordTuple(Hdr { tag: None, label: None, index: None }, Some(1), vec![(None, ident("a"), Index::new_isize(0), Node::I64(x0))]), None, true), 1 => ck(m, &En227::B(x1), &Node::Bool(x1), None, true), 2 => ck(m, &En227::r#Self_ { a: x2, b: x3, r#type: x4 }, &Node::RecordTuple(Hdr { tag: None, label: None, index: None }, Some(3), vec![(None, ident("a"), off(0), Node::U8(x2)), (None, lit("lab-path"), Index::new_isize(2), Node::I64(x3)), (None, ident("type"), Index::new_isize(3), Node::Bool(x4))]), None, true), _ => ck(m, &En227::Dd(x5), &Node::Text(Some(1), vec![(false, x5)]), None, true), } }

#[derive(Value)]
#[sval(dynamic)] enum En228 { A(&'static str), B(), r#Self_(i64), #[sval(tag = T1)] Dd, E(Nest) }
fn enums_57(m: Mode) { let x0 = rt::letters(1); let x1 = rt::i64_(); let x2 = rt::u8_(); match rt::choice(5) { 0 => ck(m, &En228::A(x0), &Node::Text(Some(1), vec![(false, x0)]), None, true), 1 => ck(m, &En228::B(), &Node::Tuple(Hdr { tag: None, label: None, index: None }, Some(0), vec![]), None, true), 2 => ck(m, &En228::r#Self_(x1), &Node::I64(x1), Some(sval::tags::NUMBER), true), 3 => ck(m, &En228::Dd, &Node::Tag(Hdr { tag: Some(T1), label: Some(ident("Dd")), index: None }), Some(T1), true), _ => ck(m, &En228::E(Nest { n: x2 }), &nest(x2), None, true), } }

#[derive(Value)]
#[sval(dynamic)] enum En229 { #[sval(tag = "T1")] A(&'static str, #[sval(index = 5)] bool, #[sval(data_tag = T1)] bool), B(Nest), r#Self_ {  }, #[sval(tag = T2)] #[sval(unlabeled_fields)] Dd(), #[sval(unlabeled_fields, unindexed_fields)] E { #[sval(tag = "T1")] a: bool, b: Nest } }
fn enums_58(m: Mode) { let x0 = rt::letters(1); let x1 = rt::bool_(); let x2 = rt::bool_(); let x3 = rt::u8_(); let x4 = rt::bool_(); let x5 = rt::u8_(); match rt::choice(5) { 0 => ck(m, &En229::A(x0, x1, x2), &Node::Tuple(Hdr { tag: Some(T1), label: None, index: None }, Some(3), vec![(None, off(0), Node::Text(Some(1), vec![(false, x0)])), (None, Index::new_isize(5), Node::Bool(x1)), (None, Index::new_isize(6), Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(Node::Bool(x2))))]), Some(T1), true), 1 => ck(m, &En229::B(Nest { n: x3 }), &nest(x3), None, true), 2 => ck(m, &En229::r#Self_ {  }, &Node::RecordTuple(Hdr { tag: None, label: None, index: None }, Some(0), vec![]), None, true), 3 => ck(m, &En229::Dd(), &Node::Tuple(Hdr { tag: Some(T2), label: None, index: None }, Some(0), vec![]), Some(T2), true), _ => ck(m, &En229::E { a: x4, b: Nest { n: x5 } }, &Node::Tagged(Hdr { tag: None, label: None, index: None }, Box::new(Node::Seq(Some(2), vec![Node::Bool(x4), nest(x5)]))), None, true), } }

#[derive(Value)]
#[sval(dynamic)] enum En230 { A { #[sval(label = "lbl \"0")] a: i64, #[sval(data_tag = "T2")] b: i64, #[sval(tag = T2)] #[sval(index = -1)] r#type: i64 }, B(Nest) }
fn enums_59(m: Mode) { let x0 = rt::i64_(); let x1 = rt::i64_(); let x2 = rt::i64_(); let x3 = rt::u8_(); match rt::choice(2) { 0 => ck(m, &En230::A { a: x0, b: x1, r#type: x2 }, &Node::RecordTuple(Hdr { tag: None, label: None, index: None }, Some(3), vec![(None, lit("lbl \"0"), off(0), Node::I64(x0)), (None, ident("b"), off(1), Node::Tagged(Hdr { tag: Some(T2), ..Hdr::default() }, Box::new(Node::I64(x1)))), (Some(T2), ident("type"), Index::new_isize(-1), Node::I64(x2))]), None, true), _ => ck(m, &En230::B(Nest { n: x3 }), &nest(x3), None, true), } }

#[derive(Value)]
#[repr(i32)]
enum En231 { A(&'static str) = -10, B() = -20 }
fn enums_60(m: Mode) { let x0 = rt::letters(1); match rt::choice(2) { 0 => ck(m, &En231::A(x0), &Node::Enum(Hdr { tag: None, label: Some(ident("En231")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("A")), index: Some(Index::new_isize(-10)) }, Box::new(Node::Text(Some(1), vec![(false, x0)])))))), None, true), _ => ck(m, &En231::B(), &Node::Enum(Hdr { tag: None, label: Some(ident("En231")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(-20)) }, Some(0), vec![])))), None, true), } }

#[derive(Value)]
#[repr(i32)]
enum En232 { A(i64) = -10, B(&'static str, Nest) = 20, r#Self_(i64) = -30 }
fn enums_61(m: Mode) { let x0 = rt::i64_(); let x1 = rt::letters(1); let x2 = rt::u8_(); let x3 = rt::i64_(); match rt::choice(3) { 0 => ck(m, &En232::A(x0), &Node::Enum(Hdr { tag: None, label: Some(ident("En232")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("A")), index: Some(Index::new_isize(-10)) }, Box::new(Node::I64(x0)))))), None, true), 1 => ck(m, &En232::B(x1, Nest { n: x2 }), &Node::Enum(Hdr { tag: None, label: Some(ident("En232")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(20)) }, Some(2), vec![(None, off(0), Node::Text(Some(1), vec![(false, x1)])), (None, off(1), nest(x2))])))), None, true), _ => ck(m, &En232::r#Self_(x3), &Node::Enum(Hdr { tag: None, label: Some(ident("En232")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("Self_")), index: Some(Index::new_isize(-30)) }, Box::new(Node::I64(x3)))))), None, true), } }

#[derive(Value)]
#[repr(i32)]
enum En233 { A { a: Nest, b: &'static str, r#type: Nest } = 10, B(bool, &'static str), r#Self_(u8, u8, &'static str) = -30, Dd { a: Nest, b: u8 } = -40 }
fn enums_62(m: Mode) { let x0 = rt::u8_(); let x1 = rt::letters(1); let x2 = rt::u8_(); let x3 = rt::bool_(); let x4 = rt::letters(1); let x5 = rt::u8_(); let x6 = rt::u8_(); let x7 = rt::letters(1); let x8 = rt::u8_(); let x9 = rt::u8_(); match rt::choice(4) { 0 => ck(m, &En233::A { a: Nest { n: x0 }, b: x1, r#type: Nest { n: x2 } }, &Node::Enum(Hdr { tag: None, label: Some(ident("En233")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(ident("A")), index: Some(Index::new_isize(10)) }, Some(3), vec![(None, ident("a"), off(0), nest(x0)), (None, ident("b"), off(1), Node::Text(Some(1), vec![(false, x1)])), (None, ident("type"), off(2), nest(x2))])))), None, true), 1 => ck(m, &En233::B(x3, x4), &Node::Enum(Hdr { tag: None, label: Some(ident("En233")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(11)) }, Some(2), vec![(None, off(0), Node::Bool(x3)), (None, off(1), Node::Text(Some(1), vec![(false, x4)]))])))), None, true), 2 => ck(m, &En233::r#Self_(x5, x6, x7), &Node::Enum(Hdr { tag: None, label: Some(ident("En233")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(ident("Self_")), index: Some(Index::new_isize(-30)) }, Some(3), vec![(None, off(0), Node::U8(x5)), (None, off(1), Node::U8(x6)), (None, off(2), Node::Text(Some(1), vec![(false, x7)]))])))), None, true), _ => ck(m, &En233::Dd { a: Nest { n: x8 }, b: x9 }, &Node::Enum(Hdr { tag: None, label: Some(ident("En233")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(ident("Dd")), index: Some(Index::new_isize(-40)) }, Some(2), vec![(None, ident("a"), off(0), nest(x8)), (None, ident("b"), off(1), Node::U8(x9))])))), None, true), } }

#[derive(Value)]
#[repr(i32)]
enum En234 { A(bool) = -10, B {  }, r#Self_() = -30, Dd, E(bool, i64) = -50 }
fn enums_63(m: Mode) { let x0 = rt::bool_(); let x1 = rt::bool_(); let x2 = rt::i64_(); match rt::choice(5) { 0 => ck(m, &En234::A(x0), &Node::Enum(Hdr { tag: None, label: Some(ident("En234")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("A")), index: Some(Index::new_isize(-10)) }, Box::new(Node::Bool(x0)))))), None, true), 1 => ck(m, &En234::B {  }, &Node::Enum(Hdr { tag: None, label: Some(ident("En234")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(-9)) }, Some(0), vec![])))), None, true), 2 => ck(m, &En234::r#Self_(), &Node::Enum(Hdr { tag: None, label: Some(ident("En234")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(ident("Self_")), index: Some(Index::new_isize(-30)) }, Some(0), vec![])))), None, true), 3 => ck(m, &En234::Dd, &Node::Enum(Hdr { tag: None, label: Some(ident("En234")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("Dd")), index: Some(Index::new_isize(-29)) })))), None, true), _ => ck(m, &En234::E(x1, x2), &Node::Enum(Hdr { tag: None, label: Some(ident("En234")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(ident("E")), index: Some(Index::new_isize(-50)) }, Some(2), vec![(None, off(0), Node::Bool(x1)), (None, off(1), Node::I64(x2))])))), None, true), } }

#[derive(Value)]
#[repr(i32)]
#[sval(index = 3)] #[sval(tag = "T2")] enum En235 { #[sval(tag = T2, label = "lbl \"0", index = 2)] A(i64), #[sval(index = -3)] B(&'static str) }
fn enums_64(m: Mode) { let x0 = rt::i64_(); let x1 = rt::letters(1); match rt::choice(2) { 0 => ck(m, &En235::A(x0), &Node::Enum(Hdr { tag: Some(T2), label: Some(ident("En235")), index: Some(Index::new_isize(3)) }, Some(Box::new(Node::Tagged(Hdr { tag: Some(T2), label: Some(lit("lbl \"0")), index: Some(Index::new_isize(2)) }, Box::new(Node::I64(x0)))))), Some(T2), true), _ => ck(m, &En235::B(x1), &Node::Enum(Hdr { tag: Some(T2), label: Some(ident("En235")), index: Some(Index::new_isize(3)) }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(-3)) }, Box::new(Node::Text(Some(1), vec![(false, x1)])))))), Some(T2), true), } }

#[derive(Value)]
#[repr(i32)]
enum En236 { A(&'static str) = 10, B, #[sval(label = "lbl \"2")] r#Self_ { #[sval(data_tag = "T2")] #[sval(index = -1)] a: bool, b: bool } }
fn enums_65(m: Mode) { let x0 = rt::letters(1); let x1 = rt::bool_(); let x2 = rt::bool_(); match rt::choice(3) { 0 => ck(m, &En236::A(x0), &Node::Enum(Hdr { tag: None, label: Some(ident("En236")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("A")), index: Some(Index::new_isize(10)) }, Box::new(Node::Text(Some(1), vec![(false, x0)])))))), None, true), 1 => ck(m, &En236::B, &Node::Enum(Hdr { tag: None, label: Some(ident("En236")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(11)) })))), None, true), _ => ck(m, &En236::r#Self_ { a: x1, b: x2 }, &Node::Enum(Hdr { tag: None, label: Some(ident("En236")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(lit("lbl \"2")), index: Some(Index::new_isize(12)) }, Some(2), vec![(None, ident("a"), Index::new_isize(-1), Node::Tagged(Hdr { tag: Some(T2), ..Hdr::default() }, Box::new(Node::Bool(x1)))), (None, ident("b"), Index::new_isize(0), Node::Bool(x2))])))), None, true), } }

#[derive(Value)]
#[repr(i32)]
#[sval(label = "lbl \"9")] enum En237 { #[sval(index = -3)] A(#[sval(index = 7)] i64, u8, #[sval(skip)] Nest), #[sval(tag = "T1", label = "lbl \"1", index = 2)] B = -20, #[sval(label = LAB)] r#Self_ = -30, #[sval(label = LAB)] #[sval(index = 0)] #[sval(unindexed_fields)] Dd(bool, u8, #[sval(tag = T2)] Nest) }
fn enums_66(m: Mode) { let x0 = rt::i64_(); let x1 = rt::u8_(); let x2 = rt::u8_(); let x3 = rt::bool_(); let x4 = rt::u8_(); let x5 = rt::u8_(); match rt::choice(4) { 0 => ck(m, &En237::A(x0, x1, Nest { n: x2 }), &Node::Enum(Hdr { tag: None, label: Some(lit("lbl \"9")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(ident("A")), index: Some(Index::new_isize(-3)) }, Some(2), vec![(None, Index::new_isize(7), Node::I64(x0)), (None, Index::new_isize(8), Node::U8(x1))])))), None, true), 1 => ck(m, &En237::B, &Node::Enum(Hdr { tag: None, label: Some(lit("lbl \"9")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: Some(T1), label: Some(lit("lbl \"1")), index: Some(Index::new_isize(2)) })))), None, true), 2 => ck(m, &En237::r#Self_, &Node::Enum(Hdr { tag: None, label: Some(lit("lbl \"9")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(lit("lab-path")), index: Some(Index::new_isize(-30)) })))), None, true), _ => ck(m, &En237::Dd(x3, x4, Nest { n: x5 }), &Node::Enum(Hdr { tag: None, label: Some(lit("lbl \"9")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(lit("lab-path")), index: Some(Index::new_isize(0)) }, Box::new(Node::Seq(Some(3), vec![Node::Bool(x3), Node::U8(x4), nest(x5)])))))), None, true), } }

#[derive(Value)]
#[repr(i32)]
#[sval(label = "lbl \"9", tag = "T1")] enum En238 { #[sval(tag = "T1")] A(i64) = -10, #[sval(index = 5)] #[sval(unlabeled_fields)] #[sval(unindexed_fields)] B { #[sval(skip)] a: &'static str } = -20, r#Self_, #[sval(index = 0, unindexed_fields)] Dd { #[sval(data_tag = "T1")] #[sval(label = LAB)] a: &'static str, b: bool, r#type: u8 }, #[sval(tag = "T1")] #[sval(unindexed_fields)] E(&'static str, i64, bool) = 50 }
fn enums_67(m: Mode) { let x0 = rt::i64_(); let x1 = rt::letters(1); let x2 = rt::letters(1); let x3 = rt::bool_(); let x4 = rt::u8_(); let x5 = rt::letters(1); let x6 = rt::i64_(); let x7 = rt::bool_(); match rt::choice(5) { 0 => ck(m, &En238::A(x0), &Node::Enum(Hdr { tag: Some(T1), label: Some(lit("lbl \"9")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: Some(T1), label: Some(ident("A")), index: Some(Index::new_isize(-10)) }, Box::new(Node::I64(x0)))))), Some(T1), true), 1 => ck(m, &En238::B { a: x1 }, &Node::Enum(Hdr { tag: Some(T1), label: Some(lit("lbl \"9")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(5)) }, Some(0), vec![])))), Some(T1), true), 2 => ck(m, &En238::r#Self_, &Node::Enum(Hdr { tag: Some(T1), label: Some(lit("lbl \"9")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("Self_")), index: Some(Index::new_isize(6)) })))), Some(T1), true), 3 => ck(m, &En238::Dd { a: x2, b: x3, r#type: x4 }, &Node::Enum(Hdr { tag: Some(T1), label: Some(lit("lbl \"9")), index: None }, Some(Box::new(Node::Record(Hdr { tag: None, label: Some(ident("Dd")), index: Some(Index::new_isize(0)) }, Some(3), vec![(None, lit("lab-path"), Node::Tagged(Hdr { tag: Some(T1), ..Hdr::default() }, Box::new(Node::Text(Some(1), vec![(false, x2)])))), (None, ident("b"), Node::Bool(x3)), (None, ident("type"), Node::U8(x4))])))), Some(T1), true), _ => ck(m, &En238::E(x5, x6, x7), &Node::Enum(Hdr { tag: Some(T1), label: Some(lit("lbl \"9")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: Some(T1), label: Some(ident("E")), index: Some(Index::new_isize(50)) }, Box::new(Node::Seq(Some(3), vec![Node::Text(Some(1), vec![(false, x5)]), Node::I64(x6), Node::Bool(x7)])))))), Some(T1), true), } }

#[derive(Value)]
#[sval(dynamic)] enum En239 { A(&'static str) }
fn flat_enums_0(m: Mode) { let x0 = rt::letters(1); ck(m, &En239::A(x0), &Node::Text(Some(1), vec![(false, x0)]), None, false) }

#[derive(Value)]
enum En240 { A(Nest), B {  } }
fn flat_enums_1(m: Mode) { let x0 = rt::u8_(); match rt::choice(2) { 0 => ck(m, &En240::A(Nest { n: x0 }), &Node::Enum(Hdr { tag: None, label: Some(ident("En240")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("A")), index: Some(off(0)) }, Box::new(nest(x0)))))), None, false), _ => ck(m, &En240::B {  }, &Node::Enum(Hdr { tag: None, label: Some(ident("En240")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(ident("B")), index: Some(off(1)) }, Some(0), vec![])))), None, false), } }

#[derive(Value)]
enum En241 { A(i64), B(Nest), r#Self_(#[sval(flatten)] FlatX, Nest, &'static str) }
fn flat_enums_2(m: Mode) { let x0 = rt::i64_(); let x1 = rt::u8_(); let x2 = rt::u8_(); let x3 = rt::u8_(); let x4 = rt::u8_(); let x5 = rt::letters(1); match rt::choice(3) { 0 => ck(m, &En241::A(x0), &Node::Enum(Hdr { tag: None, label: Some(ident("En241")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("A")), index: Some(off(0)) }, Box::new(Node::I64(x0)))))), None, false), 1 => ck(m, &En241::B(Nest { n: x1 }), &Node::Enum(Hdr { tag: None, label: Some(ident("En241")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("B")), index: Some(off(1)) }, Box::new(nest(x1)))))), None, false), _ => ck(m, &En241::r#Self_(FlatX { p: x2, q: x3 }, Nest { n: x4 }, x5), &Node::Enum(Hdr { tag: None, label: Some(ident("En241")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(ident("Self_")), index: Some(off(2)) }, None, vec![(None, Index::new_isize(11), Node::U8(x2)), (None, Index::new_isize(12), Node::U8(x3)), (None, off(13), nest(x4)), (None, off(14), Node::Text(Some(1), vec![(false, x5)]))])))), None, false), } }

#[derive(Value)]
enum En242 { A(Nest) }
fn flat_enums_3(m: Mode) { let x0 = rt::u8_(); ck(m, &En242::A(Nest { n: x0 }), &Node::Enum(Hdr { tag: None, label: Some(ident("En242")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("A")), index: Some(off(0)) }, Box::new(nest(x0)))))), None, false) }

#[derive(Value)]
#[sval(dynamic)] enum En243 { A(bool), #[sval(tag = "T1", label = "lbl \"1")] B }
fn flat_enums_4(m: Mode) { let x0 = rt::bool_(); match rt::choice(2) { 0 => ck(m, &En243::A(x0), &Node::Bool(x0), None, false), _ => ck(m, &En243::B, &Node::Tag(Hdr { tag: Some(T1), label: Some(lit("lbl \"1")), index: None }), Some(T1), false), } }

#[derive(Value)]
#[sval(tag = T2, label = LAB, index = 0)] enum En244 { #[sval(tag = "T2")] A(#[sval(flatten, label = LAB)] FlatX, #[sval(label = "lbl \"1")] &'static str, #[sval(tag = "T2", label = "lbl \"2", index = 7)] u8), #[sval(tag = "T1")] B { #[sval(flatten)] a: FlatR, #[sval(index = -4)] b: &'static str }, #[sval(tag = "T1")] r#Self_ { #[sval(flatten)] a: FlatT } }
fn flat_enums_5(m: Mode) { let x0 = rt::u8_(); let x1 = rt::u8_(); let x2 = rt::letters(1); let x3 = rt::u8_(); let x4 = rt::u8_(); let x5 = rt::u8_(); let x6 = rt::letters(1); let x7 = rt::u8_(); let x8 = rt::u8_(); match rt::choice(3) { 0 => ck(m, &En244::A(FlatX { p: x0, q: x1 }, x2, x3), &Node::Enum(Hdr { tag: Some(T2), label: Some(lit("lab-path")), index: Some(Index::new_isize(0)) }, Some(Box::new(Node::RecordTuple(Hdr { tag: Some(T2), label: Some(ident("A")), index: Some(off(0)) }, None, vec![(None, ident("p"), Index::new_isize(11), Node::U8(x0)), (None, ident("q"), Index::new_isize(12), Node::U8(x1)), (None, lit("lbl \"1"), off(13), Node::Text(Some(1), vec![(false, x2)])), (Some(T2), lit("lbl \"2"), Index::new_isize(7), Node::U8(x3))])))), Some(T2), false), 1 => ck(m, &En244::B { a: FlatR { p: x4, q: x5 }, b: x6 }, &Node::Enum(Hdr { tag: Some(T2), label: Some(lit("lab-path")), index: Some(Index::new_isize(0)) }, Some(Box::new(Node::RecordTuple(Hdr { tag: Some(T1), label: Some(ident("B")), index: Some(off(1)) }, None, vec![(None, ident("p"), off(0), Node::U8(x4)), (None, ident("q"), off(1), Node::U8(x5)), (None, ident("b"), Index::new_isize(-4), Node::Text(Some(1), vec![(false, x6)]))])))), Some(T2), false), _ => ck(m, &En244::r#Self_ { a: FlatT(x7, x8) }, &Node::Enum(Hdr { tag: Some(T2), label: Some(lit("lab-path")), index: Some(Index::new_isize(0)) }, Some(Box::new(Node::RecordTuple(Hdr { tag: Some(T1), label: Some(ident("Self_")), index: Some(off(2)) }, None, vec![(None, computed("0"), off(0), Node::U8(x7)), (None, computed("1"), off(1), Node::U8(x8))])))), Some(T2), false), } }

#[derive(Value)]
#[sval(index = IX40)] enum En245 { A {  } }
fn flat_enums_6(m: Mode) {  ck(m, &En245::A {  }, &Node::Enum(Hdr { tag: None, label: Some(ident("En245")), index: Some(Index::new_isize(40)) }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(ident("A")), index: Some(off(0)) }, Some(0), vec![])))), None, false) }

#[derive(Value)]
#[sval(index = 3)] enum En246 { #[sval(unlabeled_fields)] A(#[sval(tag = T2)] #[sval(index = -4)] &'static str, #[sval(flatten)] FlatX, #[sval(flatten)] FlatT), #[sval(label = "lbl \"1")] #[sval(unindexed_fields)] B(#[sval(label = "lbl \"0")] bool, #[sval(flatten)] #[sval(label = LAB)] FlatT) }
fn flat_enums_7(m: Mode) { let x0 = rt::letters(1); let x1 = rt::u8_(); let x2 = rt::u8_(); let x3 = rt::u8_(); let x4 = rt::u8_(); let x5 = rt::bool_(); let x6 = rt::u8_(); let x7 = rt::u8_(); match rt::choice(2) { 0 => ck(m, &En246::A(x0, FlatX { p: x1, q: x2 }, FlatT(x3, x4)), &Node::Enum(Hdr { tag: None, label: Some(ident("En246")), index: Some(Index::new_isize(3)) }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(ident("A")), index: Some(off(0)) }, None, vec![(Some(T2), Index::new_isize(-4), Node::Text(Some(1), vec![(false, x0)])), (None, Index::new_isize(11), Node::U8(x1)), (None, Index::new_isize(12), Node::U8(x2)), (None, off(13), Node::U8(x3)), (None, off(14), Node::U8(x4))])))), None, false), _ => ck(m, &En246::B(x5, FlatT(x6, x7)), &Node::Enum(Hdr { tag: None, label: Some(ident("En246")), index: Some(Index::new_isize(3)) }, Some(Box::new(Node::Record(Hdr { tag: None, label: Some(lit("lbl \"1")), index: Some(off(1)) }, None, vec![(None, lit("lbl \"0"), Node::Bool(x5)), (None, computed("0"), Node::U8(x6)), (None, computed("1"), Node::U8(x7))])))), None, false), } }

#[derive(Value)]
struct La247 { f0: u8, f1: u8, f2: u8, f3: u8, f4: u8, f5: u8, f6: u8, f7: u8, f8: u8, f9: u8, f10: u8, f11: u8, f12: u8, f13: u8, f14: u8, f15: u8, f16: u8 }
fn larges_0(m: Mode) { let x = rt::u8_(); let at = [0, 8, 16][rt::choice(3)]; ck(m, &La247 { f0: if 0 == at { x } else { 7 }, f1: if 1 == at { x } else { 7 }, f2: if 2 == at { x } else { 7 }, f3: if 3 == at { x } else { 7 }, f4: if 4 == at { x } else { 7 }, f5: if 5 == at { x } else { 7 }, f6: if 6 == at { x } else { 7 }, f7: if 7 == at { x } else { 7 }, f8: if 8 == at { x } else { 7 }, f9: if 9 == at { x } else { 7 }, f10: if 10 == at { x } else { 7 }, f11: if 11 == at { x } else { 7 }, f12: if 12 == at { x } else { 7 }, f13: if 13 == at { x } else { 7 }, f14: if 14 == at { x } else { 7 }, f15: if 15 == at { x } else { 7 }, f16: if 16 == at { x } else { 7 } }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("La247")), index: None }, Some(17), vec![(None, ident("f0"), off(0), Node::U8(if 0 == at { x } else { 7 })), (None, ident("f1"), off(1), Node::U8(if 1 == at { x } else { 7 })), (None, ident("f2"), off(2), Node::U8(if 2 == at { x } else { 7 })), (None, ident("f3"), off(3), Node::U8(if 3 == at { x } else { 7 })), (None, ident("f4"), off(4), Node::U8(if 4 == at { x } else { 7 })), (None, ident("f5"), off(5), Node::U8(if 5 == at { x } else { 7 })), (None, ident("f6"), off(6), Node::U8(if 6 == at { x } else { 7 })), (None, ident("f7"), off(7), Node::U8(if 7 == at { x } else { 7 })), (None, ident("f8"), off(8), Node::U8(if 8 == at { x } else { 7 })), (None, ident("f9"), off(9), Node::U8(if 9 == at { x } else { 7 })), (None, ident("f10"), off(10), Node::U8(if 10 == at { x } else { 7 })), (None, ident("f11"), off(11), Node::U8(if 11 == at { x } else { 7 })), (None, ident("f12"), off(12), Node::U8(if 12 == at { x } else { 7 })), (None, ident("f13"), off(13), Node::U8(if 13 == at { x } else { 7 })), (None, ident("f14"), off(14), Node::U8(if 14 == at { x } else { 7 })), (None, ident("f15"), off(15), Node::U8(if 15 == at { x } else { 7 })), (None, ident("f16"), off(16), Node::U8(if 16 == at { x } else { 7 }))]), None, true) }

#[derive(Value)]
struct La248 { f0: u8, f1: u8, f2: u8, f3: u8, f4: u8, f5: u8, f6: u8, f7: u8, f8: u8, f9: u8, f10: u8, f11: u8, f12: u8, f13: u8, f14: u8, f15: u8, f16: u8, f17: u8, f18: u8, f19: u8, f20: u8, f21: u8, f22: u8, f23: u8, f24: u8, f25: u8, f26: u8, f27: u8, f28: u8, f29: u8, f30: u8, f31: u8, f32: u8 }
fn larges_1(m: Mode) { let x = rt::u8_(); let at = [0, 16, 32][rt::choice(3)]; ck(m, &La248 { f0: if 0 == at { x } else { 7 }, f1: if 1 == at { x } else { 7 }, f2: if 2 == at { x } else { 7 }, f3: if 3 == at { x } else { 7 }, f4: if 4 == at { x } else { 7 }, f5: if 5 == at { x } else { 7 }, f6: if 6 == at { x } else { 7 }, f7: if 7 == at { x } else { 7 }, f8: if 8 == at { x } else { 7 }, f9: if 9 == at { x } else { 7 }, f10: if 10 == at { x } else { 7 }, f11: if 11 == at { x } else { 7 }, f12: if 12 == at { x } else { 7 }, f13: if 13 == at { x } else { 7 }, f14: if 14 == at { x } else { 7 }, f15: if 15 == at { x } else { 7 }, f16: if 16 == at { x } else { 7 }, f17: if 17 == at { x } else { 7 }, f18: if 18 == at { x } else { 7 }, f19: if 19 == at { x } else { 7 }, f20: if 20 == at { x } else { 7 }, f21: if 21 == at { x } else { 7 }, f22: if 22 == at { x } else { 7 }, f23: if 23 == at { x } else { 7 }, f24: if 24 == at { x } else { 7 }, f25: if 25 == at { x } else { 7 }, f26: if 26 == at { x } else { 7 }, f27: if 27 == at { x } else { 7 }, f28: if 28 == at { x } else { 7 }, f29: if 29 == at { x } else { 7 }, f30: if 30 == at { x } else { 7 }, f31: if 31 == at { x } else { 7 }, f32: if 32 == at { x } else { 7 } }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("La248")), index: None }, Some(33), vec![(None, ident("f0"), off(0), Node::U8(if 0 == at { x } else { 7 })), (None, ident("f1"), off(1), Node::U8(if 1 == at { x } else { 7 })), (None, ident("f2"), off(2), Node::U8(if 2 == at { x } else { 7 })), (None, ident("f3"), off(3), Node::U8(if 3 == at { x } else { 7 })), (None, ident("f4"), off(4), Node::U8(if 4 == at { x } else { 7 })), (None, ident("f5"), off(5), Node::U8(if 5 == at { x } else { 7 })), (None, ident("f6"), off(6), Node::U8(if 6 == at { x } else { 7 })), (None, ident("f7"), off(7), Node::U8(if 7 == at { x } else { 7 })), (None, ident("f8"), off(8), Node::U8(if 8 == at { x } else { 7 })), (None, ident("f9"), off(9), Node::U8(if 9 == at { x } else { 7 })), (None, ident("f10"), off(10), Node::U8(if 10 == at { x } else { 7 })), (None, ident("f11"), off(11), Node::U8(if 11 == at { x } else { 7 })), (None, ident("f12"), off(12), Node::U8(if 12 == at { x } else { 7 })), (None, ident("f13"), off(13), Node::U8(if 13 == at { x } else { 7 })), (None, ident("f14"), off(14), Node::U8(if 14 == at { x } else { 7 })), (None, ident("f15"), off(15), Node::U8(if 15 == at { x } else { 7 })), (None, ident("f16"), off(16), Node::U8(if 16 == at { x } else { 7 })), (None, ident("f17"), off(17), Node::U8(if 17 == at { x } else { 7 })), (None, ident("f18"), off(18), Node::U8(if 18 == at { x } else { 7 })), (None, ident("f19"), off(19), Node::U8(if 19 == at { x } else { 7 })), (None, ident("f20"), off(20), Node::U8(if 20 == at { x } else { 7 })), (None, ident("f21"), off(21), Node::U8(if 21 == at { x } else { 7 })), (None, ident("f22"), off(22), Node::U8(if 22 == at { x } else { 7 })), (None, ident("f23"), off(23), Node::U8(if 23 == at { x } else { 7 })), (None, ident("f24"), off(24), Node::U8(if 24 == at { x } else { 7 })), (None, ident("f25"), off(25), Node::U8(if 25 == at { x } else { 7 })), (None, ident("f26"), off(26), Node::U8(if 26 == at { x } else { 7 })), (None, ident("f27"), off(27), Node::U8(if 27 == at { x } else { 7 })), (None, ident("f28"), off(28), Node::U8(if 28 == at { x } else { 7 })), (None, ident("f29"), off(29), Node::U8(if 29 == at { x } else { 7 })), (None, ident("f30"), off(30), Node::U8(if 30 == at { x } else { 7 })), (None, ident("f31"), off(31), Node::U8(if 31 == at { x } else { 7 })), (None, ident("f32"), off(32), Node::U8(if 32 == at { x } else { 7 }))]), None, true) }

#[derive(Value)]
struct La249 { f0: u8, f1: u8, f2: u8, f3: u8, f4: u8, f5: u8, f6: u8, f7: u8, f8: u8, f9: u8, f10: u8, f11: u8, f12: u8, f13: u8, f14: u8, f15: u8, f16: u8, f17: u8, f18: u8, f19: u8, f20: u8, f21: u8, f22: u8, f23: u8, f24: u8, f25: u8, f26: u8, f27: u8, f28: u8, f29: u8, f30: u8, f31: u8, f32: u8, f33: u8, f34: u8, f35: u8, f36: u8, f37: u8, f38: u8, f39: u8, f40: u8, f41: u8, f42: u8, f43: u8, f44: u8, f45: u8, f46: u8, f47: u8, f48: u8, f49: u8, f50: u8, f51: u8, f52: u8, f53: u8, f54: u8, f55: u8, f56: u8, f57: u8, f58: u8, f59: u8, f60: u8, f61: u8, f62: u8, f63: u8, f64: u8, f65: u8, f66: u8, f67: u8, f68: u8, f69: u8 }
fn larges_2(m: Mode) { let x = rt::u8_(); let at = [0, 35, 69][rt::choice(3)]; ck(m, &La249 { f0: if 0 == at { x } else { 7 }, f1: if 1 == at { x } else { 7 }, f2: if 2 == at { x } else { 7 }, f3: if 3 == at { x } else { 7 }, f4: if 4 == at { x } else { 7 }, f5: if 5 == at { x } else { 7 }, f6: if 6 == at { x } else { 7 }, f7: if 7 == at { x } else { 7 }, f8: if 8 == at { x } else { 7 }, f9: if 9 == at { x } else { 7 }, f10: if 10 == at { x } else { 7 }, f11: if 11 == at { x } else { 7 }, f12: if 12 == at { x } else { 7 }, f13: if 13 == at { x } else { 7 }, f14: if 14 == at { x } else { 7 }, f15: if 15 == at { x } else { 7 }, f16: if 16 == at { x } else { 7 }, f17: if 17 == at { x } else { 7 }, f18: if 18 == at { x } else { 7 }, f19: if 19 == at { x } else { 7 }, f20: if 20 == at { x } else { 7 }, f21: if 21 == at { x } else { 7 }, f22: if 22 == at { x } else { 7 }, f23: if 23 == at { x } else { 7 }, f24: if 24 == at { x } else { 7 }, f25: if 25 == at { x } else { 7 }, f26: if 26 == at { x } else { 7 }, f27: if 27 == at { x } else { 7 }, f28: if 28 == at { x } else { 7 }, f29: if 29 == at { x } else { 7 }, f30: if 30 == at { x } else { 7 }, f31: if 31 == at { x } else { 7 }, f32: if 32 == at { x } else { 7 }, f33: if 33 == at { x } else { 7 }, f34: if 34 == at { x } else { 7 }, f35: if 35 == at { x } else { 7 }, f36: if 36 == at { x } else { 7 }, f37: if 37 == at { x } else { 7 }, f38: if 38 == at { x } else { 7 }, f39: if 39 == at { x } else { 7 }, f40: if 40 == at { x } else { 7 }, f41: if 41 == at { x } else { 7 }, f42: if 42 == at { x } else { 7 }, f43: if 43 == at { x } else { 7 }, f44: if 44 == at { x } else { 7 }, f45: if 45 == at { x } else { 7 }, f46: if 46 == at { x } else { 7 }, f47: if 47 == at { x } else { 7 }, f48: if 48 == at { x } else { 7 }, f49: if 49 == at { x } else { 7 }, f50: if 50 == at { x } else { 7 }, f51: if 51 == at { x } else { 7 }, f52: if 52 == at { x } else { 7 }, f53: if 53 == at { x } else { 7 }, f54: if 54 == at { x } else { 7 }, f55: if 55 == at { x } else { 7 }, f56: if 56 == at { x } else { 7 }, f57: if 57 == at { x } else { 7 }, f58: if 58 == at { x } else { 7 }, f59: if 59 == at { x } else { 7 }, f60: if 60 == at { x } else { 7 }, f61: if 61 == at { x } else { 7 }, f62: if 62 == at { x } else { 7 }, f63: if 63 == at { x } else { 7 }, f64: if 64 == at { x } else { 7 }, f65: if 65 == at { x } else { 7 }, f66: if 66 == at { x } else { 7 }, f67: if 67 == at { x } else { 7 }, f68: if 68 == at { x } else { 7 }, f69: if 69 == at { x } else { 7 } }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("La249")), index: None }, Some(70), vec![(None, ident("f0"), off(0), Node::U8(if 0 == at { x } else { 7 })), (None, ident("f1"), off(1), Node::U8(if 1 == at { x } else { 7 })), (None, ident("f2"), off(2), Node::U8(if 2 == at { x } else { 7 })), (None, ident("f3"), off(3), Node::U8(if 3 == at { x } else { 7 })), (None, ident("f4"), off(4), Node::U8(if 4 == at { x } else { 7 })), (None, ident("f5"), off(5), Node::U8(if 5 == at { x } else { 7 })), (None, ident("f6"), off(6), Node::U8(if 6 == at { x } else { 7 })), (None, ident("f7"), off(7), Node::U8(if 7 == at { x } else { 7 })), (None, ident("f8"), off(8), Node::U8(if 8 == at { x } else { 7 })), (None, ident("f9"), off(9), Node::U8(if 9 == at { x } else { 7 })), (None, ident("f10"), off(10), Node::U8(if 10 == at { x } else { 7 })), (None, ident("f11"), off(11), Node::U8(if 11 == at { x } else { 7 })), (None, ident("f12"), off(12), Node::U8(if 12 == at { x } else { 7 })), (None, ident("f13"), off(13), Node::U8(if 13 == at { x } else { 7 })), (None, ident("f14"), off(14), Node::U8(if 14 == at { x } else { 7 })), (None, ident("f15"), off(15), Node::U8(if 15 == at { x } else { 7 })), (None, ident("f16"), off(16), Node::U8(if 16 == at { x } else { 7 })), (None, ident("f17"), off(17), Node::U8(if 17 == at { x } else { 7 })), (None, ident("f18"), off(18), Node::U8(if 18 == at { x } else { 7 })), (None, ident("f19"), off(19), Node::U8(if 19 == at { x } else { 7 })), (None, ident("f20"), off(20), Node::U8(if 20 == at { x } else { 7 })), (None, ident("f21"), off(21), Node::U8(if 21 == at { x } else { 7 })), (None, ident("f22"), off(22), Node::U8(if 22 == at { x } else { 7 })), (None, ident("f23"), off(23), Node::U8(if 23 == at { x } else { 7 })), (None, ident("f24"), off(24), Node::U8(if 24 == at { x } else { 7 })), (None, ident("f25"), off(25), Node::U8(if 25 == at { x } else { 7 })), (None, ident("f26"), off(26), Node::U8(if 26 == at { x } else { 7 })), (None, ident("f27"), off(27), Node::U8(if 27 == at { x } else { 7 })), (None, ident("f28"), off(28), Node::U8(if 28 == at { x } else { 7 })), (None, ident("f29"), off(29), Node::U8(if 29 == at { x } else { 7 })), (None, ident("f30"), off(30), Node::U8(if 30 == at { x } else { 7 })), (None, ident("f31"), off(31), Node::U8(if 31 == at { x } else { 7 })), (None, ident("f32"), off(32), Node::U8(if 32 == at { x } else { 7 })), (None, ident("f33"), off(33), Node::U8(if 33 == at { x } else { 7 })), (None, ident("f34"), off(34), Node::U8(if 34 == at { x } else { 7 })), (None, ident("f35"), off(35), Node::U8(if 35 == at { x } else { 7 })), (None, ident("f36"), off(36), Node::U8(if 36 == at { x } else { 7 })), (None, ident("f37"), off(37), Node::U8(if 37 == at { x } else { 7 })), (None, ident("f38"), off(38), Node::U8(if 38 == at { x } else { 7 })), (None, ident("f39"), off(39), Node::U8(if 39 == at { x } else { 7 })), (None, ident("f40"), off(40), Node::U8(if 40 == at { x } else { 7 })), (None, ident("f41"), off(41), Node::U8(if 41 == at { x } else { 7 })), (None, ident("f42"), off(42), Node::U8(if 42 == at { x } else { 7 })), (None, ident("f43"), off(43), Node::U8(if 43 == at { x } else { 7 })), (None, ident("f44"), off(44), Node::U8(if 44 == at { x } else { 7 })), (None, ident("f45"), off(45), Node::U8(if 45 == at { x } else { 7 })), (None, ident("f46"), off(46), Node::U8(if 46 == at { x } else { 7 })), (None, ident("f47"), off(47), Node::U8(if 47 == at { x } else { 7 })), (None, ident("f48"), off(48), Node::U8(if 48 == at { x } else { 7 })), (None, ident("f49"), off(49), Node::U8(if 49 == at { x } else { 7 })), (None, ident("f50"), off(50), Node::U8(if 50 == at { x } else { 7 })), (None, ident("f51"), off(51), Node::U8(if 51 == at { x } else { 7 })), (None, ident("f52"), off(52), Node::U8(if 52 == at { x } else { 7 })), (None, ident("f53"), off(53), Node::U8(if 53 == at { x } else { 7 })), (None, ident("f54"), off(54), Node::U8(if 54 == at { x } else { 7 })), (None, ident("f55"), off(55), Node::U8(if 55 == at { x } else { 7 })), (None, ident("f56"), off(56), Node::U8(if 56 == at { x } else { 7 })), (None, ident("f57"), off(57), Node::U8(if 57 == at { x } else { 7 })), (None, ident("f58"), off(58), Node::U8(if 58 == at { x } else { 7 })), (None, ident("f59"), off(59), Node::U8(if 59 == at { x } else { 7 })), (None, ident("f60"), off(60), Node::U8(if 60 == at { x } else { 7 })), (None, ident("f61"), off(61), Node::U8(if 61 == at { x } else { 7 })), (None, ident("f62"), off(62), Node::U8(if 62 == at { x } else { 7 })), (None, ident("f63"), off(63), Node::U8(if 63 == at { x } else { 7 })), (None, ident("f64"), off(64), Node::U8(if 64 == at { x } else { 7 })), (None, ident("f65"), off(65), Node::U8(if 65 == at { x } else { 7 })), (None, ident("f66"), off(66), Node::U8(if 66 == at { x } else { 7 })), (None, ident("f67"), off(67), Node::U8(if 67 == at { x } else { 7 })), (None, ident("f68"), off(68), Node::U8(if 68 == at { x } else { 7 })), (None, ident("f69"), off(69), Node::U8(if 69 == at { x } else { 7 }))]), None, true) }

#[derive(Value)]
#[sval(unlabeled_fields)] struct La250 { f0: u8, f1: u8, f2: u8, f3: u8, f4: u8, f5: u8, f6: u8, f7: u8, f8: u8, f9: u8, f10: u8, f11: u8, f12: u8, f13: u8, f14: u8, f15: u8, f16: u8, f17: u8, f18: u8, f19: u8 }
fn larges_3(m: Mode) { let x = rt::u8_(); let at = [0, 10, 19][rt::choice(3)]; ck(m, &La250 { f0: if 0 == at { x } else { 7 }, f1: if 1 == at { x } else { 7 }, f2: if 2 == at { x } else { 7 }, f3: if 3 == at { x } else { 7 }, f4: if 4 == at { x } else { 7 }, f5: if 5 == at { x } else { 7 }, f6: if 6 == at { x } else { 7 }, f7: if 7 == at { x } else { 7 }, f8: if 8 == at { x } else { 7 }, f9: if 9 == at { x } else { 7 }, f10: if 10 == at { x } else { 7 }, f11: if 11 == at { x } else { 7 }, f12: if 12 == at { x } else { 7 }, f13: if 13 == at { x } else { 7 }, f14: if 14 == at { x } else { 7 }, f15: if 15 == at { x } else { 7 }, f16: if 16 == at { x } else { 7 }, f17: if 17 == at { x } else { 7 }, f18: if 18 == at { x } else { 7 }, f19: if 19 == at { x } else { 7 } }, &Node::Tuple(Hdr { tag: None, label: Some(ident("La250")), index: None }, Some(20), vec![(None, off(0), Node::U8(if 0 == at { x } else { 7 })), (None, off(1), Node::U8(if 1 == at { x } else { 7 })), (None, off(2), Node::U8(if 2 == at { x } else { 7 })), (None, off(3), Node::U8(if 3 == at { x } else { 7 })), (None, off(4), Node::U8(if 4 == at { x } else { 7 })), (None, off(5), Node::U8(if 5 == at { x } else { 7 })), (None, off(6), Node::U8(if 6 == at { x } else { 7 })), (None, off(7), Node::U8(if 7 == at { x } else { 7 })), (None, off(8), Node::U8(if 8 == at { x } else { 7 })), (None, off(9), Node::U8(if 9 == at { x } else { 7 })), (None, off(10), Node::U8(if 10 == at { x } else { 7 })), (None, off(11), Node::U8(if 11 == at { x } else { 7 })), (None, off(12), Node::U8(if 12 == at { x } else { 7 })), (None, off(13), Node::U8(if 13 == at { x } else { 7 })), (None, off(14), Node::U8(if 14 == at { x } else { 7 })), (None, off(15), Node::U8(if 15 == at { x } else { 7 })), (None, off(16), Node::U8(if 16 == at { x } else { 7 })), (None, off(17), Node::U8(if 17 == at { x } else { 7 })), (None, off(18), Node::U8(if 18 == at { x } else { 7 })), (None, off(19), Node::U8(if 19 == at { x } else { 7 }))]), None, true) }

#[derive(Value)]
#[sval(unindexed_fields)] struct La251 { f0: u8, f1: u8, f2: u8, f3: u8, f4: u8, f5: u8, f6: u8, f7: u8, f8: u8, f9: u8, f10: u8, f11: u8, f12: u8, f13: u8, f14: u8, f15: u8, f16: u8, f17: u8, f18: u8, f19: u8 }
fn larges_4(m: Mode) { let x = rt::u8_(); let at = [0, 10, 19][rt::choice(3)]; ck(m, &La251 { f0: if 0 == at { x } else { 7 }, f1: if 1 == at { x } else { 7 }, f2: if 2 == at { x } else { 7 }, f3: if 3 == at { x } else { 7 }, f4: if 4 == at { x } else { 7 }, f5: if 5 == at { x } else { 7 }, f6: if 6 == at { x } else { 7 }, f7: if 7 == at { x } else { 7 }, f8: if 8 == at { x } else { 7 }, f9: if 9 == at { x } else { 7 }, f10: if 10 == at { x } else { 7 }, f11: if 11 == at { x } else { 7 }, f12: if 12 == at { x } else { 7 }, f13: if 13 == at { x } else { 7 }, f14: if 14 == at { x } else { 7 }, f15: if 15 == at { x } else { 7 }, f16: if 16 == at { x } else { 7 }, f17: if 17 == at { x } else { 7 }, f18: if 18 == at { x } else { 7 }, f19: if 19 == at { x } else { 7 } }, &Node::Record(Hdr { tag: None, label: Some(ident("La251")), index: None }, Some(20), vec![(None, ident("f0"), Node::U8(if 0 == at { x } else { 7 })), (None, ident("f1"), Node::U8(if 1 == at { x } else { 7 })), (None, ident("f2"), Node::U8(if 2 == at { x } else { 7 })), (None, ident("f3"), Node::U8(if 3 == at { x } else { 7 })), (None, ident("f4"), Node::U8(if 4 == at { x } else { 7 })), (None, ident("f5"), Node::U8(if 5 == at { x } else { 7 })), (None, ident("f6"), Node::U8(if 6 == at { x } else { 7 })), (None, ident("f7"), Node::U8(if 7 == at { x } else { 7 })), (None, ident("f8"), Node::U8(if 8 == at { x } else { 7 })), (None, ident("f9"), Node::U8(if 9 == at { x } else { 7 })), (None, ident("f10"), Node::U8(if 10 == at { x } else { 7 })), (None, ident("f11"), Node::U8(if 11 == at { x } else { 7 })), (None, ident("f12"), Node::U8(if 12 == at { x } else { 7 })), (None, ident("f13"), Node::U8(if 13 == at { x } else { 7 })), (None, ident("f14"), Node::U8(if 14 == at { x } else { 7 })), (None, ident("f15"), Node::U8(if 15 == at { x } else { 7 })), (None, ident("f16"), Node::U8(if 16 == at { x } else { 7 })), (None, ident("f17"), Node::U8(if 17 == at { x } else { 7 })), (None, ident("f18"), Node::U8(if 18 == at { x } else { 7 })), (None, ident("f19"), Node::U8(if 19 == at { x } else { 7 }))]), None, true) }

#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] struct La252 { f0: u8, f1: u8, f2: u8, f3: u8, f4: u8, f5: u8, f6: u8, f7: u8, f8: u8, f9: u8, f10: u8, f11: u8, f12: u8, f13: u8, f14: u8, f15: u8, f16: u8, f17: u8, f18: u8, f19: u8 }
fn larges_5(m: Mode) { let x = rt::u8_(); let at = [0, 10, 19][rt::choice(3)]; ck(m, &La252 { f0: if 0 == at { x } else { 7 }, f1: if 1 == at { x } else { 7 }, f2: if 2 == at { x } else { 7 }, f3: if 3 == at { x } else { 7 }, f4: if 4 == at { x } else { 7 }, f5: if 5 == at { x } else { 7 }, f6: if 6 == at { x } else { 7 }, f7: if 7 == at { x } else { 7 }, f8: if 8 == at { x } else { 7 }, f9: if 9 == at { x } else { 7 }, f10: if 10 == at { x } else { 7 }, f11: if 11 == at { x } else { 7 }, f12: if 12 == at { x } else { 7 }, f13: if 13 == at { x } else { 7 }, f14: if 14 == at { x } else { 7 }, f15: if 15 == at { x } else { 7 }, f16: if 16 == at { x } else { 7 }, f17: if 17 == at { x } else { 7 }, f18: if 18 == at { x } else { 7 }, f19: if 19 == at { x } else { 7 } }, &Node::Tagged(Hdr { tag: None, label: Some(ident("La252")), index: None }, Box::new(Node::Seq(Some(20), vec![Node::U8(if 0 == at { x } else { 7 }), Node::U8(if 1 == at { x } else { 7 }), Node::U8(if 2 == at { x } else { 7 }), Node::U8(if 3 == at { x } else { 7 }), Node::U8(if 4 == at { x } else { 7 }), Node::U8(if 5 == at { x } else { 7 }), Node::U8(if 6 == at { x } else { 7 }), Node::U8(if 7 == at { x } else { 7 }), Node::U8(if 8 == at { x } else { 7 }), Node::U8(if 9 == at { x } else { 7 }), Node::U8(if 10 == at { x } else { 7 }), Node::U8(if 11 == at { x } else { 7 }), Node::U8(if 12 == at { x } else { 7 }), Node::U8(if 13 == at { x } else { 7 }), Node::U8(if 14 == at { x } else { 7 }), Node::U8(if 15 == at { x } else { 7 }), Node::U8(if 16 == at { x } else { 7 }), Node::U8(if 17 == at { x } else { 7 }), Node::U8(if 18 == at { x } else { 7 }), Node::U8(if 19 == at { x } else { 7 })]))), None, true) }

#[derive(Value)]
struct La253(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8);
fn larges_6(m: Mode) { let x = rt::u8_(); let at = [0, 8, 16][rt::choice(3)]; ck(m, &La253(if 0 == at { x } else { 7 }, if 1 == at { x } else { 7 }, if 2 == at { x } else { 7 }, if 3 == at { x } else { 7 }, if 4 == at { x } else { 7 }, if 5 == at { x } else { 7 }, if 6 == at { x } else { 7 }, if 7 == at { x } else { 7 }, if 8 == at { x } else { 7 }, if 9 == at { x } else { 7 }, if 10 == at { x } else { 7 }, if 11 == at { x } else { 7 }, if 12 == at { x } else { 7 }, if 13 == at { x } else { 7 }, if 14 == at { x } else { 7 }, if 15 == at { x } else { 7 }, if 16 == at { x } else { 7 }), &Node::Tuple(Hdr { tag: None, label: Some(ident("La253")), index: None }, Some(17), vec![(None, off(0), Node::U8(if 0 == at { x } else { 7 })), (None, off(1), Node::U8(if 1 == at { x } else { 7 })), (None, off(2), Node::U8(if 2 == at { x } else { 7 })), (None, off(3), Node::U8(if 3 == at { x } else { 7 })), (None, off(4), Node::U8(if 4 == at { x } else { 7 })), (None, off(5), Node::U8(if 5 == at { x } else { 7 })), (None, off(6), Node::U8(if 6 == at { x } else { 7 })), (None, off(7), Node::U8(if 7 == at { x } else { 7 })), (None, off(8), Node::U8(if 8 == at { x } else { 7 })), (None, off(9), Node::U8(if 9 == at { x } else { 7 })), (None, off(10), Node::U8(if 10 == at { x } else { 7 })), (None, off(11), Node::U8(if 11 == at { x } else { 7 })), (None, off(12), Node::U8(if 12 == at { x } else { 7 })), (None, off(13), Node::U8(if 13 == at { x } else { 7 })), (None, off(14), Node::U8(if 14 == at { x } else { 7 })), (None, off(15), Node::U8(if 15 == at { x } else { 7 })), (None, off(16), Node::U8(if 16 == at { x } else { 7 }))]), None, true) }

#[derive(Value)]
struct La254(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8);
fn larges_7(m: Mode) { let x = rt::u8_(); let at = [0, 16, 32][rt::choice(3)]; ck(m, &La254(if 0 == at { x } else { 7 }, if 1 == at { x } else { 7 }, if 2 == at { x } else { 7 }, if 3 == at { x } else { 7 }, if 4 == at { x } else { 7 }, if 5 == at { x } else { 7 }, if 6 == at { x } else { 7 }, if 7 == at { x } else { 7 }, if 8 == at { x } else { 7 }, if 9 == at { x } else { 7 }, if 10 == at { x } else { 7 }, if 11 == at { x } else { 7 }, if 12 == at { x } else { 7 }, if 13 == at { x } else { 7 }, if 14 == at { x } else { 7 }, if 15 == at { x } else { 7 }, if 16 == at { x } else { 7 }, if 17 == at { x } else { 7 }, if 18 == at { x } else { 7 }, if 19 == at { x } else { 7 }, if 20 == at { x } else { 7 }, if 21 == at { x } else { 7 }, if 22 == at { x } else { 7 }, if 23 == at { x } else { 7 }, if 24 == at { x } else { 7 }, if 25 == at { x } else { 7 }, if 26 == at { x } else { 7 }, if 27 == at { x } else { 7 }, if 28 == at { x } else { 7 }, if 29 == at { x } else { 7 }, if 30 == at { x } else { 7 }, if 31 == at { x } else { 7 }, if 32 == at { x } else { 7 }), &Node::Tuple(Hdr { tag: None, label: Some(ident("La254")), index: None }, Some(33), vec![(None, off(0), Node::U8(if 0 == at { x } else { 7 })), (None, off(1), Node::U8(if 1 == at { x } else { 7 })), (None, off(2), Node::U8(if 2 == at { x } else { 7 })), (None, off(3), Node::U8(if 3 == at { x } else { 7 })), (None, off(4), Node::U8(if 4 == at { x } else { 7 })), (None, off(5), Node::U8(if 5 == at { x } else { 7 })), (None, off(6), Node::U8(if 6 == at { x } else { 7 })), (None, off(7), Node::U8(if 7 == at { x } else { 7 })), (None, off(8), Node::U8(if 8 == at { x } else { 7 })), (None, off(9), Node::U8(if 9 == at { x } else { 7 })), (None, off(10), Node::U8(if 10 == at { x } else { 7 })), (None, off(11), Node::U8(if 11 == at { x } else { 7 })), (None, off(12), Node::U8(if 12 == at { x } else { 7 })), (None, off(13), Node::U8(if 13 == at { x } else { 7 })), (None, off(14), Node::U8(if 14 == at { x } else { 7 })), (None, off(15), Node::U8(if 15 == at { x } else { 7 })), (None, off(16), Node::U8(if 16 == at { x } else { 7 })), (None, off(17), Node::U8(if 17 == at { x } else { 7 })), (None, off(18), Node::U8(if 18 == at { x } else { 7 })), (None, off(19), Node::U8(if 19 == at { x } else { 7 })), (None, off(20), Node::U8(if 20 == at { x } else { 7 })), (None, off(21), Node::U8(if 21 == at { x } else { 7 })), (None, off(22), Node::U8(if 22 == at { x } else { 7 })), (None, off(23), Node::U8(if 23 == at { x } else { 7 })), (None, off(24), Node::U8(if 24 == at { x } else { 7 })), (None, off(25), Node::U8(if 25 == at { x } else { 7 })), (None, off(26), Node::U8(if 26 == at { x } else { 7 })), (None, off(27), Node::U8(if 27 == at { x } else { 7 })), (None, off(28), Node::U8(if 28 == at { x } else { 7 })), (None, off(29), Node::U8(if 29 == at { x } else { 7 })), (None, off(30), Node::U8(if 30 == at { x } else { 7 })), (None, off(31), Node::U8(if 31 == at { x } else { 7 })), (None, off(32), Node::U8(if 32 == at { x } else { 7 }))]), None, true) }

#[derive(Value)]
struct La255(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8);
fn larges_8(m: Mode) { let x = rt::u8_(); let at = [0, 35, 69][rt::choice(3)]; ck(m, &La255(if 0 == at { x } else { 7 }, if 1 == at { x } else { 7 }, if 2 == at { x } else { 7 }, if 3 == at { x } else { 7 }, if 4 == at { x } else { 7 }, if 5 == at { x } else { 7 }, if 6 == at { x } else { 7 }, if 7 == at { x } else { 7 }, if 8 == at { x } else { 7 }, if 9 == at { x } else { 7 }, if 10 == at { x } else { 7 }, if 11 == at { x } else { 7 }, if 12 == at { x } else { 7 }, if 13 == at { x } else { 7 }, if 14 == at { x } else { 7 }, if 15 == at { x } else { 7 }, if 16 == at { x } else { 7 }, if 17 == at { x } else { 7 }, if 18 == at { x } else { 7 }, if 19 == at { x } else { 7 }, if 20 == at { x } else { 7 }, if 21 == at { x } else { 7 }, if 22 == at { x } else { 7 }, if 23 == at { x } else { 7 }, if 24 == at { x } else { 7 }, if 25 == at { x } else { 7 }, if 26 == at { x } else { 7 }, if 27 == at { x } else { 7 }, if 28 == at { x } else { 7 }, if 29 == at { x } else { 7 }, if 30 == at { x } else { 7 }, if 31 == at { x } else { 7 }, if 32 == at { x } else { 7 }, if 33 == at { x } else { 7 }, if 34 == at { x } else { 7 }, if 35 == at { x } else { 7 }, if 36 == at { x } else { 7 }, if 37 == at { x } else { 7 }, if 38 == at { x } else { 7 }, if 39 == at { x } else { 7 }, if 40 == at { x } else { 7 }, if 41 == at { x } else { 7 }, if 42 == at { x } else { 7 }, if 43 == at { x } else { 7 }, if 44 == at { x } else { 7 }, if 45 == at { x } else { 7 }, if 46 == at { x } else { 7 }, if 47 == at { x } else { 7 }, if 48 == at { x } else { 7 }, if 49 == at { x } else { 7 }, if 50 == at { x } else { 7 }, if 51 == at { x } else { 7 }, if 52 == at { x } else { 7 }, if 53 == at { x } else { 7 }, if 54 == at { x } else { 7 }, if 55 == at { x } else { 7 }, if 56 == at { x } else { 7 }, if 57 == at { x } else { 7 }, if 58 == at { x } else { 7 }, if 59 == at { x } else { 7 }, if 60 == at { x } else { 7 }, if 61 == at { x } else { 7 }, if 62 == at { x } else { 7 }, if 63 == at { x } else { 7 }, if 64 == at { x } else { 7 }, if 65 == at { x } else { 7 }, if 66 == at { x } else { 7 }, if 67 == at { x } else { 7 }, if 68 == at { x } else { 7 }, if 69 == at { x } else { 7 }), &Node::Tuple(Hdr { tag: None, label: Some(ident("La255")), index: None }, Some(70), vec![(None, off(0), Node::U8(if 0 == at { x } else { 7 })), (None, off(1), Node::U8(if 1 == at { x } else { 7 })), (None, off(2), Node::U8(if 2 == at { x } else { 7 })), (None, off(3), Node::U8(if 3 == at { x } else { 7 })), (None, off(4), Node::U8(if 4 == at { x } else { 7 })), (None, off(5), Node::U8(if 5 == at { x } else { 7 })), (None, off(6), Node::U8(if 6 == at { x } else { 7 })), (None, off(7), Node::U8(if 7 == at { x } else { 7 })), (None, off(8), Node::U8(if 8 == at { x } else { 7 })), (None, off(9), Node::U8(if 9 == at { x } else { 7 })), (None, off(10), Node::U8(if 10 == at { x } else { 7 })), (None, off(11), Node::U8(if 11 == at { x } else { 7 })), (None, off(12), Node::U8(if 12 == at { x } else { 7 })), (None, off(13), Node::U8(if 13 == at { x } else { 7 })), (None, off(14), Node::U8(if 14 == at { x } else { 7 })), (None, off(15), Node::U8(if 15 == at { x } else { 7 })), (None, off(16), Node::U8(if 16 == at { x } else { 7 })), (None, off(17), Node::U8(if 17 == at { x } else { 7 })), (None, off(18), Node::U8(if 18 == at { x } else { 7 })), (None, off(19), Node::U8(if 19 == at { x } else { 7 })), (None, off(20), Node::U8(if 20 == at { x } else { 7 })), (None, off(21), Node::U8(if 21 == at { x } else { 7 })), (None, off(22), Node::U8(if 22 == at { x } else { 7 })), (None, off(23), Node::U8(if 23 == at { x } else { 7 })), (None, off(24), Node::U8(if 24 == at { x } else { 7 })), (None, off(25), Node::U8(if 25 == at { x } else { 7 })), (None, off(26), Node::U8(if 26 == at { x } else { 7 })), (None, off(27), Node::U8(if 27 == at { x } else { 7 })), (None, off(28), Node::U8(if 28 == at { x } else { 7 })), (None, off(29), Node::U8(if 29 == at { x } else { 7 })), (None, off(30), Node::U8(if 30 == at { x } else { 7 })), (None, off(31), Node::U8(if 31 == at { x } else { 7 })), (None, off(32), Node::U8(if 32 == at { x } else { 7 })), (None, off(33), Node::U8(if 33 == at { x } else { 7 })), (None, off(34), Node::U8(if 34 == at { x } else { 7 })), (None, off(35), Node::U8(if 35 == at { x } else { 7 })), (None, off(36), Node::U8(if 36 == at { x } else { 7 })), (None, off(37), Node::U8(if 37 == at { x } else { 7 })), (None, off(38), Node::U8(if 38 == at { x } else { 7 })), (None, off(39), Node::U8(if 39 == at { x } else { 7 })), (None, off(40), Node::U8(if 40 == at { x } else { 7 })), (None, off(41), Node::U8(if 41 == at { x } else { 7 })), (None, off(42), Node::U8(if 42 == at { x } else { 7 })), (None, off(43), Node::U8(if 43 == at { x } else { 7 })), (None, off(44), Node::U8(if 44 == at { x } else { 7 })), (None, off(45), Node::U8(if 45 == at { x } else { 7 })), (None, off(46), Node::U8(if 46 == at { x } else { 7 })), (None, off(47), Node::U8(if 47 == at { x } else { 7 })), (None, off(48), Node::U8(if 48 == at { x } else { 7 })), (None, off(49), Node::U8(if 49 == at { x } else { 7 })), (None, off(50), Node::U8(if 50 == at { x } else { 7 })), (None, off(51), Node::U8(if 51 == at { x } else { 7 })), (None, off(52), Node::U8(if 52 == at { x } else { 7 })), (None, off(53), Node::U8(if 53 == at { x } else { 7 })), (None, off(54), Node::U8(if 54 == at { x } else { 7 })), (None, off(55), Node::U8(if 55 == at { x } else { 7 })), (None, off(56), Node::U8(if 56 == at { x } else { 7 })), (None, off(57), Node::U8(if 57 == at { x } else { 7 })), (None, off(58), Node::U8(if 58 == at { x } else { 7 })), (None, off(59), Node::U8(if 59 == at { x } else { 7 })), (None, off(60), Node::U8(if 60 == at { x } else { 7 })), (None, off(61), Node::U8(if 61 == at { x } else { 7 })), (None, off(62), Node::U8(if 62 == at { x } else { 7 })), (None, off(63), Node::U8(if 63 == at { x } else { 7 })), (None, off(64), Node::U8(if 64 == at { x } else { 7 })), (None, off(65), Node::U8(if 65 == at { x } else { 7 })), (None, off(66), Node::U8(if 66 == at { x } else { 7 })), (None, off(67), Node::U8(if 67 == at { x } else { 7 })), (None, off(68), Node::U8(if 68 == at { x } else { 7 })), (None, off(69), Node::U8(if 69 == at { x } else { 7 }))]), None, true) }

#[derive(Value)]
#[sval(unlabeled_fields)] struct La256(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8);
fn larges_9(m: Mode) { let x = rt::u8_(); let at = [0, 10, 19][rt::choice(3)]; ck(m, &La256(if 0 == at { x } else { 7 }, if 1 == at { x } else { 7 }, if 2 == at { x } else { 7 }, if 3 == at { x } else { 7 }, if 4 == at { x } else { 7 }, if 5 == at { x } else { 7 }, if 6 == at { x } else { 7 }, if 7 == at { x } else { 7 }, if 8 == at { x } else { 7 }, if 9 == at { x } else { 7 }, if 10 == at { x } else { 7 }, if 11 == at { x } else { 7 }, if 12 == at { x } else { 7 }, if 13 == at { x } else { 7 }, if 14 == at { x } else { 7 }, if 15 == at { x } else { 7 }, if 16 == at { x } else { 7 }, if 17 == at { x } else { 7 }, if 18 == at { x } else { 7 }, if 19 == at { x } else { 7 }), &Node::Tuple(Hdr { tag: None, label: Some(ident("La256")), index: None }, Some(20), vec![(None, off(0), Node::U8(if 0 == at { x } else { 7 })), (None, off(1), Node::U8(if 1 == at { x } else { 7 })), (None, off(2), Node::U8(if 2 == at { x } else { 7 })), (None, off(3), Node::U8(if 3 == at { x } else { 7 })), (None, off(4), Node::U8(if 4 == at { x } else { 7 })), (None, off(5), Node::U8(if 5 == at { x } else { 7 })), (None, off(6), Node::U8(if 6 == at { x } else { 7 })), (None, off(7), Node::U8(if 7 == at { x } else { 7 })), (None, off(8), Node::U8(if 8 == at { x } else { 7 })), (None, off(9), Node::U8(if 9 == at { x } else { 7 })), (None, off(10), Node::U8(if 10 == at { x } else { 7 })), (None, off(11), Node::U8(if 11 == at { x } else { 7 })), (None, off(12), Node::U8(if 12 == at { x } else { 7 })), (None, off(13), Node::U8(if 13 == at { x } else { 7 })), (None, off(14), Node::U8(if 14 == at { x } else { 7 })), (None, off(15), Node::U8(if 15 == at { x } else { 7 })), (None, off(16), Node::U8(if 16 == at { x } else { 7 })), (None, off(17), Node::U8(if 17 == at { x } else { 7 })), (None, off(18), Node::U8(if 18 == at { x } else { 7 })), (None, off(19), Node::U8(if 19 == at { x } else { 7 }))]), None, true) }

#[derive(Value)]
#[sval(unindexed_fields)] struct La257(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8);
fn larges_10(m: Mode) { let x = rt::u8_(); let at = [0, 10, 19][rt::choice(3)]; ck(m, &La257(if 0 == at { x } else { 7 }, if 1 == at { x } else { 7 }, if 2 == at { x } else { 7 }, if 3 == at { x } else { 7 }, if 4 == at { x } else { 7 }, if 5 == at { x } else { 7 }, if 6 == at { x } else { 7 }, if 7 == at { x } else { 7 }, if 8 == at { x } else { 7 }, if 9 == at { x } else { 7 }, if 10 == at { x } else { 7 }, if 11 == at { x } else { 7 }, if 12 == at { x } else { 7 }, if 13 == at { x } else { 7 }, if 14 == at { x } else { 7 }, if 15 == at { x } else { 7 }, if 16 == at { x } else { 7 }, if 17 == at { x } else { 7 }, if 18 == at { x } else { 7 }, if 19 == at { x } else { 7 }), &Node::Tagged(Hdr { tag: None, label: Some(ident("La257")), index: None }, Box::new(Node::Seq(Some(20), vec![Node::U8(if 0 == at { x } else { 7 }), Node::U8(if 1 == at { x } else { 7 }), Node::U8(if 2 == at { x } else { 7 }), Node::U8(if 3 == at { x } else { 7 }), Node::U8(if 4 == at { x } else { 7 }), Node::U8(if 5 == at { x } else { 7 }), Node::U8(if 6 == at { x } else { 7 }), Node::U8(if 7 == at { x } else { 7 }), Node::U8(if 8 == at { x } else { 7 }), Node::U8(if 9 == at { x } else { 7 }), Node::U8(if 10 == at { x } else { 7 }), Node::U8(if 11 == at { x } else { 7 }), Node::U8(if 12 == at { x } else { 7 }), Node::U8(if 13 == at { x } else { 7 }), Node::U8(if 14 == at { x } else { 7 }), Node::U8(if 15 == at { x } else { 7 }), Node::U8(if 16 == at { x } else { 7 }), Node::U8(if 17 == at { x } else { 7 }), Node::U8(if 18 == at { x } else { 7 }), Node::U8(if 19 == at { x } else { 7 })]))), None, true) }

#[derive(Value)]
#[sval(unlabeled_fields)] #[sval(unindexed_fields)] struct La258(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8);
fn larges_11(m: Mode) { let x = rt::u8_(); let at = [0, 10, 19][rt::choice(3)]; ck(m, &La258(if 0 == at { x } else { 7 }, if 1 == at { x } else { 7 }, if 2 == at { x } else { 7 }, if 3 == at { x } else { 7 }, if 4 == at { x } else { 7 }, if 5 == at { x } else { 7 }, if 6 == at { x } else { 7 }, if 7 == at { x } else { 7 }, if 8 == at { x } else { 7 }, if 9 == at { x } else { 7 }, if 10 == at { x } else { 7 }, if 11 == at { x } else { 7 }, if 12 == at { x } else { 7 }, if 13 == at { x } else { 7 }, if 14 == at { x } else { 7 }, if 15 == at { x } else { 7 }, if 16 == at { x } else { 7 }, if 17 == at { x } else { 7 }, if 18 == at { x } else { 7 }, if 19 == at { x } else { 7 }), &Node::Tagged(Hdr { tag: None, label: Some(ident("La258")), index: None }, Box::new(Node::Seq(Some(20), vec![Node::U8(if 0 == at { x } else { 7 }), Node::U8(if 1 == at { x } else { 7 }), Node::U8(if 2 == at { x } else { 7 }), Node::U8(if 3 == at { x } else { 7 }), Node::U8(if 4 == at { x } else { 7 }), Node::U8(if 5 == at { x } else { 7 }), Node::U8(if 6 == at { x } else { 7 }), Node::U8(if 7 == at { x } else { 7 }), Node::U8(if 8 == at { x } else { 7 }), Node::U8(if 9 == at { x } else { 7 }), Node::U8(if 10 == at { x } else { 7 }), Node::U8(if 11 == at { x } else { 7 }), Node::U8(if 12 == at { x } else { 7 }), Node::U8(if 13 == at { x } else { 7 }), Node::U8(if 14 == at { x } else { 7 }), Node::U8(if 15 == at { x } else { 7 }), Node::U8(if 16 == at { x } else { 7 }), Node::U8(if 17 == at { x } else { 7 }), Node::U8(if 18 == at { x } else { 7 }), Node::U8(if 19 == at { x } else { 7 })]))), None, true) }

#[derive(Value)]
enum Mv259 { V0, V1(u8), V2 { p: u8, q: u8 }, V3(u8, u8), V4, V5(u8), V6 { p: u8, q: u8 }, V7(u8, u8), V8, V9(u8), V10 { p: u8, q: u8 }, V11(u8, u8), V12, V13(u8), V14 { p: u8, q: u8 }, V15(u8, u8), V16, V17(u8), V18 { p: u8, q: u8 }, V19(u8, u8), V20, V21(u8), V22 { p: u8, q: u8 }, V23(u8, u8), V24, V25(u8), V26 { p: u8, q: u8 }, V27(u8, u8), V28, V29(u8), V30 { p: u8, q: u8 }, V31(u8, u8), V32, V33(u8), V34 { p: u8, q: u8 }, V35(u8, u8), V36, V37(u8), V38 { p: u8, q: u8 }, V39(u8, u8) }
fn larges_12(m: Mode) { let x = rt::u8_(); match rt::choice(40) { 0 => ck(m, &Mv259::V0, &Node::Enum(Hdr { tag: None, label: Some(ident("Mv259")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("V0")), index: Some(off(0)) })))), None, true), 1 => ck(m, &Mv259::V1(x), &Node::Enum(Hdr { tag: None, label: Some(ident("Mv259")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("V1")), index: Some(off(1)) }, Box::new(Node::U8(x)))))), None, true), 2 => ck(m, &Mv259::V2 { p: x, q: 2 }, &Node::Enum(Hdr { tag: None, label: Some(ident("Mv259")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(ident("V2")), index: Some(off(2)) }, Some(2), vec![(None, ident("p"), off(0), Node::U8(x)), (None, ident("q"), off(1), Node::U8(2))])))), None, true), 3 => ck(m, &Mv259::V3(x, 2), &Node::Enum(Hdr { tag: None, label: Some(ident("Mv259")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(ident("V3")), index: Some(off(3)) }, Some(2), vec![(None, off(0), Node::U8(x)), (None, off(1), Node::U8(2))])))), None, true), 4 => ck(m, &Mv259::V4, &Node::Enum(Hdr { tag: None, label: Some(ident("Mv259")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("V4")), index: Some(off(4)) })))), None, true), 5 => ck(m, &Mv259::V5(x), &Node::Enum(Hdr { tag: None, label: Some(ident("Mv259")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("V5")), index: Some(off(5)) }, Box::new(Node::U8(x)))))), None, true), 6 => ck(m, &Mv259::V6 { p: x, q: 2 }, &Node::Enum(Hdr { tag: None, label: Some(ident("Mv259")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(ident("V6")), index: Some(off(6)) }, Some(2), vec![(None, ident("p"), off(0), Node::U8(x)), (None, ident("q"), off(1), Node::U8(2))])))), None, true), 7 => ck(m, &Mv259::V7(x, 2), &Node::Enum(Hdr { tag: None, label: Some(ident("Mv259")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(ident("V7")), index: Some(off(7)) }, Some(2), vec![(None, off(0), Node::U8(x)), (None, off(1), Node::U8(2))])))), None, true), 8 => ck(m, &Mv259::V8, &Node::Enum(Hdr { tag: None, label: Some(ident("Mv259")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("V8")), index: Some(off(8)) })))), None, true), 9 => ck(m, &Mv259::V9(x), &Node::Enum(Hdr { tag: None, label: Some(ident("Mv259")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("V9")), index: Some(off(9)) }, Box::new(Node::U8(x)))))), None, true), 10 => ck(m, &Mv259::V10 { p: x, q: 2 }, &Node::Enum(Hdr { tag: None, label: Some(ident("Mv259")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(ident("V10")), index: Some(off(10)) }, Some(2), vec![(None, ident("p"), off(0), Node::U8(x)), (None, ident("q"), off(1), Node::U8(2))])))), None, true), 11 => ck(m, &Mv259::V11(x, 2), &Node::Enum(Hdr { tag: None, label: Some(ident("Mv259")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(ident("V11")), index: Some(off(11)) }, Some(2), vec![(None, off(0), Node::U8(x)), (None, off(1), Node::U8(2))])))), None, true), 12 => ck(m, &Mv259::V12, &Node::Enum(Hdr { tag: None, label: Some(ident("Mv259")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("V12")), index: Some(off(12)) })))), None, true), 13 => ck(m, &Mv259::V13(x), &Node::Enum(Hdr { tag: None, label: Some(ident("Mv259")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("V13")), index: Some(off(13)) }, Box::new(Node::U8(x)))))), None, true), 14 => ck(m, &Mv259::V14 { p: x, q: 2 }, &Node::Enum(Hdr { tag: None, label: Some(ident("Mv259")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(ident("V14")), index: Some(off(14)) }, Some(2), vec![(None, ident("p"), off(0), Node::U8(x)), (None, ident("q"), off(1), Node::U8(2))])))), None, true), 15 => ck(m, &Mv259::V15(x, 2), &Node::Enum(Hdr { tag: None, label: Some(ident("Mv259")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(ident("V15")), index: Some(off(15)) }, Some(2), vec![(None, off(0), Node::U8(x)), (None, off(1), Node::U8(2))])))), None, true), 16 => ck(m, &Mv259::V16, &Node::Enum(Hdr { tag: None, label: Some(ident("Mv259")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("V16")), index: Some(off(16)) })))), None, true), 17 => ck(m, &Mv259::V17(x), &Node::Enum(Hdr { tag: None, label: Some(ident("Mv259")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("V17")), index: Some(off(17)) }, Box::new(Node::U8(x)))))), None, true), 18 => ck(m, &Mv259::V18 { p: x, q: 2 }, &Node::Enum(Hdr { tag: None, label: Some(ident("Mv259")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(ident("V18")), index: Some(off(18)) }, Some(2), vec![(None, ident("p"), off(0), Node::U8(x)), (None, ident("q"), off(1), Node::U8(2))])))), None, true), 19 => ck(m, &Mv259::V19(x, 2), &Node::Enum(Hdr { tag: None, label: Some(ident("Mv259")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(ident("V19")), index: Some(off(19)) }, Some(2), vec![(None, off(0), Node::U8(x)), (None, off(1), Node::U8(2))])))), None, true), 20 => ck(m, &Mv259::V20, &Node::Enum(Hdr { tag: None, label: Some(ident("Mv259")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("V20")), index: Some(off(20)) })))), None, true), 21 => ck(m, &Mv259::V21(x), &Node::Enum(Hdr { tag: None, label: Some(ident("Mv259")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("V21")), index: Some(off(21)) }, Box::new(Node::U8(x)))))), None, true), 22 => ck(m, &Mv259::V22 { p: x, q: 2 }, &Node::Enum(Hdr { tag: None, label: Some(ident("Mv259")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(ident("V22")), index: Some(off(22)) }, Some(2), vec![(None, ident("p"), off(0), Node::U8(x)), (None, ident("q"), off(1), Node::U8(2))])))), None, true), 23 => ck(m, &Mv259::V23(x, 2), &Node::Enum(Hdr { tag: None, label: Some(ident("Mv259")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(ident("V23")), index: Some(off(23)) }, Some(2), vec![(None, off(0), Node::U8(x)), (None, off(1), Node::U8(2))])))), None, true), 24 => ck(m, &Mv259::V24, &Node::Enum(Hdr { tag: None, label: Some(ident("Mv259")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("V24")), index: Some(off(24)) })))), None, true), 25 => ck(m, &Mv259::V25(x), &Node::Enum(Hdr { tag: None, label: Some(ident("Mv259")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("V25")), index: Some(off(25)) }, Box::new(Node::U8(x)))))), None, true), 26 => ck(m, &Mv259::V26 { p: x, q: 2 }, &Node::Enum(Hdr { tag: None, label: Some(ident("Mv259")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(ident("V26")), index: Some(off(26)) }, Some(2), vec![(None, ident("p"), off(0), Node::U8(x)), (None, ident("q"), off(1), Node::U8(2))])))), None, true), 27 => ck(m, &Mv259::V27(x, 2), &Node::Enum(Hdr { tag: None, label: Some(ident("Mv259")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(ident("V27")), index: Some(off(27)) }, Some(2), vec![(None, off(0), Node::U8(x)), (None, off(1), Node::U8(2))])))), None, true), 28 => ck(m, &Mv259::V28, &Node::Enum(Hdr { tag: None, label: Some(ident("Mv259")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("V28")), index: Some(off(28)) })))), None, true), 29 => ck(m, &Mv259::V29(x), &Node::Enum(Hdr { tag: None, label: Some(ident("Mv259")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("V29")), index: Some(off(29)) }, Box::new(Node::U8(x)))))), None, true), 30 => ck(m, &Mv259::V30 { p: x, q: 2 }, &Node::Enum(Hdr { tag: None, label: Some(ident("Mv259")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(ident("V30")), index: Some(off(30)) }, Some(2), vec![(None, ident("p"), off(0), Node::U8(x)), (None, ident("q"), off(1), Node::U8(2))])))), None, true), 31 => ck(m, &Mv259::V31(x, 2), &Node::Enum(Hdr { tag: None, label: Some(ident("Mv259")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(ident("V31")), index: Some(off(31)) }, Some(2), vec![(None, off(0), Node::U8(x)), (None, off(1), Node::U8(2))])))), None, true), 32 => ck(m, &Mv259::V32, &Node::Enum(Hdr { tag: None, label: Some(ident("Mv259")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("V32")), index: Some(off(32)) })))), None, true), 33 => ck(m, &Mv259::V33(x), &Node::Enum(Hdr { tag: None, label: Some(ident("Mv259")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("V33")), index: Some(off(33)) }, Box::new(Node::U8(x)))))), None, true), 34 => ck(m, &Mv259::V34 { p: x, q: 2 }, &Node::Enum(Hdr { tag: None, label: Some(ident("Mv259")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(ident("V34")), index: Some(off(34)) }, Some(2), vec![(None, ident("p"), off(0), Node::U8(x)), (None, ident("q"), off(1), Node::U8(2))])))), None, true), 35 => ck(m, &Mv259::V35(x, 2), &Node::Enum(Hdr { tag: None, label: Some(ident("Mv259")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(ident("V35")), index: Some(off(35)) }, Some(2), vec![(None, off(0), Node::U8(x)), (None, off(1), Node::U8(2))])))), None, true), 36 => ck(m, &Mv259::V36, &Node::Enum(Hdr { tag: None, label: Some(ident("Mv259")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("V36")), index: Some(off(36)) })))), None, true), 37 => ck(m, &Mv259::V37(x), &Node::Enum(Hdr { tag: None, label: Some(ident("Mv259")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("V37")), index: Some(off(37)) }, Box::new(Node::U8(x)))))), None, true), 38 => ck(m, &Mv259::V38 { p: x, q: 2 }, &Node::Enum(Hdr { tag: None, label: Some(ident("Mv259")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(ident("V38")), index: Some(off(38)) }, Some(2), vec![(None, ident("p"), off(0), Node::U8(x)), (None, ident("q"), off(1), Node::U8(2))])))), None, true), _ => ck(m, &Mv259::V39(x, 2), &Node::Enum(Hdr { tag: None, label: Some(ident("Mv259")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(ident("V39")), index: Some(off(39)) }, Some(2), vec![(None, off(0), Node::U8(x)), (None, off(1), Node::U8(2))])))), None, true), } }

#[derive(Value)]
#[sval(unlabeled_variants)] enum Mv260 { V0, V1(u8), V2 { p: u8, q: u8 }, V3(u8, u8), V4, V5(u8), V6 { p: u8, q: u8 }, V7(u8, u8), V8, V9(u8), V10 { p: u8, q: u8 }, V11(u8, u8), V12, V13(u8), V14 { p: u8, q: u8 }, V15(u8, u8), V16, V17(u8), V18 { p: u8, q: u8 }, V19(u8, u8) }
fn larges_13(m: Mode) { let x = rt::u8_(); match rt::choice(20) { 0 => ck(m, &Mv260::V0, &Node::Enum(Hdr { tag: None, label: Some(ident("Mv260")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: None, index: Some(off(0)) })))), None, true), 1 => ck(m, &Mv260::V1(x), &Node::Enum(Hdr { tag: None, label: Some(ident("Mv260")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: None, index: Some(off(1)) }, Box::new(Node::U8(x)))))), None, true), 2 => ck(m, &Mv260::V2 { p: x, q: 2 }, &Node::Enum(Hdr { tag: None, label: Some(ident("Mv260")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: None, index: Some(off(2)) }, Some(2), vec![(None, ident("p"), off(0), Node::U8(x)), (None, ident("q"), off(1), Node::U8(2))])))), None, true), 3 => ck(m, &Mv260::V3(x, 2), &Node::Enum(Hdr { tag: None, label: Some(ident("Mv260")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: None, index: Some(off(3)) }, Some(2), vec![(None, off(0), Node::U8(x)), (None, off(1), Node::U8(2))])))), None, true), 4 => ck(m, &Mv260::V4, &Node::Enum(Hdr { tag: None, label: Some(ident("Mv260")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: None, index: Some(off(4)) })))), None, true), 5 => ck(m, &Mv260::V5(x), &Node::Enum(Hdr { tag: None, label: Some(ident("Mv260")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: None, index: Some(off(5)) }, Box::new(Node::U8(x)))))), None, true), 6 => ck(m, &Mv260::V6 { p: x, q: 2 }, &Node::Enum(Hdr { tag: None, label: Some(ident("Mv260")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: None, index: Some(off(6)) }, Some(2), vec![(None, ident("p"), off(0), Node::U8(x)), (None, ident("q"), off(1), Node::U8(2))])))), None, true), 7 => ck(m, &Mv260::V7(x, 2), &Node::Enum(Hdr { tag: None, label: Some(ident("Mv260")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: None, index: Some(off(7)) }, Some(2), vec![(None, off(0), Node::U8(x)), (None, off(1), Node::U8(2))])))), None, true), 8 => ck(m, &Mv260::V8, &Node::Enum(Hdr { tag: None, label: Some(ident("Mv260")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: None, index: Some(off(8)) })))), None, true), 9 => ck(m, &Mv260::V9(x), &Node::Enum(Hdr { tag: None, label: Some(ident("Mv260")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: None, index: Some(off(9)) }, Box::new(Node::U8(x)))))), None, true), 10 => ck(m, &Mv260::V10 { p: x, q: 2 }, &Node::Enum(Hdr { tag: None, label: Some(ident("Mv260")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: None, index: Some(off(10)) }, Some(2), vec![(None, ident("p"), off(0), Node::U8(x)), (None, ident("q"), off(1), Node::U8(2))])))), None, true), 11 => ck(m, &Mv260::V11(x, 2), &Node::Enum(Hdr { tag: None, label: Some(ident("Mv260")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: None, index: Some(off(11)) }, Some(2), vec![(None, off(0), Node::U8(x)), (None, off(1), Node::U8(2))])))), None, true), 12 => ck(m, &Mv260::V12, &Node::Enum(Hdr { tag: None, label: Some(ident("Mv260")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: None, index: Some(off(12)) })))), None, true), 13 => ck(m, &Mv260::V13(x), &Node::Enum(Hdr { tag: None, label: Some(ident("Mv260")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: None, index: Some(off(13)) }, Box::new(Node::U8(x)))))), None, true), 14 => ck(m, &Mv260::V14 { p: x, q: 2 }, &Node::Enum(Hdr { tag: None, label: Some(ident("Mv260")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: None, index: Some(off(14)) }, Some(2), vec![(None, ident("p"), off(0), Node::U8(x)), (None, ident("q"), off(1), Node::U8(2))])))), None, true), 15 => ck(m, &Mv260::V15(x, 2), &Node::Enum(Hdr { tag: None, label: Some(ident("Mv260")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: None, index: Some(off(15)) }, Some(2), vec![(None, off(0), Node::U8(x)), (None, off(1), Node::U8(2))])))), None, true), 16 => ck(m, &Mv260::V16, &Node::Enum(Hdr { tag: None, label: Some(ident("Mv260")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: None, index: Some(off(16)) })))), None, true), 17 => ck(m, &Mv260::V17(x), &Node::Enum(Hdr { tag: None, label: Some(ident("Mv260")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: None, index: Some(off(17)) }, Box::new(Node::U8(x)))))), None, true), 18 => ck(m, &Mv260::V18 { p: x, q: 2 }, &Node::Enum(Hdr { tag: None, label: Some(ident("Mv260")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: None, index: Some(off(18)) }, Some(2), vec![(None, ident("p"), off(0), Node::U8(x)), (None, ident("q"), off(1), Node::U8(2))])))), None, true), _ => ck(m, &Mv260::V19(x, 2), &Node::Enum(Hdr { tag: None, label: Some(ident("Mv260")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: None, index: Some(off(19)) }, Some(2), vec![(None, off(0), Node::U8(x)), (None, off(1), Node::U8(2))])))), None, true), } }

#[derive(Value)]
#[sval(unindexed_variants)] enum Mv261 { V0, V1(u8), V2 { p: u8, q: u8 }, V3(u8, u8), V4, V5(u8), V6 { p: u8, q: u8 }, V7(u8, u8), V8, V9(u8), V10 { p: u8, q: u8 }, V11(u8, u8), V12, V13(u8), V14 { p: u8, q: u8 }, V15(u8, u8), V16, V17(u8), V18 { p: u8, q: u8 }, V19(u8, u8) }
fn larges_14(m: Mode) { let x = rt::u8_(); match rt::choice(20) { 0 => ck(m, &Mv261::V0, &Node::Enum(Hdr { tag: None, label: Some(ident("Mv261")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("V0")), index: None })))), None, true), 1 => ck(m, &Mv261::V1(x), &Node::Enum(Hdr { tag: None, label: Some(ident("Mv261")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("V1")), index: None }, Box::new(Node::U8(x)))))), None, true), 2 => ck(m, &Mv261::V2 { p: x, q: 2 }, &Node::Enum(Hdr { tag: None, label: Some(ident("Mv261")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(ident("V2")), index: None }, Some(2), vec![(None, ident("p"), off(0), Node::U8(x)), (None, ident("q"), off(1), Node::U8(2))])))), None, true), 3 => ck(m, &Mv261::V3(x, 2), &Node::Enum(Hdr { tag: None, label: Some(ident("Mv261")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(ident("V3")), index: None }, Some(2), vec![(None, off(0), Node::U8(x)), (None, off(1), Node::U8(2))])))), None, true), 4 => ck(m, &Mv261::V4, &Node::Enum(Hdr { tag: None, label: Some(ident("Mv261")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("V4")), index: None })))), None, true), 5 => ck(m, &Mv261::V5(x), &Node::Enum(Hdr { tag: None, label: Some(ident("Mv261")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("V5")), index: None }, Box::new(Node::U8(x)))))), None, true), 6 => ck(m, &Mv261::V6 { p: x, q: 2 }, &Node::Enum(Hdr { tag: None, label: Some(ident("Mv261")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(ident("V6")), index: None }, Some(2), vec![(None, ident("p"), off(0), Node::U8(x)), (None, ident("q"), off(1), Node::U8(2))])))), None, true), 7 => ck(m, &Mv261::V7(x, 2), &Node::Enum(Hdr { tag: None, label: Some(ident("Mv261")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(ident("V7")), index: None }, Some(2), vec![(None, off(0), Node::U8(x)), (None, off(1), Node::U8(2))])))), None, true), 8 => ck(m, &Mv261::V8, &Node::Enum(Hdr { tag: None, label: Some(ident("Mv261")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("V8")), index: None })))), None, true), 9 => ck(m, &Mv261::V9(x), &Node::Enum(Hdr { tag: None, label: Some(ident("Mv261")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("V9")), index: None }, Box::new(Node::U8(x)))))), None, true), 10 => ck(m, &Mv261::V10 { p: x, q: 2 }, &Node::Enum(Hdr { tag: None, label: Some(ident("Mv261")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(ident("V10")), index: None }, Some(2), vec![(None, ident("p"), off(0), Node::U8(x)), (None, ident("q"), off(1), Node::U8(2))])))), None, true), 11 => ck(m, &Mv261::V11(x, 2), &Node::Enum(Hdr { tag: None, label: Some(ident("Mv261")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(ident("V11")), index: None }, Some(2), vec![(None, off(0), Node::U8(x)), (None, off(1), Node::U8(2))])))), None, true), 12 => ck(m, &Mv261::V12, &Node::Enum(Hdr { tag: None, label: Some(ident("Mv261")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("V12")), index: None })))), None, true), 13 => ck(m, &Mv261::V13(x), &Node::Enum(Hdr { tag: None, label: Some(ident("Mv261")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("V13")), index: None }, Box::new(Node::U8(x)))))), None, true), 14 => ck(m, &Mv261::V14 { p: x, q: 2 }, &Node::Enum(Hdr { tag: None, label: Some(ident("Mv261")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(ident("V14")), index: None }, Some(2), vec![(None, ident("p"), off(0), Node::U8(x)), (None, ident("q"), off(1), Node::U8(2))])))), None, true), 15 => ck(m, &Mv261::V15(x, 2), &Node::Enum(Hdr { tag: None, label: Some(ident("Mv261")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(ident("V15")), index: None }, Some(2), vec![(None, off(0), Node::U8(x)), (None, off(1), Node::U8(2))])))), None, true), 16 => ck(m, &Mv261::V16, &Node::Enum(Hdr { tag: None, label: Some(ident("Mv261")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("V16")), index: None })))), None, true), 17 => ck(m, &Mv261::V17(x), &Node::Enum(Hdr { tag: None, label: Some(ident("Mv261")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("V17")), index: None }, Box::new(Node::U8(x)))))), None, true), 18 => ck(m, &Mv261::V18 { p: x, q: 2 }, &Node::Enum(Hdr { tag: None, label: Some(ident("Mv261")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(ident("V18")), index: None }, Some(2), vec![(None, ident("p"), off(0), Node::U8(x)), (None, ident("q"), off(1), Node::U8(2))])))), None, true), _ => ck(m, &Mv261::V19(x, 2), &Node::Enum(Hdr { tag: None, label: Some(ident("Mv261")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(ident("V19")), index: None }, Some(2), vec![(None, off(0), Node::U8(x)), (None, off(1), Node::U8(2))])))), None, true), } }

#[derive(Value)]
struct Ix262 { #[sval(index = 126)] a: u8, b: u8 }
fn edges_0(m: Mode) { let (x, y) = (rt::u8_(), rt::u8_()); ck(m, &Ix262 { a: x, b: y }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("Ix262")), index: None }, Some(2), vec![(None, ident("a"), Index::new_isize(126), Node::U8(x)), (None, ident("b"), Index::new_isize(127), Node::U8(y))]), None, true) }

#[derive(Value)]
#[repr(isize)]
enum Iv263 { A = 126, B }
fn edges_1(m: Mode) {  match rt::choice(2) { 0 => ck(m, &Iv263::A, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv263")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("A")), index: Some(Index::new_isize(126)) })))), None, true), _ => ck(m, &Iv263::B, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv263")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(127)) })))), None, true), } }

#[derive(Value)]
struct Ix264 { #[sval(index = 127)] a: u8, b: u8 }
fn edges_2(m: Mode) { let (x, y) = (rt::u8_(), rt::u8_()); ck(m, &Ix264 { a: x, b: y }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("Ix264")), index: None }, Some(2), vec![(None, ident("a"), Index::new_isize(127), Node::U8(x)), (None, ident("b"), Index::new_isize(128), Node::U8(y))]), None, true) }

#[derive(Value)]
#[repr(isize)]
enum Iv265 { A = 127, B }
fn edges_3(m: Mode) {  match rt::choice(2) { 0 => ck(m, &Iv265::A, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv265")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("A")), index: Some(Index::new_isize(127)) })))), None, true), _ => ck(m, &Iv265::B, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv265")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(128)) })))), None, true), } }

#[derive(Value)]
struct Ix266 { #[sval(index = 128)] a: u8, b: u8 }
fn edges_4(m: Mode) { let (x, y) = (rt::u8_(), rt::u8_()); ck(m, &Ix266 { a: x, b: y }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("Ix266")), index: None }, Some(2), vec![(None, ident("a"), Index::new_isize(128), Node::U8(x)), (None, ident("b"), Index::new_isize(129), Node::U8(y))]), None, true) }

#[derive(Value)]
#[repr(isize)]
enum Iv267 { A = 128, B }
fn edges_5(m: Mode) {  match rt::choice(2) { 0 => ck(m, &Iv267::A, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv267")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("A")), index: Some(Index::new_isize(128)) })))), None, true), _ => ck(m, &Iv267::B, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv267")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(129)) })))), None, true), } }

#[derive(Value)]
struct Ix268 { #[sval(index = 254)] a: u8, b: u8 }
fn edges_6(m: Mode) { let (x, y) = (rt::u8_(), rt::u8_()); ck(m, &Ix268 { a: x, b: y }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("Ix268")), index: None }, Some(2), vec![(None, ident("a"), Index::new_isize(254), Node::U8(x)), (None, ident("b"), Index::new_isize(255), Node::U8(y))]), None, true) }

#[derive(Value)]
#[repr(isize)]
enum Iv269 { A = 254, B }
fn edges_7(m: Mode) {  match rt::choice(2) { 0 => ck(m, &Iv269::A, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv269")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("A")), index: Some(Index::new_isize(254)) })))), None, true), _ => ck(m, &Iv269::B, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv269")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(255)) })))), None, true), } }

#[derive(Value)]
struct Ix270 { #[sval(index = 255)] a: u8, b: u8 }
fn edges_8(m: Mode) { let (x, y) = (rt::u8_(), rt::u8_()); ck(m, &Ix270 { a: x, b: y }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("Ix270")), index: None }, Some(2), vec![(None, ident("a"), Index::new_isize(255), Node::U8(x)), (None, ident("b"), Index::new_isize(256), Node::U8(y))]), None, true) }

#[derive(Value)]
#[repr(isize)]
enum Iv271 { A = 255, B }
fn edges_9(m: Mode) {  match rt::choice(2) { 0 => ck(m, &Iv271::A, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv271")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("A")), index: Some(Index::new_isize(255)) })))), None, true), _ => ck(m, &Iv271::B, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv271")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(256)) })))), None, true), } }

#[derive(Value)]
struct Ix272 { #[sval(index = 256)] a: u8, b: u8 }
fn edges_10(m: Mode) { let (x, y) = (rt::u8_(), rt::u8_()); ck(m, &Ix272 { a: x, b: y }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("Ix272")), index: None }, Some(2), vec![(None, ident("a"), Index::new_isize(256), Node::U8(x)), (None, ident("b"), Index::new_isize(257), Node::U8(y))]), None, true) }

#[derive(Value)]
#[repr(isize)]
enum Iv273 { A = 256, B }
fn edges_11(m: Mode) {  match rt::choice(2) { 0 => ck(m, &Iv273::A, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv273")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("A")), index: Some(Index::new_isize(256)) })))), None, true), _ => ck(m, &Iv273::B, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv273")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(257)) })))), None, true), } }

#[derive(Value)]
struct Ix274 { #[sval(index = 999)] a: u8, b: u8 }
fn edges_12(m: Mode) { let (x, y) = (rt::u8_(), rt::u8_()); ck(m, &Ix274 { a: x, b: y }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("Ix274")), index: None }, Some(2), vec![(None, ident("a"), Index::new_isize(999), Node::U8(x)), (None, ident("b"), Index::new_isize(1000), Node::U8(y))]), None, true) }

#[derive(Value)]
#[repr(isize)]
enum Iv275 { A = 999, B }
fn edges_13(m: Mode) {  match rt::choice(2) { 0 => ck(m, &Iv275::A, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv275")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("A")), index: Some(Index::new_isize(999)) })))), None, true), _ => ck(m, &Iv275::B, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv275")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(1000)) })))), None, true), } }

#[derive(Value)]
struct Ix276 { #[sval(index = 32766)] a: u8, b: u8 }
fn edges_14(m: Mode) { let (x, y) = (rt::u8_(), rt::u8_()); ck(m, &Ix276 { a: x, b: y }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("Ix276")), index: None }, Some(2), vec![(None, ident("a"), Index::new_isize(32766), Node::U8(x)), (None, ident("b"), Index::new_isize(32767), Node::U8(y))]), None, true) }

#[derive(Value)]
#[repr(isize)]
enum Iv277 { A = 32766, B }
fn edges_15(m: Mode) {  match rt::choice(2) { 0 => ck(m, &Iv277::A, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv277")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("A")), index: Some(Index::new_isize(32766)) })))), None, true), _ => ck(m, &Iv277::B, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv277")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(32767)) })))), None, true), } }

#[derive(Value)]
struct Ix278 { #[sval(index = 32767)] a: u8, b: u8 }
fn edges_16(m: Mode) { let (x, y) = (rt::u8_(), rt::u8_()); ck(m, &Ix278 { a: x, b: y }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("Ix278")), index: None }, Some(2), vec![(None, ident("a"), Index::new_isize(32767), Node::U8(x)), (None, ident("b"), Index::new_isize(32768), Node::U8(y))]), None, true) }

#[derive(Value)]
#[repr(isize)]
enum Iv279 { A = 32767, B }
fn edges_17(m: Mode) {  match rt::choice(2) { 0 => ck(m, &Iv279::A, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv279")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("A")), index: Some(Index::new_isize(32767)) })))), None, true), _ => ck(m, &Iv279::B, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv279")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(32768)) })))), None, true), } }

#[derive(Value)]
struct Ix280 { #[sval(index = 32768)] a: u8, b: u8 }
fn edges_18(m: Mode) { let (x, y) = (rt::u8_(), rt::u8_()); ck(m, &Ix280 { a: x, b: y }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("Ix280")), index: None }, Some(2), vec![(None, ident("a"), Index::new_isize(32768), Node::U8(x)), (None, ident("b"), Index::new_isize(32769), Node::U8(y))]), None, true) }

#[derive(Value)]
#[repr(isize)]
enum Iv281 { A = 32768, B }
fn edges_19(m: Mode) {  match rt::choice(2) { 0 => ck(m, &Iv281::A, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv281")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("A")), index: Some(Index::new_isize(32768)) })))), None, true), _ => ck(m, &Iv281::B, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv281")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(32769)) })))), None, true), } }

#[derive(Value)]
struct Ix282 { #[sval(index = 65534)] a: u8, b: u8 }
fn edges_20(m: Mode) { let (x, y) = (rt::u8_(), rt::u8_()); ck(m, &Ix282 { a: x, b: y }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("Ix282")), index: None }, Some(2), vec![(None, ident("a"), Index::new_isize(65534), Node::U8(x)), (None, ident("b"), Index::new_isize(65535), Node::U8(y))]), None, true) }

#[derive(Value)]
#[repr(isize)]
enum Iv283 { A = 65534, B }
fn edges_21(m: Mode) {  match rt::choice(2) { 0 => ck(m, &Iv283::A, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv283")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("A")), index: Some(Index::new_isize(65534)) })))), None, true), _ => ck(m, &Iv283::B, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv283")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(65535)) })))), None, true), } }

#[derive(Value)]
struct Ix284 { #[sval(index = 65535)] a: u8, b: u8 }
fn edges_22(m: Mode) { let (x, y) = (rt::u8_(), rt::u8_()); ck(m, &Ix284 { a: x, b: y }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("Ix284")), index: None }, Some(2), vec![(None, ident("a"), Index::new_isize(65535), Node::U8(x)), (None, ident("b"), Index::new_isize(65536), Node::U8(y))]), None, true) }

#[derive(Value)]
#[repr(isize)]
enum Iv285 { A = 65535, B }
fn edges_23(m: Mode) {  match rt::choice(2) { 0 => ck(m, &Iv285::A, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv285")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("A")), index: Some(Index::new_isize(65535)) })))), None, true), _ => ck(m, &Iv285::B, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv285")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(65536)) })))), None, true), } }

#[derive(Value)]
struct Ix286 { #[sval(index = 65536)] a: u8, b: u8 }
fn edges_24(m: Mode) { let (x, y) = (rt::u8_(), rt::u8_()); ck(m, &Ix286 { a: x, b: y }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("Ix286")), index: None }, Some(2), vec![(None, ident("a"), Index::new_isize(65536), Node::U8(x)), (None, ident("b"), Index::new_isize(65537), Node::U8(y))]), None, true) }

#[derive(Value)]
#[repr(isize)]
enum Iv287 { A = 65536, B }
fn edges_25(m: Mode) {  match rt::choice(2) { 0 => ck(m, &Iv287::A, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv287")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("A")), index: Some(Index::new_isize(65536)) })))), None, true), _ => ck(m, &Iv287::B, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv287")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(65537)) })))), None, true), } }

#[derive(Value)]
struct Ix288 { #[sval(index = 2147483646)] a: u8, b: u8 }
fn edges_26(m: Mode) { let (x, y) = (rt::u8_(), rt::u8_()); ck(m, &Ix288 { a: x, b: y }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("Ix288")), index: None }, Some(2), vec![(None, ident("a"), Index::new_isize(2147483646), Node::U8(x)), (None, ident("b"), Index::new_isize(2147483647), Node::U8(y))]), None, true) }

#[derive(Value)]
#[repr(isize)]
enum Iv289 { A = 2147483646, B }
fn edges_27(m: Mode) {  match rt::choice(2) { 0 => ck(m, &Iv289::A, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv289")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("A")), index: Some(Index::new_isize(2147483646)) })))), None, true), _ => ck(m, &Iv289::B, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv289")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(2147483647)) })))), None, true), } }

#[derive(Value)]
struct Ix290 { #[sval(index = 2147483647)] a: u8, b: u8 }
fn edges_28(m: Mode) { let (x, y) = (rt::u8_(), rt::u8_()); ck(m, &Ix290 { a: x, b: y }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("Ix290")), index: None }, Some(2), vec![(None, ident("a"), Index::new_isize(2147483647), Node::U8(x)), (None, ident("b"), Index::new_isize(2147483648), Node::U8(y))]), None, true) }

#[derive(Value)]
#[repr(isize)]
enum Iv291 { A = 2147483647, B }
fn edges_29(m: Mode) {  match rt::choice(2) { 0 => ck(m, &Iv291::A, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv291")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("A")), index: Some(Index::new_isize(2147483647)) })))), None, true), _ => ck(m, &Iv291::B, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv291")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(2147483648)) })))), None, true), } }

#[derive(Value)]
struct Ix292 { #[sval(index = 2147483648)] a: u8, b: u8 }
fn edges_30(m: Mode) { let (x, y) = (rt::u8_(), rt::u8_()); ck(m, &Ix292 { a: x, b: y }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("Ix292")), index: None }, Some(2), vec![(None, ident("a"), Index::new_isize(2147483648), Node::U8(x)), (None, ident("b"), Index::new_isize(2147483649), Node::U8(y))]), None, true) }

#[derive(Value)]
#[repr(isize)]
enum Iv293 { A = 2147483648, B }
fn edges_31(m: Mode) {  match rt::choice(2) { 0 => ck(m, &Iv293::A, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv293")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("A")), index: Some(Index::new_isize(2147483648)) })))), None, true), _ => ck(m, &Iv293::B, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv293")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(2147483649)) })))), None, true), } }

#[derive(Value)]
struct Ix294 { #[sval(index = 4294967294)] a: u8, b: u8 }
fn edges_32(m: Mode) { let (x, y) = (rt::u8_(), rt::u8_()); ck(m, &Ix294 { a: x, b: y }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("Ix294")), index: None }, Some(2), vec![(None, ident("a"), Index::new_isize(4294967294), Node::U8(x)), (None, ident("b"), Index::new_isize(4294967295), Node::U8(y))]), None, true) }

#[derive(Value)]
#[repr(isize)]
enum Iv295 { A = 4294967294, B }
fn edges_33(m: Mode) {  match rt::choice(2) { 0 => ck(m, &Iv295::A, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv295")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("A")), index: Some(Index::new_isize(4294967294)) })))), None, true), _ => ck(m, &Iv295::B, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv295")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(4294967295)) })))), None, true), } }

#[derive(Value)]
struct Ix296 { #[sval(index = 4294967295)] a: u8, b: u8 }
fn edges_34(m: Mode) { let (x, y) = (rt::u8_(), rt::u8_()); ck(m, &Ix296 { a: x, b: y }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("Ix296")), index: None }, Some(2), vec![(None, ident("a"), Index::new_isize(4294967295), Node::U8(x)), (None, ident("b"), Index::new_isize(4294967296), Node::U8(y))]), None, true) }

#[derive(Value)]
#[repr(isize)]
enum Iv297 { A = 4294967295, B }
fn edges_35(m: Mode) {  match rt::choice(2) { 0 => ck(m, &Iv297::A, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv297")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("A")), index: Some(Index::new_isize(4294967295)) })))), None, true), _ => ck(m, &Iv297::B, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv297")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(4294967296)) })))), None, true), } }

#[derive(Value)]
struct Ix298 { #[sval(index = 4294967296)] a: u8, b: u8 }
fn edges_36(m: Mode) { let (x, y) = (rt::u8_(), rt::u8_()); ck(m, &Ix298 { a: x, b: y }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("Ix298")), index: None }, Some(2), vec![(None, ident("a"), Index::new_isize(4294967296), Node::U8(x)), (None, ident("b"), Index::new_isize(4294967297), Node::U8(y))]), None, true) }

#[derive(Value)]
#[repr(isize)]
enum Iv299 { A = 4294967296, B }
fn edges_37(m: Mode) {  match rt::choice(2) { 0 => ck(m, &Iv299::A, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv299")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("A")), index: Some(Index::new_isize(4294967296)) })))), None, true), _ => ck(m, &Iv299::B, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv299")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(4294967297)) })))), None, true), } }

#[derive(Value)]
struct Ix300 { #[sval(index = 9007199254740992)] a: u8, b: u8 }
fn edges_38(m: Mode) { let (x, y) = (rt::u8_(), rt::u8_()); ck(m, &Ix300 { a: x, b: y }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("Ix300")), index: None }, Some(2), vec![(None, ident("a"), Index::new_isize(9007199254740992), Node::U8(x)), (None, ident("b"), Index::new_isize(9007199254740993), Node::U8(y))]), None, true) }

#[derive(Value)]
#[repr(isize)]
enum Iv301 { A = 9007199254740992, B }
fn edges_39(m: Mode) {  match rt::choice(2) { 0 => ck(m, &Iv301::A, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv301")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("A")), index: Some(Index::new_isize(9007199254740992)) })))), None, true), _ => ck(m, &Iv301::B, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv301")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(9007199254740993)) })))), None, true), } }

#[derive(Value)]
struct Ix302 { #[sval(index = 9223372036854775805)] a: u8, b: u8 }
fn edges_40(m: Mode) { let (x, y) = (rt::u8_(), rt::u8_()); ck(m, &Ix302 { a: x, b: y }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("Ix302")), index: None }, Some(2), vec![(None, ident("a"), Index::new_isize(9223372036854775805), Node::U8(x)), (None, ident("b"), Index::new_isize(9223372036854775806), Node::U8(y))]), None, true) }

#[derive(Value)]
#[repr(isize)]
enum Iv303 { A = 9223372036854775805, B }
fn edges_41(m: Mode) {  match rt::choice(2) { 0 => ck(m, &Iv303::A, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv303")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("A")), index: Some(Index::new_isize(9223372036854775805)) })))), None, true), _ => ck(m, &Iv303::B, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv303")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(9223372036854775806)) })))), None, true), } }

#[derive(Value)]
struct Ix304 { #[sval(index = -2)] a: u8, b: u8 }
fn edges_42(m: Mode) { let (x, y) = (rt::u8_(), rt::u8_()); ck(m, &Ix304 { a: x, b: y }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("Ix304")), index: None }, Some(2), vec![(None, ident("a"), Index::new_isize(-2), Node::U8(x)), (None, ident("b"), Index::new_isize(-1), Node::U8(y))]), None, true) }

#[derive(Value)]
#[repr(isize)]
enum Iv305 { A = -2, B }
fn edges_43(m: Mode) {  match rt::choice(2) { 0 => ck(m, &Iv305::A, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv305")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("A")), index: Some(Index::new_isize(-2)) })))), None, true), _ => ck(m, &Iv305::B, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv305")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(-1)) })))), None, true), } }

#[derive(Value)]
struct Ix306 { #[sval(index = -128)] a: u8, b: u8 }
fn edges_44(m: Mode) { let (x, y) = (rt::u8_(), rt::u8_()); ck(m, &Ix306 { a: x, b: y }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("Ix306")), index: None }, Some(2), vec![(None, ident("a"), Index::new_isize(-128), Node::U8(x)), (None, ident("b"), Index::new_isize(-127), Node::U8(y))]), None, true) }

#[derive(Value)]
#[repr(isize)]
enum Iv307 { A = -128, B }
fn edges_45(m: Mode) {  match rt::choice(2) { 0 => ck(m, &Iv307::A, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv307")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("A")), index: Some(Index::new_isize(-128)) })))), None, true), _ => ck(m, &Iv307::B, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv307")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(-127)) })))), None, true), } }

#[derive(Value)]
struct Ix308 { #[sval(index = -129)] a: u8, b: u8 }
fn edges_46(m: Mode) { let (x, y) = (rt::u8_(), rt::u8_()); ck(m, &Ix308 { a: x, b: y }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("Ix308")), index: None }, Some(2), vec![(None, ident("a"), Index::new_isize(-129), Node::U8(x)), (None, ident("b"), Index::new_isize(-128), Node::U8(y))]), None, true) }

#[derive(Value)]
#[repr(isize)]
enum Iv309 { A = -129, B }
fn edges_47(m: Mode) {  match rt::choice(2) { 0 => ck(m, &Iv309::A, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv309")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("A")), index: Some(Index::new_isize(-129)) })))), None, true), _ => ck(m, &Iv309::B, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv309")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(-128)) })))), None, true), } }

#[derive(Value)]
struct Ix310 { #[sval(index = -32769)] a: u8, b: u8 }
fn edges_48(m: Mode) { let (x, y) = (rt::u8_(), rt::u8_()); ck(m, &Ix310 { a: x, b: y }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("Ix310")), index: None }, Some(2), vec![(None, ident("a"), Index::new_isize(-32769), Node::U8(x)), (None, ident("b"), Index::new_isize(-32768), Node::U8(y))]), None, true) }

#[derive(Value)]
#[repr(isize)]
enum Iv311 { A = -32769, B }
fn edges_49(m: Mode) {  match rt::choice(2) { 0 => ck(m, &Iv311::A, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv311")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("A")), index: Some(Index::new_isize(-32769)) })))), None, true), _ => ck(m, &Iv311::B, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv311")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(-32768)) })))), None, true), } }

#[derive(Value)]
struct Ix312 { #[sval(index = -2147483648)] a: u8, b: u8 }
fn edges_50(m: Mode) { let (x, y) = (rt::u8_(), rt::u8_()); ck(m, &Ix312 { a: x, b: y }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("Ix312")), index: None }, Some(2), vec![(None, ident("a"), Index::new_isize(-2147483648), Node::U8(x)), (None, ident("b"), Index::new_isize(-2147483647), Node::U8(y))]), None, true) }

#[derive(Value)]
#[repr(isize)]
enum Iv313 { A = -2147483648, B }
fn edges_51(m: Mode) {  match rt::choice(2) { 0 => ck(m, &Iv313::A, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv313")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("A")), index: Some(Index::new_isize(-2147483648)) })))), None, true), _ => ck(m, &Iv313::B, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv313")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(-2147483647)) })))), None, true), } }

#[derive(Value)]
struct Ix314 { #[sval(index = -2147483649)] a: u8, b: u8 }
fn edges_52(m: Mode) { let (x, y) = (rt::u8_(), rt::u8_()); ck(m, &Ix314 { a: x, b: y }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("Ix314")), index: None }, Some(2), vec![(None, ident("a"), Index::new_isize(-2147483649), Node::U8(x)), (None, ident("b"), Index::new_isize(-2147483648), Node::U8(y))]), None, true) }

#[derive(Value)]
#[repr(isize)]
enum Iv315 { A = -2147483649, B }
fn edges_53(m: Mode) {  match rt::choice(2) { 0 => ck(m, &Iv315::A, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv315")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("A")), index: Some(Index::new_isize(-2147483649)) })))), None, true), _ => ck(m, &Iv315::B, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv315")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(-2147483648)) })))), None, true), } }

#[derive(Value)]
struct Ix316 { #[sval(index = -9223372036854775807)] a: u8, b: u8 }
fn edges_54(m: Mode) { let (x, y) = (rt::u8_(), rt::u8_()); ck(m, &Ix316 { a: x, b: y }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("Ix316")), index: None }, Some(2), vec![(None, ident("a"), Index::new_isize(-9223372036854775807), Node::U8(x)), (None, ident("b"), Index::new_isize(-9223372036854775806), Node::U8(y))]), None, true) }

#[derive(Value)]
#[repr(isize)]
enum Iv317 { A = -9223372036854775807, B }
fn edges_55(m: Mode) {  match rt::choice(2) { 0 => ck(m, &Iv317::A, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv317")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("A")), index: Some(Index::new_isize(-9223372036854775807)) })))), None, true), _ => ck(m, &Iv317::B, &Node::Enum(Hdr { tag: None, label: Some(ident("Iv317")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("B")), index: Some(Index::new_isize(-9223372036854775806)) })))), None, true), } }

#[derive(Value)]
#[sval(label = "")]
struct Lb318 { #[sval(label = "")] a: u8, b: u8 }
fn edges_56(m: Mode) { let (x, y) = (rt::u8_(), rt::u8_()); ck(m, &Lb318 { a: x, b: y }, &Node::RecordTuple(Hdr { tag: None, label: Some(lit("")), index: None }, Some(2), vec![(None, lit(""), off(0), Node::U8(x)), (None, ident("b"), off(1), Node::U8(y))]), None, true) }

#[derive(Value)]
#[sval(label = "\u{e9}")]
struct Lb319 { #[sval(label = "\u{e9}")] a: u8, b: u8 }
fn edges_57(m: Mode) { let (x, y) = (rt::u8_(), rt::u8_()); ck(m, &Lb319 { a: x, b: y }, &Node::RecordTuple(Hdr { tag: None, label: Some(lit("\u{e9}")), index: None }, Some(2), vec![(None, lit("\u{e9}"), off(0), Node::U8(x)), (None, ident("b"), off(1), Node::U8(y))]), None, true) }

#[derive(Value)]
#[sval(label = "\\")]
struct Lb320 { #[sval(label = "\\")] a: u8, b: u8 }
fn edges_58(m: Mode) { let (x, y) = (rt::u8_(), rt::u8_()); ck(m, &Lb320 { a: x, b: y }, &Node::RecordTuple(Hdr { tag: None, label: Some(lit("\\")), index: None }, Some(2), vec![(None, lit("\\"), off(0), Node::U8(x)), (None, ident("b"), off(1), Node::U8(y))]), None, true) }

#[derive(Value)]
#[sval(label = "\n")]
struct Lb321 { #[sval(label = "\n")] a: u8, b: u8 }
fn edges_59(m: Mode) { let (x, y) = (rt::u8_(), rt::u8_()); ck(m, &Lb321 { a: x, b: y }, &Node::RecordTuple(Hdr { tag: None, label: Some(lit("\n")), index: None }, Some(2), vec![(None, lit("\n"), off(0), Node::U8(x)), (None, ident("b"), off(1), Node::U8(y))]), None, true) }

#[derive(Value)]
#[sval(label = "a b")]
struct Lb322 { #[sval(label = "a b")] a: u8, b: u8 }
fn edges_60(m: Mode) { let (x, y) = (rt::u8_(), rt::u8_()); ck(m, &Lb322 { a: x, b: y }, &Node::RecordTuple(Hdr { tag: None, label: Some(lit("a b")), index: None }, Some(2), vec![(None, lit("a b"), off(0), Node::U8(x)), (None, ident("b"), off(1), Node::U8(y))]), None, true) }

#[derive(Value)]
#[sval(label = "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx")]
struct Lb323 { #[sval(label = "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx")] a: u8, b: u8 }
fn edges_61(m: Mode) { let (x, y) = (rt::u8_(), rt::u8_()); ck(m, &Lb323 { a: x, b: y }, &Node::RecordTuple(Hdr { tag: None, label: Some(lit("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx")), index: None }, Some(2), vec![(None, lit("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"), off(0), Node::U8(x)), (None, ident("b"), off(1), Node::U8(y))]), None, true) }

#[derive(Value)]
#[sval(unlabeled_fields = false, unindexed_fields = false)]
struct OffS { #[sval(skip = false)] a: u8, #[sval(flatten = false)] b: Nest }
#[derive(Value)]
#[sval(transparent = false)]
struct OffN(u8);
#[derive(Value)]
#[sval(dynamic = false, unlabeled_variants = false, unindexed_variants = false)]
enum OffE { A(u8), B }
#[derive(Value)]
struct Gen1<'a, T: ?Sized, const N: usize> where T: PartialEq { a: &'a T, b: [u8; N] }
#[derive(Value)]
enum Gen2<A, B> { Both(A, B), #[sval(label = "right")] Right { r: B }, Left(A) }
#[derive(Value)]
struct Gen3<T>(T);

fn edges_62(m: Mode) { let x = rt::u8_(); match rt::choice(7) { 0 => ck(m, &OffS { a: x, b: Nest { n: x } }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("OffS")), index: None }, Some(2), vec![(None, ident("a"), off(0), Node::U8(x)), (None, ident("b"), off(1), nest(x))]), None, true), 1 => ck(m, &OffN(x), &Node::Tagged(Hdr { tag: None, label: Some(ident("OffN")), index: None }, Box::new(Node::U8(x))), None, true), 2 => ck(m, &OffE::A(x), &Node::Enum(Hdr { tag: None, label: Some(ident("OffE")), index: None }, Some(Box::new(Node::Tagged(Hdr { tag: None, label: Some(ident("A")), index: Some(off(0)) }, Box::new(Node::U8(x)))))), None, true), 3 => ck(m, &OffE::B, &Node::Enum(Hdr { tag: None, label: Some(ident("OffE")), index: None }, Some(Box::new(Node::Tag(Hdr { tag: None, label: Some(ident("B")), index: Some(off(1)) })))), None, true), 4 => ck(m, &Gen1::<str, 1> { a: "t", b: [x] }, &Node::RecordTuple(Hdr { tag: None, label: Some(ident("Gen1")), index: None }, Some(2), vec![(None, ident("a"), off(0), Node::Text(Some(1), vec![(false, "t")])), (None, ident("b"), off(1), Node::Tagged(Hdr { tag: Some(sval::tags::CONSTANT_SIZE), ..Hdr::default() }, Box::new(Node::Seq(Some(1), vec![Node::U8(x)]))))]), None, true), 5 => ck(m, &Gen2::<u8, bool>::Both(x, true), &Node::Enum(Hdr { tag: None, label: Some(ident("Gen2")), index: None }, Some(Box::new(Node::Tuple(Hdr { tag: None, label: Some(ident("Both")), index: Some(off(0)) }, Some(2), vec![(None, off(0), Node::U8(x)), (None, off(1), Node::Bool(true))])))), None, true), _ => ck(m, &Gen2::<u8, Gen3<u8>>::Right { r: Gen3(x) }, &Node::Enum(Hdr { tag: None, label: Some(ident("Gen2")), index: None }, Some(Box::new(Node::RecordTuple(Hdr { tag: None, label: Some(lit("right")), index: Some(off(1)) }, Some(1), vec![(None, ident("r"), off(0), Node::Tagged(Hdr { tag: None, label: Some(ident("Gen3")), index: None }, Box::new(Node::U8(x))))])))), None, true), } }

pub const STRUCTS: &[fn(Mode)] = &[structs_0, structs_1, structs_2, structs_3, structs_4, structs_5, structs_6, structs_7, structs_8, structs_9, structs_10, structs_11, structs_12, structs_13, structs_14, structs_15, structs_16, structs_17, structs_18, structs_19, structs_20, structs_21, structs_22, structs_23, structs_24, structs_25, structs_26, structs_27, structs_28, structs_29, structs_30, structs_31, structs_32, structs_33, structs_34, structs_35, structs_36, structs_37, structs_38, structs_39, structs_40, structs_41, structs_42, structs_43, structs_44, structs_45, structs_46, structs_47, structs_48, structs_49, structs_50, structs_51, structs_52, structs_53, structs_54, structs_55, structs_56, structs_57, structs_58, structs_59, structs_60, structs_61, structs_62, structs_63, structs_64, structs_65, structs_66, structs_67, structs_68, structs_69, structs_70, structs_71, structs_72, structs_73, structs_74, structs_75, structs_76, structs_77, structs_78, structs_79, structs_80, structs_81, structs_82, structs_83, structs_84, structs_85, structs_86, structs_87, structs_88, structs_89, structs_90, structs_91, structs_92, structs_93, structs_94, structs_95, structs_96, structs_97, structs_98, structs_99, structs_100, structs_101, structs_102, structs_103];

pub const FLATS: &[fn(Mode)] = &[flats_0, flats_1, flats_2, flats_3, flats_4, flats_5, flats_6, flats_7, flats_8, flats_9, flats_10, flats_11, flats_12, flats_13, flats_14, flats_15, flats_16, flats_17, flats_18, flats_19, flats_20, flats_21, flats_22, flats_23, flats_24, flats_25, flats_26, flats_27, flats_28, flats_29, flats_30, flats_31, flats_32, flats_33, flats_34, flats_35, flats_36, flats_37, flats_38, flats_39, flats_40, flats_41, flats_42, flats_43, flats_44, flats_45, flats_46, flats_47];

pub const SCALARS: &[fn(Mode)] = &[scalars_0, scalars_1, scalars_2, scalars_3, scalars_4, scalars_5, scalars_6, scalars_7, scalars_8, scalars_9, scalars_10, scalars_11, scalars_12, scalars_13, scalars_14, scalars_15, scalars_16, scalars_17];

pub const ENUMS: &[fn(Mode)] = &[enums_0, enums_1, enums_2, enums_3, enums_4, enums_5, enums_6, enums_7, enums_8, enums_9, enums_10, enums_11, enums_12, enums_13, enums_14, enums_15, enums_16, enums_17, enums_18, enums_19, enums_20, enums_21, enums_22, enums_23, enums_24, enums_25, enums_26, enums_27, enums_28, enums_29, enums_30, enums_31, enums_32, enums_33, enums_34, enums_35, enums_36, enums_37, enums_38, enums_39, enums_40, enums_41, enums_42, enums_43, enums_44, enums_45, enums_46, enums_47, enums_48, enums_49, enums_50, enums_51, enums_52, enums_53, enums_54, enums_55, enums_56, enums_57, enums_58, enums_59, enums_60, enums_61, enums_62, enums_63, enums_64, enums_65, enums_66, enums_67];

pub const FLAT_ENUMS: &[fn(Mode)] = &[flat_enums_0, flat_enums_1, flat_enums_2, flat_enums_3, flat_enums_4, flat_enums_5, flat_enums_6, flat_enums_7];

pub const LARGES: &[fn(Mode)] = &[larges_0, larges_1, larges_2, larges_3, larges_4, larges_5, larges_6, larges_7, larges_8, larges_9, larges_10, larges_11, larges_12, larges_13, larges_14];

pub const EDGES: &[fn(Mode)] = &[edges_0, edges_1, edges_2, edges_3, edges_4, edges_5, edges_6, edges_7, edges_8, edges_9, edges_10, edges_11, edges_12, edges_13, edges_14, edges_15, edges_16, edges_17, edges_18, edges_19, edges_20, edges_21, edges_22, edges_23, edges_24, edges_25, edges_26, edges_27, edges_28, edges_29, edges_30, edges_31, edges_32, edges_33, edges_34, edges_35, edges_36, edges_37, edges_38, edges_39, edges_40, edges_41, edges_42, edges_43, edges_44, edges_45, edges_46, edges_47, edges_48, edges_49, edges_50, edges_51, edges_52, edges_53, edges_54, edges_55, edges_56, edges_57, edges_58, edges_59, edges_60, edges_61, edges_62];
